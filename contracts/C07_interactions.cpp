// C07 interaction container: the real InteractionContainer / Interaction / BodyContainer / Body.  Every operation is applied to every
// container state reachable by inserting up to 3 of the 6 pairs of 4 bodies (any order, either id order) -- shapes are bounded, labels
// and payloads are not inspected by the code.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/NormShearPhys.hpp>
#include <pkg/dem/ScGeom.hpp>
ScGeom::~ScGeom() {} ScGeom6D::~ScGeom6D() {}

static const int NBD = 4;
static const int PA[6] = { 0, 0, 0, 1, 1, 2 }, PB[6] = { 1, 2, 3, 2, 3, 3 };
struct Cx { Scene* sc; InteractionContainer* ic; int n; int pair[3]; Interaction* I[3]; };
// what the bodies are otherwise (flags, masks, clump membership, subdomain) is arbitrary unless the operation itself depends on it
static Scene* mkScene(bool any = true)
{
	vp_nthreads(1); vp_thread(0);
	Scene* sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc);
	sc->iter = vp_long("iter", 0, 1000000);
	for (int i = 0; i < NBD; i++) { Body* b = new Body; b->id = i; sc->bodies->body.push_back(shared_ptr<Body>(b));
		if (any) { b->flags = (unsigned)vp_long("flags", 0, 127); b->clumpId = vp_long("clump", -1, NBD); b->groupMask = vp_long("mask", 0, 255); b->subdomain = vp_long("subdomain", 0, 3); }
	}
	sc->interactions->bodies = &sc->bodies->body;
	return sc;
}
static void real(Interaction* I) { I->geom.reset(new ScGeom); I->phys.reset(new NormShearPhys); }
static Interaction* ins(InteractionContainer* ic, int p, bool flip, bool& ok)
{
	shared_ptr<Interaction> s(flip ? new Interaction(PB[p], PA[p]) : new Interaction(PA[p], PB[p]));
	ok = ic->insert(s);
	return s.get();
}
// state of n interactions (pairwise distinct pairs), the k-th one real when the k-th bit of realMask is set
static void mk(Cx& c, int n, unsigned realMask, bool any = true)
{
	c.sc = mkScene(any); c.ic = c.sc->interactions.get(); c.n = n;
	static const int P[6][3] = { { 0, 1, 2 }, { 3, 0, 5 }, { 4, 2, 1 }, { 5, 4, 3 }, { 1, 5, 0 }, { 2, 3, 4 } };
	int s = vp_choice("pairs", 6), fl = vp_choice("flip", 2);
	for (int k = 0; k < n; k++) {
		bool ok;
		c.pair[k] = P[s][k];
		c.I[k] = ins(c.ic, c.pair[k], (k + fl) % 2, ok);
		if (realMask & (1u << k)) real(c.I[k]);
	}
}
// representation: linear list and per-body maps tell the same story; exactly the given pairs are present
static void inv(Cx& c, int n, const int* pair, Interaction* const* I, const char* l)
{
	vp_check(c.ic->size() == (size_t)n && (size_t)(c.ic->end() - c.ic->begin()) == (size_t)n, l);
	for (int k = 0; k < n; k++) {
		const shared_ptr<Interaction>& x = (*c.ic)[k];
		vp_check((bool)x && x->linIx == k, l);
		int cnt = 0;
		for (int m = 0; m < n; m++) if (I[m] == x.get()) cnt++;
		vp_check(cnt == 1, l);
	}
	for (int p = 0; p < 6; p++) {
		Interaction* e = 0;
		for (int m = 0; m < n; m++) if (pair[m] == p) e = I[m];
		const shared_ptr<Body>&a = (*c.sc->bodies)[PA[p]], &b = (*c.sc->bodies)[PB[p]];
		if (a && b) {
			vp_check(c.ic->find(PA[p], PB[p]).get() == e && c.ic->find(PB[p], PA[p]).get() == e, "find returns the interaction of the pair in either order, or nothing");
			vp_check(c.ic->found(PA[p], PB[p]) == (e != 0) && c.ic->found(PB[p], PA[p]) == (e != 0), "found agrees with find in either order");
		}
		if (a) { vp_check(a->intrs.count(PB[p]) == (e ? 1u : 0u), "each body lists exactly its interactions"); if (e) vp_check(a->intrs.find(PB[p])->second.get() == e, "each body lists exactly its interactions"); }
		if (b) { vp_check(b->intrs.count(PA[p]) == (e ? 1u : 0u), "each body lists exactly its interactions"); if (e) vp_check(b->intrs.find(PA[p])->second.get() == e, "each body lists exactly its interactions"); }
	}
}
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_insert)
{
	Cx c; int n = vp_choice("n", 3); mk(c, n, 0);
	int p = vp_choice("p", 6); bool flip = vp_bool("flip2");
	int dup = -1; for (int k = 0; k < n; k++) if (c.pair[k] == p) dup = k;
	bool ok; Interaction* x = ins(c.ic, p, flip, ok);
	vp_check(ok == (dup < 0), "insertion succeeds exactly when the pair is not there yet");
	int pr[4]; Interaction* I[4];
	for (int k = 0; k < n; k++) { pr[k] = c.pair[k]; I[k] = c.I[k]; }
	if (ok) {
		pr[n] = p; I[n] = x; n++;
		vp_check(x->iterBorn == c.sc->iter, "birth step recorded");
		vp_check(!x->isReal() && x->isActive, "a new interaction is potential and active");
	}
	inv(c, n, pr, I, "the container holds each pair once, and the linear list matches");
	vp_cover("done");
}
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_erase)
{
	Cx c; mk(c, 3, 0);
	int p = vp_choice("p", 6); bool flip = vp_bool("flip2");
	int k0 = -1; for (int k = 0; k < 3; k++) if (c.pair[k] == p) k0 = k;
	if (k0 < 0) { vp_check(!c.ic->erase(PA[p], PB[p], -1), "erasing an absent pair reports failure"); inv(c, 3, c.pair, c.I, "erasing an absent pair changes nothing"); return; }
	shared_ptr<Interaction> keep = (*c.ic)[c.I[k0]->linIx];
	int a = flip ? PB[p] : PA[p], b = flip ? PA[p] : PB[p];
	vp_check(c.ic->erase(a, b, keep->linIx), "erasing a present pair succeeds");
	int pr[4]; Interaction* I[4]; int n = 0;
	for (int k = 0; k < 3; k++) if (k != k0) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
	inv(c, n, pr, I, "exactly the erased pair is gone, and the linear list matches");
	bool ok; Interaction* x = ins(c.ic, p, !flip, ok);
	vp_check(ok, "an erased pair can be inserted again");
	pr[n] = p; I[n] = x; n++;
	inv(c, n, pr, I, "the container holds each pair once, and the linear list matches");
	vp_cover("done");
}
// a body is erased from the simulation: all its interactions become potential at once; removal and re-use of the id stay consistent
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_body_erased)
{
	Cx c; mk(c, 3, 7, false);
	int d = vp_choice("d", NBD);
	vp_check(c.sc->bodies->erase(d, false), "erasing an existing body succeeds");
	vp_check(!c.sc->bodies->exists(d), "the erased body is gone");
	for (int k = 0; k < 3; k++) {
		bool touch = PA[c.pair[k]] == d || PB[c.pair[k]] == d;
		vp_check(c.I[k]->isReal() == !touch, "exactly the interactions of the erased body stop being real");
	}
	int pr[4]; Interaction* I[4]; int n = 0;
	shared_ptr<Interaction> hold[3];
	for (int k = 0; k < 3; k++) hold[k] = (*c.ic)[c.I[k]->linIx];
	for (int k = 0; k < 3; k++) {
		if (c.I[k]->isReal()) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
		else vp_check(c.ic->erase(c.I[k]->getId1(), c.I[k]->getId2(), c.I[k]->linIx), "interaction with a deleted body can be removed by its position");
	}
	inv(c, n, pr, I, "no trace of the interactions of a deleted body remains");
	// id used again
	shared_ptr<Body> nb(new Body);
	vp_check(c.sc->bodies->insertAtId(nb, d) == d && nb->id == d, "a free id can be used again");
	int p = vp_choice("p", 6);
	int k0 = -1; for (int k = 0; k < n; k++) if (pr[k] == p) k0 = k;
	bool ok; Interaction* x = ins(c.ic, p, false, ok);
	vp_check(ok == (k0 < 0), "insertion succeeds exactly when the pair is not there yet");
	if (ok) { pr[n] = p; I[n] = x; n++; }
	inv(c, n, pr, I, "the container holds each pair once, and the linear list matches");
	vp_cover("done");
}
// the id of an erased body is used again while its interactions are still stored as potential
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_reused_id)
{
	Cx c; mk(c, 3, 0, false);
	int d = vp_choice("d", NBD);
	c.sc->bodies->erase(d, false);
	c.sc->bodies->insertAtId(shared_ptr<Body>(new Body), d);
	int k0 = vp_choice("k", 3), p = c.pair[k0];
	bool ok; ins(c.ic, p, vp_bool("flip2"), ok);
	vp_check(!ok, "a pair still stored is not inserted twice");
	vp_check(c.ic->size() == 3, "a pair still stored is not inserted twice");
	vp_check(c.ic->find(PA[p], PB[p]).get() == c.I[k0], "the stored interaction of the pair is the one found");
	vp_check((*c.sc->bodies)[PA[p]]->intrs[PB[p]].get() == c.I[k0] && (*c.sc->bodies)[PB[p]]->intrs[PA[p]].get() == c.I[k0], "both bodies list the stored interaction");
	vp_check(c.ic->erase(PA[p], PB[p], c.I[k0]->linIx), "it can be removed");
	vp_check(!c.ic->find(PA[p], PB[p]) && c.ic->size() == 2, "removing it removes exactly it");
	for (int k = 0; k < 2; k++) vp_check((*c.ic)[k]->linIx == k && (*c.ic)[k].get() != c.I[k0], "removing it removes exactly it");
	vp_cover("done");
}
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_request_erase)
{
	Cx c; mk(c, 3, 7);
	int k0 = vp_choice("k", 3), w = vp_choice("how", 4), p = c.pair[k0];
	Vector3i cd(vp_int("cd", -9, 9), vp_int("cd", -9, 9), vp_int("cd", -9, 9));
	c.I[k0]->cellDist = cd; c.I[k0]->iterMadeReal = 5; c.I[k0]->isActive = false; c.I[k0]->functorCache.geomExists = false;
	if (w == 0) c.ic->requestErase(PA[p], PB[p]); else if (w == 1) c.ic->requestErase(PB[p], PA[p]); else if (w == 2) c.ic->requestErase((*c.ic)[c.I[k0]->linIx]); else c.ic->requestErase(c.I[k0]);
	for (int k = 0; k < 3; k++) vp_check(c.I[k]->isReal() == (k != k0), "exactly the requested interaction is reset");
	Interaction* x = c.I[k0];
	vp_check(!x->geom && !x->phys && x->iterMadeReal == -1 && x->isActive && x->functorCache.geomExists && !x->functorCache.geom && !x->functorCache.phys && !x->functorCache.constLaw, "a reset interaction is as newly created");
	for (int i = 0; i < 3; i++) vp_check(x->cellDist[i] == cd[i], "period information survives the reset");
	inv(c, 3, c.pair, c.I, "a reset interaction stays stored as potential");
	vp_cover("done");
}
struct Pred { unsigned m; Cx* c; bool shouldBeErased(Body::id_t a, Body::id_t b, Scene*) const { for (int k = 0; k < 3; k++) { int p = c->pair[k]; if ((PA[p] == a && PB[p] == b) || (PA[p] == b && PB[p] == a)) return m & (1u << k); } return false; } };
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_cond_erase)
{
	Cx c; unsigned r = vp_choice("real", 8); mk(c, 3, r);
	Pred P; P.m = vp_choice("pred", 8); P.c = &c;
	int pr[4]; Interaction* I[4]; int n = 0;
	for (int k = 0; k < 3; k++) if ((r & (1u << k)) || !(P.m & (1u << k))) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
	size_t e = c.ic->conditionalyEraseNonReal(P, c.sc);
	vp_check(e == (size_t)(3 - n), "number of erased interactions reported");
	inv(c, n, pr, I, "exactly the potential interactions the collider gives up are erased");
	vp_cover("done");
}
// same with several threads (the list to erase is built per thread, then applied from the back)
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_cond_erase_omp)
{
	Cx c; unsigned r = vp_choice("real", 8); mk(c, 3, r);
	vp_nthreads(2);
	Pred P; P.m = vp_choice("pred", 8); P.c = &c;
	int pr[4]; Interaction* I[4]; int n = 0;
	for (int k = 0; k < 3; k++) if ((r & (1u << k)) || !(P.m & (1u << k))) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
	size_t e = c.ic->conditionalyEraseNonReal(P, c.sc);
	vp_check(e == (size_t)(3 - n), "number of erased interactions reported");
	inv(c, n, pr, I, "exactly the potential interactions the collider gives up are erased");
	vp_cover("done");
}
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_erase_nonreal)
{
	Cx c; unsigned r = vp_choice("real", 8); mk(c, 3, r);
	int pr[4]; Interaction* I[4]; int n = 0;
	for (int k = 0; k < 3; k++) if (r & (1u << k)) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
	c.ic->eraseNonReal();
	inv(c, n, pr, I, "exactly the potential interactions are erased");
	vp_cover("done");
}
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_clear)
{
	Cx c; mk(c, vp_choice("n", 4), 5);
	c.ic->clear();
	inv(c, 0, 0, 0, "clear removes every interaction from the list and from the bodies");
	vp_check(c.ic->dirty, "clear tells the collider to start over");
	vp_cover("done");
}
// save/load round trip of the container
// @opts bounded=4-bodies-3-interactions
HARNESS(c07_save_load)
{
	Cx c; unsigned r = vp_choice("real", 8); mk(c, 3, r);
	c.ic->serializeSorted = vp_bool("sorted");
	long born[3]; for (int k = 0; k < 3; k++) born[k] = c.I[k]->iterBorn;
	shared_ptr<Interaction> hold[3];
	for (int k = 0; k < 3; k++) hold[k] = (*c.ic)[c.I[k]->linIx];
	c.ic->preSave(*c.ic);
	std::vector<shared_ptr<Interaction> > saved = c.ic->interaction;
	c.ic->postSave(*c.ic);
	vp_check(c.ic->interaction.empty(), "nothing is kept after saving");
	inv(c, 3, c.pair, c.I, "saving changes nothing");
	int pr[4]; Interaction* I[4]; int n = 0;
	for (int k = 0; k < 3; k++) if (r & (1u << k)) { pr[n] = c.pair[k]; I[n] = c.I[k]; n++; }
	vp_check(saved.size() == (size_t)n, "exactly the interactions with geometry or physics are saved");
	int d = vp_choice("missing", NBD + 1);   // body missing in the loaded scene (NBD: none)
	if (d < NBD) c.sc->bodies->body[d].reset();
	c.ic->preLoad(*c.ic);
	c.ic->interaction = saved;
	c.ic->postLoad__calledFromScene(c.sc->bodies);
	int n2 = 0;
	for (int k = 0; k < n; k++) if (PA[pr[k]] != d && PB[pr[k]] != d) { pr[n2] = pr[k]; I[n2] = I[k]; n2++; }
	inv(c, n2, pr, I, "loading restores every saved interaction of existing bodies");
	vp_cover("done");
}
// pairs out of range are not there
HARNESS(c07_out_of_range)
{
	Cx c; mk(c, 2, 0);
	int far = vp_int("far", 4, 1000000);
	vp_check(!c.ic->find(0, far) && !c.ic->find(far, 1), "find of an id beyond the bodies returns nothing");
	vp_check(!c.ic->found(1, far), "found of an id beyond the bodies is false");
	vp_check(!c.ic->erase(far, 0, -1), "erase of an id beyond the bodies reports failure");
	for (int i = 0; i < NBD; i++) vp_check(!c.ic->found(i, i), "no body interacts with itself");
	vp_cover("done");
}
// order of bodies may only be swapped while potential, and then the period is mirrored
// @opts allow_throw=1
HARNESS(c07_swap)
{
	mkScene(false);
	int a = vp_int("a", 0, 1000000), b = vp_int("b", 0, 1000000);
	Interaction* I = new Interaction(a, b);
	Vector3i cd(vp_int("cd", -9, 9), vp_int("cd", -9, 9), vp_int("cd", -9, 9)); I->cellDist = cd;
	int w = vp_choice("w", 4);
	if (w & 1) I->geom.reset(new ScGeom);
	if (w & 2) I->phys.reset(new NormShearPhys);
	bool thrown = false;
	try { I->swapOrder(); } catch (std::logic_error&) { thrown = true; }
	vp_check(thrown == (w != 0), "bodies are swapped only in a potential interaction");
	int s = thrown ? 1 : -1;
	vp_check(I->getId1() == (thrown ? a : b) && I->getId2() == (thrown ? b : a), "ids swapped");
	for (int i = 0; i < 3; i++) vp_check(I->cellDist[i] == s * cd[i], "period mirrored");
	vp_check(I->isReal() == (w == 3), "real means geometry and physics");
	vp_cover("done");
}
