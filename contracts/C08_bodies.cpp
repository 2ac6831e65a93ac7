// C08 body container and C10-independent body bookkeeping: the real BodyContainer / Body / Clump membership code.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/NormShearPhys.hpp>
#include <pkg/dem/ScGeom.hpp>
ScGeom::~ScGeom() {} ScGeom6D::~ScGeom6D() {}

static Scene* mkScene()
{
	vp_nthreads(1); vp_thread(0);
	Scene* sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc);
	sc->iter = vp_long("iter", 0, 1000000); sc->time = vp_nonneg("time"); sc->doSort = false;
	sc->interactions->bodies = &sc->bodies->body;
	return sc;
}
static const int N = 4;
// container of n slots, slot i occupied when the i-th bit of occ is set
static void mk(Scene* sc, int n, unsigned occ, Body** b)
{
	for (int i = 0; i < n; i++) {
		b[i] = 0;
		if (occ & (1u << i)) { b[i] = new Body; b[i]->id = i; }
		sc->bodies->body.push_back(shared_ptr<Body>(b[i]));
	}
}
static void same(Scene* sc, int n, Body** b, const char* l) { for (int i = 0; i < n; i++) { vp_check((*sc->bodies)[i].get() == b[i], l); if (b[i]) vp_check(b[i]->id == i, l); vp_check(sc->bodies->exists(i) == (b[i] != 0), "exists tells whether the slot is occupied"); } }
// @opts bounded=4-slots
HARNESS(c08_insert)
{
	Scene* sc = mkScene(); Body* b[N + 1];
	int n = vp_choice("n", N + 1); unsigned occ = vp_choice("occ", 1 << n);
	mk(sc, n, occ, b);
	Body* x = new Body;
	int id = sc->bodies->insert(shared_ptr<Body>(x));
	vp_check(id == n && x->id == n, "a new body gets the id after the last slot, ids of erased bodies are not re-used silently");
	vp_check(sc->bodies->size() == (size_t)n + 1, "one slot added");
	b[n] = x; same(sc, n + 1, b, "other bodies keep their ids");
	vp_check(x->iterBorn == sc->iter, "birth step recorded"); vp_eq(x->timeBorn, sc->time, "birth time recorded");
	vp_check(sc->doSort, "the collider is told about the new body");
	sc->forces.sync();
	vp_check(id == 0 || sc->forces._force.size() > (size_t)id, "forces have room for the new body");
	vp_cover("done");
}
// @opts bounded=4-slots
HARNESS(c08_insert_at)
{
	Scene* sc = mkScene(); Body* b[N + 1];
	int n = vp_choice("n", N + 1); unsigned occ = vp_choice("occ", 1 << n);
	mk(sc, n, occ, b);
	int c = vp_choice("c", N + 3) - 1;
	bool free = c >= 0 && c < n && !b[c];
	Body* x = new Body;
	int id = sc->bodies->insertAtId(shared_ptr<Body>(x), c);
	vp_check(id == (free ? c : -1), "insertion at an id succeeds exactly when the slot exists and is free");
	if (free) { b[c] = x; vp_check(x->id == c && x->iterBorn == sc->iter, "id and birth recorded"); vp_check(sc->doSort, "the collider is told about the new body"); }
	vp_check(sc->bodies->size() == (size_t)n, "no slot added");
	same(sc, n, b, "other bodies unchanged");
	vp_cover("done");
}
// @opts bounded=4-slots
HARNESS(c08_erase)
{
	Scene* sc = mkScene(); Body* b[N + 1];
	int n = vp_choice("n", N + 1); unsigned occ = vp_choice("occ", 1 << n);
	mk(sc, n, occ, b);
	int c = vp_choice("c", N + 3) - 1;
	bool there = c >= 0 && c < n && b[c];
	shared_ptr<Body> hold; if (there) hold = (*sc->bodies)[c];
	vp_check(sc->bodies->erase(c, vp_bool("members")) == there, "erase succeeds exactly when the body exists");
	if (there) { b[c] = 0; vp_check(hold->id == Body::ID_NONE, "an erased body has no id any more"); }
	vp_check(sc->bodies->size() == (size_t)n, "slots stay, so other ids stay valid");
	same(sc, n, b, "other bodies unchanged");
	vp_cover("done");
}
// iteration visits exactly the existing bodies, in order of their ids
// @opts bounded=5-slots
HARNESS(c08_iterate)
{
	Scene* sc = mkScene(); Body* b[6];
	int n = vp_choice("n", 6); unsigned occ = vp_choice("occ", 1 << n);
	mk(sc, n, occ, b);
	int seen[6], k = 0;
	FOREACH(const shared_ptr<Body>& x, *sc->bodies) { vp_check((bool)x && k < 6, "iteration yields existing bodies only"); seen[k++] = x->id; }
	int e = 0;
	for (int i = 0; i < n; i++) if (b[i]) { vp_check(e < k && seen[e] == i, "iteration visits every existing body once, in order"); e++; }
	vp_check(e == k, "iteration visits every existing body once, in order");
	int k2 = 0;
	for (const auto& x : *sc->bodies) { vp_check((bool)x && k2 < k && seen[k2] == x->id, "range iteration agrees"); k2++; }
	vp_check(k2 == k, "range iteration agrees");
	vp_cover("done");
}
// a body is exactly one of clump, clump member, standalone
HARNESS(c08_roles)
{
	mkScene();
	Body* b = new Body; b->id = vp_int("id", -1, 1000000); b->clumpId = vp_int("clumpId", -1, 1000000);
	int s = (b->isClump() ? 1 : 0) + (b->isClumpMember() ? 1 : 0) + (b->isStandalone() ? 1 : 0);
	vp_check(s == 1, "exactly one of clump, clump member, standalone");
	vp_check(b->isStandalone() == (b->clumpId == Body::ID_NONE), "standalone means no clump");
	vp_check(b->isClump() == (b->clumpId != -1 && b->clumpId == b->id), "a clump carries its own id as clump id");
	vp_cover("done");
}
// flags are independent of each other
HARNESS(c08_flags)
{
	mkScene();
	Body* b = new Body;
	bool f[3] = { vp_bool("bnd"), vp_bool("asp"), vp_bool("sub") };
	b->setBounded(f[0]); b->setAspherical(f[1]); b->setIsSubdomain(f[2]);
	int w = vp_choice("w", 3); bool v = vp_bool("v");
	if (w == 0) b->setBounded(v); else if (w == 1) b->setAspherical(v); else b->setIsSubdomain(v);
	f[w] = v;
	vp_check(b->isBounded() == f[0] && b->isAspherical() == f[1] && b->getIsSubdomain() == f[2], "setting one flag changes that flag only");
	vp_cover("done");
}
// fixing and freeing bodies
HARNESS(c08_dynamic)
{
	mkScene();
	Body* b = new Body;
	b->state->vel = vpVec("v"); b->state->angVel = vpVec("w");
	Vector3r v = b->state->vel, w = b->state->angVel;
	bool d = vp_bool("d");
	b->setDynamic(d);
	vp_check(b->isDynamic() == d, "dynamic flag as set");
	vpEqV(b->state->vel, d ? v : Vector3r(Vector3r::Zero()), "a body made fixed stops, a body freed keeps its velocity");
	vpEqV(b->state->angVel, d ? w : Vector3r(Vector3r::Zero()), "a body made fixed stops, a body freed keeps its velocity");
	vp_cover("done");
}
// group masks
HARNESS(c08_mask)
{
	mkScene();
	Body *a = new Body, *b = new Body;
	unsigned ma = vp_bits("ma"), mb = vp_bits("mb");
	a->groupMask = ma; b->groupMask = mb;
	vp_check(a->maskCompatible((int)mb) == ((ma & mb) != 0), "masks are compatible when they share a bit");
	vp_check(a->maskCompatible(b->groupMask) == b->maskCompatible(a->groupMask), "mask compatibility is symmetric");
	vp_check(a->maskOk((int)mb) == (mb == 0 || (ma & mb) != 0), "zero mask selects every body, otherwise those sharing a bit");
	vp_cover("done");
}
// clump 4 with members 0..m-1, body 3 standalone
static void mkClump(Scene* sc, int m, Body** b)
{
	mk(sc, 5, 31, b);
	Clump* c = new Clump; b[4]->shape.reset(c); b[4]->clumpId = 4;
	for (int i = 0; i < m; i++) Clump::add((*sc->bodies)[4], (*sc->bodies)[i]);
}
static bool isMember(Body* cl, int i) { return static_cast<Clump*>(cl->shape.get())->members.count(i) == 1; }
// adding
// @opts bounded=3-members
HARNESS(c08_clump_add)
{
	Scene* sc = mkScene(); Body* b[5];
	int m = vp_choice("m", 4);
	mkClump(sc, m, b);
	for (int i = 0; i < 4; i++) {
		vp_check(isMember(b[4], i) == (i < m), "membership listed by the clump");
		vp_check(b[i]->isClumpMember() == (i < m) && b[i]->isStandalone() == (i >= m), "members know their clump");
		if (i < m) vp_check(b[i]->clumpId == 4, "members know their clump");
	}
	vp_check(b[4]->isClump() && (m == 0 || !b[4]->isBounded()), "the clump itself never collides");
	vp_check(static_cast<Clump*>(b[4]->shape.get())->members.size() == (size_t)m, "membership listed by the clump");
	vp_cover("done");
}
// adding the member of any clump is refused and changes nothing
// @opts allow_throw=1 bounded=3-members
HARNESS(c08_clump_add_twice)
{
	Scene* sc = mkScene(); Body* b[5];
	mkClump(sc, 2, b);
	Body* other = new Body; other->id = 5; other->clumpId = 5; other->shape.reset(new Clump); sc->bodies->body.push_back(shared_ptr<Body>(other));
	int w = vp_choice("w", 2), i = vp_choice("i", 2);
	bool thrown = false;
	try { Clump::add((*sc->bodies)[w ? 5 : 4], (*sc->bodies)[i]); } catch (std::invalid_argument&) { thrown = true; }
	vp_check(thrown, "a body cannot be member of two clumps, or twice of one");
	vp_check(b[i]->clumpId == 4 && isMember(b[4], i) && !isMember(other, i), "refused addition changes nothing");
	vp_cover("done");
}
// adding a clump to a clump takes over its members
// @opts bounded=3-members
HARNESS(c08_clump_add_clump)
{
	Scene* sc = mkScene(); Body* b[5];
	int m = 1 + vp_choice("m", 3);
	mkClump(sc, m, b);
	Body* other = new Body; other->id = 5; other->clumpId = 5; other->shape.reset(new Clump); sc->bodies->body.push_back(shared_ptr<Body>(other));
	Clump::add((*sc->bodies)[5], (*sc->bodies)[4]);
	for (int i = 0; i < 4; i++) { vp_check(isMember(other, i) == (i < m), "members taken over"); vp_check(b[i]->clumpId == (i < m ? 5 : -1), "members taken over"); }
	vp_cover("done");
}
// @opts bounded=3-members allow_throw=1
HARNESS(c08_clump_del)
{
	Scene* sc = mkScene(); Body* b[5];
	int m = vp_choice("m", 4), i = vp_choice("i", 4);
	mkClump(sc, m, b);
	bool thrown = false;
	try { Clump::del((*sc->bodies)[4], (*sc->bodies)[i]); } catch (std::invalid_argument&) { thrown = true; }
	vp_check(thrown == (i >= m), "only members can be taken out");
	for (int k = 0; k < 4; k++) { bool in = k < m && k != i; vp_check(isMember(b[4], k) == in && b[k]->isClumpMember() == in, "exactly the member is released"); }
	vp_cover("done");
}
// erasing members one by one: the clump goes with the last one
// @opts bounded=3-members
HARNESS(c08_erase_member)
{
	Scene* sc = mkScene(); Body* b[5];
	int m = 1 + vp_choice("m", 3), i = vp_choice("i", 3);
	vp_assume(i < m);
	mkClump(sc, m, b);
	shared_ptr<Body> hold = (*sc->bodies)[4];
	vp_check(sc->bodies->erase(i, false), "erase succeeds");
	vp_check(!sc->bodies->exists(i), "the member is gone");
	vp_check(sc->bodies->exists(4) == (m > 1), "a clump exists exactly as long as it has members");
	for (int k = 0; k < 4; k++) if (k != i) { vp_check(sc->bodies->exists(k), "other bodies stay"); vp_check(isMember(hold.get(), k) == (k < m) && b[k]->isClumpMember() == (k < m), "other members stay members"); }
	vp_check(!isMember(hold.get(), i), "no clump lists an erased body");
	vp_cover("done");
}
// erasing the clump: members go with it, or become standalone
// @opts bounded=3-members
HARNESS(c08_erase_clump)
{
	Scene* sc = mkScene(); Body* b[5];
	int m = 1 + vp_choice("m", 3); bool all = vp_bool("all");
	mkClump(sc, m, b);
	shared_ptr<Body> hold[5]; for (int k = 0; k < 5; k++) hold[k] = (*sc->bodies)[k];
	vp_check(sc->bodies->erase(4, all), "erase succeeds");
	vp_check(!sc->bodies->exists(4), "the clump is gone");
	for (int k = 0; k < 4; k++) {
		vp_check(sc->bodies->exists(k) == !(all && k < m), "members are erased with the clump exactly when asked for");
		vp_check(b[k]->clumpId == Body::ID_NONE && !b[k]->isClumpMember(), "no body refers to an erased clump");
	}
	vp_cover("done");
}
// number of contacts of a body counts real interactions only
// @opts bounded=3-interactions
HARNESS(c08_coordination)
{
	Scene* sc = mkScene(); Body* b[4]; mk(sc, 4, 15, b);
	unsigned r = vp_choice("real", 8), n = 0;
	for (int k = 1; k < 4; k++) {
		shared_ptr<Interaction> I(new Interaction(k % 2 ? 0 : k, k % 2 ? k : 0));
		sc->interactions->insert(I);
		if (r & (1u << (k - 1))) { I->geom.reset(new ScGeom); I->phys.reset(new NormShearPhys); n++; }
	}
	vp_check(b[0]->coordNumber() == n, "coordination number counts real interactions");
	for (int k = 1; k < 4; k++) vp_check(b[k]->coordNumber() == ((r >> (k - 1)) & 1), "coordination number counts real interactions");
	vp_cover("done");
}
