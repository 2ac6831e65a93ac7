// C14 contact pipeline: the real InteractionLoop, dispatchers and dispatch matrices, with recording functors (arbitrary results).
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/Dispatching.cpp>
#include <pkg/common/InteractionLoop.cpp>
#include <pkg/common/Sphere.hpp>
#include <pkg/common/Box.hpp>
#include <pkg/common/Facet.hpp>
#include <pkg/common/Cylinder.hpp>
#include <pkg/common/ElastMat.hpp>
#include <pkg/dem/FrictPhys.hpp>
#include <pkg/dem/ScGeom.hpp>
ScGeom::~ScGeom() {} ScGeom6D::~ScGeom6D() {} Facet::~Facet() {} Cylinder::~Cylinder() {} ChainedCylinder::~ChainedCylinder() {}
void Facet::postLoad(Facet&) {}
// the class registry: an instance of the named class
DynLibManager::DynLibManager() {} DynLibManager::~DynLibManager() {}
template <> ClassFactory* Singleton<ClassFactory>::self = NULL;
shared_ptr<Factorable> ClassFactory::createShared(std::string n)
{
	if (n == "Sphere") return shared_ptr<Factorable>(new Sphere); if (n == "Box") return shared_ptr<Factorable>(new Box); if (n == "Facet") return shared_ptr<Factorable>(new Facet);
	if (n == "Cylinder") return shared_ptr<Factorable>(new Cylinder); if (n == "ChainedCylinder") return shared_ptr<Factorable>(new ChainedCylinder);
	if (n == "FrictMat") return shared_ptr<Factorable>(new FrictMat); if (n == "ElastMat") return shared_ptr<Factorable>(new ElastMat);
	if (n == "ScGeom") return shared_ptr<Factorable>(new ScGeom); if (n == "FrictPhys") return shared_ptr<Factorable>(new FrictPhys); if (n == "NormShearPhys") return shared_ptr<Factorable>(new NormShearPhys);
	throw std::runtime_error("no such class");
}
static void indices() { new Sphere; new Box; new Facet; new Cylinder; new ChainedCylinder; new ElastMat; new FrictMat; new ScGeom; new ScGeom6D; new NormPhys; new NormShearPhys; new FrictPhys; }

// ---- what the functors were asked
struct Call { int n; const void *a, *b, *s1, *s2; Vector3r shift; bool force; Interaction* I; Scene* sc; int who; };
static Call g, p, l; static int seq, gSeq, pSeq, lSeq, cbSeq; static bool gRet, lRet, gMakes; static int cbN[3];
static shared_ptr<IGeom>* theGeom; static shared_ptr<IPhys>* thePhys;
template <int N> struct GF : IGeomFunctor {
	bool go(const shared_ptr<Shape>& a, const shared_ptr<Shape>& b, const State& s1, const State& s2, const Vector3r& sh, const bool& f, const shared_ptr<Interaction>& I) override
	{
		g.n++; g.a = a.get(); g.b = b.get(); g.s1 = &s1; g.s2 = &s2; g.shift = sh; g.force = f; g.I = I.get(); g.sc = scene; g.who = N; gSeq = ++seq;
		if (gRet) I->geom = *theGeom;
		return gRet;
	}
};
struct GBoxSphere : GF<1> { FUNCTOR2D(Box, Sphere); DEFINE_FUNCTOR_ORDER_2D(Box, Sphere); virtual string getClassName() const { return "GBoxSphere"; } };
struct GSphereSphere : GF<2> { FUNCTOR2D(Sphere, Sphere); DEFINE_FUNCTOR_ORDER_2D(Sphere, Sphere); virtual string getClassName() const { return "GSphereSphere"; } };
struct GSphereChained : GF<3> { FUNCTOR2D(Sphere, ChainedCylinder); DEFINE_FUNCTOR_ORDER_2D(Sphere, ChainedCylinder); virtual string getClassName() const { return "GSphereChained"; } };
struct GCylSphere : GF<4> { FUNCTOR2D(Cylinder, Sphere); DEFINE_FUNCTOR_ORDER_2D(Cylinder, Sphere); virtual string getClassName() const { return "GCylSphere"; } };
struct GReversed : GF<5> { FUNCTOR2D(Sphere, Facet); DEFINE_FUNCTOR_ORDER_2D(Facet, Sphere); virtual string getClassName() const { return "GReversed"; } };
struct PF : IPhysFunctor {
	FUNCTOR2D(FrictMat, FrictMat); virtual string getClassName() const { return "PF"; }
	void go(const shared_ptr<Material>& a, const shared_ptr<Material>& b, const shared_ptr<Interaction>& I) override { p.n++; p.a = a.get(); p.b = b.get(); p.I = I.get(); p.sc = scene; pSeq = ++seq; if (!I->phys) I->phys = *thePhys; }
};
struct LF : LawFunctor {
	FUNCTOR2D(ScGeom, FrictPhys); DEFINE_FUNCTOR_ORDER_2D(ScGeom, FrictPhys); virtual string getClassName() const { return "LF"; }
	bool go(shared_ptr<IGeom>& a, shared_ptr<IPhys>& b, Interaction* I) override { l.n++; l.a = a.get(); l.b = b.get(); l.I = I; l.sc = scene; lSeq = ++seq; return lRet; }
};
static void cbGo(IntrCallback* c, Interaction* I);
struct CB : IntrCallback { int k; bool on; FuncPtr stepInit() override { return on ? &cbGo : (FuncPtr)0; } };
static void cbGo(IntrCallback* c, Interaction* I) { CB* cb = static_cast<CB*>(c); cbN[cb->k]++; cbSeq = ++seq; vp_check(I->isReal(), "callbacks see complete contacts"); }

static Scene* sc; static InteractionLoop* L; static PF* pf; static LF* lf;
static void mk()
{
	vp_nthreads(1); vp_thread(0); memset((void*)&g, 0, sizeof g); p = g; l = g; seq = gSeq = pSeq = lSeq = cbSeq = 0; cbN[0] = cbN[1] = cbN[2] = 0;
	sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc); indices();
	sc->interactions->bodies = &sc->bodies->body;
	theGeom = new shared_ptr<IGeom>(new ScGeom); thePhys = new shared_ptr<IPhys>(new FrictPhys);
	L = new InteractionLoop; L->scene = sc; pf = new PF; lf = new LF;
	L->physDispatcher->add(shared_ptr<IPhysFunctor>(pf)); L->lawDispatcher->add(shared_ptr<LawFunctor>(lf));
}
static Body* body(Shape* s) { Body* b = new Body; b->id = sc->bodies->body.size(); b->shape = shared_ptr<Shape>(s); b->material = shared_ptr<Material>(new FrictMat); sc->bodies->body.push_back(shared_ptr<Body>(b)); return b; }
static Shape* shape(int k) { return k == 0 ? (Shape*)new Sphere : k == 1 ? (Shape*)new Box : k == 2 ? (Shape*)new Facet : k == 3 ? (Shape*)new Cylinder : k == 4 ? (Shape*)new ChainedCylinder : 0; }
static Interaction* intr(int i, int j)
{
	shared_ptr<Interaction> I(new Interaction(i, j)); I->linIx = sc->interactions->linIntrs.size(); sc->interactions->linIntrs.push_back(I); sc->interactions->currSize++; new shared_ptr<Interaction>(I);
	return I.get();
}
static void cell(bool periodic) { sc->isPeriodic = periodic; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sc->cell->hSize(i, j) = vp_real("H"); }

// the path of one contact through the loop, for contacts that may exist already
HARNESS(c14_pipeline)
{
	mk(); sc->iter = vp_long("iter", 0, 1000000);
	bool rev = vp_bool("reversed");
	L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GBoxSphere)); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere));
	int other = rev ? 1 : vp_choice("other", 2); // reversed: (sphere, box) handled by the functor for (box, sphere)
	Body* b0 = body(shape(rev ? 0 : other)); Body* b1 = body(shape(rev ? 1 : 0));
	bool wasReal = !rev && vp_bool("real");
	Interaction* I = intr(0, 1); Vector3i n(vp_int("n", -3, 3), vp_int("n", -3, 3), vp_int("n", -3, 3)); I->cellDist = n; I->iterMadeReal = -1; I->iterLastSeen = -1;
	long made = -1; if (wasReal) { I->geom = *theGeom; I->phys = *thePhys; made = I->iterMadeReal = vp_long("made", 0, 1000000); }
	cell(vp_bool("periodic"));
	gRet = vp_bool("geom"); lRet = vp_bool("law");
	bool on[2]; for (int k = 0; k < 2; k++) { CB* c = new CB; c->k = k; c->on = on[k] = k == 0 ? gRet && lRet && !rev && vp_bool("cb") : true; L->callbacks.push_back(shared_ptr<IntrCallback>(c)); }
	L->action();
	Body *x = rev ? b1 : b0, *y = rev ? b0 : b1;
	vp_check(g.n == 1 && g.I == I && g.who == ((rev || other) ? 1 : 2), "geometry computed once, by the functor for these shapes");
	vp_check(g.a == x->shape.get() && g.b == y->shape.get(), "shapes in the order of the functor"); vp_check(g.s1 == x->state.get() && g.s2 == y->state.get(), "each shape with its own state"); vp_check(!g.force, "geometry is not forced");
	vp_check(I->id1 == x->id && I->id2 == y->id, "bodies in the order of the functor");
	for (int k = 0; k < 3; k++) {
		vp_check(I->cellDist[k] == (rev ? -n[k] : n[k]), "periodic image follows the order of the bodies");
		Real e = sc->cell->hSize(k, 0) * I->cellDist[0] + sc->cell->hSize(k, 1) * I->cellDist[1] + sc->cell->hSize(k, 2) * I->cellDist[2];
		vp_eq(g.shift[k], sc->isPeriodic ? e : 0, "second body is seen in its periodic image");
	}
	vp_check(g.sc == sc, "functor works on the current scene");
	if (!gRet) {
		vp_check(p.n == 0 && l.n == 0 && cbN[1] == 0, "no geometry: neither physics nor force"); vp_check(!I->isReal(), "no geometry: contact is not real"); vp_check(!I->geom && !I->phys, "a lost contact is reset");
	} else {
		vp_check(p.n == 1 && l.n == 1 && pSeq > gSeq && lSeq > pSeq, "geometry, physics, law in this order, once each");
		vp_check(p.I == I && p.a == x->material.get() && p.b == y->material.get(), "materials of the two bodies"); vp_check(p.sc == sc && l.sc == sc, "functors work on the current scene");
		vp_check(l.I == I && l.a == theGeom->get() && l.b == thePhys->get(), "law gets the geometry and physics of the contact");
		if (lRet) {
			vp_check(I->isReal() && I->geom == *theGeom && I->phys == *thePhys, "contact is kept"); vp_check(I->iterMadeReal == (wasReal ? made : sc->iter), "step of creation recorded once");
			vp_check(cbN[1] == 1 && cbN[0] == on[0], "each active callback called once"); vp_check(cbSeq > lSeq, "callbacks come after the law");
		} else { vp_check(!I->geom && !I->phys && !I->isReal(), "contact given up by the law is reset"); vp_check(cbN[1] == 0 && cbN[0] == 0, "no callback for a broken contact"); }
	}
	vp_cover("done");
}
// contacts that must not be handled
HARNESS(c14_not_handled)
{
	mk(); sc->iter = vp_long("iter", 0, 1000000); gRet = lRet = true; cell(vp_bool("periodic"));
	L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere));
	Body* b[2]; b[0] = body(shape(0)); b[1] = body(shape(0));
	int why = vp_choice("why", 6), k = vp_choice("body", 2); bool wasReal = (why == 0 || why == 1) && vp_bool("real");
	Interaction* I = intr(vp_bool("order") ? 1 : 0, 0); I->id2 = 1 - I->id1; Vector3i n(1, -2, 3); I->cellDist = n; if (wasReal) { I->geom = *theGeom; I->phys = *thePhys; }
	Body::id_t i1 = I->id1; sc->interactions->iterColliderLastRun = -1; sc->subdomain = 0;
	if (why == 0) { new shared_ptr<Body>(sc->bodies->body[k]); sc->bodies->body[k] = shared_ptr<Body>(); }
	if (why == 1) { sc->subdomain = vp_int("sub", 0, 5); b[0]->subdomain = vp_int("s0", 0, 5); b[1]->subdomain = vp_int("s1", 0, 5); vp_assume(b[0]->subdomain != sc->subdomain); vp_assume(b[1]->subdomain != sc->subdomain); }
	if (why == 2) { b[k]->clumpId = b[k]->id; if (vp_bool("has")) b[k]->shape = shared_ptr<Shape>(new Clump); }
	if (why == 3) b[k]->shape = shared_ptr<Shape>();
	if (why == 4) b[k]->shape = shared_ptr<Shape>(new Facet);
	if (why == 5) { sc->interactions->iterColliderLastRun = sc->iter; I->iterLastSeen = vp_long("seen", -1, 1000000); vp_assume(I->iterLastSeen < sc->iter); }
	L->action();
	vp_check(g.n == 0 && p.n == 0 && l.n == 0, "contact is not handled"); vp_check(!I->geom && !I->phys, "contact is not real"); vp_check(I->id1 == i1 && I->id2 == 1 - i1 && I->cellDist == n, "contact keeps its bodies");
	vp_cover("done");
}
// contacts handled because at least one body is ours, or seen by the collider, or real although not seen
HARNESS(c14_handled)
{
	mk(); sc->iter = vp_long("iter", 0, 1000000); gRet = lRet = true; cell(false);
	L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere));
	Body* b[2]; b[0] = body(shape(0)); b[1] = body(shape(0)); Interaction* I = intr(0, 1); bool wasReal = vp_bool("real"); if (wasReal) { I->geom = *theGeom; I->phys = *thePhys; }
	sc->subdomain = vp_int("sub", 0, 5); b[0]->subdomain = vp_int("s0", 0, 5); b[1]->subdomain = vp_int("s1", 0, 5); vp_assume(b[0]->subdomain == sc->subdomain || b[1]->subdomain == sc->subdomain);
	sc->interactions->iterColliderLastRun = vp_long("last", -1, 1000000); I->iterLastSeen = vp_long("seen", -1, 1000000);
	vp_assume(wasReal || sc->interactions->iterColliderLastRun < 0 || sc->interactions->iterColliderLastRun != sc->iter || I->iterLastSeen >= sc->iter);
	if (vp_bool("member")) b[0]->clumpId = 7; // member of a clump
	L->action();
	vp_check(g.n == 1 && p.n == 1 && l.n == 1 && I->isReal(), "contact is handled once");
	vp_cover("done");
}
// several contacts: each is handled, failures of one do not touch the others
// @opts bounded=1
HARNESS(c14_all_contacts)
{
	mk(); sc->iter = 5; gRet = lRet = true; cell(false); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere));
	for (int i = 0; i < 4; i++) body(shape(0));
	Interaction* I[3]; int sk[3], want = 0; for (int i = 0; i < 3; i++) { I[i] = intr(i, i + 1); sk[i] = vp_choice("skip", 3); }
	for (int i = 0; i < 3; i++) { if (sk[i] == 1) I[i]->functorCache.geomExists = false; if (sk[i] == 2) { sc->interactions->iterColliderLastRun = 5; I[i]->iterLastSeen = 4; } else I[i]->iterLastSeen = 5; }
	for (int i = 0; i < 3; i++) want += sk[i] == 0;
	L->action();
	vp_check(g.n == want && l.n == want && p.n == want, "every contact that can exist is handled once"); for (int i = 0; i < 3; i++) vp_check(I[i]->isReal() == (sk[i] == 0), "each contact on its own");
	vp_cover("done");
}
// cached functors give the same calls in the following steps
HARNESS(c14_next_step)
{
	mk(); sc->iter = 5; gRet = lRet = true; cell(true);
	L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GBoxSphere)); Body* b0 = body(shape(0)); Body* b1 = body(shape(1)); Interaction* I = intr(0, 1); Vector3i n(vp_int("n", -3, 3), vp_int("n", -3, 3), vp_int("n", -3, 3)); I->cellDist = n;
	L->action(); bool lost = vp_bool("lost"); if (lost) sc->interactions->requestErase(I);
	Scene* other = new Scene; sc->iter = 6; g.n = p.n = l.n = 0; g.a = g.b = 0; gRet = true;
	L->action();
	vp_check(g.n == 1 && g.a == b1->shape.get() && g.b == b0->shape.get() && g.s1 == b1->state.get() && g.s2 == b0->state.get() && I->id1 == 1 && I->id2 == 0, "order of the bodies is kept");
	for (int k = 0; k < 3; k++) { vp_check(I->cellDist[k] == -n[k], "periodic image is kept"); vp_eq(g.shift[k], -(sc->cell->hSize(k, 0) * n[0] + sc->cell->hSize(k, 1) * n[1] + sc->cell->hSize(k, 2) * n[2]), "second body is seen in its periodic image"); }
	vp_check(p.n == 1 && l.n == 1 && I->isReal() && I->iterMadeReal == (lost ? 6 : 5), "step of creation");
	vp_cover("done");
}
// the scene is replaced between steps: functors follow
HARNESS(c14_scene)
{
	mk(); gRet = lRet = true; L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere)); L->action();
	CB* c = new CB; c->k = 0; c->on = true; L->callbacks.push_back(shared_ptr<IntrCallback>(c));
	InteractionLoop* L0 = L; sc = new Scene; sc->interactions->bodies = &sc->bodies->body; body(shape(0)); body(shape(0)); intr(0, 1); L0->scene = sc; L0->action();
	vp_check(g.n == 1 && g.sc == sc && p.sc == sc && l.sc == sc && c->scene == sc, "functors and callbacks work on the current scene");
	vp_cover("done");
}
// dispatch: nearest registered pair of ancestors, either order
static int depth(int k, int anc) // distance in the class hierarchy, -1: not an ancestor
{
	static const int up[5] = { -1, -1, -1, 0, 3 }; int d = 0; while (k != anc) { if (k < 0) return -1; k = up[k]; d++; if (k < 0 && anc >= 0) return -1; } return d;
}
// @opts time=300
HARNESS(c14_dispatch)
{
	mk(); bool has[5]; int A[5] = { 1, 0, 0, 3, 2 }, B[5] = { 0, 0, 4, 0, 0 };  // declared orders: (box,sphere) (sphere,sphere) (sphere,chained) (cylinder,sphere) (facet,sphere)
	for (int i = 0; i < 5; i++) has[i] = vp_bool("has");
	if (has[0]) L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GBoxSphere)); if (has[1]) L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere));
	if (has[2]) L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereChained)); if (has[3]) L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GCylSphere)); if (has[4]) L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GReversed));
	int x = vp_choice("x", 5), y = vp_choice("y", 5);
	int best = 1000, who = -1; bool amb = false, sw = false;
	for (int i = 0; i < 5; i++) if (has[i]) for (int r = 0; r < 2; r++) {
		int dx = depth(x, r ? B[i] : A[i]), dy = depth(y, r ? A[i] : B[i]); if (dx < 0 || dy < 0) continue; int d = dx + dy;
		if (d < best) { best = d; who = i; sw = r; amb = false; } else if (d == best && who != i) amb = true; else if (d == best && A[i] != B[i] && sw != (bool)r) amb = true;
	}
	shared_ptr<Shape> sx(shape(x)), sy(shape(y)); new shared_ptr<Shape>(sx); new shared_ptr<Shape>(sy);
	if (amb) return; // ambiguous pairs: not determined
	for (int t = 0; t < 2; t++) {
		bool swap = false; shared_ptr<IGeomFunctor> f = L->geomDispatcher->getFunctor2D(sx, sy, swap); new shared_ptr<IGeomFunctor>(f);
		vp_check((bool)f == (who >= 0), "a functor exactly if one is declared for the classes or their bases");
		if (f) { f->go(sx, sy, *new State, *new State, Vector3r::Zero(), false, shared_ptr<Interaction>(new Interaction(0, 1))); vp_check(g.who == who + 1, "nearest declared functor"); vp_check(A[who] == B[who] || swap == sw, "reversed exactly if the declared order is the opposite"); }
	}
	vp_cover("done");
}
// explicit creation (outside the loop)
HARNESS(c14_explicit)
{
	mk(); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GBoxSphere)); bool rev = vp_bool("reversed"), per = vp_bool("periodic"), force = vp_bool("force");
	Body* b0 = body(shape(rev ? 0 : 1)); Body* b1 = body(shape(rev ? 1 : 0)); sc->isPeriodic = per; gRet = true;
	Vector3r z(vp_pos("s"), vp_pos("s"), vp_pos("s")); sc->cell->_size = z; sc->cell->_unshearTrsf = sc->cell->_shearTrsf = Matrix3r::Identity(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sc->cell->hSize(i, j) = i == j ? z[i] : 0;
	b0->state->pos = vpVec("x0"); b1->state->pos = vpVec("x1"); Vector3r d = b1->state->pos - b0->state->pos; for (int k = 0; k < 3; k++) vp_assume(d[k] < 1e6 * z[k] && -1e6 * z[k] < d[k]);
	shared_ptr<Interaction> I = L->geomDispatcher->explicitAction(sc->bodies->body[0], sc->bodies->body[1], force); new shared_ptr<Interaction>(I);
	Body *x = rev ? b1 : b0, *y = rev ? b0 : b1;
	vp_check(g.n == 1 && g.a == x->shape.get() && g.b == y->shape.get() && g.s1 == x->state.get() && g.s2 == y->state.get() && g.force == force && I->id1 == x->id && I->id2 == y->id && g.sc == sc, "geometry computed in the order of the functor");
	for (int k = 0; k < 3; k++) {
		Real rel = y->state->pos[k] + g.shift[k] - x->state->pos[k];
		if (per) { vp_eq(g.shift[k], z[k] * I->cellDist[k], "shift of the recorded image"); vp_le(rel, z[k] / 2, "nearest image"); vp_le(-z[k] / 2, rel, "nearest image"); } else vp_eq(g.shift[k], 0, "no image without periodicity");
	}
	vp_cover("done");
}
HARNESS(c14_explicit_failure)
{
	mk(); L->geomDispatcher->add(shared_ptr<IGeomFunctor>(new GSphereSphere)); Body* b0 = body(shape(0)); Body* b1 = body(shape(0)); cell(false); bool force = vp_bool("force"), none = vp_bool("none"); gRet = !none && vp_bool("geom");
	if (none) b1->shape = shared_ptr<Shape>(new Facet); bool thrown = false; shared_ptr<Interaction> I;
	try { I = L->geomDispatcher->explicitAction(sc->bodies->body[0], sc->bodies->body[1], force); new shared_ptr<Interaction>(I); } catch (...) { thrown = true; }
	vp_check(thrown == (force && !gRet), "a forced contact that cannot be made is an error, an unforced one is not"); if (!thrown) vp_check((bool)I && (bool)I->geom == gRet, "geometry exists iff the functor made it");
	vp_cover("done");
}
HARNESS(c14_explicit_phys)
{
	mk(); shared_ptr<Interaction> I(new Interaction(0, 1)); new shared_ptr<Interaction>(I); shared_ptr<Material> m1(new FrictMat), m2(new FrictMat); new shared_ptr<Material>(m1); new shared_ptr<Material>(m2); bool geom = vp_bool("geom"), known = vp_bool("known"), thrown = false;
	if (!known) m2 = shared_ptr<Material>(new ElastMat); new shared_ptr<Material>(m2);
	if (geom) I->geom = *theGeom; L->physDispatcher->scene = sc;
	try { L->physDispatcher->explicitAction(m1, m2, I); } catch (...) { thrown = true; }
	vp_check(thrown == (!geom || !known), "physics needs geometry and a functor for the materials"); if (!thrown) vp_check(p.n == 1 && p.a == m1.get() && p.b == m2.get() && I->isReal() && p.sc == sc, "physics computed from the two materials");
	vp_cover("done");
}
