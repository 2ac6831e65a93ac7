// C13 bounds: the real Bo1_* functors and BoundDispatcher.  Oracle: support function of the shape along the axes of the (unsheared) frame.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/Dispatching.cpp>
#include <pkg/common/Bo1_Aabb.cpp>
#include <pkg/common/Wall.cpp>
#include <pkg/common/Cylinder.cpp>
#include <pkg/common/Grid.cpp>
#include <pkg/common/PFacet.cpp>
#include <pkg/dem/Tetra.cpp>
#include <pkg/common/Facet.cpp>

static Matrix3r U;   // unshear transformation of the cell (identity without shear)
static Scene* mk(int mode)   // 0: not periodic, 1: periodic, 2: periodic with arbitrary skew
{
	vp_nthreads(1); vp_thread(0);
	Scene* sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc);
	sc->isPeriodic = mode > 0;
	U = Matrix3r::Identity();
	sc->cell->_hasShear = mode == 2;
	if (mode == 2) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) U(i, j) = vp_real("U");
	sc->cell->_unshearTrsf = U;
	return sc;
}
// run the functor with no bound yet or with an old one, which is reused
template <class F> static Aabb* run(F* f, Scene* sc, Shape* s, const Se3r& se3, int was = -1)
{
	f->scene = sc;
	shared_ptr<Shape> sh(s); shared_ptr<Bound> bv; Body* b = new Body;
	bool old = was < 0 ? vp_bool("old") : was; Aabb* a = 0;
	if (old) { a = new Aabb; a->min = vpVec("m"); a->max = vpVec("M"); bv.reset(a); }
	f->go(sh, bv, se3, b);
	vp_check((bool)bv && (!old || bv.get() == a), "a bound is created, or the existing one kept");
	new shared_ptr<Bound>(bv); new shared_ptr<Shape>(sh);
	return static_cast<Aabb*>(bv.get());
}
static void in(Aabb* a, const Vector3r& p, Real r, const char* l)   // point p (already unsheared) with margin r
{
	for (int k = 0; k < 3; k++) { vp_le(a->min[k], p[k] - r, l); vp_le(p[k] + r, a->max[k], l); }
}
// vector in body axes such that the rotated vector is arbitrary (loses nothing: rotations are invertible)
static Vector3r rotated(const Se3r& x, Vector3r& w, const char* n) { w = vpVec(n); return x.orientation.toRotationMatrix().transpose() * w; }
static Se3r pose() { return Se3r(vpVec("pos"), vpQuat("ori")); }
// support function of a ball of radius r under a linear map: the largest value of row.d over |d|<=r is r |row| (so that containing that value is containing the ball)
HARNESS(c13_lemma_support)
{
	Vector3r a = vpVec("row"), d = vpVec("d"); Real r = vp_pos("r");
	vp_eq(a.squaredNorm() * d.squaredNorm() - pow(a.dot(d), 2), a.cross(d).squaredNorm(), "Lagrange identity");
	Real s = vp_pos("s"); vp_assume(s * s == a.squaredNorm());
	Vector3r p = a * (r / s);
	vp_eq(p.squaredNorm(), r * r, "the extreme point lies on the ball"); vp_eq(a.dot(p), r * s, "value at the extreme point");
	vp_cover("done");
}
HARNESS(c13_sphere)
{
	Scene* sc = mk(vp_choice("mode", 3)); Se3r x = pose();
	Sphere* s = new Sphere; s->radius = vp_pos("r");
	Bo1_Sphere_Aabb* f = new Bo1_Sphere_Aabb; Real fac = 1; if (vp_bool("enlarged")) { fac = 1 + vp_nonneg("f"); f->aabbEnlargeFactor = fac; } else f->aabbEnlargeFactor = -vp_nonneg("f");
	Aabb* a = run(f, sc, s, x);
	Vector3r c = U * x.position; Real R = fac * s->radius;
	for (int k = 0; k < 3; k++) {
		Real lo = c[k] - a->min[k], hi = a->max[k] - c[k], e = R * R * U.row(k).squaredNorm();
		vp_le(0, lo, "sphere is inside its bound"); vp_le(0, hi, "sphere is inside its bound");
		vp_le(e, lo * lo, "sphere is inside its bound"); vp_le(e, hi * hi, "sphere is inside its bound");
		if (!sc->cell->hasShear()) { vp_eq(lo, R, "bound of a sphere is tight"); vp_eq(hi, R, "bound of a sphere is tight"); }
	}
	vp_cover("done");
}
// @opts ite=1
HARNESS(c13_facet)
{
	Scene* sc = mk(vp_choice("mode", 3)); Se3r x = pose();
	Facet* s = new Facet; s->vertices.clear(); Vector3r v[3]; for (int i = 0; i < 3; i++) s->vertices.push_back(rotated(x, v[i], "v"));
	Aabb* a = run(new Bo1_Facet_Aabb, sc, s, x);
	for (int i = 0; i < 3; i++) in(a, U * (x.position + v[i]), 0, "facet is inside its bound");
	vp_cover("done");
}
HARNESS(c13_box)
{
	int mode = vp_choice("mode", 2); Scene* sc = mk(mode); Se3r x = pose();
	Box* s = new Box; Vector3r e(vp_nonneg("e"), vp_nonneg("e"), vp_nonneg("e")); s->extents = e;
	int c = vp_choice("corner", 8);
	Aabb* a = run(new Bo1_Box_Aabb, sc, s, x, mode);
	Vector3r q((c & 1 ? 1 : -1) * e[0], (c & 2 ? 1 : -1) * e[1], (c & 4 ? 1 : -1) * e[2]);
	in(a, x.position + x.orientation.toRotationMatrix() * q, 0, "box is inside its bound");
	vp_cover("done");
}
// @opts allow_throw=1
HARNESS(c13_refused_in_skewed_cell)
{
	Scene* sc = mk(2); Se3r x = pose(); bool t = false;
	try { if (vp_bool("box")) run(new Bo1_Box_Aabb, sc, new Box, x); else run(new Bo1_Wall_Aabb, sc, new Wall, x); } catch (std::logic_error&) { t = true; }
	vp_check(t, "shapes without bounds in a skewed cell are refused");
	vp_cover("done");
}
HARNESS(c13_wall)
{
	Scene* sc = mk(vp_choice("mode", 2)); Se3r x = pose();
	Wall* s = new Wall; s->axis = vp_choice("axis", 3); s->sense = 0; int ax = s->axis;
	Aabb* a = run(new Bo1_Wall_Aabb, sc, s, x);
	Real p = x.position[ax];
	for (int k = 0; k < 3; k++) {
		if (k == ax) { vp_le(a->min[k], p, "wall is inside its bound"); vp_le(p, a->max[k], "wall is inside its bound"); }
		else vp_check(a->min[k] == -std::numeric_limits<Real>::infinity() && a->max[k] == std::numeric_limits<Real>::infinity(), "bound of a wall is infinite along the wall");
	}
	vp_cover("done");
}
// @opts ite=1
HARNESS(c13_cylinder)
{
	Scene* sc = mk(0); Se3r x = pose();
	Vector3r seg = vpVec("seg"); Real r = vp_nonneg("r");
	Aabb* a;
	if (vp_bool("chained")) {
		ChainedCylinder* s = new ChainedCylinder; s->segment = seg; s->radius = r;
		a = run(new Bo1_ChainedCylinder_Aabb, sc, s, x);
		in(a, x.position + seg, r, "cylinder is inside its bound");
	} else {
		Cylinder* s = new Cylinder; s->segment = rotated(x, seg, "rseg"); s->radius = r;
		a = run(new Bo1_Cylinder_Aabb, sc, s, x);
		in(a, x.position + seg, r, "cylinder is inside its bound");
	}
	in(a, x.position, r, "cylinder is inside its bound");
	vp_cover("done");
}
static shared_ptr<Body> node(Vector3r& p) { shared_ptr<Body> b(new Body); b->state->pos = p = vpVec("node"); new shared_ptr<Body>(b); return b; }
// @opts ite=1
HARNESS(c13_grid_connection)
{
	Scene* sc = mk(0); Se3r x = pose();
	Vector3r p, q; GridConnection* s = new GridConnection; s->node1 = node(p); s->node2 = node(q); s->radius = vp_nonneg("r"); Real r = s->radius;
	Aabb* a = run(new Bo1_GridConnection_Aabb, sc, s, x);
	in(a, p, r, "connection is inside its bound"); in(a, q, r, "connection is inside its bound");
	vp_cover("done");
}
// @opts ite=1
HARNESS(c13_pfacet)
{
	Scene* sc = mk(0); Se3r x = pose();
	Vector3r p[3]; PFacet* s = new PFacet; s->node1 = node(p[0]); s->node2 = node(p[1]); s->node3 = node(p[2]); s->radius = vp_nonneg("r"); Real r = s->radius;
	Aabb* a = run(new Bo1_PFacet_Aabb, sc, s, x);
	for (int i = 0; i < 3; i++) in(a, p[i], r, "particle facet is inside its bound");
	vp_cover("done");
}
// @opts ite=1
HARNESS(c13_tetra)
{
	Scene* sc = mk(0); Se3r x = pose();
	Tetra* s = new Tetra; s->v.clear(); Vector3r v[4]; for (int i = 0; i < 4; i++) s->v.push_back(rotated(x, v[i], "v"));
	Aabb* a = run(new Bo1_Tetra_Aabb, sc, s, x);
	int i = vp_choice("vertex", 4);
	in(a, x.position + v[i], 0, "tetrahedron is inside its bound");
	vp_cover("done");
}
// ---- dispatcher: whatever the functor returns, the bound covers every motion of the body below the sweep length
struct VpBo : BoundFunctor {
	int calls; Vector3r m, M; bool create; Shape* s; Vector3r pos; const Body* b;
	void go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, const Se3r& se3, const Body* bb) override
	{
		calls++; s = cm.get(); pos = se3.position; b = bb;
		if (!create) return;
		if (!bv) bv.reset(new Aabb);
		bv->min = m; bv->max = M;
	}
	string getClassName() const override { return "VpBo"; }
};
static VpBo* mkBo() { VpBo* f = new VpBo; f->calls = 0; f->create = true; f->m = vpVec("m"); f->M = vpVec("M"); return f; }
static BoundDispatcher* mkDisp(Scene* sc)
{
	BoundDispatcher* d = new BoundDispatcher; d->scene = sc; d->sweepDist = vp_nonneg("sweepDist"); d->minSweepDistFactor = vp_nonneg("minFactor"); vp_assume(d->minSweepDistFactor <= 1);
	return d;
}
static Body* mkBody(Scene* sc, VpBo* f, int id)
{
	Body* b = new Body; b->id = id; b->state->pos = vpVec("pos"); b->shape.reset(new Sphere); b->shape->boundFunctor.reset(f);
	sc->bodies->body.push_back(shared_ptr<Body>(b));
	return b;
}
static void covers(Aabb* a, VpBo* f, Real sw, const char* l)
{
	Vector3r d = vpVec("move"), y = vpVec("y");   // y: a point of the shape in unsheared coordinates
	for (int k = 0; k < 3; k++) { vp_assume(d[k] <= sw); vp_assume(-sw <= d[k]); }
	for (int k = 0; k < 3; k++) {
		vp_assume(f->m[k] <= y[k]); vp_assume(y[k] <= f->M[k]);
		Real z = y[k] + U.row(k).dot(d);
		vp_le(a->min[k], z, l); vp_le(z, a->max[k], l);
	}
}
HARNESS(c13_sweep)
{
	Scene* sc = mk(vp_choice("mode", 2)); sc->iter = vp_long("iter", 0, 1000000);
	VpBo* f = mkBo(); BoundDispatcher* d = mkDisp(sc); Body* b = mkBody(sc, f, 0);
	bool adapt = vp_bool("adapt"); if (adapt) d->targetInterv = vp_long("interv", 0, 10000); else d->targetInterv = -1;
	if (vp_bool("old")) {
		b->bound.reset(new Aabb); b->bound->refPos = vpVec("ref"); b->bound->lastUpdateIter = vp_long("last", 0, 1000000); vp_assume(b->bound->lastUpdateIter <= sc->iter);
		b->bound->sweepLength = vp_nonneg("sl"); vp_assume(b->bound->sweepLength <= d->sweepDist);
	} else if (adapt) vp_assume(sc->iter == 0);
	d->processBody(sc->bodies->body[0]);
	vp_check(f->calls == 1 && f->s == b->shape.get() && f->b == b, "the bound functor is called once with the body itself");
	vpEqV(f->pos, b->state->pos, "the bound is that of the current position");
	vp_check((bool)b->bound, "the body has a bound");
	vpEqV(b->bound->refPos, b->state->pos, "reference position is the one of the bound"); vp_check(b->bound->lastUpdateIter == sc->iter, "step of the update is recorded");
	vp_le(0, b->bound->sweepLength, "sweep length is not negative"); vp_le(b->bound->sweepLength, d->sweepDist, "sweep length is at most the one prescribed");
	if (!adapt) vp_eq(b->bound->sweepLength, d->sweepDist, "sweep length is the one prescribed");
	covers(static_cast<Aabb*>(b->bound.get()), f, b->bound->sweepLength, "moving less than the sweep length keeps the shape inside the bound");
	vp_cover("done");
}
HARNESS(c13_sweep_skewed)
{
	Scene* sc = mk(2); sc->iter = 5;
	VpBo* f = mkBo(); BoundDispatcher* d = mkDisp(sc); Body* b = mkBody(sc, f, 0); d->targetInterv = -1;
	d->processBody(sc->bodies->body[0]);
	vp_eq(b->bound->sweepLength, d->sweepDist, "sweep length is the one prescribed");
	covers(static_cast<Aabb*>(b->bound.get()), f, b->bound->sweepLength, "moving less than the sweep length keeps the shape inside the bound (skewed cell)");
	vp_cover("done");
}
HARNESS(c13_not_bounded)
{
	Scene* sc = mk(vp_choice("mode", 2)); VpBo* f = mkBo(); BoundDispatcher* d = mkDisp(sc); Body* b = mkBody(sc, f, 0);
	int what = vp_choice("what", 3);
	if (what == 0) b->setBounded(false); else if (what == 1) b->shape.reset(); else f->create = false;
	d->processBody(sc->bodies->body[0]);
	vp_check(!b->bound, "bodies that are not bounded, have no shape or get no bound stay without bound");
	vp_cover("done");
}
// @opts bounded=3-bodies
HARNESS(c13_all_bodies)
{
	Scene* sc = mk(0); BoundDispatcher* d = mkDisp(sc); d->targetInterv = -1; sc->iter = 3;
	VpBo* f[3]; int hole = vp_choice("hole", 4);
	for (int i = 0; i < 3; i++) { f[i] = mkBo(); if (i == hole) sc->bodies->body.push_back(shared_ptr<Body>()); else mkBody(sc, f[i], i); }
	d->action();
	for (int i = 0; i < 3; i++) {
		vp_check(f[i]->calls == (i == hole ? 0 : 1), "every existing body gets its bound updated once");
		if (i == hole) continue;
		const shared_ptr<Body>& b = sc->bodies->body[i];
		for (int k = 0; k < 3; k++) { vp_eq(b->bound->min[k], f[i]->m[k] - d->sweepDist, "bound is that of the body, swept"); vp_eq(b->bound->max[k], f[i]->M[k] + d->sweepDist, "bound is that of the body, swept"); }
	}
	vp_cover("done");
}
