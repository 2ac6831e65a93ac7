// C09 collision detection: the real InsertionSortCollider::action on bodies whose bounds move arbitrarily between runs.
// Bounds are given (bodies have no shape, so the bound dispatcher leaves them alone; what bounds must contain is property C13).
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/Dispatching.cpp>
#include <pkg/common/Collider.cpp>
#include <pkg/common/InsertionSortCollider.cpp>
#include <pkg/common/NormShearPhys.hpp>
#include <pkg/dem/ScGeom.hpp>
ScGeom::~ScGeom() {} ScGeom6D::~ScGeom6D() {}

struct W { Scene* sc; InsertionSortCollider* c; int n; Body* b[3]; };
static void mk(W& w, int n, bool periodic = false)
{
	vp_nthreads(1); vp_thread(0);
	w.sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(w.sc);
	w.sc->iter = 0; w.sc->isPeriodic = periodic; w.sc->subdomain = 0;
	w.sc->interactions->bodies = &w.sc->bodies->body;
	w.n = n;
	for (int i = 0; i < n; i++) { w.b[i] = new Body; w.b[i]->id = i; w.b[i]->bound.reset(new Aabb); w.sc->bodies->body.push_back(shared_ptr<Body>(w.b[i])); }
	w.c = new InsertionSortCollider; w.c->scene = w.sc; w.c->verletDist = 0;
	Collider::avoidSelfInteractionMask = 0;
}
// arbitrary extent along one axis, fixed (overlapping) along the others
static void place(W& w, int i, int axis)
{
	for (int k = 0; k < 3; k++) { w.b[i]->bound->min[k] = 0.1 * i; w.b[i]->bound->max[k] = 1 + 0.1 * i; }
	Real a = vp_real("lo"), l = vp_nonneg("len");
	w.b[i]->bound->min[axis] = a; w.b[i]->bound->max[axis] = a + l;
}
static bool over(W& w, int i, int j) { for (int k = 0; k < 3; k++) if (w.b[i]->bound->min[k] >= w.b[j]->bound->max[k] || w.b[j]->bound->min[k] >= w.b[i]->bound->max[k]) return false; return true; }
static bool apart(W& w, int i, int j) { for (int k = 0; k < 3; k++) if (w.b[i]->bound->min[k] > w.b[j]->bound->max[k] || w.b[j]->bound->min[k] > w.b[i]->bound->max[k]) return true; return false; }
static void complete(W& w, const char* l)
{
	for (int i = 0; i < w.n; i++) for (int j = i + 1; j < w.n; j++) {
		if (!(*w.sc->bodies)[i] || !(*w.sc->bodies)[j]) continue;
		bool f = w.sc->interactions->found(i, j);
		if (over(w, i, j)) vp_check(f, l);
		if (apart(w, i, j)) vp_check(!f, "bodies with disjoint bounds are not kept as potential contact");
	}
	for (int k = 0; k < 3; k++) {
		InsertionSortCollider::VecBounds& v = w.c->BB[k];
		vp_check(v.vec.size() == 2 * (size_t)w.n && v.size == 2 * w.n, "every body has its two bounds in the sorted list");
		for (int i = 0; i < 2 * w.n; i++) {
			int id = v.vec[i].id;
			vp_check(id >= 0 && id < w.n, "every body has its two bounds in the sorted list");
			if (i > 0) vp_le(v.vec[i - 1].coord, v.vec[i].coord, "bounds are sorted");
			if ((*w.sc->bodies)[id]) vp_eq(v.vec[i].coord, v.vec[i].flags.isMin ? w.b[id]->bound->min[k] : w.b[id]->bound->max[k], "sorted list holds the current bounds");
		}
	}
}
static const Real D = 8;
static void cell(W& w, bool known = true) { for (int k = 0; k < 3; k++) { w.sc->cell->_size[k] = D; if (known) w.c->invSizes[k] = 1 / D; } if (known) w.c->periodic = true; }
static const char* L = "every pair of bodies with overlapping bounds is a potential contact";
// two bodies: arbitrary extents, then arbitrary new extents (the incremental sort)
static void two(int axis)
{
	W w; mk(w, 2);
	place(w, 0, axis); place(w, 1, axis);
	w.c->action();
	complete(w, L);
	place(w, 0, axis); place(w, 1, axis);
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// @opts bounded=2-bodies
HARNESS(c09_two_x) { two(0); }
// @opts bounded=2-bodies
HARNESS(c09_two_y) { two(1); }
// @opts bounded=2-bodies
HARNESS(c09_two_z) { two(2); }
// separate sorting and colliding phases; forced re-sort
// @opts bounded=2-bodies
HARNESS(c09_sort_then_collide)
{
	W w; mk(w, 2);
	int axis = vp_choice("axis", 3);
	w.c->sortAxis = vp_choice("sortAxis", 3);
	if (vp_bool("how")) w.c->sortThenCollide = true;
	place(w, 0, axis); place(w, 1, axis);
	w.c->action();
	place(w, 0, axis);
	if (!w.c->sortThenCollide) w.c->doSort = true;
	w.c->action();
	complete(w, L);
	vp_check(!w.c->doSort, "forced sort done once");
	vp_cover("done");
}
// interactions cleared by the user are found again
// @opts bounded=2-bodies
HARNESS(c09_dirty)
{
	W w; mk(w, 2);
	place(w, 0, 0); place(w, 1, 0);
	w.c->action();
	w.sc->interactions->clear();
	w.c->action();
	complete(w, L);
	vp_check(!w.sc->interactions->dirty, "request served");
	vp_cover("done");
}
// three bodies, two of them moving arbitrarily past a third
// @opts bounded=3-bodies time=400 weight=9
HARNESS(c09_three)
{
	W w; mk(w, 3);
	for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { w.b[i]->bound->min[k] = 0; w.b[i]->bound->max[k] = 1; }
	w.b[1]->bound->min[0] = 2; w.b[1]->bound->max[0] = 3; w.b[2]->bound->min[0] = 0.5; w.b[2]->bound->max[0] = 2.5;
	w.c->action();
	complete(w, L);
	for (int i = 0; i < 3; i++) { Real a = i == 2 ? 0.75 : vp_real("lo"); w.b[i]->bound->min[0] = a; w.b[i]->bound->max[0] = a + (i == 2 ? 1.5 : vp_nonneg("len")); }
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// bodies added later, one by one
// @opts bounded=3-bodies
HARNESS(c09_added)
{
	W w; mk(w, 2);
	int axis = vp_choice("axis", 3);
	place(w, 0, axis); 
	for (int k = 0; k < 3; k++) { w.b[1]->bound->min[k] = 0.25; w.b[1]->bound->max[k] = 0.75; }
	w.c->action();
	w.b[2] = new Body; w.b[2]->id = 2; w.b[2]->bound.reset(new Aabb); w.sc->bodies->body.push_back(shared_ptr<Body>(w.b[2])); w.n = 3;
	place(w, 2, axis);
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// a body is erased, and another one inserted at its id, anywhere
// @opts bounded=2-bodies
HARNESS(c09_replaced)
{
	W w; mk(w, 2);
	int d = vp_choice("d", 2), axis = vp_choice("axis", 3);
	place(w, 0, axis); 
	place(w, 1, axis);
	w.c->action();
	w.sc->bodies->erase(d, false);
	w.sc->interactions->eraseNonReal();
	w.c->action();
	vp_check(w.sc->interactions->size() == 0, "no contact with an erased body");
	w.b[d] = new Body; w.b[d]->bound.reset(new Aabb);
	w.sc->bodies->insertAtId(shared_ptr<Body>(w.b[d]), d);
	place(w, d, axis);
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// a body gets its bound later
// @opts bounded=2-bodies
HARNESS(c09_bounded_later)
{
	W w; mk(w, 2);
	int axis = vp_choice("axis", 3);
	place(w, 0, axis); place(w, 1, axis);
	shared_ptr<Bound> keep = w.b[1]->bound; w.b[1]->bound.reset();
	w.b[1]->state->pos = 0.5 * (keep->min + keep->max);
	w.c->action();
	vp_check(w.sc->interactions->size() == 0, "a body without bound has no contact");
	w.b[1]->bound = keep;
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// fewer bodies than at the last run (all cleared, then new ones added)
// @opts bounded=2-bodies
HARNESS(c09_fewer)
{
	W w; mk(w, 3);
	for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { w.b[i]->bound->min[k] = 3 * i; w.b[i]->bound->max[k] = 3 * i + 1; }
	w.c->action();
	w.sc->bodies->body.clear(); w.n = 2;
	for (int i = 0; i < 2; i++) { w.b[i] = new Body; w.b[i]->id = i; w.b[i]->bound.reset(new Aabb); w.sc->bodies->body.push_back(shared_ptr<Body>(w.b[i])); }
	place(w, 0, 0); place(w, 1, 0);
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// the scene is made periodic, or not periodic any more
// @opts bounded=2-bodies
HARNESS(c09_periodicity_off)
{
	W w; mk(w, 2, true); cell(w);
	for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) { w.b[i]->bound->min[k] = 4 * i; w.b[i]->bound->max[k] = 4 * i + 1; }
	w.c->action();
	w.sc->isPeriodic = false;
	place(w, 0, 0); place(w, 1, 0);
	w.c->action();
	complete(w, L);
	vp_cover("done");
}
// the collision filter is respected, real contacts are never dropped, and a pair is stored once
// @opts bounded=2-bodies
HARNESS(c09_filter)
{
	W w; mk(w, 2);
	place(w, 0, 0); place(w, 1, 0);
	w.b[0]->groupMask = 1; w.b[1]->groupMask = 2;
	w.c->action();
	place(w, 0, 0); place(w, 1, 0);
	w.c->action();
	vp_check(w.sc->interactions->size() == 0, "bodies excluded from collision are never a potential contact");
	vp_cover("done");
}
// @opts bounded=2-bodies
HARNESS(c09_keep_real)
{
	W w; mk(w, 2);
	place(w, 0, 0); place(w, 1, 0);
	shared_ptr<Interaction> I(new Interaction(1, 0));
	w.sc->interactions->insert(I); I->geom.reset(new ScGeom); I->phys.reset(new NormShearPhys);
	w.c->action();
	place(w, 0, 0); place(w, 1, 0);
	w.c->action();
	vp_check(w.sc->interactions->size() == 1 && (*w.sc->interactions)[0] == I && I->isReal(), "real contacts are left alone by the collider, whatever the bounds do");
	vp_cover("done");
}
// ---- periodic
// overlap test with the closest periodic image: arbitrary boxes smaller than half the period, along an arbitrary axis
HARNESS(c09_overlap_peri)
{
	W w; mk(w, 2, true);
	Real dim = 8;
	int axis = vp_choice("axis", 3);
	w.c->minima.resize(6); w.c->maxima.resize(6);
	Real M = vp_real("M"), w1 = vp_range("w1", 0, 0.5), a = vp_real("a"), w2 = vp_range("w2", 0, 0.5);
	for (int k = 0; k < 3; k++) {
		w.sc->cell->_size[k] = dim; w.c->invSizes[k] = 1 / dim;
		w.c->maxima[k] = 1; w.c->minima[k] = 1 - 0.25 * dim; w.c->minima[3 + k] = 1 - 0.125 * dim; w.c->maxima[3 + k] = 1 + 0.125 * dim;
	}
	w.c->periodic = true; w.c->overlapTolerance = 0;
	w.c->maxima[axis] = M; w.c->minima[axis] = M - w1 * dim; w.c->minima[3 + axis] = M + a * dim; w.c->maxima[3 + axis] = M + (a + w2) * dim;
	Vector3i p; 
	bool o = w.c->spatialOverlapPeri(0, 1, w.sc, p);
	// body 2 shifted by p periods covers [a+p, a+w2+p], body 1 covers [-w1, 0] in units of the period, relative to its upper end
	if (o) {
		vp_le(a + p[axis], 0, "the reported image overlaps");
		vp_le(-w1, a + w2 + p[axis], "the reported image overlaps");
		for (int k = 0; k < 3; k++) if (k != axis) vp_check(p[k] == 0, "the reported image overlaps along every axis");
	} else {
		int q = vp_int("q", -1000000, 1000000);
		int k = q + (int)floor(a + w2);                    // case split for the solver
		const char* l = "no image overlaps when none is reported";
		vp_case(k >= 0);
		vp_check(!(a + q <= 0 && -w1 <= a + w2 + q), l);
	}
	vp_cover("done");
}
HARNESS(c09_overlap_symmetric)
{
	W w; mk(w, 2, true); cell(w);
	int axis = vp_choice("axis", 3);
	w.c->minima.resize(6); w.c->maxima.resize(6);
	for (int k = 0; k < 3; k++) { w.c->minima[k] = 1; w.c->maxima[k] = 3; w.c->minima[3 + k] = 2; w.c->maxima[3 + k] = 4; }
	Real a = vp_real("a"), b = vp_real("b");
	w.c->minima[axis] = a; w.c->maxima[axis] = a + vp_range("la", 0, 3.9); w.c->minima[3 + axis] = b; w.c->maxima[3 + axis] = b + vp_range("lb", 0, 3.9);
	w.c->overlapTolerance = 0;
	Vector3i p, q;
	bool o = w.c->spatialOverlapPeri(0, 1, w.sc, p), r = w.c->spatialOverlapPeri(1, 0, w.sc, q);
	int k = (int)floor((w.c->maxima[3 + axis] - w.c->maxima[axis]) / D) + (int)floor((w.c->maxima[axis] - w.c->maxima[3 + axis]) / D);
	vp_case(k >= 0); vp_case(k < -1);
	vp_check(o == r, "periodic overlap does not depend on the order of the bodies");
	vp_cover("done");
}
// bodies too large for the period are reported
// @opts allow_throw=1
HARNESS(c09_too_large)
{
	W w; mk(w, 2, true); cell(w);
	int axis = vp_choice("axis", 3); bool allow = vp_bool("allow");
	w.c->allowBiggerThanPeriod = allow;
	w.c->minima.resize(6); w.c->maxima.resize(6);
	for (int k = 0; k < 3; k++) { w.c->minima[k] = 1; w.c->maxima[k] = 3; w.c->minima[3 + k] = 2; w.c->maxima[3 + k] = 4; }
	w.c->minima[3 + axis] = 2; w.c->maxima[3 + axis] = 2 + vp_range("lb", 4.1, 100);
	Vector3i p; bool thrown = false, o = false;
	try { o = w.c->spatialOverlapPeri(0, 1, w.sc, p); } catch (std::runtime_error&) { thrown = true; }
	vp_check(thrown == !allow, "a body larger than half the period is refused unless explicitly allowed");
	if (!thrown) vp_check(o && p[axis] == 0, "an allowed large body overlaps without period");
	vp_cover("done");
}
static void placeP(W& w, int i, int axis)
{
	for (int k = 0; k < 3; k++) { w.b[i]->bound->min[k] = 1 + i; w.b[i]->bound->max[k] = 3 + i; }
	Real a = vp_range("lo", -7, 15);
	w.b[i]->bound->min[axis] = a; w.b[i]->bound->max[axis] = a + 2;
}
static bool overP(W& w, int axis, int p) { Real a = w.b[0]->bound->min[axis], b = w.b[1]->bound->min[axis] + p * D; return a < b + 2 && b < a + 2; }
static void completeP(W& w, int axis)
{
	bool any = false; int per = 0;
	for (int p = -4; p <= 4; p++) if (overP(w, axis, p)) { any = true; per = p; }
	if (any) {
		vp_check(w.sc->interactions->found(0, 1), "every pair of bodies overlapping through the periodic boundary is a potential contact");
		const shared_ptr<Interaction>& I = w.sc->interactions->find(0, 1);
		vp_check(I && I->cellDist[axis] == (I->getId1() == 0 ? per : -per), "the potential contact refers to the overlapping image");
	}
	for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) {
		const InsertionSortCollider::Bounds& x = w.c->BB[k].vec[i];
		vp_eq(x.coord + x.period * D, x.flags.isMin ? w.b[x.id]->bound->min[k] : w.b[x.id]->bound->max[k], "stored coordinate and period give the bound");
	}
}
// @opts bounded=2-bodies time=400 weight=8
HARNESS(c09_periodic_init)
{
	W w; mk(w, 2, true); cell(w);
	int axis = vp_choice("axis", 3);
	placeP(w, 0, axis); placeP(w, 1, axis);
	w.c->action();
	completeP(w, axis);
	vp_cover("done");
}
// @opts bounded=2-bodies time=500 weight=9
HARNESS(c09_periodic_move)
{
	W w; mk(w, 2, true); cell(w);
	placeP(w, 0, 0); placeP(w, 1, 0);
	w.b[0]->bound->min[0] = 1; w.b[0]->bound->max[0] = 3;
	w.b[1]->bound->min[0] = 6.5; w.b[1]->bound->max[0] = 8.5;
	w.c->action();
	Real a = 1 + vp_range("da", -3, 3), b = 6.5 + vp_range("db", -3, 3);
	w.b[0]->bound->min[0] = a; w.b[0]->bound->max[0] = a + 2; w.b[1]->bound->min[0] = b; w.b[1]->bound->max[0] = b + 2;
	w.c->action();
	completeP(w, 0);
	vp_cover("done");
}
// @opts bounded=2-bodies time=400 weight=8
HARNESS(c09_periodicity_on)
{
	W w; mk(w, 2, false); cell(w, false);
	placeP(w, 0, 0); placeP(w, 1, 0);
	w.b[0]->bound->min[0] = 11; w.b[0]->bound->max[0] = 13;
	w.c->action();
	w.sc->isPeriodic = true;
	w.c->action();
	completeP(w, 0);
	vp_cover("done");
}
// sort initialized again in a periodic scene
// @opts bounded=2-bodies time=500 weight=8
HARNESS(c09_periodic_reinit)
{
	W w; mk(w, 2, true); cell(w);
	placeP(w, 0, 0); placeP(w, 1, 0);
	w.b[0]->bound->min[0] = 11; w.b[0]->bound->max[0] = 13;
	w.b[1]->bound->min[0] = -2; w.b[1]->bound->max[0] = 0.5;
	w.c->action();
	Real b = vp_range("b", -7, 15);
	w.b[1]->bound->min[0] = b; w.b[1]->bound->max[0] = b + 2;
	w.c->doSort = true;
	w.c->action();
	completeP(w, 0);
	vp_cover("done");
}
// ---- wrap helpers
HARNESS(c09_cellwrap)
{
	Real x = vp_real("x"), x0 = vp_real("x0"), d = vp_pos("d");
	int per; Real r = InsertionSortCollider::cellWrap(x, x0, x0 + d, per);
	vp_le(x0, r, "wrapped coordinate is inside the period"); vp_lt(r, x0 + d, "wrapped coordinate is inside the period");
	vp_eq(r + per * d, x, "wrapped coordinate and period give the coordinate");
	Real q = InsertionSortCollider::cellWrapRel(x, x0, x0 + d);
	vp_eq(q, r - x0, "relative wrap agrees");
	vp_cover("done");
}
// when the collider has to run
HARNESS(c09_activated)
{
	W w; mk(w, 1);
	w.c->BB[0].size = vp_choice("sz", 3) ? 2 : 0;
	w.c->strideActive = vp_bool("stride"); w.sc->doSort = vp_bool("doSort"); w.sc->interactions->dirty = vp_bool("dirty"); w.c->periodic = vp_bool("wasPeriodic");
	w.c->newton.reset(new NewtonIntegrator);
	w.c->newton->maxVelocitySq = vp_nonneg("disp");
	bool act = w.c->isActivated();
	Real d = w.c->newton->maxVelocitySq;
	if (!w.c->strideActive || d >= 1 || w.c->BB[0].size != 2 || w.sc->doSort || w.sc->interactions->dirty || w.c->periodic) vp_check(act, "the collider runs when a body could have left its bound, bodies were added or removed, or contacts were cleared");
	if (w.c->strideActive && d > 0 && d < 1 && w.c->BB[0].size == 2 && !w.sc->doSort && !w.sc->interactions->dirty && !w.c->periodic) vp_check(!act, "the collider does not run without need");
	vp_cover("done");
}
// probing a volume
// @opts bounded=2-bodies
HARNESS(c09_probe)
{
	W w; mk(w, 2);
	int axis = vp_choice("axis", 3);
	place(w, 0, axis); place(w, 1, axis);
	for (int i = 0; i < 2; i++) { w.b[i]->bound->sweepLength = 0; w.b[i]->state->pos = w.b[i]->bound->refPos = Vector3r::Zero(); }
	w.c->action();
	Aabb q; for (int k = 0; k < 3; k++) { q.min[k] = 0.3; q.max[k] = 0.6; }
	Real a = vp_real("qlo"); q.min[axis] = a; q.max[axis] = a + vp_nonneg("qlen");
	std::vector<int> r = w.c->probeBoundingVolume(q);
	for (int i = 0; i < 2; i++) {
		bool in = true; for (int k = 0; k < 3; k++) if (q.min[k] > w.b[i]->bound->max[k] || w.b[i]->bound->min[k] > q.max[k]) in = false;
		int cnt = 0; for (size_t j = 0; j < r.size(); j++) if (r[j] == i) cnt++;
		vp_check(cnt == (in ? 1 : 0), "a probed volume returns exactly the bodies whose bounds it touches");
	}
	vp_cover("done");
}
