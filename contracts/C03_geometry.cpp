// C03 contact geometry: the real ScGeom/ScGeom6D and the Ig2 functors of sphere, facet, wall and box with a sphere.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/Dispatching.cpp>
#include <pkg/common/Facet.cpp>
#include <pkg/common/Wall.cpp>
#include <pkg/dem/ScGeom.cpp>
#include <pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp>
#include <pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp>
#include <pkg/dem/Ig2_Box_Sphere_ScGeom.cpp>
#include <pkg/dem/L3Geom.cpp>

static Scene* sc; static shared_ptr<Interaction>* I; static shared_ptr<Shape>*s1, *s2; static State *b1, *b2; static Vector3r shift, sv, oldN; static bool real, force, old;
static ScGeom* prev;
// arbitrary motion of both bodies, an arbitrary periodic image, a contact which is new, potential or real
template <class G> static void mk(Shape* a, Shape* b, int kind, int peri = -1)
{
	vp_nthreads(1); vp_thread(0); sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc); sc->dt = vp_real("dt");
	s1 = new shared_ptr<Shape>(a); s2 = new shared_ptr<Shape>(b); b1 = new State; b2 = new State;
	b1->vel = vpVec("v1"); b2->vel = vpVec("v2"); b1->angVel = vpVec("w1"); b2->angVel = vpVec("w2"); b1->pos = vpVec("x1");
	I = new shared_ptr<Interaction>(new Interaction(3, 5)); prev = 0; oldN = Vector3r::Zero();
	sc->isPeriodic = peri < 0 ? vp_bool("periodic") : peri; shift = sv = Vector3r::Zero();
	if (sc->isPeriodic) { (*I)->cellDist = Vector3i(1, -2, 1); shift = vpVec("shift"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sc->cell->_vGradTimesPrevH(i, j) = vp_real("vh"); sc->cell->hSize(i, j) = vp_real("h"); } sv = sc->cell->_vGradTimesPrevH * Vector3r(1, -2, 1); }
	// 0: new, 1: new and forced, 2: geometry left from before but not real, 3: real
	old = kind >= 2; real = kind == 3; force = kind == 1;
	if (old) { prev = new G; oldN = vpVec("oldn"); prev->normal = oldN; prev->contactPoint = vpVec("oldc"); prev->penetrationDepth = vp_real("oldd"); prev->radius1 = vp_real("oldr"); prev->radius2 = vp_real("oldr"); prev->shearInc = vpVec("olds"); prev->twist_axis = vpVec("oldt"); prev->orthonormal_axis = vpVec("oldo"); (*I)->geom.reset(prev); }
	if (real) (*I)->phys.reset(new IPhys);
}
static Vector3r cross(const Vector3r& a, const Vector3r& b) { return Vector3r(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
// velocity of the second body (its image) with respect to the first, at the contact point
static Vector3r vrel(ScGeom* g) { return b2->vel + sv + cross(b2->angVel, g->contactPoint - (b2->pos + shift)) - b1->vel - cross(b1->angVel, g->contactPoint - b1->pos); }
static Vector3r tangential(const Vector3r& v, const Vector3r& n) { return v - (v[0] * n[0] + v[1] * n[1] + v[2] * n[2]) * n; }
// common part: what a contact of two points moving with their bodies must carry
static ScGeom* result(bool r)
{
	if (!r) { vp_check(!old ? !(*I)->geom : (*I)->geom.get() == prev, "no geometry is made where there is no contact"); return 0; }
	ScGeom* g = static_cast<ScGeom*>((*I)->geom.get()); vp_check(g != 0, "a contact has geometry");
	if (old) vp_check(g == prev, "geometry of a lasting contact is kept");
	return g;
}
static void motion(ScGeom* g, const Vector3r& v)
{
	vpEqV(g->shearInc, sc->dt * tangential(v, g->normal), "shear increment is the tangential relative displacement in this step");
	vpEqV(g->orthonormal_axis, old ? cross(oldN, g->normal) : Vector3r(0, 0, 0), "rotation of the contact plane since the last step");
	vpEqV(g->twist_axis, old ? Vector3r(oldN * (sc->dt / 2 * (oldN[0] * (b1->angVel[0] + b2->angVel[0]) + oldN[1] * (b1->angVel[1] + b2->angVel[1]) + oldN[2] * (b1->angVel[2] + b2->angVel[2])))) : Vector3r(0, 0, 0), "mean spin about the normal in this step");
}
static Real r1, r2, dist; static Vector3r n; static bool noRatch;
template <class F> static F* spheres(int kind)
{
	Sphere *a = new Sphere, *b = new Sphere; r1 = a->radius = vp_pos("r1"); r2 = b->radius = vp_pos("r2"); mk<ScGeom6D>(a, b, kind);
	n = vpUnit("n"); dist = vp_pos("dist"); b2->pos = b1->pos + dist * n - shift;
	F* f = new F; f->scene = sc; f->avoidGranularRatcheting = noRatch = vp_bool("noRatch"); f->interactionDetectionFactor = vp_pos("factor"); return f;
}
static void sphereGeom(ScGeom* g)
{
	vpEqV(g->normal, n, "normal is the unit vector to the image of the second sphere"); vp_eq(g->penetrationDepth, r1 + r2 - dist, "depth of overlap");
	vpEqV(g->contactPoint, b1->pos + n * (r1 - (r1 + r2 - dist) / 2), "contact point is in the middle of the overlap"); vp_eq(g->radius1, r1, "radius of the first sphere"); vp_eq(g->radius2, r2, "radius of the second sphere");
	if (noRatch) motion(g, ((r1 + r2) / dist) * (b2->vel + sv - b1->vel) - cross(r2 * b2->angVel + r1 * b1->angVel, n)); else motion(g, vrel(g));
}
HARNESS(c03_sphere)
{
	auto f = spheres<Ig2_Sphere_Sphere_ScGeom>(vp_choice("kind", 4)); bool r = f->go(*s1, *s2, *b1, *b2, shift, force, *I);
	Real R = f->interactionDetectionFactor * (r1 + r2); vp_check(r == (real || force || !(dist * dist > R * R)), "contact exactly when the spheres are within the detection distance, or already in contact, or forced");
	if (ScGeom* g = result(r)) sphereGeom(g);
	vp_cover("done");
}
HARNESS(c03_sphere_reverse)
{
	int kind = vp_choice("kind", 2); auto f = spheres<Ig2_Sphere_Sphere_ScGeom>(kind ? 3 : 1); bool r = f->goReverse(*s1, *s2, *b2, *b1, -shift, force, *I);
	vp_check(r, "contact"); if (ScGeom* g = result(r)) sphereGeom(g);
	vp_cover("done");
}
// 6 degrees of freedom: the same geometry, rotations start at zero
HARNESS(c03_sphere6d_new)
{
	auto f = spheres<Ig2_Sphere_Sphere_ScGeom6D>(vp_choice("kind", 2)); f->updateRotations = true; b1->ori = vpQuat("q1"); b2->ori = vpQuat("q2"); bool r = f->go(*s1, *s2, *b1, *b2, shift, force, *I);
	Real R = f->interactionDetectionFactor * (r1 + r2); vp_check(r == (force || !(dist * dist > R * R)), "contact exactly when the spheres are within the detection distance, or forced");
	if (ScGeom* g = result(r)) {
		sphereGeom(g); ScGeom6D* d = dynamic_cast<ScGeom6D*>(g); vp_check(d != 0, "contact tracks rotations");
		if (d) { vp_eq(d->twist, 0, "no twist at first"); vpEqV(d->bending, Vector3r(0, 0, 0), "no bending at first"); vpEqV(d->initialOrientation1.vec(), b1->ori.vec(), "orientations at creation"); vpEqV(d->initialOrientation2.vec(), b2->ori.vec(), "orientations at creation"); vp_eq(d->initialOrientation1.w(), b1->ori.w(), "orientations at creation"); vp_eq(d->initialOrientation2.w(), b2->ori.w(), "orientations at creation"); }
	}
	vp_cover("done");
}
HARNESS(c03_sphere6d_old)
{
	auto f = spheres<Ig2_Sphere_Sphere_ScGeom6D>(3); f->updateRotations = false; bool r = f->go(*s1, *s2, *b1, *b2, shift, force, *I); vp_check(r, "contact");
	if (ScGeom* g = result(r)) sphereGeom(g);
	vp_cover("done");
}
// twist and bending: the vector of the smallest relative rotation since creation, split along the normal.
// (relative rotations by less than 4e-16 other than none are left out: there Eigen takes a rescaled norm)
static void relative(const Vector3r& u, Real c, Real s, bool creep, const Quaternionr& P)
{
	ScGeom6D* g = new ScGeom6D; Vector3r nn = vpUnit("n"); g->normal = nn; State *a = new State, *b = new State; Quaternionr i1 = vpQuat("i1"), i2 = vpQuat("i2"); g->initialOrientation1 = i1; g->initialOrientation2 = i2; g->twist = vp_real("t"); g->bending = vpVec("b");
	// after creation the second body was rotated by P, the first by P and then about axis u, by the angle with half-angle cosine c and sine s
	Quaternionr D(c, s * u[0], s * u[1], s * u[2]); b->ori = P * i2; a->ori = (D * P) * i1;
	if (creep) { Quaternionr k = vpQuat("creep"); g->twistCreep = k; a->ori = ((D * k.conjugate()) * P) * i1; }
	g->precomputeRotations(*a, *b, false, creep);
	Real h = s == 0 ? 0 : (c < 0 ? -2 : 2) * atan2(s, fabs(c));
	vp_eq(g->bending.dot(nn), 0, "bending is perpendicular to the normal"); vpEqV(g->bending + g->twist * nn, h * u, "twist and bending add up to the relative rotation of the bodies since creation");
	vp_cover("done");
}
static void rotation(bool creep, const Quaternionr& P)
{
	Vector3r u = vpUnit("u"); Real s = vp_pos("s"), c = vp_real("c"); vp_rule(c, 1 - s * s); vp_assume(!(s < Eigen::NumTraits<Real>::epsilon())); vp_assume(!(2 * atan2(s, fabs(c)) > Mathr::PI)); relative(u, c, s, creep, P);
}
HARNESS(c03_rotation_relative) { rotation(false, Quaternionr(1, 0, 0, 0)); }
HARNESS(c03_rotation_common) { rotation(false, vpQuat("P")); }
HARNESS(c03_rotation_creep) { rotation(true, Quaternionr(1, 0, 0, 0)); }
HARNESS(c03_rotation_none) { relative(Vector3r(1, 0, 0), vp_bool("minus") ? -1 : 1, 0, vp_bool("creep"), vpQuat("P")); }
HARNESS(c03_wall)
{
	Wall* w = new Wall; w->axis = vp_choice("axis", 3); w->sense = vp_int("sense", -1, 1); int ax = w->axis; Sphere* s = new Sphere; Real r = s->radius = vp_pos("r"); mk<ScGeom>(w, s, vp_choice("kind", 4)); b2->pos = vpVec("x2");
	auto f = new Ig2_Wall_Sphere_ScGeom; f->scene = sc; f->noRatch = vp_bool("noRatch"); bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I);
	Real d = b2->pos[ax] + shift[ax] - b1->pos[ax], ad = d < 0 ? -d : d; vp_check(res == (real || force || !(ad > r)), "contact exactly when the sphere reaches the wall, or already in contact, or forced");
	if (ScGeom* g = result(res)) {
		for (int k = 0; k < 3; k++) {
			vp_eq(g->normal[k], k != ax ? 0 : w->sense == 0 ? (d > 0 ? 1 : -1) : w->sense, "normal is perpendicular to the wall, on the interacting side");
			vp_eq(g->contactPoint[k], k == ax ? b1->pos[k] : b2->pos[k] + shift[k], "contact point is the projection of the centre on the wall");
		}
		vp_eq(g->penetrationDepth, r - ad, "depth of overlap"); vp_eq(g->radius2, r, "radius of the sphere"); vp_eq(g->radius1, r, "radius given to the wall");
		if (f->noRatch) { if (vp_case(ad < 2 * r)) motion(g, (2 * r / (r + ad)) * (b2->vel + sv - b1->vel) - cross(r * b2->angVel + r * b1->angVel, g->normal)); } else motion(g, vrel(g));
	}
	vp_cover("done");
}
static Vector3r c, e; static Matrix3r R;
static Ig2_Box_Sphere_ScGeom* box(int kind, Real& r)
{
	Box* b = new Box; e = Vector3r(vp_nonneg("e"), vp_nonneg("e"), vp_nonneg("e")); b->extents = e; Sphere* s = new Sphere; r = s->radius = vp_pos("r"); mk<ScGeom>(b, s, kind);
	b1->ori = vpQuat("ori"); R = b1->ori.toRotationMatrix(); c = vpVec("c"); b2->pos = b1->pos + R * c - shift; auto f = new Ig2_Box_Sphere_ScGeom; f->scene = sc; return f;
}
// sphere centre in box axes is c; nearest point of the box.  One region of space (below, within, above the box along each axis) at a time
static void outside(int kind, bool turned)
{
	Real r; auto f = box(kind, r); if (!turned) { b1->ori = Quaternionr(1, 0, 0, 0); R = Matrix3r::Identity(); b2->pos = b1->pos + c - shift; }
	Vector3r p; bool in = true; for (int k = 0; k < 3; k++) { int w = vp_choice("side", 3); vp_assume(w == 0 ? c[k] < -e[k] : w == 1 ? c[k] > e[k] : c[k] >= -e[k] && c[k] <= e[k]); p[k] = w == 0 ? -e[k] : w == 1 ? e[k] : c[k]; in = in && w == 2; }
	if (in) return;
	vp_lemma((c - p).squaredNorm() > 0, "the centre is apart from the box");
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); Real q = (c - p).squaredNorm(); vp_check(res == (real || force || !(q > r * r)), "contact exactly when the sphere reaches the box, or already in contact, or forced");
	if (ScGeom* g = result(res)) {
		Vector3r nl = R.transpose() * g->normal; Real d = r - g->penetrationDepth; vp_le(0, d, "depth of overlap"); vp_eq(d * d, q, "depth of overlap is radius minus distance to the box"); vpEqV(nl * d, c - p, "normal points from the nearest point of the box to the sphere"); vp_eq(g->normal.squaredNorm(), 1, "normal is a unit vector");
		vpEqV(R.transpose() * (g->contactPoint - b1->pos), 0.5 * (p + c - r * nl), "contact point is in the middle of the overlap"); vp_eq(g->radius1, r, "radius given to the box"); vp_eq(g->radius2, r, "radius of the sphere");
	}
	vp_cover("done");
}
HARNESS(c03_box_outside) { outside(vp_choice("kind", 4), false); }
HARNESS(c03_box_outside_turned) { outside(3, true); }
HARNESS(c03_box_outside_motion)
{
	Real r; auto f = box(vp_choice("kind", 2) ? 3 : 1, r); int k = vp_choice("k", 3); for (int j = 0; j < 3; j++) vp_assume(j == k ? c[j] > e[j] : c[j] <= e[j] && c[j] >= -e[j]);
	b1->ori = Quaternionr(1, 0, 0, 0); R = Matrix3r::Identity(); b2->pos = b1->pos + c - shift;
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); if (ScGeom* g = result(res)) motion(g, vrel(g));
	vp_cover("done");
}
HARNESS(c03_box_inside)
{
	Real r; auto f = box(vp_choice("kind", 4), r); int k = vp_choice("nearest", 3); Real d = vp_nonneg("d"); // distance of the centre to the nearest face
	for (int j = 0; j < 3; j++) { Real a = j == k ? vp_pos("a") : vp_nonneg("a"); c[j] = vp_bool("up") ? a : -a; e[j] = a + d; if (j != k) e[j] += vp_pos("more"); } b2->pos = b1->pos + R * c - shift;
	static_cast<Box*>(s1->get())->extents = e; bool up = c[k] > 0;
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); vp_check(res, "a sphere with centre inside the box is in contact");
	if (ScGeom* g = result(res)) {
		Vector3r nl(0, 0, 0); nl[k] = up ? 1 : -1; vpEqV(g->normal, R * nl, "normal points out of the nearest face"); vp_eq(g->penetrationDepth, r + d, "depth is radius plus distance to the nearest face");
		vpEqV(R.transpose() * (g->contactPoint - b1->pos), c + nl * ((d - r) / 2), "contact point is in the middle of the overlap"); vp_eq(g->radius1, r, "radius given to the box"); vp_eq(g->radius2, r, "radius of the sphere");
	}
	vp_cover("done");
}
// ---- contact frame
HARNESS(c03_rotate)
{
	ScGeom* g = new ScGeom; g->orthonormal_axis = vpVec("o"); g->twist_axis = vpVec("t"); Vector3r f = vpVec("f"), f0 = f, a = f0 + cross(g->orthonormal_axis, f0); Vector3r& x = g->rotate(f);
	vp_check(&x == &f, "rotated in place"); vpEqV(f, a + cross(g->twist_axis, a), "tangential force turns with the contact plane, then with the spin");
	vp_cover("done");
}
HARNESS(c03_incident)
{
	auto f = spheres<Ig2_Sphere_Sphere_ScGeom>(1); bool res = f->go(*s1, *s2, *b1, *b2, shift, true, *I); ScGeom* g = result(res);
	vpEqV(g->getIncidentVel(b1, b2, sc->dt, shift, sv, false), vrel(g), "relative velocity at the contact point"); vpEqV(g->getIncidentVel(b1, b2, sc->dt, shift, sv, true), ((r1 + r2) / dist) * (b2->vel + sv - b1->vel) - cross(r2 * b2->angVel + r1 * b1->angVel, n), "relative velocity without ratcheting");
	if (!sc->isPeriodic) { bool nr = vp_bool("nr"); Vector3r a = g->getIncidentVel(b1, b2, sc->dt, nr), b = g->getIncidentVel(b1, b2, sc->dt, shift, sv, nr); vpEqV(a, b, "relative velocity without periodicity"); }
	vpEqV(g->getRelAngVel(b1, b2, sc->dt), b2->angVel - b1->angVel, "relative spin");
	vp_cover("done");
}
HARNESS(c03_incident_of_contact)
{
	auto f = spheres<Ig2_Sphere_Sphere_ScGeom>(1); if (sc->isPeriodic) b2->pos = b1->pos + dist * n - (shift = sc->cell->intrShiftPos((*I)->cellDist)); f->go(*s1, *s2, *b1, *b2, shift, true, *I); ScGeom* g = static_cast<ScGeom*>((*I)->geom.get());
	for (int i = 0; i < 6; i++) sc->bodies->body.push_back(shared_ptr<Body>(new Body)); sc->bodies->body[3]->state.reset(b1); sc->bodies->body[5]->state.reset(b2);
	bool nr = vp_bool("nr"); Vector3r a = g->getIncidentVel_py(*I, nr), b = g->getIncidentVel(b1, b2, sc->dt, shift, sv, nr); vpEqV(a, b, "relative velocity of a contact uses its periodic image"); vpEqV(g->getRelAngVel_py(*I), b2->angVel - b1->angVel, "relative spin of a contact");
	bool t = false; try { (new ScGeom)->getIncidentVel_py(*I, nr); } catch (...) { t = true; } vp_check(t, "geometry of another contact is refused");
	vp_cover("done");
}
// ---- facets.  Any triangle about its incentre, tangent to the axis t1 at edge m: t, u are the tangents of half the outer angles at the ends of edge m
static Ig2_Facet_Sphere_ScGeom* facet(Ig2_Facet_Sphere_ScGeom* f, int kind, int m, const Matrix3r& F, Vector3r* v, Real& rho, Real& r, Facet*& fa)
{
	fa = new Facet; Sphere* s = new Sphere; r = s->radius = vp_pos("r"); mk<ScGeom>(fa, s, kind, 1); rho = vp_pos("rho"); Real t = vp_pos("t"), u = vp_pos("u"); vp_assume(t * u > 1);
	Real T = 1 + t * t, U = 1 + u * u; Vector3r a[3]; a[m] = Vector3r(1, 0, 0); a[(m + 2) % 3] = Vector3r((1 - t * t) / T, -2 * t / T, 0); a[(m + 1) % 3] = Vector3r((1 - u * u) / U, 2 * u / U, 0);
	v[m] = Vector3r(rho, -rho * t, 0); v[(m + 1) % 3] = Vector3r(rho, rho * u, 0); v[(m + 2) % 3] = Vector3r(rho * (1 + t * u) / (1 - t * u), rho * (u - t) / (1 - t * u), 0);
	fa->vertices.clear(); for (int i = 0; i < 3; i++) { fa->vertices.push_back(F * v[i]); fa->ne[i] = F * a[i]; Real l = vp_pos("l"); fa->vl[i] = l; fa->vu[i] = F * v[i] / l; } fa->normal = F.col(2); fa->icr = rho;
	f->scene = sc; f->shrinkFactor = 0; return f;
}
static void onFacet(int kind, int m, bool frame)
{
	Vector3r v[3]; Real rho, r; Facet* fa; Matrix3r F = Matrix3r::Identity(); if (frame) F = vpQuat("frame").toRotationMatrix(); auto f = facet(new Ig2_Facet_Sphere_ScGeom, kind, m, F, v, rho, r, fa);
	R = Matrix3r::Identity(); Vector3r x = vpVec("c"); b2->pos = b1->pos + R * (F * x) - shift;
	// edge m is the first of those farthest exceeded
	for (int i = 0; i < 3; i++) if (i != m) { Real g = fa->ne[m].dot(F * x) - fa->ne[i].dot(F * x); vp_assume(i < m ? g > 0 : g >= 0); }
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I);
	if (!res) { vp_check(!real, "a contact is lasting"); return; }
	ScGeom* g = result(res); Vector3r nl = F.transpose() * (R.transpose() * g->normal); Real d = r - g->penetrationDepth; Vector3r p = x - d * nl;
	vp_eq(g->normal.squaredNorm(), 1, "normal is a unit vector"); vp_le(0, d, "distance to the facet"); vp_check(real || force || d < r, "contact only when the sphere reaches the facet");
	for (int i = 0; i < 3; i++) vp_le((v[i] - p).dot(nl), 0, "normal points from the nearest point of the facet to the centre");
	vp_eq(p[2], 0, "nearest point is in the plane of the facet");
	vpEqV(g->contactPoint, b2->pos + shift - (r - 0.5 * g->penetrationDepth) * g->normal, "contact point is in the middle of the overlap");
	vp_cover("done");
}
HARNESS(c03_facet0) { onFacet(3, 0, false); }
HARNESS(c03_facet1) { onFacet(3, 1, false); }
HARNESS(c03_facet2) { onFacet(3, 2, false); }
HARNESS(c03_facet_new) { onFacet(0, vp_choice("m", 3), false); }
HARNESS(c03_facet_forced) { onFacet(1, vp_choice("m", 3), false); }
// a facet turned together with the sphere about it, or with its vertices given in other axes: the same contact, turned
static void given(Facet* fa, const Matrix3r& F, const Vector3r* a) { fa->normal = F * a[6]; for (int i = 0; i < 3; i++) { fa->ne[i] = F * a[i]; fa->vu[i] = F * a[3 + i]; } }
static void turned(bool frame)
{
	Facet* fa = new Facet; Sphere* s = new Sphere; Real r = s->radius = vp_pos("r"); mk<ScGeom>(fa, s, 3, 1); auto f = new Ig2_Facet_Sphere_ScGeom; f->scene = sc; f->shrinkFactor = 0; Vector3r x = vpVec("c");
	Vector3r a[7]; for (int i = 0; i < 6; i++) { Real p = vp_real("a"), q = vp_real("a"); a[i] = Vector3r(p, q, 0); } a[6] = Vector3r(0, 0, 1); for (int i = 0; i < 3; i++) fa->vl[i] = vp_pos("l"); fa->icr = vp_pos("rho"); given(fa, Matrix3r::Identity(), a); Vector3r y(x[0], x[1], 0); vp_assume(a[0].dot(y) > a[1].dot(y)); vp_assume(a[0].dot(y) > a[2].dot(y));
	b2->pos = b1->pos + x - shift; f->go(*s1, *s2, *b1, *b2, shift, force, *I); ScGeom* g = static_cast<ScGeom*>((*I)->geom.get()); Vector3r n0 = g->normal, p0 = g->contactPoint - b1->pos; Real d0 = g->penetrationDepth;
	Quaternionr q = vpQuat("ori"); R = q.toRotationMatrix(); if (frame) given(fa, R, a); else b1->ori = q; b2->pos = b1->pos + R * x - shift; g->normal = oldN; f->go(*s1, *s2, *b1, *b2, shift, force, *I);
	vpEqV(g->normal, R * n0, "contact turns with the facet"); vpEqV(g->contactPoint - b1->pos, R * p0, "contact turns with the facet"); vp_eq(g->penetrationDepth, d0, "contact turns with the facet");
	vp_eq(g->radius2, r, "radius of the sphere"); vp_eq(g->radius1, 2 * r, "radius given to the facet");
	vp_cover("done");
}
HARNESS(c03_facet_turned) { turned(false); }
HARNESS(c03_facet_frame) { turned(true); }
HARNESS(c03_facet6d)
{
	Vector3r v[3]; Real rho, r; Facet* fa; int kind = vp_choice("kind", 2) ? 3 : 0; auto f = new Ig2_Facet_Sphere_ScGeom6D; facet(f, kind, 0, Matrix3r::Identity(), v, rho, r, fa); if (kind == 3) { prev = new ScGeom6D; prev->normal = oldN; (*I)->geom.reset(prev); }
	// sphere above the inner circle of the facet
	Real x = vp_real("x"), y = vp_real("y"), h = vp_pos("h"); for (int i = 0; i < 3; i++) vp_assume(fa->ne[i][0] * x + fa->ne[i][1] * y < rho); b2->pos = b1->pos + Vector3r(x, y, h) - shift;
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); vp_check(res == (real || h < r), "contact exactly when the sphere reaches the facet, or already in contact");
	if (ScGeom* g = result(res)) {
		vp_check(dynamic_cast<ScGeom6D*>(g) != 0, "contact tracks rotations"); vpEqV(g->normal, Vector3r(0, 0, 1), "normal is that of the facet"); vp_eq(g->penetrationDepth, r - h, "depth of overlap"); vpEqV(g->contactPoint, b1->pos + Vector3r(x, y, (h - r) / 2), "contact point is in the middle of the overlap"); vp_eq(g->radius1, 2 * r, "radius given to the facet"); vp_eq(g->radius2, r, "radius of the sphere"); motion(g, vrel(g));
	}
	vp_cover("done");
}
HARNESS(c03_facet_reverse)
{
	Vector3r v[3]; Real rho, r; Facet* fa; auto f = facet(vp_bool("6d") ? new Ig2_Facet_Sphere_ScGeom6D : new Ig2_Facet_Sphere_ScGeom, 1, 0, Matrix3r::Identity(), v, rho, r, fa); (*I)->swapOrder();
	Real x = vp_real("x"), y = vp_real("y"), h = vp_pos("h"); for (int i = 0; i < 3; i++) vp_assume(fa->ne[i][0] * x + fa->ne[i][1] * y < rho); b2->pos = b1->pos + Vector3r(x, y, h) - shift;
	bool res = f->goReverse(*s2, *s1, *b2, *b1, -shift, force, *I); vp_check(res, "a forced contact is made");
	if (ScGeom* g = result(res)) { vp_check((*I)->getId1() == 3 && (*I)->getId2() == 5 && (*I)->cellDist == Vector3i(1, -2, 1), "the facet comes first"); vpEqV(g->normal, Vector3r(0, 0, 1), "normal is that of the facet"); vp_eq(g->penetrationDepth, r - h, "depth of overlap"); motion(g, vrel(g)); }
	vp_cover("done");
}
// data derived from the vertices of a facet
HARNESS(c03_facet_data)
{
	Facet* f = new Facet; Matrix3r F = vpQuat("frame").toRotationMatrix(); Vector3r v0 = vpVec("v0"); Real l = vp_pos("l"), x = vp_real("x"), y = vp_pos("y");
	f->setVertices(v0, v0 + F.col(0) * l, v0 + F.col(0) * x + F.col(1) * y);
	vpEqV(f->normal, F.col(2), "normal is perpendicular to the vertices, on the side from which they turn left"); vp_eq(f->area, l * y / 2, "area of the facet");
	Vector3r e[3] = { Vector3r(l, 0, 0), Vector3r(x - l, y, 0), Vector3r(-x, -y, 0) }; Real s1 = sqrt((x - l) * (x - l) + y * y), s2 = sqrt(x * x + y * y), L[3] = { l, s1, s2 };
	for (int i = 0; i < 3; i++) { Vector3r m = F.transpose() * f->ne[i]; vpEqV(m * L[i], Vector3r(e[i][1], -e[i][0], 0), "normal of an edge points out of the facet in its plane"); vp_eq(m.squaredNorm(), 1, "normal of an edge is a unit vector"); }
	vp_eq(f->icr * (l + s1 + s2), 2 * f->area, "radius of the inscribed circle");
	vp_cover("done");
}
HARNESS(c03_facet_vertices)
{
	Facet* f = new Facet; Vector3r v[3]; Real l[3]; for (int i = 0; i < 3; i++) { l[i] = vp_pos("l"); v[i] = l[i] * vpUnit("v"); } f->setVertices(v[0], v[1], v[2]);
	for (int i = 0; i < 3; i++) { vp_eq(f->vl[i], l[i], "distance of a vertex"); vpEqV(f->vu[i] * l[i], v[i], "direction of a vertex"); vpEqV(f->vertices[i], v[i], "vertices as given"); }
	vp_cover("done");
}
// ---- geometry in local axes.  Previous axes are the global ones and the normal keeps its direction; increments are taken in the previous axes (approximations 1 and 2 of the functor)
HARNESS(c03_local)
{
	Sphere *a = new Sphere, *b = new Sphere; r1 = a->radius = vp_pos("r1"); r2 = b->radius = vp_pos("r2"); mk<ScGeom>(a, b, 0); dist = vp_pos("dist"); b2->pos = b1->pos + Vector3r(dist, 0, 0) - shift; bool six = vp_bool("six");
	L6Geom* g6 = new L6Geom; L3Geom* g = six ? g6 : new L3Geom; g->normal = Vector3r(1, 0, 0); g->trsf = Matrix3r::Identity(); Vector3r u0 = vpVec("u"), phi = vpVec("phi"); g->u = u0; g6->phi = phi; (*I)->geom.reset(g); (*I)->phys.reset(new IPhys);
	Ig2_Sphere_Sphere_L3Geom* f = six ? new Ig2_Sphere_Sphere_L6Geom : new Ig2_Sphere_Sphere_L3Geom; f->scene = sc; f->approxMask = Ig2_Sphere_Sphere_L3Geom::APPROX_NO_MID_TRSF | Ig2_Sphere_Sphere_L3Geom::APPROX_NO_MID_NORMAL; f->trsfRenorm = vp_int("renorm", -1, 0); f->noRatch = vp_bool("noRatch");
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); vp_check(res && (*I)->geom.get() == g, "a contact is lasting"); Real un = dist - r1 - r2; Vector3r n(1, 0, 0);
	vpEqV(g->normal, n, "normal is the unit vector to the image of the second sphere"); vpEqV(g->contactPoint, b1->pos + n * (r1 + un / 2), "contact point is in the middle of the overlap"); vp_eq(g->refR1, r1, "radius"); vp_eq(g->refR2, r2, "radius");
	Vector3r v = f->noRatch ? b2->vel + sv - cross(b2->angVel, n) * r2 - b1->vel - cross(b1->angVel, n) * r1 : b2->vel + sv - cross(b2->angVel, n) * (r2 + un / 2) - b1->vel - cross(b1->angVel, n) * (r1 + un / 2);
	vpEqV(g->u, Vector3r(un, u0[1] + sc->dt * v[1], u0[2] + sc->dt * v[2]), "displacement: current in normal direction, incremental in tangential ones");
	Real w = sc->dt * .5 * (b1->angVel[0] + b2->angVel[0]); vpEqV(g->trsf.row(0), n, "first axis is the normal"); vpEqV(g->trsf.row(1), Vector3r(0, 1, w), "axes turn with the mean spin"); vpEqV(g->trsf.row(2), Vector3r(0, -w, 1), "axes turn with the mean spin");
	if (six) vpEqV(g6->phi, phi + sc->dt * (b2->angVel - b1->angVel), "rotation increments"); 
	vp_cover("done");
}
HARNESS(c03_local_new)
{
	Sphere *a = new Sphere, *b = new Sphere; r1 = a->radius = vp_pos("r1"); r2 = b->radius = vp_pos("r2"); mk<ScGeom>(a, b, vp_choice("kind", 2)); dist = vp_pos("dist"); n = vpUnit("n"); b2->pos = b1->pos + n * dist - shift; bool six = vp_bool("six");
	Ig2_Sphere_Sphere_L3Geom* f = six ? new Ig2_Sphere_Sphere_L6Geom : new Ig2_Sphere_Sphere_L3Geom; f->scene = sc; bool zero = vp_bool("zero"); Real fac = vp_pos("fac"); f->distFactor = zero ? -fac : fac;
	bool res = f->go(*s1, *s2, *b1, *b2, shift, force, *I); Real R = fac * (r1 + r2), un = dist - r1 - r2; vp_check(res == (force || !(dist * dist > R * R)), "contact exactly when the spheres are within the detection distance, or forced"); vp_check(res == (bool)(*I)->geom, "no geometry is made where there is no contact");
	if (res) {
		L3Geom* g = static_cast<L3Geom*>((*I)->geom.get()); vp_check((dynamic_cast<L6Geom*>(g) != 0) == six, "degrees of freedom as asked for"); vpEqV(g->normal, n, "normal is the unit vector to the image of the second sphere"); vpEqV(g->contactPoint, b1->pos + n * (r1 + un / 2), "contact point is in the middle of the overlap");
		vpEqV(g->u, Vector3r(un, 0, 0), "no tangential displacement at first"); vp_eq(g->u0[0], zero ? un : 0, "initial distance is equilibrium if asked for"); vpEqV(g->trsf.row(0), n, "first axis is the normal"); vp_eq(g->trsf.row(1).dot(n), 0, "axes are perpendicular"); vpEqV(g->trsf.row(2), cross(n, g->trsf.row(1)), "axes are right-handed");
	}
	vp_cover("done");
}
