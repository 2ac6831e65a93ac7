// C12 clumps as rigid bodies: the real Clump (mass properties, member poses, rigid motion, force transfer).
// The eigen-solver is a dependency: its contract (V orthogonal of either handedness, V diag(e) V^T = argument) replaces its body in
// c12_orientation; the other harnesses check the argument it is given.
#include <prelude.hpp>
#include <Eigen/Eigenvalues>
static Matrix3r eigArg, eigVec; static Vector3r eigVal; static int eigMode = 0;   // 0: identity vectors; 1: vectors of the harness
namespace Eigen {
template <> template <> SelfAdjointEigenSolver<Matrix3r>& SelfAdjointEigenSolver<Matrix3r>::compute<Matrix3r>(const EigenBase<Matrix3r>& m, int)
{
	eigArg = m.derived();
	m_eivec = eigVec; m_eivalues = eigVal; m_info = Success; m_isInitialized = true; m_eigenvectorsOk = true;
	return *this;
}
}
#include <omega.hpp>
#include <forces.hpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <pkg/dem/NewtonIntegrator.hpp>
#include <core/Clump.cpp>
#include <pkg/common/Sphere.hpp>
#include <pkg/common/Box.hpp>

struct W { Scene* sc; shared_ptr<Body> c; Clump* cl; State* cs; int n; Body* b[3]; State* s[3]; };
// n members with arbitrary poses; clump body has id n
static void mk(W& w, int n)
{
	vp_nthreads(1); vp_thread(0);
	w.sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(w.sc);
	w.sc->iter = 0;
	w.n = n;
	for (int i = 0; i < n; i++) {
		w.b[i] = new Body; w.b[i]->id = i; w.s[i] = w.b[i]->state.get(); w.b[i]->clumpId = n;
		w.sc->bodies->body.push_back(shared_ptr<Body>(w.b[i]));
	}
	w.c.reset(new Body); w.c->id = n; w.c->clumpId = n; w.cl = new Clump; w.c->shape.reset(w.cl); w.cs = w.c->state.get();
	w.sc->bodies->body.push_back(w.c);
	for (int i = 0; i < n; i++) w.cl->members[i] = Se3r(Vector3r::Zero(), Quaternionr::Identity());
	eigVec = Matrix3r::Identity(); eigVal = Vector3r(1, 2, 3);
}
static void sphere(W& w, int i, Real r, Real rho)
{
	Sphere* s = new Sphere; s->radius = r; w.b[i]->shape.reset(s);
	Material* m = new Material; m->density = rho; w.b[i]->material.reset(m);
}
static void vpEqM(const Matrix3r& a, const Matrix3r& b, const char* l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_eq(a(i, j), b(i, j), l); }
static void vpEqQ(const Quaternionr& a, const Quaternionr& b, const char* l) { vpEqM(a.toRotationMatrix(), b.toRotationMatrix(), l); }
static Matrix3r steiner(Real m, const Vector3r& d) { return m * (d.dot(d) * Matrix3r::Identity() - d * d.transpose()); }
// ---- rigid motion
HARNESS(c12_move)
{
	W w; mk(w, 2);
	w.cs->pos = vpVec("x"); w.cs->vel = vpVec("v"); w.cs->angVel = vpVec("w"); w.cs->ori = vpQuat("q");
	Se3r rel[2];
	for (int i = 0; i < 2; i++) { rel[i] = Se3r(vpVec("p"), vpQuat("o")); w.cl->members[i] = rel[i]; w.s[i]->pos = vpVec("old"); w.s[i]->vel = vpVec("old"); w.s[i]->angVel = vpVec("old"); w.s[i]->ori = vpQuat("oldq"); }
	Clump::moveMembers(w.c, w.sc, (NewtonIntegrator*)0);
	for (int i = 0; i < 2; i++) {
		vpEqV(w.s[i]->pos, w.cs->pos + w.cs->ori.toRotationMatrix() * rel[i].position, "member follows the pose of its clump");
		vpEqM(w.s[i]->ori.toRotationMatrix(), w.cs->ori.toRotationMatrix() * rel[i].orientation.toRotationMatrix(), "member is rotated with its clump");
		vpEqV(w.s[i]->vel, w.cs->vel + w.cs->angVel.cross(w.s[i]->pos - w.cs->pos), "member velocity is that of rigid motion");
		vpEqV(w.s[i]->angVel, w.cs->angVel, "member spins with its clump");
		vpEqV(w.cl->members[i].position, rel[i].position, "relative poses are kept");
	}
	vp_eq((w.s[0]->pos - w.s[1]->pos).squaredNorm(), (rel[0].position - rel[1].position).squaredNorm(), "distance between members is constant");
	vp_cover("done");
}
HARNESS(c12_forces)
{
	W w; mk(w, 3); vpForces(w.sc, 4);
	for (int i = 0; i < 3; i++) w.s[i]->pos = vpVec("p");
	w.cs->pos = vpVec("x");
	Vector3r F0 = vpVec("F"), T0 = vpVec("T"), F = F0, T = T0, P = vpVec("P"), M = Vector3r::Zero(), S = Vector3r::Zero();
	w.cl->addForceTorqueFromMembers(w.cs, w.sc, F, T);
	for (int i = 0; i < 3; i++) { S += w.sc->forces._force[i]; M += w.sc->forces._torque[i] + (w.s[i]->pos - P).cross(w.sc->forces._force[i]); }
	vpEqV(F - F0, S, "force on the clump is the sum over members");
	vpEqV(T - T0 + (w.cs->pos - P).cross(F - F0), M, "moment on the clump (about any point) is that of the members");
	vp_cover("done");
}
// ---- tensors
HARNESS(c12_translate)
{
	Matrix3r I; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) I(i, j) = I(j, i) = vp_real("I");
	Real m = vp_real("m"); Vector3r d = vpVec("d");
	Matrix3r R = Clump::inertiaTensorTranslate(I, m, d), E = I + steiner(m, d);
	for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) vp_eq(R(i, j), E(i, j), "parallel axis theorem");
	vp_cover("done");
}
HARNESS(c12_rotate)
{
	Matrix3r I; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) I(i, j) = I(j, i) = vp_real("I");
	Quaternionr q = vpQuat("q");
	Matrix3r T = q.toRotationMatrix();
	vpEqM(Clump::inertiaTensorRotate(I, T), T.transpose() * I * T, "tensor in rotated coordinates");
	vpEqM(Clump::inertiaTensorRotate(I, q), T.transpose() * I * T, "tensor in rotated coordinates (quaternion)");
	vp_cover("done");
}
// ---- mass properties
static void worldKept(W& w, Vector3r* p, Quaternionr* q)
{
	for (int i = 0; i < w.n; i++) {
		vpEqV(w.s[i]->pos, p[i], "members are not moved by the update"); vpEqQ(w.s[i]->ori, q[i], "members are not rotated by the update");
		Matrix3r R = w.cs->ori.toRotationMatrix();
		vpEqV(w.cs->pos + R * w.cl->members[i].position, p[i], "relative positions give back the positions of members");
		vpEqM(R * w.cl->members[i].orientation.toRotationMatrix(), q[i].toRotationMatrix(), "relative orientations give back the orientations of members");
	}
	vpEqV(w.cs->vel, Vector3r::Zero(), "clump starts at rest"); vpEqV(w.cs->angVel, Vector3r::Zero(), "clump starts at rest");
}
static void inertiaArg(Matrix3r want) { vpEqM(eigArg, want, "inertia tensor about the centroid in global orientation"); }
static void spheres(int n)
{
	W w; mk(w, n);
	Vector3r p[3]; Quaternionr q[3]; Real m[3], M = 0; Vector3r S = Vector3r::Zero();
	for (int i = 0; i < n; i++) {
		Real r = vp_pos("r"), rho = vp_pos("rho");
		sphere(w, i, r, rho); w.s[i]->pos = p[i] = vpVec("p"); w.s[i]->ori = q[i] = vpQuat("q");
		w.s[i]->mass = vp_pos("stale");
		m[i] = rho * ((4. / 3.) * Mathr::PI * (r * r * r)); M += m[i]; S += m[i] * p[i];
	}
	Clump::updateProperties(w.c, 0);
	vp_eq(w.cs->mass, M, "mass of the clump is the sum of the masses of members");
	vpEqV(w.cs->pos * w.cs->mass, S, "clump sits at the centroid");
	Matrix3r I = Matrix3r::Zero();
	for (int i = 0; i < n; i++) { Real r = static_cast<Sphere*>(w.b[i]->shape.get())->radius; I += (2 / 5.) * m[i] * r * r * Matrix3r::Identity() + steiner(m[i], p[i] - w.cs->pos); }
	inertiaArg(I);
	vpEqV(w.cs->inertia, eigVal, "principal inertia");
	vp_check(w.c->isAspherical(), "a clump with different principal inertias is integrated as such");
	worldKept(w, p, q);
	vp_cover("done");
}
// @opts bounded=2-members
HARNESS(c12_spheres2) { spheres(2); }
// @opts bounded=3-members
HARNESS(c12_spheres3) { spheres(3); }
// any members that are not spheres: their own mass and principal inertia (also the update used when single members are removed)
static void update(W& w, int how)
{
	if (how == 0) Clump::updateProperties(w.c, 0);
	else if (how == 1) Clump::updatePropertiesNonSpherical(w.c, false);
	else Clump::updatePropertiesNonSpherical(w.c, false, *vpOmegaScene);
}
// @opts bounded=2-members
HARNESS(c12_boxes)
{
	W w; mk(w, 2);
	int how = vp_choice("how", 3);
	Vector3r p[3]; Quaternionr q[3]; Real m[3], M = 0; Vector3r S = Vector3r::Zero(), J[3];
	for (int i = 0; i < 2; i++) {
		w.b[i]->shape.reset(new Box); w.b[i]->material.reset(new Material); w.b[i]->material->density = vp_pos("rho");
		w.s[i]->pos = p[i] = vpVec("p"); w.s[i]->ori = q[i] = vpQuat("q"); w.s[i]->mass = m[i] = vp_pos("m"); w.s[i]->inertia = J[i] = vpVec("J");
		M += m[i]; S += m[i] * p[i];
	}
	update(w, how);
	vp_eq(w.cs->mass, M, "mass of the clump is the sum of the masses of members");
	vpEqV(w.cs->pos * M, S, "clump sits at the centroid");
	Matrix3r I = Matrix3r::Zero();
	for (int i = 0; i < 2; i++) { Matrix3r R = q[i].toRotationMatrix(), D = J[i].asDiagonal(); I += R * D * R.transpose() + steiner(m[i], p[i] - S / M); }
	inertiaArg(I);
	worldKept(w, p, q);
	vp_cover("done");
}
HARNESS(c12_single)
{
	W w; mk(w, 1);
	Real r = vp_pos("r"); sphere(w, 0, r, vp_pos("rho"));
	Vector3r p[3] = { vpVec("p") }; Quaternionr q[3] = { vpQuat("q") };
	w.s[0]->pos = p[0]; w.s[0]->ori = q[0]; w.s[0]->mass = vp_pos("m"); w.s[0]->inertia = vpVec("J");
	w.cs->vel = vpVec("v"); w.cl->members[0] = Se3r(vpVec("old"), vpQuat("oldq"));
	update(w, vp_choice("how", 3));
	vp_eq(w.cs->mass, w.s[0]->mass, "mass of a single member"); vpEqV(w.cs->inertia, w.s[0]->inertia, "inertia of a single member");
	worldKept(w, p, q);
	vp_cover("done");
}
// @opts allow_throw=1
HARNESS(c12_empty)
{
	W w; mk(w, 0);
	bool t = false; try { Clump::updateProperties(w.c, 0); } catch (std::runtime_error&) { t = true; }
	vp_check(t, "a clump without members is refused");
	vp_cover("done");
}
// principal axes: whatever (orthogonal) eigenvectors of either handedness and eigenvalues the solver returns
static void orientation(int flip, int how)
{
	W w; mk(w, 2);
	Vector3r p[3]; Quaternionr q[3];
	for (int i = 0; i < 2; i++) { sphere(w, i, 1, 1); w.s[i]->pos = p[i] = Vector3r(3 * i, 0, 0); w.s[i]->ori = q[i] = Quaternionr::Identity(); }
	Quaternionr v = vpQuat("V");
	eigVec = v.toRotationMatrix(); if (flip >= 0) eigVec.col(flip) *= -1;
	eigVal = vpVec("e");
	Matrix3r V = eigVec, D = eigVal.asDiagonal();
	update(w, how);
	Matrix3r R = w.cs->ori.toRotationMatrix(), E = w.cs->inertia.asDiagonal();
	vpEqM(R * E * R.transpose(), V * D * V.transpose(), "orientation and principal inertia of the clump represent its inertia tensor");
	vp_eq(w.cs->ori.squaredNorm(), 1, "orientation is a rotation");
	vp_check(w.c->isAspherical() == (eigVal[0] != eigVal[1] || eigVal[0] != eigVal[2]), "aspherical exactly when principal inertias differ");
	vp_cover("done");
}
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_proper) { orientation(-1, 0); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left0) { orientation(0, 0); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left1) { orientation(1, 0); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left2) { orientation(2, 0); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_proper_nonspherical) { orientation(-1, 1); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left0_nonspherical) { orientation(0, 1); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left1_nonspherical) { orientation(1, 1); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left2_nonspherical) { orientation(2, 1); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_proper_nonspherical_scene) { orientation(-1, 2); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left0_nonspherical_scene) { orientation(0, 2); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left1_nonspherical_scene) { orientation(1, 2); }
// @opts bounded=2-members ptime=60
HARNESS(c12_orientation_left2_nonspherical_scene) { orientation(2, 2); }
// overlapping spheres: volume integration on a grid; the common volume counts once
static void grid(Real dist, int disc)
{
	W w; mk(w, 2);
	Vector3r p[3] = { Vector3r(0, 0, 0), Vector3r(dist, 0, 0) }; Quaternionr q[3] = { Quaternionr::Identity(), Quaternionr::Identity() };
	Real rho[2] = { vp_pos("rho"), vp_pos("rho") };
	for (int i = 0; i < 2; i++) { sphere(w, i, 1, rho[i]); w.s[i]->pos = p[i]; w.s[i]->ori = q[i]; }
	Clump::updateProperties(w.c, disc);
	Real dx = 2. / disc, M = 0; Vector3r S = Vector3r::Zero(); Matrix3r I = Matrix3r::Zero();
	for (int pass = 0; pass < 2; pass++)
		for (Real x = -1 + dx / 2; x < 1 + dist; x += dx) for (Real y = -1 + dx / 2; y < 1; y += dx) for (Real z = -1 + dx / 2; z < 1; z += dx) {
			Vector3r X(x, y, z); int k = X.squaredNorm() < 1 ? 0 : (X - p[1]).squaredNorm() < 1 ? 1 : -1;
			if (k < 0) continue;
			Real m = rho[k] * dx * dx * dx;
			if (!pass) { M += m; S += m * X; } else I += steiner(m, X - S / M) + m * dx * dx / 6 * Matrix3r::Identity();
		}
	vp_eq(w.cs->mass, M, "mass of overlapping spheres counts the union of their volumes"); vpEqV(w.cs->pos * M, S, "clump sits at the centroid of the union");
	inertiaArg(I);
	worldKept(w, p, q);
	vp_cover("done");
}
// @opts bounded=2-members-fixed-grid
HARNESS(c12_grid) { grid(1, vp_choice("d", 2) ? 4 : 2); }
// spheres that only touch are not integrated on the grid
// @opts bounded=2-members
HARNESS(c12_touching)
{
	W w; mk(w, 2);
	Real r1 = vp_pos("r"), r2 = vp_pos("r"), gap = vp_nonneg("gap"), rho = vp_pos("rho");
	sphere(w, 0, r1, rho); sphere(w, 1, r2, rho); w.s[0]->pos = vpVec("p"); w.s[1]->pos = w.s[0]->pos + Vector3r(r1 + r2 + gap, 0, 0);
	Clump::updateProperties(w.c, 1);
	vp_eq(w.cs->mass, rho * (4. / 3.) * Mathr::PI * (r1 * r1 * r1 + r2 * r2 * r2), "non-overlapping spheres keep their exact mass");
	vp_cover("done");
}
