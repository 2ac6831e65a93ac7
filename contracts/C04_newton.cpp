// C04 time integration: NewtonIntegrator::action applied to one arbitrary body (the loop over bodies touches each body
// independently; a second body is present in c04_two_bodies to check the frame).
#include <prelude.hpp>
#include <omega.hpp>
#include <forces.hpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/dem/NewtonIntegrator.cpp>
#include <core/EnergyTracker.hpp>

struct Nw {
	Scene* sc; Body* b; State* s; NewtonIntegrator* n;
	Vector3r x0, v0, w0, L0, f, m; Quaternionr q0;
	Matrix3r pL, L;
};
static void state(State* s, const char* nm)
{
	s->pos = vpVec("x"); s->vel = vpVec("v"); s->angVel = vpVec("w"); s->angMom = vpVec("L"); s->ori = vpQuat("q");
	s->mass = vp_pos("m"); s->inertia = Vector3r(vp_pos("I"), vp_pos("I"), vp_pos("I"));
	s->blockedDOFs = 0; s->isDamped = true;
}
static void setup(Nw& c, bool periodic)
{
	vp_nthreads(1);
	c.sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(c.sc);
	c.sc->dt = vp_pos("dt"); c.sc->iter = 0; c.sc->isPeriodic = periodic; c.sc->trackEnergy = false; c.sc->subdomain = 0;
	c.b = new Body; c.b->id = 0; c.s = c.b->state.get();
	c.sc->bodies->body.push_back(shared_ptr<Body>(c.b));
	state(c.s, "s");
	vpForces(c.sc, 1);
	c.n = new NewtonIntegrator; c.n->scene = c.sc; c.n->warnNoForceReset = false;
	c.n->damping = vp_range("damping", 0, 1); c.n->gravity = vpVec("g");
	c.pL = c.L = Matrix3r::Zero();
	if (periodic) {
		for (int i = 0; i < 9; i++) { c.pL(i / 3, i % 3) = vp_real("pL"); c.L(i / 3, i % 3) = vp_real("VL"); }
		c.n->prevVelGrad = c.pL; c.sc->cell->velGrad = c.L; c.sc->cell->_size = Vector3r(vp_pos("sz"), vp_pos("sz"), vp_pos("sz"));
		c.n->prevCellSize = c.sc->cell->_size;
	}
}
static void snap(Nw& c) { c.x0 = c.s->pos; c.v0 = c.s->vel; c.w0 = c.s->angVel; c.L0 = c.s->angMom; c.q0 = c.s->ori; c.f = c.sc->forces._force[0]; c.m = c.sc->forces._torque[0]; }
static unsigned blocked()
{
	unsigned d = 0;
	static const char* N[6] = { "bx", "by", "bz", "brx", "bry", "brz" };
	for (int i = 0; i < 6; i++) if (vp_bool(N[i])) d |= 1u << i;
	return d;
}
// spec: non-viscous damping scales the acceleration by (1-damping) when it accelerates the body (power of the acceleration with the
// mid-step velocity positive), (1+damping) when it decelerates it, 1 when the power is zero
static Real dampFactor(Real d, Real a, Real v, Real dt) { Real p = a * (v + 0.5 * dt * a); return p > 0 ? 1 - d : p < 0 ? 1 + d : 1; }
static Real dampFactor1(Real d, Real a, Real v) { Real p = a * v; return p > 0 ? 1 - d : p < 0 ? 1 + d : 1; }
static void rotSpec(const Quaternionr& q, const Quaternionr& q0, const Vector3r& w, Real dt)
{
	vp_eq(q.squaredNorm(), 1, "orientation stays a unit quaternion");
	Real a2 = w.squaredNorm();
	if (a2 == 0) { vpEqV(q.vec(), q0.vec(), "no rotation when angular velocity is zero"); vp_eq(q.w(), q0.w(), "no rotation when angular velocity is zero"); return; }
	Real a = sqrt(a2), h = a * dt / 2;
	Quaternionr r; r.w() = cos(h); r.vec() = sin(h) * (w / a);
	Quaternionr e = r * q0;
	vpEqV(q.vec(), e.vec(), "orientation advances by the rotation of angle |w|dt about w"); vp_eq(q.w(), e.w(), "orientation advances by the rotation of angle |w|dt about w");
}
// translation along an arbitrary axis (the other axes carry no force, so that the damping of one axis is seen at a time)
HARNESS(c04_translate)
{
	Nw c; setup(c, false);
	int k = vp_choice("axis", 3);
	c.s->isDamped = vp_bool("isDamped"); c.s->angVel = Vector3r::Zero();
	c.s->blockedDOFs = vp_bool("rot") ? 0 : State::DOF_RXRYRZ; c.sc->forces._torque[0] = Vector3r::Zero();
	for (int i = 0; i < 3; i++) if (i != k) c.n->gravity[i] = c.sc->forces._force[0][i] = 0;
	if (vp_bool("blocked")) c.s->blockedDOFs |= 1u << k;
	if (vp_bool("blockNext")) c.s->blockedDOFs |= 1u << ((k + 1) % 3);
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt, d = c.s->isDamped ? c.n->damping : 0;
	for (int i = 0; i < 3; i++) {
		Real dv = 0;
		if (i == k && !(c.s->blockedDOFs & (1u << i))) { Real a = c.f[i] / c.s->mass + c.n->gravity[i]; dv = dt * a * dampFactor(d, a, c.v0[i], dt); vp_cover("free axis"); }
		vp_eq(c.s->vel[i], c.v0[i] + dv, "velocity increment = dt*(f/m+g), damped; zero on blocked axes");
		vp_eq(c.s->pos[i], c.x0[i] + dt * c.s->vel[i], "position increment = dt*velocity");
	}
	vpEqV(c.s->angVel, c.w0, "no torque, no change of angular velocity");
}
// @opts weight=3
HARNESS(c04_translate_undamped)
{
	Nw c; setup(c, false);
	c.s->isDamped = false;
	c.s->blockedDOFs = State::DOF_RXRYRZ;
	for (int i = 0; i < 3; i++) if (vp_bool(i == 0 ? "bx" : i == 1 ? "by" : "bz")) c.s->blockedDOFs |= 1u << i;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	for (int i = 0; i < 3; i++) {
		vp_eq(c.s->vel[i], c.v0[i] + (c.s->blockedDOFs & (1u << i) ? 0 : dt * (c.f[i] / c.s->mass + c.n->gravity[i])), "velocity increment = dt*(f/m+g); zero on blocked axes");
		vp_eq(c.s->pos[i], c.x0[i] + dt * c.s->vel[i], "position increment = dt*velocity");
	}
	vpEqV(c.s->angVel, c.w0, "blocked rotations");
	rotSpec(c.s->ori, c.q0, c.s->angVel, dt);
	vp_cover("done");
}
HARNESS(c04_rotate)
{
	Nw c; setup(c, false);
	int k = vp_choice("axis", 3);
	c.s->isDamped = vp_bool("isDamped");
	c.s->blockedDOFs = vp_bool("blockTrans") ? State::DOF_XYZ : 0;
	for (int i = 0; i < 3; i++) if (i != k) c.sc->forces._torque[0][i] = 0;
	if (vp_bool("blocked")) c.s->blockedDOFs |= 8u << k;
	c.n->gravity = Vector3r::Zero(); c.sc->forces._force[0] = Vector3r::Zero();
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt, d = c.s->isDamped ? c.n->damping : 0;
	for (int i = 0; i < 3; i++) {
		Real dw = 0;
		if (i == k && !(c.s->blockedDOFs & (8u << i))) { Real a = c.m[i] / c.s->inertia[i]; dw = dt * a * dampFactor(d, a, c.w0[i], dt); vp_cover("free axis"); }
		vp_eq(c.s->angVel[i], c.w0[i] + dw, "angular velocity increment = dt*torque/inertia, damped; zero on blocked axes");
	}
	rotSpec(c.s->ori, c.q0, c.s->angVel, dt);
}
HARNESS(c04_rotate_undamped)
{
	Nw c; setup(c, false);
	c.s->isDamped = false;
	c.s->blockedDOFs = State::DOF_XYZ;
	for (int i = 0; i < 3; i++) if (vp_bool(i == 0 ? "bx" : i == 1 ? "by" : "bz")) c.s->blockedDOFs |= 8u << i;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	for (int i = 0; i < 3; i++) vp_eq(c.s->angVel[i], c.w0[i] + (c.s->blockedDOFs & (8u << i) ? 0 : dt * c.m[i] / c.s->inertia[i]), "angular velocity increment = dt*torque/inertia; zero on blocked axes");
	rotSpec(c.s->ori, c.q0, c.s->angVel, dt);
	vpEqV(c.s->vel, c.v0, "blocked translations");
	vp_cover("done");
}
// energy statement: the damping never feeds energy into the body
HARNESS(c04_damping_dissipates)
{
	Nw c; setup(c, false);
	c.n->gravity = Vector3r::Zero(); c.s->angVel = Vector3r::Zero(); c.s->blockedDOFs = State::DOF_RXRYRZ;
	int k = vp_choice("axis", 3);
	for (int i = 0; i < 3; i++) if (i != k) c.sc->forces._force[0][i] = 0;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	Real a = c.f[k] / c.s->mass, ad = (c.s->vel[k] - c.v0[k]) / dt;
	vp_le((ad - a) * (c.v0[k] + 0.5 * dt * a), 0, "damping takes power out of the motion");
	vp_le(0, ad * a, "damping does not reverse the acceleration");
	vp_le((ad - a) * (ad - a), c.n->damping * c.n->damping * a * a, "damping force bounded by damping*|force|");
	vp_cover("done");
}
// a body with all DOFs blocked keeps its prescribed velocity and moves with it
HARNESS(c04_fixed)
{
	Nw c; setup(c, false);
	c.s->blockedDOFs = State::DOF_ALL;
	snap(c);
	c.n->action();
	vpEqV(c.s->vel, c.v0, "prescribed velocity kept"); vpEqV(c.s->angVel, c.w0, "prescribed angular velocity kept");
	vpEqV(c.s->pos, c.x0 + c.sc->dt * c.v0, "moves with the prescribed velocity");
	rotSpec(c.s->ori, c.q0, c.w0, c.sc->dt);
	vp_cover("done");
}
// body of another subdomain, subdomain bodies, clump members, and bodies excluded by the mask are not moved
HARNESS(c04_not_moved)
{
	Nw c; setup(c, false);
	int k = vp_choice("why", 4);
	c.s->isDamped = false;
	if (k == 0) c.b->subdomain = vp_int("sub", 1, 9);
	if (k == 1) c.b->setIsSubdomain(true);
	if (k == 2) { c.b->clumpId = vp_int("clump", 1, 9); }
	if (k == 3) { c.b->groupMask = 5; c.n->mask = vp_bool("m") ? 2 : 8; }
	snap(c);
	c.n->action();
	vpEqV(c.s->pos, c.x0, "position unchanged"); vpEqV(c.s->ori.vec(), c.q0.vec(), "orientation unchanged"); vp_eq(c.s->ori.w(), c.q0.w(), "orientation unchanged");
	if (k != 3) { vpEqV(c.s->vel, c.v0, "velocity unchanged"); vpEqV(c.s->angVel, c.w0, "angular velocity unchanged"); }
	vp_cover("done");
}
HARNESS(c04_mask_moved)
{
	Nw c; setup(c, false);
	c.b->groupMask = 5; c.n->mask = vp_choice("m", 3) == 0 ? -1 : vp_bool("m4") ? 4 : 0;
	c.s->isDamped = false;
	snap(c);
	c.n->action();
	vpEqV(c.s->pos, c.x0 + c.sc->dt * c.s->vel, "compatible bodies move"); 
	rotSpec(c.s->ori, c.q0, c.s->angVel, c.sc->dt);
	vp_cover("done");
}
// imposed displacement / rotation (ForceContainer::addMove, addRot)
HARNESS(c04_move_rot)
{
	Nw c; setup(c, false);
	c.s->blockedDOFs = State::DOF_ALL; c.s->angVel = Vector3r::Zero();
	Vector3r mv = vpVec("mv"), r = vpVec("rot");
	c.sc->forces._move[0] = mv; c.sc->forces._rot[0] = r; c.sc->forces.moveRotUsed = true;
	snap(c);
	c.n->action();
	vpEqV(c.s->pos, c.x0 + mv + c.sc->dt * c.v0, "imposed displacement applied once");
	rotSpec(c.s->ori, c.q0, r, 1);
	vp_cover("done");
}
// periodic cell: mean-field velocity follows the velocity gradient, damping acts on the fluctuation velocity only
HARNESS(c04_periodic)
{
	Nw c; setup(c, true);
	int hd = c.sc->cell->homoDeform = vp_choice("homo", 3);
	c.s->isDamped = false;
	c.s->blockedDOFs = State::DOF_RXRYRZ;
	bool fix = vp_bool("fixed"); if (fix) c.s->blockedDOFs = State::DOF_ALL;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	Vector3r v = c.v0;
	if (!fix) v += dt * (c.f / c.s->mass + c.n->gravity);
	if (hd > 1) v += dt * (c.pL * c.v0);
	if (hd) v += (c.L - c.pL) * c.x0;
	vpEqV(c.s->vel, v, "velocity follows the change of the macroscopic velocity field");
	vpEqV(c.s->pos, c.x0 + dt * v, "position increment = dt*velocity");
	Vector3r dw = c.s->angVel - c.w0, p = vpVec("p");
	Matrix3r R = 0.5 * ((c.L - c.pL) - (c.L - c.pL).transpose());
	if (hd) vpEqV(dw.cross(p), R * p, "spin change = antisymmetric part of the velocity gradient change"); else vpEqV(dw, Vector3r::Zero(), "no spin without homothetic deformation");
	for (int i = 0; i < 9; i++) { vp_eq(c.n->prevVelGrad(i / 3, i % 3), c.L(i / 3, i % 3), "velocity gradient remembered"); vp_eq(c.sc->cell->prevVelGrad(i / 3, i % 3), c.L(i / 3, i % 3), "velocity gradient remembered"); }
	vp_cover("done");
}
// @opts weight=3
HARNESS(c04_periodic_damping)
{
	Nw c; setup(c, true);
	c.sc->cell->homoDeform = vp_choice("homo", 3);
	c.n->gravity = Vector3r::Zero();
	c.s->blockedDOFs = State::DOF_RXRYRZ | State::DOF_Y | State::DOF_Z;
	// a body following the mean field exactly and free of force is not damped
	Vector3r fl = Vector3r(vp_real("fl"), 0, 0);
	c.s->vel = c.pL * c.s->pos + fl;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	Real a = c.f[0] / c.s->mass;
	Vector3r v = c.v0;
	v[0] += dt * a * dampFactor(c.n->damping, a, fl[0], dt);
	if (c.sc->cell->homoDeform > 1) v += dt * (c.pL * c.v0);
	if (c.sc->cell->homoDeform) v += (c.L - c.pL) * c.x0;
	vpEqV(c.s->vel, v, "damping acts on the fluctuation velocity");
	vp_cover("done");
}
HARNESS(c04_velgrad_request)
{
	Nw c; setup(c, true);
	Matrix3r nl; for (int i = 0; i < 9; i++) nl(i / 3, i % 3) = vp_real("nl");
	c.s->blockedDOFs = State::DOF_ALL; c.s->vel = c.s->angVel = Vector3r::Zero();
	c.sc->cell->setVelGrad(nl);
	c.n->action();
	for (int i = 0; i < 9; i++) vp_eq(c.sc->cell->velGrad(i / 3, i % 3), nl(i / 3, i % 3), "requested velocity gradient becomes effective");
	vp_check(!c.sc->cell->velGradChanged, "request consumed");
	c.n->action();
	for (int i = 0; i < 9; i++) vp_eq(c.sc->cell->velGrad(i / 3, i % 3), nl(i / 3, i % 3), "velocity gradient kept afterwards");
	vp_cover("done");
}
// aspherical rotation, [Allen1989]: dq/dt = q*(0,w_body)/2 evaluated at mid-step
HARNESS(c04_dotq)
{
	Nw c; setup(c, false);
	NewtonIntegrator* n = c.n;
	Quaternionr q(vp_real("q"), vp_real("q"), vp_real("q"), vp_real("q")), o;
	Vector3r w = vpVec("w");
	o.w() = 0; o.vec() = w;
	Quaternionr d = n->DotQ(w, q), e = q * o;
	vpEqV(d.vec(), 0.5 * e.vec(), "dq/dt = q*(0,w_body)/2"); vp_eq(d.w(), 0.5 * e.w(), "dq/dt = q*(0,w_body)/2");
	vp_cover("done");
}
// @opts weight=3 ptime=60
HARNESS(c04_aspherical)
{
	Nw c; setup(c, false);
	c.b->setAspherical(true); c.s->isDamped = false; c.n->exactAsphericalRot = true;
	c.s->blockedDOFs = State::DOF_XYZ;
	snap(c);
	c.n->action();
	const Real dt = c.sc->dt;
	vpEqV(c.s->angMom, c.L0 + dt * c.m, "angular momentum increment = dt*torque");
	Matrix3r A = c.q0.conjugate().toRotationMatrix();
	Vector3r ln = A * (c.L0 + dt / 2 * c.m), lh = A * (c.L0 + dt * c.m);
	Vector3r wn = ln.cwiseQuotient(c.s->inertia), wh = lh.cwiseQuotient(c.s->inertia);
	Quaternionr qh, q1;
	qh.coeffs() = c.q0.coeffs() + dt / 2 * c.n->DotQ(wn, c.q0).coeffs();
	q1.coeffs() = c.q0.coeffs() + dt * c.n->DotQ(wh, qh).coeffs();
	vpEqV(c.s->angVel, q1 * wh, "angular velocity = inertia^-1 * angular momentum (body frame)");
	q1.normalize();
	vpEqV(c.s->ori.vec(), q1.vec(), "orientation follows the mid-step rate"); vp_eq(c.s->ori.w(), q1.w(), "orientation follows the mid-step rate");
	vp_cover("done");
}
HARNESS(c04_aspherical_damped)
{
	Nw c; setup(c, false);
	c.b->setAspherical(true); c.n->exactAsphericalRot = true;
	c.s->ori = Quaternionr::Identity();
	c.s->blockedDOFs = State::DOF_XYZ; c.s->isDamped = vp_bool("isDamped");
	snap(c);
	c.n->action();
	for (int i = 0; i < 3; i++) vp_eq(c.s->angMom[i], c.L0[i] + c.sc->dt * c.m[i] * (c.s->isDamped ? dampFactor1(c.n->damping, c.m[i], c.w0[i]) : 1), "damped angular momentum increment");
	vp_cover("done");
}
// aspherical body with a blocked rotation, or exactAsphericalRot disabled: spherical scheme, blocked axes stay blocked
HARNESS(c04_aspherical_blocked)
{
	Nw c; setup(c, false);
	c.b->setAspherical(true); c.n->exactAsphericalRot = vp_bool("exact"); c.s->isDamped = false;
	c.s->blockedDOFs = State::DOF_XYZ | State::DOF_RX;
	snap(c);
	c.n->action();
	vp_eq(c.s->angVel[0], c.w0[0], "blocked rotation keeps its angular velocity");
	rotSpec(c.s->ori, c.q0, c.s->angVel, c.sc->dt);
	vp_cover("done");
}
// density scaling multiplies the accelerations
HARNESS(c04_density_scaling)
{
	Nw c; setup(c, false);
	c.n->densityScaling = true; c.s->densityScaling = vp_pos("ds"); c.s->isDamped = false;
	snap(c);
	c.n->action();
	vpEqV(c.s->vel, c.v0 + c.sc->dt * c.s->densityScaling * (c.f / c.s->mass + c.n->gravity), "scaled acceleration");
	vpEqV(c.s->angVel, c.w0 + c.sc->dt * c.s->densityScaling * c.m.cwiseQuotient(c.s->inertia), "scaled angular acceleration");
	vp_cover("done");
}
// frame: integrating a body neither reads nor writes another one
HARNESS(c04_two_bodies)
{
	Nw c; setup(c, false);
	Body* b2 = new Body; b2->id = 1; state(b2->state.get(), "s2");
	c.sc->bodies->body.push_back(shared_ptr<Body>());
	c.sc->bodies->body.push_back(shared_ptr<Body>(b2)); b2->id = 2;
	vpForces(c.sc, 3);
	c.s->isDamped = false;
	c.s->blockedDOFs = State::DOF_ALL; b2->state->isDamped = false;
	snap(c);
	Vector3r x2 = b2->state->pos, v2 = b2->state->vel;
	c.n->action();
	vpEqV(c.s->vel, c.v0, "first body"); vpEqV(c.s->pos, c.x0 + c.sc->dt * c.v0, "first body");
	Vector3r v = v2 + c.sc->dt * (c.sc->forces._force[2] / b2->state->mass + c.n->gravity);
	vpEqV(b2->state->vel, v, "second body after an erased slot"); vpEqV(b2->state->pos, x2 + c.sc->dt * v, "second body after an erased slot");
	vp_cover("done");
}
// bound displacement trigger read by the collider: a body that left its swept bound forces a new collision detection
HARNESS(c04_collider_trigger)
{
	Nw c; setup(c, false);
	c.b->bound.reset(new Bound); c.b->bound->refPos = vpVec("ref"); c.b->bound->sweepLength = vp_nonneg("sweep");
	c.s->blockedDOFs = State::DOF_ALL;
	c.n->action();
	Vector3r d = c.s->pos - c.b->bound->refPos;
	Real md = std::max(std::abs(d[0]), std::max(std::abs(d[1]), std::abs(d[2])));
	if (md >= c.b->bound->sweepLength && md > 0) vp_check(c.n->maxVelocitySq > 1, "left the bound: detection is triggered");
	else vp_check(c.n->maxVelocitySq > 0 && c.n->maxVelocitySq < 1, "inside the bound: no detection needed, but displacement was recorded");
	vp_cover("done");
}
// @opts ptime=60
HARNESS(c04_energy)
{
	Nw c; setup(c, false);
	c.n->kinSplit = true; c.n->gravity = Vector3r::Zero();
	c.sc->trackEnergy = true; c.b->setAspherical(vp_bool("aspherical"));
	if (!c.b->isAspherical()) c.s->inertia = Vector3r::Constant(vp_pos("Is"));
	c.n->exactAsphericalRot = false; c.s->blockedDOFs = State::DOF_ALL; c.s->isDamped = false;
	snap(c);
	c.n->action();
	vp_eq(c.sc->energy->energies.get(c.n->kinEnergyTransIx), 0.5 * c.s->mass * c.v0.squaredNorm(), "translational kinetic energy = m v^2/2");
	Vector3r wl = c.q0.toRotationMatrix().transpose() * c.w0;
	vp_eq(c.sc->energy->energies.get(c.n->kinEnergyRotIx), 0.5 * wl.dot(c.s->inertia.cwiseProduct(wl)), "rotational kinetic energy = w.I.w/2 in the body frame");
	vp_cover("done");
}
