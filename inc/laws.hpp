// Shared context of the contact-law contracts.
// requires (geometry contract, established by the Ig2_* functors, property C03):
//   x2 + shift2 - x1 = (r1+r2-un) n,  |n|=1,  contactPoint = x1 + (r1-un/2) n      (two spheres)
//   or contactPoint arbitrary                                                       (any shapes; torque from contactPoint)
// ForceContainer::addForce/addTorque are replaced by recorders (their own contract is property C05).
#pragma once
#include <prelude.hpp>
#include <omega.hpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <pkg/dem/ScGeom.cpp>
#include <pkg/common/Dispatching.hpp>
LawFunctor::~LawFunctor() {}
IPhysFunctor::~IPhysFunctor() {}
IGeomFunctor::~IGeomFunctor() {}

struct Rec {
	int n;
	int id[16];
	Vector3r v[16];
};
static Rec recF, recT;
static void vpRec(Rec& r, int id, const Vector3r& v) { if (r.n < 16) { r.id[r.n] = id; r.v[r.n] = v; r.n++; } }
ForceContainer::ForceContainer() {}
void ForceContainer::addForce(Body::id_t id, const Vector3r& f) { vpRec(recF, id, f); }
void ForceContainer::addTorque(Body::id_t id, const Vector3r& f) { vpRec(recT, id, f); }
static Vector3r vpSum(const Rec& r, int id) { Vector3r s = Vector3r::Zero(); for (int i = 0; i < r.n; i++) if (r.id[i] == id) s += r.v[i]; return s; }

struct LawCtx {
	Scene* sc;
	Body *b1, *b2;
	State *s1, *s2;
	Interaction* I;
	Vector3r shift2;
	bool periodic;
};
static const int ID1 = 1, ID2 = 0;   // ids deliberately not in increasing order

// states: two State (or derived) objects already allocated
static void vpLawScene(LawCtx& c, State* s1, State* s2, bool periodic, int i1 = ID1, int i2 = ID2)
{
	recF.n = recT.n = 0;
	c.sc = new Scene;
	vpOmegaScene = new shared_ptr<Scene>(c.sc);
	c.sc->dt = vp_pos("dt");
	c.sc->iter = 100;
	c.periodic = periodic;
	c.sc->isPeriodic = periodic;
	c.b1 = new Body; c.b2 = new Body;
	c.b1->id = i1; c.b2->id = i2;
	c.s1 = s1; c.s2 = s2;
	c.b1->state.reset(s1); c.b2->state.reset(s2);
	c.sc->bodies->body.resize(2);
	c.sc->bodies->body[i1].reset(c.b1);
	c.sc->bodies->body[i2].reset(c.b2);
	s1->pos = vpVec("x1"); s1->vel = vpVec("v1"); s1->angVel = vpVec("w1"); s1->mass = vp_pos("m1");
	s2->pos = vpVec("x2"); s2->vel = vpVec("v2"); s2->angVel = vpVec("w2"); s2->mass = vp_pos("m2");
	c.I = new Interaction(i1, i2);
	c.I->iterMadeReal = vp_bool("fresh") ? 100 : 99;
	c.shift2 = Vector3r::Zero();
	if (periodic) {
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
			c.sc->cell->hSize(i, j) = vp_real("h");
			c.sc->cell->velGrad(i, j) = vp_real("vg");
		}
		c.sc->cell->_vGradTimesPrevH = c.sc->cell->velGrad * c.sc->cell->hSize;
		c.I->cellDist = Vector3i(vp_int("cd", -3, 3), vp_int("cd", -3, 3), vp_int("cd", -3, 3));
		c.shift2 = c.sc->cell->hSize * Vector3r(c.I->cellDist[0], c.I->cellDist[1], c.I->cellDist[2]);
	}
}
// geometry of two spheres in contact
static void vpSphereGeom(LawCtx& c, ScGeom* g)
{
	g->normal = vpUnit("n");
	g->radius1 = vp_pos("r1");
	g->radius2 = vp_pos("r2");
	g->penetrationDepth = vp_real("un");
	vp_assume(g->penetrationDepth < g->radius1 + g->radius2);
	c.s2->pos = c.s1->pos + (g->radius1 + g->radius2 - g->penetrationDepth) * g->normal - c.shift2;
	g->contactPoint = c.s1->pos + (g->radius1 - 0.5 * g->penetrationDepth) * g->normal;
	g->shearInc = vpVec("ds");
	g->twist_axis = vpVec("tw");
	g->orthonormal_axis = vpVec("on");
}
// geometry of arbitrary shapes: only the contact point is meaningful
static void vpAnyGeom(LawCtx& c, ScGeom* g)
{
	g->normal = vpUnit("n");
	g->radius1 = vp_pos("r1");
	g->radius2 = vp_pos("r2");
	g->penetrationDepth = vp_real("un");
	g->contactPoint = vpVec("cp");
	g->shearInc = vpVec("ds");
	g->twist_axis = vpVec("tw");
	g->orthonormal_axis = vpVec("on");
}
// ensures: the pair of actions is self-equilibrated (force and moment about any point), and touches the two bodies only
static void vpBalance(const LawCtx& c)
{
	for (int i = 0; i < recF.n; i++) vp_check(recF.id[i] == c.I->id1 || recF.id[i] == c.I->id2, "forces go to the two bodies of the interaction only");
	for (int i = 0; i < recT.n; i++) vp_check(recT.id[i] == c.I->id1 || recT.id[i] == c.I->id2, "torques go to the two bodies of the interaction only");
	Vector3r F1 = vpSum(recF, c.I->id1), F2 = vpSum(recF, c.I->id2), T1 = vpSum(recT, c.I->id1), T2 = vpSum(recT, c.I->id2);
	vpEqV(F1 + F2, Vector3r::Zero(), "forces are opposite");
	vpEqV(T1 + T2 + (c.s2->pos + c.shift2 - c.s1->pos).cross(F2), Vector3r::Zero(), "moments balance");
}
// ensures: the force on body 1 is exactly -(normalForce+shearForce) as stored in phys
template <class P> static void vpReported(const LawCtx& c, const P* p)
{
	vpEqV(vpSum(recF, c.I->id1), -p->normalForce - p->shearForce, "force applied to body 1 is -(normalForce+shearForce)");
}
static void vpNoForce() { vp_check(recF.n == 0 && recT.n == 0, "a contact declared broken applies no force"); }
