// C01 action-reaction: cohesive, damage and local-frame laws.
#include <laws.hpp>
#include <pkg/dem/CohesiveFrictionalContactLaw.cpp>
#include <pkg/dem/InelastCohFrictPM.cpp>
#include <pkg/dem/WirePM.cpp>
#include <pkg/dem/L3Geom.cpp>
template <class Law, class Phys, class Geom> static void run(Law* law, Phys* p, Geom* g, State* s1, State* s2, bool periodic, bool spheres)
{
	LawCtx c;
	vpLawScene(c, s1, s2, periodic);
	if (spheres) vpSphereGeom(c, g); else vpAnyGeom(c, g);
	law->scene = c.sc;
	c.I->geom.reset(g); c.I->phys.reset(p);
	if (!law->go(c.I->geom, c.I->phys, c.I)) { vpNoForce(); return; }
	vp_cover("contact kept");
	vpBalance(c);
}
static void coh(bool periodic, bool spheres)
{
	auto* p = new CohFrictPhys;
	p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	p->shearForce = vpVec("fs"); p->normalAdhesion = vp_nonneg("na"); p->shearAdhesion = vp_nonneg("sa"); p->unp = vp_real("unp"); p->unpMax = vp_real("unpMax");
	p->fragile = vp_bool("fragile"); p->cohesionBroken = vp_bool("broken"); p->momentRotationLaw = vp_bool("mrl");
	p->kr = vp_nonneg("kr"); p->ktw = vp_nonneg("ktw"); p->maxRollPl = vp_real("mrp"); p->maxTwistPl = vp_real("mtp");
	p->moment_bending = vpVec("mb"); p->moment_twist = vpVec("mt"); p->cohesionDisablesFriction = vp_bool("cdf");
	auto* g = new ScGeom6D; g->twist = vp_real("twist"); g->bending = vpVec("bend");
	auto* l = new Law2_ScGeom6D_CohFrictPhys_CohesionMoment;
	l->always_use_moment_law = vp_bool("auml"); l->useIncrementalForm = vp_bool("incr"); l->shear_creep = vp_bool("screep"); l->creep_viscosity = vp_pos("cvisc");
	run(l, p, g, new State, new State, periodic, spheres);
}
// @opts maxpaths=20000 weight=9 time=300
HARNESS(c01_cohfrict) { coh(vp_bool("periodic"), false); }
static InelastCohFrictPhys* inelast()
{
	auto* p = new InelastCohFrictPhys;
	p->shearForce = vpVec("fs"); p->unp = vp_real("unp"); p->maxExten = vp_nonneg("maxExten"); p->maxContract = vp_nonneg("maxContract");
	p->knT = vp_pos("knT"); p->knC = vp_pos("knC"); p->maxElT = vp_nonneg("maxElT"); p->maxElC = vp_nonneg("maxElC");
	p->kTCrp = vp_nonneg("kTCrp"); p->kTUnld = vp_nonneg("kTUnld");
	p->isBroken = vp_bool("broken"); p->onPlastT = vp_bool("opt"); p->onPlastC = vp_bool("opc");
	p->maxCrpRchdT = Vector2r(vp_real("mct"), vp_real("mct")); p->maxCrpRchdC = Vector2r(vp_real("mcc"), vp_real("mcc"));
	p->ks = vp_pos("ks"); p->tangensOfFrictionAngle = vp_nonneg("tanphi"); p->shearAdhesion = vp_nonneg("sa"); p->cohesionBroken = vp_bool("cohBroken");
	p->moment_bending = vpVec("mb"); p->moment_twist = vpVec("mt");
	return p;
}
// @opts maxpaths=20000 weight=9 time=300
HARNESS(c01_inelast)
{
	auto* p = inelast();
	if (!p->cohesionBroken) {
		p->ktw = vp_pos("ktw"); p->kr = vp_pos("kr"); p->maxElTw = vp_nonneg("maxElTw"); p->maxTwist = vp_nonneg("maxTwist"); p->onPlastTw = vp_bool("ptw");
		p->maxElB = vp_nonneg("maxElB"); p->onPlastB = false;
	}
	auto* g = new ScGeom6D; g->twist = vp_real("twist"); g->bending = vpVec("bend");
	run(new Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment, p, g, new State, new State, vp_bool("periodic"), false);
}
static WirePhys* wire()
{
	auto* p = new WirePhys;
	p->isLinked = vp_bool("linked"); p->initD = vp_real("initD"); p->kn = vp_pos("kn"); p->plastD = vp_real("plastD");
	for (int i = 0; i < 2; i++) { p->displForceValues.push_back(Vector2r(vp_real("df"), vp_real("df"))); p->stiffnessValues.push_back(vp_pos("k")); }
	return p;
}
HARNESS(c01_wire) { run(new Law2_ScGeom_WirePhys_WirePM, wire(), new ScGeom, new WireState, new WireState, vp_bool("periodic"), true); }
HARNESS(c01_wire_shapes) { run(new Law2_ScGeom_WirePhys_WirePM, wire(), new ScGeom, new WireState, new WireState, false, false); }
static void l3(bool six)
{
	LawCtx c;
	vpLawScene(c, new State, new State, vp_bool("periodic"));
	L6Geom* g = new L6Geom;
	g->normal = vpUnit("n"); g->refR1 = vp_pos("r1"); g->refR2 = vp_pos("r2");
	double u0 = vp_real("un");
	g->u = Vector3r(u0, vp_real("u"), vp_real("u")); g->u0 = vpVec("u0");
	for (int i = 0; i < 9; i++) g->trsf(i / 3, i % 3) = vp_real("T");
	g->phi = vpVec("phi"); g->phi0 = vpVec("phi0");
	c.s2->pos = c.s1->pos + (g->refR1 + g->refR2 + u0) * g->normal - c.shift2;
	auto* p = new FrictPhys; p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	c.I->geom.reset(g); c.I->phys.reset(p);
	bool r;
	if (six) {
		auto* l = new Law2_L6Geom_FrictPhys_Linear; l->charLen = vp_pos("cl"); l->scene = c.sc; r = l->go(c.I->geom, c.I->phys, c.I);
	} else {
		auto* l = new Law2_L3Geom_FrictPhys_ElPerfPl; l->noBreak = vp_bool("noBreak"); l->noSlip = vp_bool("noSlip"); l->scene = c.sc; r = l->go(c.I->geom, c.I->phys, c.I);
	}
	if (!r) { vpNoForce(); return; }
	vp_cover("contact kept");
	vpBalance(c);
}
HARNESS(c01_l3geom) { l3(false); }
HARNESS(c01_l6geom) { l3(true); }
