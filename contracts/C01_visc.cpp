// C01 action-reaction: viscoelastic, capillary, hysteretic, bubble, concrete and jointed-rock laws.
#include <laws.hpp>
#include <pkg/dem/ViscoelasticPM.cpp>
#include <pkg/dem/LudingPM.cpp>
#include <pkg/dem/BubbleMat.cpp>
#include <pkg/dem/ConcretePM.cpp>
#include <pkg/dem/JointedCohesiveFrictionalPM.cpp>
template <class Law, class Phys> static void run(Law* law, Phys* p, State* s1, State* s2, bool periodic, bool spheres, bool active = true)
{
	LawCtx c;
	vpLawScene(c, s1, s2, periodic);
	ScGeom* g = new ScGeom;
	if (spheres) vpSphereGeom(c, g); else vpAnyGeom(c, g);
	law->scene = c.sc;
	c.I->isActive = active;
	c.I->geom.reset(g); c.I->phys.reset(p);
	if (!law->go(c.I->geom, c.I->phys, c.I)) { vpNoForce(); return; }
	vp_cover("contact kept");
	vpBalance(c);
}
static void setVisc(ViscElPhys* p)
{
	p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->cn = vp_nonneg("cn"); p->cs = vp_nonneg("cs"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	p->shearForce = vpVec("fs"); p->mR = vp_nonneg("mR"); p->mRtype = vp_choice("mRtype", 3);
}
// @opts weight=4
HARNESS(c01_viscel)
{
	auto* p = new ViscElPhys; setVisc(p);
	run(new Law2_ScGeom_ViscElPhys_Basic, p, new State, new State, vp_bool("periodic"), false, vp_bool("active"));
}
// @opts weight=4 maxpaths=20000
HARNESS(c01_luding)
{
	auto* p = new LudingPhys;
	p->kp = vp_pos("kp"); p->k1 = vp_pos("k1"); p->kc = vp_pos("kc"); p->ks = vp_pos("ks"); p->G0 = vp_nonneg("G0"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	p->DeltMax = vp_nonneg("dmax"); p->DeltPMax = vp_pos("dpmax"); p->DeltNull = vp_nonneg("dnull"); p->DeltPNull = vp_nonneg("dpnull"); p->DeltPrev = vp_real("dprev");
	p->shearForce = vpVec("fs");
	run(new Law2_ScGeom_LudingPhys_Basic, p, new State, new State, vp_bool("periodic"), false, vp_bool("active"));
}
HARNESS(c01_jcfpm)
{
	auto* p = new JCFpmPhys;
	p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->tanFrictionAngle = vp_nonneg("tanphi"); p->FnMax = vp_nonneg("FnMax"); p->FsMax = vp_nonneg("FsMax");
	p->isCohesive = vp_bool("coh"); p->initD = vp_real("initD"); p->shearForce = vpVec("fs"); p->normalForce = vpVec("fn"); p->crossSection = vp_pos("A");
	auto* l = new Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM; l->neverErase = vp_bool("neverErase"); l->smoothJoint = false;
	auto *s1 = new JCFpmState, *s2 = new JCFpmState; s1->nbInitBonds = 5; s2->nbInitBonds = 7;
	run(l, p, s1, s2, vp_bool("periodic"), true);
}
static CpmPhys* cpm()
{
	auto* p = new CpmPhys;
	p->E = vp_pos("E"); p->G = vp_pos("G"); p->tanFrictionAngle = vp_nonneg("tanphi"); p->undamagedCohesion = vp_nonneg("coh"); p->crossSection = vp_pos("A");
	p->refLength = vp_pos("L"); p->refPD = vp_real("refPD"); p->epsCrackOnset = vp_pos("eco"); p->relDuctility = vp_pos("rd"); p->epsFracture = vp_pos("ef");
	p->equivStrainShearContrib = vp_nonneg("essc"); p->isoPrestress = vp_real("iso"); p->isCohesive = vp_bool("coh"); p->neverDamage = vp_bool("nd"); p->damLaw = vp_choice("dl", 2);
	p->epsT = vpVec("epsT"); p->epsTPl = vpVec("epsTPl"); p->kappaD = vp_nonneg("kappaD"); p->epsNPl = vp_real("epsNPl");
	return p;
}
// @opts maxpaths=20000 weight=4
HARNESS(c01_cpm)
{
	auto* l = new Law2_ScGeom_CpmPhys_Cpm; l->omegaThreshold = vp_real("ot"); l->epsSoft = vp_real("es"); l->relKnSoft = vp_nonneg("rks");
	LawCtx c;
	vpLawScene(c, new CpmState, new CpmState, vp_bool("periodic"));
	c.I->iterMadeReal = 99;
	ScGeom* g = new ScGeom;
	vpSphereGeom(c, g);
	CpmPhys* p = cpm();
	l->scene = c.sc; c.I->geom.reset(g); c.I->phys.reset(p);
	if (!l->go(c.I->geom, c.I->phys, c.I)) { vpNoForce(); return; }
	vp_cover("contact kept");
	vpBalance(c);
}
