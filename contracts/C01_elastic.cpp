// C01 action-reaction: linear elastic-frictional laws.
#include <laws.hpp>
#include <pkg/dem/ElasticContactLaw.cpp>
#include <pkg/dem/FrictViscoPM.cpp>
#include <pkg/dem/MortarMat.cpp>
#include <pkg/dem/HertzMindlin.cpp>

static void setFrict(FrictPhys* p)
{
	p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	p->shearForce = vpVec("fs"); p->normalForce = vpVec("fn0");
}
template <class Law, class Phys> static void runElastic(Law* law, Phys* p, bool periodic, bool spheres)
{
	LawCtx c;
	vpLawScene(c, new State, new State, periodic);
	ScGeom* g = new ScGeom;
	if (spheres) vpSphereGeom(c, g); else vpAnyGeom(c, g);
	law->scene = c.sc;
	c.I->geom.reset(g); c.I->phys.reset(p);
	bool r = law->go(c.I->geom, c.I->phys, c.I);
	if (!r) { vpNoForce(); return; }
	vp_cover("contact kept");
	vpBalance(c);
}
HARNESS(c01_cundall_spheres)
{
	FrictPhys* p = new FrictPhys; setFrict(p);
	auto* l = new Law2_ScGeom_FrictPhys_CundallStrack;
	l->sphericalBodies = vp_bool("spherical"); l->neverErase = vp_bool("neverErase"); l->traceEnergy = vp_bool("trace");
	runElastic(l, p, vp_bool("periodic"), true);
}
HARNESS(c01_cundall_shapes)
{
	FrictPhys* p = new FrictPhys; setFrict(p);
	auto* l = new Law2_ScGeom_FrictPhys_CundallStrack;
	l->sphericalBodies = false; l->neverErase = vp_bool("neverErase");
	runElastic(l, p, false, false);
}
HARNESS(c01_viscofrict)
{
	ViscoFrictPhys* p = new ViscoFrictPhys; setFrict(p); p->creepedShear = vpVec("creep");
	auto* l = new Law2_ScGeom_ViscoFrictPhys_CundallStrack;
	l->shearCreep = vp_bool("shearCreep"); l->viscosity = vp_pos("visc"); l->creepStiffness = vp_pos("creepStiff");
	runElastic(l, p, vp_bool("periodic"), true);
}
HARNESS(c01_frictvisco)
{
	FrictViscoPhys* p = new FrictViscoPhys; setFrict(p); p->cn = vp_nonneg("cn");
	auto* l = new Law2_ScGeom_FrictViscoPhys_CundallStrackVisco;
	l->sphericalBodies = vp_bool("spherical"); l->neverErase = vp_bool("neverErase");
	runElastic(l, p, vp_bool("periodic"), true);
}
HARNESS(c01_frictvisco_shapes)
{
	FrictViscoPhys* p = new FrictViscoPhys; setFrict(p); p->cn = vp_nonneg("cn");
	auto* l = new Law2_ScGeom_FrictViscoPhys_CundallStrackVisco;
	l->sphericalBodies = false;
	runElastic(l, p, false, false);
}
static void mortar(bool periodic, bool spheres)
{
	MortarPhys* p = new MortarPhys;
	p->kn = vp_pos("kn"); p->ks = vp_pos("ks"); p->tangensOfFrictionAngle = vp_nonneg("tanphi");
	p->shearForce = vpVec("fs"); p->crossSection = vp_pos("A"); p->tensileStrength = vp_nonneg("ft"); p->compressiveStrength = vp_nonneg("fc");
	p->cohesion = vp_nonneg("coh"); p->ellAspect = vp_pos("ell"); p->neverDamage = vp_bool("neverDamage");
	runElastic(new Law2_ScGeom_MortarPhys_Lourenco, p, periodic, spheres);
}
HARNESS(c01_mortar) { mortar(vp_bool("periodic"), true); }
HARNESS(c01_mortar_shapes) { mortar(false, false); }
static MindlinPhys* mindlin()
{
	MindlinPhys* p = new MindlinPhys;
	p->kno = vp_pos("kno"); p->kso = vp_pos("kso"); p->tangensOfFrictionAngle = vp_nonneg("tanphi"); p->adhesionForce = vp_nonneg("adh");
	p->shearForce = vpVec("fs"); p->shearElastic = vpVec("fse"); p->usElastic = vpVec("use"); p->usTotal = vpVec("ust");
	p->momentBend = vpVec("mb"); p->momentTwist = vpVec("mt"); p->kr = vp_nonneg("kr"); p->ktw = vp_nonneg("ktw"); p->maxBendPl = vp_real("mbp");
	return p;
}
HARNESS(c01_mindlin_deresiewitz)
{
	auto* l = new Law2_ScGeom_MindlinPhys_MindlinDeresiewitz; l->neverErase = vp_bool("neverErase");
	runElastic(l, mindlin(), vp_bool("periodic"), true);
}
HARNESS(c01_hertz_linear_shear)
{
	auto* l = new Law2_ScGeom_MindlinPhys_HertzWithLinearShear; l->neverErase = vp_bool("neverErase"); l->nonLin = vp_choice("nonLin", 4);
	runElastic(l, mindlin(), vp_bool("periodic"), true);
}
static void mindlinFull(bool adhesion, bool periodic)
{
	auto* l = new Law2_ScGeom_MindlinPhys_Mindlin;
	l->includeAdhesion = adhesion; l->includeMoment = vp_bool("moment"); l->neverErase = adhesion ? false : vp_bool("neverErase"); l->preventGranularRatcheting = adhesion ? true : vp_bool("ratch");
	MindlinPhys* p = mindlin();
	if (vp_bool("damping")) { if (vp_bool("lin")) { p->betan = vp_nonneg("bn"); p->betas = vp_nonneg("bs"); } else p->alpha = vp_nonneg("alpha"); }
	runElastic(l, p, periodic, true);
}
// @opts maxpaths=4000 weight=5
HARNESS(c01_mindlin_plain) { mindlinFull(false, false); }
// @opts maxpaths=4000 weight=5
HARNESS(c01_mindlin_peri) { mindlinFull(false, true); }
// @opts maxpaths=4000 weight=5
HARNESS(c01_mindlin_adh) { mindlinFull(true, false); }
// @opts maxpaths=4000 weight=5
HARNESS(c01_mindlin_adh_peri) { mindlinFull(true, true); }
// @opts maxpaths=4000
HARNESS(c01_mindlin_shapes)
{
	auto* l = new Law2_ScGeom_MindlinPhys_Mindlin;
	l->includeMoment = vp_bool("moment"); l->preventGranularRatcheting = false;
	runElastic(l, mindlin(), false, false);
}
