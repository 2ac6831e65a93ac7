// C10 collision filter: Collider::mayCollide on arbitrary bodies.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <core/Clump.cpp>
#include <pkg/common/Collider.cpp>

struct P { Body *a, *b; unsigned ma, mb, av; int sub; };
static void mk(P& p)
{
	vp_nthreads(1);
	Scene* sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc);
	p.a = new Body; p.b = new Body;
	p.a->id = vp_int("ida", 0, 1000000); p.b->id = vp_int("idb", 0, 1000000); vp_assume(p.a->id != p.b->id);
	p.a->clumpId = vp_int("ca", -1, 1000000); p.b->clumpId = vp_int("cb", -1, 1000000);
	p.ma = vp_bits("ma"); p.mb = vp_bits("mb"); p.av = vp_bits("av");
	p.a->groupMask = p.ma; p.b->groupMask = p.mb; Collider::avoidSelfInteractionMask = (int)p.av;
	p.a->subdomain = vp_int("sa", 0, 1000000); p.b->subdomain = vp_int("sb", 0, 1000000); p.sub = vp_int("sub", 0, 1000000);
}
static bool rule(P& p)
{
	bool mine = p.sub == p.a->subdomain || p.sub == p.b->subdomain;
	bool ownSubdomain = p.a->subdomain == p.b->subdomain && (p.a->getIsSubdomain() || p.b->getIsSubdomain());
	bool sameClump = p.a->clumpId != Body::ID_NONE && p.b->clumpId != Body::ID_NONE && p.a->clumpId == p.b->clumpId;
	bool clump = p.a->clumpId == p.a->id || p.b->clumpId == p.b->id;
	bool mask = (p.ma & p.mb) != 0;
	bool self = p.ma == p.mb && (p.ma & p.av) != 0;
	return mine && !ownSubdomain && !sameClump && !clump && mask && !self;
}
HARNESS(c10_rule)
{
	P p; mk(p);
	p.a->setIsSubdomain(vp_bool("isa")); p.b->setIsSubdomain(vp_bool("isb"));
	vp_check(Collider::mayCollide(p.a, p.b, p.sub) == rule(p), "bodies may collide exactly when: one belongs to the handled subdomain and none is the box of their common one, not in one clump, not clumps themselves, masks share a bit, and no self-interaction exclusion");
	vp_cover("done");
}
HARNESS(c10_symmetric)
{
	P p; mk(p);
	p.a->setIsSubdomain(vp_bool("isa")); p.b->setIsSubdomain(vp_bool("isb"));
	vp_check(Collider::mayCollide(p.a, p.b, p.sub) == Collider::mayCollide(p.b, p.a, p.sub), "the filter does not depend on the order of the bodies");
	vp_cover("done");
}
HARNESS(c10_deleted)
{
	P p; mk(p);
	int w = vp_choice("w", 3);
	const Body* none = 0;
	vp_check(!Collider::mayCollide(w == 1 ? p.a : none, w == 2 ? p.b : none, p.sub), "deleted bodies do not collide");
	vp_cover("done");
}
// plain bodies of a single-process simulation
HARNESS(c10_plain)
{
	P p; mk(p);
	p.a->clumpId = p.b->clumpId = Body::ID_NONE; p.a->subdomain = p.b->subdomain = p.sub; Collider::avoidSelfInteractionMask = 0;
	vp_check(Collider::mayCollide(p.a, p.b, p.sub) == ((p.ma & p.mb) != 0), "standalone bodies collide exactly when their masks share a bit");
	vp_cover("done");
}
