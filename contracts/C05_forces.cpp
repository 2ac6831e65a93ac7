// C05 force accumulation: the real ForceContainer (parallel flavour), every operation from an arbitrary admissible state.
// Admissible state (representation invariant, shown preserved by every operation): per-thread arrays not longer than the common
// size; size synchronisation flag only when all lengths agree; clean flag only when the totals are the sums over threads plus the
// permanent part; no move/rot content unless flagged; no permanent content unless flagged.
// Sizes of the initial state are 0..3 bodies and 2 threads (case split); growth by operations is not restricted.
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#include <pkg/common/ForceResetter.hpp>

static const int NT = 2, NB = 3, FAR = 140;
typedef std::vector<Vector3r> VV;
static void fill(VV& v, int n, bool any, const char* nm) { v.clear(); for (int i = 0; i < n; i++) v.push_back(any ? vpVec(nm) : Vector3r(Vector3r::Zero())); }
// abstract state: per-body totals
struct Abs { Vector3r f[NB + 1], t[NB + 1], m[NB + 1], r[NB + 1], pf[NB + 1], pt[NB + 1]; bool perm, mr; };
static int idOf(int k) { return k < NB ? k : FAR; }
static Vector3r at(const VV& v, int i) { return (size_t)i < v.size() ? v[i] : Vector3r(Vector3r::Zero()); }
static Abs absOf(const ForceContainer& F)
{
	Abs a;
	for (int k = 0; k <= NB; k++) {
		int i = idOf(k);
		a.f[k] = a.t[k] = a.m[k] = a.r[k] = Vector3r::Zero();
		for (int t = 0; t < NT; t++) { a.f[k] += at(F._forceData[t], i); a.t[k] += at(F._torqueData[t], i); a.m[k] += at(F._moveData[t], i); a.r[k] += at(F._rotData[t], i); }
		a.pf[k] = at(F._permForce, i); a.pt[k] = at(F._permTorque, i);
	}
	a.perm = F.permForceUsed; a.mr = F.moveRotUsed;
	return a;
}
static ForceContainer* mk(int shape)
{
	vp_nthreads(NT); vp_thread(0);
	ForceContainer* F = new ForceContainer;
	F->moveRotUsed = vp_bool("moveRotUsed"); F->permForceUsed = vp_bool("permUsed");
	static const int S0[5] = { 3, 2, 0, 3, 3 }, S1[5] = { 3, 3, 2, 0, 3 }, SP[5] = { 3, 0, 3, 2, 3 }, SZ[5] = { 3, 3, 3, 3, 3 };
	int s[2] = { S0[shape], S1[shape] };
	for (int t = 0; t < NT; t++) {
		fill(F->_forceData[t], s[t], true, "f"); fill(F->_torqueData[t], s[t], true, "t");
		fill(F->_moveData[t], s[t], F->moveRotUsed, "m"); fill(F->_rotData[t], s[t], F->moveRotUsed, "r");
		F->sizeOfThreads[t] = s[t]; F->_maxId[t] = 0;
	}
	fill(F->_permForce, SP[shape], F->permForceUsed, "pf"); fill(F->_permTorque, SP[shape], F->permForceUsed, "pt");
	F->size = SZ[shape];
	F->syncedSizes = (shape == 0 || shape == 4);
	int n = F->syncedSizes ? 3 : 2;
	fill(F->_force, n, true, "F"); fill(F->_torque, n, true, "T"); fill(F->_move, n, F->moveRotUsed, "M"); fill(F->_rot, n, F->moveRotUsed, "R");
	F->synced = (shape == 4);
	if (F->synced) {
		Abs a = absOf(*F);
		for (int k = 0; k < NB; k++) { F->_force[k] = a.f[k] + a.pf[k]; F->_torque[k] = a.t[k] + a.pt[k]; F->_move[k] = a.m[k]; F->_rot[k] = a.r[k]; }
	}
	return F;
}
static void same(const Abs& a, const Abs& b, const char* l)
{
	for (int k = 0; k <= NB; k++) { vpEqV(a.f[k], b.f[k], l); vpEqV(a.t[k], b.t[k], l); vpEqV(a.m[k], b.m[k], l); vpEqV(a.r[k], b.r[k], l); vpEqV(a.pf[k], b.pf[k], l); vpEqV(a.pt[k], b.pt[k], l); }
}
// after sync the readers return the abstract totals
static void readers(ForceContainer* F, const Abs& a)
{
	for (int k = 0; k <= NB; k++) {
		int i = idOf(k);
		vpEqV(F->getForceSingle(i), a.f[k] + a.pf[k], "unsynchronised reader returns the total force (contributions of all threads plus permanent force)");
		vpEqV(F->getTorqueSingle(i), a.t[k] + a.pt[k], "unsynchronised reader returns the total torque");
		vpEqV(F->getMoveSingle(i), a.m[k], "unsynchronised reader returns the total displacement"); vpEqV(F->getRotSingle(i), a.r[k], "unsynchronised reader returns the total rotation");
	}
	F->sync();
	for (int k = 0; k <= NB; k++) {
		int i = idOf(k);
		vpEqV(F->getForce(i), a.f[k] + a.pf[k], "total force = contributions of all threads plus permanent force");
		vpEqV(F->getTorque(i), a.t[k] + a.pt[k], "total torque = contributions of all threads plus permanent torque");
		vpEqV(F->getMove(i), a.m[k], "total displacement = contributions of all threads"); vpEqV(F->getRot(i), a.r[k], "total rotation = contributions of all threads");
		vpEqV(F->getPermForce(i), a.pf[k], "permanent force kept"); vpEqV(F->getPermTorque(i), a.pt[k], "permanent torque kept");
	}
	same(absOf(*F), a, "synchronisation changes no contribution");
	for (int t = 0; t < NT; t++) vp_check(F->_forceData[t].size() == F->size && F->_torqueData[t].size() == F->size && F->sizeOfThreads[t] == F->size, "synchronised containers have equal sizes");
	vp_check(F->_force.size() == F->size && F->_torque.size() == F->size && F->_permForce.size() == F->size && F->_permTorque.size() == F->size, "synchronised containers have equal sizes");
}
// one arbitrary accumulation from an arbitrary admissible state
static void accumulate(int op)
{
	ForceContainer* F = mk(vp_choice("shape", 5));
	Abs a = absOf(*F);
	int k = vp_choice("k", NB + 1), id = idOf(k);
	vp_thread(vp_choice("thread", NT));
	Vector3r x = vpVec("x");
	switch (op) {
		case 0: F->addForce(id, x); a.f[k] += x; break;
		case 1: F->addTorque(id, x); a.t[k] += x; break;
		case 2: F->addMove(id, x); a.m[k] += x; break;
		case 3: F->addRot(id, x); a.r[k] += x; break;
		case 4: F->setPermForce(id, x); a.pf[k] = x; break;
		case 5: F->setPermTorque(id, x); a.pt[k] = x; break;
	}
	same(absOf(*F), a, "exactly the addressed body changes, by exactly the given amount");
	vp_check(!F->synced, "a modified container is not readable before synchronisation");
	readers(F, a);
	vp_cover("done");
}
// @opts bounded=3-bodies-2-threads
HARNESS(c05_add_force) { accumulate(0); }
// @opts bounded=3-bodies-2-threads
HARNESS(c05_add_torque) { accumulate(1); }
// @opts bounded=3-bodies-2-threads
HARNESS(c05_add_move) { accumulate(2); }
// @opts bounded=3-bodies-2-threads
HARNESS(c05_add_rot) { accumulate(3); }
// @opts bounded=3-bodies-2-threads
HARNESS(c05_set_perm_force) { accumulate(4); }
// @opts bounded=3-bodies-2-threads
HARNESS(c05_set_perm_torque) { accumulate(5); }
// synchronisation and clean reads
// @opts bounded=3-bodies-2-threads
HARNESS(c05_sync)
{
	ForceContainer* F = mk(vp_choice("shape", 5));
	Abs a = absOf(*F);
	bool dirty = !F->synced; unsigned long n0 = F->syncCount;
	readers(F, a);
	vp_check(F->syncCount == n0 + (dirty ? 1 : 0), "a full synchronisation happens exactly when the container is dirty");
	F->sync();
	vp_check(F->syncCount == n0 + (dirty ? 1 : 0), "synchronising twice does the work once");
	vpEqV(F->getForce(1000000), Vector3r::Zero(), "a body never loaded has zero force"); vpEqV(F->getTorque(1000000), Vector3r::Zero(), "a body never loaded has zero torque");
	vp_cover("done");
}
// reading a dirty container throws
// @opts allow_throw=1
// @opts bounded=3-bodies-2-threads
HARNESS(c05_dirty_read)
{
	ForceContainer* F = mk(vp_choice("shape", 4));
	int w = vp_choice("w", 6);
	bool thrown = false;
	try {
		switch (w) { case 0: F->getForce(1); break; case 1: F->getTorque(1); break; case 2: F->getMove(1); break; case 3: F->getRot(1); break; case 4: F->getPermForce(1); break; case 5: F->getPermTorque(1); break; }
	} catch (std::runtime_error&) { thrown = true; }
	vp_check(thrown, "reading before synchronisation throws");
	vp_cover("done");
}
// reset: contributions vanish, permanent part stays; the next step starts from the permanent part only
// @opts bounded=3-bodies-2-threads
HARNESS(c05_reset)
{
	ForceContainer* F = mk(vp_choice("shape", 5));
	Abs a = absOf(*F);
	bool all = vp_bool("all");
	long it = vp_long("iter", 0, 1000000);
	F->reset(it, all);
	vp_check(F->lastReset == it, "reset records the step");
	for (int k = 0; k <= NB; k++) { a.f[k] = a.t[k] = a.m[k] = a.r[k] = Vector3r::Zero(); if (all) a.pf[k] = a.pt[k] = Vector3r::Zero(); }
	same(absOf(*F), a, "reset clears every contribution of every thread; permanent forces are cleared only on request");
	vp_check(!F->getMoveRotUsed(), "no pending displacement after reset");
	vp_check(F->getPermForceUsed() == (all ? false : a.perm), "permanent forces stay in use across reset unless cleared");
	readers(F, a);
	vp_cover("done");
}
// pre-announced ids (addMaxId) only grow the container
// @opts bounded=3-bodies-2-threads
HARNESS(c05_max_id)
{
	ForceContainer* F = mk(vp_choice("shape", 5));
	Abs a = absOf(*F);
	vp_thread(vp_choice("thread", NT));
	int id = vp_choice("far", 2) ? FAR : 1;
	F->addMaxId(id);
	size_t s0 = F->size;
	F->sync();
	vp_check(F->size > (size_t)id && F->size >= s0, "the container covers the announced id");
	readers(F, a);
	vp_cover("done");
}
// contributions of several threads in any order are summed (two threads, same and different bodies)
// @opts bounded=3-bodies-2-threads
HARNESS(c05_threads)
{
	ForceContainer* F = mk(vp_choice("shape", 5));
	Abs a = absOf(*F);
	int k1 = vp_choice("k1", 2), k2 = vp_choice("k2", 2) ? NB : 0;
	Vector3r x = vpVec("x"), y = vpVec("y"), z = vpVec("z");
	vp_thread(1); F->addForce(idOf(k1), x);
	vp_thread(0); F->addForce(idOf(k2), y);
	vp_thread(1); F->addTorque(idOf(k1), z);
	vp_thread(0);
	a.f[k1] += x; a.f[k2] += y; a.t[k1] += z;
	readers(F, a);
	vp_cover("done");
}
// direct writes used for clumps go to the synchronised totals of one body only
// @opts bounded=3-bodies-2-threads
HARNESS(c05_unsynced)
{
	ForceContainer* F = mk(4);
	Abs a = absOf(*F);
	int k = vp_choice("k", NB);
	Vector3r x = vpVec("x"), y = vpVec("y");
	F->addForceUnsynced(k, x); F->addTorqueUnsynced(k, y);
	for (int j = 0; j < NB; j++) {
		vpEqV(F->getForceUnsynced(j), a.f[j] + a.pf[j] + (j == k ? x : Vector3r(Vector3r::Zero())), "unsynchronised addition reaches one body");
		vpEqV(F->getTorqueUnsynced(j), a.t[j] + a.pt[j] + (j == k ? y : Vector3r(Vector3r::Zero())), "unsynchronised addition reaches one body");
	}
	vp_cover("done");
}
