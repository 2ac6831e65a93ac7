// C15 simulation loop: the real Scene::moveToNextTimeStep, PeriodicEngine, TimeStepper, ParallelEngine, SimulationFlow.
#include <sys/time.h>
static long vpClock;
#include <boost/date_time/posix_time/posix_time.hpp>
// wall clock: a stand-in under control of the harness
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = vpClock; t->tv_usec = 0; return 0; }
namespace boost { namespace date_time { template <> inline posix_time::ptime microsec_clock<posix_time::ptime>::local_time() { static long n; n += 7; return posix_time::ptime(gregorian::date(2020, 1, 1), posix_time::microseconds(n)); } } }
#include <prelude.hpp>
#include <omega.hpp>
#include <core/ForceContainerParallel.cpp>
#include <core/Interaction.cpp>
#include <core/InteractionContainer.cpp>
#include <core/BodyContainer.cpp>
#include <core/Body.cpp>
#include <core/State.cpp>
#include <core/Cell.cpp>
#define fillDefaultTags fillDefaultTagsReal
#include <core/Scene.cpp>
#undef fillDefaultTags
#include <core/Clump.cpp>
#include <core/SimulationFlow.cpp>
#include <pkg/common/PeriodicEngines.hpp>
#include <pkg/common/ParallelEngine.cpp>

static Scene* sc; static int seen[16], nSeen; static Real hAt; static long iterAt; static int subAt; static Scene* scAt;
struct E : GlobalEngine {
	int k; bool on; int asked; Real newDt; bool setsDt, replaces, throws; 
	E(int k) : k(k), on(true), asked(0), setsDt(false), replaces(false), throws(false) {}
	bool isActivated() override { asked++; vp_check(scene == sc, "engine works on this scene"); return on; }
	void action() override
	{
		seen[nSeen++] = k; hAt = sc->cell->hSize(0, 0); iterAt = sc->iter; subAt = sc->subStep; vp_check(scene == sc, "engine works on this scene");
		if (setsDt) sc->dt = newDt; if (throws) throw std::runtime_error("engine");
	}
	virtual string getClassName() const { return "E"; }
};
static E* en[4];
static const long iters[5] = { 0, 1, 7, 10, 1000003 };
static void mk(int n)
{
	vp_nthreads(1); vp_thread(0); sc = new Scene; vpOmegaScene = new shared_ptr<Scene>(sc); nSeen = 0; hAt = 0; iterAt = subAt = -7; TimingInfo::enabled = false;
	sc->iter = iters[vp_choice("iter", 5)]; sc->time = vp_real("time"); sc->dt = vp_real("dt"); sc->isPeriodic = vp_bool("periodic"); sc->cell->velGrad(0, 0) = vp_real("g"); sc->runInternalConsistencyChecks = false;
	vp_assume(1 + sc->dt * sc->cell->velGrad(0, 0) > 0);
	for (int i = 0; i < n; i++) { en[i] = new E(i); sc->engines.push_back(shared_ptr<Engine>(en[i])); }
}
static Real cellNow() { return sc->isPeriodic ? 1 + sc->dt * sc->cell->velGrad(0, 0) : 1; }
// @opts bounded=1
HARNESS(c15_step)
{
	mk(3); long i0 = sc->iter; Real t0 = sc->time, h = cellNow(); bool run[3];
	for (int i = 0; i < 3; i++) { en[i]->dead = vp_bool("dead"); en[i]->on = en[i]->dead || vp_bool("active"); run[i] = !en[i]->dead && en[i]->on; en[i]->scene = 0; }
	sc->moveToNextTimeStep();
	int want = 0; for (int i = 0; i < 3; i++) if (run[i]) { vp_check(nSeen > want && seen[want] == i, "engines run in order, once each"); want++; }
	vp_check(nSeen == want, "dead and inactive engines do not run"); for (int i = 0; i < 3; i++) vp_check(en[i]->asked <= 1, "an engine is asked once");
	if (want) { vp_eq(hAt, h, "the cell is updated before the engines"); vp_check(iterAt == i0, "step number is constant during the step"); vp_check(subAt >= 0, "engines know that a step is under way"); }
	vp_eq(sc->cell->hSize(0, 0), h, "the cell is updated once"); vp_check(sc->iter == i0 + 1, "step number advances by one"); vp_eq(sc->time, t0 + sc->dt, "time advances by the time step"); vp_check(sc->subStep == -1 && sc->engines.size() == 3, "step is complete");
	vp_cover("done");
}
HARNESS(c15_dt_changed)
{
	mk(2); Real t0 = sc->time; en[0]->setsDt = true; en[0]->newDt = vp_real("newdt");
	bool sub = vp_bool("sub"); if (sub) { sc->subStepping = true; for (int i = 0; i < 4; i++) sc->moveToNextTimeStep(); } else sc->moveToNextTimeStep();
	vp_eq(sc->time, t0 + en[0]->newDt, "time advances by the time step in force"); vp_eq(sc->dt, en[0]->newDt, "time step set by an engine is kept");
	vp_cover("done");
}
// one engine per call, the same sequence as a full step
// @opts bounded=1
HARNESS(c15_substeps)
{
	mk(3); long i0 = sc->iter; Real t0 = sc->time, h = cellNow(); bool run[3]; sc->subStepping = true;
	for (int i = 0; i < 3; i++) { run[i] = vp_bool("run"); en[i]->dead = !run[i] && vp_bool("dead"); en[i]->on = run[i]; en[i]->scene = 0; }
	int off = vp_choice("off", 5);  // call after which sub-stepping is turned off (4: never)
	int want = 0, calls = 0;
	for (int c = 0; c < 5; c++) {
		sc->moveToNextTimeStep(); calls++;
		if (!sc->subStepping) break;
		if (c == 0) { vp_check(nSeen == 0, "first sub-step only updates the cell"); vp_eq(sc->cell->hSize(0, 0), h, "first sub-step updates the cell"); }
		if (c >= 1 && c <= 3) { want += run[c - 1]; vp_check(nSeen == want && (!run[c - 1] || seen[nSeen - 1] == c - 1), "each sub-step runs its engine"); }
		if (c < 4) { vp_check(sc->iter == i0 && sc->subStep == c, "step is under way"); vp_eq(sc->time, t0, "time stands until the step is complete"); }
		if (c == off) sc->subStepping = false;
	}
	want = 0; for (int i = 0; i < 3; i++) if (run[i]) { vp_check(nSeen > want && seen[want] == i, "engines run in order, once each"); want++; }
	vp_check(nSeen == want, "dead and inactive engines do not run"); vp_eq(sc->cell->hSize(0, 0), h, "the cell is updated once");
	vp_check(sc->iter == i0 + 1 && sc->subStep == -1, "step number advances by one"); vp_eq(sc->time, t0 + sc->dt, "time advances by the time step");
	vp_cover("done");
}
// engines assigned for the next step
// @opts bounded=1
HARNESS(c15_next_engines)
{
	mk(2); bool sub = vp_bool("sub"); sc->subStepping = sub; int mid = sub ? vp_choice("mid", 3) : 0;
	for (int c = 0; c < mid; c++) sc->moveToNextTimeStep();
	for (int i = 2; i < 4; i++) { en[i] = new E(i); sc->_nextEngines.push_back(shared_ptr<Engine>(en[i])); }
	int n0 = nSeen; if (!sub) sc->moveToNextTimeStep(); else for (int c = mid; c < 4; c++) sc->moveToNextTimeStep();
	if (mid > 0) { vp_check(nSeen == 2 && seen[0] == 0 && seen[1] == 1, "a step under way finishes with its engines"); for (int c = 0; c < 4; c++) sc->moveToNextTimeStep(); n0 = 2; }
	vp_check(nSeen == n0 + 2 && seen[n0] == 2 && seen[n0 + 1] == 3, "next step runs the new engines"); vp_check(sc->_nextEngines.empty() && sc->engines.size() == 2, "new engines are taken over");
	vp_cover("done");
}
HARNESS(c15_failed_step)
{
	mk(2); long i0 = sc->iter; Real t0 = sc->time; bool first = vp_bool("first"), t = false; en[first ? 0 : 1]->throws = true;
	try { sc->moveToNextTimeStep(); } catch (...) { t = true; }
	vp_check(t && nSeen == (first ? 1 : 2), "error of an engine stops the step"); vp_check(sc->iter == i0, "an unfinished step does not count"); vp_eq(sc->time, t0, "an unfinished step does not count");
	vp_cover("done");
}
// @opts bounded=1
HARNESS(c15_parallel_groups)
{
	mk(0); ParallelEngine* P = new ParallelEngine; P->scene = sc; for (int i = 0; i < 4; i++) en[i] = new E(i);
	bool run[4]; for (int i = 0; i < 4; i++) { run[i] = vp_bool("run"); en[i]->dead = !run[i] && vp_bool("dead"); en[i]->on = run[i]; en[i]->scene = 0; }
	P->slaves.resize(3); P->slaves[0].push_back(shared_ptr<Engine>(en[0])); P->slaves[0].push_back(shared_ptr<Engine>(en[1])); P->slaves[1].push_back(shared_ptr<Engine>(en[2])); P->slaves[2].push_back(shared_ptr<Engine>(en[3]));
	P->action();
	int cnt[4] = { 0, 0, 0, 0 }, at[4] = { 0, 0, 0, 0 }; for (int i = 0; i < nSeen; i++) { cnt[seen[i]]++; at[seen[i]] = i; }
	for (int i = 0; i < 4; i++) vp_check(cnt[i] == (run[i] ? 1 : 0), "each active engine of each group runs once"); vp_check(!run[0] || !run[1] || at[0] < at[1], "engines of one group run in order");
	vp_cover("done");
}
// periodic engines
struct PE : PeriodicEngine { };
HARNESS(c15_periodic)
{
	mk(0); PE* e = new PE; e->scene = sc; sc->iter = vp_long("it", 0, 1000000000); vpClock = vp_long("clock", 0, 1000000000);
	e->virtPeriod = vp_real("vp"); e->realPeriod = vp_real("rp"); e->iterPeriod = vp_long("ip", -10, 1000000000); e->nDo = vp_long("nDo", -1, 1000); e->initRun = vp_bool("init"); e->firstIterRun = vp_long("first", 0, 1000000000);
	e->virtLast = vp_real("vl"); e->realLast = vp_real("rl"); e->iterLast = vp_long("il", 0, 1000000000); e->nDone = vp_long("nDone", 0, 1000);
	Real vl = e->virtLast, rl = e->realLast, now = vpClock; long il = e->iterLast, nd = e->nDone;
	bool waits = e->firstIterRun > 0 && nd == 0; long n0 = waits || sc->iter >= il ? nd : 0;
	bool el = (e->virtPeriod > 0 && sc->time - vl >= e->virtPeriod) || (e->realPeriod > 0 && now - rl >= e->realPeriod) || (e->iterPeriod > 0 && sc->iter - il >= e->iterPeriod);
	bool want = waits ? sc->iter == e->firstIterRun : ((e->nDo < 0 || n0 < e->nDo) && el) || (n0 == 0 && e->initRun);
	bool counts = waits ? want : want || n0 == 0;
	bool r = e->isActivated();
	vp_check(r == want, "runs exactly when a period has elapsed since the last run and the limit is not reached, at the first call only if asked, and first at the given step");
	vp_check(e->nDone == (counts ? n0 + 1 : n0), "number of runs"); vp_check(e->iterLast == (counts ? sc->iter : il), "step of the last run"); vp_eq(e->virtLast, counts ? sc->time : vl, "time of the last run"); vp_eq(e->realLast, counts ? now : rl, "wall clock time of the last run");
	vp_cover("done");
}
// time steppers
struct TS : TimeStepper { };
HARNESS(c15_timestepper)
{
	mk(1); sc->iter = vp_long("it", 0, 1000000); int n = vp_choice("n", 3); TS* t[2]; for (int i = 0; i < n; i++) { t[i] = new TS; t[i]->scene = sc; t[i]->active = vp_bool("active"); sc->engines.push_back(shared_ptr<Engine>(t[i])); }
	if (n == 2) {
		int f = vp_choice("f", 3); bool th = false; try { if (f == 0) sc->timeStepperPresent(); else if (f == 1) sc->timeStepperActive(); else sc->timeStepperActivate(true); } catch (...) { th = true; } vp_check(th, "two time steppers are refused");
	} else {
		vp_check(sc->timeStepperPresent() == (n == 1), "presence"); vp_check(sc->timeStepperActive() == (n == 1 && t[0]->active), "activity"); bool a = vp_bool("set"); vp_check(sc->timeStepperActivate(a) == (n == 1), "activation reports success"); if (n) vp_check(t[0]->active == a, "activation");
		if (n) { int k = vp_choice("k", 3); t[0]->timeStepUpdateInterval = k == 0 ? 1 : k == 1 ? 2 : 10; vp_check(t[0]->isActivated() == (a && sc->iter % (k == 0 ? 1 : k == 1 ? 2 : 10) == 0), "runs at every interval when active"); }
	}
	vp_cover("done");
}
HARNESS(c15_find)
{
	mk(2); shared_ptr<Engine> e = sc->engineByName("E"); vp_check(e.get() == en[0], "first engine of the class"); new shared_ptr<Engine>(e); vp_check(!sc->engineByName("F"), "no engine of that class");
	vp_cover("done");
}
// continuous run: full steps, stopped at the requested step or time
struct Flow : SimulationFlow { bool stop; };
static bool asked; void ThreadWorker::setTerminate(bool b) { asked = b; } void ThreadWorker::callSingleAction() {}
HARNESS(c15_run)
{
	mk(1); asked = false; sc->subStepping = vp_bool("sub"); Flow* f = new Flow; long i0 = sc->iter; Real t0 = sc->time; vp_assume(sc->dt > 0);
	sc->stopAtIter = vp_long("stopIter", -1, 1000100); sc->stopAtTime = vp_real("stopTime");
	f->singleAction();
	vp_check(sc->iter == i0 + 1 && nSeen == 1 && !sc->subStepping, "a full step is run"); bool byIter = sc->stopAtIter > 0 && sc->stopAtIter == i0 + 1, byTime = sc->stopAtTime > 0 && t0 < sc->stopAtTime && sc->stopAtTime <= t0 + sc->dt;
	vp_check(asked == (byIter || byTime), "stops after the step in which the requested step number or time is reached");
	vp_cover("done");
}
