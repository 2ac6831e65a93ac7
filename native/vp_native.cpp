// Native implementation of the contract API: replays a verifier counterexample, or searches for a failing input,
// on the real compiled code.   usage: prog HARNESS replay FILE | prog HARNESS search SEED SECONDS [TRIALS]
#include <vp.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <exception>
#include <dlfcn.h>
struct VpReject {};
struct VpFail {};
typedef void (*Fn)();
static bool replaying = false;
static std::map<std::string, double> given;
static std::map<std::string, int> cnt;
static std::vector<std::pair<std::string, double>> inputs;
static std::mt19937_64 rng;
static std::string failLabel;
static int thr = 0, nthr = 1;
static bool inTrial = false;
static double maxMag = 1;
static std::string uniq(const char* n)
{
	int k = cnt[n]++;
	return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static double put(const std::string& n, double v)
{
	inputs.push_back(std::make_pair(n, v));
	return v;
}
static bool have(const std::string& n, double& v)
{
	if (!replaying) return false;
	auto i = given.find(n);
	if (i == given.end()) { v = 0; return false; }
	v = i->second;
	return true;
}
extern "C" {
double vp_real(const char* name)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) return put(n, v);
	if (U() < .25) { static const double c[] = {0, 0, 1, -1, .5, 2, -.5}; v = c[rng() % 7]; }
	else v = (U() < .5 ? -1 : 1) * (U() < .7 ? 2 * U() : std::exp(6 * U() - 3));
	return put(n, v);
}
double vp_pos(const char* name)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) { if (!(v > 0)) throw VpReject(); return put(n, v); }
	v = U() < .3 ? (U() < .5 ? 1. : 2.) : std::exp(5 * U() - 2.5);
	return put(n, v);
}
double vp_nonneg(const char* name)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) { if (!(v >= 0)) throw VpReject(); return put(n, v); }
	v = U() < .3 ? (U() < .5 ? 0. : 1.) : std::exp(5 * U() - 2.5);
	return put(n, v);
}
double vp_range(const char* name, double lo, double hi)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) { if (v < lo || v > hi) throw VpReject(); return put(n, v); }
	v = U() < .15 ? (U() < .5 ? lo : hi) : lo + (hi - lo) * U();
	return put(n, v);
}
long vp_long(const char* name, long lo, long hi)
{
	if (lo == hi) { uniq(name); return lo; }
	std::string n = uniq(name);
	double v;
	if (have(n, v)) { if (v < lo || v > hi) throw VpReject(); return (long)put(n, v); }
	long a = lo, b = hi;
	if ((double)hi - (double)lo > 64 && U() < .8) { a = lo > -4 ? lo : -4; b = a + 12; if (b > hi) b = hi; if (a > b) { a = lo; b = hi; } }
	long r = std::uniform_int_distribution<long>(a, b)(rng);
	return (long)put(n, (double)r);
}
int vp_int(const char* name, int lo, int hi) { return (int)vp_long(name, lo, hi); }
unsigned vp_bits(const char* name)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) return (unsigned)(long long)put(n, v);
	unsigned r = U() < .5 ? (unsigned)(rng() % 8) : (unsigned)rng();
	put(n, (double)r);
	return r;
}
bool vp_bool(const char* name)
{
	std::string n = uniq(name);
	double v;
	if (have(n, v)) return put(n, v) != 0;
	return put(n, (double)(rng() & 1)) != 0;
}
int vp_choice(const char* name, int k) { return (int)vp_long(name, 0, k - 1); }
static void unit(const char* name, double* o, int k)
{
	std::string n = uniq(name);
	double s = 0;
	for (int i = 0; i < k; i++) {
		double v;
		std::string m = n + "." + std::to_string(i);
		if (!have(m, v)) v = U() < .15 ? 0. : std::normal_distribution<double>()(rng);
		o[i] = v;
		s += v * v;
	}
	if (s < 1e-12) { o[0] = 1; for (int i = 1; i < k; i++) o[i] = 0; s = 1; }
	s = std::sqrt(s);
	for (int i = 0; i < k; i++) put(n + "." + std::to_string(i), o[i] /= s);
}
void vp_unit3(const char* name, double* o) { unit(name, o, 3); }
void vp_unit4(const char* name, double* o) { unit(name, o, 4); }
void vp_assume(bool c) { if (!c) throw VpReject(); }
void vp_rule(double x, double s) { if (std::fabs(x * x - s) > 1e-9 * (1 + std::fabs(s))) throw VpReject(); }
static void fail(const char* l, double a, double b)
{
	char buf[200];
	snprintf(buf, 200, " [%.17g vs %.17g]", a, b);
	failLabel = std::string(l) + buf;
	throw VpFail();
}
void vp_check(bool c, const char* l) { if (!c) { failLabel = l; throw VpFail(); } }
static double tol(double a, double b) { return 1e-6 * (1e-3 + std::fabs(a) + std::fabs(b)) + 1e-9 * maxMag; }
void vp_eq(double a, double b, const char* l)
{
	if (a != a && b != b) return;
	if (a == b) return;
	if (!(std::fabs(a - b) <= tol(a, b))) fail(l, a, b);
}
void vp_le(double a, double b, const char* l) { if (!(a <= b + tol(a, b))) fail(l, a, b); }
void vp_lt(double a, double b, const char* l) { if (!(a < b + tol(a, b))) fail(l, a, b); }
void vp_lemma(bool, const char*) {}
bool vp_case(bool c) { return c; }
static std::map<std::string,long> covers;
void vp_cover(const char* l) { covers[l]++; }
bool vp_symbolic() { return false; }
void vp_thread(int t) { thr = t; }
void vp_nthreads(int n) { nthr = n; }
void vp_trace(const char* s, double x) { if (replaying) fprintf(stderr, "TRACE %s %.17g\n", s, x); }
int omp_get_thread_num() { return thr; }
int omp_get_max_threads() { return nthr; }
int omp_get_num_threads() { return nthr; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
int omp_in_parallel() { return 0; }
}
static void dump()
{
	for (auto& p : inputs) printf("INPUT %s %.17g\n", p.first.c_str(), p.second);
	fflush(stdout);
}
static void onsig(int s)
{
	if (s == SIGILL) { printf("OUTSIDE-REACH\n"); fflush(stdout); _exit(7); }
	printf("FAIL crash: signal %d in the code under contract\n", s);
	dump();
	_exit(1);
}
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
// 0 ok, 1 fail, 2 reject
static int trial(Fn f)
{
	cnt.clear(); inputs.clear(); thr = 0; nthr = 1;
	try { f(); }
	catch (VpReject&) { return 2; }
	catch (VpFail&) { return 1; }
	catch (std::exception& e) { failLabel = std::string("throw: ") + e.what(); return 3; }
	return 0;
}
int main(int argc, char** argv)
{
	if (argc < 4) return 9;
	Fn fn = (Fn)dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 9; }
	signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
	bool allowThrow = getenv("VP_ALLOW_THROW") != 0;
	if (!strcmp(argv[2], "replay")) {
		replaying = true;
		FILE* f = fopen(argv[3], "r");
		char nm[500]; double v;
		while (f && fscanf(f, "%499s %lf", nm, &v) == 2) given[nm] = v;
		if (f) fclose(f);
		int r = trial(fn);
		if (r == 3 && allowThrow) r = 0;
		if (r == 1 || r == 3) { printf("FAIL %s\n", failLabel.c_str()); dump(); fflush(stdout); _exit(1); }
		printf(r == 2 ? "REJECT\n" : "OK\n");
		fflush(stdout);
		_exit(r == 2 ? 2 : 0);
	}
	unsigned long seed = strtoul(argv[3], 0, 10);
	double lim = atof(argv[4]);
	long maxn = argc > 5 ? atol(argv[5]) : 1000000000L;
	double t0 = now();
	long n = 0, rej = 0;
	while (n < maxn && now() - t0 < lim) {
		rng.seed(seed * 1000003UL + n);
		n++;
		int r = trial(fn);
		if (r == 2) rej++;
		if (r == 3 && allowThrow) r = 0;
		if (r == 1 || r == 3) { printf("FAIL %s\n", failLabel.c_str()); dump(); fflush(stdout); _exit(1); }
	}
	printf("OK trials=%ld rejected=%ld\n", n, rej);
	fflush(stdout);
	_exit(0);
}
