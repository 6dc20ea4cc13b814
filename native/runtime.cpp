// Native runtime of the contract language: runs a specification against the
// compiled code, with the inputs of a counterexample or with random inputs.
// Derivatives of computed values are taken by perturbed re-runs.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <csetjmp>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <time.h>
extern "C" {
static std::vector<double> given; static std::vector<long> givenInts; static bool haveGiven = false;
static std::vector<std::pair<std::string, double>> used; static std::vector<std::pair<std::string, long>> usedInts;
static unsigned long long rs = 88172645463325252ull;
static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (double)(rs >> 11) / 9007199254740992.0; }
static std::vector<double> base; static std::vector<long> baseInts;     // values of the current sample
static size_t nr, ni;
static int mode;                        // 0 draw, 1 probe (perturbed), 2 final
static std::map<long, double> delta;    // perturbations in probe mode
struct DCall { double t; long a, b; };
static std::vector<DCall> calls, probeCalls;
static std::vector<double> dvals; static size_t dk;
static jmp_buf jb; static bool skip; static long nEq, nAssert, nFail; static std::string failText; static double scaleRange;
static std::vector<std::string> script; 

double vp_real_(const char* n, double lo, double hi) {
    size_t k = nr++;
    if (mode == 0) {
        double x; int sel = (int)(rnd() * 24);
        x = lo + (hi - lo) * rnd();
        if (haveGiven && k < given.size()) x = given[k];
        else if (sel == 0 && lo <= 0 && hi >= 0) x = 0; else if (sel == 1) x = lo; else if (sel == 2) x = hi;
        base.push_back(x); used.push_back({n, x});
        return x;
    }
    double x = k < base.size() ? base[k] : 0; auto it = delta.find((long)k); if (mode == 1 && it != delta.end()) x += it->second; return x;
}
long vp_nreal_() { return (long)nr; }
long vp_choose_(const char* n, long lo, long hi) {
    size_t k = ni++;
    if (mode == 0) { long v = haveGiven && k < givenInts.size() ? givenInts[k] : lo + (long)(rnd() * (hi - lo + 1)); if (v > hi) v = hi; baseInts.push_back(v); usedInts.push_back({n, v}); return v; }
    return k < baseInts.size() ? baseInts[k] : lo;
}
void vp_assume_(bool b) { if (!b && mode != 1) { skip = true; longjmp(jb, 1); } }
static void fail(const char* l, const std::string& d) { nFail++; if (failText.size() < 4000) failText += std::string("  failed obligation: ") + l + d + "\n"; }
static bool tagged(double v, long& k) { unsigned long long u; memcpy(&u, &v, 8); if ((u & 0x7FFFF00000000000ull) != 0x7FFAD00000000000ull) return false; k = (long)(u & 0xFFFFFFFFull); return true; }
static double tagOf(long k) { unsigned long long u = 0x7FFAD00000000000ull | (unsigned long long)k; double v; memcpy(&v, &u, 8); return v; }
static long seq, onlySeq = -1; static int outFd = 1;
static std::set<long> wanted;           // second derivatives compared with something else than zero
void vp_assert_(bool b, const char* l) { seq++; if (mode == 2) { nAssert++; if (!b) fail(l, ""); } }
static double tol1 = 2e-6, tol2 = 2e-3; static int curTol;   // set after a derivative was taken
void vp_eq_(double a, double b, const char* l) {
    seq++; long tk; if (mode == 3) { if (onlySeq >= 0 && seq != onlySeq) return; bool all = onlySeq >= 0; if (tagged(a, tk) && (all || b != 0)) wanted.insert(tk); if (tagged(b, tk) && (all || a != 0)) wanted.insert(tk); return; }
    if (mode != 2) return; if (tagged(a, tk) || tagged(b, tk)) return; nEq++;
    double t = curTol == 2 ? tol2 : curTol == 1 ? tol1 : 1e-9; double sc = 1 + std::fmax(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= t * sc)) { char buf[200]; snprintf(buf, 200, ": %.17g vs %.17g", a, b); fail(l, buf); }
}
static double dcall(double t, long a, long b) {
    if (mode == 1) { probeCalls.push_back({t, a, b}); return 0; }
    if (mode == 0) { calls.push_back({t, a, b}); return 0; }
    if (mode == 2) curTol = std::max(curTol, b >= 0 ? 2 : 1);
    return dk < dvals.size() ? dvals[dk++] : NAN;
}
double vp_diff_(double t, long a) { return dcall(t, a, -1); }
double vp_diff2_(double t, long a, long b) { return dcall(t, a, b); }
double vp_root_(double p) { return std::sqrt(p); }
double vp_uf_(const char* name, const double* args, long n, const char* mi) {
    unsigned long long h = 1469598103934665603ull; for (const char* c = name; *c; ++c) { h ^= (unsigned char)*c; h *= 1099511628211ull; }
    auto hr = [&]() { h ^= h << 13; h ^= h >> 7; h ^= h << 17; return (double)(h >> 11) / 9007199254740992.0; };
    std::vector<int> idx; for (const char* c = mi; *c;) { idx.push_back(atoi(c)); while (*c && *c != ',') ++c; if (*c) ++c; }
    double r = 0; for (int k = 0; k < 3; ++k) { double amp = 0.3 + 0.4 * hr(), arg = 6.28 * hr(); std::vector<double> w; for (long i = 0; i < n; ++i) { w.push_back(1.6 * hr() - 0.8); arg += w.back() * args[i]; } for (int i : idx) amp *= w[i]; r += amp * std::sin(arg + 1.5707963267948966 * idx.size()); }
    return r;
}
int vp_sym_() { return 0; }
int vp_isundef_(double x) { return std::isnan(x); }
void vp_stat_(const char*, long) {}
void vp_assumption_(const char*) {}
void vp_print_(const char* n, double v) { if (getenv("VP_PRINT") && mode == 2) fprintf(stderr, "%s = %.17g\n", n, v); }
}
typedef void (*Fn)();
static void runOnce(Fn f) { nr = ni = 0; dk = 0; seq = 0; curTol = 0; skip = false; if (setjmp(jb) == 0) f(); }
static void dumpInputs(FILE* o) {
    fprintf(o, "inputs"); for (auto& p : used) fprintf(o, " %s=%.17g", p.first.c_str(), p.second); fprintf(o, "\nchoices"); for (auto& p : usedInts) fprintf(o, " %s=%ld", p.first.c_str(), p.second); fprintf(o, "\n"); fflush(o);
}
int main(int argc, char** argv) {
    // usage: prog spec n seed [cexfile]   cexfile: one line of reals, one line of ints
    const char* spec = argv[1]; long n = atol(argv[2]); rs ^= (unsigned long long)(atol(argv[3]) + 1) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 10; ++i) rnd();
    Fn f = (Fn)dlsym(RTLD_DEFAULT, spec); if (!f) { fprintf(stderr, "no spec %s\n", spec); return 3; }
    if (argc > 4 && strcmp(argv[4], "-")) { FILE* c = fopen(argv[4], "r"); if (!c) return 3; char* line = nullptr; size_t cap = 0; haveGiven = true; if (getline(&line, &cap, c) > 0) for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) given.push_back(atof(t)); if (getline(&line, &cap, c) > 0) for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) givenInts.push_back(atol(t)); if (getline(&line, &cap, c) > 0) onlySeq = atol(line) > 0 ? atol(line) : -1; fclose(c); }
    double budget = argc > 5 ? atof(argv[5]) : 60; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    FILE* st = stdout; if (!getenv("VP_VERBOSE")) { fflush(stdout); st = fdopen(dup(1), "w"); freopen("/dev/null", "w", stdout); FILE* e2 = fdopen(dup(2), "w"); (void)e2; }
    long done = 0, skipped = 0, unst = 0, eqs = 0;
    auto late = [&](double share) { clock_gettime(CLOCK_MONOTONIC, &t1); return t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > budget * share; };
    signal(SIGALRM, [](int) { const char m[] = "FAIL the code under test does not return\n"; if (write(outFd, m, sizeof m - 1)) {} _exit(7); }); outFd = fileno(st);
    for (long s = 0; s < n; ++s) {
        if (late(1)) break;
        base.clear(); baseInts.clear(); used.clear(); usedInts.clear(); calls.clear(); mode = 0; delta.clear(); failText.clear(); nFail = 0;
        alarm(40); runOnce(f); alarm(0); if (skip) { skipped++; if (haveGiven) { fprintf(st, "SKIP\n"); fflush(st); return 5; } continue; }
        if (FILE* cf = fopen(argc > 6 ? argv[6] : "/dev/null", "w")) { dumpInputs(cf); fclose(cf); }
        bool bad = false; dvals.resize(calls.size()); for (size_t k = 0; k < calls.size(); ++k) dvals[k] = tagOf((long)k); // not yet known
        // which derivatives matter: those compared with a non-zero value first (or only the requested obligation), then the rest at random
        std::vector<long> order; wanted.clear(); mode = 3; delta.clear(); runOnce(f); std::set<long> first = wanted;
        for (long k : first) order.push_back(k); { std::vector<long> rest; if (onlySeq < 0) for (size_t k = 0; k < calls.size(); ++k) if (!first.count((long)k)) rest.push_back((long)k); for (size_t i = rest.size(); i > 1; --i) std::swap(rest[i - 1], rest[(size_t)(rnd() * i)]); order.insert(order.end(), rest.begin(), rest.end()); }
        auto probe = [&](std::map<long,double> d, std::vector<double>& out) { delta = d; mode = 1; probeCalls.clear(); runOnce(f); if (probeCalls.size() != calls.size()) { bad = true; return; } out.clear(); for (auto& c : probeCalls) out.push_back(c.t); };
        std::vector<double> a, b, c, d, a2, b2, c2, d2; std::set<long> ids; std::set<std::pair<long,long>> pairs; double share = n > 1 ? 0.7 : 1;
        for (long q : order) { if (bad || late(share)) break; const DCall C = calls[q];
            if (C.b < 0) { if (!ids.insert(C.a).second) continue; long id = C.a; double h = 2e-3 * std::fmax(1.0, std::fabs(base[id]));
                probe({{id, -2*h}}, a); if (!bad) probe({{id, -h}}, b); if (!bad) probe({{id, h}}, c); if (!bad) probe({{id, 2*h}}, d); if (bad) break;
                for (size_t k = 0; k < calls.size(); ++k) if (calls[k].b < 0 && calls[k].a == id) { double v = (a[k] - 8*b[k] + 8*c[k] - d[k]) / (12*h), v2 = (d[k] - a[k]) / (4*h), v1 = (c[k]-b[k])/(2*h); if (std::fabs(v1 - v2) > 0.02 * (1 + std::fabs(v))) unst++; else dvals[k] = v; } }
            else { std::pair<long,long> p(C.a, C.b); if (!pairs.insert(p).second) continue; double h1 = 1e-3 * std::fmax(1.0, std::fabs(base[p.first])), h2 = 1e-3 * std::fmax(1.0, std::fabs(base[p.second]));
                auto two = [&](double s1, double s2) { std::map<long,double> m; m[p.first] += s1; m[p.second] += s2; return m; };
                probe(two(h1, h2), a); if (!bad) probe(two(h1, -h2), b); if (!bad) probe(two(-h1, h2), c); if (!bad) probe(two(-h1, -h2), d);
                if (!bad) probe(two(2*h1, 2*h2), a2); if (!bad) probe(two(2*h1, -2*h2), b2); if (!bad) probe(two(-2*h1, 2*h2), c2); if (!bad) probe(two(-2*h1, -2*h2), d2); if (bad) break;
                for (size_t k = 0; k < calls.size(); ++k) if (calls[k].a == p.first && calls[k].b == p.second) { double x = (a[k] - b[k] - c[k] + d[k]) / (4*h1*h2), y = (a2[k] - b2[k] - c2[k] + d2[k]) / (16*h1*h2); if (std::fabs(x - y) > 0.02 * (1 + std::fabs(x))) unst++; else dvals[k] = (4*x - y) / 3; } } }
        if (bad) { unst++; if (haveGiven) { fprintf(st, "UNSTABLE\n"); fflush(st); return 6; } continue; }
        mode = 2; delta.clear(); nEq = nAssert = 0; runOnce(f); done++; eqs += nEq + nAssert;
        if (nFail) { fprintf(st, "FAIL %ld obligations on the compiled code\n%s", nFail, failText.c_str()); dumpInputs(st); return 1; }
    }
    fprintf(st, "OK runs=%ld skipped=%ld unstable=%ld checks=%ld\n", done, skipped, unst, eqs); fflush(st); _exit(0);
}
