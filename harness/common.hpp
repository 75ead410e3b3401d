/* Common part of all C-level monitors: case driver, deterministic RNG, result
   recording, guarded buffers. Every harness defines run_case(). */
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <numeric>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <signal.h>
#include <clocale>

extern "C" {
#include "vec_utils.h"
#include "calibration.h"
#include "parameters.h"
#include "lsqadj.h"
#include "ray_tracing.h"
#include "trafo.h"
#include "multimed.h"
#include "imgcoord.h"
#include "image_processing.h"
#include "epi.h"
#include "correspondences.h"
#include "orientation.h"
#include "sortgrid.h"
#include "segmentation.h"
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "track.h"
}
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAVE_MSAN 1
#endif
#endif
#undef norm
#undef nmax
#undef MIN
#undef MAX

static inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)((int64_t)b - a + 1)); } /* inclusive */
    bool p(double pr) { return u() < pr; }
    double n() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300;
        return sqrt(-2 * log(a)) * cos(6.283185307179586 * b); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (next() % l.size())); }
    template <class V> void shuffle(V &v) {
        for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[next() % k]); }
};

struct Hash {
    uint64_t h = 0xcbf29ce484222325ull;
    void b(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p;
        for (size_t k = 0; k < n; k++) { h ^= c[k]; h *= 0x100000001b3ull; } }
    void i(long v) { b(&v, sizeof v); }
    void d(double v) { if (v == 0) v = 0; b(&v, sizeof v); }
    void s(const std::string &v) { b(v.data(), v.size()); }
};

struct Result {
    long evals = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> counters;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    struct F { std::string key, msg; long idx; };
    std::vector<F> fails;
    std::map<std::string, long> failcount;
};
extern Result G_res;
extern std::string G_scratch;   /* private scratch directory of this shard */
extern std::string G_data;      /* liboptv/tests/testing_fodder of /repo (read only) */
extern std::string G_aux;       /* check specific extra argument */
extern int G_thorough;

struct Case {
    uint64_t seed; long idx; Rng r;
    Case(uint64_t s, long i) : seed(s), idx(i), r(mix64(s * 1000003ull + (uint64_t)i) ^ 0x5bd1e995) {}
    void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void eval(long n = 1) { G_res.evals += n; }
    void distinct(uint64_t h) {
#ifdef HAVE_MSAN
        __msan_unpoison(&h, sizeof h);   /* hashes may cover padding */
#endif
        G_res.distinct.insert(h); }
    void count(const char *name, long n = 1) { G_res.counters[name] += n; }
    void maxv(const char *name, double v) { double &m = G_res.maxima[name]; if (!(v <= m)) m = v; }
    void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

void run_case(Case &c);
extern const char *CHECK_RULE;

/* capture of stdout printing done by the library: silenced */
/* A program whose numbers have decimal commas (LC_NUMERIC), for the time of one call. */
struct ForeignNumbers {
    bool on; static long used;
    explicit ForeignNumbers(bool want) : on(want && setlocale(LC_NUMERIC, "comma_XX") != NULL) { if (on) used++; }
    ~ForeignNumbers() { setlocale(LC_NUMERIC, "C"); }
    ForeignNumbers(const ForeignNumbers &) = delete;
};
extern bool G_foreign;   /* in this case, file functions are called that way */
template <class F> static inline auto foreign_call(F f) { ForeignNumbers l(G_foreign); return f(); }

struct Scratch {
    static std::string path(const char *name) { return G_scratch + "/" + name; }
};

static inline std::string sfmt(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf; }

static inline bool close_to(double a, double b, double tol) { return fabs(a - b) <= tol; }
static inline bool finite3(const double *v) { return std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(v[2]); }

#ifdef VERIF_MAIN
#ifdef VERIF_MSAN
/* containers of the uninstrumented C++ library: memory from new counts as set, memory from malloc does not */
void *operator new(size_t n) { void *p = calloc(1, n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
long ForeignNumbers::used = 0;
bool G_foreign = false;
Result G_res;
std::string G_scratch, G_data, G_aux;
int G_thorough = 0;
void Case::fail(const char *key, const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    long &n = G_res.failcount[key]; n++;
    if (n <= 3) G_res.fails.push_back({key, buf, idx});
}
void Case::sample(const char *fmt, ...) {
    if (G_res.samples.size() >= 4) return;
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    G_res.samples.push_back(sfmt("case %ld: ", idx) + buf);
}

/* edge coverage of the library objects (built with inline-8bit-counters) */
static std::vector<std::pair<char *, char *>> &cov_ranges() { static std::vector<std::pair<char *, char *>> v; return v; }
extern "C" void __sanitizer_cov_8bit_counters_init(char *start, char *end) {
    if (start == end) return;
    for (auto &r : cov_ranges()) if (r.first == start) return;
    cov_ranges().push_back({start, end});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

static std::string esc(const std::string &s) {
    std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += ' '; else o += c; } return o; }

int main(int argc, char **argv) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);   /* a killed driver leaves nothing running */
    uint64_t seed = 1; long from = 0, to = 0, step = 1; std::string out; int keep = 0;
    for (int k = 1; k + 1 < argc; k += 2) {
        std::string a = argv[k], v = argv[k + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = atol(v.c_str());
        else if (a == "--to") to = atol(v.c_str());
        else if (a == "--step") step = atol(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--scratch") G_scratch = v;
        else if (a == "--data") G_data = v;
        else if (a == "--aux") G_aux = v;
        else if (a == "--thorough") G_thorough = atoi(v.c_str());
        else if (a == "--verbose") keep = atoi(v.c_str());
    }
    /* the library prints diagnostics on stdout/stderr; keep stderr for sanitizers */
    if (!keep) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
    std::string cur = out + ".cur";
    int cfd = out.empty() ? -1 : open(cur.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    for (long i = from; i < to; i += step) {
        if (cfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i); if (pwrite(cfd, b, n, 0) < 0) return 3; }
        Case c(seed, i);
        G_foreign = mix64(seed * 7919 + (uint64_t)i) % 5 == 0;
        run_case(c);
    }
    if (ForeignNumbers::used) G_res.counters["calls with decimal commas set"] = ForeignNumbers::used;
    long covered = 0, total = 0;
    for (auto &r : cov_ranges()) for (char *p = r.first; p < r.second; p++) { total++; if (*p) covered++; }
    FILE *f = out.empty() ? stderr : fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "RULE\t%s\n", esc(CHECK_RULE).c_str());
    fprintf(f, "EVALS\t%ld\n", G_res.evals);
    for (auto &x : G_res.counters) fprintf(f, "COUNT\t%s\t%ld\n", x.first.c_str(), x.second);
    for (auto &x : G_res.maxima) fprintf(f, "MAX\t%s\t%.6g\n", x.first.c_str(), x.second);
    for (auto &x : G_res.samples) fprintf(f, "SAMPLE\t%s\n", esc(x).c_str());
    for (auto &x : G_res.fails) fprintf(f, "FAIL\t%s\t%ld\t%s\n", x.key.c_str(), x.idx, esc(x.msg).c_str());
    for (auto &x : G_res.failcount) fprintf(f, "FAILN\t%s\t%ld\n", x.first.c_str(), x.second);
    fprintf(f, "COV\t%ld\t%ld\n", covered, total);
    for (auto &r : cov_ranges()) { fprintf(f, "COVMAP\t"); for (char *p = r.first; p < r.second; p++) fputc(*p ? '1' : '0', f); fputc('\n', f); }
    if (!out.empty()) {
        FILE *h = fopen((out + ".hash").c_str(), "wb");
        for (uint64_t x : G_res.distinct) fwrite(&x, 8, 1, h);
        fclose(h);
        fprintf(f, "END\n"); fclose(f);
    } else fprintf(f, "DISTINCT\t%zu\n", G_res.distinct.size());
    fflush(0);
    _exit(0);
}
#endif
#endif
