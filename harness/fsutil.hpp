/* Small file helpers shared by the monitors of the file formats. */
#ifndef VERIF_FSUTIL_HPP
#define VERIF_FSUTIL_HPP
#include "common.hpp"
static inline bool slurp_file(const std::string &fn, std::string &o) {
    FILE *f = fopen(fn.c_str(), "rb"); if (!f) return false; char b[8192]; size_t n; o.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f); return true; }
static inline void spit_file(const std::string &fn, const std::string &s) { FILE *f = fopen(fn.c_str(), "wb"); if (!f) { perror(fn.c_str()); _exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static inline std::vector<std::string> list_dir(const std::string &d) { std::vector<std::string> v; DIR *p = opendir(d.c_str()); if (!p) return v; while (struct dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(p); std::sort(v.begin(), v.end()); return v; }
static inline std::map<std::string, std::string> snap_dir(const std::string &d) { std::map<std::string, std::string> m; for (auto &n : list_dir(d)) { struct stat st; std::string p = d + "/" + n; if (lstat(p.c_str(), &st) || !S_ISREG(st.st_mode)) { m[n] = "?"; continue; } slurp_file(p, m[n]); } return m; }
static inline void clear_dir(const std::string &d) { for (auto &n : list_dir(d)) unlink((d + "/" + n).c_str()); }
static inline int count_fds() { int n = 0; DIR *p = opendir("/proc/self/fd"); if (!p) return -1; while (readdir(p)) n++; closedir(p); return n; }
static inline std::vector<std::string> split_ws(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
static inline double rnd_fmt(double v, const char *fmt) { char b[400]; snprintf(b, sizeof b, fmt, v); return strtod(b, 0); }
/* a private copy on the heap of exactly the string's size */
struct CStr { char *p; explicit CStr(const std::string &s) { p = strdup(s.c_str()); } ~CStr() { free(p); } CStr(const CStr &) = delete; operator char *() { return p; } };

/* random frames ----------------------------------------------------------- */
struct FTarget { int pnr; double x, y; int n, nx, ny, sumg, tnr; };
struct FPart { double x[3]; int p[4], prev, next, prio; };
struct FFrame { std::vector<FPart> parts; std::vector<std::vector<FTarget>> t; };
static inline int rint_any(Rng &r) { return r.p(0.8) ? r.i(-1, 500) : r.p(0.5) ? r.i(-99999, 999999) : r.pick({INT_MAX, INT_MIN, -999, 0, -2, -1, 10000, 99999, 100000, -1000, -10000}); }
static inline double rcoord(Rng &r, double scale) { return r.p(0.8) ? r.u(-scale, scale) : r.p(0.3) ? 0.0 : r.p(0.5) ? r.u(-1e-4, 1e-4) : r.u(-1, 1) * r.pick({1e4, 1e5, 1e6, 1e8, 99999.9999, 1e12}); }
static inline void rand_frame(Rng &r, FFrame &f, int nc, int maxn, bool never_empty = false) {
    f.parts.clear(); f.t.assign(nc, {}); int n = r.p(0.1) ? (never_empty ? 1 : 0) : r.i(1, maxn); n = std::min(n, maxn);
    for (int i = 0; i < n; i++) { FPart q; for (double &v : q.x) v = rcoord(r, 500); for (int &v : q.p) v = rint_any(r); q.prev = rint_any(r); q.next = rint_any(r); q.prio = rint_any(r); f.parts.push_back(q); }
    for (auto &t : f.t) { int m = r.p(0.15) ? 0 : r.i(0, maxn); for (int i = 0; i < m; i++) t.push_back({rint_any(r), rcoord(r, 4000), rcoord(r, 4000), rint_any(r), rint_any(r), rint_any(r), rint_any(r), rint_any(r)}); }
}
#endif
