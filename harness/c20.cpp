/* C20: frame files. Random frames are written by the library, the files are parsed
   independently, and read back by the library; well-formed files in other layouts are
   read; the whole directory is compared before and after each operation. */
#include "fsutil.hpp"
#include "foreign.hpp"
const char *CHECK_RULE = "distinct frames (hash of contents, frame number and choice of files)";
static std::string D;
static std::vector<P> mkP(const FFrame &f) { std::vector<P> v(f.parts.size()); for (size_t i = 0; i < v.size(); i++) { memset((void *)&v[i], 0x3c, sizeof(P)); memcpy(v[i].x, f.parts[i].x, 24); v[i].prev = f.parts[i].prev; v[i].next = f.parts[i].next; v[i].prio = f.parts[i].prio; } return v; }
static std::vector<corres> mkC(const FFrame &f) { std::vector<corres> v(f.parts.size()); for (size_t i = 0; i < v.size(); i++) { v[i].nr = (int)i + 1; memcpy(v[i].p, f.parts[i].p, 16); } return v; }
static std::vector<target> mkT(const std::vector<FTarget> &f) { std::vector<target> v(f.size()); for (size_t i = 0; i < v.size(); i++) { memset(&v[i], 0, sizeof v[i]); v[i].pnr = f[i].pnr; v[i].x = f[i].x; v[i].y = f[i].y; v[i].n = f[i].n; v[i].nx = f[i].nx; v[i].ny = f[i].ny; v[i].sumg = f[i].sumg; v[i].tnr = f[i].tnr; } return v; }
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol + 1e-12 * fabs(b); }
static std::string cmpT(const target *t, int n, const std::vector<FTarget> &m, double tol) {
    if (n != (int)m.size()) return sfmt("%d detections instead of %zu", n, m.size());
    for (int i = 0; i < n; i++) { auto &q = m[i]; const target &a = t[i];
        if (a.pnr != q.pnr || a.n != q.n || a.nx != q.nx || a.ny != q.ny || a.sumg != q.sumg || a.tnr != q.tnr) return sfmt("detection %d of %d: integers %d %d %d %d %d %d instead of %d %d %d %d %d %d", i, n, a.pnr, a.n, a.nx, a.ny, a.sumg, a.tnr, q.pnr, q.n, q.nx, q.ny, q.sumg, q.tnr);
        if (!near(a.x, q.x, tol) || !near(a.y, q.y, tol)) return sfmt("detection %d of %d: (%.8f, %.8f) instead of (%.8f, %.8f)", i, n, a.x, a.y, q.x, q.y); }
    return ""; }
static std::string cmpP(const P *p, const corres *k, int n, const FFrame &m, bool links, bool prio, double tol) {
    if (n != (int)m.parts.size()) return sfmt("%d particles instead of %zu", n, m.parts.size());
    for (int i = 0; i < n; i++) { auto &q = m.parts[i];
        for (int j = 0; j < 3; j++) if (!near(p[i].x[j], q.x[j], tol)) return sfmt("particle %d: coordinate %d is %.8f instead of %.8f", i, j, p[i].x[j], q.x[j]);
        for (int j = 0; j < 4; j++) if (k[i].p[j] != q.p[j]) return sfmt("particle %d: detection in camera %d is %d instead of %d", i, j, k[i].p[j], q.p[j]);
        if (k[i].nr != i + 1) return sfmt("particle %d is numbered %d", i, k[i].nr);
        int pv = links ? q.prev : -1, nx = links ? q.next : -2, pr = prio ? q.prio : 4;
        if (p[i].prev != pv || p[i].next != nx) return sfmt("particle %d: links %d, %d instead of %d, %d", i, p[i].prev, p[i].next, pv, nx);
        if (p[i].prio != pr) return sfmt("particle %d: priority %d instead of %d", i, p[i].prio, pr);
        if (p[i].inlist != 0 || p[i].finaldecis != 1000000.0f) return sfmt("particle %d: candidate list is not empty", i);
        for (int j = 0; j < POSI; j++) if (p[i].decis[j] != 0 || p[i].linkdecis[j] != -999) return sfmt("particle %d: link decision %d is set", i, j); }
    return ""; }
/* independent parse of rows of numbers; the first line holds the count */
static std::string rows(const std::string &fn, size_t want, size_t nf, std::vector<std::vector<double>> &o) {
    std::string s; if (!slurp_file(fn, s)) return "no file " + fn.substr(D.size() + 1);
    std::vector<std::string> lines; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); lines.push_back(s.substr(i, j - i)); i = j + 1; }
    while (lines.size() && split_ws(lines.back()).empty()) lines.pop_back();
    if (lines.empty()) return "empty file";
    auto t = split_ws(lines[0]); if (t.size() != 1 || strtol(t[0].c_str(), 0, 10) != (long)want) return sfmt("count line '%s' for %zu items", lines[0].c_str(), want);
    if (lines.size() != want + 1) return sfmt("%zu lines for %zu items", lines.size(), want);
    o.clear(); for (size_t k = 1; k < lines.size(); k++) { auto q = split_ws(lines[k]); if (q.size() != nf) return sfmt("line %zu has %zu fields", k, q.size()); std::vector<double> v; for (auto &x : q) { char *e; v.push_back(strtod(x.c_str(), &e)); if (*e) return "not a number: " + x; } o.push_back(v); }
    return ""; }
static std::string dirdiff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b, std::set<std::string> allowed) {
    for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) return x.first + " vanished"; if (it->second != x.second && !allowed.count(x.first)) return x.first + " changed"; }
    for (auto &x : b) if (!a.count(x.first) && !allowed.count(x.first)) return x.first + " appeared"; return ""; }
static std::string num(Rng &r, double v) { char b[400]; switch (r.i(0, 4)) { case 0: snprintf(b, sizeof b, "%.17g", v); break; case 1: snprintf(b, sizeof b, "%.16e", v); break; case 2: snprintf(b, sizeof b, "%+.17g", v); break; case 3: snprintf(b, sizeof b, "%25.17E", v); break; default: snprintf(b, sizeof b, "%.17g", v); } return b; }
static std::string sep(Rng &r) { return r.pick({" ", "  ", "\t", "      ", " \t "}); }

void run_case(Case &c) {
    Rng &r = c.r; D = G_scratch + "/files"; mkdir(D.c_str(), 0700); clear_dir(D);
    /* links to /dev/full are made inside the scratch directory only */
    int nc = r.p(0.9) ? r.i(1, 4) : r.i(1, 7); FFrame f; int maxn = r.p(0.004) ? 6000 : r.p(0.03) ? 800 : r.p(0.5) ? 5 : 40; rand_frame(r, f, nc, maxn);
    int fr = r.p(0.5) ? r.i(1, 200) : r.pick({0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 123456, 1000000, INT_MAX, -1, -7}); 
    bool links = r.p(0.7), prio = r.p(0.6); std::string stem = r.pick({"rt_is", "x", "dir.with.dots", "name with space", "rt-1"});
    std::string rt = D + "/" + stem, lk = D + "/ptv_is", pr = D + "/added"; std::vector<std::string> tb; for (int k = 0; k < nc; k++) tb.push_back(D + r.pick({"/cam", "/img.", "/c_"}) + sfmt("%d%s", k + 1, r.pick({".", "_", ".tif."})));
    Hash h; h.i(nc); h.i(fr); h.i(links); h.i(prio); for (auto &q : f.parts) h.b(&q, sizeof q); for (auto &t : f.t) for (auto &q : t) { h.d(q.x); h.d(q.y); h.i(q.pnr); } c.distinct(h.h);
    std::string tn0 = fr > 0 ? sfmt("%s%04d_targets", tb[0].c_str(), fr) : tb[0] + "_targets"; auto base_of = [&](const std::string &p) { return p.substr(D.size() + 1); };
    /* bystanders: files of other frames */
    FFrame o; rand_frame(r, o, 1, 6, true); int fr2 = fr == INT_MAX ? fr - 1 : fr + 1; if (fr2 <= 0) fr2 = 3; bool two = r.p(0.7);
    auto oP = mkP(o); auto oC = mkC(o); auto oT = mkT(o.t[0]);
    if (two) { write_path_frame(oC.data(), oP.data(), (int)oP.size(), CStr(rt), CStr(lk), CStr(pr), fr2); write_targets(oT.data(), (int)oT.size(), CStr(tb[0]), fr2); c.count("neighbouring frames"); }
    for (int q = r.i(0, 2); q > 0; q--) spit_file(D + sfmt("/other%d", q), "keep me\n");
    auto s0 = snap_dir(D);
    /* --- detections */
    { auto t = mkT(f.t[0]), t0 = t; t.shrink_to_fit(); int ok = write_targets(t.data(), (int)t.size(), CStr(tb[0]), fr); c.eval(); if (t.empty()) c.count("empty detection lists");
      if (t.size() && memcmp(t.data(), t0.data(), t.size() * sizeof(target))) c.fail("targets-input", "writing changed the detections");
      if (!ok) { c.fail("targets-write", "writing %zu detections failed", t.size()); return; }
      auto s1 = snap_dir(D); std::string d = dirdiff(s0, s1, {base_of(tn0)}); if (d.size()) c.fail("targets-files", "writing detections of frame %d: %s", fr, d.c_str());
      std::vector<std::vector<double>> v; std::string e = rows(tn0, t.size(), 8, v); if (e.size()) c.fail("targets-format", "frame %d: %s", fr, e.c_str());
      else for (size_t i = 0; i < v.size(); i++) { auto &q = f.t[0][i]; if (v[i][0] != q.pnr || !near(v[i][1], q.x, 5.1e-5) || !near(v[i][2], q.y, 5.1e-5) || v[i][3] != q.n || v[i][4] != q.nx || v[i][5] != q.ny || v[i][6] != q.sumg || v[i][7] != q.tnr) { c.fail("targets-format", "record %zu does not hold the detection", i); break; } }
      target *b = (target *)malloc(t.size() * sizeof(target)); int n = read_targets(b, CStr(tb[0]), fr); e = cmpT(b, n, f.t[0], 5.1e-5); if (e.size()) c.fail("targets-round-trip", "frame %d: %s", fr, e.c_str()); free(b);
      if (snap_dir(D) != s1) c.fail("read-writes", "reading detections changed files"); c.count("detection lists"); s0 = s1;
      if (two) { target *b2 = (target *)malloc(oT.size() * sizeof(target)); n = read_targets(b2, CStr(tb[0]), fr2); e = cmpT(b2, n, o.t[0], 5.1e-5); if (e.size()) c.fail("targets-neighbour", "frame %d after writing frame %d: %s", fr2, fr, e.c_str()); free(b2); } }
    /* --- paths */
    { auto p = mkP(f); auto k = mkC(f); auto p0 = p; auto k0 = k; int n = (int)p.size();
      int ok = write_path_frame(k.data(), p.data(), n, CStr(rt), CStr(lk), prio ? CStr(pr) : NULL, fr); c.eval();
      if (n && (memcmp(p.data(), p0.data(), n * sizeof(P)) || memcmp(k.data(), k0.data(), n * sizeof(corres)))) c.fail("paths-input", "writing changed the particles");
      if (!ok) { c.fail("paths-write", "writing %d particles failed", n); return; }
      std::string frt = sfmt("%s.%d", rt.c_str(), fr), flk = sfmt("%s.%d", lk.c_str(), fr), fpr = sfmt("%s.%d", pr.c_str(), fr);
      auto s1 = snap_dir(D); std::set<std::string> al = {base_of(frt), base_of(flk)}; if (prio) al.insert(base_of(fpr)); 
      if (fr > 0) {
      std::string d = dirdiff(s0, s1, al); if (d.size()) c.fail("paths-files", "writing particles of frame %d: %s", fr, d.c_str());
      std::vector<std::vector<double>> a, b, e; std::string m = rows(frt, n, 8, a); if (m.empty()) m = rows(flk, n, 5, b); if (m.empty() && prio) m = rows(fpr, n, 6, e);
      if (m.size()) c.fail("paths-format", "frame %d: %s", fr, m.c_str());
      else for (int i = 0; i < n; i++) { auto &q = f.parts[i]; bool good = a[i][0] == i + 1 && b[i][0] == q.prev && b[i][1] == q.next; for (int j = 0; j < 3; j++) good = good && near(a[i][1 + j], q.x[j], 5.1e-4) && near(b[i][2 + j], q.x[j], 5.1e-4) && (!prio || near(e[i][2 + j], q.x[j], 5.1e-4)); for (int j = 0; j < 4; j++) good = good && a[i][4 + j] == q.p[j]; if (prio) good = good && e[i][0] == q.prev && e[i][1] == q.next && e[i][5] == q.prio; if (!good) { c.fail("paths-format", "record %d does not hold the particle", i); break; } } }
      P *pb = (P *)malloc(n * sizeof(P)); corres *kb = (corres *)malloc(n * sizeof(corres)); memset((void *)pb, 0x77, n * sizeof(P)); memset(kb, 0x77, n * sizeof(corres));
      bool pr2 = prio && r.p(0.7); int got = read_path_frame(kb, pb, CStr(rt), links ? CStr(lk) : NULL, pr2 ? CStr(pr) : NULL, fr);
      if (n == 0) { c.count("empty frames"); if (got == -1) c.fail("empty-path-frame", "a frame without particles, written as '0', is read back as failure (-1)"); else if (got != 0) c.fail("paths-round-trip", "a frame without particles is read back as %d", got); }
      else { std::string m = cmpP(pb, kb, got, f, links, pr2, 5.1e-4); if (m.size()) c.fail("paths-round-trip", "frame %d (links %d, priorities %d): %s", fr, links, pr2, m.c_str()); }
      free(pb); free(kb); if (snap_dir(D) != s1) c.fail("read-writes", "reading particles changed files"); c.count("particle lists");
      if (two) { int n2 = (int)oP.size(); P *q = (P *)malloc(n2 * sizeof(P)); corres *k2 = (corres *)malloc(n2 * sizeof(corres)); got = read_path_frame(k2, q, CStr(rt), CStr(lk), CStr(pr), fr2); std::string m = cmpP(q, k2, got, o, true, true, 5.1e-4); if (m.size()) c.fail("paths-neighbour", "frame %d after writing frame %d: %s", fr2, fr, m.c_str()); free(q); free(k2); }
      s0 = s1; }
    /* --- whole frames */
    { int cap = std::max((int)f.parts.size(), 1); for (auto &t : f.t) cap = std::max(cap, (int)t.size()); if (r.p(0.5)) cap += r.i(1, 20); int fr3 = fr > 0 && fr < INT_MAX - 7 ? fr + 5 : 44;
      std::vector<char *> tp; for (auto &s : tb) tp.push_back((char *)s.c_str());
      frame a, b; frame_init(&a, nc, cap); frame_init(&b, nc, cap); auto p = mkP(f); auto k = mkC(f); a.num_parts = (int)p.size(); if (p.size()) { memcpy((void *)a.path_info, p.data(), p.size() * sizeof(P)); memcpy(a.correspond, k.data(), k.size() * sizeof(corres)); }
      for (int q = 0; q < nc; q++) { auto t = mkT(f.t[q]); a.num_targets[q] = (int)t.size(); if (t.size()) memcpy(a.targets[q], t.data(), t.size() * sizeof(target)); }
      int ok = write_frame(&a, CStr(rt), CStr(lk), prio ? CStr(pr) : NULL, tp.data(), fr3); c.eval(); if (!ok) c.fail("frame-write", "writing a frame failed");
      auto s1 = snap_dir(D); std::set<std::string> al = {base_of(sfmt("%s.%d", rt.c_str(), fr3)), base_of(sfmt("%s.%d", lk.c_str(), fr3))}; if (prio) al.insert(base_of(sfmt("%s.%d", pr.c_str(), fr3))); for (auto &s : tb) al.insert(base_of(sfmt("%s%04d_targets", s.c_str(), fr3)));
      std::string d = dirdiff(s0, s1, al); if (d.size()) c.fail("frame-files", "writing frame %d: %s", fr3, d.c_str()); for (auto &x : al) if (!s1.count(x)) c.fail("frame-files", "writing frame %d does not make %s", fr3, x.c_str());
      /* into a frame that held another one */
      FFrame g; rand_frame(r, g, nc, cap); b.num_parts = (int)g.parts.size(); for (int q = 0; q < nc; q++) b.num_targets[q] = (int)g.t[q].size(); memset((void *)b.path_info, 0x11, cap * sizeof(P)); memset(b.correspond, 0x22, cap * sizeof(corres));
      ok = read_frame(&b, CStr(rt), links ? CStr(lk) : NULL, prio ? CStr(pr) : NULL, tp.data(), fr3); c.count("whole frames");
      if (f.parts.empty()) { if (!ok || b.num_parts == -1) c.fail("empty-path-frame", "a frame without particles, written as '0', is read back as failure"); else if (b.num_parts != 0) c.fail("frame-round-trip", "%d particles instead of none", b.num_parts); }
      else { if (!ok) c.fail("frame-round-trip", "reading the frame written failed"); else { std::string m = cmpP(b.path_info, b.correspond, b.num_parts, f, links, prio, 5.1e-4); if (m.size()) c.fail("frame-round-trip", "%s", m.c_str()); } }
      for (int q = 0; q < nc; q++) { std::string m = cmpT(b.targets[q], b.num_targets[q], f.t[q], 5.1e-5); if (m.size()) { c.fail("frame-round-trip", "camera %d of %d: %s", q, nc, m.c_str()); break; } }
      if (b.num_cams != nc || b.max_targets != cap) c.fail("frame-shape", "reading changed the shape of the frame");
      if (snap_dir(D) != s1) c.fail("read-writes", "reading a frame changed files"); free_frame(&a); free_frame(&b); }
    /* --- well-formed files of other programs: any spacing and number notation, exact values */
    { std::string bt = D + "/ext", a, l, e, t; size_t n = f.parts.size(); a = l = e = sfmt("%zu%s", n, r.pick({"\n", " \n", "\n\n"})); t = sfmt("%zu\n", f.t[0].size());
      for (size_t i = 0; i < n; i++) { auto &q = f.parts[i]; auto xs = [&] { return num(r, q.x[0]) + sep(r) + num(r, q.x[1]) + sep(r) + num(r, q.x[2]); }; a += sfmt("%zu", i + 1) + sep(r) + xs(); for (int j = 0; j < 4; j++) a += sep(r) + sfmt("%d", q.p[j]); a += "\n"; l += sfmt("%d %d", q.prev, q.next) + sep(r) + xs() + "\n"; e += sfmt("%d %d", q.prev, q.next) + sep(r) + xs() + sep(r) + sfmt("%d", q.prio) + "\n"; }
      for (auto &q : f.t[0]) t += sep(r) + sfmt("%d", q.pnr) + sep(r) + num(r, q.x) + sep(r) + num(r, q.y) + sep(r) + sfmt("%d %d %d", q.n, q.nx, q.ny) + sep(r) + sfmt("%d %d", q.sumg, q.tnr) + "\n";
      if (r.p(0.3)) { for (auto s : {&a, &l, &e, &t}) if (s->size() && (n || s == &t)) s->pop_back(); } /* no newline at the end */
      spit_file(bt + ".12", a); spit_file(bt + "l.12", l); spit_file(bt + "p.12", e); spit_file(bt + "0012_targets", t);
      if (n) { P *pb = (P *)malloc(n * sizeof(P)); corres *kb = (corres *)malloc(n * sizeof(corres)); int got = read_path_frame(kb, pb, CStr(bt), CStr(bt + "l"), CStr(bt + "p"), 12); std::string m = cmpP(pb, kb, got, f, true, true, 0); if (m.size()) c.fail("paths-read", "well-formed files: %s", m.c_str()); free(pb); free(kb); }
      target *b = (target *)malloc(f.t[0].size() * sizeof(target)); int got = read_targets(b, CStr(bt), 12); std::string m = cmpT(b, got, f.t[0], 0); if (m.size()) c.fail("targets-read", "well-formed file: %s", m.c_str()); free(b); c.count("files in other layouts"); c.eval(); }
    if (c.idx < 3) c.sample("%zu particles, %d cameras, frame %d, links %d, priorities %d", f.parts.size(), nc, fr, links, prio);
    clear_dir(D);
}
