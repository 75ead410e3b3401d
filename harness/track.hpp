/* Tracking workloads, parsing of the written files, and a reference model of the tracker. */
#ifndef VERIF_TRACK_HPP
#define VERIF_TRACK_HPP
#include "scene.hpp"

struct MTgt { int pnr; double x, y; int n, nx, ny, sumg, tnr; };
struct MPart { double x[3]; int prev = -1, next = -2, prio = 4; int p[4] = {-1, -1, -1, -1}; bool added = false; float fin = 1e6f; std::vector<std::pair<float, int>> cand; };
struct MFrame { std::vector<MPart> parts; std::vector<MTgt> t[4]; bool real = false; };

struct Traj { int f0; std::vector<V3> x; bool hid = false; /* detected, but not measured */ };
struct TrackOpt {
    bool ideal = false; double add = 0.5; /* probability of adding particles */
    double hidden = 0.1;   /* measured position missing though detections are there */
    double lost = 0.05;    /* no detections at all */
    double blind = 0.05;   /* not seen by one camera */
    double decoy = 0.3;    /* probability of having false detections */
    int minparts = 1, maxparts = 25, minframes = 2, maxframes = 8; double emptyframe = 0.03; int mincams = 2;
    double dense = 0, big = 0; /* probability of a cloud of close particles with wide limits; of a large or a long sequence */
    int maxbig = 150; /* and one in three of those has up to ten times that */
    double fan = 0; /* probability of a particle with as many candidates as there can be, each with as many of its own */
};
struct TrackCase {
    Scene s; track_par tp; int first, last; std::string dir, rt, ptv, added; std::vector<std::string> tn; std::vector<char *> tnp;
    std::vector<MFrame> fr; /* frames first..last as measured */
    std::vector<Traj> traj; int maxcount = 0;
    ~TrackCase() { clean(); }
    void clean() { if (dir.empty()) return; DIR *d = opendir(dir.c_str()); if (!d) return; while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); rmdir(dir.c_str()); }
    std::string tfile(int cam, int f) const { return sfmt("%s%04d_targets", tn[cam].c_str(), f); }
};

static inline void write_targets_file(const std::string &fn, const std::vector<MTgt> &t) {
    FILE *f = fopen(fn.c_str(), "w"); if (!f) return; fprintf(f, "%d\n", (int)t.size());
    for (auto &q : t) fprintf(f, "%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", q.pnr, q.x, q.y, q.n, q.nx, q.ny, q.sumg, q.tnr);
    fclose(f);
}
static inline void write_case_frame(const TrackCase &k, int f) {
    const MFrame &m = k.fr[f - k.first];
    FILE *o = fopen(sfmt("%s.%d", k.rt.c_str(), f).c_str(), "w"); fprintf(o, "%d\n", (int)m.parts.size());
    for (size_t i = 0; i < m.parts.size(); i++) fprintf(o, "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", (int)i + 1, m.parts[i].x[0], m.parts[i].x[1], m.parts[i].x[2], m.parts[i].p[0], m.parts[i].p[1], m.parts[i].p[2], m.parts[i].p[3]);
    fclose(o);
    for (int c = 0; c < k.s.nc; c++) write_targets_file(k.tfile(c, f), m.t[c]);
}
static inline double rnd_to(double v, const char *fmt) { char b[64]; snprintf(b, sizeof b, fmt, v); return strtod(b, 0); }

/* independent parser of what the tracker writes; false if anything is not as documented */
static inline bool parse_frame(const TrackCase &k, int f, MFrame &m, bool with_links, std::string &err, int *declared = 0) {
    m = MFrame();
    auto slurp = [&](const std::string &fn, std::vector<std::vector<double>> &rows, long &n) {
        FILE *g = fopen(fn.c_str(), "r"); if (!g) { err = "no file " + fn; return false; }
        char line[512]; if (!fgets(line, sizeof line, g)) { fclose(g); err = "empty file " + fn; return false; }
        char *e; n = strtol(line, &e, 10); if (e == line || strspn(e, " \n") != strlen(e)) { fclose(g); err = "bad header in " + fn; return false; }
        while (fgets(line, sizeof line, g)) { std::vector<double> row; char *q = line; for (;;) { char *e2; double v = strtod(q, &e2); if (e2 == q) break; row.push_back(v); q = e2; } if (strspn(q, " \n") != strlen(q)) { fclose(g); err = "bad line in " + fn; return false; } if (row.size()) rows.push_back(row); }
        fclose(g); return true; };
    std::vector<std::vector<double>> rt, lk, pr; long n, n2, n3;
    if (!slurp(sfmt("%s.%d", k.rt.c_str(), f), rt, n)) return false;
    if (declared) *declared = (int)n;
    long np = n < 0 ? 0 : n;
    if ((long)rt.size() != np) { err = sfmt("%s.%d has %zu records, %ld declared", k.rt.c_str(), f, rt.size(), n); return false; }
    if (with_links) {
        if (!slurp(sfmt("%s.%d", k.ptv.c_str(), f), lk, n2) || !slurp(sfmt("%s.%d", k.added.c_str(), f), pr, n3)) return false;
        if (n2 != n || n3 != n || lk.size() != rt.size() || pr.size() != rt.size()) { err = sfmt("frame %d: %ld particles, %ld links, %ld priorities", f, n, n2, n3); return false; }
    }
    for (long i = 0; i < np; i++) {
        MPart q; if (rt[i].size() != 8) { err = sfmt("frame %d particle %ld has %zu fields", f, i, rt[i].size()); return false; }
        if (rt[i][0] != i + 1) { err = sfmt("frame %d: particle %ld is numbered %g", f, i, rt[i][0]); return false; }
        for (int j = 0; j < 3; j++) q.x[j] = rt[i][1 + j]; for (int j = 0; j < 4; j++) q.p[j] = (int)rt[i][4 + j];
        if (with_links) {
            if (lk[i].size() != 5 || pr[i].size() != 6) { err = sfmt("frame %d link %ld has %zu and %zu fields", f, i, lk[i].size(), pr[i].size()); return false; }
            q.prev = (int)lk[i][0]; q.next = (int)lk[i][1]; q.prio = (int)pr[i][5];
            if (pr[i][0] != q.prev || pr[i][1] != q.next) { err = sfmt("frame %d particle %ld: link and priority files disagree", f, i); return false; }
            for (int j = 0; j < 3; j++) if (fabs(lk[i][2 + j] - q.x[j]) > 1e-9 || fabs(pr[i][2 + j] - q.x[j]) > 1e-9) { err = sfmt("frame %d particle %ld: files give different positions", f, i); return false; }
        }
        m.parts.push_back(q);
    }
    for (int c = 0; c < k.s.nc; c++) { std::vector<std::vector<double>> t; long nt; if (!slurp(k.tfile(c, f), t, nt)) return false;
        if ((long)t.size() != nt) { err = sfmt("frame %d camera %d: %zu targets, %ld declared", f, c, t.size(), nt); return false; }
        for (auto &r : t) { if (r.size() != 8) { err = sfmt("frame %d camera %d: target with %zu fields", f, c, r.size()); return false; } m.t[c].push_back({(int)r[0], r[1], r[2], (int)r[3], (int)r[4], (int)r[5], (int)r[6], (int)r[7]}); } }
    m.real = true; return true;
}

/* Three frames of particles around c: one; then eight, each of them among the four nearest in just two of the four
   images; then eight of that kind around where each of these eight would go on to. */
static inline void add_fan(Rng &r, TrackCase &k, int f, double *c) {
    Scene &s = k.s; double H = s.half, best = 0; V3 C = v3(c), dir[2] = {{0, 0, 1}, {0, 0, 1}};
    auto dist = [&](V3 u, double *d) { for (int q = 0; q < 4; q++) { vec2d a, b; vec3d x = {C.x, C.y, C.z}, y = {C.x + u.x, C.y + u.y, C.z + u.z}; point_to_pixel(a, x, s.cal[q], &s.cp); point_to_pixel(b, y, s.cal[q], &s.cp); d[q] = hypot(a[0] - b[0], a[1] - b[1]); } };
    static const int PAIR[3][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}}; double bq[3][2] = {{0}}; V3 bu[3][2];
    for (int t = 0; t < 3000; t++) { V3 u = unit({r.n(), r.n(), r.n()}); double d[4]; dist(u * (0.05 * H), d); for (int p = 0; p < 3; p++) for (int g = 0; g < 2; g++) { const int *P = PAIR[p]; double in = std::max(d[P[2 * g]], d[P[2 * g + 1]]), out = std::min(d[P[2 - 2 * g]], d[P[3 - 2 * g]]), q = out / std::max(in, 1e-9); if (q > bq[p][g]) { bq[p][g] = q; double l = out / (0.05 * H); bu[p][g] = u * (1 / l); } } }
    for (int p = 0; p < 3; p++) { double q = std::min(bq[p][0], bq[p][1]); if (q > best) { best = q; dir[0] = bu[p][0]; dir[1] = bu[p][1]; } }
    double l0 = ::len(dir[0]), l1 = ::len(dir[1]), h = H * r.u(0.04, 0.1) / std::max(l0, l1), spread = std::min(2.0, 1 + (best - 1) * 0.6), S[4] = {-spread, -1, 1, spread}; std::vector<V3> D;
    for (double m : S) for (int g = 0; g < 2; g++) D.push_back(dir[g] * (m * h * r.u(0.99, 1.01)));
    auto put = [&](int ff, V3 x) { Traj t; t.f0 = ff; t.x.push_back(x); k.traj.push_back(t); };
    double e = r.u(0.01, 0.03); bool more = r.p(0.6); put(f, C); for (auto &d : D) { put(f + 1, C + d); if (more) { put(f + 2, C + d * 2.0); k.traj.back().hid = true; } for (auto &d2 : D) put(f + 2, C + d * 2.0 + d2 * e); }
}
static inline void make_track(Rng &r, TrackCase &k, const TrackOpt &opt) {
    TrackOpt o = opt; bool fan = o.fan > 0 && r.p(o.fan); if (fan) { o.mincams = 4; o.minframes = std::max(3, o.minframes); o.maxframes = std::max(5, o.maxframes); o.maxparts = std::min(4, o.maxparts); o.hidden = o.lost = o.blind = o.emptyframe = 0; o.dense = o.big = 0; }
    SceneOpt so; so.mincams = o.mincams; so.maxcams = 4; so.distortion = r.p(0.5) ? 1.0 : 0; so.half = 20; so.air = r.p(0.2);
    make_scene(r, k.s, so); Scene &s = k.s; double H = s.half;
    memset(&k.tp, 0, sizeof k.tp);
    double L[3]; double base = H * r.u(0.04, o.ideal ? 0.12 : 0.25); for (double &l : L) l = r.p(0.6) ? base : base * r.u(0.5, 1.5);
    double lo[3], hi[3]; for (int j = 0; j < 3; j++) { lo[j] = r.p(0.6) ? -L[j] : -L[j] * r.u(0.5, 1.5); hi[j] = r.p(0.6) ? L[j] : L[j] * r.u(0.5, 1.5); if (!o.ideal && r.p(0.05)) { lo[j] = L[j] * 0.1; hi[j] = L[j] * 1.5; } }
    bool dense = o.dense > 0 && r.p(o.dense), big = o.big > 0 && r.p(o.big), longrun = big && r.p(0.5);
    if (dense) { base = H * r.u(0.2, 0.6); for (int j = 0; j < 3; j++) { lo[j] = -H * r.u(0.25, 0.9); hi[j] = H * r.u(0.25, 0.9); } }
    k.tp.dvxmin = lo[0]; k.tp.dvxmax = hi[0]; k.tp.dvymin = lo[1]; k.tp.dvymax = hi[1]; k.tp.dvzmin = lo[2]; k.tp.dvzmax = hi[2];
    k.tp.dacc = base * (o.ideal ? r.u(0.3, 1.0) : r.u(0.1, 2.0)); k.tp.dangle = r.pick({20.0, 60.0, 100.0, 200.0, r.u(5, 220)}); k.tp.add = r.p(o.add); if (dense && r.p(0.7)) { k.tp.dacc = 2 * H; k.tp.dangle = 201; }
    int nf = longrun ? r.i(9, 25) : r.i(o.minframes, dense ? std::max(o.minframes, 5) : o.maxframes); k.first = r.pick({1, 5, 97, 998, 10001, r.i(1, 20000)}); k.last = k.first + nf - 1;
    bool huge = big && !longrun && r.p(0.35); if (huge) { nf = std::min(nf, 5); k.last = k.first + nf - 1; }
    int np = huge ? r.i(o.maxbig, 10 * o.maxbig) : big && !longrun ? r.i(o.maxparts, o.maxbig) : dense ? r.i(10, 60) : r.i(o.minparts, o.maxparts);
    if (fan) { double w = r.u(0.6, 1.2) * H; k.tp.dvxmin = k.tp.dvymin = k.tp.dvzmin = -w; k.tp.dvxmax = k.tp.dvymax = k.tp.dvzmax = w; k.tp.dacc = 3 * H; k.tp.dangle = 201; double c[3]; rand_point(r, s, c); toward(s, c, 0.2); add_fan(r, k, r.i(0, nf - 3), c); np += (int)k.traj.size(); }
    /* trajectories */
    double amag = k.tp.dacc * (o.ideal ? 0.02 : r.pick({0.0, 0.05, 0.3, 0.9}));
    double sep = 2 * k.tp.dacc + 6 * base;
    for (int q = (int)k.traj.size(), tries = 0; q < np && tries < 400 + 4 * np; tries++) {
        Traj t; t.f0 = r.p(0.8) ? 0 : r.i(0, nf - 1); int len = r.p(0.8) ? nf - t.f0 : r.i(1, nf - t.f0);
        double x[3]; rand_point(r, s, x); if (dense) toward(s, x, 0.4); if (!o.ideal && k.traj.size() && r.p(0.25)) { auto &u = k.traj[r.i(0, (int)k.traj.size() - 1)]; x[0] = u.x[0].x + r.n() * base * 0.7; x[1] = u.x[0].y + r.n() * base * 0.7; x[2] = u.x[0].z + r.n() * base * 0.7; }
        double v[3]; for (int j = 0; j < 3; j++) { double m = 0.5 * (lo[j] + hi[j]), w = 0.5 * (hi[j] - lo[j]); v[j] = o.ideal ? m * 0 + std::min(-lo[j], hi[j]) * r.u(-0.85, 0.85) : m + w * r.u(-1.05, 1.05) * (dense ? 0.2 : r.pick({1.0, 0.6, 0.2})); if (r.p(0.05)) v[j] = 0; }
        if (r.p(0.04)) v[0] = v[1] = v[2] = 0;
        for (int f = 0; f < len; f++) { t.x.push_back({x[0], x[1], x[2]}); for (int j = 0; j < 3; j++) { x[j] += v[j]; double a = amag * r.u(-1, 1) / 1.8; v[j] += a; if (o.ideal) v[j] = std::max(0.9 * lo[j], std::min(0.9 * hi[j], v[j])); } }
        bool ok = true;
        for (auto &p : t.x) if (fabs(p.x - s.off.x) > 1.3 * H || fabs(p.y - s.off.y) > 1.3 * H || fabs(p.z - s.off.z) > 1.3 * H) ok = false;
        if (o.ideal && ok) for (auto &u : k.traj) { for (auto &a : u.x) for (auto &b : t.x) if (::len(a - b) < sep) { ok = false; break; } if (!ok) break; }
        if (!ok) continue;
        k.traj.push_back(t); q++;
    }
    /* frames */
    double pn = o.ideal || fan ? 0 : r.pick({0.0, 0.05, 0.4}), xn = o.ideal || fan ? 0 : r.pick({0.0, base * 0.02});
    k.fr.assign(nf, MFrame());
    for (int f = 0; f < nf; f++) {
        MFrame &m = k.fr[f]; m.real = true; bool none = r.p(o.emptyframe);
        std::vector<int> who; for (int q = 0; q < (int)k.traj.size(); q++) if (f >= k.traj[q].f0 && f < k.traj[q].f0 + (int)k.traj[q].x.size()) who.push_back(q);
        r.shuffle(who); if (none) who.clear();
        std::vector<std::array<int, 4>> tid; 
        for (int q : who) {
            V3 t = k.traj[q].x[f - k.traj[q].f0]; vec3d x = {t.x, t.y, t.z};
            if (r.p(o.lost)) continue;
            bool hide = r.p(o.hidden) || k.traj[q].hid; int seen = 0; double px[4][2]; bool vis[4];
            for (int c = 0; c < s.nc; c++) { vec2d v; point_to_pixel(v, x, s.cal[c], &s.cp); v[0] += pn * r.n(); v[1] += pn * r.n(); vis[c] = v[0] > 0 && v[1] > 0 && v[0] < s.cp.imx && v[1] < s.cp.imy && !r.p(o.blind); px[c][0] = v[0]; px[c][1] = v[1]; seen += vis[c]; }
            int id = -1;
            if (!hide && seen >= std::min(2, s.nc)) { MPart q2; q2.x[0] = rnd_to(t.x + xn * r.n(), "%9.3f"); q2.x[1] = rnd_to(t.y + xn * r.n(), "%9.3f"); q2.x[2] = rnd_to(t.z + xn * r.n(), "%9.3f"); id = (int)m.parts.size(); m.parts.push_back(q2); }
            for (int c = 0; c < s.nc; c++) if (vis[c]) m.t[c].push_back({0, rnd_to(px[c][0], "%9.4f"), rnd_to(px[c][1], "%9.4f"), r.i(1, 60), r.i(1, 9), r.i(1, 9), r.i(10, 9000), id});
        }
        if (r.p(o.decoy)) for (int c = 0; c < s.nc; c++) for (int q = r.i(0, 8); q > 0; q--) m.t[c].push_back({0, rnd_to(r.u(0, s.cp.imx), "%9.4f"), rnd_to(r.u(0, s.cp.imy), "%9.4f"), 5, 2, 2, 100, -1});
        for (int c = 0; c < s.nc; c++) { std::stable_sort(m.t[c].begin(), m.t[c].end(), [](const MTgt &a, const MTgt &b) { return a.y < b.y; }); for (int q = 0; q < (int)m.t[c].size(); q++) { m.t[c][q].pnr = q; if (m.t[c][q].tnr >= 0) m.parts[m.t[c][q].tnr].p[c] = q; } k.maxcount = std::max(k.maxcount, (int)m.t[c].size()); }
        k.maxcount = std::max(k.maxcount, (int)m.parts.size());
    }
}
static inline void store_track(TrackCase &k, const char *dir) {
    k.dir = dir; mkdir(dir, 0700); k.rt = k.dir + "/rt_is"; k.ptv = k.dir + "/ptv_is"; k.added = k.dir + "/added"; k.tn.clear(); k.tnp.clear();
    for (int c = 0; c < 4; c++) k.tn.push_back(sfmt("%s/cam%d.", dir, c + 1)); for (int c = 0; c < 4; c++) k.tnp.push_back((char *)k.tn[c].c_str());
    for (int f = k.first; f <= k.last; f++) write_case_frame(k, f);
}
struct LibRun {
    sequence_par sp; tracking_run *tr = 0; TrackCase &k; track_par tp;
    LibRun(TrackCase &kk, int maxt) : k(kk), tp(kk.tp) { memset(&sp, 0, sizeof sp); sp.num_cams = k.s.nc; sp.first = k.first; sp.last = k.last; sp.img_base_name = k.tnp.data();
        tr = tr_new(&sp, &tp, &k.s.vp, &k.s.cp, 4, maxt, (char *)k.rt.c_str(), (char *)k.ptv.c_str(), (char *)k.added.c_str(), k.s.cal.data(), 1e-4); }
    ~LibRun() { if (tr) { fb_free(tr->fb); free(tr->fb); free(tr); } }
    void forward(std::function<void(int)> after = nullptr) { track_forward_start(tr); for (int st = k.first; st < k.last; st++) { trackcorr_c_loop(tr, st); if (after) after(st); } trackcorr_c_finish(tr, k.last); }
};

/* ------------------------------------------------ reference model of the tracker */
struct Model {
    TrackCase &k; double margin = 1e300; double ext[6]; double lmax; int links = 0, nparts = 0, additions = 0, maxparts, most = 0; std::string why;
    Model(TrackCase &kk, int maxp) : k(kk), maxparts(maxp) {
        track_par &t = k.tp; lmax = sqrt((t.dvxmin - t.dvxmax) * (t.dvxmin - t.dvxmax) + (t.dvymin - t.dvymax) * (t.dvymin - t.dvymax) + (t.dvzmin - t.dvzmax) * (t.dvzmin - t.dvzmax));
        ext[0] = k.s.vp.X_lay[0]; ext[1] = k.s.vp.X_lay[1]; ext[2] = 1e20; ext[3] = -1e20; ext[4] = ext[5] = 0;
        volumedimension(&ext[1], &ext[0], &ext[3], &ext[2], &ext[5], &ext[4], &k.s.vp, &k.s.cp, k.s.cal.data());
    }
    void mg(double d) { d = fabs(d); if (d < margin) margin = d; }
    void px(V3 p, int c, double *v) { vec3d x = {p.x, p.y, p.z}; vec2d o; point_to_pixel(o, x, k.s.cal[c], &k.s.cp); v[0] = o[0]; v[1] = o[1]; }
    struct Win { double l, r, u, d; };
    Win window(V3 x, int c) {
        double cen[2]; px(x, c, cen); double W = k.s.cp.imx, Hh = k.s.cp.imy; double l = W, r = 0, u = Hh, d = 0;
        for (int q = 0; q < 8; q++) { double v[2]; px({x.x + (q & 1 ? k.tp.dvxmax : k.tp.dvxmin), x.y + (q & 2 ? k.tp.dvymax : k.tp.dvymin), x.z + (q & 4 ? k.tp.dvzmax : k.tp.dvzmin)}, c, v); l = std::min(l, v[0]); r = std::max(r, v[0]); u = std::min(u, v[1]); d = std::max(d, v[1]); }
        l = std::max(l, 0.0); u = std::max(u, 0.0); r = std::min(r, W); d = std::min(d, Hh);
        return {cen[0] - l, r - cen[0], cen[1] - u, d - cen[1]};
    }
    std::vector<int> nearest(const std::vector<MTgt> &t, double cx, double cy, Win w, bool unused, int n) {
        double W = k.s.cp.imx, Hh = k.s.cp.imy; mg(cx); mg(cy); mg(cx - W); mg(cy - Hh); std::vector<int> out; if (!(cx >= 0 && cx <= W && cy >= 0 && cy <= Hh)) return out;
        double x0 = std::max(cx - w.l, 0.0), x1 = std::min(cx + w.r, W), y0 = std::max(cy - w.u, 0.0), y1 = std::min(cy + w.d, Hh);
        std::vector<std::pair<double, int>> v;
        for (int j = 0; j < (int)t.size(); j++) { if ((t[j].tnr == -1) != unused) continue; mg(t[j].x - x0); mg(t[j].x - x1); mg(t[j].y - y0); mg(t[j].y - y1); if (t[j].x > x0 && t[j].x < x1 && t[j].y > y0 && t[j].y < y1) v.push_back({hypot(cx - t[j].x, cy - t[j].y), j}); }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (int i = 1; i < (int)v.size() && i <= n; i++) mg(v[i].first - v[i - 1].first);
        for (int i = 0; i < (int)v.size() && i < n; i++) out.push_back(v[i].second); return out;
    }
    struct Cand { int id, freq; };
    std::vector<Cand> cands(V3 cen, double c2[][2], const MFrame &f) {
        std::vector<Cand> all; for (int c = 0; c < k.s.nc; c++) { std::set<int> mine; for (int j : nearest(f.t[c], c2[c][0], c2[c][1], window(cen, c), false, 4)) { int id = f.t[c][j].tnr; bool had = false; for (auto &a : all) if (a.id == id) { had = true; if (!mine.count(id)) a.freq++; } if (!had) all.push_back({id, 1}); mine.insert(id); } }
        std::stable_sort(all.begin(), all.end(), [](const Cand &a, const Cand &b) { return a.freq > b.freq; });
        std::vector<Cand> out; for (auto &a : all) if (a.freq >= 2 || (&a == &all[0])) out.push_back(a); return out;
    }
    bool inb(V3 d) { double v[3] = {d.x, d.y, d.z}, lo[3] = {k.tp.dvxmin, k.tp.dvymin, k.tp.dvzmin}, hi[3] = {k.tp.dvxmax, k.tp.dvymax, k.tp.dvzmax}; bool ok = true; for (int j = 0; j < 3; j++) { mg(v[j] - lo[j]); mg(v[j] - hi[j]); if (!(lo[j] < v[j] && v[j] < hi[j])) ok = false; } return ok; }
    void angacc(V3 s, V3 p, V3 q, double &ang, double &acc) { V3 a = p - s, b = q - s; acc = len(a - b); double la = len(a), lb = len(b); if (la == 0 || lb == 0) { ang = 0; return; } double c = dot(a, b) / (la * lb); ang = 200 / M_PI * acos(std::max(-1.0, std::min(1.0, c))); }
    bool pass(double acc, double ang) { mg(acc - k.tp.dacc); mg((ang - k.tp.dangle) * 1e-4); mg(acc - k.tp.dacc / 10); return (acc < k.tp.dacc && ang < k.tp.dangle) || acc < k.tp.dacc / 10; }
    int assess(V3 x, const MFrame &f, int idx[4], V3 &pos) {
        double v2[4][2]; for (int c = 0; c < 4; c++) { idx[c] = -1; v2[c][0] = v2[c][1] = COORD_UNUSED; } int n = 0;
        for (int c = 0; c < k.s.nc; c++) { double cen[2]; px(x, c, cen); auto w = nearest(f.t[c], cen[0], cen[1], {3, 3, 3, 3}, true, 1); if (w.size()) { idx[c] = w[0]; double X, Y; pixel_to_metric(&X, &Y, f.t[c][w[0]].x, f.t[c][w[0]].y, &k.s.cp); dist_to_flat(X, Y, k.s.cal[c], &X, &Y, 1e-4); v2[c][0] = X; v2[c][1] = Y; n++; } }
        if (n >= 2) { vec3d p; point_position((vec2d *)v2, k.s.nc, &k.s.mm, k.s.cal.data(), p); pos = v3(p); }
        return n;
    }
    bool involume(V3 p) { for (int j = 0; j < 3; j++) { double v = j == 0 ? p.x : j == 1 ? p.y : p.z; mg(v - ext[2 * j]); mg(v - ext[2 * j + 1]); } return p.x > ext[0] && p.x < ext[1] && p.y > ext[2] && p.y < ext[3] && p.z > ext[4] && p.z < ext[5]; }
    bool add(MFrame &f, V3 pos, const int idx[4]) { if ((int)f.parts.size() >= maxparts) return false; MPart q; q.x[0] = pos.x; q.x[1] = pos.y; q.x[2] = pos.z; q.prio = 2; q.added = true; int id = (int)f.parts.size(); for (int c = 0; c < k.s.nc; c++) if (idx[c] >= 0) { f.t[c][idx[c]].tnr = id; q.p[c] = idx[c]; } f.parts.push_back(q); additions++; return true; }
    static V3 at(const MPart &p) { return v3(p.x); }
    double cost(double dl, double acc, double ang, double q) { return (dl / lmax + acc / k.tp.dacc + ang / k.tp.dangle) / q; }
    static void order(MPart &p, Model &m) { std::stable_sort(p.cand.begin(), p.cand.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (size_t i = 1; i < p.cand.size(); i++) if (p.cand[i].second != p.cand[0].second) { m.mg((p.cand[i].first - p.cand[0].first) / std::max(1e-6f, fabsf(p.cand[i].first)) * 1e-3); break; } }
    /* one step forward: links b[1] to b[2], looking into b[3] */
    void forward(MFrame &f0, MFrame &f1, MFrame &f2, MFrame &f3) {
        size_t orig = f1.parts.size(); nparts += (int)orig;
        for (size_t h = 0; h < orig; h++) {
            MPart &P = f1.parts[h]; P.cand.clear(); V3 X0{}, X1 = at(P), X2; double c2[4][2];
            bool hist = P.prev >= 0;
            if (hist) { X0 = at(f0.parts[P.prev]); X2 = X1 * 2 - X0; for (int c = 0; c < k.s.nc; c++) px(X2, c, c2[c]); }
            else { X2 = X1; for (int c = 0; c < k.s.nc; c++) if (P.p[c] < 0) px(X2, c, c2[c]); else { c2[c][0] = f1.t[c][P.p[c]].x; c2[c][1] = f1.t[c][P.p[c]].y; } }
            auto w = cands(X2, c2, f2); if (w.empty()) continue;
            for (auto &cw : w) {
                V3 X3 = at(f2.parts[cw.id]), X5; 
                if (hist) X5 = (X3 * 5.0 - X1 * 4.0 + X0) * 0.5; else X5 = X3 * 2 - X1;
                double d2[4][2]; for (int c = 0; c < k.s.nc; c++) px(X5, c, d2[c]);
                for (auto &cn : cands(X5, d2, f3)) {
                    V3 X4 = at(f3.parts[cn.id]); if (!inb(X4 - X3)) continue;
                    double a1, g1, a0, g0; angacc(X3, X4, X5, g1, a1); if (hist) angacc(X1, X2, X3, g0, a0); else { a0 = a1; g0 = g1; }
                    double acc = (a0 + a1) / 2, ang = (g0 + g1) / 2; if (pass(acc, ang)) P.cand.push_back({(float)cost((len(X1 - X3) + len(X4 - X3)) / 2, acc, ang, cn.freq + cw.freq), cw.id});
                }
                int idx[4]; V3 X4; int q = assess(X5, f3, idx, X4);
                if (q >= 2) { bool iv = involume(X4); if (iv && inb(X4 - X3)) { double acc, ang; angacc(X3, X4, X5, ang, acc); if (pass(acc, ang)) { P.cand.push_back({(float)cost((len(X1 - X3) + len(X4 - X3)) / 2, acc, ang, q + cw.freq), cw.id}); if (k.tp.add) add(f3, X4, idx); } } }
                if (P.cand.empty() && hist && inb(X3 - X1)) { double acc, ang; angacc(X1, X2, X3, ang, acc); if (pass(acc, ang)) P.cand.push_back({(float)cost((len(X1 - X3) + len(X0 - X1)) / 2, acc, ang, cw.freq), cw.id}); }
            }
            if (k.tp.add && P.cand.empty() && hist) { int idx[4]; V3 X3; int q = assess(X2, f2, idx, X3);
                if (q >= 2 && involume(X3) && inb(X3 - X1)) { double acc, ang; angacc(X1, X2, X3, ang, acc); if (pass(acc, ang) && add(f2, X3, idx)) P.cand.push_back({(float)cost((len(X1 - X3) + len(X0 - X1)) / 2, acc, ang, q), (int)f2.parts.size() - 1}); } }
        }
        for (auto &P : f1.parts) if (P.cand.size()) { most = std::max(most, (int)P.cand.size()); order(P, *this); P.fin = P.cand[0].first; P.next = P.cand[0].second; }
        for (size_t h = 0; h < f1.parts.size(); h++) { MPart &P = f1.parts[h]; if (P.cand.size()) { MPart &R = f2.parts[P.next];
            if (R.prev == -1) R.prev = (int)h;
            else { MPart &Q = f1.parts[R.prev]; mg((Q.fin - P.fin) / std::max(1e-6f, fabsf(P.fin)) * 1e-3); if (Q.fin > P.fin) { Q.next = -2; R.prev = (int)h; } else P.next = -2; } }
            if (P.next != -2) links++; }
    }
    /* one step backward: f1 is the frame `step`, f0 the later one, f2 the earlier one, f3 before that */
    void backward(MFrame &f0, MFrame &f1, MFrame &f2, MFrame &f3) {
        for (auto &P : f1.parts) {
            if (P.next < 0 || P.prev != -1) continue;
            P.cand.clear(); V3 X0 = at(f0.parts[P.next]), X1 = at(P), X2 = X1 * 2 - X0; double c2[4][2]; for (int c = 0; c < k.s.nc; c++) px(X2, c, c2[c]);
            for (auto &cw : cands(X2, c2, f2)) { V3 X3 = at(f2.parts[cw.id]); if (!inb(X1 - X3)) continue; double acc, ang; angacc(X1, X2, X3, ang, acc); if (pass(acc, ang)) P.cand.push_back({(float)cost((len(X1 - X3) + len(X0 - X1)) / 2, acc, ang, cw.freq), cw.id}); }
            if (k.tp.add && P.cand.empty()) { int idx[4]; V3 X3; int q = assess(X2, f2, idx, X3); if (q >= 2 && involume(X3) && inb(X1 - X3)) { double acc, ang; angacc(X1, X2, X3, ang, acc); if (pass(acc, ang) && add(f2, X3, idx)) P.cand.push_back({(float)cost((len(X1 - X3) + len(X0 - X1)) / 2, acc, ang, q), (int)f2.parts.size() - 1}); } }
        }
        for (auto &P : f1.parts) if (P.cand.size()) order(P, *this);
        for (size_t h = 0; h < f1.parts.size(); h++) { MPart &P = f1.parts[h]; if (P.cand.size()) { MPart &R = f2.parts[P.cand[0].second];
            if (R.next == -2) { bool ok = true; if (R.prev != -1) { V3 X0 = at(f0.parts[P.next]), X1 = at(P), X3 = at(R), X4 = R.prev < (int)f3.parts.size() ? at(f3.parts[R.prev]) : V3{0, 0, 0}, X5 = (X3 * 5.0 - X1 * 4.0 + X0) * 0.5; double acc, ang; angacc(X3, X4, X5, ang, acc); ok = pass(acc, ang); }
                if (ok) { P.prev = P.cand[0].second; R.next = (int)h; } } }
            if (P.prev != -1) links++; }
    }
};
static inline void round_frame(MFrame &f) { for (auto &p : f.parts) for (double &x : p.x) x = rnd_to(x, "%9.3f"); }
/* Runs the model over the sequence. stale: at the last step the tracker still sees the frame three before the last
   one where there is no frame to look ahead to; otherwise it looks into an empty frame. */
static inline void model_forward(Model &m, std::vector<MFrame> &M, bool stale) {
    int n = (int)M.size(); MFrame empty;
    for (int s = 0; s + 1 < n; s++) {
        MFrame none, old; if (stale && s + 2 >= n && s >= 2) old = M[s - 2];
        m.forward(s > 0 ? M[s - 1] : none, M[s], M[s + 1], s + 2 < n ? M[s + 2] : old);
    }
    for (auto &f : M) round_frame(f);
}
static inline void model_backward(Model &m, std::vector<MFrame> &M) {
    int n = (int)M.size(); for (int s = n - 2; s >= 1; s--) { MFrame none; m.backward(M[s + 1], M[s], M[s - 1], s >= 2 ? M[s - 2] : none); }
    for (auto &f : M) round_frame(f);
}
/* "" when equal */
static inline std::string diff_frames(const std::vector<MFrame> &A, const std::vector<MFrame> &B, int first, bool prio) {
    for (size_t f = 0; f < A.size(); f++) {
        if (A[f].parts.size() != B[f].parts.size()) return sfmt("frame %zu: %zu particles, reference has %zu", f + first, A[f].parts.size(), B[f].parts.size());
        for (size_t i = 0; i < A[f].parts.size(); i++) { const MPart &a = A[f].parts[i], &b = B[f].parts[i];
            if (a.prev != b.prev || a.next != b.next) return sfmt("frame %zu particle %zu at (%.3f,%.3f,%.3f): previous %d next %d, reference has %d and %d", f + first, i, a.x[0], a.x[1], a.x[2], a.prev, a.next, b.prev, b.next);
            for (int j = 0; j < 3; j++) if (!(fabs(a.x[j] - b.x[j]) < 2.1e-3)) return sfmt("frame %zu particle %zu: coordinate %d is %.3f, reference has %.3f", f + first, i, j, a.x[j], b.x[j]);
            for (int j = 0; j < 4; j++) if (a.p[j] != b.p[j]) return sfmt("frame %zu particle %zu camera %d: detection %d, reference has %d", f + first, i, j, a.p[j], b.p[j]);
            if (prio && a.prio != b.prio) return sfmt("frame %zu particle %zu: priority %d, reference has %d", f + first, i, a.prio, b.prio); }
        for (int c = 0; c < 4; c++) { if (A[f].t[c].size() != B[f].t[c].size()) return sfmt("frame %zu camera %d: %zu detections, reference has %zu", f + first, c, A[f].t[c].size(), B[f].t[c].size());
            for (size_t i = 0; i < A[f].t[c].size(); i++) if (A[f].t[c][i].tnr != B[f].t[c][i].tnr) return sfmt("frame %zu camera %d detection %zu marked with particle %d, reference has %d", f + first, c, i, A[f].t[c][i].tnr, B[f].t[c][i].tnr); }
    }
    return "";
}
static inline bool parse_all(const TrackCase &k, std::vector<MFrame> &W, bool links, std::string &err) {
    W.assign(k.last - k.first + 1, MFrame()); for (int f = k.first; f <= k.last; f++) { int d; if (!parse_frame(k, f, W[f - k.first], links, err, &d)) return false; if (d < -1) { err = sfmt("frame %d declares %d particles", f, d); return false; } }
    return true;
}
/* every link has its counterpart, every reference exists and is mutual; what the sequence held is still there */
static inline std::string check_links(const TrackCase &k, const std::vector<MFrame> &W, long *links = 0, long *added = 0) {
    int n = (int)W.size();
    for (int f = 0; f < n; f++) {
        const MFrame &m = W[f];
        for (int i = 0; i < (int)m.parts.size(); i++) { const MPart &p = m.parts[i];
            if (p.next >= 0) { if (f + 1 >= n) return sfmt("frame %d particle %d is linked past the end of the sequence", f + k.first, i); if (p.next >= (int)W[f + 1].parts.size()) return sfmt("frame %d particle %d is linked to particle %d of %zu", f + k.first, i, p.next, W[f + 1].parts.size()); if (W[f + 1].parts[p.next].prev != i) return sfmt("frame %d particle %d is linked to %d, which is linked back to %d", f + k.first, i, p.next, W[f + 1].parts[p.next].prev); if (links) ++*links; }
            else if (p.next != -2) return sfmt("frame %d particle %d has next %d", f + k.first, i, p.next);
            if (p.prev >= 0) { if (f == 0) return sfmt("particle %d of the first frame is linked back to %d", i, p.prev); if (p.prev >= (int)W[f - 1].parts.size()) return sfmt("frame %d particle %d is linked back to particle %d of %zu", f + k.first, i, p.prev, W[f - 1].parts.size()); if (W[f - 1].parts[p.prev].next != i) return sfmt("frame %d particle %d is linked back to %d, which is linked to %d", f + k.first, i, p.prev, W[f - 1].parts[p.prev].next); }
            else if (p.prev != -1) return sfmt("frame %d particle %d has prev %d", f + k.first, i, p.prev);
            for (int c = 0; c < 4; c++) { if (p.p[c] == -1) continue; if (c >= k.s.nc || p.p[c] < 0 || p.p[c] >= (int)m.t[c].size()) return sfmt("frame %d particle %d refers to detection %d of camera %d", f + k.first, i, p.p[c], c); if (m.t[c][p.p[c]].tnr != i) return sfmt("frame %d particle %d refers to detection %d of camera %d, which is marked with particle %d", f + k.first, i, p.p[c], c, m.t[c][p.p[c]].tnr); } }
        for (int c = 0; c < k.s.nc; c++) for (int j = 0; j < (int)m.t[c].size(); j++) { int t = m.t[c][j].tnr; if (t == -1) continue; if (t < 0 || t >= (int)m.parts.size()) return sfmt("frame %d camera %d detection %d is marked with particle %d of %zu", f + k.first, c, j, t, m.parts.size()); if (m.parts[t].p[c] != j) return sfmt("frame %d camera %d detection %d is marked with particle %d, which refers to %d", f + k.first, c, j, t, m.parts[t].p[c]); }
        /* measured particles and detections */
        const MFrame &o = k.fr[f];
        if (m.parts.size() < o.parts.size()) return sfmt("frame %d: %zu measured particles, %zu after tracking", f + k.first, o.parts.size(), m.parts.size());
        if (added) *added += (long)(m.parts.size() - o.parts.size());
        for (size_t i = 0; i < o.parts.size(); i++) { for (int j = 0; j < 3; j++) if (fabs(o.parts[i].x[j] - m.parts[i].x[j]) > 1.01e-3) return sfmt("frame %d particle %zu moved from %.3f to %.3f in coordinate %d", f + k.first, i, o.parts[i].x[j], m.parts[i].x[j], j); for (int c = 0; c < 4; c++) if (o.parts[i].p[c] != m.parts[i].p[c]) return sfmt("frame %d particle %zu camera %d: detection %d became %d", f + k.first, i, c, o.parts[i].p[c], m.parts[i].p[c]); }
        for (int c = 0; c < k.s.nc; c++) { if (o.t[c].size() != m.t[c].size()) return sfmt("frame %d camera %d: %zu detections became %zu", f + k.first, c, o.t[c].size(), m.t[c].size());
            for (size_t j = 0; j < o.t[c].size(); j++) { const MTgt &a = o.t[c][j], &b = m.t[c][j]; if (a.pnr != b.pnr || fabs(a.x - b.x) > 1.01e-4 || fabs(a.y - b.y) > 1.01e-4 || a.n != b.n || a.nx != b.nx || a.ny != b.ny || a.sumg != b.sumg) return sfmt("frame %d camera %d detection %zu changed", f + k.first, c, j); } }
    }
    return "";
}
static inline uint64_t hash_frames(const TrackCase &k, const std::vector<MFrame> &W) { Hash h; h.i(k.s.nc); for (auto &f : W) { h.i((long)f.parts.size()); for (auto &p : f.parts) { h.i(p.prev); h.i(p.next); h.d(p.x[0]); } } return h.h; }
#endif
