/* Stages of the whole chain, each deterministic in its seed, each reducing everything it computed to a digest.
   Shared by the monitors of C28 (sanitizers, capacities) and C29 (repeatability, initialised results, inputs unchanged). */
#ifndef VERIF_CHAIN_HPP
#define VERIF_CHAIN_HPP
#include "detect.hpp"
#include "images.hpp"
#include "calib.hpp"
#include "track.hpp"
#include "fsutil.hpp"
struct Dig {
    Hash h; std::string bad_key, bad; long items = 0; std::map<std::string, long> seen;
    std::vector<std::pair<const char *, uint64_t>> marks;
    void fail(const char *k, const std::string &m) { if (bad_key.empty()) { bad_key = k; bad = m; } }
    void mem(const void *p, size_t n, const char *what) {
#ifdef HAVE_MSAN
        if (n && __msan_test_shadow(p, n) >= 0) { fail("uninitialised", sfmt("%s holds values that were never set", what)); return; }
#endif
        h.b(p, n); items++; }
    void d(double v, const char *what) { if (v == 0) v = 0; mem(&v, sizeof v, what); }
    void i(int v, const char *what) { mem(&v, sizeof v, what); }
    void dv(const double *p, int n, const char *what) { mem(p, n * sizeof *p, what); }
    void iv(const int *p, int n, const char *what) { mem(p, n * sizeof *p, what); }
    void tg(const target &t, const char *what) { i(t.pnr, what); d(t.x, what); d(t.y, what); i(t.n, what); i(t.nx, what); i(t.ny, what); i(t.sumg, what); i(t.tnr, what); }
    void cal(const Calibration &c, const char *what) { mem(&c.ext_par, sizeof c.ext_par, what); mem(&c.int_par, sizeof c.int_par, what); mem(&c.glass_par, sizeof c.glass_par, what); mem(&c.added_par, sizeof c.added_par, what); }
    void mark(const char *n) { marks.push_back({n, h.h}); }
};
/* data a call is only meant to read */
struct Keep {
    struct E { const void *p; std::string copy; const char *what; }; std::vector<E> e;
    void add(const void *p, size_t n, const char *what) { if (n) e.push_back({p, std::string((const char *)p, n), what}); }
    void scene(const Scene &s) { add(&s.cp, sizeof s.cp, "control parameters"); add(&s.mm, sizeof s.mm, "media parameters"); add(&s.vp, sizeof s.vp, "volume parameters");
        for (auto &c : s.store) { add(&c, sizeof c, "calibration"); if (c.mmlut.data) add(c.mmlut.data, (size_t)c.mmlut.nr * c.mmlut.nz * sizeof(double), "lookup table"); } }
    void check(Dig &g, const char *fn) { for (auto &x : e) if (memcmp(x.p, x.copy.data(), x.copy.size())) { g.fail("input-changed", sfmt("%s changed the %s it was given", fn, x.what)); return; } }
};
struct StageOpt { bool hostile = false; };

static inline void stage_optics(Rng r, Dig &g, const StageOpt &so) {
    Scene s; SceneOpt o; o.nlay = -1; o.air = r.p(0.2); o.chfield = -1; make_scene(r, s, o);
    if (r.p(0.4) && s.cp.chfield == 0 && s.mm.nlay == 1) for (auto &c : s.store) init_mmlut(&s.vp, &s.cp, &c);
    Keep k; k.scene(s);
    for (int q = 0; q < 25; q++) {
        vec3d p; rand_point(r, s, p); if (so.hostile && r.p(0.3)) for (double &v : p) v *= r.pick({1e3, -50.0, 1e-6, 0.0, 1e6}); int a = r.i(0, s.nc - 1), b = r.i(0, s.nc - 1); Calibration *A = s.cal[a], *B = s.cal[b];
        double x, y, x2, y2; img_coord(p, A, &s.mm, &x, &y); g.d(x, "img_coord"); g.d(y, "img_coord"); flat_image_coord(p, A, &s.mm, &x2, &y2); g.d(x2, "flat_image_coord"); g.d(y2, "flat_image_coord");
        if (!std::isfinite(x) || !std::isfinite(y) || fabs(x) > 1e6 || fabs(y) > 1e6) { x = x2 = 0.1; y = y2 = 0.2; }
        metric_to_pixel(&x2, &y2, x, y, &s.cp); g.d(x2, "metric_to_pixel"); g.d(y2, "metric_to_pixel"); pixel_to_metric(&x2, &y2, r.u(0, s.cp.imx), r.u(0, s.cp.imy), &s.cp); g.d(x2, "pixel_to_metric"); g.d(y2, "pixel_to_metric");
        double cx, cy; correct_brown_affin(x2, y2, A->added_par, &cx, &cy); g.d(cx, "correct_brown_affin"); distort_brown_affin(x2, y2, A->added_par, &cx, &cy); g.d(cx, "distort_brown_affin"); g.d(cy, "distort_brown_affin");
        dist_to_flat(x2, y2, A, &cx, &cy, 1e-5); g.d(cx, "dist_to_flat"); g.d(cy, "dist_to_flat"); flat_to_dist(cx, cy, A, &x, &y); g.d(x, "flat_to_dist"); g.d(y, "flat_to_dist");
        vec3d X, V; ray_tracing(cx, cy, A, s.mm, X, V); g.dv(X, 3, "ray_tracing"); g.dv(V, 3, "ray_tracing"); vec3d m; move_along_ray(r.u(-s.half, s.half), X, V, m); g.dv(m, 3, "move_along_ray");
        double qx, qy; multimed_nlay(A, &s.mm, p, &qx, &qy); g.d(qx, "multimed_nlay"); g.d(qy, "multimed_nlay"); g.d(multimed_r_nlay(A, &s.mm, p), "multimed_r_nlay");
        double e[4]; epi_mm(cx, cy, A, B, &s.mm, &s.vp, e, e + 1, e + 2, e + 3); g.dv(e, 4, "epi_mm"); vec3d out; epi_mm_2D(cx, cy, A, &s.mm, &s.vp, out); g.dv(out, 3, "epi_mm_2D");
        vec2d px; point_to_pixel(px, p, A, &s.cp); g.dv(px, 2, "point_to_pixel"); k.check(g, "projection");
    }
    double vd[6] = {0, 0, 0, 0, 0, 0}; vd[0] = s.vp.X_lay[1]; vd[1] = s.vp.X_lay[0]; vd[2] = -1e20; vd[3] = 1e20; volumedimension(&vd[0], &vd[1], &vd[2], &vd[3], &vd[4], &vd[5], &s.vp, &s.cp, s.cal.data()); g.dv(vd, 6, "volumedimension"); k.check(g, "volumedimension");
}
static inline void stage_tables(Rng r, Dig &g, const StageOpt &) {
    Scene s; SceneOpt o; o.cams = 1; make_scene(r, s, o); Keep k; k.add(&s.cp, sizeof s.cp, "control parameters"); k.add(&s.mm, sizeof s.mm, "media parameters"); k.add(&s.vp, sizeof s.vp, "volume parameters"); Calibration &c = s.store[0]; k.add(&c.ext_par, sizeof c.ext_par, "calibration");
    int n = r.i(1, 2); for (int i = 0; i < n; i++) init_mmlut(&s.vp, &s.cp, &c);
    if (!c.mmlut.data) { g.fail("no-table", "init_mmlut made no table"); return; }
    g.i(c.mmlut.nr, "table size"); g.i(c.mmlut.nz, "table size"); g.i(c.mmlut.rw, "table size"); g.dv(&c.mmlut.origin[0], 3, "table origin"); g.dv(c.mmlut.data, c.mmlut.nr * c.mmlut.nz, "lookup table"); k.check(g, "init_mmlut");
    Keep k2; k2.scene(s); for (int q = 0; q < 40; q++) { vec3d p; rand_point(r, s, p); double f = r.pick({1.0, 1.0, 2.0, 10.0}); for (double &v : p) v *= f; g.d(get_mmf_from_mmlut(&c, p), "get_mmf_from_mmlut"); } k2.check(g, "get_mmf_from_mmlut"); g.seen["lookup tables"]++;
}
static inline void stage_images(Rng r, Dig &g, const StageOpt &so) {
    int W = so.hostile ? r.pick({1, 2, 3, 5, r.i(1, 90), 300}) : r.i(1, 70), H = so.hostile ? r.pick({1, 2, 3, r.i(1, 90), 200}) : r.i(1, 60); if (so.hostile && r.p(0.02)) { W = r.i(30000, 70000); H = r.i(1, 6); if (r.p(0.5)) std::swap(W, H); g.seen["images longer than 30000 pixels"]++; } control_par cp; memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H; size_t A = (size_t)W * H;
    Img m, b; m.make(W, H); draw_image(r, m, W + H > 30000 ? r.pick({0, 3, 5}) : r.i(0, 9)); b.make(W, H); draw_image(r, b, W + H > 30000 ? r.pick({0, 3, 5}) : r.i(0, 9)); uc *o = (uc *)malloc(A); memset(o, 7, A); Keep k; k.add(m.d, A, "image"); k.add(b.d, A, "second image"); k.add(&cp, sizeof cp, "control parameters");
    filter_t f; for (int i = 0; i < 9; i++) f[i / 3][i % 3] = r.i(1, 9); k.add(f, sizeof f, "filter"); int op = r.i(0, 6), span = W + H > 30000 ? r.i(0, 40000) : r.pick({0, 1, 2, 5, r.i(0, 60), 300});
    if (op == 0) lowpass_3(m.d, o, &cp); else if (op == 1) g.i(filter_3(m.d, o, f, &cp), "filter_3"); else if (op == 2) g.i(fast_box_blur(span, m.d, o, &cp), "fast_box_blur"); else if (op == 3) subtract_img(m.d, b.d, o, &cp); else if (op == 4) subtract_mask(m.d, b.d, o, &cp); else if (op == 5) copy_images(m.d, o, &cp);
    else { control_par c2 = cp; c2.chfield = r.i(0, 2); std::string fn = Scratch::path("chain_filter.par"); spit_file(fn, "0 1 0 1 4 1 0 1 0\n"); g.i(prepare_image(m.d, o, span, r.i(0, 2), (char *)fn.c_str(), &c2), "prepare_image"); }
    g.mem(o, A, "filtered image"); k.check(g, "image filter"); free(o); g.seen["images filtered"]++;
}
static inline void rand_tpar(Rng &r, target_par &tp) { memset(&tp, 0, sizeof tp); tp.discont = r.i(0, 100); for (int &v : tp.gvthres) v = r.i(1, 120); tp.nnmin = r.i(1, 4); tp.nnmax = r.i(4, 3000); tp.nxmin = 1; tp.nxmax = r.i(2, 500); tp.nymin = 1; tp.nymax = r.i(2, 500); tp.sumg_min = r.i(0, 200); tp.cr_sz = 2; }
static inline void stage_detect(Rng r, Dig &g, const StageOpt &so) {
    int W = so.hostile ? r.pick({1, 2, 3, r.i(1, 150), 260}) : r.i(4, 60), H = so.hostile ? r.pick({1, 2, 3, r.i(1, 150), 220}) : r.i(4, 60); if (so.hostile && r.p(0.02)) { W = r.i(30000, 70000); H = r.i(1, 6); if (r.p(0.5)) std::swap(W, H); g.seen["images longer than 30000 pixels"]++; } control_par cp; memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H; cp.num_cams = 4; size_t A = (size_t)W * H;
    Img m; m.make(W, H); draw_image(r, m, W + H > 30000 ? r.pick({0, 1, 3, 5}) : r.i(0, 10)); target_par tp; rand_tpar(r, tp); if (so.hostile) tp.gvthres[0] = r.i(0, 255); int cam = r.i(0, 3); if (so.hostile) for (int &v : tp.gvthres) v = tp.gvthres[0];
    int x0 = 0, x1 = W, y0 = 0, y1 = H; if (r.p(0.4)) { x0 = r.i(-5, W); x1 = r.i(-5, W + 9); y0 = r.i(-5, H); y1 = r.i(-5, H + 9); }
    std::vector<uc> copy(m.d, m.d + A); Keep k; k.add(&cp, sizeof cp, "control parameters"); k.add(&tp, sizeof tp, "target parameters"); target *pix = (target *)malloc((A + 1) * sizeof(target)); bool pf = r.p(0.5); int n = pf ? peak_fit(m.d, &tp, x0, x1, y0, y1, &cp, cam, pix) : targ_rec(m.d, &tp, x0, x1, y0, y1, &cp, cam, pix);
    g.i(n, "number of targets"); if (n < 0 || n > (long)A) g.fail("capacity", sfmt("%d targets in an image of %dx%d", n, W, H)); else for (int i = 0; i < n; i++) g.tg(pix[i], pf ? "peak_fit" : "targ_rec");
    g.seen["detections"] += n; k.check(g, "detection"); if (n > 0 && n <= (long)A) { quicksort_target_y(pix, n); for (int i = 0; i < n; i++) g.tg(pix[i], "quicksort_target_y"); } free(pix);
}
static inline void stage_match(Rng r, Dig &g, const StageOpt &so) {
    Scene s; SceneOpt o; o.air = r.p(0.3); o.mincams = so.hostile && r.p(0.1) ? 1 : 2; make_scene(r, s, o); int nc = s.nc; Detections D; D.nc = nc; D.num.assign(nc, 0); D.tg.assign(nc, 0); bool flood = so.hostile && r.p(0.005), crowd = so.hostile && r.p(0.6) && !flood;
    int np = crowd ? (nc == 2 ? r.i(150, 500) : nc == 3 ? r.i(60, 230) : r.i(20, 70)) : r.i(0, 40); int dense = r.i(0, nc - 1), base = nc > 3 ? r.i(8, 40) : np; std::vector<std::array<double, 3>> P(np); for (auto &p : P) { rand_point(r, s, p.data()); if (crowd) for (double &v : p) v *= 1e-3; }
    for (int k = 0; k < nc; k++) { std::vector<target> v; for (int i = 0; i < np; i++) { if (crowd && k != dense && i >= base) break; if (!crowd && r.p(0.1)) continue; double x, y; img_coord(P[i].data(), s.cal[k], &s.mm, &x, &y); metric_to_pixel(&x, &y, x, y, &s.cp); target t; set_target(t, x + r.u(-.3, .3), y + r.u(-.3, .3), r.i(5, 40), r.i(3, 9), r.i(3, 9), r.i(200, 3000)); v.push_back(t); }
        if (crowd && k == dense && nc > 3) { size_t n0 = v.size(); while (v.size() < 260) { v.push_back(v[r.i(0, (int)n0 - 1)]); v.back().x += r.u(-.3, .3); } }
        if (flood && k == nc - 1) { for (int n = 202400 - r.i(0, 20); n > 0; n--) { target t; set_target(t, r.u(0, 3), r.u(0, s.cp.imy), 9, 3, 3, 500); v.push_back(t); } g.seen["more detections than can be marked"]++; }
        r.shuffle(v); D.num[k] = (int)v.size(); D.tg[k] = (target *)malloc(v.size() * sizeof(target) + 1); for (size_t i = 0; i < v.size(); i++) { v[i].pnr = (int)i; D.tg[k][i] = v[i]; } }
    D.finish(s); s.vp.eps0 = crowd ? 5 : r.u(0.005, 0.2); if (crowd) s.vp.cn = s.vp.cnx = s.vp.cny = s.vp.csumg = 0; s.vp.corrmin = r.p(0.5) ? 0 : r.u(0, 100); s.cp.allCam_flag = r.p(0.2);
    Keep k; k.scene(s); for (int c = 0; c < nc; c++) { k.add(D.crd[c], D.num[c] * sizeof(coord_2d), "corrected coordinates"); }
    std::vector<std::vector<target>> t0; for (int c = 0; c < nc; c++) t0.push_back(std::vector<target>(D.tg[c], D.tg[c] + D.num[c]));
    int counts[4] = {0, 0, 0, 0}; n_tupel *con = correspondences(&D.frm, D.crd.data(), &s.vp, &s.cp, s.cal.data(), counts); if (!con) { g.fail("no-result", "correspondences returned nothing"); return; }
    k.check(g, "correspondences"); g.iv(counts, 4, "match counts"); int lim = 0; for (int n : D.num) lim += n; if (counts[3] < 0 || counts[3] * 2 > lim) g.fail("capacity", sfmt("%d groups of %d detections", counts[3], lim));
    else for (int i = 0; i < counts[3]; i++) { g.iv(con[i].p, nc, "group"); g.d(con[i].corr, "group quality"); for (int c = 0; c < nc; c++) if (con[i].p[c] >= D.num[c]) g.fail("capacity", sfmt("group %d refers to detection %d of %d", i, con[i].p[c], D.num[c])); }
    for (int c = 0; c < nc; c++) for (int i = 0; i < D.num[c]; i++) { target a = D.tg[c][i], b = t0[c][i]; g.i(a.tnr, "detection marks"); a.tnr = b.tnr; if (memcmp(&a.x, &b.x, 2 * sizeof a.x) || a.pnr != b.pnr || a.n != b.n || a.nx != b.nx || a.ny != b.ny || a.sumg != b.sumg) { g.fail("input-changed", "correspondences changed a detection"); break; } }
    g.seen["groups"] += counts[3]; if (crowd) g.seen["crowded matchings"]++; free(con);
}
static inline void stage_position(Rng r, Dig &g, const StageOpt &) {
    Scene s; SceneOpt o; o.mincams = 2; o.air = r.p(0.2); make_scene(r, s, o); Keep k; k.scene(s);
    int n = r.i(1, 20) * 2; std::vector<std::vector<vec2d *>> rows; std::vector<vec2d *> T(n); for (int i = 0; i < n; i++) { T[i] = (vec2d *)malloc(s.nc * sizeof(vec2d)); vec3d p; rand_point(r, s, p); for (int c = 0; c < s.nc; c++) { double x, y; flat_image_coord(p, s.cal[c], &s.mm, &x, &y); T[i][c][0] = x + r.n() * 1e-3; T[i][c][1] = y; if (r.p(0.2)) T[i][c][0] = T[i][c][1] = COORD_UNUSED; } k.add(T[i], s.nc * sizeof(vec2d), "image points"); }
    for (int i = 0; i < n; i++) { int seen = 0; for (int c = 0; c < s.nc; c++) seen += T[i][c][0] != COORD_UNUSED; if (seen < 2) continue; vec3d out; g.d(point_position(T[i], s.nc, &s.mm, s.cal.data(), out), "point_position"); g.dv(out, 3, "point_position"); g.seen["positions"]++; }
    g.d(weighted_dumbbell_precision(T.data(), n, s.nc, &s.mm, s.cal.data(), r.u(1, 30), r.u(0, 2)), "weighted_dumbbell_precision"); k.check(g, "positioning");
    vec3d a = {r.n(), r.n(), r.n()}, b = {r.n(), r.n(), 1}, e = {r.n(), r.n(), r.n()}, f = {r.n(), 1, r.n()}, q; g.d(skew_midpoint(a, b, e, f, q), "skew_midpoint"); g.dv(q, 3, "skew_midpoint"); for (auto *p : T) free(p);
}
static inline void stage_calib(Rng r, Dig &g, const StageOpt &so) {
    CalibCase k; make_calib(r, k, 8, so.hostile && r.p(0.1) ? 900 : 60, r.u(0, 1)); if (k.n < 6) return; Keep kp; kp.add(&k.s.cp, sizeof k.s.cp, "control parameters"); kp.add(k.fix.data(), k.fix.size() * 8, "calibration points"); kp.add(k.pix.data(), k.pix.size() * sizeof(target), "detections");
    int op = r.i(0, 2); Calibration cal = k.truth(); nudge_exterior(r, cal, r.u(0, 0.02));
    if (op == 0) { orient_par p; memset(&p, 0, sizeof p); unsigned *fl = (unsigned *)&p; for (size_t q = 1; q < sizeof p / sizeof *fl; q++) fl[q] = r.p(0.3); p.useflag = r.i(0, 3); kp.add(&p, sizeof p, "orientation flags"); double *sig = (double *)malloc((NPAR + 1) * sizeof(double)); for (int i = 0; i <= NPAR; i++) sig[i] = 0; double *res = orient(&cal, &k.s.cp, k.n, k.f(), k.pix.data(), &p, sig); g.i(res != 0, "orient"); g.cal(cal, "adjusted calibration"); if (res) { g.dv(sig, NPAR + 1, "sigmas"); g.dv(res, 2 * k.n, "residuals"); g.seen["adjustments"]++; free(res); } kp.check(g, "orient"); free(sig); }
    else if (op == 1) { int n = std::min(k.n, r.pick({4, 8, k.n})); g.i(raw_orient(&cal, &k.s.cp, n, k.f(), k.pix.data()), "raw_orient"); g.cal(cal, "rough orientation"); kp.check(g, "raw_orient"); g.seen["rough orientations"]++; }
    else { std::vector<target> p = k.pix; r.shuffle(p); int num = (int)p.size() - r.i(0, 3); for (int i = 0; i < num; i++) p[i].pnr = i; kp.add(&cal, sizeof cal, "calibration"); kp.add(p.data(), p.size() * sizeof(target), "detections"); target *o = sortgrid(&cal, &k.s.cp, k.n, k.f(), num, r.pick({0, 1, 5, 25, 1000}), p.data()); if (!o) { g.fail("no-result", "sortgrid returned nothing"); return; } for (int i = 0; i < k.n; i++) { g.i(o[i].pnr, "sortgrid"); if (o[i].pnr >= 0) g.tg(o[i], "sortgrid"); } kp.check(g, "sortgrid"); free(o); g.seen["grids"]++; }
}
/* a crowd in which every particle has more candidates than are kept */
static inline void crowd_track(Rng &r, TrackCase &k) {
    TrackOpt o; o.minparts = 1; o.maxparts = 3; o.mincams = 1; make_track(r, k, o); int nf = (int)k.fr.size(); Scene &s = k.s; int np = r.pick({20, 60, 120}); k.maxcount = 0; double L = k.tp.dvxmax; std::vector<V3> x; for (int i = 0; i < np; i++) x.push_back({L * r.u(-.6, .6), L * r.u(-.6, .6), L * r.u(-.6, .6)}); k.tp.dacc = 10 * L; k.tp.dangle = 250;
    for (int f = 0; f < nf; f++) { MFrame &m = k.fr[f]; m = MFrame(); m.real = true; std::vector<int> ord(np); std::iota(ord.begin(), ord.end(), 0); r.shuffle(ord);
        for (int q : ord) { vec3d p = {x[q].x + r.n() * L * 0.1, x[q].y + r.n() * L * 0.1, x[q].z + r.n() * L * 0.1}; int id = r.p(0.15) ? -1 : (int)m.parts.size(); if (id >= 0) { MPart P; for (int j = 0; j < 3; j++) P.x[j] = rnd_to(p[j], "%9.3f"); m.parts.push_back(P); }
            for (int c = 0; c < s.nc; c++) { vec2d v; point_to_pixel(v, p, s.cal[c], &s.cp); if (v[0] > 0 && v[1] > 0 && v[0] < s.cp.imx && v[1] < s.cp.imy) m.t[c].push_back({0, rnd_to(v[0], "%9.4f"), rnd_to(v[1], "%9.4f"), 5, 2, 2, 100, id}); } }
        for (int c = 0; c < s.nc; c++) { std::stable_sort(m.t[c].begin(), m.t[c].end(), [](const MTgt &a, const MTgt &b) { return a.y < b.y; }); for (int q = 0; q < (int)m.t[c].size(); q++) { m.t[c][q].pnr = q; if (m.t[c][q].tnr >= 0) m.parts[m.t[c][q].tnr].p[c] = q; } k.maxcount = std::max(k.maxcount, (int)m.t[c].size()); }
        k.maxcount = std::max(k.maxcount, (int)m.parts.size()); }
}
static inline void run_tracker(Rng &r, TrackCase &k, Dig &g, int spare) {
    Keep kp; kp.scene(k.s); int maxt = std::max(1, k.maxcount + spare); { LibRun L(k, maxt); if (!L.tr) { g.fail("no-run", "tr_new failed"); return; } track_par tp0 = L.tp; L.forward([&](int) { for (int q = 0; q < 4; q++) { frame *f = L.tr->fb->buf[q]; if (f->num_parts > f->max_targets) g.fail("capacity", sfmt("%d particles in a frame for %d", f->num_parts, f->max_targets)); } }); if (r.p(0.6) && k.last > k.first) { double v = trackback_c(L.tr); g.d(v, "trackback_c"); } g.i(L.tr->nlinks, "number of links"); g.i(L.tr->npart, "number of particles"); if (memcmp(&tp0, &L.tp, sizeof tp0)) g.fail("input-changed", "tracking changed the tracking parameters"); }
    kp.check(g, "tracking"); long bytes = 0; for (auto &n : list_dir(k.dir)) { std::string t; slurp_file(k.dir + "/" + n, t); g.h.s(n); g.h.s(t); bytes += (long)t.size(); } g.items++; g.seen["tracking runs"]++; (void)bytes;
}
static inline void stage_track(Rng r, Dig &g, const StageOpt &so) {
    TrackCase k; if (so.hostile && r.p(0.4)) { crowd_track(r, k); g.seen["crowded tracking runs"]++; } else { TrackOpt o; o.mincams = 1; o.minframes = 1; o.maxframes = 5; o.fan = so.hostile ? 0.3 : 0.1; make_track(r, k, o); }
    store_track(k, (G_scratch + "/chain").c_str()); run_tracker(r, k, g, r.pick({0, 0, 2, 50}));
}
/* images of moving particles -> preprocessing -> detection -> correction -> matching -> positions -> files -> trajectories */
static inline void stage_chain(Rng r, Dig &g, const StageOpt &so) {
    TrackCase k; TrackOpt o; o.mincams = 1; o.maxframes = so.hostile ? 6 : 4; o.maxparts = so.hostile ? 60 : 15; o.decoy = 0; make_track(r, k, o); Scene &s = k.s; int W = r.i(90, so.hostile ? 420 : 200), H = r.i(80, so.hostile ? 380 : 180);
    s.cp.pix_x *= (double)s.cp.imx / W; s.cp.pix_y *= (double)s.cp.imy / H; s.cp.imx = W; s.cp.imy = H; size_t A = (size_t)W * H; s.vp.eps0 = s.cp.pix_x * r.u(0.3, 1.5); s.vp.corrmin = r.u(0, 30); s.vp.cn = s.vp.cnx = s.vp.cny = s.vp.csumg = 0.01;
    if (r.p(0.5)) for (auto &c : s.store) init_mmlut(&s.vp, &s.cp, &c);
    target_par tp; rand_tpar(r, tp); tp.gvthres[0] = tp.gvthres[1] = tp.gvthres[2] = tp.gvthres[3] = r.i(8, 60); bool pf = r.p(0.4); int hp = r.i(0, 1), span = r.i(2, 12); bool prep = r.p(0.7); double noise = so.hostile ? r.pick({0.0, 5.0, 40.0}) : 4; k.maxcount = 0; double pos_scale = r.u(0.7, 2.0);
    store_track(k, (G_scratch + "/chain").c_str()); clear_dir(k.dir); Keep kp; kp.scene(s); kp.add(&tp, sizeof tp, "target parameters"); char *fnames[4]; for (int c = 0; c < 4; c++) fnames[c] = k.tnp[c];
    for (int f = k.first; f <= k.last; f++) {
        int maxn = 1; Detections D; D.nc = s.nc; D.num.assign(s.nc, 0); D.tg.assign(s.nc, 0);
        for (int c = 0; c < s.nc; c++) { Img m; m.make(W, H); for (size_t i = 0; i < A; i++) m.d[i] = (uc)std::min(255.0, 10 + fabs(r.n()) * noise); for (auto &t : k.traj) if (f - k.first >= t.f0 && f - k.first < t.f0 + (int)t.x.size()) { V3 q = t.x[f - k.first - t.f0]; vec3d x = {q.x, q.y, q.z}; vec2d v; point_to_pixel(v, x, s.cal[c], &s.cp); int R = 4; for (int yy = (int)floor(v[1]) - R; yy <= v[1] + R; yy++) for (int xx = (int)floor(v[0]) - R; xx <= v[0] + R; xx++) m.addmax(xx, yy, (int)(10 + 200 * exp(-((xx + .5 - v[0]) * (xx + .5 - v[0]) + (yy + .5 - v[1]) * (yy + .5 - v[1])) / (2 * pos_scale * pos_scale)))); }
            uc *im = (uc *)malloc(A); if (prep) prepare_image(m.d, im, span, hp, (char *)"none", &s.cp); else memcpy(im, m.d, A); g.mem(im, A, "prepared image");
            target *pix = (target *)malloc((A + 1) * sizeof(target)); int n = pf ? peak_fit(im, &tp, 0, W, 0, H, &s.cp, c, pix) : targ_rec(im, &tp, 0, W, 0, H, &s.cp, c, pix); free(im); if (n < 0 || n > (long)A) { g.fail("capacity", sfmt("%d targets", n)); free(pix); return; } if (n > 700) n = 700; quicksort_target_y(pix, n); for (int i = 0; i < n; i++) { pix[i].pnr = i; g.tg(pix[i], "detection"); }
            D.tg[c] = (target *)realloc(pix, n * sizeof(target) + 1); D.num[c] = n; maxn = std::max(maxn, n); g.seen["detections"] += n; }
        g.mark("detections"); int counts[4] = {0, 0, 0, 0}, tot = 0; n_tupel *con = 0; std::vector<std::array<double, 3>> X; std::vector<std::array<int, 4>> P; bool many = false; for (int n : D.num) if (n > 300) many = true;
        D.finish(s); if (s.nc > 1 && !(many && s.nc > 2)) { con = correspondences(&D.frm, D.crd.data(), &s.vp, &s.cp, s.cal.data(), counts); if (con) tot = counts[3]; g.iv(counts, 4, "match counts"); }
        for (int i = 0; i < tot; i++) { vec2d v[4]; std::array<int, 4> p = {-1, -1, -1, -1}; for (int c = 0; c < s.nc; c++) { v[c][0] = v[c][1] = COORD_UNUSED; int q = con[i].p[c]; if (q < 0) continue; v[c][0] = D.crd[c][q].x; v[c][1] = D.crd[c][q].y; p[c] = D.crd[c][q].pnr; } vec3d x; g.d(point_position(v, s.nc, &s.mm, s.cal.data(), x), "point_position"); g.dv(x, 3, "point_position"); X.push_back({x[0], x[1], x[2]}); P.push_back(p); }
        free(con); g.mark("positions"); g.seen["groups"] += tot; maxn = std::max(maxn, tot); k.maxcount = std::max(k.maxcount, maxn);
        frame fr; frame_init(&fr, s.nc, maxn); fr.num_parts = tot; for (int c = 0; c < s.nc; c++) { fr.num_targets[c] = D.num[c]; for (int i = 0; i < D.num[c]; i++) { fr.targets[c][i] = D.tg[c][i]; fr.targets[c][i].tnr = -1; } }
        for (int i = 0; i < tot; i++) { fr.correspond[i].nr = i + 1; for (int c = 0; c < 4; c++) { fr.correspond[i].p[c] = P[i][c]; if (c < s.nc && P[i][c] >= 0) fr.targets[c][P[i][c]].tnr = i; } for (int j = 0; j < 3; j++) fr.path_info[i].x[j] = X[i][j]; reset_links(&fr.path_info[i]); }
        if (!write_frame(&fr, (char *)k.rt.c_str(), (char *)k.ptv.c_str(), 0, fnames, f)) g.fail("no-write", "write_frame failed"); free_frame(&fr); kp.check(g, "detection and matching");
    }
    run_tracker(r, k, g, r.pick({0, 3, 50})); kp.check(g, "the chain"); g.seen["image to trajectory chains"]++;
}
static inline void stage_frames(Rng r, Dig &g, const StageOpt &) {
    int nc = r.i(1, 4), n = r.i(1, 60); FFrame F; rand_frame(r, F, nc, n); std::string dir = G_scratch + "/chainf"; mkdir(dir.c_str(), 0700); clear_dir(dir); std::string rt = dir + "/rt", pv = dir + "/pt", ad = dir + "/ad"; std::vector<std::string> tn; char *tp[4]; for (int c = 0; c < 4; c++) tn.push_back(dir + sfmt("/c%d.", c)); for (int c = 0; c < 4; c++) tp[c] = (char *)tn[c].c_str(); int fnr = r.i(1, 99999);
    frame a; frame_init(&a, nc, std::max(1, n)); a.num_parts = (int)F.parts.size(); for (size_t i = 0; i < F.parts.size(); i++) { for (int j = 0; j < 3; j++) a.path_info[i].x[j] = F.parts[i].x[j]; a.path_info[i].prev = F.parts[i].prev; a.path_info[i].next = F.parts[i].next; a.path_info[i].prio = F.parts[i].prio; a.correspond[i].nr = (int)i + 1; for (int c = 0; c < 4; c++) a.correspond[i].p[c] = F.parts[i].p[c]; }
    for (int c = 0; c < nc; c++) { a.num_targets[c] = (int)F.t[c].size(); for (size_t i = 0; i < F.t[c].size(); i++) { auto &t = F.t[c][i]; a.targets[c][i] = {t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr}; } }
    g.i(write_frame(&a, (char *)rt.c_str(), (char *)pv.c_str(), (char *)ad.c_str(), tp, fnr), "write_frame"); for (auto &f : list_dir(dir)) { std::string t; slurp_file(dir + "/" + f, t); g.h.s(f); g.h.s(t); }
    frame b; frame_init(&b, nc, std::max(1, n)); g.i(read_frame(&b, (char *)rt.c_str(), (char *)pv.c_str(), (char *)ad.c_str(), tp, fnr), "read_frame"); g.i(b.num_parts, "particles read");
    for (int i = 0; i < b.num_parts; i++) { g.dv(b.path_info[i].x, 3, "position read"); g.i(b.path_info[i].prev, "link read"); g.i(b.path_info[i].next, "link read"); g.i(b.path_info[i].prio, "priority read"); g.i(b.path_info[i].inlist, "candidate count"); g.i(b.correspond[i].nr, "number read"); g.iv(b.correspond[i].p, 4, "references read"); }
    for (int c = 0; c < nc; c++) { g.i(b.num_targets[c], "targets read"); for (int i = 0; i < b.num_targets[c]; i++) g.tg(b.targets[c][i], "target read"); } free_frame(&a); free_frame(&b); clear_dir(dir); g.seen["frames"]++;
}
static inline void stage_params(Rng r, Dig &g, const StageOpt &) {
    std::string dir = G_scratch + "/chainp"; mkdir(dir.c_str(), 0700); clear_dir(dir); std::string f = dir + "/p", f2 = dir + "/q"; CStr F(f), F2(f2);
    int op = r.i(0, 5);
    if (op == 0) { int nc = r.i(1, 4); std::string t = sfmt("%d\n", nc); for (int c = 0; c < nc; c++) t += sfmt("img/cam%d.%d\ncal/cam%d.tif\n", c, r.i(0, 999), c); t += sfmt("%d\n%d\n%d\n%d\n%d\n%.4f\n%.4f\n%d\n1\n1.33\n1.46\n%.2f\n", r.i(0, 1), r.i(0, 1), r.i(0, 1), r.i(1, 2000), r.i(1, 2000), r.u(.001, .1), r.u(.001, .1), r.i(0, 2), r.u(0, 9)); spit_file(f, t); control_par *c = read_control_par(F); if (!c) { g.fail("no-read", "control parameters not read"); return; } g.i(c->num_cams, "cameras"); for (int k = 0; k < c->num_cams; k++) { g.mem(c->img_base_name[k], strlen(c->img_base_name[k]), "image name"); g.mem(c->cal_img_base_name[k], strlen(c->cal_img_base_name[k]), "calibration image name"); } int iv[] = {c->hp_flag, c->allCam_flag, c->tiff_flag, c->imx, c->imy, c->chfield, c->mm->nlay}; g.iv(iv, 7, "control parameters"); double dv[] = {c->pix_x, c->pix_y, c->mm->n1, c->mm->n2[0], c->mm->n3, c->mm->d[0]}; g.dv(dv, 6, "control parameters"); free_control_par(c); }
    else if (op == 1) { int nc = r.i(1, 4); std::string t; for (int c = 0; c < nc; c++) t += sfmt("img/c%d_%d.\n", c, r.i(0, 99)); t += sfmt("%d\n%d\n", r.i(0, 999), r.i(999, 99999)); spit_file(f, t); sequence_par *s = read_sequence_par(F, nc); if (!s) { g.fail("no-read", "sequence parameters not read"); return; } g.i(s->num_cams, "cameras"); g.i(s->first, "first"); g.i(s->last, "last"); for (int c = 0; c < nc; c++) g.mem(s->img_base_name[c], strlen(s->img_base_name[c]), "name"); free_sequence_par(s); }
    else if (op == 2) { std::string t; for (int i = 0; i < 8; i++) t += sfmt("%.5f\n", r.u(-20, 20)); t += sfmt("%d\n", r.i(0, 1)); spit_file(f, t); track_par *p = read_track_par(F); if (!p) { g.fail("no-read", "tracking parameters not read"); return; } double dv[] = {p->dacc, p->dangle, p->dvxmax, p->dvxmin, p->dvymax, p->dvymin, p->dvzmax, p->dvzmin}; g.dv(dv, 8, "tracking parameters"); int iv[] = {p->dsumg, p->dn, p->dnx, p->dny, p->add}; g.iv(iv, 5, "tracking parameters"); free(p); }
    else if (op == 3) { std::string t; for (int i = 0; i < 12; i++) t += sfmt("%.5f\n", r.u(-50, 50)); spit_file(f, t); volume_par *p = read_volume_par(F); if (!p) { g.fail("no-read", "volume parameters not read"); return; } g.mem(p, sizeof *p, "volume parameters"); free(p); }
    else if (op == 4) { target_par p; rand_tpar(r, p); write_target_par(&p, F); std::string t; slurp_file(f, t); g.h.s(t); target_par *q = read_target_par(F); if (!q) { g.fail("no-read", "target parameters not read"); return; } g.mem(q, sizeof *q, "target parameters"); free(q); }
    else { Scene s; SceneOpt o; o.cams = 1; make_scene(r, s, o); g.i(write_calibration(&s.store[0], F, F2), "write_calibration"); std::string a, b; slurp_file(f, a); slurp_file(f2, b); g.h.s(a); g.h.s(b); bool noadd = r.p(0.3); Calibration *c = noadd ? read_calibration(F, (char *)"/nonexistent/x", r.p(0.5) ? (char *)F2 : NULL) : read_calibration(F, F2, NULL); if (!c) { g.fail("no-read", "calibration not read"); return; } g.cal(*c, "calibration"); g.i(c->mmlut.data != NULL, "table"); free(c); }
    clear_dir(dir); g.seen["parameter files"]++;
}
static inline void stage_numeric(Rng r, Dig &g, const StageOpt &) {
    int m = r.i(1, 40), n = r.i(1, 8), nl = n + r.i(0, 3); std::vector<double> a((size_t)m * nl), l(m), A((size_t)nl * nl, 0), u(nl, 0), x(nl, 0); for (double &v : a) v = r.n(); for (double &v : l) v = r.n(); Keep k; k.add(a.data(), a.size() * 8, "design matrix"); k.add(l.data(), l.size() * 8, "observations");
    ata(a.data(), A.data(), m, n, nl); g.dv(A.data(), nl * nl, "ata"); atl(u.data(), a.data(), l.data(), m, n, nl); g.dv(u.data(), n, "atl"); k.check(g, "least squares"); for (int i = 0; i < n; i++) A[(size_t)i * nl + i] += 1; matinv(A.data(), n, nl); g.dv(A.data(), nl * nl, "matinv"); Keep k2; k2.add(A.data(), A.size() * 8, "matrix"); k2.add(u.data(), u.size() * 8, "vector"); matmul(x.data(), A.data(), u.data(), n, n, 1, nl, nl); g.dv(x.data(), n, "matmul"); k2.check(g, "matmul");
    int q = r.i(0, 60); std::vector<coord_2d> c(q); std::vector<n_tupel> t(q); for (int i = 0; i < q; i++) { c[i].pnr = i; c[i].x = r.i(0, 9); c[i].y = i; memset(&t[i], 0, sizeof t[i]); t[i].corr = r.i(0, 9); t[i].p[0] = i; } quicksort_coord2d_x(c.data(), q); quicksort_con(t.data(), q); for (int i = 0; i < q; i++) { g.i(c[i].pnr, "sorted"); g.d(t[i].corr, "sorted"); }
}
typedef void (*stage_fn)(Rng, Dig &, const StageOpt &);
struct Stage { const char *name; stage_fn fn; int weight, hweight; };
static const Stage STAGES[] = {{"optics", stage_optics, 4, 4}, {"lookup tables", stage_tables, 2, 2}, {"image filters", stage_images, 3, 5}, {"detection", stage_detect, 3, 6}, {"matching", stage_match, 3, 4}, {"positions", stage_position, 3, 2}, {"calibration", stage_calib, 3, 3}, {"tracking", stage_track, 3, 3}, {"image to trajectory", stage_chain, 2, 4}, {"frames", stage_frames, 2, 2}, {"parameters", stage_params, 2, 2}, {"numeric", stage_numeric, 1, 1}};
static const int NSTAGES = sizeof STAGES / sizeof *STAGES;
static inline int pick_stage(Rng &r, bool hostile) { int t = 0; for (auto &s : STAGES) t += hostile ? s.hweight : s.weight; int q = r.i(0, t - 1); for (int k = 0; k < NSTAGES; k++) { q -= hostile ? STAGES[k].hweight : STAGES[k].weight; if (q < 0) return k; } return 0; }
#endif
