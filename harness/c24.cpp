/* C24: rough orientation from picked points, and the point identification file. */
#include "calib.hpp"
const char *CHECK_RULE = "distinct rough orientations and identification files (hash of camera, start, points / file text)";

static void orientation_case(Case &c) {
    Rng &r = c.r; CalibCase k; int many = r.p(0.3);
    make_calib(r, k, 40, r.p(0.03) ? 400 : 60, 0);
    if (k.n < 20) return;
    /* user picks 4 (or more) points spread over the image: greedy farthest points */
    int want = many ? r.i(5, std::min(k.n, r.p(0.1) ? 300 : 20)) : 4; std::vector<int> pick = {r.i(0, k.n - 1)};
    while ((int)pick.size() < want) { int best = -1; double bd = -1;
        for (int i = 0; i < k.n; i++) { double d = 1e9; for (int j : pick) { double q = hypot(k.pix[i].x - k.pix[j].x, k.pix[i].y - k.pix[j].y) / k.s.cp.imx * 60; V3 a = v3(k.f()[i]) - v3(k.f()[j]); d = std::min(d, q + len(a)); } if (d > bd) { bd = d; best = i; } }
        pick.push_back(best); }
    std::vector<double> fx; std::vector<target> px;
    for (int i : pick) { for (int j = 0; j < 3; j++) fx.push_back(k.fix[3 * i + j]); target t = k.pix[i]; t.pnr = r.p(0.5) ? (int)px.size() : -999; px.push_back(t); }
    k.fix = fx; k.pix = px; k.n = want;
    int mode = r.i(0, 9);  /* 0-6 near, 7 far, 8 degenerate picks, 9 noise */
    Calibration truth = k.truth(), start = truth;
    double rel = mode == 7 ? r.u(0.1, 2) : r.u(0, 0.03); nudge_exterior(r, start, rel);
    /* the rough orientation neglects distortion: whatever the start has there is ignored */
    if (r.p(0.5)) random_distortion(r, start.added_par, 5, 1);
    if (mode == 8) { int kind = r.i(0, 2); for (int i = 1; i < k.n; i++) for (int j = 0; j < 3; j++) { if (kind == 0) k.fix[3 * i + j] = k.fix[j]; else if (kind == 1) k.fix[3 * i + j] = k.fix[j] * (1 + i); } if (kind == 2) { k.n = r.i(0, 2); k.pix.resize(k.n); k.fix.resize(3 * k.n); } }
    if (mode == 9) for (auto &t : k.pix) { t.x += r.u(-3, 3); t.y += r.u(-3, 3); }
    k.fix.shrink_to_fit(); k.pix.shrink_to_fit();
    Hash h; hash_scene(h, k.s); h.b(&start.ext_par, sizeof start.ext_par); h.i(k.n); h.i(mode); c.distinct(h.h);
    auto pix0 = k.pix; auto fix0 = k.fix; control_par cp0 = k.s.cp; mm_np mm0 = k.s.mm;
    Calibration *cal = (Calibration *)malloc(sizeof *cal); memcpy(cal, &start, sizeof *cal);
    double *fp = (double *)malloc(sizeof(double) * 3 * k.n + 1); memcpy(fp, k.fix.data(), sizeof(double) * 3 * k.n);
    int ok = raw_orient(cal, &k.s.cp, k.n, (vec3d *)fp, k.pix.data());
    c.eval();
    if (memcmp(&cal->int_par, &start.int_par, sizeof start.int_par) || memcmp(&cal->glass_par, &start.glass_par, sizeof start.glass_par) || cal->mmlut.data != start.mmlut.data)
        c.fail("interior-changed", "rough orientation changed the interior or glass parameters");
    if ((k.n && (memcmp(pix0.data(), k.pix.data(), sizeof(target) * k.n) || memcmp(fix0.data(), fp, sizeof(double) * 3 * k.n))) || memcmp(&cp0, &k.s.cp, sizeof cp0) || memcmp(&mm0, &k.s.mm, sizeof mm0))
        c.fail("inputs-changed", "rough orientation changed the picked data or parameters");
    if (std::isfinite(cal->ext_par.omega + cal->ext_par.phi + cal->ext_par.kappa) && rot_err(cal->ext_par) > 1e-12) c.fail("matrix", "returned %d, rotation matrix off its angles by %g", ok, rot_err(cal->ext_par));
    if (ok) {
        c.count("converged");
        if (!std::isfinite(cal->ext_par.x0 + cal->ext_par.y0 + cal->ext_par.z0 + cal->ext_par.omega + cal->ext_par.phi + cal->ext_par.kappa)) c.fail("not-finite", "mode %d, %d points: success, but the pose is not a number", mode, k.n);
        if (mode <= 6) {
            Calibration cc = *cal; memset(&cc.added_par, 0, sizeof cc.added_par); cc.added_par.scx = 1;
            double e = reproj(k, cc); double e0; { Calibration s0 = start; s0.added_par = cc.added_par; e0 = reproj(k, s0); }
            c.count("converged from a near start");
            c.maxv("image error after rough orientation (mm)", e);
            if (e < 0 || e > 2e-3) c.fail("not-reproduced", "mode %d, %d points: image error %g mm after success (before %g)", mode, k.n, e, e0);
        }
        if (mode == 8 && k.n < 3) c.fail("undetermined-accepted", "success from %d points", k.n);
    } else { c.count("refused"); }
    if (mode <= 6) c.count("near starts");
    if (c.idx < 6) c.sample("mode %d, %d points: %s", mode, k.n, ok ? "converged" : "failure");
    free(cal); free(fp);
}
static void file_case(Case &c) {
    Rng &r = c.r; int n = r.p(0.2) ? r.i(0, 5) : r.i(4, r.p(0.02) ? 5000 : 60), cams = r.i(1, 4);
    std::vector<double> P; std::string cb, mo;
    for (int i = 0; i < n; i++) { double p[3]; for (int j = 0; j < 3; j++) p[j] = r.i(-400, 400) / 4.0; cb += sfmt("%d %.2f %.2f %.2f\n", i + 1, p[0], p[1], p[2]); P.insert(P.end(), p, p + 3); }
    std::vector<int> nr; int lines = r.p(0.8) ? cams : r.i(0, cams);
    for (int k = 0; k < lines * 4; k++) { int v; bool again; do { v = r.p(0.95) ? r.i(1, std::max(1, n)) : r.i(-2, n + 5); again = false; for (int q = k / 4 * 4; q < k; q++) if (nr[q] == v) again = true; } while (again && n >= 8 && r.p(0.98)); nr.push_back(v); mo += sfmt("%d%s", v, k % 4 == 3 ? "\n" : " "); }
    if (r.p(0.3)) mo = ""; if (mo.empty()) { mo = ""; for (size_t k = 0; k < nr.size(); k++) mo += sfmt("%d\n", nr[k]); }
    std::string a = Scratch::path("calblock.txt"), b = Scratch::path("man_ori.dat");
    FILE *f = fopen(a.c_str(), "w"); fwrite(cb.data(), 1, cb.size(), f); fclose(f); f = fopen(b.c_str(), "w"); fwrite(mo.data(), 1, mo.size(), f); fclose(f);
    Hash h; h.s(cb); h.s(mo); c.distinct(h.h);
    vec3d *out = (vec3d *)malloc(4 * sizeof(vec3d)); int cam = r.i(0, cams - 1);
    if (r.p(0.03)) unlink(a.c_str()); else if (r.p(0.03)) unlink(b.c_str());
    bool exist = !access(a.c_str(), R_OK) && !access(b.c_str(), R_OK);
    int got = read_man_ori_fix(out, (char *)a.c_str(), (char *)b.c_str(), cam);
    c.eval();
    bool listed = exist && cam < lines, distinct = true;
    if (listed) for (int i = 0; i < 4; i++) { int v = nr[cam * 4 + i]; if (v < 1 || v > n) listed = false; for (int j = 0; j < i; j++) if (nr[cam * 4 + j] == v) distinct = false; }
    if (n < 4) listed = false;
    if (got == 4) {
        c.count("point files delivered");
        if (!listed) c.fail("unlisted-delivered", "four points delivered although the files do not list four existing points");
        else for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) if (out[i][j] != P[3 * (nr[cam * 4 + i] - 1) + j]) { c.fail("wrong-point", "camera %d: point %d of the list (number %d) is not delivered in its place", cam, i, nr[cam * 4 + i]); i = 4; break; }
    } else { c.count("point files refused"); if (listed && distinct) c.fail("refused", "%d points delivered, all four exist", got); }
    free(out); unlink(a.c_str()); unlink(b.c_str());
}
void run_case(Case &c) { if (c.r.p(0.6)) orientation_case(c); else file_case(c); }
