/* C23: least squares camera adjustment. */
#include "calib.hpp"
const char *CHECK_RULE = "distinct adjustments (hash of true camera, start, flags and data)";

static bool same_cam(const Calibration &a, const Calibration &b) {
    return !memcmp(&a.ext_par, &b.ext_par, sizeof a.ext_par) && !memcmp(&a.int_par, &b.int_par, sizeof a.int_par) &&
           !memcmp(&a.glass_par, &b.glass_par, sizeof a.glass_par) && !memcmp(&a.added_par, &b.added_par, sizeof a.added_par) && a.mmlut.data == b.mmlut.data;
}
static unsigned *flagp(orient_par &o, int k) { unsigned *f[10] = {&o.ccflag, &o.xhflag, &o.yhflag, &o.k1flag, &o.k2flag, &o.k3flag, &o.p1flag, &o.p2flag, &o.scxflag, &o.sheflag}; return f[k]; }
static double *parp(Calibration &c, int k) { double *f[10] = {&c.int_par.cc, &c.int_par.xh, &c.int_par.yh, &c.added_par.k1, &c.added_par.k2, &c.added_par.k3, &c.added_par.p1, &c.added_par.p2, &c.added_par.scx, &c.added_par.she}; return f[k]; }
static const char *parn[10] = {"cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scx", "she"};

static bool used(const CalibCase &k, int i, int useflag) {
    if (k.pix[i].pnr != i) return false;
    if (useflag == 1 && i % 2 == 0) return false;
    if (useflag == 2 && i % 2 != 0) return false;
    if (useflag == 3 && i % 3 == 0) return false;
    return true;
}
/* error estimates: unit weight error times the root of the diagonal of the inverse normal matrix,
   from numeric derivatives of the imaging of the adjusted camera */
static void check_sigma(Case &c, const Calibration &cal, CalibCase &k, const std::vector<int> &use, orient_par &op, const double *sig) {
    std::vector<int> par; for (int q = 0; q < 6; q++) par.push_back(q); for (int q = 0; q < 10; q++) if (*flagp(op, q)) par.push_back(6 + q);
    int m = (int)par.size(); std::vector<std::vector<double>> N(m, std::vector<double>(2 * m, 0.0));
    for (int i : use) {
        std::vector<double> gx(m), gy(m);
        for (int j = 0; j < m; j++) {
            double v[2][2];
            for (int s = 0; s < 2; s++) { Calibration t = cal; double *e[6] = {&t.ext_par.x0, &t.ext_par.y0, &t.ext_par.z0, &t.ext_par.omega, &t.ext_par.phi, &t.ext_par.kappa};
                double *p = par[j] < 6 ? e[par[j]] : parp(t, par[j] - 6); int q = par[j] - 6; double h = par[j] < 3 ? 1e-3 : par[j] < 6 ? 1e-6 : q == 0 ? 1e-3 : q < 3 ? 1e-5 : q == 3 ? 1e-8 : q == 4 ? 1e-10 : q == 5 ? 1e-12 : 1e-7;
                *p += s ? h : -h; rotation_matrix(&t.ext_par); img_coord(k.f()[i], &t, &k.s.mm, &v[s][0], &v[s][1]); v[s][0] /= 2 * h; v[s][1] /= 2 * h; }
            gx[j] = v[1][0] - v[0][0]; gy[j] = v[1][1] - v[0][1];
        }
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) N[a][b] += gx[a] * gx[b] + gy[a] * gy[b];
    }
    for (int a = 0; a < m; a++) { if (par[a] >= 6) N[a][a] += 1; N[a][m + a] = 1; }
    std::vector<double> sc(m); for (int a = 0; a < m; a++) { sc[a] = sqrt(N[a][a]); if (!(sc[a] > 0)) return; }
    for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) N[a][b] /= sc[a] * sc[b];
    for (int a = 0; a < m; a++) { int p = a; for (int b = a + 1; b < m; b++) if (fabs(N[b][a]) > fabs(N[p][a])) p = b; std::swap(N[a], N[p]); double d = N[a][a]; if (fabs(d) < 1e-9) { c.count("error estimates of nearly dependent parameters, skipped"); return; }
        for (double &x : N[a]) x /= d; for (int b = 0; b < m; b++) if (b != a) { double f = N[b][a]; for (int x = 0; x < 2 * m; x++) N[b][x] -= f * N[a][x]; } }
    for (int a = 0; a < m; a++) { double want = sig[19] * sqrt(N[a][m + a]) / sc[a], ratio = sig[par[a]] / want; c.eval();
        c.maxv("error estimate, log ratio to recomputed", fabs(log(ratio))); c.count("error estimates recomputed");
        if (getenv("DBG")) fprintf(stderr, "RATIO %d %g\n", par[a], ratio);
        if (!(ratio > 0.3 && ratio < 3)) c.fail("sigma", "error estimate of parameter %d is %g, recomputed %g", par[a], sig[par[a]], want); }
    for (int q = 0; q < 10; q++) if (!*flagp(op, q) && !(sig[6 + q] <= 1e-3 * sig[19] + 1e-12)) c.fail("sigma", "%s is not adjusted but its error estimate is %g", parn[q], sig[6 + q]);
}
void run_case(Case &c) {
    Rng &r = c.r;
    int mode = r.i(0, 9);   /* 0-2 exterior only, 3-5 with flags, 6 noise, 7 glass, 8 hopeless, 9 far start */
    CalibCase k; make_calib(r, k, 20, r.p(0.02) ? 1500 : 70, r.p(0.6) ? r.u(0.1, 1) : 0);
    if (k.n < 16) { c.count("scenes with too few visible points"); return; }
    orient_par op; memset(&op, 0, sizeof op);
    op.useflag = r.p(0.5) ? 0 : r.i(1, 3);
    Calibration truth = k.truth();
    /* detections that belong to no calibration point are marked by pnr != index */
    double drop = r.p(0.4) ? r.u(0, 0.25) : 0;
    for (int i = 0; i < k.n; i++) if (r.p(drop)) { k.pix[i].pnr = r.p(0.7) ? -999 : (i + 1) % k.n; if (r.p(0.8)) { k.pix[i].x = r.u(-500, 5000); k.pix[i].y = r.u(-500, 5000); } }
    if (mode == 8) { int keep = r.i(0, 2), seen = 0; for (int i = 0; i < k.n; i++) if (used(k, i, op.useflag) && seen++ >= keep) k.pix[i].pnr = -999; }
    std::vector<int> use; for (int i = 0; i < k.n; i++) if (used(k, i, op.useflag)) use.push_back(i);
    if (mode != 8 && use.size() < 12) return;
    double noise = 0;
    if (mode == 6) { noise = r.u(0.02, 0.3); for (int i : use) { k.pix[i].x += noise * r.n(); k.pix[i].y += noise * r.n(); } }
    Calibration start = truth;
    nudge_exterior(r, start, mode == 9 ? 0.6 : r.u(0.001, 0.015));
    bool anyflag = false;
    if ((mode >= 3 && mode <= 5) || ((mode == 6 || mode == 8 || mode == 9) && r.p(0.5))) {
        for (int q = 0; q < 10; q++) if (r.p(q < 3 ? 0.45 : 0.3)) {
            *flagp(op, q) = 1; anyflag = true;
            double &v = *parp(start, q);
            switch (q) { case 0: v *= 1 + r.u(-0.01, 0.01); break; case 1: case 2: v += r.u(-0.02, 0.02); break;
                case 3: v *= r.u(0.8, 1.2); break; case 4: case 5: v *= r.u(0.9, 1.1); break; case 6: case 7: v *= r.u(0.8, 1.2); break;
                case 8: v += r.u(-0.004, 0.004); break; case 9: v += r.u(-0.004, 0.004); break; }
        }
        /* flags are set, but the start is the truth: then the truth itself must come out */
        if (r.p(0.3)) { Calibration s2 = truth; s2.ext_par = start.ext_par; start = s2; }
    }
    if (mode == 7) { /* glass: rotate about the origin a little */
        op.interfflag = 1;
        V3 g = k.s.gl, t = unit(V3{r.n(), r.n(), r.n()}); t = t - unit(g) * dot(t, unit(g)); double a = r.u(0, 0.01);
        V3 g2 = unit(g + t * (a * len(g))) * len(g); start.glass_par.vec_x = g2.x; start.glass_par.vec_y = g2.y; start.glass_par.vec_z = g2.z;
    }
    Hash h; hash_scene(h, k.s); h.b(&start, sizeof(start) - sizeof(start.mmlut)); h.b(&op, sizeof op); h.i(k.n); h.i((long)use.size()); c.distinct(h.h);
    /* copies exactly sized: ASan sees any access past them */
    std::vector<target> pix0 = k.pix; std::vector<double> fix0 = k.fix; control_par cp0 = k.s.cp; mm_np mm0 = k.s.mm; orient_par op0 = op;
    /* a lookup table that covers nothing of the scene: not used, but the calibration's own */
    double faraway[4] = {1, 1, 1, 1}; bool lut = r.p(0.15);
    if (lut) { start.mmlut.data = faraway; start.mmlut.nr = start.mmlut.nz = 2; start.mmlut.rw = 1; start.mmlut.origin[0] = start.mmlut.origin[1] = 0; start.mmlut.origin[2] = 1e8; c.count("calibrations with a lookup table"); }
    Calibration *cal = (Calibration *)malloc(sizeof *cal); memcpy(cal, &start, sizeof *cal);
    double *sig = (double *)malloc(20 * sizeof(double)); for (int i = 0; i < 20; i++) sig[i] = -77;
    double *res = orient(cal, &k.s.cp, k.n, k.f(), k.pix.data(), &op, sig);
    c.eval(); if (mode == 7) c.count("glass adjustments");
    if (memcmp(pix0.data(), k.pix.data(), sizeof(target) * k.n) || memcmp(fix0.data(), k.fix.data(), sizeof(double) * 3 * k.n) || memcmp(&cp0, &k.s.cp, sizeof cp0) || memcmp(&mm0, &k.s.mm, sizeof mm0) || memcmp(&op0, &op, sizeof op))
        c.fail("inputs-changed", "adjustment changed points, detections, parameters or flags");
    bool near = mode <= 6; if (near) { c.count("adjustments near the true camera"); if (res) c.count("adjustments near the true camera that converge"); }
    if (!res) {
        c.count("not converged");
        if (!same_cam(*cal, start)) c.fail("changed-on-failure", "no convergence, but the calibration changed");
        /* The projection is only solved to a tolerance: where a point lies at the edge of one more of its steps, the
           adjustment may go to and fro by 5e-5 for ever (once in 1e5 adjustments). That is so only for these very data. */
        if (near) { bool other = false; std::vector<target> moved = k.pix; double s2[20];
            for (int t = 0; t < 4 && !other; t++) { for (size_t i = 0; i < moved.size(); i++) { moved[i].x = k.pix[i].x + 0.01 * r.u(-1, 1); moved[i].y = k.pix[i].y + 0.01 * r.u(-1, 1); }
                Calibration again = start; double *q = orient(&again, &k.s.cp, k.n, k.f(), moved.data(), &op, s2); if (q) { other = true; free(q); } }
            if (other) { c.count("adjustments that stall for just these data"); near = false; } }
        if (near && !anyflag) c.fail("no-convergence", "mode %d: start near the true camera, exterior only, %zu points: no convergence", mode, use.size());
        if (near && anyflag) c.fail("no-convergence", "mode %d: start near the true camera, with interior flags, %zu points: no convergence", mode, use.size());
        if (mode == 7) c.count("glass adjustment not converged");
        if (mode == 8) c.count("too few points, refused");
    } else {
        c.count("converged");
        if (anyflag) c.count("converged with interior flags"); if (noise > 0) c.count("converged on noisy data"); if (mode == 7) c.count("converged with glass");
        if (memcmp(&cal->mmlut, &start.mmlut, sizeof start.mmlut)) c.fail("unselected-changed", "the lookup table was replaced");
        if (rot_err(cal->ext_par) > 1e-12) c.fail("matrix", "rotation matrix off its angles by %g", rot_err(cal->ext_par));
        for (int q = 0; q < 10; q++) if (!*flagp(op, q) && memcmp(parp(*cal, q), parp(start, q), 8))
            c.fail("unselected-changed", "%s not selected but changed %.17g -> %.17g", parn[q], *parp(start, q), *parp(*cal, q));
        if (!op.interfflag && memcmp(&cal->glass_par, &start.glass_par, sizeof(Glass))) c.fail("unselected-changed", "glass not selected but changed");
        if (op.interfflag && k.s.mm.n3 > 1.25) { double a = hypot(hypot(cal->glass_par.vec_x, cal->glass_par.vec_y), cal->glass_par.vec_z); if (fabs(a / len(k.s.gl) - 1) > 0.02) c.fail("glass-distance", "glass moved from distance %g to %g", len(k.s.gl), a); }
        /* residuals are those of the adjusted camera, for used points in order */
        double s2 = 0, worst = 0, st2 = 0, emax = 0; bool fin = true; int n = 0;
        for (int i : use) {
            double x, y, mx, my, tx, ty; img_coord(k.f()[i], cal, &k.s.mm, &x, &y); pixel_to_metric(&mx, &my, k.pix[i].x, k.pix[i].y, &k.s.cp);
            img_coord(k.f()[i], &truth, &k.s.mm, &tx, &ty);
            double ex = x - mx, ey = y - my; if (!std::isfinite(ex) || !std::isfinite(ey)) { fin = false; break; }
            s2 += ex * ex + ey * ey; emax = std::max(emax, hypot(ex, ey)); worst = std::max(worst, std::max(fabs(res[2 * n] - ex), fabs(res[2 * n + 1] - ey)));
            st2 += (tx - mx) * (tx - mx) + (ty - my) * (ty - my); n++;
        }
        if (!fin) { c.fail("not-finite", "mode %d, %zu points: converged to a camera that images nowhere", mode, use.size()); }
        else if (mode <= 7 && emax < 1) {
            /* the adjustment stops with steps up to 1e-5 in every parameter */
            double pixm = std::max(fabs(k.s.cp.pix_x), fabs(k.s.cp.pix_y)); (void)pixm;
            c.maxv("residual minus recomputed image error (mm)", worst);
            if (worst > 1e-5) c.fail("residuals", "mode %d: reported residuals off by %g from those of the adjusted camera", mode, worst);
            /* cost: sum of squares + pull of selected interior parameters to their start values. It cannot exceed the true camera's. */
            double cost = s2, ct = st2;
            for (int q = 0; q < 10; q++) if (*flagp(op, q)) { double a = *parp(*cal, q) - *parp(start, q), b = *parp(truth, q) - *parp(start, q); cost += a * a; ct += b * b; }
            double tol = 1e-6 * sqrt(2.0 * n) ;
            if (near) {
                c.maxv(anyflag ? "cost / cost of true camera, flags (root)" : noise > 0 ? "cost / cost of true camera, noise (root)" : "image error on exact data (mm)", anyflag || noise > 0 ? std::max(0.0, sqrt(cost) - tol) / (sqrt(ct) + 1e-9) : emax);
                if (sqrt(cost) > sqrt(ct) * (anyflag ? 1.02 : 1.0 + 1e-6) + tol) c.fail("not-optimal", "mode %d flags %d noise %g: root cost %g, the true camera has %g (n=%d)", mode, anyflag, noise, sqrt(cost), sqrt(ct), n);
            }
            if (mode == 7) { c.maxv("image error with glass adjusted (mm)", emax); if (emax > 5e-4) c.fail("glass-not-recovered", "image error %g after adjusting camera and glass on exact data", emax); }
            int np = op.interfflag ? 18 : 16;
            for (int q = 0; q < np; q++) if (!(sig[q] >= 0) && !(noise == 0 && std::isnan(sig[q]))) c.fail("sigma", "error estimate %d is %g", q, sig[q]);
            for (int q = 0; q < 10; q++) { double d = *parp(*cal, q) - *parp(start, q); if (!(fabs(res[2 * n + q] - d) <= 2e-5 + 1e-6 * fabs(d))) c.fail("change-report", "%s changed by %g, reported %g", parn[q], d, res[2 * n + q]); }
            if (noise > 0 && np == 16 && n > 12) check_sigma(c, *cal, k, use, op, sig);
            double dof = 2.0 * n + 10 - np;
            if (dof > 0 && cost > 1e-10) { double e = fabs(sig[19] * sig[19] * dof / cost - 1); c.maxv("unit weight error vs recomputed", e); if (e > 0.01) c.fail("sigma0", "unit weight error %g, recomputed %g", sig[19], sqrt(cost / dof)); }
        }
        free(res);
    }
    /* unused detections have no effect: the same adjustment with other garbage there */
    if (r.p(0.35)) {
        Calibration *cal2 = (Calibration *)malloc(sizeof *cal2); memcpy(cal2, &start, sizeof *cal2);
        for (int i = 0; i < k.n; i++) if (!used(k, i, op.useflag)) { k.pix[i].x = r.u(-1e4, 1e4); k.pix[i].y = r.u(-1e4, 1e4); k.pix[i].n = 1; for (int j = 0; j < 3; j++) k.fix[3 * i + j] = r.u(-100, 100); }
        double sig2[20]; double *res2 = orient(cal2, &k.s.cp, k.n, k.f(), k.pix.data(), &op, sig2);
        c.eval(); c.count("repeated with other unused data");
        if ((res2 == NULL) != (res == NULL)) c.fail("unused-effect", "unused points decide whether it converges");
        else if (!same_cam(*cal, *cal2)) c.fail("unused-effect", "unused points change the adjusted camera");
        free(res2); free(cal2);
    }
    if (c.idx < 4) c.sample("mode %d, %zu of %d points, flags %d: %s", mode, use.size(), k.n, anyflag, res ? "converged" : "not converged");
    free(cal); free(sig);
}
