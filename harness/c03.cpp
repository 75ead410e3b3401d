/* C03: the rotation matrix always belongs to the angles. */
#include "calib.hpp"
const char *CHECK_RULE = "distinct camera orientations (hash of the three angles) whose matrix was checked";
static void check(Case &c, const char *where, const Exterior &e, double tol) {
    c.eval(); Hash h; h.d(e.omega); h.d(e.phi); h.d(e.kappa); c.distinct(h.h);
    if (!std::isfinite(e.omega + e.phi + e.kappa)) return;
    double d = rot_err(e); c.maxv(where, d);
    if (!(d <= tol)) c.fail(where, "matrix off by %g for angles (%.10g, %.10g, %.10g)", d, e.omega, e.phi, e.kappa);
    double o = 0; const double (*m)[3] = e.dm; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += m[i][k] * m[j][k]; o = std::max(o, fabs(s - (i == j))); }
    double det = dot(v3(m[0]), cross(v3(m[1]), v3(m[2])));
    if (!(o < 1e-12 + 10 * tol) || !(fabs(det - 1) < 1e-12 + 10 * tol)) c.fail(where, "matrix is no rotation: orthonormality error %g, determinant %g", o, det);
}
void run_case(Case &c) {
    Rng &r = c.r; int kind = r.i(0, 9);
    auto ang = [&]() { return r.p(0.3) ? r.pick({0.0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, M_PI / 4, 1e-9, -0.0}) : r.p(0.2) ? r.u(-50, 50) : r.u(-3.2, 3.2); };
    if (kind < 5) {
        Exterior e; memset(&e, 0x5a, sizeof e); e.x0 = r.u(-9, 9); e.y0 = r.u(-9, 9); e.z0 = r.u(-9, 900); e.omega = ang(); e.phi = ang(); e.kappa = ang(); Exterior b = e;
        rotation_matrix(&e); c.count("matrices computed");
        check(c, "rotation_matrix", e, 1e-13);
        if (memcmp(&e, &b, offsetof(Exterior, dm))) c.fail("angles-changed", "computing the matrix changed position or angles");
        return;
    }
    if (kind < 8) {
        /* calibration files: the matrix text in the file may be stale, rounded or rubbish numbers */
        std::string o = Scratch::path("c.ori"), a = Scratch::path("c.addpar");
        double an[3] = {ang(), ang(), ang()}; M3 m = ref_rotation(an[0], an[1], an[2]); if (r.p(0.5)) m = ref_rotation(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); if (r.p(0.2)) memset(&m, 0, sizeof m);
        FILE *f = fopen(o.c_str(), "w"); fprintf(f, "%.8f %.8f %.8f\n%.8f %.8f %.8f\n\n", r.u(-500, 500), r.u(-500, 500), r.u(-500, 500), an[0], an[1], an[2]);
        for (int i = 0; i < 3; i++) fprintf(f, "%.7f %.7f %.7f\n", m.m[i][0], m.m[i][1], m.m[i][2]); fprintf(f, "\n%.4f %.4f\n%.4f\n\n%.15f %.15f %.15f\n", r.u(-1, 1), r.u(-1, 1), r.u(5, 90), 0.001, 0.002, r.u(10, 100)); fclose(f);
        f = fopen(a.c_str(), "w"); fprintf(f, "0 0 0 0 0 1 0"); fclose(f);
        Calibration *cal = read_calibration((char *)o.c_str(), r.p(0.8) ? (char *)a.c_str() : (char *)"/nonexistent", NULL);
        if (!cal) { c.fail("read", "well-formed calibration file not read"); return; }
        c.count("calibration files read"); check(c, "read_calibration", cal->ext_par, 1e-13);
        if (fabs(cal->ext_par.omega - an[0]) > 1e-8 || fabs(cal->ext_par.phi - an[1]) > 1e-8 || fabs(cal->ext_par.kappa - an[2]) > 1e-8) c.fail("read", "angles read differ from the file");
        /* written and read again */
        if (r.p(0.5)) { write_calibration(cal, (char *)o.c_str(), (char *)a.c_str()); Calibration *d = read_calibration((char *)o.c_str(), (char *)a.c_str(), NULL); if (d) check(c, "read_calibration", d->ext_par, 1e-13); else c.fail("read", "written file not read"); free(d); }
        free(cal); return;
    }
    CalibCase k; make_calib(r, k, 12, 40, r.p(0.5)); if (k.n < 8) return;
    Calibration cal = k.truth(); nudge_exterior(r, cal, r.pick({0.005, 0.05, 0.5, 3.0}));
    if (r.p(0.3)) k.n = r.i(0, 4);
    /* a stale matrix before the step must not survive it either */
    if (r.p(0.5)) memset(cal.ext_par.dm, 0, sizeof cal.ext_par.dm);
    if (kind == 8) {
        int ok = raw_orient(&cal, &k.s.cp, k.n, k.f(), k.pix.data()); c.count(ok ? "rough orientations that succeeded" : "rough orientations that failed"); check(c, "raw_orient", cal.ext_par, 1e-12);
    } else {
        if (r.p(0.5)) { double xd[6], yd[6]; Exterior b = cal.ext_par; num_deriv_exterior(&cal, &k.s.cp, 1e-5, 1e-7, k.f()[0], xd, yd); c.count("derivatives taken"); check(c, "num_deriv_exterior", cal.ext_par, 1e-13);
            if (fabs(b.omega - cal.ext_par.omega) > 1e-12 || fabs(b.phi - cal.ext_par.phi) > 1e-12 || fabs(b.kappa - cal.ext_par.kappa) > 1e-12 || fabs(b.x0 - cal.ext_par.x0) > 1e-9 || fabs(b.y0 - cal.ext_par.y0) > 1e-9 || fabs(b.z0 - cal.ext_par.z0) > 1e-9) c.fail("num_deriv_exterior", "taking derivatives moved the camera"); }
        set_ref_dm(cal.ext_par);
        orient_par op; memset(&op, 0, sizeof op); op.ccflag = r.p(0.3); op.k1flag = r.p(0.3); op.interfflag = r.p(0.3); double sig[20];
        double *res = orient(&cal, &k.s.cp, k.n, k.f(), k.pix.data(), &op, sig); c.count(res ? "adjustments that converged" : "adjustments that failed"); check(c, "orient", cal.ext_par, 1e-12); free(res);
    }
    if (c.idx < 40) c.sample("kind %d, angles (%.4g, %.4g, %.4g)", kind, cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa);
}
