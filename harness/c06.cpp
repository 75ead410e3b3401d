#include "scene.hpp"
/* C06: distortion model and its inverse */
const char *CHECK_RULE = "random radial/decentering/affine parameter sets (each term moves a corner by up to 3%), principal point shifts, "
    "points over the sensor plus the exact centre, near-centre and axis points; non-trivial when at least one parameter differs from the neutral one";
static void model(double x, double y, const ap_52 &a, double *ox, double *oy) {
    double r2 = x * x + y * y, rad = r2 * (a.k1 + r2 * (a.k2 + r2 * a.k3));
    double X = x + x * rad + a.p1 * (r2 + 2 * x * x) + 2 * a.p2 * x * y;
    double Y = y + y * rad + a.p2 * (r2 + 2 * y * y) + 2 * a.p1 * x * y;
    *ox = a.scx * X - sin(a.she) * Y; *oy = cos(a.she) * Y;
}
void run_case(Case &c) {
    Rng &r = c.r; Calibration cal; memset(&cal, 0, sizeof cal);
    double R = r.u(1, 15);
    random_distortion(r, cal.added_par, R, r.p(0.1) ? 0 : r.pick({0.1, 1.0, 2.0}));
    cal.int_par.cc = 50;
    bool pp = r.p(0.6);
    if (pp) { cal.int_par.xh = r.u(-0.05, 0.05) * R; cal.int_par.yh = r.u(-0.05, 0.05) * R; }
    ap_52 &a = cal.added_par;
    bool neutral = a.k1 == 0 && a.k2 == 0 && a.k3 == 0 && a.p1 == 0 && a.p2 == 0 && a.scx == 1 && a.she == 0;
    c.count(neutral ? "undistorted cameras" : "distorted cameras");
    for (int k = 0; k < 25; k++) {
        double x = r.u(-0.68, 0.68) * R, y = r.u(-0.68, 0.68) * R;
        if (k == 0) x = y = 0;                       /* flat centre */
        if (k == 1) { x = -cal.int_par.xh; y = -cal.int_par.yh; } /* sensor centre */
        if (k == 2) x = 0;
        if (k == 3) y = 0;
        if (k == 4) { x = r.u(-1, 1) * pow(10, -r.i(1, 15)); y = r.u(-1, 1) * pow(10, -r.i(1, 15)); }
        if (k == 5) x = -cal.int_par.xh;
        if (k == 6) y = -cal.int_par.yh;
        double px = x + cal.int_par.xh, py = y + cal.int_par.yh;
        double ex, ey; model(px, py, a, &ex, &ey);
        double u = 111.5, v = -222.5;
        flat_to_dist(x, y, &cal, &u, &v); c.eval();
        if (!(hypot(u - ex, v - ey) <= 1e-11 * R)) c.fail("distortion-model", "flat %.10g %.10g -> %.12g %.12g, model %.12g %.12g", x, y, u, v, ex, ey);
        double u2 = 3, v2 = 4; distort_brown_affin(px, py, a, &u2, &v2);
        if (!(hypot(u2 - ex, v2 - ey) <= 1e-11 * R)) c.fail("distortion-model-raw", "%.10g %.10g -> %.12g %.12g, model %.12g %.12g", px, py, u2, v2, ex, ey);
        double tol = pow(10, -r.i(5, 13));
        double fx = 333.5, fy = -444.5; dist_to_flat(u, v, &cal, &fx, &fy, tol); c.eval();
        double e = hypot(fx - x, fy - y);
        /* the loop stops on the relative change of the radius, then iterates once
           more: for contraction factors below 1/4 the error is below the tolerance
           except when the radius stands still by coincidence of its terms */
        double lim = 4 * tol * R + 1e-12 * R;
        c.maxv(tol > 1e-9 ? "inverse error / (tol*R), coarse tol" : "inverse error / (tol*R+eps), fine tol", e / (tol * R + 1e-13 * R));
        if (!(e <= lim)) c.fail("distort-correct-round-trip", "flat %.10g %.10g dist %.10g %.10g back %.10g %.10g err %.3g tol %g R %g k %g %g %g p %g %g aff %g %g", x, y, u, v, fx, fy, e, tol, R, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she);
        double cx = 1, cy = 2; correct_brown_affine_exact(px, py, a, &cx, &cy, 1e-13); double dx = 3, dy = 4; distort_brown_affin(cx, cy, a, &dx, &dy); c.eval();
        double e2 = hypot(dx - px, dy - py); c.maxv("correct-then-distort error / R", e2 / R);
        if (!(e2 <= 1e-10 * R)) c.fail("correct-distort-round-trip", "%.10g %.10g -> %.10g %.10g -> %.10g %.10g", px, py, cx, cy, dx, dy);
        double gx = 5, gy = 6; correct_brown_affin(px, py, a, &gx, &gy); c.eval();
        /* one-step correction: error of second order in the distortion */
        double mag = hypot(cx - px, cy - py), e3 = hypot(gx - cx, gy - cy); (void)mag;
        double pr = hypot(px, py), D = pr * (fabs(a.k1) * pr * pr + fabs(a.k2) * pow(pr, 4) + fabs(a.k3) * pow(pr, 6)) + 3 * (fabs(a.p1) + fabs(a.p2)) * pr * pr + (fabs(a.scx - 1) + fabs(a.she)) * pr;
        if (!(e3 <= (pr > 0 ? 12 * D * D / pr : 0) + 1e-13 * R)) c.fail("one-step-correction", "%.10g %.10g: one step %.10g %.10g exact %.10g %.10g", px, py, gx, gy, cx, cy);
        if (neutral && !(hypot(u - px, v - py) <= 1e-14 * R && hypot(cx - px, cy - py) <= 1e-14 * R)) c.fail("neutral-changes", "undistorted camera moved %g %g", px, py);
        double ax = px, ay = py; correct_brown_affin(ax, ay, a, &ax, &ay); if (ax != gx || ay != gy) c.fail("aliased-output", "%g %g vs %g %g", ax, ay, gx, gy);
        Hash h; h.d(x); h.d(y); h.d(a.k1); h.d(a.p1); h.d(a.she); if (!neutral) c.distinct(h.h);
    }
    c.sample("R %.2f k %.3g %.3g %.3g p %.3g %.3g scx %.4f she %.4f xh %.3f yh %.3f", R, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she, cal.int_par.xh, cal.int_par.yh);
}
