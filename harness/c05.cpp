#include "scene.hpp"
/* C05: pixel <-> metric */
const char *CHECK_RULE = "random image and pixel sizes (odd and even), all three field modes, positions on and off the sensor; non-trivial: every random position";
void run_case(Case &c) {
    Rng &r = c.r; control_par cp; memset(&cp, 0, sizeof cp); mm_np mm; memset(&mm, 0, sizeof mm); cp.mm = &mm;
    cp.imx = r.p(0.3) ? r.i(1, 20) : r.i(20, 8192); cp.imy = r.p(0.3) ? r.i(1, 20) : r.i(20, 8192);
    cp.pix_x = pow(10, r.u(-4, 1)); cp.pix_y = pow(10, r.u(-4, 1)); cp.chfield = r.i(0, 2); cp.num_cams = r.i(1, 4);
    c.count(sfmt("field mode %d", cp.chfield).c_str());
    for (int k = 0; k < 30; k++) {
        double px = r.u(-0.5, 1.5) * cp.imx, py = r.u(-0.5, 1.5) * cp.imy;
        if (k == 0) { px = 0; py = 0; } if (k == 1) { px = cp.imx / 2.; py = cp.imy / 2.; } if (k == 2) { px = cp.imx; py = cp.imy; }
        if (k > 20) { px = r.i(0, cp.imx); py = r.i(0, cp.imy); }
        double mx = 12345, my = 54321, bx = 77, by = 88;
        pixel_to_metric(&mx, &my, px, py, &cp); metric_to_pixel(&bx, &by, mx, my, &cp); c.eval(2);
        double e = std::max(fabs(bx - px) / (cp.imx + fabs(px)), fabs(by - py) / (cp.imy + fabs(py)));
        c.maxv("pixel round trip (relative)", e);
        if (!(e <= 1e-12)) c.fail("pixel-round-trip", "mode %d: %.12g %.12g -> %.12g %.12g", cp.chfield, px, py, bx, by);
        /* frame line of the field line: even field doubles, odd field doubles plus one */
        double fy = cp.chfield == 1 ? 2 * py + 1 : cp.chfield == 2 ? 2 * py : py;
        double ex = (px - cp.imx / 2.) * cp.pix_x, ey = (cp.imy / 2. - fy) * cp.pix_y;
        if (!(fabs(mx - ex) <= 1e-12 * (cp.imx * cp.pix_x + fabs(ex)) && fabs(my - ey) <= 1e-12 * (cp.imy * cp.pix_y + fabs(ey))))
            c.fail("metric-value", "mode %d image %dx%d pixel %g %g: (%g, %g) -> (%.12g, %.12g), expected (%.12g, %.12g)", cp.chfield, cp.imx, cp.imy, cp.pix_x, cp.pix_y, px, py, mx, my, ex, ey);
        double qx = r.u(-1, 1) * cp.imx * cp.pix_x, qy = r.u(-1, 1) * cp.imy * cp.pix_y, ux = 1, uy = 2, vx = 3, vy = 4;
        metric_to_pixel(&ux, &uy, qx, qy, &cp); pixel_to_metric(&vx, &vy, ux, uy, &cp); c.eval();
        double w = std::max(fabs(vx - qx) / (cp.imx * cp.pix_x), fabs(vy - qy) / (cp.imy * cp.pix_y));
        c.maxv("metric round trip (relative)", w);
        if (!(w <= 1e-12)) c.fail("metric-round-trip", "mode %d: %.12g %.12g -> %.12g %.12g", cp.chfield, qx, qy, vx, vy);
        /* input aliased with output, as callers do */
        double ax = px, ay = py; pixel_to_metric(&ax, &ay, ax, ay, &cp);
        if (ax != mx || ay != my) c.fail("aliased-output", "%g %g vs %g %g", ax, ay, mx, my);
        Hash h; h.d(px); h.d(py); h.i(cp.chfield); h.i(cp.imx); h.d(cp.pix_x); c.distinct(h.h);
    }
    c.sample("image %dx%d, pixel %g x %g, mode %d: 30 positions both ways", cp.imx, cp.imy, cp.pix_x, cp.pix_y, cp.chfield);
}
