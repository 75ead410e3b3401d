#include "scene.hpp"
/* C02: Snell's law on traced rays; exact multi-layer projection. */
const char *CHECK_RULE = "random cameras, glass planes and media stacks (1-3 layers); random image points on and somewhat off the sensor; "
    "each traced ray is compared with an independently computed refracted ray, each projection with the exact refracted path found by bisection";
static void trace_case(Case &c, Scene &s, Calibration &cal, double x, double y, const char *kind) {
    vec3d X, d;
    mm_np m = s.mm;
    ray_tracing(x, y, &cal, m, X, d);
    c.eval(); c.count("rays traced");
    /* independent computation */
    V3 n = s.nrm, C = v3(&cal.ext_par.x0); double G = len(s.gl);
    M3 R = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa);
    double il = 1 / sqrt(x * x + y * y + cal.int_par.cc * cal.int_par.cc);
    double cx = x * il, cy = y * il, cz = -cal.int_par.cc * il;
    V3 sdir = {R.m[0][0] * cx + R.m[0][1] * cy + R.m[0][2] * cz, R.m[1][0] * cx + R.m[1][1] * cy + R.m[1][2] * cz, R.m[2][0] * cx + R.m[2][1] * cy + R.m[2][2] * cz};
    double cosi = -dot(sdir, n);
    if (cosi < 0.1) { c.count("skipped: ray misses the glass"); return; }
    V3 par = cross(n, cross(sdir, n)); double si = len(par);
    if (si * m.n1 > 0.95 * std::min(m.n2[0], m.n3)) { c.count("skipped: near total reflection"); return; }
    auto refr = [&](double nn) { double st = si * m.n1 / nn; V3 o = n * -sqrt(std::max(0.0, 1 - st * st)); if (si > 0) o = o + par * (st / si); return o; };
    double hc = dot(C, n) - G - m.d[0];
    V3 a = C + sdir * (hc / cosi);
    V3 g = refr(m.n2[0]); a = a + g * (m.d[0] / -dot(g, n));
    V3 w = refr(m.n3);
    if (!finite3(X) || !finite3(d)) { c.fail("nonfinite-ray", "%s: image %g %g gives %g %g %g / %g %g %g", kind, x, y, X[0], X[1], X[2], d[0], d[1], d[2]); return; }
    double tp = len(a - v3(X)), td = len(w - v3(d)), sc = hc / cosi + 1;
    c.maxv("vertex deviation / path length", tp / sc); c.maxv("direction deviation", td);
    if (!(tp <= 2e-7 * sc)) c.fail("vertex", "%s: ray vertex %g %g %g should be %g %g %g", kind, X[0], X[1], X[2], a.x, a.y, a.z);
    if (!(td <= 4e-7)) c.fail("direction", "%s: direction %.9g %.9g %.9g should be %.9g %.9g %.9g (sin incidence %g)", kind, d[0], d[1], d[2], w.x, w.y, w.z, si);
    if (!(fabs(len(v3(d)) - 1) <= 1e-9)) c.fail("not-unit", "direction length %.12g", len(v3(d)));
    double pl = fabs(dot(v3(X), n) - G); if (!(pl <= 1e-8 * (1 + G + sc))) c.fail("vertex-off-glass", "vertex is %g off the water side of the glass", pl);
    /* Snell, stated directly on outputs */
    double sw = len(cross(v3(d), n)); if (!(fabs(m.n1 * si - m.n3 * sw) <= 6e-7)) c.fail("snell", "n1 sin = %.10g, n3 sin = %.10g", m.n1 * si, m.n3 * sw);
    double cop = fabs(dot(cross(sdir, n), v3(d))); if (!(cop <= 1e-8 + 4e-7 * si)) c.fail("not-coplanar", "triple product %g", cop);
}
void run_case(Case &c) {
    Rng &r = c.r; Scene s; SceneOpt o;
    o.maxcams = 1; o.nlay = -1; o.half = r.pick({5.0, 20.0, 50.0}); o.sep = false; o.glass_tilt = r.p(0.3) ? 0 : 0.9; o.distortion = 0;
    bool ray_only = r.p(0.5);
    if (ray_only) o.nlay = 1;
    make_scene(r, s, o);
    if (ray_only && r.p(0.3)) { s.mm.n1 = r.u(1.0, 1.4); s.mm.n3 = r.u(1.0, 1.5); s.mm.n2[0] = r.u(1.0, 1.7); c.count("camera side index above 1"); }
    Calibration &cal = s.store[0];
    bool axis = r.p(0.2);
    if (axis) { V3 cam = s.nrm * (len(s.gl) + s.mm.d[0] + r.u(50, 500)); look_at(cal.ext_par, cam, {0, 0, 0}, r.p(0.5) ? 0 : r.u(-3, 3)); }
    rotation_matrix(&cal.ext_par);
    double sx = s.cp.imx * s.cp.pix_x / 2, sy = s.cp.imy * s.cp.pix_y / 2;
    Hash h; hash_scene(h, s); c.distinct(h.h);
    if (ray_only) {
        for (int k = 0; k < 20; k++) {
            double x = r.u(-1.2, 1.2) * sx, y = r.u(-1.2, 1.2) * sy;
            if (k == 0) x = y = 0;
            if (k == 1) { x = r.u(-1, 1) * pow(10, -r.i(3, 16)); y = r.u(-1, 1) * pow(10, -r.i(3, 16)); }
            if (k == 2) x = 0;
            if (k == 3) y = 0;
            trace_case(c, s, cal, x, y, axis ? "axial camera" : "camera");
        }
        c.sample("camera %.1f %.1f %.1f, glass %.1f %.1f %.1f d %.2f n %.3f/%.3f/%.3f: 20 rays checked", cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, s.gl.x, s.gl.y, s.gl.z, s.mm.d[0], s.mm.n1, s.mm.n2[0], s.mm.n3);
    } else {
        if (axis) o.nlay = o.nlay;
        for (int k = 0; k < 20; k++) {
            vec3d p; rand_point(r, s, p);
            double xe, ye, sb = exact_project(s, cal, p, &xe, &ye);
            if (sb < 0 || sb > 0.85) { c.count("skipped: grazing"); continue; }
            double x, y; flat_image_coord(p, &cal, &s.mm, &x, &y);
            c.eval(); c.count(sfmt("projections through %d layers", s.mm.nlay).c_str());
            /* the solver's stop criterion is 0.001 radial; seen from the camera at its distance */
            double dist = len(v3(&cal.ext_par.x0) - v3(p));
            double zc = fabs(dot(v3(&cal.ext_par.x0) - v3(p), V3{cal.ext_par.dm[0][2], cal.ext_par.dm[1][2], cal.ext_par.dm[2][2]}));
            double tol = 0.0015 * cal.int_par.cc / zc * (dist / zc) + 1e-9;
            double e = hypot(x - xe, y - ye); c.maxv("projection deviation / tolerance", e / tol);
            if (!(e <= tol)) c.fail("refracted-projection", "%d layers: got %.8g %.8g, refracted path gives %.8g %.8g (tolerance %g)", s.mm.nlay, x, y, xe, ye, tol);
        }
    }
}
