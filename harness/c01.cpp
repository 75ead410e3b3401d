#include "scene.hpp"
/* C01: projection <-> back-projection, pinhole limit. */
const char *CHECK_RULE = "random camera pose, focal length, glass plane (tilted or not), media and distortion; 3D points in the "
    "volume; non-trivial when the projected point is finite and the media actually shift it or the camera is decentred";
static double point_line(const double *p, const double *v, const double *d) {
    V3 a = v3(p) - v3(v); return len(cross(a, v3(d))) / len(v3(d)); }
void run_case(Case &c) {
    Rng &r = c.r;
    Scene s; SceneOpt o;
    int kind = c.idx % 4;
    o.maxcams = 2; o.air = (kind == 1); o.glass_tilt = kind == 2 ? 0.0 : 0.7;
    o.cone = kind == 3 ? 1.0 : 0.6; o.half = r.pick({5.0, 20.0, 60.0}); o.sep = r.p(0.5);
    make_scene(r, s, o);
    bool axis = r.p(0.15);       /* camera looking exactly along the glass normal */
    for (int k = 0; k < s.nc; k++) {
        Calibration &cal = s.store[k];
        if (axis) { double dist = len(s.gl) + s.mm.d[0] + r.u(100, 500);
            V3 off = {r.u(-5, 5), r.u(-5, 5), 0}; if (r.p(0.5)) off = {0, 0, 0}; off = off + s.off;
            V3 cam = s.nrm * dist + off; look_at(cal.ext_par, cam, off, r.u(-3, 3)); c.count("camera on glass normal"); }
        rotation_matrix(&cal.ext_par);
        for (int j = 0; j < 12; j++) {
            vec3d p; rand_point(r, s, p);
            if (j == 0 && axis) { V3 f = v3(&cal.ext_par.x0) - s.nrm * r.u(len(s.gl) + 200, len(s.gl) + 300); /* straight below the camera */
                V3 q = v3(&cal.ext_par.x0); double h = dot(q, s.nrm) - r.u(-s.half, s.half); (void)f; q = q - s.nrm * h; p[0] = q.x; p[1] = q.y; p[2] = q.z; c.count("point on the camera normal"); }
            double xe, ye, sb = exact_project(s, cal, p, &xe, &ye);
            if (sb < 0 || sb > 0.88) { c.count("skipped: grazing incidence"); continue; }
            double x, y; flat_image_coord(p, &cal, &s.mm, &x, &y);
            c.eval();
            if (!std::isfinite(x) || !std::isfinite(y)) { c.fail("nonfinite-projection", "point %g %g %g -> %g %g", p[0], p[1], p[2], x, y); continue; }
            vec3d v, d; ray_tracing(x, y, &cal, s.mm, v, d);
            if (!finite3(v) || !finite3(d)) { c.fail("nonfinite-ray", "image %.17g %.17g -> %g %g %g / %g %g %g axis %d", x, y, v[0], v[1], v[2], d[0], d[1], d[2], axis); continue; }
            double e = point_line(p, v, d);
            c.maxv("ray misses point by", e);
            /* solver stops when the radial residual is below 0.001 */
            double tol = 1.0e-3 + 1e-9;
            if (!(e <= tol)) c.fail("ray-misses-point", "camera %d point %g %g %g: line of sight passes %g away (cam %g %g %g glass %g %g %g d %g n2 %g half %g kind %d axis %d n3 %g image %.17g %.17g dir %.17g %.17g %.17g dist %g)", k, p[0], p[1], p[2], e, cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, s.gl.x, s.gl.y, s.gl.z, s.mm.d[0], s.mm.n2[0], s.half, kind, axis, s.mm.n3, x, y, d[0],d[1],d[2], len(v3(&cal.ext_par.x0)-v3(p)));
            /* the point must be ahead along the line of sight */
            V3 f = v3(p) - v3(v); if (dot(f, v3(d)) <= 0) c.fail("ray-wrong-direction", "point behind the line of sight");
            if (o.air) {
                V3 a = v3(p) - v3(&cal.ext_par.x0); const Dmatrix &m = cal.ext_par.dm;
                M3 R = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa); (void)m;
                double dx = R.m[0][0] * a.x + R.m[1][0] * a.y + R.m[2][0] * a.z, dy = R.m[0][1] * a.x + R.m[1][1] * a.y + R.m[2][1] * a.z, dz = R.m[0][2] * a.x + R.m[1][2] * a.y + R.m[2][2] * a.z;
                double ex = -cal.int_par.cc * dx / dz, ey = -cal.int_par.cc * dy / dz;
                double q = std::max(fabs(x - ex), fabs(y - ey)); c.maxv("pinhole deviation", q); c.count("pinhole comparisons");
                if (!(q <= 1e-9 * (1 + cal.int_par.cc))) c.fail("not-pinhole", "got %.12g %.12g expected %.12g %.12g", x, y, ex, ey);
            }
            if (fabs(x) > 0.6 * s.cp.imx * s.cp.pix_x || fabs(y) > 0.6 * s.cp.imy * s.cp.pix_y) { c.count("outside the sensor"); continue; }
            /* distorted coordinates go through the same ray after correction */
            double dx, dy, fx, fy; img_coord(p, &cal, &s.mm, &dx, &dy);
            double gx, gy; flat_to_dist(x, y, &cal, &gx, &gy);
            if (!(fabs(gx - dx) + fabs(gy - dy) <= 1e-9)) c.fail("img-coord-inconsistent", "%g %g vs %g %g", dx, dy, gx, gy);
            dist_to_flat(dx, dy, &cal, &fx, &fy, 1e-12);
            vec3d v2, d2; ray_tracing(fx, fy, &cal, s.mm, v2, d2);
            double e2 = point_line(p, v2, d2); c.maxv("ray via distorted coordinates misses by", e2);
            double scale = dot(v3(&cal.ext_par.x0), s.nrm) / cal.int_par.cc * 1.5;
            if (!(e2 <= tol + 1e-8 * scale * s.cp.imx * s.cp.pix_x)) c.fail("distorted-ray-misses-point", "passes %g away: image %g %g sensor %g %g k %g %g %g p %g %g aff %g %g; back %g %g", e2, x, y, s.cp.imx * s.cp.pix_x / 2, s.cp.imy * s.cp.pix_y / 2, cal.added_par.k1, cal.added_par.k2, cal.added_par.k3, cal.added_par.p1, cal.added_par.p2, cal.added_par.scx, cal.added_par.she, fx, fy);
            Hash h; hash_scene(h, s); h.d(p[0]); h.d(p[1]); c.distinct(h.h);
            if (j == 1) c.sample("kind %d cam at %.1f %.1f %.1f glass %.1f %.1f %.1f n3 %.3f point %.2f %.2f %.2f -> image %.4f %.4f, ray misses by %.2e",
                kind, cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, s.gl.x, s.gl.y, s.gl.z, s.mm.n3, p[0], p[1], p[2], x, y, e);
        }
    }
}
