/* C08: epipolar segments. */
#include "scene.hpp"
const char *CHECK_RULE = "distinct epipolar segments (hash of the camera pair, volume bounds and image point)";
static double segdist(double px, double py, double ax, double ay, double bx, double by) {
    double ux = bx - ax, uy = by - ay, l2 = ux * ux + uy * uy, t = l2 > 0 ? ((px - ax) * ux + (py - ay) * uy) / l2 : 0; t = std::max(0.0, std::min(1.0, t)); return hypot(px - ax - t * ux, py - ay - t * uy); }
void run_case(Case &c) {
    Rng &r = c.r; Scene s; SceneOpt o; o.mincams = 2; o.maxcams = 4; o.nlay = 1; o.air = r.p(0.3); o.distortion = 0; make_scene(r, s, o);
    volume_par &vp = s.vp; bool slant = r.p(0.6);
    vp.X_lay[0] = s.off.x - s.half * r.u(0.5, 1.5); vp.X_lay[1] = s.off.x + s.half * r.u(0.5, 1.5); if (r.p(0.2)) { std::swap(vp.X_lay[0], vp.X_lay[1]); }
    for (int k = 0; k < 2; k++) { vp.Zmin_lay[k] = s.off.z - s.half * r.u(0.2, 0.9); vp.Zmax_lay[k] = s.off.z + s.half * r.u(0.2, 0.9); }
    if (!slant) { vp.Zmin_lay[1] = vp.Zmin_lay[0]; vp.Zmax_lay[1] = vp.Zmax_lay[0]; }
    auto bounds = [&](double X, double *z0, double *z1) { double t = (X - vp.X_lay[0]) / (vp.X_lay[1] - vp.X_lay[0]); *z0 = (1 - t) * vp.Zmin_lay[0] + t * vp.Zmin_lay[1]; *z1 = (1 - t) * vp.Zmax_lay[0] + t * vp.Zmax_lay[1]; };
    Hash hs; hash_scene(hs, s);
    for (int q = 0; q < 8; q++) {
        int a = r.i(0, s.nc - 1), b = r.i(0, s.nc - 2); if (b >= a) b++;
        double p[3]; rand_point(r, s, p); toward(s, p, 0.8);
        double xl, yl; flat_image_coord(p, s.cal[a], &s.mm, &xl, &yl);
        vec3d pos, v; ray_tracing(xl, yl, s.cal[a], s.mm, pos, v); if (fabs(v[2]) < 0.2) continue;
        double z0, z1; bounds(pos[0], &z0, &z1);
        /* the glass may be tilted: keep the depth range on the water side */
        auto at = [&](double z, double *X) { for (int k = 0; k < 3; k++) X[k] = pos[k] + (z - pos[2]) / v[2] * v[k]; X[2] = z; };
        double A[3], B[3]; at(z0, A); at(z1, B); double G = len(s.gl); if (dot(v3(A), s.nrm) > G - 0.5 || dot(v3(B), s.nrm) > G - 0.5) { c.count("range reaches the glass, skipped"); continue; }
        double lim = 0.35 * 1.0; (void)lim;
        double xa, ya, xb, yb; volume_par v0 = vp; mm_np m0 = s.mm;
        epi_mm(xl, yl, s.cal[a], s.cal[b], &s.mm, &vp, &xa, &ya, &xb, &yb);
        c.eval(); Hash h = hs; h.d(xl); h.d(yl); h.b(&vp, sizeof vp); h.i(a * 8 + b); c.distinct(h.h);
        if (memcmp(&v0, &vp, sizeof vp) || memcmp(&m0, &s.mm, sizeof m0)) c.fail("inputs-changed", "volume or media parameters changed");
        double ex, ey, fx, fy; flat_image_coord(A, s.cal[b], &s.mm, &ex, &ey); flat_image_coord(B, s.cal[b], &s.mm, &fx, &fy);
        double cc = s.cal[b]->int_par.cc, tol = 1e-7 * cc;
        /* the direction of the segment is not promised: accept either end first */
        double d1 = std::max(hypot(xa - ex, ya - ey), hypot(xb - fx, yb - fy)), d2 = std::max(hypot(xa - fx, ya - fy), hypot(xb - ex, yb - ey));
        c.maxv("end point error / focal length", std::min(d1, d2) / cc);
        if (!(std::min(d1, d2) <= tol)) c.fail("ends", "segment (%g,%g)-(%g,%g), ray at depth bounds %g..%g images at (%g,%g) and (%g,%g)", xa, ya, xb, yb, z0, z1, ex, ey, fx, fy);
        /* the true match lies on it; the refracted image of a straight ray bows a little, bounded by its sag */
        double lo = std::min(z0, z1), hi = std::max(z0, z1);
        for (int w = 0; w < 4; w++) {
            double z = w == 0 ? p[2] : r.u(lo, hi); if (z < lo || z > hi) continue;
            double P[3]; at(z, P); if (w == 0) memcpy(P, p, sizeof P);
            double x, y; flat_image_coord(P, s.cal[b], &s.mm, &x, &y);
            double sag = 0; for (int k = 1; k < 8; k++) { double S[3], sx, sy; at(z0 + (z1 - z0) * k / 8, S); flat_image_coord(S, s.cal[b], &s.mm, &sx, &sy); sag = std::max(sag, segdist(sx, sy, ex, ey, fx, fy)); }
            double d = segdist(x, y, xa, ya, xb, yb), len_ = hypot(xb - xa, yb - ya); c.eval(); c.count(w ? "points of the line of sight" : "true matches"); if (slant) c.count("with slanted bounds");
            double t2 = 1.3 * sag + 2e-5 * cc; if (s.mm.n3 == 1 && s.mm.n2[0] == 1) t2 = 1e-4 * cc / 5;
            c.maxv("distance from the segment / focal length", d / cc); c.maxv("sag / focal length", sag / cc);
            if (!(d <= t2)) c.fail("off-segment", "true match at distance %g from its segment of length %g (sag %g, bound %g)", d, len_, sag, t2);
        }
        /* single camera: middle of the range */
        vec3d out; epi_mm_2D(xl, yl, s.cal[a], &s.mm, &vp, out); c.eval(); double M[3]; at(0.5 * (z0 + z1), M);
        if (!(len(v3(out) - v3(M)) <= 1e-8 * (1 + len(v3(M))))) c.fail("middle", "(%g, %g, %g), expected (%g, %g, %g)", out[0], out[1], out[2], M[0], M[1], M[2]);
    }
    /* extent of the imaged volume */
    double lo = std::min(vp.Zmin_lay[0], vp.Zmin_lay[1]), hi = std::max(vp.Zmax_lay[0], vp.Zmax_lay[1]);
    for (auto &k : s.store) if (r.p(0.5)) random_distortion(r, k.added_par, hypot(s.cp.imx * s.cp.pix_x, s.cp.imy * s.cp.pix_y) / 2, 1);
    double e[6] = {-1e18, 1e18, -1e18, 1e18, 0, 0}, f[6]; memcpy(f, e, sizeof e);
    volumedimension(&e[0], &e[1], &e[2], &e[3], &e[4], &e[5], &vp, &s.cp, s.cal.data()); c.eval();
    bool wide = false;
    for (int k = 0; k < s.nc; k++) for (int i = 0; i < 4; i++) for (int z = 0; z < 2; z++) {
        double px = i & 1 ? s.cp.imx : 0, py = i & 2 ? s.cp.imy : 0, x = (px - s.cp.imx / 2.0) * s.cp.pix_x, y = (s.cp.imy / 2.0 - py) * s.cp.pix_y; if (s.cp.chfield) { return; }
        correct_brown_affin(x - s.cal[k]->int_par.xh, y - s.cal[k]->int_par.yh, s.cal[k]->added_par, &x, &y);
        vec3d pos, v; ray_tracing(x, y, s.cal[k], s.mm, pos, v); if (fabs(v[2]) < 0.05) wide = true; double Z = z ? hi : lo, X = pos[0] + (Z - pos[2]) * v[0] / v[2], Y = pos[1] + (Z - pos[2]) * v[1] / v[2];
        f[0] = std::max(f[0], X); f[1] = std::min(f[1], X); f[2] = std::max(f[2], Y); f[3] = std::min(f[3], Y); }
    if (!wide) { c.count("volume extents"); for (int k = 0; k < 4; k++) if (!(fabs(e[k] - f[k]) <= 1e-7 * (1 + fabs(f[k])))) c.fail("extent", "bound %d of the imaged volume is %g, rays of the image corners give %g", k, e[k], f[k]);
        if (e[4] != hi || e[5] != lo) c.fail("extent", "depth range %g..%g, bounds %g..%g", e[5], e[4], lo, hi); }
    if (c.idx < 3) c.sample("%d cameras, slanted %d", s.nc, slant);
}
