/* C07: triangulation. Oracle: independent closest-approach computation. */
#include "scene.hpp"
const char *CHECK_RULE = "distinct triangulations (hash of cameras and image positions)";
/* closest approach of two lines by solving the 2x2 normal equations */
static double approach(V3 p, V3 u, V3 q, V3 v, V3 *mid) {
    double a = dot(u, u), b = dot(u, v), c = dot(v, v), d = dot(u, p - q), e = dot(v, p - q), D = a * c - b * b;
    double s = (b * e - c * d) / D, t = (a * e - b * d) / D; V3 A = p + u * s, B = q + v * t; *mid = (A + B) * 0.5; return len(A - B);
}
void run_case(Case &c) {
    Rng &r = c.r;
    if (r.p(0.3)) { /* the kernel on its own: any skew lines, also unnormalised directions */
        double P[3], Q[3], U[3], W[3]; double sc = r.pick({1.0, 100.0, 1e-2}); for (int k = 0; k < 3; k++) { P[k] = r.n() * sc; Q[k] = r.n() * sc; U[k] = r.n(); W[k] = r.n(); }
        if (r.p(0.7)) { V3 u = unit(v3(U)), w = unit(v3(W)); U[0] = u.x; U[1] = u.y; U[2] = u.z; W[0] = w.x; W[1] = w.y; W[2] = w.z; }
        V3 cr = cross(unit(v3(U)), unit(v3(W))); if (len(cr) < 0.05) return;
        double b[4][3]; memcpy(b[0], P, 24); memcpy(b[1], U, 24); memcpy(b[2], Q, 24); memcpy(b[3], W, 24);
        vec3d out; double d = skew_midpoint(P, U, Q, W, out); V3 m; double e = approach(v3(P), v3(U), v3(Q), v3(W), &m); c.eval(); c.count("line pairs");
        Hash h; h.b(b, sizeof b); c.distinct(h.h);
        double tol = 1e-9 * sc / dot(cr, cr); if (!(fabs(d - e) < tol) || !(len(v3(out) - m) < tol)) c.fail("skew", "distance %.12g expected %.12g, midpoint off by %g", d, e, len(v3(out) - m));
        if (memcmp(b[0], P, 24) || memcmp(b[1], U, 24) || memcmp(b[2], Q, 24) || memcmp(b[3], W, 24)) c.fail("skew-inputs", "inputs changed");
        return;
    }
    Scene s; SceneOpt o; o.mincams = 2; o.maxcams = r.p(0.1) ? 8 : 4; o.nlay = 1; o.air = r.p(0.2); make_scene(r, s, o);
    int nc = s.nc; double p[3]; rand_point(r, s, p);
    bool exact = r.p(0.5); double off = exact ? 0 : r.pick({0.01, 0.1, 1.0});
    vec2d *t = (vec2d *)malloc(nc * sizeof(vec2d)); int seen = 0;
    for (int k = 0; k < nc; k++) {
        flat_image_coord(p, s.cal[k], &s.mm, &t[k][0], &t[k][1]);
        t[k][0] += off * r.u(-1, 1); t[k][1] += off * r.u(-1, 1);
        if (r.p(0.25)) { t[k][0] = COORD_UNUSED; t[k][1] = r.p(0.5) ? COORD_UNUSED : r.u(-5, 5); } else seen++;
    }
    if (seen < 2) { for (int k = 0; k < 2; k++) flat_image_coord(p, s.cal[k], &s.mm, &t[k][0], &t[k][1]); seen = 2; for (int k = 2; k < nc; k++) { if (t[k][0] != COORD_UNUSED) seen++; } if (off) exact = false; }
    std::vector<double> t0((double *)t, (double *)(t + nc)); std::vector<Calibration> cal0 = s.store;
    Calibration **ca = (Calibration **)malloc(nc * sizeof *ca); memcpy(ca, s.cal.data(), nc * sizeof *ca);
    vec3d res; double dist = point_position(t, nc, &s.mm, ca, res);
    c.eval(); Hash h; hash_scene(h, s); h.b(t0.data(), t0.size() * 8); c.distinct(h.h);
    if (memcmp(t0.data(), t, nc * sizeof(vec2d)) || memcmp(cal0.data(), s.store.data(), nc * sizeof(Calibration))) c.fail("inputs-changed", "triangulation changed its inputs");
    /* reference */
    std::vector<V3> V, D; double minang = 9; for (int k = 0; k < nc; k++) if (t[k][0] != COORD_UNUSED) { vec3d v, d; ray_tracing(t[k][0], t[k][1], s.cal[k], s.mm, v, d); V.push_back(v3(v)); D.push_back(v3(d)); }
    V3 sum{0, 0, 0}; double ds = 0; int np = 0; for (size_t a = 0; a < V.size(); a++) for (size_t b = a + 1; b < V.size(); b++) { V3 m; ds += approach(V[a], D[a], V[b], D[b], &m); sum = sum + m; np++; minang = std::min(minang, len(cross(unit(D[a]), unit(D[b])))); }
    if (minang < 0.02) { c.count("nearly parallel rays, not judged"); free(t); free(ca); return; }
    sum = sum * (1.0 / np); ds /= np;
    double tol = 1e-9 / (minang * minang) * (1 + len(V[0]));
    c.maxv("position error / bound", len(v3(res) - sum) / tol); c.maxv("convergence error / bound", fabs(dist - ds) / tol);
    if (!(len(v3(res) - sum) <= tol) || !(fabs(dist - ds) <= tol)) c.fail("average", "%d cameras, %zu used: position off by %g, measure %.12g expected %.12g (bound %g)", nc, V.size(), len(v3(res) - sum), dist, ds, tol);
    if (exact) {
        double e = len(v3(res) - v3(p)); double lim = 0.003 / minang; c.count("exact points"); c.maxv("exact point recovered within", e * minang); c.maxv("convergence measure of exact points", dist);
        if (!(e <= lim) || !(dist < 0.003)) c.fail("not-recovered", "exact projections in %zu cameras: off by %g (bound %g), measure %g", V.size(), e, lim, dist);
    }
    /* order of cameras */
    std::vector<int> perm(nc); std::iota(perm.begin(), perm.end(), 0); r.shuffle(perm); vec2d *tp = (vec2d *)malloc(nc * sizeof(vec2d)); Calibration **cp = (Calibration **)malloc(nc * sizeof *cp);
    for (int k = 0; k < nc; k++) { tp[k][0] = t[perm[k]][0]; tp[k][1] = t[perm[k]][1]; cp[k] = ca[perm[k]]; }
    vec3d r2; double d2 = point_position(tp, nc, &s.mm, cp, r2); c.eval(); if (!(len(v3(r2) - v3(res)) <= tol) || !(fabs(d2 - dist) <= tol)) c.fail("order", "other camera order: position off by %g, measure %g and %g", len(v3(r2) - v3(res)), dist, d2);
    /* only the cameras that see it, others replaced by garbage */
    Calibration junk; memset(&junk, 0xff, sizeof junk); for (int k = 0; k < nc; k++) if (t[k][0] == COORD_UNUSED) ca[k] = &junk;
    double d3 = point_position(t, nc, &s.mm, ca, r2); c.eval(); if (d3 != dist || memcmp(r2, res, sizeof res)) c.fail("unused-camera", "a camera that does not see the point has influence");
    int n = 0; for (int k = 0; k < nc; k++) if (t[k][0] != COORD_UNUSED) { tp[n][0] = t[k][0]; tp[n][1] = t[k][1]; cp[n++] = ca[k]; }
    double d4 = point_position(tp, n, &s.mm, cp, r2); c.eval(); if (!(fabs(d4 - dist) <= tol) || !(len(v3(r2) - v3(res)) <= tol)) c.fail("subset", "without the unused cameras: off by %g", len(v3(r2) - v3(res)));
    if (c.idx < 5) c.sample("%d cameras, %d used, disturbed by %g: measure %g", nc, seen, off, dist);
    free(t); free(tp); free(ca); free(cp);
}
