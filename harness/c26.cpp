/* C26: vector and matrix kernels, dumbbell measure. Oracle: long double definitions. */
#include "scene.hpp"
const char *CHECK_RULE = "distinct kernel executions (hash of kernel, sizes, overlap and data)";
typedef long double L;
static double val(Rng &r) { switch (r.i(0, 9)) { case 0: return 0; case 1: return -0.0; case 2: return r.i(-5, 5); case 3: return r.u(-1, 1) * 1e-9; case 4: return r.u(-1, 1) * 1e7; default: return r.n(); } }
static bool rel(double a, L b, L scale) { return fabsl((L)a - b) <= 1e-13L * scale + 1e-300L; }
static void vectors(Case &c) {
    Rng &r = c.r; int op = r.i(0, 12), ov = r.i(0, 2); Hash h; h.i(op); h.i(ov);
    double *a = (double *)malloc(24), *b = (double *)malloc(24), *o = (double *)malloc(24);
    for (int k = 0; k < 3; k++) { a[k] = val(r); b[k] = val(r); o[k] = r.n(); }
    if (r.p(0.1)) { double q = r.pick({1e-14, 1e-20, 1e-60, 1e-120, 1e30, 1e100}); for (int k = 0; k < 3; k++) { a[k] *= q; if (r.p(0.7)) b[k] *= q; } }
    if (r.p(0.1)) memset(a, 0, 24); if (r.p(0.2)) memcpy(b, a, 24); if (r.p(0.1)) { memcpy(b, a, 24); int k = r.i(0, 2); b[k] = nextafter(b[k], r.p(0.5) ? 1e300 : -1e300); } if (r.p(0.15)) { memcpy(b, a, 24); b[r.i(0, 2)] += r.pick({1e-12, -1e-6, 0.5}); }
    double A[3], B[3]; memcpy(A, a, 24); memcpy(B, b, 24); h.b(A, 24); h.b(B, 24);
    bool bin = op == 0 || op == 1; /* output on an input where callers do so: elementwise operations */
    double *out = ov == 1 ? a : ov == 2 && bin ? b : o; double s = val(r); h.d(s);
    L e[3]; bool vec = true; const char *nm = "";
    switch (op) {
    case 0: nm = "vec_add"; vec_add(a, b, out); for (int k = 0; k < 3; k++) e[k] = A[k] + B[k]; break;
    case 1: nm = "vec_subt"; vec_subt(a, b, out); for (int k = 0; k < 3; k++) e[k] = A[k] - B[k]; break;
    case 2: nm = "vec_scalar_mul"; vec_scalar_mul(a, s, out); for (int k = 0; k < 3; k++) e[k] = s * A[k]; break;
    case 3: nm = "vec_copy"; vec_copy(out, a); for (int k = 0; k < 3; k++) e[k] = A[k]; break;
    case 4: { nm = "unit_vector"; unit_vector(a, out); L n = sqrtl((L)A[0] * A[0] + (L)A[1] * A[1] + (L)A[2] * A[2]); for (int k = 0; k < 3; k++) e[k] = n == 0 ? (L)A[k] : A[k] / n; break; }
    case 5: nm = "vec_cross"; out = o; vec_cross(a, b, o); for (int k = 0; k < 3; k++) { int i = (k + 1) % 3, j = (k + 2) % 3; e[k] = (L)A[i] * B[j] - (L)A[j] * B[i]; } break;
    case 6: nm = "vec_set"; vec_set(out, A[2], s, B[0]); e[0] = A[2]; e[1] = s; e[2] = B[0]; break;
    default: vec = false; out = o;
    }
    c.eval(); c.distinct(h.h);
    if (vec) {
        L sc = 0; for (int k = 0; k < 3; k++) sc = std::max(sc, fabsl(e[k])); if (op == 5) { L x = 0, y = 0; for (int k = 0; k < 3; k++) { x = std::max(x, fabsl(A[k])); y = std::max(y, fabsl(B[k])); } sc = x * y; }
        for (int k = 0; k < 3; k++) if (!(op == 5 ? rel(out[k], e[k], sc) : rel(out[k], e[k], fabsl(e[k])))) { c.fail(nm, "%s overlap %d: component %d is %.17g expected %.17Lg (a=%g %g %g b=%g %g %g s=%g)", nm, out == a ? 1 : out == b ? 2 : 0, k, out[k], e[k], A[0], A[1], A[2], B[0], B[1], B[2], s); break; }
        if (out != o) c.count("overlapping calls");
    } else {
        double g = 0; L x = 0, sc = 1; 
        switch (op) {
        case 7: nm = "vec_norm"; g = vec_norm(a); x = sqrtl((L)A[0] * A[0] + (L)A[1] * A[1] + (L)A[2] * A[2]); sc = x; break;
        case 8: nm = "vec_diff_norm"; g = vec_diff_norm(a, b); { L d = 0; for (int k = 0; k < 3; k++) { L q = (L)A[k] - B[k]; d += q * q; sc += 0; } x = sqrtl(d); sc = 0; for (int k = 0; k < 3; k++) sc += fabsl(A[k]) + fabsl(B[k]); } break;
        case 9: nm = "vec_dot"; g = vec_dot(a, b); sc = 0; for (int k = 0; k < 3; k++) { x += (L)A[k] * B[k]; sc += fabsl((L)A[k] * B[k]); } break;
        case 10: nm = "vec_cmp"; g = vec_cmp(a, b) != 0; x = A[0] == B[0] && A[1] == B[1] && A[2] == B[2]; break;
        case 11: { nm = "vec_approx_cmp"; double eps = r.pick({1e-10, 1e-5, 0.5, 3.0}); g = vec_approx_cmp(a, b, eps) != 0; x = 1; for (int k = 0; k < 3; k++) if (fabs(A[k] - B[k]) > eps) x = 0; break; }
        case 12: nm = "vec_init"; vec_init(o); for (int k = 0; k < 3; k++) if (!std::isnan(o[k]) || !is_empty(o[k])) c.fail("vec_init", "component %d is %g", k, o[k]); break;
        }
        if (!rel(g, x, sc)) c.fail(nm, "%s is %.17g expected %.17Lg (a=%g %g %g b=%g %g %g)", nm, g, x, A[0], A[1], A[2], B[0], B[1], B[2]);
        if (op <= 11 && op >= 7 && (x == 0 || x == 1) && op >= 10) c.count(x ? "comparisons equal" : "comparisons different");
    }
    if (out != a && memcmp(a, A, 24)) c.fail("input-changed", "%s changed its first input", nm);
    if (out != b && memcmp(b, B, 24)) c.fail("input-changed", "%s changed its second input", nm);
    free(a); free(b); free(o);
}
static void fill(Rng &r, std::vector<double> &v, double sc) { for (auto &x : v) x = r.p(0.1) ? 0 : r.n() * sc; }
/* exactly sized heap copy: writes and reads beyond it trap */
struct Buf { double *p; size_t n; Buf(const std::vector<double> &v) { n = v.size(); p = (double *)malloc(n * 8); memcpy(p, v.data(), n * 8); } ~Buf() { free(p); } };
static void matrices(Case &c) {
    Rng &r = c.r; int op = r.i(0, 3); Hash h; h.i(op);
    int nl = r.i(1, r.p(0.02) ? 60 : r.p(0.2) ? 24 : 8), n = r.p(0.4) ? nl : r.i(1, nl), m = r.p(0.03) ? r.i(100, 2000) : r.i(op == 0 || op == 1 ? 0 : 1, 12); double sc = r.pick({1.0, 1.0, 100.0, 1e-3});
    h.i(nl); h.i(n); h.i(m); if (n < nl) c.count("sub-matrix calls");
    const double MARK = r.pick({12345.678, 12345.678, (double)NAN, (double)INFINITY}); auto moved = [](double x, double y) { return memcmp(&x, &y, 8) != 0; };
    if (op == 0) { /* ata */
        /* the last row of the matrix needs only its first n columns */
        std::vector<double> a(m ? (m - 1) * nl + n : 0); fill(r, a, sc); h.b(a.data(), a.size() * 8); Buf A(a); std::vector<double> out(n ? (n - 1) * nl + n : 0, MARK); Buf O(out);
        ata(A.p, O.p, m, n, nl); c.eval(); c.count("ata");
        for (int i = 0; i < n; i++) for (int j = 0; j < nl; j++) { if (i == n - 1 && j >= n) continue; double g = O.p[i * nl + j];
            if (j >= n) { if (moved(g, MARK)) c.fail("ata-outside", "m=%d n=%d n_large=%d: element %d,%d outside the sub-matrix changed", m, n, nl, i, j); continue; }
            L e = 0, s = 0; for (int k = 0; k < m; k++) { L t = (L)a[k * nl + i] * a[k * nl + j]; e += t; s += fabsl(t); }
            if (!rel(g, e, s)) { c.fail("ata", "m=%d n=%d n_large=%d: element %d,%d is %.15g expected %.15Lg", m, n, nl, i, j, g, e); i = n; break; } }
        if (a.size() && memcmp(A.p, a.data(), a.size() * 8)) c.fail("ata-input", "input changed");
    } else if (op == 1) { /* atl */
        std::vector<double> a(m ? (m - 1) * nl + n : 0), l(m), u(n, MARK); fill(r, a, sc); fill(r, l, 1); h.b(a.data(), a.size() * 8); Buf A(a), Lb(l), U(u);
        atl(U.p, A.p, Lb.p, m, n, nl); c.eval(); c.count("atl");
        for (int i = 0; i < n; i++) { L e = 0, s = 0; for (int k = 0; k < m; k++) { L t = (L)a[k * nl + i] * l[k]; e += t; s += fabsl(t); } if (!rel(U.p[i], e, s)) { c.fail("atl", "m=%d n=%d n_large=%d: element %d is %.15g expected %.15Lg", m, n, nl, i, U.p[i], e); break; } }
        if ((a.size() && memcmp(A.p, a.data(), a.size() * 8)) || (m && memcmp(Lb.p, l.data(), m * 8))) c.fail("atl-input", "input changed");
    } else if (op == 2) { /* matinv of a symmetric positive definite, or a diagonally dominant matrix */
        bool spd = r.p(0.5); std::vector<double> a((n - 1) * nl + n, MARK); for (int i = 0; i < n; i++) for (int j = 0; j < nl; j++) if (j < n) a[i * nl + j] = 0; else if (i * nl + j < (int)a.size()) a[i * nl + j] = r.n();
        if (spd) { int mm = n + 5; std::vector<double> q(mm * n); for (auto &x : q) x = r.n(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < mm; k++) s += q[k * n + i] * q[k * n + j]; a[i * nl + j] = (s + (i == j)) * sc; } }
        else for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) if (i != j) { a[i * nl + j] = r.n() * sc; s += fabs(a[i * nl + j]); } a[i * nl + i] = (r.p(0.5) ? 1 : -1) * (s * r.u(1.1, 3) + sc); }
        h.b(a.data(), a.size() * 8); Buf A(a); matinv(A.p, n, nl); c.eval(); c.count("matinv");
        for (int i = 0; i < n; i++) for (int j = 0; j < nl && i * nl + j < (int)a.size(); j++) if (j >= n && moved(A.p[i * nl + j], a[i * nl + j])) c.fail("matinv-outside", "n=%d n_large=%d: element %d,%d outside the sub-matrix changed", n, nl, i, j);
        L worst = 0, na = 0, ni = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { L e = 0; for (int k = 0; k < n; k++) e += (L)a[i * nl + k] * A.p[k * nl + j]; worst = std::max(worst, fabsl(e - (i == j))); if (!std::isfinite(A.p[i * nl + j])) worst = 1; na = std::max(na, fabsl(a[i * nl + j])); ni = std::max(ni, fabsl(A.p[i * nl + j])); }
        L lim = 1e-13L * n * (na * ni * n + 1) * 100; c.maxv("inverse residual / bound", (double)(worst / lim)); if (!(worst <= lim)) c.fail("matinv", "n=%d n_large=%d: product with the inverse off the identity by %Lg", n, nl, worst);
    } else { /* matmul */
        int k = r.p(0.5) ? 1 : r.i(1, r.p(0.05) ? 40 : 4), ml = r.p(0.5) ? m : r.i(m, m + 5);
        std::vector<double> b((m - 1) * nl + n), cc((n - 1) * k + k), a(ml * k, MARK); fill(r, b, sc); fill(r, cc, 1); h.b(b.data(), b.size() * 8); h.i(k);
        /* all rows complete, as documented: b is m_large x n_large, c n_large x k */
        b.resize((size_t)ml * nl, 3.0); cc.resize((size_t)nl * k, 7.0); Buf B(b), C(cc), A(a);
        matmul(A.p, B.p, C.p, m, n, k, ml, nl); c.eval(); c.count("matmul");
        for (int i = 0; i < ml; i++) for (int j = 0; j < k; j++) { double g = A.p[i * k + j]; if (i >= m) { if (moved(g, MARK)) c.fail("matmul-outside", "m=%d n=%d k=%d: element %d,%d outside changed", m, n, k, i, j); continue; }
            L e = 0, s = 0; for (int q = 0; q < n; q++) { L t = (L)b[i * nl + q] * cc[q * k + j]; e += t; s += fabsl(t); } if (!rel(g, e, s)) { c.fail("matmul", "m=%d n=%d k=%d m_large=%d n_large=%d: element %d,%d is %.15g expected %.15Lg", m, n, k, ml, nl, i, j, g, e); i = ml; break; } }
        if (memcmp(B.p, b.data(), b.size() * 8) || memcmp(C.p, cc.data(), cc.size() * 8)) c.fail("matmul-input", "input changed");
    }
    c.distinct(h.h);
}
static void dumbbell(Case &c) {
    Rng &r = c.r; Scene s; SceneOpt o; o.mincams = 2; o.maxcams = 4; o.air = r.p(0.3); make_scene(r, s, o);
    int pairs = r.i(1, 12), n = 2 * pairs, L0 = r.i(1, 30); double w = r.pick({0.0, 1.0, r.u(0, 50)}), noise = r.pick({0.0, 0.01, 0.2});
    vec2d **t = (vec2d **)malloc(n * sizeof *t);
    for (int i = 0; i < n; i++) t[i] = (vec2d *)malloc(s.nc * sizeof(vec2d));
    for (int i = 0; i < pairs; i++) { double p[2][3]; rand_point(r, s, p[0]); do { rand_point(r, s, p[1]); V3 d = unit(v3(p[1]) - v3(p[0])); double l = L0 * r.u(0.3, 1.7); if (r.p(0.7)) { p[1][0] = p[0][0] + d.x * l; p[1][1] = p[0][1] + d.y * l; p[1][2] = p[0][2] + d.z * l; } } while (len(v3(p[1]) - s.off) > s.half);
        for (int q = 0; q < 2; q++) for (int k = 0; k < s.nc; k++) { flat_image_coord(p[q], s.cal[k], &s.mm, &t[2 * i + q][k][0], &t[2 * i + q][k][1]); t[2 * i + q][k][0] += noise * r.u(-1, 1); t[2 * i + q][k][1] += noise * r.u(-1, 1); if (s.nc > 2 && r.p(0.1) && k > 1) t[2 * i + q][k][0] = t[2 * i + q][k][1] = COORD_UNUSED; } }
    Calibration **ca = (Calibration **)malloc(s.nc * sizeof *ca); memcpy(ca, s.cal.data(), s.nc * sizeof *ca);
    double g = weighted_dumbbell_precision(t, n, s.nc, &s.mm, ca, L0, w); c.eval(); c.count("dumbbell sets");
    L conv = 0, le = 0; bool shorter = false, longer = false; for (int i = 0; i < pairs; i++) { vec3d a, b; conv += point_position(t[2 * i], s.nc, &s.mm, ca, a); conv += point_position(t[2 * i + 1], s.nc, &s.mm, ca, b); L d = len(v3(a) - v3(b)); if (d < L0) shorter = true; else longer = true; le += 1 - std::min(d / L0, L0 / d); }
    L e = conv / n + w * le / pairs; if (shorter) c.count("sets with short dumbbells"); if (longer) c.count("sets with long dumbbells");
    Hash h; hash_scene(h, s); h.i(n); h.i(L0); h.d(w); c.distinct(h.h);
    if (!(fabsl(g - e) <= 1e-9L * (1 + fabsl(e)))) c.fail("dumbbell", "%d pairs, %d cameras, length %d weight %g: %.12g expected %.12Lg", pairs, s.nc, L0, w, g, e);
    if (c.idx < 200) c.sample("%d pairs, %d cameras, length %d weight %g: %g", pairs, s.nc, L0, w, g);
    for (int i = 0; i < n; i++) free(t[i]); free(t); free(ca);
}
void run_case(Case &c) { double u = c.r.u(); if (u < 0.4) vectors(c); else if (u < 0.9) matrices(c); else dumbbell(c); }
