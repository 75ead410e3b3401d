/* C27: sorting routines. Oracle: ordered, and the same multiset of complete items. */
#include "common.hpp"
const char *CHECK_RULE = "distinct lists sorted (hash of routine and list)";
static double key(Rng &r, int mode, int i, int n) {
    switch (mode) { case 0: return r.u(0, 1000); case 1: return r.i(0, 5); case 2: return i; case 3: return n - i; case 4: return 7; case 5: return i % 2 ? i : n - i; case 6: return (i < n / 2 ? i : n - i); default: return r.p(0.05) ? r.u(-1e6, 1e6) : i; } }
template <class T> static bool same_items(std::vector<T> a, std::vector<T> b) {
    auto lt = [](const T &x, const T &y) { return memcmp(&x, &y, sizeof(T)) < 0; };
    std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); return a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(T)); }
template <class T> static T *heap(const std::vector<T> &v) { T *p = (T *)malloc(v.size() * sizeof(T)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
void run_case(Case &c) {
    Rng &r = c.r; int op = r.i(0, 4), mode = r.i(0, 7); int n = r.p(0.15) ? 0 : r.p(0.15) ? 1 : r.p(0.5) ? r.i(2, 8) : r.i(2, r.p(0.001) ? 20000 : r.p(0.02) ? 3000 : 60); Hash h; h.i(op); h.i(n);
    if (n == 0) c.count("empty lists"); if (mode == 1 || mode == 4) c.count("lists with equal keys");
    if (op == 0) {
        std::vector<n_tupel> v(n); for (int i = 0; i < n; i++) { memset(&v[i], 0, sizeof v[i]); for (int k = 0; k < 4; k++) v[i].p[k] = r.i(-1, 500); v[i].corr = key(r, mode, i, n); }
        n_tupel *p = heap(v); quicksort_con(p, n); std::vector<n_tupel> w(p, p + n); free(p); h.b(v.data(), n * sizeof(n_tupel)); c.count("groups by quality");
        for (int i = 1; i < n; i++) if (!(w[i - 1].corr >= w[i].corr)) { c.fail("con-order", "%d groups: %g before %g", n, w[i - 1].corr, w[i].corr); break; }
        if (!same_items(v, w)) c.fail("con-items", "sorting %d groups does not keep the same groups", n);
    } else if (op == 1) {
        std::vector<target> v(n); for (int i = 0; i < n; i++) { memset(&v[i], 0, sizeof v[i]); v[i].pnr = i; v[i].x = r.u(0, 999); v[i].y = key(r, mode, i, n); v[i].n = r.i(1, 99); v[i].nx = r.i(1, 9); v[i].ny = r.i(1, 9); v[i].sumg = r.i(0, 9999); v[i].tnr = r.i(-1, 99); }
        target *p = heap(v); quicksort_target_y(p, n); std::vector<target> w(p, p + n); free(p); h.b(v.data(), n * sizeof(target)); c.count("detections by y");
        for (int i = 1; i < n; i++) if (!(w[i - 1].y <= w[i].y)) { c.fail("target-order", "%d detections: %g before %g", n, w[i - 1].y, w[i].y); break; }
        if (!same_items(v, w)) c.fail("target-items", "sorting %d detections does not keep the same detections", n);
    } else if (op == 2) {
        std::vector<coord_2d> v(n); for (int i = 0; i < n; i++) { memset(&v[i], 0, sizeof v[i]); v[i].pnr = i; v[i].x = key(r, mode, i, n); v[i].y = r.u(-9, 9); }
        coord_2d *p = heap(v); quicksort_coord2d_x(p, n); std::vector<coord_2d> w(p, p + n); free(p); h.b(v.data(), n * sizeof(coord_2d)); c.count("coordinates by x");
        for (int i = 1; i < n; i++) if (!(w[i - 1].x <= w[i].x)) { c.fail("coord-order", "%d coordinates: %g before %g", n, w[i - 1].x, w[i].x); break; }
        if (!same_items(v, w)) c.fail("coord-items", "sorting %d coordinates does not keep the same coordinates", n);
    } else if (op == 3) {
        struct P { float a; int b; }; n = std::min(n, 200); std::vector<P> v(n), w(n); std::vector<float> a(n); std::vector<int> b(n);
        for (int i = 0; i < n; i++) { a[i] = (float)key(r, mode, i, n); b[i] = i * 3 + 1; v[i] = {a[i], b[i]}; }
        float *pa = heap(a); int *pb = heap(b); sort(n, pa, pb); for (int i = 0; i < n; i++) w[i] = {pa[i], pb[i]}; free(pa); free(pb); h.b(v.data(), n * sizeof(P)); c.count("link decisions");
        for (int i = 1; i < n; i++) if (!(w[i - 1].a <= w[i].a)) { c.fail("sort-order", "%d values: %g before %g", n, w[i - 1].a, w[i].a); break; }
        if (!same_items(v, w)) c.fail("sort-items", "sorting %d values does not keep value and index together", n);
    } else { /* link candidates by the number of cameras that agree */
        int nc = r.i(1, 4), tot = nc * MAX_CANDS, pool = r.i(1, 12); foundpix *it = (foundpix *)malloc(tot * sizeof *it); reset_foundpix_array(it, tot, nc);
        std::map<int, int> freq; std::map<int, std::set<int>> cams; std::vector<int> order;
        for (int k = 0; k < nc; k++) { std::vector<int> ids(pool); std::iota(ids.begin(), ids.end(), 0); r.shuffle(ids); int m = r.i(0, std::min(pool, MAX_CANDS)); for (int j = 0; j < m; j++) { it[k * MAX_CANDS + j].ftnr = ids[j]; it[k * MAX_CANDS + j].whichcam[k] = 1; freq[ids[j]]++; cams[ids[j]].insert(k); } }
        h.b(it, tot * sizeof *it); int got = sort_candidates_by_freq(it, nc); c.count("candidate lists");
        int want = 0, mx = 0; for (auto &f : freq) { if (f.second >= 2) want++; mx = std::max(mx, f.second); }
        /* when no two cameras agree, one of the candidates may be kept */
        bool lone = mx == 1; if (lone) c.count("candidate lists without agreement");
        if (!(got == want || (lone && got == 1))) c.fail("cands-count", "%d cameras: %d candidates reported, %d seen by several cameras", nc, got, want);
        std::set<int> seen; for (int i = 0; i < got && i < tot; i++) {
            if (!freq.count(it[i].ftnr)) { c.fail("cands-invented", "candidate %d was not in the list", it[i].ftnr); break; }
            if (it[i].freq != freq[it[i].ftnr]) c.fail("cands-freq", "candidate %d seen by %d cameras reported as %d", it[i].ftnr, freq[it[i].ftnr], it[i].freq);
            if (i && it[i - 1].freq < it[i].freq) c.fail("cands-order", "candidate with %d after one with %d", it[i].freq, it[i - 1].freq);
            if (!seen.insert(it[i].ftnr).second) c.fail("cands-duplicate", "candidate %d twice", it[i].ftnr);
            for (int k = 0; k < nc; k++) if ((it[i].whichcam[k] != 0) != (cams[it[i].ftnr].count(k) != 0)) { c.fail("cands-cameras", "candidate %d: camera %d mark %d", it[i].ftnr, k, it[i].whichcam[k]); break; } }
        for (int i = got; i < tot; i++) if (it[i].freq != 0) { c.fail("cands-rest", "entry %d after the %d candidates is not empty", i, got); break; }
        free(it);
    }
    c.eval(); c.distinct(h.h); if (c.idx < 5) c.sample("routine %d, %d items, order type %d", op, n, mode);
}
