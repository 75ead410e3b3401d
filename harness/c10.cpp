/* C10: rules every matching result obeys. Oracle: candidate lists rebuilt with
   epi_mm()/find_candidate() (decided by C08, C09), all cliques enumerated, and the
   result checked for one-use, quality order, acceptance and greedy completeness. */
#include "detect.hpp"
const char *CHECK_RULE = "distinct matching runs (hash of the scene, the detections and the limits) and group searches";
struct Cl { int p[4]; double q; };
/* the searches for complete groups on adjacency lists of any shape, with room for all groups or for fewer */
static void searches(Case &c) {
    Rng &r = c.r; int nc = r.i(2, 4), cnt[4]; for (int &n : cnt) n = r.pick({0, 1, 2, r.i(1, 8), r.i(3, 30)}); double dens = r.pick({0.05, 0.3, 0.8}); if (r.p(0.03)) { for (int &n : cnt) n = r.i(100, 160); dens = 0.03; }
    correspond *L[4][4]; memset(L, 0, sizeof L); std::vector<std::map<int, std::pair<double, double>>> A[4][4]; Hash h; h.i(nc);
    for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) { L[a][b] = (correspond *)malloc(cnt[a] * sizeof(correspond) + 1); A[a][b].resize(cnt[a]);
        for (int i = 0; i < cnt[a]; i++) { correspond &q = L[a][b][i]; memset(&q, 0x5a, sizeof q); q.p1 = i; q.n = 0; std::vector<int> o; for (int j = 0; j < cnt[b]; j++) if (r.p(dens)) o.push_back(j); if (r.p(0.3) && o.size() > 1) o.resize(1); if (r.p(0.5)) r.shuffle(o); if (o.size() > 60) o.resize(60);
            for (int j : o) { q.p2[q.n] = j; q.corr[q.n] = r.u(0.1, 100); q.dist[q.n] = r.u(1e-3, 1); A[a][b][i][j] = {q.corr[q.n], q.dist[q.n]}; q.n++; h.i(j); } } }
    int *use[4], *use0[4]; double used = r.pick({0.0, 0.0, 0.2, 0.6}); for (int k = 0; k < 4; k++) { use[k] = (int *)malloc(cnt[k] * sizeof(int) + 1); use0[k] = (int *)malloc(cnt[k] * sizeof(int) + 1); for (int i = 0; i < cnt[k]; i++) use0[k][i] = use[k][i] = r.p(used) ? r.i(1, 2) : 0; }
    double acc = r.pick({0.0, 50.0, r.u(0, 400)});
    typedef std::array<int, 4> G; 
    for (int m = std::min(nc, 4); m >= 2; m--) {
        if (m == 4 && nc < 4) continue; std::map<G, double> ref; double margin = 1e300;
        auto add = [&](G g) { double cs = 0, ds = 0; for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) if (g[a] >= 0 && g[b] >= 0) { auto it = A[a][b][g[a]].find(g[b]); if (it == A[a][b][g[a]].end()) return; cs += it->second.first; ds += it->second.second; } if (m < 4) for (int a = 0; a < nc; a++) if (g[a] >= 0 && use0[a][g[a]] > 0) return; double q = cs / ds; margin = std::min(margin, fabs(q - acc)); if (q > acc) ref[g] = q; };
        if (m == 4) { for (int i = 0; i < cnt[0]; i++) for (auto &x : A[0][1][i]) for (auto &y : A[0][2][i]) for (auto &z : A[0][3][i]) add({i, x.first, y.first, z.first}); }
        else if (m == 3) { for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) for (int d = b + 1; d < nc; d++) for (int i = 0; i < cnt[a]; i++) for (auto &x : A[a][b][i]) for (auto &y : A[a][d][i]) { G g = {-1, -1, -1, -1}; g[a] = i; g[b] = x.first; g[d] = y.first; add(g); } }
        else for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) for (int i = 0; i < cnt[a]; i++) if (A[a][b][i].size() == 1) { G g = {-1, -1, -1, -1}; g[a] = i; g[b] = A[a][b][i].begin()->first; add(g); }
        if (margin < 1e-9) { c.count("searches at the acceptance limit"); continue; }
        int room = (int)ref.size() + r.pick({1, 5}); bool tight = ref.size() && r.p(0.4); if (tight) room = r.i(1, (int)ref.size());
        n_tupel *s = (n_tupel *)malloc(room * sizeof(n_tupel)); memset((void *)s, 0x33, room * sizeof *s);
        int n = m == 4 ? four_camera_matching(L, cnt[0], acc, s, room) : m == 3 ? three_camera_matching(L, nc, cnt, acc, s, room, use) : consistent_pair_matching(L, nc, cnt, acc, s, room, use);
        c.eval(); c.count(sfmt("searches for groups of %d", m).c_str()); if (tight) c.count("searches with too little room"); c.count("groups found by the searches", n); h.i(n);
        if (n != std::min((int)ref.size(), room)) c.fail("search-count", "%d groups of %d found with %d cameras and room for %d, there are %zu", n, m, nc, room, ref.size());
        std::set<G> seen;
        for (int i = 0; i < n && i < room; i++) { G g = {-1, -1, -1, -1}; for (int k = 0; k < nc; k++) g[k] = s[i].p[k] < 0 ? -1 : s[i].p[k]; auto it = ref.find(g); if (it == ref.end()) { c.fail("search-group", "(%d,%d,%d,%d) is no group of %d", g[0], g[1], g[2], g[3], m); break; } if (!seen.insert(g).second) { c.fail("search-twice", "group found twice"); break; } if (!(fabs(s[i].corr - it->second) <= 1e-9 * fabs(it->second))) { c.fail("search-quality", "group of %d has quality %.12g, expected %.12g", m, s[i].corr, it->second); break; } }
        for (int k = 0; k < nc; k++) if (cnt[k] && memcmp(use[k], use0[k], cnt[k] * sizeof(int))) { c.fail("search-marks", "the search changed the used marks"); break; }
        free(s);
    }
    for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) free(L[a][b]);
    for (int k = 0; k < 4; k++) { free(use[k]); free(use0[k]); }
    c.distinct(h.h);
}
void run_case(Case &c) {
    if (c.r.p(0.15)) { for (int q = 0; q < 8; q++) searches(c); return; }
    Rng &r = c.r; Scene s; SceneOpt o; o.cams = r.pick({2, 3, 4, 4, 4}); o.nlay = 1; o.air = r.p(0.3); make_scene(r, s, o);
    int nc = s.nc; Detections D; D.nc = nc; D.num.assign(nc, 0); D.tg.assign(nc, 0);
    int style = r.i(0, 4); /* 0 random pixels, 1.. particle images with clutter, crowded */
    int np = r.pick({0, 1, 3, r.i(1, 12), r.i(5, 40), r.i(20, 90)}); if (c.idx % 211 == 7) np = 105;
    bool exact = false, huge = c.idx % 211 == 7, many = c.idx % 83 == 11; if (many) { np = r.i(120, 900); style = 1; exact = r.p(0.6); c.count("runs with many detections"); }
    std::vector<std::array<double, 3>> P(np); for (auto &p : P) { rand_point(r, s, p.data()); if (style == 3) toward(s, p.data(), 0.15); if (huge) toward(s, p.data(), 1e-3); }
    bool same = r.p(0.4), clones = r.p(0.15);
    for (int k = 0; k < nc; k++) {
        std::vector<target> v;
        for (int i = 0; i < np; i++) {
            if (!huge && r.p(style == 0 ? 0.0 : 0.15)) continue; double x, y; target t;
            if (style == 0 && !huge) { x = r.u(0, s.cp.imx); y = r.u(0, s.cp.imy); }
            else { img_coord(P[i].data(), s.cal[k], &s.mm, &x, &y); metric_to_pixel(&x, &y, x, y, &s.cp); double no = exact ? 0.02 : 0.5; x += r.u(-no, no); y += r.u(-no, no); }
            set_target(t, x, y, same ? 20 : r.i(5, 40), same ? 5 : r.i(3, 9), same ? 5 : r.i(3, 9), same ? 500 : r.i(200, 3000)); v.push_back(t);
            if (clones && r.p(0.2)) v.push_back(t);
        }
        int clutter = huge ? 0 : many ? r.pick({0, 100, 5000, 12000}) : r.p(0.5) ? r.i(0, np) : 0; for (int i = 0; i < clutter; i++) { target t; set_target(t, r.u(0, s.cp.imx), r.u(0, s.cp.imy), r.i(1, 60), r.i(1, 12), r.i(1, 12), r.i(10, 5000)); v.push_back(t); }
        if (r.p(0.03)) v.clear();
        r.shuffle(v); for (size_t i = 0; i < v.size(); i++) v[i].pnr = i;
        D.num[k] = v.size(); D.tg[k] = (target *)malloc(v.size() * sizeof(target) + 1); if (v.size()) memcpy(D.tg[k], v.data(), v.size() * sizeof(target));
    }
    D.finish(s);
    auto lim = [&]() { return r.p(0.5) ? 0.0 : r.u() * 0.5 + 1e-7 * M_PI; };
    s.vp.cn = lim(); s.vp.cnx = lim(); s.vp.cny = lim(); s.vp.csumg = lim();
    s.vp.eps0 = r.pick({0.002, 0.01, 0.05, 0.1, 0.4}); if (many) s.vp.eps0 = 0.3 * std::min(s.cp.pix_x, s.cp.pix_y); if (huge) { s.vp.eps0 = 5; s.vp.cn = s.vp.cnx = s.vp.cny = s.vp.csumg = 0; }
    s.vp.corrmin = r.p(0.5) ? r.u(0, 100) : pow(10, r.u(2, 6)); if (huge) s.vp.corrmin = 0;
    s.cp.allCam_flag = nc > 2 && r.p(0.2);
    std::vector<std::vector<coord_2d>> c0(nc); std::vector<std::vector<target>> t0(nc); for (int k = 0; k < nc; k++) { c0[k].assign(D.crd[k], D.crd[k] + D.num[k]); t0[k].assign(D.tg[k], D.tg[k] + D.num[k]); }
    volume_par v0 = s.vp; control_par p0 = s.cp;
    int counts[4] = {-7, -7, -7, -7};
    n_tupel *con = correspondences(&D.frm, D.crd.data(), &s.vp, &s.cp, s.cal.data(), counts);
    c.eval(); Hash h; hash_scene(h, s); h.i(np); h.d(s.vp.eps0); h.d(s.vp.corrmin); for (int k = 0; k < nc; k++) { h.i(D.num[k]); if (D.num[k]) h.d(D.tg[k][0].x); } c.distinct(h.h);
    if (!con) { c.fail("no-result", "matching returned nothing"); return; }
    int tot = counts[3];
    if (counts[0] < 0 || counts[1] < 0 || counts[2] < 0 || counts[0] + counts[1] + counts[2] != tot) { c.fail("counts", "counts %d %d %d total %d", counts[0], counts[1], counts[2], tot); free(con); return; }
    int maxtot = 0; for (int k = 0; k < nc; k++) maxtot += D.num[k]; if (tot * 2 > maxtot) { c.fail("counts", "%d groups of %d detections", tot, maxtot); free(con); return; }
    if (nc < 4 && counts[0]) c.fail("counts", "quadruplets with %d cameras", nc); if (nc < 3 && counts[1]) c.fail("counts", "triplets with 2 cameras");
    c.count("groups of four", counts[0]); c.count("groups of three", counts[1]); c.count("groups of two", counts[2]);
    /* candidate lists */
    std::vector<std::map<int, std::pair<double, double>>> L[4][4];
    for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) { L[a][b].resize(D.num[a]);
        for (int i = 0; i < D.num[a]; i++) { double xa, ya, xb, yb; epi_mm(D.crd[a][i].x, D.crd[a][i].y, s.cal[a], s.cal[b], &s.mm, &s.vp, &xa, &ya, &xb, &yb);
            const target &t = t0[a][D.crd[a][i].pnr]; candidate cand[MAXCAND]; int n = find_candidate(D.crd[b], D.tg[b], D.num[b], xa, ya, xb, yb, t.n, t.nx, t.ny, t.sumg, cand, &s.vp, &s.cp, s.cal[b]);
            for (int k = 0; k < n; k++) L[a][b][i][cand[k].pnr] = {cand[k].corr, cand[k].tol}; } }
    /* quality of a group; -1 when its members are not mutual candidates */
    auto quality = [&](const int *p) { double cs = 0, ds = 0; int m = 0; for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) if (p[a] >= 0 && p[b] >= 0) {
        auto it = L[a][b][p[a]].find(p[b]); if (it == L[a][b][p[a]].end()) return -1.0; cs += it->second.first; ds += it->second.second; m++; } (void)m; return cs / ds; };
    const double CM = s.vp.corrmin;
    std::vector<std::vector<int>> by(nc); for (int k = 0; k < nc; k++) by[k].assign(D.num[k], -1);
    bool ok = true; std::vector<double> Q(tot); std::vector<int> sz(tot);
    for (int i = 0; i < tot && ok; i++) {
        int p[4] = {-1, -1, -1, -1}, m = 0; for (int k = 0; k < nc; k++) { p[k] = con[i].p[k]; if (p[k] >= D.num[k]) { c.fail("index", "group %d refers to detection %d of %d", i, p[k], D.num[k]); ok = false; } if (p[k] >= 0) m++; }
        if (!ok) break;
        int want = i < counts[0] ? 4 : i < counts[0] + counts[1] ? 3 : 2; sz[i] = m;
        if (m != want) { c.fail("size", "group %d of %d/%d/%d has %d members", i, counts[0], counts[1], counts[2], m); ok = false; break; }
        if (s.cp.allCam_flag && m < nc) { c.fail("all-cameras", "group of %d with %d cameras although only complete groups are wanted", m, nc); }
        for (int k = 0; k < nc; k++) if (p[k] >= 0) { if (by[k][p[k]] >= 0) { c.fail("used-twice", "detection %d of camera %d in groups %d and %d", p[k], k, by[k][p[k]], i); ok = false; } by[k][p[k]] = i; }
        double q = quality(p); if (q == -1) { c.fail("not-candidates", "group %d (%d,%d,%d,%d): members are not candidates of each other", i, p[0], p[1], p[2], p[3]); ok = false; break; }
        if (m == 2) { int a = -1; for (int k = 0; k < nc; k++) if (p[k] >= 0) { if (a < 0) a = k; else if (L[a][k][p[a]].size() != 1) c.fail("ambiguous-pair", "pair %d has %zu candidates", i, L[a][k][p[a]].size()); } }
        if (!(fabs(con[i].corr - q) <= 1e-9 * fabs(q)) && !(std::isinf(q) && std::isinf(con[i].corr))) c.fail("quality", "group %d has quality %.12g, expected %.12g", i, con[i].corr, q);
        if (!(q > CM * (1 - 1e-12))) c.fail("threshold", "group %d of quality %g accepted, threshold %g", i, q, CM);
        Q[i] = q; bool first = i == 0 || sz[i - 1] != m; if (!first && Q[i - 1] < q * (1 - 1e-12)) c.fail("order", "group %d of quality %g after one of %g", i, q, Q[i - 1]);
        /* marks */
        for (int k = 0; k < nc; k++) if (p[k] >= 0 && D.tg[k][D.crd[k][p[k]].pnr].tnr != i) c.fail("mark", "detection of group %d is marked %d", i, D.tg[k][D.crd[k][p[k]].pnr].tnr);
    }
    if (ok) for (int k = 0; k < nc; k++) for (int j = 0; j < D.num[k]; j++) if (by[k][j] < 0 && D.tg[k][D.crd[k][j].pnr].tnr != -1) { c.fail("mark", "detection in no group is marked %d", D.tg[k][D.crd[k][j].pnr].tnr); break; }
    /* completeness: every acceptable group is blocked by a larger group or one of at least its quality */
    if (ok) {
        long ncl = 0, lim_ = 4L * 202400; bool over = false;
        auto consider = [&](const int *p, int m) { double q = quality(p); if (q == -1 || !(q > CM * (1 + 1e-12))) return; ncl++; if (over) return; bool blocked = false;
            for (int k = 0; k < nc; k++) if (p[k] >= 0) { int g = by[k][p[k]]; if (g >= 0 && (sz[g] > m || (sz[g] == m && Q[g] >= q * (1 - 1e-12)))) blocked = true; }
            if (!blocked) { c.fail("left-out", "acceptable group (%d,%d,%d,%d) of quality %g left out", p[0], p[1], p[2], p[3], q); over = true; } };
        /* count cliques first; above the documented capacity the search may stop early */
        long est = 0; for (int i = 0; nc > 2 && i < D.num[0]; i++) { long m = 1; for (int b = 1; b < nc; b++) m *= std::max<long>(1, L[0][b][i].size()); est += m; }
        if (est > lim_ / 2) c.count("runs near capacity"); else {
        if (nc == 4) for (int i = 0; i < D.num[0]; i++) for (auto &x : L[0][1][i]) for (auto &y : L[0][2][i]) { if (!L[1][2][x.first].count(y.first)) continue; for (auto &z : L[0][3][i]) { int p[4] = {i, x.first, y.first, z.first}; consider(p, 4); } }
        if (nc == 3 || (nc == 4 && !s.cp.allCam_flag)) for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) for (int d = b + 1; d < nc; d++) for (int i = 0; i < D.num[a]; i++) for (auto &x : L[a][b][i]) for (auto &y : L[a][d][i]) { int p[4] = {-1, -1, -1, -1}; p[a] = i; p[b] = x.first; p[d] = y.first; consider(p, 3); }
        if (!s.cp.allCam_flag) for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) for (int i = 0; i < D.num[a]; i++) if (L[a][b][i].size() == 1) { int p[4] = {-1, -1, -1, -1}; p[a] = i; p[b] = L[a][b][i].begin()->first; consider(p, 2); }
        c.count("acceptable groups examined", ncl); }
    }
    for (int k = 0; k < nc; k++) { for (int i = 0; i < D.num[k]; i++) { target a = t0[k][i], b = D.tg[k][i]; a.tnr = b.tnr; if (a.pnr != b.pnr || a.x != b.x || a.y != b.y || a.n != b.n || a.nx != b.nx || a.ny != b.ny || a.sumg != b.sumg) { c.fail("inputs-changed", "detection changed"); break; } }
        if (D.num[k] && memcmp(c0[k].data(), D.crd[k], D.num[k] * sizeof(coord_2d))) c.fail("inputs-changed", "corrected coordinates changed"); }
    if (memcmp(&v0, &s.vp, sizeof v0) || memcmp(&p0, &s.cp, sizeof p0)) c.fail("inputs-changed", "parameters changed");
    if (c.idx < 4) c.sample("%d cameras, %d particles, groups %d/%d/%d", nc, np, counts[0], counts[1], counts[2]);
    free(con);
}
