/* C15: candidate search of the tracker. Oracle: brute force over all detections and independently projected search boxes. */
#include "scene.hpp"
#include "foreign.hpp"
#include "track.hpp"
const char *CHECK_RULE = "distinct searches (hash of detections, centre and window)";
extern "C" foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[], frame *frm, tracking_run *run) __attribute__((weak));
extern "C" void register_closest_neighbs(target *, int, int, double, double, double, double, double, double, foundpix *, control_par *) __attribute__((weak));

static void lists(Case &c) {
    Rng &r = c.r; control_par cp; memset(&cp, 0, sizeof cp); cp.imx = r.i(50, 2000); cp.imy = r.i(50, 2000);
    int big = r.p(0.03), num = big ? r.pick({2047, 4095, 8191, 16383, 16383, 32767, r.i(2000, 20000)}) : r.pick({0, 1, 2, 3, 4, 5, 7, 8, 15, 16, r.i(0, 60), r.i(10, 400), r.i(100, 1500)});
    int layout = r.i(0, 5); double used = r.pick({1.0, 0.8, 0.5, 0.1, 0.0});
    std::vector<double> ys(num); for (double &y : ys) { double u = r.u(1e-9, 1); if (layout == 1) u = u * u * u; if (layout == 2) u = r.p(0.9) ? 0.02 * u : u; if (layout == 3) u = r.p(0.9) ? 1 - 0.02 * u : u; y = u * cp.imy; if (layout == 4) y = ceil(u * 6) / 6.0 * cp.imy - 0.3; }
    std::sort(ys.begin(), ys.end());
    target *t = (target *)malloc(num * sizeof(target) + 1);
    for (int i = 0; i < num; i++) { memset(&t[i], 0, sizeof t[i]); t[i].pnr = i; t[i].y = ys[i]; t[i].x = r.u(0, cp.imx); t[i].tnr = r.p(used) ? r.i(0, 3000) : -1; t[i].n = 5; t[i].nx = t[i].ny = 2; t[i].sumg = 100; }
    std::vector<target> t0(t, t + num);
    for (int q = 0; q < 8; q++) {
        double W = cp.imx, H = cp.imy, cx, cy; int near = num && r.p(0.6); if (near) { int j = r.i(0, num - 1); if (big && r.p(0.5)) { j = r.i(0, std::min(20, num - 1)); if (r.p(0.3)) j = num - 1 - j; } cx = t[j].x + r.n() * 3; cy = t[j].y + r.n() * 3; } else { cx = r.u(-0.1, 1.1) * W; cy = r.u(-0.1, 1.1) * H; }
        double sc = r.pick({1.0, 5.0, 30.0, 200.0, 3000.0}) , dl = r.u(0, sc), dr = r.u(0, sc), du = r.u(0, sc), dd = r.u(0, sc);
        bool inside = cx >= 0 && cx <= W && cy >= 0 && cy <= H;
        double x0 = std::max(0.0, cx - dl), x1 = std::min(W, cx + dr), y0 = std::max(0.0, cy - du), y1 = std::min(H, cy + dd);
        for (int rest = 0; rest < 2; rest++) {
            std::vector<double> ref; for (int j = 0; j < num && inside; j++) if ((t[j].tnr == -1) == !!rest && t[j].x > x0 && t[j].x < x1 && t[j].y > y0 && t[j].y < y1) ref.push_back(hypot(cx - t[j].x, cy - t[j].y));
            std::sort(ref.begin(), ref.end()); size_t most = rest ? 1 : 4; if (ref.size() > most) ref.resize(most);
            int *p = (int *)malloc((rest ? 1 : 4) * sizeof(int));
            int n = rest ? candsearch_in_pix_rest(t, num, cx, cy, dl, dr, du, dd, p, &cp) : candsearch_in_pix(t, num, cx, cy, dl, dr, du, dd, p, &cp);
            c.eval(); Hash h; h.i(num); h.d(cx); h.d(cy); h.d(dl); h.d(dd); h.i(rest); h.i(layout); c.distinct(h.h);
            const char *fn = rest ? "candsearch_in_pix_rest" : "candsearch_in_pix";
            if (n != (int)ref.size()) { c.fail("count", "%s among %d detections around (%.3f,%.3f) window -%.3f+%.3f -%.3f+%.3f: %d candidates, %zu in the window (at most %zu wanted)", fn, num, cx, cy, dl, dr, du, dd, n, ref.size(), most); free(p); continue; }
            std::set<int> seen;
            for (size_t i = 0; i < most; i++) {
                if ((int)i >= n) { if (p[i] != PT_UNUSED) c.fail("unused-mark", "%s: entry %zu past the %d candidates is %d, not the unused mark", fn, i, n, p[i]); continue; }
                int j = p[i]; if (j < 0 || j >= num) { c.fail("range", "%s: candidate %d of %d detections", fn, j, num); break; }
                if (!seen.insert(j).second) c.fail("twice", "%s: detection %d twice", fn, j);
                if ((t[j].tnr == -1) != !!rest) c.fail("eligible", "%s: detection %d with particle %d", fn, j, t[j].tnr);
                double d = hypot(cx - t[j].x, cy - t[j].y); if (fabs(d - ref[i]) > 1e-9 * (1 + d)) c.fail("not-nearest", "%s: candidate %zu at distance %.9g, the %zu. nearest is at %.9g (%d detections)", fn, i, d, i + 1, ref[i], num);
                if (!(t[j].x > x0 && t[j].x < x1 && t[j].y > y0 && t[j].y < y1)) c.fail("outside", "%s: candidate outside the window", fn);
            }
            c.count(rest ? "searches for unused detections" : "searches for particles"); if (n == 4) c.count("searches with four candidates"); if (n == 0 && inside) c.count("searches without candidates"); if (num > 1500) c.count("searches in long lists");
            free(p);
        }
    }
    if (num && memcmp(t, t0.data(), num * sizeof(target))) c.fail("list-changed", "the search changed the detections");
    free(t);
}

static void windows(Case &c) {
    Rng &r = c.r; TrackCase k; TrackOpt o; o.maxframes = 3; o.mincams = 1; o.maxparts = 40; make_track(r, k, o); Scene &s = k.s; Model m(k, 1 << 30);
    int maxt = k.maxcount + 4;
    track_par tp = k.tp; tracking_run run; memset(&run, 0, sizeof run); run.tpar = &tp; run.cpar = &s.cp; run.vpar = &s.vp; run.cal = s.cal.data(); run.flatten_tol = 1e-4;
    frame fm; frame_init(&fm, s.nc, maxt); int f = r.i(0, (int)k.fr.size() - 1); MFrame &mf = k.fr[f];
    /* some detections carry other particles than the scene's, some none */
    for (int q = 0; q < s.nc; q++) for (auto &t : mf.t[q]) { if (r.p(0.1)) t.tnr = mf.parts.size() ? r.i(-1, (int)mf.parts.size() - 1) : -1; }
    for (int q = 0; q < s.nc; q++) { fm.num_targets[q] = (int)mf.t[q].size(); for (size_t i = 0; i < mf.t[q].size(); i++) { MTgt &u = mf.t[q][i]; fm.targets[q][i] = {u.pnr, u.x, u.y, u.n, u.nx, u.ny, u.sumg, u.tnr}; } }
    for (int q = 0; q < 6; q++) {
        vec3d x; if (mf.parts.size() && r.p(0.8)) { MPart &p = mf.parts[r.i(0, (int)mf.parts.size() - 1)]; for (int j = 0; j < 3; j++) x[j] = p.x[j] + r.n() * r.pick({0.0, 0.3, 2.0}); } else rand_point(r, s, x);
        /* arrays of exactly one value per camera, with guard values behind */
        double xr[4], xl[4], yd[4], yu[4]; for (int i = 0; i < 4; i++) xr[i] = xl[i] = yd[i] = yu[i] = -77777;
        vec3d x0 = {x[0], x[1], x[2]}; searchquader(x, xr, xl, yd, yu, &tp, &s.cp, s.cal.data()); c.eval();
        Hash h; h.d(x[0]); h.d(x[1]); h.d(tp.dvxmin); h.d(tp.dvzmax); h.i(s.nc); hash_scene(h, s); c.distinct(h.h);
        if (memcmp(x, x0, sizeof x)) c.fail("point-changed", "searchquader changed the point");
        for (int cam = 0; cam < s.nc; cam++) {
            auto w = m.window(v3(x), cam); double e = std::max(std::max(fabs(w.l - xl[cam]), fabs(w.r - xr[cam])), std::max(fabs(w.u - yu[cam]), fabs(w.d - yd[cam])));
            c.maxv("window error [px]", e); c.count("search windows");
            if (!(e < 1e-6)) c.fail("window", "camera %d of %d: window left %.6f right %.6f up %.6f down %.6f; the box of the velocity limits spans %.6f %.6f %.6f %.6f", cam, s.nc, xl[cam], xr[cam], yu[cam], yd[cam], w.l, w.r, w.u, w.d);
            double cen[2]; m.px(v3(x), cam, cen);
            for (int b = 0; b < 4; b++) { V3 y = v3(x) + V3{r.u(tp.dvxmin, tp.dvxmax), r.u(tp.dvymin, tp.dvymax), r.u(tp.dvzmin, tp.dvzmax)}; double v[2]; m.px(y, cam, v);
                if (v[0] < 0 || v[1] < 0 || v[0] > s.cp.imx || v[1] > s.cp.imy) continue; double tx = 0.5 + 0.02 * fabs(w.l + w.r), ty = 0.5 + 0.02 * fabs(w.u + w.d); c.count("allowed positions in the window");
                if (v[0] < cen[0] - xl[cam] - tx || v[0] > cen[0] + xr[cam] + tx || v[1] < cen[1] - yu[cam] - ty || v[1] > cen[1] + yd[cam] + ty) c.fail("not-covered", "camera %d: a position within the velocity limits is imaged at (%.3f,%.3f), outside of the search window", cam, v[0], v[1]); }
        }
        for (int i = s.nc; i < 4; i++) if (xr[i] != -77777 || xl[i] != -77777 || yd[i] != -77777 || yu[i] != -77777) c.fail("other-camera", "searchquader wrote a window for a camera that is not there");
        if (!sorted_candidates_in_volume) continue;
        vec2d v[4]; double cc[4][2]; for (int cam = 0; cam < s.nc; cam++) { m.px(v3(x), cam, cc[cam]); if (r.p(0.3)) { cc[cam][0] += r.n(); cc[cam][1] += r.n(); } v[cam][0] = cc[cam][0]; v[cam][1] = cc[cam][1]; }
        m.margin = 1e300; auto ref = m.cands(v3(x), cc, mf); bool clear = m.margin > 1e-7;
        foundpix *g = sorted_candidates_in_volume(x, v, &fm, &run);
        std::map<int, int> fr; for (int cam = 0; cam < s.nc; cam++) { std::set<int> my; for (int j : m.nearest(mf.t[cam], cc[cam][0], cc[cam][1], m.window(v3(x), cam), false, 4)) my.insert(mf.t[cam][j].tnr); for (int id : my) fr[id]++; }
        if (clear) { c.eval(); c.count("candidate sets");
            std::vector<std::pair<int, int>> got; if (g) for (int i = 0; g[i].ftnr != -1 && i <= 16; i++) got.push_back({g[i].ftnr, g[i].freq});
            std::set<int> ids; int multi = 0; for (auto &a : fr) multi += a.second >= 2; if (multi) c.count("candidate sets with agreeing cameras");
            for (size_t i = 0; i < got.size(); i++) { if (!ids.insert(got[i].first).second) c.fail("candidate-twice", "particle %d twice among the candidates", got[i].first);
                if (!fr.count(got[i].first)) c.fail("invented", "candidate %d is seen in no camera's search window", got[i].first); else if (fr[got[i].first] != got[i].second) c.fail("agreement", "candidate %d ranked by %d cameras, seen by %d", got[i].first, got[i].second, fr[got[i].first]);
                if (i && got[i].second > got[i - 1].second) c.fail("rank", "candidates not ranked by agreeing cameras"); }
            for (auto &a : fr) if (a.second >= 2 && !ids.count(a.first)) c.fail("lost", "candidate %d seen by %d cameras is missing", a.first, a.second);
            if (!multi && fr.size() && got.size() != 1) c.fail("lone", "%zu candidates seen by single cameras, %zu reported (one expected)", fr.size(), got.size());
            if (multi && (int)got.size() != multi) c.fail("extra", "%zu candidates, %d seen by several cameras", got.size(), multi);
            (void)ref; }
        free(g);
    }
    free_frame(&fm);
}
/* the arrays of candidate groups: what is registered, copied and cleared */
static void arrays(Case &c) {
    Rng &r = c.r; int nc = r.i(1, 4), n = r.pick({0, 1, 4, 16, r.i(1, 40)}); auto fill = [&](foundpix *a) { for (int i = 0; i < n; i++) { a[i].ftnr = r.i(-5, 3000); a[i].freq = r.i(0, 9); for (int k = 0; k < 4; k++) a[i].whichcam[k] = r.i(0, 1); } };
    foundpix *a = (foundpix *)malloc(n * sizeof(foundpix) + 1), *b = (foundpix *)malloc(n * sizeof(foundpix) + 1); fill(a); fill(b); std::vector<foundpix> a0(a, a + n);
    copy_foundpix_array(b, a, n, nc); c.eval(); c.count("candidate arrays copied and cleared"); Hash h; h.i(n); h.i(nc); if (n) h.i(a[0].ftnr); c.distinct(h.h);
    for (int i = 0; i < n; i++) { bool same = b[i].ftnr == a0[i].ftnr && b[i].freq == a0[i].freq; for (int k = 0; k < nc; k++) same = same && b[i].whichcam[k] == a0[i].whichcam[k]; if (!same) { c.fail("copy", "entry %d of %d copied is not what it was", i, n); break; } bool kept = a[i].ftnr == a0[i].ftnr && a[i].freq == a0[i].freq; for (int k = 0; k < 4; k++) kept = kept && a[i].whichcam[k] == a0[i].whichcam[k]; if (!kept) { c.fail("copy-source", "copying changed entry %d of the source", i); break; } }
    reset_foundpix_array(b, n, nc); c.eval(); for (int i = 0; i < n; i++) { bool ok = b[i].ftnr == -1 && b[i].freq == 0; for (int k = 0; k < nc; k++) ok = ok && !b[i].whichcam[k]; if (!ok) { c.fail("reset", "entry %d of %d cleared still holds particle %d", i, n, b[i].ftnr); break; } }
    /* what one camera registers */
    control_par cp; memset(&cp, 0, sizeof cp); cp.imx = 1000; cp.imy = 800; int num = r.i(0, 12), cam = r.i(0, 3); target *t = (target *)calloc(num + 1, sizeof(target)); std::vector<double> ys(num); for (double &y : ys) y = r.u(300, 500); std::sort(ys.begin(), ys.end());
    for (int i = 0; i < num; i++) { t[i].pnr = i; t[i].x = r.u(400, 600); t[i].y = ys[i]; t[i].tnr = r.i(0, 50) < 40 ? i * 7 : -1; }
    double w = r.pick({40.0, 90.0, 300.0}); std::vector<std::pair<double, int>> ref; for (int i = 0; i < num; i++) if (t[i].tnr != -1 && fabs(t[i].x - 500) < w && fabs(t[i].y - 400) < w) ref.push_back({hypot(t[i].x - 500, t[i].y - 400), t[i].tnr}); std::sort(ref.begin(), ref.end()); if (ref.size() > 4) ref.resize(4);
    foundpix *g = (foundpix *)malloc(4 * sizeof(foundpix)); reset_foundpix_array(g, 4, 4); if (!register_closest_neighbs) ref.clear(); else register_closest_neighbs(t, num, cam, 500, 400, w, w, w, w, g, &cp); c.eval();
    for (size_t i = 0; i < 4; i++) { if (i < ref.size()) { if (g[i].ftnr != ref[i].second || g[i].whichcam[cam] != 1) c.fail("registered", "entry %zu registers particle %d for camera %d (mark %d), expected %d", i, g[i].ftnr, cam, g[i].whichcam[cam], ref[i].second); } else if (g[i].ftnr != -1) c.fail("registered", "entry %zu past the %zu candidates registers particle %d", i, ref.size(), g[i].ftnr);
        for (int k = 0; k < 4; k++) if (k != cam && g[i].whichcam[k]) c.fail("registered", "a candidate of camera %d is marked for camera %d", cam, k); }
    free(g); free(t); free(a); free(b);
}
void run_case(Case &c) { double u = c.r.u(); if (u < 0.04) arrays(c); else if (u < 0.6) lists(c); else windows(c); }
