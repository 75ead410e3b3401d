/* C17: links respect the limits (judged on the written files), agree with an independent reference tracker, and ideal
   trajectories are recovered completely. */
#include "scene.hpp"
#include "foreign.hpp"
#include "track.hpp"
const char *CHECK_RULE = "distinct link sets of complete tracking runs without added particles";
static void kernels(Case &c) {
    Rng &r = c.r;
    for (int q = 0; q < 10; q++) {
        vec3d s, p, d; for (int j = 0; j < 3; j++) { s[j] = r.u(-50, 50); p[j] = s[j] + (r.p(0.1) ? 0 : r.u(-3, 3)); d[j] = s[j] + (r.p(0.1) ? 0 : r.u(-3, 3)); }
        int kind = r.i(0, 6); if (kind == 1) for (int j = 0; j < 3; j++) d[j] = p[j]; if (kind == 2) for (int j = 0; j < 3; j++) { s[j] = floor(s[j]); p[j] = s[j] + r.i(-3, 3); d[j] = 2 * s[j] - p[j]; } if (kind == 3) { double f = r.u(0.1, 3); for (int j = 0; j < 3; j++) d[j] = s[j] + f * (p[j] - s[j]); } if (kind == 4) for (int j = 0; j < 3; j++) p[j] = s[j]; if (kind == 5) for (int j = 0; j < 3; j++) d[j] = s[j];
        double ang = -1, acc = -1; angle_acc(s, p, d, &ang, &acc); c.eval(); c.count("angles"); Hash h; h.d(s[0]); h.d(p[0]); h.d(d[1]); c.distinct(h.h);
        V3 a = v3(p) - v3(s), b = v3(d) - v3(s); double ra = len(a - b); if (!(fabs(acc - ra) < 1e-9)) c.fail("acceleration", "acceleration %.12g, the velocities differ by %.12g", acc, ra);
        if (len(a) > 1e-6 && len(b) > 1e-6) { double want = 200 / M_PI * atan2(len(cross(a, b)), dot(a, b)); if (!(fabs(ang - want) < 1e-4)) c.fail("angle", "angle %.9g gon, the directions differ by %.9g", ang, want); }
        else if (!(ang >= 0 && ang <= 200)) c.fail("angle-standing", "angle %g of a particle standing still", ang);
        track_par t; memset(&t, 0, sizeof t); double lo[3], hi[3], v[3]; for (int j = 0; j < 3; j++) { lo[j] = r.u(-3, 1); hi[j] = lo[j] + r.u(0, 4); v[j] = r.u(-4, 4); if (r.p(0.7)) v[j] = r.u(lo[j], hi[j]); } t.dvxmin = lo[0]; t.dvxmax = hi[0]; t.dvymin = lo[1]; t.dvymax = hi[1]; t.dvzmin = lo[2]; t.dvzmax = hi[2];
        bool in = true; for (int j = 0; j < 3; j++) in = in && v[j] > lo[j] && v[j] < hi[j]; int g = pos3d_in_bounds(v, &t); c.eval(); if (!!g != in) c.fail("in-bounds", "(%g,%g,%g) in %g..%g %g..%g %g..%g: %d", v[0], v[1], v[2], lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], g);
        vec3d o; search_volume_center_moving(s, p, o); vec2d a2 = {s[0], s[1]}, b2 = {p[0], p[1]}, o2; predict(a2, b2, o2); c.eval();
        for (int j = 0; j < 3; j++) if (!(fabs(o[j] - (2 * p[j] - s[j])) < 1e-9)) c.fail("prediction", "predicted %g from %g and %g", o[j], s[j], p[j]);
        for (int j = 0; j < 2; j++) if (!(fabs(o2[j] - (2 * p[j] - s[j])) < 1e-9)) c.fail("prediction-2d", "predicted %g from %g and %g", o2[j], s[j], p[j]);
    }
}
/* limits of one link, from the written positions only; slack for the written precision */
static std::string judge_link(TrackCase &k, Model &m, const std::vector<MFrame> &W, int f, int i) {
    const MPart &P = W[f].parts[i], &R = W[f + 1].parts[P.next]; const double e = 2e-3;
    V3 X1 = v3(P.x), X3 = v3(R.x); bool hist = P.prev >= 0; V3 X0 = hist ? v3(W[f - 1].parts[P.prev].x) : X1, X2 = hist ? X1 * 2 - X0 : X1;
    /* in the search box around the prediction, as seen by at least one camera */
    int seen = 0; for (int c = 0; c < k.s.nc; c++) { if (R.p[c] < 0) continue; const MTgt &t = W[f + 1].t[c][R.p[c]]; double cen[2]; m.px(X2, c, cen); if (!hist && P.p[c] >= 0) { cen[0] = W[f].t[c][P.p[c]].x; cen[1] = W[f].t[c][P.p[c]].y; } auto w = m.window(X2, c); const double g = 0.05; if (t.x > cen[0] - w.l - g && t.x < cen[0] + w.r + g && t.y > cen[1] - w.u - g && t.y < cen[1] + w.d + g) seen++; }
    if (!seen) return sfmt("frame %d particle %d is linked to a particle outside of the search window of its prediction in every camera", f + k.first, i);
    return "";
}
static void model_runs(Case &c) {
    Rng &r = c.r; TrackCase k; TrackOpt o; o.add = 0; o.mincams = r.p(0.05) ? 1 : 2; o.maxparts = r.pick({3, 10, 25, 40}); o.dense = 0.08; o.big = 0.03; o.fan = 0.05; make_track(r, k, o); store_track(k, (G_scratch + "/t17").c_str());
    int tparts, tlinks; { LibRun L(k, k.maxcount + 4); L.forward(); tparts = L.tr->npart; tlinks = L.tr->nlinks; }
    std::vector<MFrame> W; std::string err; if (!parse_all(k, W, true, err)) { c.fail("file", "%s", err.c_str()); return; }
    if ((err = check_links(k, W)).size()) { c.fail("links", "%s", err.c_str()); return; }
    Model m(k, k.maxcount + 4); std::vector<MFrame> E = k.fr; model_forward(m, E, false); Model m2(k, k.maxcount + 4); std::vector<MFrame> S = k.fr; model_forward(m2, S, true);
    for (auto *X : {&E, &S}) for (auto &f : *X) for (auto &p : f.parts) p.prio = 4;
    if (m.most > 48) c.count("runs with more than 48 alternatives for a particle"); if (m.most > 64) c.count("runs with more than 64 alternatives for a particle");
    c.eval(); c.distinct(hash_frames(k, W)); long n = 0; for (size_t f = 0; f < W.size(); f++) for (auto &p : W[f].parts) n += p.next >= 0;
    if (std::min(m.margin, m2.margin) < 1e-9) c.count("runs without a clear reference");
    else { c.count("runs compared with the reference tracker"); c.count("links compared", n);
        std::string d = diff_frames(W, E, k.first, false);
        if (d.size()) { std::string d2 = diff_frames(W, S, k.first, false); if (d2.size()) c.fail("reference", "%d cameras, frames %d..%d: %s (looking into the old frame at the last step: %s)", k.s.nc, k.first, k.last, d.c_str(), d2.c_str()); else c.fail("stale-last-frame", "%d cameras, frames %d..%d: %s", k.s.nc, k.first, k.last, d.c_str()); }
        /* the run's totals: the particles, and the links that were made (or, as good, those that were kept) */
        long np = 0, none = 0; for (int f = 0; f + 1 < (int)W.size(); f++) { np += (long)W[f].parts.size(); none += W[f].parts.empty(); } /* an empty frame may count as -1 (C20) */
        c.eval(); if ((tparts != np && tparts != np - none) || (tlinks != m2.links && tlinks != m.links && tlinks != n)) c.fail("totals", "the run counts %d particles and %d links, there were %ld and %d, and its files hold %ld links", tparts, tlinks, np, m.links, n); }
    for (int f = 0; f + 1 < (int)W.size(); f++) for (int i = 0; i < (int)W[f].parts.size(); i++) if (W[f].parts[i].next >= 0) { c.eval(); c.count("links judged"); std::string e = judge_link(k, m, W, f, i); if (e.size()) { c.fail("limits", "%s", e.c_str()); return; } }
}
static void ideal_runs(Case &c) {
    Rng &r = c.r; TrackCase k; TrackOpt o; o.ideal = true; o.add = 0.5; o.hidden = o.lost = o.blind = o.decoy = o.emptyframe = 0; o.minframes = 3; o.maxparts = 15; make_track(r, k, o); store_track(k, (G_scratch + "/t17i").c_str());
    { LibRun L(k, k.maxcount + 8); L.forward(); }
    std::vector<MFrame> W; std::string err; if (!parse_all(k, W, true, err)) { c.fail("file", "%s", err.c_str()); return; }
    c.distinct(hash_frames(k, W));
    /* identify each particle by its position */
    int n = (int)W.size(); bool full = true;
    for (auto &t : k.traj) {
        int L = (int)t.x.size(); if (L < 3) continue; std::vector<int> id(L, -1); bool vis = true;
        for (int q = 0; q < L; q++) { auto &ps = W[t.f0 + q].parts; for (int i = 0; i < (int)ps.size(); i++) if (::len(v3(ps[i].x) - t.x[q]) < 2e-3) id[q] = i; if (id[q] < 0) vis = false; else for (int c2 = 0; c2 < k.s.nc; c2++) if (ps[id[q]].p[c2] < 0) vis = false; }
        if (!vis) { full = false; continue; }
        /* preconditions: smooth within the limits and the angle */
        bool ok = true; double lo[3] = {k.tp.dvxmin, k.tp.dvymin, k.tp.dvzmin}, hi[3] = {k.tp.dvxmax, k.tp.dvymax, k.tp.dvzmax};
        for (int q = 0; q + 1 < L; q++) { V3 d = t.x[q + 1] - t.x[q]; double v[3] = {d.x, d.y, d.z}; for (int j = 0; j < 3; j++) if (v[j] < 0.93 * lo[j] || v[j] > 0.93 * hi[j]) ok = false; }
        for (int q = 0; q + 2 < L; q++) if (::len(t.x[q + 2] - t.x[q + 1] * 2 + t.x[q]) > 0.08 * k.tp.dacc) ok = false;
        if (!ok) { c.count("ideal trajectories outside the preconditions"); continue; }
        c.eval(); c.count("ideal trajectories");
        for (int q = 0; q + 1 < L; q++) {
            int f = t.f0 + q; if (q == 0 && f == n - 2) continue; 
            if (W[f].parts[id[q]].next != id[q + 1]) { c.fail("not-recovered", "%d cameras, frames %d..%d: particle of a %d step trajectory at (%.3f,%.3f,%.3f) in frame %d is linked to %d, not to %d", k.s.nc, k.first, k.last, L, t.x[q].x, t.x[q].y, t.x[q].z, f + k.first, W[f].parts[id[q]].next, id[q + 1]); return; }
            c.count("ideal links");
        }
    }
    (void)full;
}
void run_case(Case &c) { double u = c.r.u(); if (u < 0.2) kernels(c); else if (u < 0.7) model_runs(c); else ideal_runs(c); }
