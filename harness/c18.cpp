/* C18: particles added while tracking, and the backward pass. Oracle: file level rules and an independent reference tracker. */
#include "scene.hpp"
#include "foreign.hpp"
#include "track.hpp"
const char *CHECK_RULE = "distinct link sets of complete tracking runs with added particles or a backward pass";
static std::string judge_added(Case &c, TrackCase &k, Model &m, const std::vector<MFrame> &W, const std::vector<MFrame> &before, const char *what) {
    for (int f = 0; f < (int)W.size(); f++) {
        const MFrame &w = W[f], &o = before[f];
        if (!k.tp.add && w.parts.size() != o.parts.size()) return sfmt("%s: frame %d has %zu particles, had %zu, though none may be added", what, f + k.first, w.parts.size(), o.parts.size());
        for (size_t i = 0; i < w.parts.size(); i++) {
            if (i < o.parts.size()) continue; 
            const MPart &p = w.parts[i]; c.count("added particles judged"); int cams = 0; double v2[4][2]; for (int q = 0; q < 4; q++) v2[q][0] = v2[q][1] = COORD_UNUSED;
            for (int q = 0; q < k.s.nc; q++) if (p.p[q] >= 0) { cams++; if (o.t[q][p.p[q]].tnr != -1) return sfmt("%s: frame %d: particle %zu added from detection %d of camera %d, which belonged to particle %d", what, f + k.first, i, p.p[q], q, o.t[q][p.p[q]].tnr); double X, Y; const MTgt &t = w.t[q][p.p[q]]; pixel_to_metric(&X, &Y, t.x, t.y, &k.s.cp); dist_to_flat(X, Y, k.s.cal[q], &X, &Y, 1e-4); v2[q][0] = X; v2[q][1] = Y; }
            if (cams < 2) return sfmt("%s: frame %d: added particle %zu is seen by %d cameras", what, f + k.first, i, cams);
            vec3d x; point_position((vec2d *)v2, k.s.nc, &k.s.mm, k.s.cal.data(), x); for (int j = 0; j < 3; j++) if (!(fabs(x[j] - p.x[j]) < 2e-3)) return sfmt("%s: frame %d: added particle %zu at %.3f, its detections are of %.3f (coordinate %d)", what, f + k.first, i, p.x[j], x[j], j);
            if (!(p.x[0] > m.ext[0] - 1e-3 && p.x[0] < m.ext[1] + 1e-3 && p.x[1] > m.ext[2] - 1e-3 && p.x[1] < m.ext[3] + 1e-3 && p.x[2] > m.ext[4] - 1e-3 && p.x[2] < m.ext[5] + 1e-3)) return sfmt("%s: frame %d: particle added at (%.3f,%.3f,%.3f), outside of the volume %g..%g %g..%g %g..%g", what, f + k.first, p.x[0], p.x[1], p.x[2], m.ext[0], m.ext[1], m.ext[2], m.ext[3], m.ext[4], m.ext[5]);
            if (p.prio != 2) return sfmt("%s: frame %d: added particle %zu has priority %d", what, f + k.first, i, p.prio);
            if (p.prev >= 0 || p.next >= 0) c.count("added particles that are linked");
        }
        for (size_t i = 0; i < o.parts.size(); i++) if (w.parts[i].prio != o.parts[i].prio) return sfmt("%s: frame %d particle %zu: priority %d became %d", what, f + k.first, i, o.parts[i].prio, w.parts[i].prio);
    }
    return "";
}
void run_case(Case &c) {
    Rng &r = c.r; TrackCase k; TrackOpt o; o.add = 0.75; o.mincams = 2; o.hidden = r.pick({0.0, 0.1, 0.3}); o.maxparts = r.pick({2, 6, 15, 30}); o.dense = 0.08; o.big = 0.03; o.fan = 0.04; o.minframes = 3; o.lost = r.pick({0.0, 0.05}); make_track(r, k, o); store_track(k, (G_scratch + "/t18").c_str());
    int maxt = k.maxcount + r.pick({0, 1, 2, 40}); if (maxt < 1) maxt = 1; track_par tp0 = k.tp; volume_par vp0 = k.s.vp; control_par cp0 = k.s.cp;
    LibRun L(k, maxt); L.forward();
    std::vector<MFrame> W; std::string err; if (!parse_all(k, W, true, err)) { c.fail("file", "%s", err.c_str()); return; }
    if ((err = check_links(k, W)).size()) { c.fail("links", "%s", err.c_str()); return; }
    Model m(k, maxt); std::vector<MFrame> E = k.fr; model_forward(m, E, false); Model m2(k, maxt); std::vector<MFrame> S = k.fr; model_forward(m2, S, true);
    c.eval(); c.distinct(hash_frames(k, W)); bool clear = std::min(m.margin, m2.margin) >= 1e-9;
    if ((err = judge_added(c, k, m, W, k.fr, "forward")).size()) { c.fail("added", "%s", err.c_str()); return; }
    if (!clear) c.count("runs without a clear reference");
    else { c.count(k.tp.add ? "runs with additions compared" : "runs without additions compared"); c.count("additions in the reference", m.additions);
        std::string d = diff_frames(W, E, k.first, true);
        if (d.size()) { std::string d2 = diff_frames(W, S, k.first, true); if (d2.size()) { c.fail("reference", "%d cameras, frames %d..%d, add %d: %s (looking into the old frame at the last step: %s)", k.s.nc, k.first, k.last, k.tp.add, d.c_str(), d2.c_str()); return; } c.count("runs that looked into the old frame at the last step"); } }
    if (memcmp(&L.tp, &tp0, sizeof tp0) || memcmp(&vp0, &k.s.vp, sizeof vp0) || memcmp(&cp0, &k.s.cp, sizeof cp0)) c.fail("parameters", "tracking changed its parameters");
    if (k.last - k.first < 2) return;
    /* backward: from what was written */
    bool fresh = r.p(0.5); std::vector<MFrame> before = W; double reported; bool addb = r.p(0.6); 
    if (fresh) { k.tp.add = addb; LibRun B(k, maxt); reported = trackback_c(B.tr); } else { reported = trackback_c(L.tr); }
    std::vector<MFrame> Z; if (!parse_all(k, Z, true, err)) { c.fail("file-after-backward", "%s", err.c_str()); return; }
    if ((err = check_links(k, Z)).size()) { c.fail("links-after-backward", "%s", err.c_str()); return; }
    c.eval(); c.count("backward passes"); c.distinct(hash_frames(k, Z));
    for (auto &f : before) for (auto &p : f.parts) p.prio = 4; /* not written back by the reader */
    long total = 0, nnew = 0;
    for (int f = 0; f < (int)Z.size(); f++) for (size_t i = 0; i < Z[f].parts.size(); i++) {
        const MPart &z = Z[f].parts[i]; if (f > 0 && f + 1 < (int)Z.size() && z.prev >= 0 && 0) total++;
        if (i >= before[f].parts.size()) continue; const MPart &b = before[f].parts[i];
        if (b.next >= 0 && z.next != b.next) { c.fail("link-lost", "frame %d particle %zu was linked to %d, after the backward pass to %d", f + k.first, i, b.next, z.next); return; }
        if (b.prev >= 0 && z.prev != b.prev) { c.fail("link-lost", "frame %d particle %zu was linked back to %d, after the backward pass to %d", f + k.first, i, b.prev, z.prev); return; }
        if (b.prev < 0 && z.prev >= 0) { nnew++; const MPart *q = z.prev < (int)before[f - 1].parts.size() ? &before[f - 1].parts[z.prev] : 0; if (q && q->next >= 0) { c.fail("not-free", "frame %d particle %zu was linked back to a particle that had a successor", f + k.first, i); return; } if (z.next < 0) { c.fail("no-trajectory", "frame %d particle %zu without a successor was linked backwards", f + k.first, i); return; } }
    }
    c.count("links made backwards", nnew);
    { std::vector<MFrame> o2 = before; for (size_t f = 0; f < o2.size(); f++) for (int q = 0; q < k.s.nc; q++) for (size_t j = 0; j < o2[f].t[q].size(); j++) o2[f].t[q][j].tnr = before[f].t[q][j].tnr;
      /* priorities: measured ones are read as 4 */
      for (auto &f : o2) for (auto &p : f.parts) p.prio = 4; std::vector<MFrame> Z2 = Z; for (size_t f = 0; f < Z2.size(); f++) for (size_t i = 0; i < o2[f].parts.size() && i < Z2[f].parts.size(); i++) Z2[f].parts[i].prio = 4;
      if ((err = judge_added(c, k, m, Z2, o2, "backward")).size()) { c.fail("added-backward", "%s", err.c_str()); return; } }
    Model mb(k, maxt); std::vector<MFrame> R = before; model_backward(mb, R);
    if (mb.margin < 1e-9) { c.count("backward passes without a clear reference"); return; }
    c.count("backward passes compared"); std::string d = diff_frames(Z, R, k.first, false); if (d.size()) { c.fail("backward-reference", "%d cameras, frames %d..%d, add %d: %s", k.s.nc, k.first, k.last, k.tp.add, d.c_str()); return; }
    double want = (double)mb.links / (k.last - k.first - 1); (void)total;
    c.maxv("error of the reported count", fabs(reported - want)); if (!(fabs(reported - want) < 1e-6)) c.fail("count", "backward pass over frames %d..%d reports %g links per frame, %d were there in %d frames (%g)", k.first, k.last, reported, mb.links, k.last - k.first - 1, want);
    if (c.idx % 500 == 0) c.sample("%d cameras, frames %d..%d, %d added forward, %ld links made backwards", k.s.nc, k.first, k.last, m.additions, nnew);
}
