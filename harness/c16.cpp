/* C16: after every step of a tracking run, and in the files it writes, links and references are one-to-one and mutual. */
#include "scene.hpp"
#include "foreign.hpp"
#include "track.hpp"
const char *CHECK_RULE = "distinct link sets written by complete tracking runs";
static std::string mem_step(tracking_run *tr, int nc) {
    /* after the step buf[0] holds the frame just linked, buf[1] the one it was linked to */
    frame *a = tr->fb->buf[0], *b = tr->fb->buf[1]; int na = std::max(0, a->num_parts), nb = std::max(0, b->num_parts);
    if (na > a->max_targets || nb > b->max_targets) return sfmt("%d and %d particles in frames for %d", na, nb, a->max_targets);
    for (int i = 0; i < na; i++) { int x = a->path_info[i].next; if (x == -2) continue; if (x < 0 || x >= nb) return sfmt("particle %d linked to %d of %d", i, x, nb); if (b->path_info[x].prev != i) return sfmt("particle %d linked to %d, which is linked back to %d", i, x, b->path_info[x].prev); }
    for (int i = 0; i < nb; i++) { int x = b->path_info[i].prev; if (x == -1) continue; if (x < 0 || x >= na) return sfmt("particle %d linked back to %d of %d", i, x, na); if (a->path_info[x].next != i) return sfmt("particle %d linked back to %d, which is linked to %d", i, x, a->path_info[x].next); }
    for (int q = 0; q < 3; q++) { frame *f = tr->fb->buf[q]; int n = std::max(0, f->num_parts); for (int c = 0; c < nc; c++) for (int j = 0; j < f->num_targets[c]; j++) { int t = f->targets[c][j].tnr; if (t == -1) continue; if (t < 0 || t >= n) return sfmt("slot %d camera %d detection %d marked with particle %d of %d", q, c, j, t, n); if (f->correspond[t].p[c] != j) return sfmt("slot %d camera %d detection %d marked with particle %d, which refers to %d", q, c, j, t, f->correspond[t].p[c]); }
        for (int i = 0; i < n; i++) for (int c = 0; c < nc; c++) { int j = f->correspond[i].p[c]; if (j == -1) continue; if (j < 0 || j >= f->num_targets[c]) return sfmt("slot %d particle %d refers to detection %d of %d", q, i, j, f->num_targets[c]); if (f->targets[c][j].tnr != i) return sfmt("slot %d particle %d refers to detection %d marked %d", q, i, j, f->targets[c][j].tnr); } }
    return "";
}
/* A run set up from parameter files, with the old names below the working directory, does what the same run set up by hand does. */
static void legacy(Case &c, TrackCase &k) {
    std::string top = G_scratch + "/leg", d = top + "/res"; mkdir(top.c_str(), 0700); char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(top.c_str())) { c.count("no working directory"); return; }
    store_track(k, d.c_str()); const control_par &q = k.s.cp; const volume_par &v = k.s.vp; const track_par &t = k.tp; std::string o = sfmt("%d\n", k.s.nc); for (int i = 0; i < k.s.nc; i++) o += sfmt("img%d\ncal%d\n", i, i); o += sfmt("%d\n%d\n%d\n%d\n%d\n%.17g\n%.17g\n%d\n%.17g\n%.17g\n%.17g\n%.17g\n", q.hp_flag, q.allCam_flag, q.tiff_flag, q.imx, q.imy, q.pix_x, q.pix_y, q.chfield, q.mm->n1, q.mm->n2[0], q.mm->n3, q.mm->d[0]);
    auto put = [&](const char *n, const std::string &s) { FILE *f = fopen(n, "w"); if (f) { fputs(s.c_str(), f); fclose(f); } }; put("ctl.par", o); o = ""; for (int i = 0; i < k.s.nc; i++) o += sfmt("res/cam%d.\n", i + 1); put("seq.par", o + sfmt("%d\n%d\n", k.first, k.last));
    put("trk.par", sfmt("%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%d\n", t.dvxmin, t.dvxmax, t.dvymin, t.dvymax, t.dvzmin, t.dvzmax, t.dangle, t.dacc, t.add)); put("vol.par", sfmt("%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n%.17g\n", v.X_lay[0], v.Zmin_lay[0], v.Zmax_lay[0], v.X_lay[1], v.Zmin_lay[1], v.Zmax_lay[1], v.cnx, v.cny, v.cn, v.csumg, v.corrmin, v.eps0));
    char a0[] = "seq.par", a1[] = "trk.par", a2[] = "vol.par", a3[] = "ctl.par"; std::string err; std::vector<MFrame> A, B; long links = 0;
    tracking_run *tr = tr_new_legacy(a0, a1, a2, a3, k.s.cal.data());
    if (!tr) c.fail("legacy-rejected", "a run cannot be set up from parameter files in order");
    else { track_forward_start(tr); for (int s = k.first; s < k.last; s++) trackcorr_c_loop(tr, s); trackcorr_c_finish(tr, k.last); if (k.last > k.first && c.idx % 2) trackback_c(tr); tr_free(tr); free(tr);
        if (!parse_all(k, A, true, err)) c.fail("legacy-file", "%s", err.c_str()); else if ((err = check_links(k, A, &links, 0)).size()) c.fail("legacy-links", "%s", err.c_str()); }
    k.clean(); store_track(k, d.c_str()); c.eval(); c.count("runs set up from files"); c.count("links in runs set up from files", links);
    if (tr) { LibRun L(k, 20000); L.tr->flatten_tol = 10000; L.forward(); if (k.last > k.first && c.idx % 2) trackback_c(L.tr); if (!parse_all(k, B, true, err)) c.fail("legacy-file", "%s", err.c_str()); else if ((err = diff_frames(A, B, k.first, true)).size()) c.fail("legacy-differs", "a run set up from files and the same run set up by hand: %s", err.c_str()); }
    k.clean(); for (const char *n : {"seq.par", "trk.par", "vol.par", "ctl.par"}) unlink(n); if (chdir(cwd)) _exit(3); rmdir(top.c_str());
}
void run_case(Case &c) {
    Rng &r = c.r; TrackCase k; TrackOpt o; o.add = 0.6; o.mincams = 1; o.minframes = r.p(0.03) ? 1 : 2; o.hidden = r.pick({0.0, 0.1, 0.4}); o.maxparts = r.pick({2, 8, 25, 60}); o.dense = 0.05; o.big = 0.02; o.fan = 0.03;
    bool leg = c.idx % 80 == 40; make_track(r, k, o); if (leg) legacy(c, k); store_track(k, (G_scratch + "/t16").c_str());
    int maxt = k.maxcount + r.pick({0, 1, 3, 20}); if (maxt < 1) maxt = 1;
    bool back = r.p(0.6); LibRun L(k, maxt); if (!L.tr) { c.fail("no-run", "tr_new failed"); return; }
    bool bad = false;
    L.forward([&](int st) { c.count("steps"); c.eval(); if (bad) return; std::string e = mem_step(L.tr, k.s.nc); if (e.size()) { bad = true; c.fail("in-memory", "after step %d of %d..%d: %s", st, k.first, k.last, e.c_str()); } });
    std::vector<MFrame> W; std::string err; long links = 0, added = 0;
    if (!parse_all(k, W, true, err)) { c.fail("file", "%s", err.c_str()); return; }
    err = check_links(k, W, &links, &added); c.eval(); if (err.size()) { c.fail("links", "%d cameras, %d frames, add %d: %s", k.s.nc, (int)W.size(), k.tp.add, err.c_str()); return; }
    c.count("links written", links); c.count("particles added", added); c.distinct(hash_frames(k, W));
    if (maxt == k.maxcount) c.count("runs without spare room");
    if (k.s.nc == 1) c.count("single camera runs");
    if (back && k.last > k.first) {
        long fw = links; trackback_c(L.tr); std::vector<MFrame> B; links = added = 0;
        if (!parse_all(k, B, true, err)) { c.fail("file-after-backward", "%s", err.c_str()); return; }
        err = check_links(k, B, &links, &added); c.eval(); c.count("backward passes"); if (links > fw) c.count("backward passes that added links");
        if (err.size()) c.fail("links-after-backward", "%d cameras, %d frames, add %d: %s", k.s.nc, (int)W.size(), k.tp.add, err.c_str());
        c.distinct(hash_frames(k, B));
    }
    if (c.idx % 500 == 0) c.sample("%d cameras, frames %d..%d, %ld links, %ld added", k.s.nc, k.first, k.last, links, added);
}
