/* C19: the tracking frame buffer as a ring. A plain vector of frames in cyclic order
   is the model; after every operation all slots (pointers and full contents) are
   compared with it. Allocation is accounted around the library calls only. */
#include "fsutil.hpp"
const char *CHECK_RULE = "distinct histories (hash of configuration, operations and contents)";
extern "C" {
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
void fb_base_free(framebuf_base *) __attribute__((weak));
}
static long heap_now() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }

struct Slot { frame *f; std::string img; };
static std::string image(const frame *f) { /* everything the frame holds, unused entries included */
    std::string s; auto add = [&](const void *p, size_t n) { s.append((const char *)p, n); };
    add(&f->num_parts, sizeof(int)); add(&f->num_cams, sizeof(int)); add(&f->max_targets, sizeof(int));
    add(f->path_info, f->max_targets * sizeof(P)); add(f->correspond, f->max_targets * sizeof(corres));
    for (int c = 0; c < f->num_cams; c++) { add(&f->num_targets[c], sizeof(int)); add(f->targets[c], f->max_targets * sizeof(target)); }
    return s; }

struct Rec { int frame_num, links, calls; framebuf_base *self; } g_rec;
static int g_ret;
static void v_free(framebuf_base *s) { g_rec.self = s; g_rec.calls += 100; }
static int v_read(framebuf_base *s, int n, int l) { g_rec.self = s; g_rec.frame_num = n; g_rec.links = l; g_rec.calls++; return g_ret; }
static int v_write(framebuf_base *s, int n) { g_rec.self = s; g_rec.frame_num = n; g_rec.calls += 10; return g_ret; }

static std::string D, RT, PTV, ADD; static std::vector<std::string> TB;
static void put_frame(const FFrame &f, int num, bool links) {
    FILE *o = fopen(sfmt("%s.%d", RT.c_str(), num).c_str(), "w"); fprintf(o, "%d\n", (int)f.parts.size());
    for (size_t i = 0; i < f.parts.size(); i++) { auto &q = f.parts[i]; fprintf(o, "%d %.17g %.17g %.17g %d %d %d %d\n", (int)i + 1, q.x[0], q.x[1], q.x[2], q.p[0], q.p[1], q.p[2], q.p[3]); } fclose(o);
    if (links) { FILE *l = fopen(sfmt("%s.%d", PTV.c_str(), num).c_str(), "w"), *a = fopen(sfmt("%s.%d", ADD.c_str(), num).c_str(), "w"); fprintf(l, "%d\n", (int)f.parts.size()); fprintf(a, "%d\n", (int)f.parts.size());
        for (auto &q : f.parts) { fprintf(l, "%d %d %g %g %g\n", q.prev, q.next, q.x[0], q.x[1], q.x[2]); fprintf(a, "%d %d %g %g %g %d\n", q.prev, q.next, q.x[0], q.x[1], q.x[2], q.prio); } fclose(l); fclose(a); }
    for (size_t c = 0; c < f.t.size(); c++) { FILE *t = fopen(sfmt("%s%04d_targets", TB[c].c_str(), num).c_str(), "w"); fprintf(t, "%d\n", (int)f.t[c].size()); for (auto &q : f.t[c]) fprintf(t, "%d %.17g %.17g %d %d %d %d %d\n", q.pnr, q.x, q.y, q.n, q.nx, q.ny, q.sumg, q.tnr); fclose(t); }
}
static std::string diff(const frame *f, const FFrame &m, bool links, double tol) {
    if (f->num_parts != (int)m.parts.size()) return sfmt("%d particles instead of %zu", f->num_parts, m.parts.size());
    auto ne = [&](double a, double b) { return fabs(a - b) > tol * (1 + (tol ? 0 : 0)) + (tol ? 1e-9 * fabs(b) : 0); };
    for (size_t i = 0; i < m.parts.size(); i++) { auto &q = m.parts[i]; P &p = f->path_info[i]; corres &k = f->correspond[i];
        for (int j = 0; j < 3; j++) if (ne(p.x[j], q.x[j])) return sfmt("particle %zu: coordinate %.10g instead of %.10g", i, p.x[j], q.x[j]);
        for (int j = 0; j < 4; j++) if (k.p[j] != q.p[j]) return sfmt("particle %zu: detection %d instead of %d", i, k.p[j], q.p[j]);
        if (k.nr != (int)i + 1) return sfmt("particle %zu: number %d", i, k.nr);
        int pv = links ? q.prev : -1, nx = links ? q.next : -2, pr = links ? q.prio : 4;
        if (p.prev != pv || p.next != nx || p.prio != pr) return sfmt("particle %zu: links %d %d %d instead of %d %d %d", i, p.prev, p.next, p.prio, pv, nx, pr); }
    for (size_t c = 0; c < m.t.size(); c++) { if (f->num_targets[c] != (int)m.t[c].size()) return sfmt("camera %zu: %d detections instead of %zu", c, f->num_targets[c], m.t[c].size());
        for (size_t i = 0; i < m.t[c].size(); i++) { auto &q = m.t[c][i]; target &t = f->targets[c][i]; double tt = tol / 10; auto ne2 = [&](double a, double b) { return fabs(a - b) > tt + (tol ? 1e-9 * fabs(b) : 0); };
            if (t.pnr != q.pnr || ne2(t.x, q.x) || ne2(t.y, q.y) || t.n != q.n || t.nx != q.nx || t.ny != q.ny || t.sumg != q.sumg || t.tnr != q.tnr) return sfmt("camera %zu: detection %zu differs", c, i); } }
    return ""; }

void run_case(Case &c) {
    Rng &r = c.r; static bool first = true;
    if (first) { first = false; printf("warm\n"); fflush(stdout); heap_now(); }
    D = G_scratch + "/fb"; mkdir(D.c_str(), 0700); clear_dir(D);
    RT = D + "/rt_is"; PTV = D + "/ptv_is"; ADD = D + "/added"; TB.clear();
    int len = r.p(0.7) ? r.i(1, 6) : r.i(1, 17), nc = r.p(0.85) ? r.i(1, 4) : r.i(1, 8), cap = r.p(0.01) ? r.i(300, 1500) : r.p(0.2) ? r.i(1, 3) : r.i(1, 40);
    for (int k = 0; k < nc; k++) TB.push_back(D + sfmt("/cam%d.", k + 1));
    std::vector<char *> tb; for (auto &s : TB) tb.push_back((char *)s.c_str());
    bool has_prio = r.p(0.8); Hash h; h.i(len); h.i(nc); h.i(cap); h.i(has_prio);
    /* frames on disk: kind 0 with links, 1 without, 2 incomplete, 3 more than fits, 4 none */
    int nd = r.i(2, 8), base = r.pick({1, 5, 98, 997, 9998, 20000}); std::vector<FFrame> disk(nd); std::vector<int> kind(nd);
    for (int k = 0; k < nd; k++) {
        kind[k] = r.p(0.6) ? 0 : r.p(0.4) ? 1 : r.i(2, 4); rand_frame(r, disk[k], nc, cap, true);
        if (kind[k] == 3) { bool parts = r.p(0.5); FFrame big; do rand_frame(r, big, nc, cap + 5, true); while (parts ? (int)big.parts.size() <= cap : (int)big.t[nc - 1].size() <= cap); if (parts) disk[k].parts = big.parts; else disk[k].t[r.i(0, nc - 1)] = big.t[nc - 1]; }
        if (kind[k] != 4) put_frame(disk[k], base + k, kind[k] != 1);
        if (kind[k] == 2) { int w = r.i(0, 1); std::string fn = w ? sfmt("%s%04d_targets", TB[r.i(0, nc - 1)].c_str(), base + k) : sfmt("%s.%d", RT.c_str(), base + k); unlink(fn.c_str()); }
    }
    long bal = 0, b0; auto in = [&] { b0 = heap_now(); }; auto out = [&] { bal += heap_now() - b0; };
    framebuf *fb = (framebuf *)malloc(sizeof *fb);
    memset((void *)fb, 0xA5, sizeof *fb);
    in(); fb_init(fb, len, nc, cap, (char *)RT.c_str(), (char *)PTV.c_str(), has_prio ? (char *)ADD.c_str() : NULL, tb.data()); out();
    framebuf_base *b = &fb->base;
    std::vector<Slot> ring; 
    for (int k = 0; k < len; k++) { frame *f = b->buf[k]; 
        if (f->num_cams != nc || f->max_targets != cap || f->num_parts != 0) { c.fail("fresh", "a new frame has %d cameras of %d, capacity %d of %d, %d particles", f->num_cams, nc, f->max_targets, cap, f->num_parts); return; }
        for (int q = 0; q < nc; q++) if (f->num_targets[q]) c.fail("fresh", "a new frame has %d detections", f->num_targets[q]);
        for (auto &s : ring) if (s.f == f) c.fail("shared", "a new buffer shows one frame in two slots");
        ring.push_back({f, image(f)}); }
    if (b->buf_len != len || b->num_cams != nc) c.fail("fresh", "new buffer of length %d, %d cameras", b->buf_len, b->num_cams);
    int start = 0, ops = r.i(5, G_thorough ? 120 : 60); auto at = [&](int k) -> Slot & { return ring[((start + k) % len + len) % len]; };
    std::string hist;
    auto verify = [&](int skip, const char *op) { /* skip: ring position whose content is unspecified */
        for (int k = 0; k < len; k++) {
            if (b->buf[k] != at(k).f) { c.fail("order", "after %s: position %d of %d shows another frame (%s)", op, k, len, hist.c_str()); return false; }
            if (k == skip) { at(k).img = image(at(k).f); continue; }
            if (image(at(k).f) != at(k).img) { c.fail("disturbed", "after %s: position %d of %d changed (%s)", op, k, len, hist.c_str()); return false; } }
        c.eval(len); return true; };
    if (!verify(-1, "init")) return;
    bool fine = true;
    for (int o = 0; o < ops && fine; o++) {
        int op = r.i(0, 9); h.i(op);
        if (op <= 2) { in(); fb_next(b); out(); start++; hist += "n"; fine = verify(-1, "next"); c.count("advanced"); }
        else if (op <= 4) { in(); fb_prev(b); out(); start--; hist += "p"; fine = verify(-1, "prev"); c.count("retreated"); }
        else if (op <= 7) {
            int k = r.i(0, nd - 1), links = r.p(0.5); hist += sfmt("r%d%s", kind[k], links ? "L" : ""); h.i(k);
            auto before = snap_dir(D); in(); int ok = fb_read_frame_at_end(b, base + k, links); out();
            if (snap_dir(D) != before) c.fail("read-writes", "reading a frame changed files");
            bool want = kind[k] == 0 || (kind[k] == 1 && !links);
            if (kind[k] == 1 && links) c.count("reads with missing links"); else if (!want) c.count("reads that must fail"); else c.count("frames read");
            if (!!ok != want) { c.fail("read-result", "reading a frame of kind %d with links %d returned %d", kind[k], links, ok); return; }
            fine = verify(len - 1, "read");
            if (fine && want) { FFrame m = disk[k]; if (!has_prio) for (auto &q : m.parts) q.prio = 4; std::string d = diff(at(len - 1).f, m, links, 0); if (d.size()) { c.fail("read-content", "frame read at the end: %s", d.c_str()); fine = false; } }
            if (fine && !want && at(len - 1).f->num_parts > 0 && at(len - 1).f->num_parts > cap) c.fail("count", "failed read leaves %d particles, capacity %d", at(len - 1).f->num_parts, cap);
        } else if (op == 8) { /* the user fills a frame in place */
            int k = r.i(0, len - 1); frame *f = b->buf[k]; FFrame m; rand_frame(r, m, nc, cap); f->num_parts = (int)m.parts.size();
            for (int i = 0; i < f->num_parts; i++) { memcpy(f->path_info[i].x, m.parts[i].x, 24); memcpy(f->correspond[i].p, m.parts[i].p, 16); f->correspond[i].nr = i + 1; f->path_info[i].prev = m.parts[i].prev; f->path_info[i].next = m.parts[i].next; f->path_info[i].prio = m.parts[i].prio; }
            for (int q = 0; q < nc; q++) { f->num_targets[q] = (int)m.t[q].size(); for (int i = 0; i < f->num_targets[q]; i++) { target &t = f->targets[q][i]; auto &s = m.t[q][i]; t.pnr = s.pnr; t.x = s.x; t.y = s.y; t.n = s.n; t.nx = s.nx; t.ny = s.ny; t.sumg = s.sumg; t.tnr = s.tnr; } }
            hist += sfmt("e%d", k); at(k).img = image(f); fine = verify(-1, "filling a frame"); c.count("frames filled");
        } else { /* write the first frame under a number of its own, read it back elsewhere */
            frame *f = b->buf[0]; if (f->num_parts <= 0) continue; int num = base + 500 + o; hist += "w";
            auto before = snap_dir(D); in(); int ok = fb_write_frame_from_start(b, num); out(); auto after = snap_dir(D);
            if (!ok) { c.fail("write-result", "writing a frame failed"); return; }
            fine = verify(-1, "write");
            for (auto &x : before) if (after[x.first] != x.second) { c.fail("write-other", "writing frame %d changed %s", num, x.first.c_str()); break; }
            std::set<std::string> want; want.insert(sfmt("rt_is.%d", num)); want.insert(sfmt("ptv_is.%d", num)); if (has_prio) want.insert(sfmt("added.%d", num)); for (int q = 0; q < nc; q++) want.insert(sfmt("cam%d.%04d_targets", q + 1, num));
            for (auto &x : after) if (!before.count(x.first) && !want.erase(x.first)) c.fail("write-files", "writing frame %d made %s", num, x.first.c_str());
            if (want.size()) c.fail("write-files", "writing frame %d did not make %s", num, want.begin()->c_str());
            FFrame m; m.t.resize(nc); for (int i = 0; i < f->num_parts; i++) { FPart q; memcpy(q.x, f->path_info[i].x, 24); memcpy(q.p, f->correspond[i].p, 16); q.prev = f->path_info[i].prev; q.next = f->path_info[i].next; q.prio = has_prio ? f->path_info[i].prio : 4; m.parts.push_back(q); }
            for (int q = 0; q < nc; q++) for (int i = 0; i < f->num_targets[q]; i++) { target &t = f->targets[q][i]; m.t[q].push_back({t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr}); }
            frame g; frame_init(&g, nc, cap); int rok = read_frame(&g, (char *)RT.c_str(), (char *)PTV.c_str(), has_prio ? (char *)ADD.c_str() : NULL, tb.data(), num);
            if (!rok) c.fail("write-content", "the frame written cannot be read"); else { std::string d = diff(&g, m, true, 0.00051); if (d.size()) c.fail("write-content", "frame written from the start: %s", d.c_str()); }
            free_frame(&g); c.count("frames written"); h.i(f->num_parts);
        }
    }
    if (!fine) return;
    /* fill every frame to its capacity: owned by this buffer alone */
    for (int k = 0; k < len; k++) { frame *f = b->buf[k]; memset((void *)f->path_info, k + 1, cap * sizeof(P)); memset(f->correspond, k + 2, cap * sizeof(corres)); for (int q = 0; q < nc; q++) memset(f->targets[q], k + q + 3, cap * sizeof(target)); at(k).img = image(f); }
    verify(-1, "filling all");
    in(); fb_free(b); out();
    if (bal != 0) c.fail("release", "%ld bytes of the buffer are left after freeing it (length %d, %d cameras, capacity %d)", bal, len, nc, cap);
    free(fb); c.count("buffers freed");
    /* another source of frames, as the header describes */
    if (r.p(0.2)) {
        struct Mine { framebuf_base base; int extra; } *m = (Mine *)malloc(sizeof *m); m->extra = 77;
        bal = 0; in(); fb_base_init(&m->base, len, nc, cap); out(); framebuf_base *q = &m->base; q->_vptr->free = v_free; q->_vptr->read_frame_at_end = v_read; q->_vptr->write_frame_from_start = v_write;
        int n1 = r.i(-5, 99999), l1 = r.i(0, 1); g_ret = r.i(0, 1); memset(&g_rec, 0, sizeof g_rec);
        int got = fb_read_frame_at_end(q, n1, l1); if (got != g_ret || g_rec.calls != 1 || g_rec.frame_num != n1 || !!g_rec.links != !!l1 || g_rec.self != q) c.fail("virtual", "reading is not handed to the source of frames as asked");
        g_ret = !g_ret; got = fb_write_frame_from_start(q, n1 + 1); if (got != g_ret || g_rec.calls != 11 || g_rec.frame_num != n1 + 1 || g_rec.self != q) c.fail("virtual", "writing is not handed to the source of frames as asked");
        fb_next(q); fb_prev(q); g_rec.self = 0; fb_free(q); if (g_rec.calls != 111 || g_rec.self != q) c.fail("virtual", "freeing is not handed to the source of frames");
        if (fb_base_free) { in(); fb_base_free(q); out(); if (bal) c.fail("release", "%ld bytes of a base buffer are left", bal); }
        free(m); c.count("other sources of frames");
    }
    clear_dir(D); h.s(hist); c.distinct(h.h); c.eval(); if (c.idx < 4) c.sample("ring of %d frames, %d cameras, capacity %d: %s", len, nc, cap, hist.substr(0, 120).c_str());
}
