/* C22: readers under missing, cut off and corrupted files, and writers under full or
   missing destinations. The verdict on a damaged file comes from its own tokens:
   too few of them, or a non-number where a number belongs, must be reported; when the
   reader reports success every value must be the one standing in the file. Memory and
   file handles are accounted around each call. */
#include "fsutil.hpp"
#include <sys/resource.h>
#include <cerrno>
const char *CHECK_RULE = "distinct damaged files or failing destinations (hash of kind, damage and file bytes)";
extern "C" { size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak)); }
static long heap_now() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
static std::string D;
static const char *KN[] = {"orientation", "distortion", "control", "sequence", "track", "volume", "target", "orient", "sortgrid", "calibration points", "manual orientation", "detections", "particles", "links", "priorities", "frame", "filter", "tracking run"};
enum { ORI, ADDP, CTRL, SEQ, TRK, VOL, TGT, ORT, SGR, BLK, MAN, TGS, PRT, LNK, PRI, FRM, FLT, RUN, NKINDS };

/* token kinds: d integer, f real, s string */
struct Text { std::vector<std::string> tok; std::string types; };
static std::string num(Rng &r, char t) { if (t == 's') return r.pick({"img/cam1.", "cal/cam1.tif", "x", "name_with-dash.1", "7"}); if (t == 'd') return sfmt("%d", r.p(0.7) ? r.i(0, 500) : r.i(-99, 99999)); double v = r.p(0.5) ? r.u(-500, 500) : r.u(-1, 1); char b[64]; snprintf(b, sizeof b, r.pick({"%.4f", "%.8f", "%g", "%.10e"}), v); return b; }
static void add(Rng &r, Text &t, const char *types) { for (; *types; types++) { t.tok.push_back(num(r, *types)); t.types += *types; } }
static std::string render(Rng &r, const Text &t, std::vector<size_t> &line_end) { std::string s; size_t k = 0; (void)line_end; for (auto &q : t.tok) { s += q; k++; s += r.p(0.5) ? "\n" : r.pick({" ", "  ", "\t"}); } if (r.p(0.6)) s += "\n"; return s; }
/* does the token certainly not begin with a number? */
static bool not_number(const std::string &t) { size_t i = 0; if (t[0] == '+' || t[0] == '-') i = 1; if (i >= t.size()) return true; char c = t[i]; if (isdigit((unsigned char)c)) return false; if (c == '.') return !(i + 1 < t.size() && isdigit((unsigned char)t[i + 1])); if (strchr("iInN", c)) return false; return true; }
/* begins with '.', fine for a real, not for an integer */
static bool bad_at(const std::string &t, char type) { if (type == 's') return false; if (not_number(t)) return true; if (type == 'd') { size_t i = t[0] == '+' || t[0] == '-'; return !isdigit((unsigned char)t[i]); } return false; }
static bool clean(const std::string &t, char type) { if (type == 's') return t.size() < 240; char *e; if (type == 'd') { errno = 0; long v = strtol(t.c_str(), &e, 10); return e != t.c_str() && !*e && !errno && v >= INT_MIN && v <= INT_MAX; } strtod(t.c_str(), &e); if (e == t.c_str() || *e) return false; size_t i = t[0] == '+' || t[0] == '-'; return i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.') && !strpbrk(t.c_str(), "xX"); }
enum V { MUST_FAIL, MUST_PASS, OPEN };
/* verdict for a fixed list of types */
static V judge(const std::vector<std::string> &tok, const std::string &types) {
    for (size_t i = 0; i < types.size(); i++) { if (i >= tok.size()) return MUST_FAIL; if (bad_at(tok[i], types[i])) return MUST_FAIL; if (!clean(tok[i], types[i])) return OPEN; }
    return MUST_PASS; }
/* count followed by rows */
static V judge_rows(const std::vector<std::string> &tok, const std::string &row, long &n) { n = -1; if (tok.empty() || bad_at(tok[0], 'd')) return MUST_FAIL; if (!clean(tok[0], 'd')) return OPEN; n = strtol(tok[0].c_str(), 0, 10); if (n < 0) return MUST_FAIL; if (n > 100000) { for (size_t i = 1; i < tok.size(); i++) { char t = row[(i - 1) % row.size()]; if (bad_at(tok[i], t)) return MUST_FAIL; if (!clean(tok[i], t)) return OPEN; } return MUST_FAIL; } std::string ty = "d"; for (long i = 0; i < n; i++) ty += row; return judge(tok, ty); }
/* rows until the end */
static V judge_block(const std::vector<std::string> &tok, size_t &n) { n = 0; size_t i = 0; while (i < tok.size()) { for (char t : std::string("dfff")) { if (i >= tok.size()) return MUST_FAIL; if (bad_at(tok[i], t)) return MUST_FAIL; if (!clean(tok[i], t)) return OPEN; i++; } n++; } return n ? MUST_PASS : MUST_FAIL; }
static double D_(const std::string &t) { return strtod(t.c_str(), 0); }
static int I_(const std::string &t) { return (int)strtol(t.c_str(), 0, 10); }

static int g_bal_fd; static long g_bal_heap;
struct Meter { int f; long h; Meter() { f = count_fds(); h = heap_now(); } void stop() { g_bal_heap = heap_now() - h; g_bal_fd = count_fds() - f; } };
static int g_limit = -1; /* number of files that may still be opened; -1 no limit */
struct FdLimit { struct rlimit o; bool on; FdLimit() { on = g_limit >= 0; if (!on) return; getrlimit(RLIMIT_NOFILE, &o); int n = dup(2); close(n); struct rlimit l = o; l.rlim_cur = n + g_limit; setrlimit(RLIMIT_NOFILE, &l); } ~FdLimit() { if (on) setrlimit(RLIMIT_NOFILE, &o); } };

static std::string damage(Rng &r, const std::string &s, Text t, int &kind, std::vector<std::string> &tok, bool small_count) {
    static const char *junk[] = {"abc", "-", "+", "--5", "*", "#", "e5", ".", "x12", "-x", "(3)", "&", "5abc", "1.2.3", "1e", "0x", "nan", "99999999999999999999", "1e400"};
    kind = r.i(0, 9); std::string o = s; std::vector<size_t> le;
    switch (kind) {
    case 0: case 1: case 2: o = s.substr(0, r.i(0, (int)s.size())); break;
    case 3: case 4: { int at = r.i(0, (int)t.tok.size() - 1); for (int k = 0; k < 20 && t.types[at] == 's'; k++) at = r.i(0, (int)t.tok.size() - 1); int j = r.p(0.7) ? r.i(0, 11) : r.i(0, 18); if (at == 0 && small_count && j >= 12) j = 0; t.tok[at] = junk[j]; o = render(r, t, le); break; }
    case 5: { int at = r.i(0, (int)t.tok.size() - 1); if (at == 0 && small_count) at = (int)t.tok.size() - 1; t.tok.erase(t.tok.begin() + at); o = render(r, t, le); break; }
    case 6: o = ""; if (r.p(0.5)) o = r.pick({"\n", " ", "\n\n \t\n"}); break;
    case 7: if (small_count || (t.tok.size() && t.types[0] == 'd')) { t.tok[0] = r.pick({"-1", "-3", "0", "500", "4999", "17"}); if (!small_count && r.p(0.3)) t.tok[0] = r.pick({"2147483647", "-2147483648", "100001", "1000000000"}); } o = render(r, t, le); break;
    case 8: { o = s; int n = r.i(1, 4); for (int k = 0; k < n && o.size(); k++) { size_t p = r.i(small_count ? (int)std::min(o.size() - 1, t.tok[0].size() + 1) : 0, (int)o.size() - 1); o[p] = r.pick({'@', '?', (char)0, (char)0xff, '~', '\n', ' ', 'k'}); } break; }
    default: { for (size_t k = 0; k < t.tok.size(); k++) if (t.types[k] == 's' && r.p(0.6)) t.tok[k] = std::string(r.i(200, 900), 'n'); o = render(r, t, le); break; } }
    tok = split_ws(o); if (o.find('\0') != std::string::npos) tok.clear();
    return o;
}

static void run_in_order(Case &c, const std::string p[4]) {
    /* all four files in order: the run holds what the files say, and freeing it leaves nothing behind */
    static bool done = false; if (done && !c.r.p(0.02)) return; done = true; c.count("tracking runs in order"); c.eval();
    Calibration *cal[3]; for (int k = 0; k < 3; k++) { std::string o = G_data + sfmt("/track/cal/cam%d.tif", k + 1); CStr a(o + ".ori"), b(o + ".addpar"); cal[k] = read_calibration(a, b, NULL); if (!cal[k]) { c.count("tracking run files not found"); return; } }
    CStr a0(p[0]), a1(p[1]), a2(p[2]), a3(p[3]); control_par *cp = read_control_par(a3); sequence_par *sp = cp ? read_sequence_par(a0, cp->num_cams) : NULL; track_par *tp = read_track_par(a1); volume_par *vp = read_volume_par(a2); if (!cp || !sp || !tp || !vp) { c.fail("rejected", "the parameters of a tracking run are in order but rejected"); return; }
    std::vector<Calibration> keep; for (int k = 0; k < 3; k++) keep.push_back(*cal[k]);
    std::string bad; bool ok; Meter mt; { tracking_run *q = tr_new_legacy(a0, a1, a2, a3, cal); ok = q; const char *w = NULL;
        if (q) { if (!compare_control_par(q->cpar, cp)) w = "control parameters"; else if (!compare_sequence_par(q->seq_par, sp)) w = "sequence"; else if (!compare_track_par(q->tpar, tp)) w = "tracking parameters"; else if (!compare_volume_par(q->vpar, vp)) w = "volume"; else if (q->cal != cal) w = "calibrations"; else if (!q->fb || q->fb->num_cams != cp->num_cams || q->fb->buf_len < 4) w = "frame buffer"; else if (q->npart || q->nlinks) w = "totals"; else if (!(fabs(q->lmax - sqrt((tp->dvxmin - tp->dvxmax) * (tp->dvxmin - tp->dvxmax) + (tp->dvymin - tp->dvymax) * (tp->dvymin - tp->dvymax) + (tp->dvzmin - tp->dvzmax) * (tp->dvzmin - tp->dvzmax))) < 1e-9)) w = "longest displacement"; tr_free(q); free(q); }
        mt.stop(); if (w) bad = w; }
    if (!ok) c.fail("rejected", "a tracking run whose files are in order is rejected"); if (bad.size()) c.fail("values", "a tracking run read from its files does not have their %s", bad.c_str());
    if (g_bal_fd) c.fail("handles", "making and freeing a tracking run leaves %d file handles open", g_bal_fd); if (g_bal_heap && bad.empty()) c.fail("memory", "making and freeing a tracking run leaves %ld bytes", g_bal_heap);
    for (int k = 0; k < 3; k++) { if (memcmp(&keep[k], cal[k], offsetof(Calibration, mmlut)) != 0) c.fail("values", "making a tracking run changed a calibration"); free(cal[k]); } free_control_par(cp); free_sequence_par(sp); free(tp); free(vp);
}
static void readers(Case &c) {
    Rng &r = c.r; int kind = r.i(0, NKINDS - 1); if (kind == RUN && r.p(0.6)) kind = r.i(0, FLT);
    Text t; int nc = r.i(1, 4), m = r.p(0.1) ? 0 : r.i(1, 8); bool sc = false;
    const char *rowT = "dffddddd", *rowP = "dfffdddd", *rowL = "ddfff", *rowR = "ddfffd";
    switch (kind) {
    case ORI: add(r, t, "fffffffffffffffffffff"); break; case ADDP: add(r, t, "fffffff"); break;
    case CTRL: sc = true; add(r, t, "d"); t.tok[0] = sfmt("%d", nc); for (int k = 0; k < nc; k++) add(r, t, "ss"); add(r, t, "dddddffdffff"); break;
    case SEQ: for (int k = 0; k < nc; k++) add(r, t, "s"); add(r, t, "dd"); break;
    case TRK: add(r, t, "ffffffffd"); break; case VOL: add(r, t, "ffffffffffff"); break; case TGT: add(r, t, "ddddddddddddd"); break; case ORT: add(r, t, "dddddddddddd"); break; case SGR: add(r, t, "d"); break; case FLT: add(r, t, "fffffffff"); break;
    case BLK: m = std::max(m, 1); for (int k = 0; k < m; k++) add(r, t, "dfff"); break;
    case MAN: for (int k = 0; k < 4 * nc; k++) { add(r, t, "d"); t.tok.back() = sfmt("%d", 1 + k % 4 + (k / 4) % 2); } break;
    case TGS: case FRM: add(r, t, "d"); for (int k = 0; k < m; k++) add(r, t, rowT); t.tok[0] = sfmt("%d", m); break;
    case PRT: add(r, t, "d"); for (int k = 0; k < m; k++) add(r, t, rowP); t.tok[0] = sfmt("%d", m); break;
    case LNK: add(r, t, "d"); for (int k = 0; k < m; k++) add(r, t, rowL); t.tok[0] = sfmt("%d", m); break;
    case PRI: add(r, t, "d"); for (int k = 0; k < m; k++) add(r, t, rowR); t.tok[0] = sfmt("%d", m); break;
    }
    std::vector<size_t> le; std::string s = render(r, t, le), o; std::vector<std::string> tok; int dk = -1; bool missing = false, isdir = false;
    if (kind == RUN) { o = ""; }
    else if (r.p(0.12)) { o = s; tok = split_ws(s); }
    else if (r.p(0.1)) { missing = r.p(0.6); isdir = !missing; dk = missing ? 20 : 21; }
    else o = damage(r, s, t, dk, tok, sc);
    bool nul = o.find('\0') != std::string::npos;
    g_limit = !missing && !isdir && r.p(0.1) ? r.i(0, 2) : -1;
    std::string fn = D + "/file"; if (kind == TGS) fn = D + "/t0007_targets"; if (kind == PRT) fn = D + "/p.7"; if (kind == LNK) fn = D + "/l.7"; if (kind == PRI) fn = D + "/a.7"; if (kind == FRM) fn = D + "/c20007_targets";
    if (isdir) mkdir(fn.c_str(), 0700); else if (!missing && kind != RUN) spit_file(fn, o);
    Hash h; h.i(kind); h.i(dk); h.i(g_limit); h.s(o); c.distinct(h.h); c.eval(); c.count((std::string("read: ") + KN[kind]).c_str());
    V v = missing || isdir ? MUST_FAIL : nul ? OPEN : judge(tok, t.types); if (g_limit == 0) v = MUST_FAIL; else if (g_limit > 0 && v == MUST_PASS) v = OPEN;
    auto verdict = [&](bool ok) { c.count(v == MUST_FAIL ? "files that must be rejected" : v == MUST_PASS ? "files that must be read" : "files without a verdict");
        if (v == MUST_FAIL && ok) c.fail("accepted", "%s file (damage %d%s) is read without an error: '%.200s'", KN[kind], dk, isdir ? ", a directory" : g_limit >= 0 ? ", no file handles left" : "", o.c_str());
        if (v == MUST_PASS && !ok) c.fail("rejected", "%s file (damage %d) that is in order is rejected: '%.200s'", KN[kind], dk, o.c_str());
        if (g_bal_fd) c.fail("handles", "reading a %s file (damage %d) leaves %d more file handles open", KN[kind], dk, g_bal_fd);
        if (g_bal_heap) c.fail("memory", "reading a %s file (damage %d) and releasing the result leaves %ld bytes", KN[kind], dk, g_bal_heap); };
    auto val = [&](double got, size_t i) { if (nul || i >= tok.size()) return; for (size_t j = 0; j <= i; j++) if (!clean(tok[j], t.types.size() > j ? t.types[j] : 'f')) return; if (got != D_(tok[i])) c.fail("values", "%s file (damage %d): value %zu is %.10g, the file says %s", KN[kind], dk, i, got, tok[i].c_str()); };
    CStr cfn(fn);
    switch (kind) {
    case ORI: { CStr no(D + "/none"); Meter mt; Calibration *q; { FdLimit l; q = read_calibration(cfn, no, NULL); } double x[6] = {0}, g3[3] = {0}, i3[3] = {0}; if (q) { x[0] = q->ext_par.x0; x[1] = q->ext_par.y0; x[2] = q->ext_par.z0; x[3] = q->ext_par.omega; x[4] = q->ext_par.phi; x[5] = q->ext_par.kappa; i3[0] = q->int_par.xh; i3[1] = q->int_par.yh; i3[2] = q->int_par.cc; g3[0] = q->glass_par.vec_x; g3[1] = q->glass_par.vec_y; g3[2] = q->glass_par.vec_z; } bool ok = q; free(q); mt.stop(); verdict(ok); if (ok) { for (int i = 0; i < 6; i++) val(x[i], i); for (int i = 0; i < 3; i++) { val(i3[i], 15 + i); val(g3[i], 18 + i); } } break; }
    case ADDP: { std::string of = D + "/good.ori"; std::vector<size_t> l2; Text g; add(r, g, "fffffffffffffffffffff"); spit_file(of, render(r, g, l2)); CStr cof(of); bool asfb = r.p(0.4); CStr no(D + "/none"); ap_52 a; memset(&a, 0x7f, sizeof a); Exterior e; Interior in; Glass gl; if (g_limit < 0 && missing) v = MUST_PASS; if (g_limit > 0 && v == MUST_FAIL) v = OPEN;
        Meter mt; int ok; { FdLimit l; ok = asfb ? read_ori(&e, &in, &gl, cof, &a, no, cfn) : read_ori(&e, &in, &gl, cof, &a, cfn, NULL); } mt.stop(); verdict(ok); if (ok) { double x[7] = {a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she}; if (missing) { if (x[0] || x[1] || x[2] || x[3] || x[4] || x[5] != 1 || x[6]) c.fail("values", "no distortion file: the distortion is not the documented default"); } else if (g_limit < 0) for (int i = 0; i < 7; i++) val(x[i], i); } break; }
    case CTRL: { if (v != MUST_FAIL && !nul && tok.size() && clean(tok[0], 'd')) { int n = I_(tok[0]); if (n != nc) { if (n < 0) v = MUST_FAIL; else { std::string ty = "d"; for (int k = 0; k < n; k++) ty += "ss"; ty += "dddddffdffff"; V w = judge(tok, ty); v = g_limit > 0 && w == MUST_PASS ? OPEN : w; t.types = ty; } } }
        else if (!nul && tok.size() && clean(tok[0], 'd') && g_limit < 0 && !missing && !isdir) { int n = I_(tok[0]); if (n >= 0) { std::string ty = "d"; for (int k = 0; k < n; k++) ty += "ss"; ty += "dddddffdffff"; v = judge(tok, ty); t.types = ty; nc = n; } }
        bool longname = false; for (size_t i = 0; i < tok.size() && i < t.types.size(); i++) if (t.types[i] == 's' && tok[i].size() >= 240) longname = true; if (longname && v != MUST_FAIL) v = OPEN; if (longname && g_limit != 0 && !missing && !isdir) v = OPEN;
        Meter mt; control_par *q; { FdLimit l; q = read_control_par(cfn); } bool ok = q; std::vector<double> x; if (q) { int n = q->num_cams; if (!longname) { if (tok.size() && n != I_(tok[0]) && clean(tok[0], 'd')) c.fail("values", "control file: %d cameras, the file says %s", n, tok[0].c_str()); double y[12] = {(double)q->hp_flag, (double)q->allCam_flag, (double)q->tiff_flag, (double)q->imx, (double)q->imy, q->pix_x, q->pix_y, (double)q->chfield, q->mm->n1, q->mm->n2[0], q->mm->n3, q->mm->d[0]}; for (int i = 0; i < 12; i++) val(y[i], 1 + 2 * n + i); } else for (int k = 0; k < n; k++) if (strlen(q->img_base_name[k]) >= 240) c.fail("values", "a name longer than its place"); free_control_par(q); } x.clear(); x.shrink_to_fit(); mt.stop(); if (!ok || 1) g_bal_heap = ok ? 0 : g_bal_heap; verdict(ok); break; }
    case SEQ: { bool longname = false; for (size_t i = 0; i < tok.size() && i < (size_t)nc; i++) if (tok[i].size() >= 240) longname = true; if (longname && !missing && !isdir && g_limit != 0) v = OPEN; Meter mt; sequence_par *q; { FdLimit l; q = read_sequence_par(cfn, nc); } bool ok = q; int a = 0, b = 0, bad = 0; if (q) { a = q->first; b = q->last; for (int k = 0; k < nc; k++) if (!longname && !nul && k < (int)tok.size() && strcmp(q->img_base_name[k], tok[k].c_str())) bad = 1; free_sequence_par(q); } mt.stop(); verdict(ok); if (bad) c.fail("values", "sequence file: another image name than in the file"); if (ok && !longname) { val(a, nc); val(b, nc + 1); } break; }
    case TRK: { Meter mt; track_par *q; { FdLimit l; q = read_track_par(cfn); } bool ok = q; track_par z; if (q) z = *q; free(q); mt.stop(); verdict(ok); if (ok) { double x[9] = {z.dvxmin, z.dvxmax, z.dvymin, z.dvymax, z.dvzmin, z.dvzmax, z.dangle, z.dacc, (double)z.add}; for (int i = 0; i < 9; i++) val(x[i], i); } break; }
    case VOL: { Meter mt; volume_par *q; { FdLimit l; q = read_volume_par(cfn); } bool ok = q; volume_par z; if (q) z = *q; free(q); mt.stop(); verdict(ok); if (ok) { double x[12] = {z.X_lay[0], z.Zmin_lay[0], z.Zmax_lay[0], z.X_lay[1], z.Zmin_lay[1], z.Zmax_lay[1], z.cnx, z.cny, z.cn, z.csumg, z.corrmin, z.eps0}; for (int i = 0; i < 12; i++) val(x[i], i); } break; }
    case TGT: { Meter mt; target_par *q; { FdLimit l; q = read_target_par(cfn); } bool ok = q; target_par z; if (q) z = *q; free(q); mt.stop(); verdict(ok); if (ok) { int x[13] = {z.gvthres[0], z.gvthres[1], z.gvthres[2], z.gvthres[3], z.discont, z.nnmin, z.nnmax, z.nxmin, z.nxmax, z.nymin, z.nymax, z.sumg_min, z.cr_sz}; for (int i = 0; i < 13; i++) val(x[i], i); } break; }
    case ORT: { Meter mt; orient_par *q; { FdLimit l; q = read_orient_par(cfn); } bool ok = q; orient_par z; if (q) z = *q; free(q); mt.stop(); verdict(ok); if (ok) { unsigned *x = &z.useflag; (void)x; unsigned y[12] = {z.useflag, z.ccflag, z.xhflag, z.yhflag, z.k1flag, z.k2flag, z.k3flag, z.p1flag, z.p2flag, z.scxflag, z.sheflag, z.interfflag}; for (int i = 0; i < 12; i++) val((int)y[i], i); } break; }
    case SGR: { Meter mt; int e; { FdLimit l; e = read_sortgrid_par(cfn); } mt.stop(); if (v == MUST_PASS && I_(tok[0]) == 0) v = OPEN; verdict(e != 0); if (e) val(e, 0); break; }
    case BLK: { size_t n = 0; if (v != MUST_FAIL || (!missing && !isdir && g_limit != 0)) { V w = nul ? OPEN : judge_block(tok, n); v = g_limit > 0 && w == MUST_PASS ? OPEN : w; } int got = -5; Meter mt; vec3d *q; { FdLimit l; q = read_calblock(&got, cfn); } bool ok = q; std::vector<double> *x = 0; mt.stop(); if (q) { g_bal_heap = 0; x = new std::vector<double>((double *)q, (double *)q + 3 * got); free(q); } verdict(ok); if (ok && v == MUST_PASS) { if (got != (int)n) c.fail("values", "%d of %zu points read", got, n); else for (size_t i = 0; i < 3 * n; i++) if ((*x)[i] != D_(tok[i / 3 * 4 + 1 + i % 3])) { c.fail("values", "calibration point %zu is not as in the file", i / 3); break; } } if (!ok && got != 0) c.fail("values", "rejected calibration points are counted as %d", got); delete x; break; }
    case MAN: { int np = r.i(5, 12); std::string b, bf = D + "/block"; bool goodblock = r.p(0.7); for (int k = 0; k < np; k++) b += sfmt("%d %d %d %d\n", k + 1, k, 2 * k, 3 * k); if (!goodblock) b = r.p(0.5) ? b.substr(0, r.i(0, 12)) : b + "x\n"; spit_file(bf, b); int cam = r.i(0, nc - 1); if (!missing && !isdir && g_limit != 0 && !nul) { v = judge(tok, t.types.substr(0, 4 * (cam + 1))); if (g_limit > 0 && v == MUST_PASS) v = OPEN; } if (v == MUST_PASS) { std::set<int> ids; for (int j = 0; j < 4; j++) { int k = I_(tok[4 * cam + j]); if (k >= 1 && k <= np) ids.insert(k); } if (ids.size() < 4) v = MUST_FAIL; } if (!goodblock && v == MUST_PASS) v = MUST_FAIL; vec3d *f4 = (vec3d *)malloc(4 * sizeof(vec3d)); CStr cbf(bf); Meter mt; int n; { FdLimit l; n = read_man_ori_fix(f4, cbf, cfn, cam); } mt.stop(); verdict(n == 4); if (n < 0 || n > 4) c.fail("values", "%d of 4 points found", n); if (n == 4 && v == MUST_PASS) for (int j = 0; j < 4; j++) if (f4[j][0] != I_(tok[4 * cam + j]) - 1) c.fail("values", "manual orientation point %d is another one than in the file", j); free(f4); break; }
    case TGS: { long n; if (!missing && !isdir && g_limit != 0) { v = nul ? OPEN : judge_rows(tok, rowT, n); if (g_limit > 0 && v == MUST_PASS) v = OPEN; } size_t cap = tok.size() / 8 + 3; for (char ch : o) if (nul && isspace((unsigned char)ch)) cap++; target *b = (target *)malloc(cap * sizeof(target)); memset(b, 0x55, cap * sizeof(target)); CStr base(D + "/t"); Meter mt; int got; { FdLimit l; got = read_targets(b, base, 7); } mt.stop(); verdict(got != -1); if (got >= 0 && v == MUST_PASS) { if (got != n) c.fail("values", "%d of %ld detections read", got, n); else for (int i = 0; i < got; i++) { const auto *k = &tok[1 + 8 * i]; if (b[i].pnr != I_(k[0]) || b[i].x != D_(k[1]) || b[i].y != D_(k[2]) || b[i].n != I_(k[3]) || b[i].nx != I_(k[4]) || b[i].ny != I_(k[5]) || b[i].sumg != I_(k[6]) || b[i].tnr != I_(k[7])) { c.fail("values", "detection %d is not as in the file", i); break; } } } if (got < -1) c.fail("accepted", "reading detections returns %d", got); free(b); break; }
    case PRT: case LNK: case PRI: { /* the other files are in order */
        int np = std::max(m, 1); long n = 0; std::vector<size_t> l2; Text g; auto fill = [&](const char *row, const char *f) { Text g; add(r, g, "d"); for (int k = 0; k < np; k++) add(r, g, row); g.tok[0] = sfmt("%d", np); spit_file(D + f, render(r, g, l2)); };
        if (kind != PRT) fill(rowP, "/p.7"); if (kind != LNK) fill(rowL, "/l.7"); if (kind != PRI) fill(rowR, "/a.7");
        const char *row = kind == PRT ? rowP : kind == LNK ? rowL : rowR; if (!missing && !isdir && g_limit != 0) { if (nul) v = OPEN; else if (kind == PRT) { v = judge_rows(tok, row, n); if (v == MUST_PASS && n == 0) v = OPEN; if (v == MUST_PASS && n > np) v = MUST_FAIL; } else { if (tok.empty() || bad_at(tok[0], 'd')) v = MUST_FAIL; else if (!clean(tok[0], 'd')) v = OPEN; else { std::string ty = "d"; for (int k = 0; k < np; k++) ty += row; v = judge(tok, ty); if (v == MUST_PASS && I_(tok[0]) != np) v = OPEN; } } if (g_limit > 0 && v == MUST_PASS) v = OPEN; }
        size_t cap = std::max<size_t>(tok.size() / 8 + 3, np + 3); if (nul) cap += o.size(); P *p = (P *)malloc(cap * sizeof(P)); corres *k = (corres *)malloc(cap * sizeof(corres)); CStr b1(D + "/p"), b2(D + "/l"), b3(D + "/a"); Meter mt; int got; { FdLimit l; got = read_path_frame(k, p, b1, b2, b3, 7); } mt.stop(); verdict(got != -1); if (got < -1) c.fail("accepted", "reading particles returns %d", got);
        if (got > 0 && v == MUST_PASS) { for (int i = 0; i < got; i++) { bool ok = true; if (kind == PRT) { const auto *q = &tok[1 + 8 * i]; for (int j = 0; j < 3; j++) ok = ok && p[i].x[j] == D_(q[1 + j]); for (int j = 0; j < 4; j++) ok = ok && k[i].p[j] == I_(q[4 + j]); } else if (kind == LNK) { const auto *q = &tok[1 + 5 * i]; ok = p[i].prev == I_(q[0]) && p[i].next == I_(q[1]); } else ok = p[i].prio == I_(tok[1 + 6 * i + 5]); if (!ok) { c.fail("values", "particle %d is not as in the %s file", i, KN[kind]); break; } } if (kind == PRT ? got != n : got != np) c.fail("values", "%d particles read", got); }
        free(p); free(k); break; }
    case FLT: { /* the 3x3 filter of the highpass */ unsigned char a[30], b[30]; for (int k = 0; k < 30; k++) a[k] = r.i(0, 255), b[k] = 0; mm_np mm; memset(&mm, 0, sizeof mm); control_par cp; memset(&cp, 0, sizeof cp); cp.imx = 5; cp.imy = 6; cp.num_cams = 1; cp.mm = &mm; cp.chfield = r.i(0, 2); int lp = r.i(0, 3); bool wild = false; for (auto &q : tok) if (!(fabs(D_(q)) < 1e5)) wild = true; if (wild && v != MUST_FAIL) { c.count("filters out of range"); break; } double fs = 0; for (size_t i = 0; i < tok.size() && i < 9; i++) fs += D_(tok[i]); if (fabs(fs) < 0.05) break; Meter mt; int ok; { FdLimit l; ok = prepare_image(a, b, lp, 2, cfn, &cp); } mt.stop(); verdict(ok != 0); break; }
    case FRM: { /* a frame of two cameras with room for cap; the second camera's detections are damaged */
        int np = r.i(1, 6), cap = r.p(0.4) ? std::max(np, 1) : std::max(std::max(np, m), 1) + r.i(0, 3); std::vector<size_t> l2; auto fill = [&](const char *row, const char *f, int n) { Text g; add(r, g, "d"); for (int k = 0; k < n; k++) add(r, g, row); g.tok[0] = sfmt("%d", n); spit_file(D + f, render(r, g, l2)); }; int over = r.p(0.15) ? cap + r.i(1, 300) : np; fill(rowP, "/p.7", over); fill(rowL, "/l.7", over); fill(rowR, "/a.7", over); fill(rowT, "/c10007_targets", np);
        long n = 0; if (!missing && !isdir && g_limit != 0) { v = nul ? OPEN : judge_rows(tok, rowT, n); if (v == MUST_PASS && n > cap) v = MUST_FAIL; if (v != OPEN && over > cap) v = MUST_FAIL; if (g_limit > 0 && v == MUST_PASS) v = OPEN; }
        frame f; frame_init(&f, 2, cap); for (int q = 0; q < 2; q++) f.num_targets[q] = cap; std::string t1 = D + "/c1", t2 = D + "/c2"; char *tb[2] = {(char *)t1.c_str(), (char *)t2.c_str()}; CStr b1(D + "/p"), b2(D + "/l"), b3(D + "/a"); Meter mt; int ok; { FdLimit l; ok = read_frame(&f, b1, b2, b3, tb, 7); } mt.stop(); verdict(ok);
        for (int q = 0; q < 2; q++) if (f.num_targets[q] > cap) c.fail("capacity", "camera %d shows %d detections, room for %d", q, f.num_targets[q], cap); if (f.num_parts > cap) c.fail("capacity", "%d particles, room for %d", f.num_parts, cap); if (!ok && v == MUST_FAIL && g_limit < 0 && n != f.num_targets[1] && f.num_targets[1] > 0) c.fail("leftover", "a camera whose file is rejected shows %d detections", f.num_targets[1]); if (f.num_cams != 2 || f.max_targets != cap) c.fail("capacity", "reading changed the frame's shape"); free_frame(&f); break; }
    case RUN: { int miss = r.i(0, 4); std::string pd = G_data + "/track/parameters/"; const char *fs[4] = {"sequence_newpart.par", "track.par", "criteria.par", "control_newpart.par"}; std::string p[4]; for (int k = 0; k < 4; k++) { std::string tx; if (!slurp_file(pd + fs[k], tx)) { c.count("tracking run files not found"); return; } if (k == miss) { if (r.p(0.3)) { p[k] = D + "/nothing"; continue; } tx = tx.substr(0, r.i(0, (int)tx.size() / 3)); if (k == 3 && tx.size()) tx = "4\n"; } p[k] = D + sfmt("/par%d", k); spit_file(p[k], tx); } if (miss == 4) { run_in_order(c, p); return; }
        v = MUST_FAIL; dk = 30 + miss; Calibration *cal[4] = {0, 0, 0, 0}; static Calibration z[4]; for (int k = 0; k < 4; k++) cal[k] = &z[k]; CStr a0(p[0]), a1(p[1]), a2(p[2]), a3(p[3]); Meter mt; tracking_run *q = tr_new_legacy(a0, a1, a2, a3, cal); mt.stop(); verdict(q != NULL); h.i(miss); break; }
    }
    if (c.idx < 4) c.sample("%s file, damage %d, %zu bytes", KN[kind], dk, o.size());
}
static void writers(Case &c) {
    Rng &r = c.r; int w = r.i(0, 5), how = r.i(0, 3); Hash h; h.i(100 + w); h.i(how); h.i((long)c.idx); c.distinct(h.h); c.eval(); c.count("failing writes");
    static bool full = access("/dev/full", W_OK) == 0; if (!full && how != 0) how = 0;
    /* how 0: no such directory; else a link to /dev/full under the name to be written */
    bool both = how == 0 && r.p(0.3); std::string P0 = both ? D + "/missing/dir" : D; auto block = [&](const std::string &n) { if (!both && symlink(how ? "/dev/full" : (D + "/missing/dir/x").c_str(), (D + "/" + n).c_str())) _exit(3); };
    FFrame f; rand_frame(r, f, 2, r.p(0.2) ? 300 : 5); std::vector<P> p(f.parts.size() + 1); std::vector<corres> k(f.parts.size() + 1); memset((void *)p.data(), 0, p.size() * sizeof(P)); memset(k.data(), 0, k.size() * sizeof(corres)); std::vector<target> t(f.t[0].size() + 1); memset(t.data(), 0, t.size() * sizeof(target)); int n = (int)f.parts.size(), nt = (int)f.t[0].size();
    bool ok = false; const char *nm = ""; static bool warm = false; if (!warm) { warm = true; printf("warm\n"); fflush(stdout); }
    CStr rt(P0 + "/rt"), ptv(P0 + "/ptv"), ad(P0 + "/add"), tg(P0 + "/t"), oo(P0 + "/ori"), aa(P0 + "/addpar"); std::string tb0 = P0 + "/t", tb1 = P0 + "/u"; char *tb[2] = {(char *)tb0.c_str(), (char *)tb1.c_str()};
    if (w == 0) { nm = "write_targets"; block("t0005_targets"); Meter m; ok = write_targets(t.data(), nt, tg, 5); m.stop(); }
    else if (w == 1) { nm = "write_path_frame"; int q = r.i(0, 2); block(q == 0 ? "rt.5" : q == 1 ? "ptv.5" : "add.5"); Meter m; ok = write_path_frame(k.data(), p.data(), n, rt, ptv, ad, 5); m.stop(); }
    else if (w == 2) { nm = "write_frame"; frame g; frame_init(&g, 2, 310); g.num_parts = n; g.num_targets[0] = nt; g.num_targets[1] = (int)f.t[1].size(); block(r.pick({"rt.5", "ptv.5", "add.5", "t0005_targets", "u0005_targets"})); Meter m; ok = write_frame(&g, rt, ptv, ad, tb, 5); m.stop(); free_frame(&g); }
    else if (w == 3) { nm = "write_calibration"; static Calibration z; block(r.pick({"ori", "addpar"})); Meter m; ok = write_calibration(&z, oo, aa); m.stop(); }
    else if (w == 4) { /* names at the limit of length: written where the file system can hold them, never past a buffer */
        int L = r.i(120, 700); std::string base = D + "/"; while ((int)base.size() < L) base += "./"; base += "n"; CStr b(base); Meter m; int a = write_targets(t.data(), nt, b, 5); int rd = -1; if (a) { std::vector<target> t2(nt + 1); rd = read_targets(t2.data(), b, 5); } int e = write_path_frame(k.data(), p.data(), n, b, ptv, ad, 5); int e2 = write_path_frame(k.data(), p.data(), n, rt, b, NULL, 6); int e3 = write_path_frame(k.data(), p.data(), n, rt, ptv, b, 7);
        std::vector<P> p2(n + 2); std::vector<corres> k2(n + 2); std::vector<target> t3(nt + 1); int ra = a ? -1 : read_targets(t3.data(), b, 5), re = read_path_frame(k2.data(), p2.data(), b, ptv, ad, 5), re2 = read_path_frame(k2.data(), p2.data(), rt, b, NULL, 6), re3 = read_path_frame(k2.data(), p2.data(), rt, ptv, b, 7);
        if (ra != -1) c.fail("long-name", "%d detections read from a file whose name (%zu characters) could not be written to", ra, base.size()); if ((!e && re != -1) || (!e2 && re2 != -1) || (!e3 && re3 != -1)) c.fail("long-name", "particles read (%d %d %d) with names of %zu characters that could not be written (%d %d %d)", re, re2, re3, base.size(), e, e2, e3); if ((e && n && re != n) || (e2 && n && re2 != n) || (e3 && n && re3 != n)) c.fail("long-name", "%d particles written under a name of %zu characters, %d %d %d read", n, base.size(), re, re2, re3); m.stop();
        if (base.size() + 14 < 250 && how != 0) { if (!a || rd != nt) c.fail("long-name", "a name of %zu characters: written %d, read %d of %d", base.size(), a, rd, nt); if (!e || !e2 || !e3) c.fail("long-name", "a name of %zu characters: particles written %d %d", base.size(), e, e2); } if (a && rd != nt) c.fail("long-name", "a name of %zu characters: written but read %d of %d", base.size(), rd, nt); c.count("long names"); nm = 0; }
    else { nm = 0; target_par tp; memset(&tp, 0, sizeof tp); CStr q(P0 + "/targ"); block("targ"); Meter m; write_target_par(&tp, q); m.stop(); }
    if (nm && ok) c.fail("write-unreported", "%s reports success although %s", nm, how ? "the device is full" : "there is no such directory");
    if (g_bal_fd) c.fail("handles", "writing (%d) leaves %d file handles open", w, g_bal_fd);
    rmdir((D + "/missing/dir").c_str());
}
void run_case(Case &c) {
    static bool warm = false; if (!warm) { warm = true; printf("warm\n"); fflush(stdout); heap_now(); count_fds(); CStr x(G_scratch + "/none"); read_control_par(x); }
    D = G_scratch + "/par"; mkdir(D.c_str(), 0700); for (auto &n : list_dir(D)) if (unlink((D + "/" + n).c_str())) rmdir((D + "/" + n).c_str());
    if (c.r.p(0.12)) writers(c); else readers(c);
    for (auto &n : list_dir(D)) if (unlink((D + "/" + n).c_str())) rmdir((D + "/" + n).c_str());
}
