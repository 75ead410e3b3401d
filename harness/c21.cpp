/* C21: calibration and parameter files, and the comparison functions. */
#include "scene.hpp"
#include "fsutil.hpp"
#include "foreign.hpp"
const char *CHECK_RULE = "distinct value sets stored (hash of file kind and values)";
static std::string D;
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol + 1e-12 * fabs(b); }
static double val(Rng &r) { switch (r.i(0, 6)) { case 0: return r.u(-1, 1); case 1: return r.u(-500, 500); case 2: return r.i(-20, 20); case 3: return r.u(-1e-3, 1e-3); case 4: return r.u(-1, 1) * 1e6; case 5: return r.pick({0.0, 1.0, -1.0, 0.1, 1e-7, 123456.789}); default: return r.n() * 10; } }
static int ival(Rng &r) { return r.p(0.7) ? r.i(0, 300) : r.p(0.5) ? r.i(-5000, 5000) : r.pick({0, 1, -1, INT_MAX, INT_MIN, 65536}); }
static std::string sd(Rng &r, double v) { char b[400]; switch (r.i(0, 3)) { case 0: snprintf(b, sizeof b, "%.17g", v); break; case 1: snprintf(b, sizeof b, "%.16e", v); break; case 2: snprintf(b, sizeof b, "%24.17E", v); break; default: snprintf(b, sizeof b, "%.17g", v); } return b; }
static std::string si(Rng &r, int v) { return r.p(0.8) ? sfmt("%d", v) : sfmt("%8d", v); }
static std::string eol(Rng &r) { return r.p(0.6) ? "\n" : r.pick({" \n", "\t\n", "\n\n", "  \n \n"}); }
static std::string name(Rng &r, int maxlen) { int n = r.p(0.7) ? r.i(1, 30) : r.p(0.5) ? r.i(1, maxlen) : maxlen; std::string s; const char *cs = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./%#+,"; for (int i = 0; i < n; i++) s += cs[r.i(0, (int)strlen(cs) - 1)]; return s; }
static void rand_calib(Rng &r, Calibration &k) { memset((void *)&k, 0, sizeof k); double *p = &k.ext_par.x0; (void)p; k.ext_par.x0 = val(r); k.ext_par.y0 = val(r); k.ext_par.z0 = val(r); k.ext_par.omega = r.u(-7, 7); k.ext_par.phi = r.u(-7, 7); k.ext_par.kappa = r.u(-7, 7); set_ref_dm(k.ext_par);
    k.int_par.xh = val(r); k.int_par.yh = val(r); k.int_par.cc = val(r); k.glass_par.vec_x = val(r); k.glass_par.vec_y = val(r); k.glass_par.vec_z = val(r); double *a = &k.added_par.k1; (void)a; k.added_par.k1 = val(r); k.added_par.k2 = val(r); k.added_par.k3 = val(r); k.added_par.p1 = val(r); k.added_par.p2 = val(r); k.added_par.scx = val(r); k.added_par.she = val(r); }
static std::vector<double> flat(const Calibration &k) { return {k.ext_par.x0, k.ext_par.y0, k.ext_par.z0, k.ext_par.omega, k.ext_par.phi, k.ext_par.kappa, k.int_par.xh, k.int_par.yh, k.int_par.cc, k.glass_par.vec_x, k.glass_par.vec_y, k.glass_par.vec_z, k.added_par.k1, k.added_par.k2, k.added_par.k3, k.added_par.p1, k.added_par.p2, k.added_par.scx, k.added_par.she}; }
static const double FTOL[19] = {5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-5, 5.1e-5, 5.1e-5, 5.1e-16, 5.1e-16, 5.1e-16, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9, 5.1e-9};
static const char *FN[19] = {"x0", "y0", "z0", "omega", "phi", "kappa", "xh", "yh", "cc", "glass x", "glass y", "glass z", "k1", "k2", "k3", "p1", "p2", "scx", "she"};
static std::string ori_text(Rng &r, const Calibration &k) { auto t = [&](double v) { return sd(r, v) + r.pick({" ", "  ", "\t"}); }; auto &e = k.ext_par; std::string s = t(e.x0) + t(e.y0) + t(e.z0) + eol(r) + t(e.omega) + t(e.phi) + t(e.kappa) + eol(r); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) s += t(e.dm[i][j]); s += eol(r); } s += t(k.int_par.xh) + t(k.int_par.yh) + eol(r) + t(k.int_par.cc) + eol(r) + t(k.glass_par.vec_x) + t(k.glass_par.vec_y) + t(k.glass_par.vec_z) + (r.p(0.8) ? "\n" : ""); return s; }
static std::string add_text(Rng &r, const ap_52 &a) { std::string s; double v[7] = {a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she}; for (double x : v) s += sd(r, x) + (r.p(0.8) ? " " : "\n"); return s; }
static double other(Rng &r, double v) { double d = r.pick({1.0, -0.5, 1e-3, 1e-6}) ; double w = v + d; if (r.p(0.3)) w = nextafter(v, r.p(0.5) ? 1e300 : -1e300); if (r.p(0.1)) w = -v; return w == v ? v + 1 + fabs(v) : w; }
static int otheri(Rng &r, int v) { int w = (int)((unsigned)v + (unsigned)r.pick({1, -1, 256, 65536, 7})); return w; }

/* one compare function over a list of its compared fields */
template <class T> static void compare_check(Case &c, const char *nm, const T &a, std::vector<double T::*> df, std::vector<int T::*> inf, int (*cmp)(T *, T *)) {
    Rng &r = c.r; T x = a, y = a; if (!cmp(&x, &y)) c.fail("compare-equal", "%s: equal contents reported different", nm);
    if (!cmp(&x, &x)) c.fail("compare-equal", "%s: not equal to itself", nm);
    for (size_t i = 0; i < df.size(); i++) { T y = a; y.*df[i] = other(r, a.*df[i]); bool u = cmp(&x, &y), v = cmp(&y, &x); if (u || v) c.fail("compare-differ", "%s: a difference in real value %zu is not seen (%d, %d)", nm, i, u, v); c.eval(); }
    for (size_t i = 0; i < inf.size(); i++) { T y = a; y.*inf[i] = otheri(r, a.*inf[i]); bool u = cmp(&x, &y), v = cmp(&y, &x); if (u || v) c.fail("compare-differ", "%s: a difference in integer %zu is not seen (%d, %d)", nm, i, u, v); c.eval(); }
    if (memcmp((void *)&x, (void *)&a, sizeof x)) c.fail("compare-input", "%s changes what it compares", nm);
}
static void one(Case &c, const char *nm, size_t i, int u, int v) { c.eval(); if (u || v) c.fail("compare-differ", "%s: a difference in value %zu is not seen (%d, %d)", nm, i, u, v); }

static void op_calib(Case &c) {
    Rng &r = c.r; Calibration k, k0; rand_calib(r, k); k0 = k; std::string o = D + "/cam.ori", a = D + "/cam.addpar", fb = D + "/fallback"; Hash h; for (double v : flat(k)) h.d(v); c.distinct(h.h);
    bool add = r.p(0.8); int ok = r.p(0.5) ? write_calibration(&k, CStr(o), add ? CStr(a) : NULL) : write_ori(k.ext_par, k.int_par, k.glass_par, k.added_par, CStr(o), add ? CStr(a) : NULL);
    if (!ok) { c.fail("calib-write", "writing a calibration failed"); return; }
    if (memcmp((void *)&k, (void *)&k0, sizeof k)) c.fail("calib-input", "writing changed the calibration");
    std::string tx; if (!slurp_file(o, tx) || split_ws(tx).size() != 21) { c.fail("calib-format", "the orientation file holds %zu numbers", split_ws(tx).size()); return; }
    if (list_dir(D).size() != (add ? 2u : 1u)) c.fail("calib-files", "%zu files written", list_dir(D).size());
    Calibration kf; rand_calib(r, kf); bool havefb = r.p(0.5); if (havefb) spit_file(fb, add_text(r, kf.added_par));
    /* what the distortion should be on reading */
    int how = r.i(0, 2); std::string af = how == 0 ? a : D + "/missing"; bool passnull = how == 2; ap_52 want; double tol = 5.1e-9;
    if (how == 0 && add) want = k.added_par; else if (havefb) { want = kf.added_par; tol = 0; } else { memset(&want, 0, sizeof want); want.scx = 1; tol = 0; }
    c.count(how == 0 && add ? "distortion from its file" : havefb ? "distortion from the fallback" : "default distortion");
    auto s0 = snap_dir(D); char *fbp = havefb || r.p(0.5) ? strdup(fb.c_str()) : NULL;
    Calibration *q = read_calibration(CStr(o), passnull ? NULL : CStr(af), fbp); c.eval();
    Exterior e; Interior in; Glass g; ap_52 ap; memset(&e, 0, sizeof e); int ro = read_ori(&e, &in, &g, CStr(o), &ap, passnull ? NULL : CStr(af), fbp); free(fbp);
    if (snap_dir(D) != s0) c.fail("read-writes", "reading a calibration changed files");
    if (!q || !ro) { c.fail("calib-read", "reading a written calibration failed"); free(q); return; }
    Calibration w = k; w.added_par = want; auto A = flat(*q), B = flat(w); Calibration z; memset((void *)&z, 0, sizeof z); z.ext_par = e; z.int_par = in; z.glass_par = g; z.added_par = ap; auto C = flat(z);
    for (int i = 0; i < 19; i++) { double t = i >= 12 ? tol : FTOL[i]; if (!near(A[i], B[i], t)) { c.fail("calib-round-trip", "%s: %.17g read back as %.17g", FN[i], B[i], A[i]); break; } if (!near(C[i], B[i], t)) { c.fail("calib-round-trip", "%s: %.17g read back as %.17g by read_ori", FN[i], B[i], C[i]); break; } }
    for (int i = 0; i < 9; i++) if (!near(e.dm[i / 3][i % 3], k.ext_par.dm[i / 3][i % 3], 5.1e-8)) c.fail("calib-matrix", "matrix element %d written %.10g read %.10g", i, k.ext_par.dm[i / 3][i % 3], e.dm[i / 3][i % 3]);
    if (!(rot_err(q->ext_par) < 1e-12)) c.fail("calib-rotation", "the matrix of a calibration read does not match its angles: %g", rot_err(q->ext_par));
    if (q->mmlut.data) c.fail("calib-lut", "a calibration just read has a distance table");
    free(q); c.count("calibrations");
    /* a file in another layout, exact */
    spit_file(o, ori_text(r, k)); spit_file(a, add_text(r, k.added_par)); q = read_calibration(CStr(o), CStr(a), NULL); if (!q) c.fail("calib-read", "a well-formed calibration is rejected"); else { A = flat(*q); B = flat(k); for (int i = 0; i < 19; i++) if (A[i] != B[i]) { c.fail("calib-layout", "%s: %.17g instead of %.17g", FN[i], A[i], B[i]); break; } free(q); }
}
static void op_calib_compare(Case &c) {
    Rng &r = c.r; Calibration k; rand_calib(r, k); Hash h; h.i(1); for (double v : flat(k)) h.d(v); c.distinct(h.h);
    compare_check<Exterior>(c, "exterior", k.ext_par, {&Exterior::x0, &Exterior::y0, &Exterior::z0, &Exterior::omega, &Exterior::phi, &Exterior::kappa}, {}, compare_exterior);
    for (int i = 0; i < 9; i++) { Exterior e = k.ext_par; e.dm[i / 3][i % 3] = other(r, e.dm[i / 3][i % 3]); one(c, "exterior matrix", i, compare_exterior(&e, &k.ext_par), compare_exterior(&k.ext_par, &e)); }
    compare_check<Interior>(c, "interior", k.int_par, {&Interior::xh, &Interior::yh, &Interior::cc}, {}, compare_interior);
    compare_check<Glass>(c, "glass", k.glass_par, {&Glass::vec_x, &Glass::vec_y, &Glass::vec_z}, {}, compare_glass);
    compare_check<ap_52>(c, "distortion", k.added_par, {&ap_52::k1, &ap_52::k2, &ap_52::k3, &ap_52::p1, &ap_52::p2, &ap_52::scx, &ap_52::she}, {}, compare_addpar);
    Calibration z = k; if (!compare_calib(&k, &z) || !compare_calib(&k, &k)) c.fail("compare-equal", "equal calibrations reported different");
    double *f[19] = {&z.ext_par.x0, &z.ext_par.y0, &z.ext_par.z0, &z.ext_par.omega, &z.ext_par.phi, &z.ext_par.kappa, &z.int_par.xh, &z.int_par.yh, &z.int_par.cc, &z.glass_par.vec_x, &z.glass_par.vec_y, &z.glass_par.vec_z, &z.added_par.k1, &z.added_par.k2, &z.added_par.k3, &z.added_par.p1, &z.added_par.p2, &z.added_par.scx, &z.added_par.she};
    for (int i = 0; i < 19; i++) { double o = *f[i]; *f[i] = other(r, o); one(c, "calibration", i, compare_calib(&k, &z), compare_calib(&z, &k)); *f[i] = o; } c.count("calibrations compared");
}
template <class T> static bool same(Case &c, const char *nm, const T &a, const T &b, const char *fld) { c.eval(); if (a == b) return true; c.fail(nm, "%s: value of field '%s' is not the one in the file", nm, fld); return false; }
static void op_control(Case &c) {
    Rng &r = c.r; int nc = r.p(0.9) ? r.i(1, 4) : r.i(0, 12); control_par *p = new_control_par(nc); std::string t = si(r, nc) + eol(r); std::vector<std::string> n1, n2; Hash h; h.i(2);
    if (p->num_cams != nc) c.fail("new-control", "%d cameras instead of %d", p->num_cams, nc);
    for (int k = 0; k < nc; k++) { n1.push_back(name(r, 239)); n2.push_back(name(r, 239)); t += n1[k] + eol(r) + n2[k] + eol(r); strcpy(p->img_base_name[k], n1[k].c_str()); strcpy(p->cal_img_base_name[k], n2[k].c_str()); h.s(n1[k]); h.s(n2[k]); }
    int *iv[5] = {&p->hp_flag, &p->allCam_flag, &p->tiff_flag, &p->imx, &p->imy}; for (auto q : iv) { *q = ival(r); t += si(r, *q) + eol(r); h.i(*q); }
    p->pix_x = val(r); p->pix_y = val(r); t += sd(r, p->pix_x) + eol(r) + sd(r, p->pix_y) + eol(r); p->chfield = ival(r); t += si(r, p->chfield) + eol(r);
    p->mm->n1 = val(r); p->mm->n2[0] = val(r); p->mm->n3 = val(r); p->mm->d[0] = val(r); p->mm->nlay = 1; t += sd(r, p->mm->n1) + eol(r) + sd(r, p->mm->n2[0]) + eol(r) + sd(r, p->mm->n3) + eol(r) + sd(r, p->mm->d[0]) + r.pick({"\n", "\n", "", "\ntrailing text\n"});
    h.d(p->pix_x); h.d(p->mm->d[0]); c.distinct(h.h); spit_file(D + "/ptv.par", t); control_par *q = read_control_par(CStr(D + "/ptv.par"));
    if (!q) { c.fail("control", "a well-formed file with %d cameras is rejected", nc); free_control_par(p); return; }
    const char *N = "control"; same(c, N, q->num_cams, nc, "cameras"); for (int k = 0; k < nc && q->num_cams == nc; k++) { same(c, N, std::string(q->img_base_name[k]), n1[k], "image name"); same(c, N, std::string(q->cal_img_base_name[k]), n2[k], "calibration image name"); }
    same(c, N, q->hp_flag, p->hp_flag, "hp_flag"); same(c, N, q->allCam_flag, p->allCam_flag, "allCam_flag"); same(c, N, q->tiff_flag, p->tiff_flag, "tiff_flag"); same(c, N, q->imx, p->imx, "imx"); same(c, N, q->imy, p->imy, "imy"); same(c, N, q->pix_x, p->pix_x, "pix_x"); same(c, N, q->pix_y, p->pix_y, "pix_y"); same(c, N, q->chfield, p->chfield, "chfield"); same(c, N, q->mm->n1, p->mm->n1, "n1"); same(c, N, q->mm->n2[0], p->mm->n2[0], "n2"); same(c, N, q->mm->n3, p->mm->n3, "n3"); same(c, N, q->mm->d[0], p->mm->d[0], "d"); same(c, N, q->mm->nlay, 1, "nlay");
    if (!compare_control_par(p, q) || !compare_control_par(q, p) || !compare_control_par(p, p)) c.fail("compare-equal", "control: what was read is not equal to what was written");
    /* single differences */
    int *qi[6] = {&q->hp_flag, &q->allCam_flag, &q->tiff_flag, &q->imx, &q->imy, &q->chfield}; for (int i = 0; i < 6; i++) { int o = *qi[i]; *qi[i] = otheri(r, o); one(c, "control integers", i, compare_control_par(p, q), compare_control_par(q, p)); *qi[i] = o; }
    double *qd[6] = {&q->pix_x, &q->pix_y, &q->mm->n1, &q->mm->n2[0], &q->mm->n3, &q->mm->d[0]}; for (int i = 0; i < 6; i++) { double o = *qd[i]; *qd[i] = other(r, o); one(c, "control reals", i, compare_control_par(p, q), compare_control_par(q, p)); if (i >= 2) one(c, "media", i, compare_mm_np(p->mm, q->mm), compare_mm_np(q->mm, p->mm)); *qd[i] = o; }
    { q->mm->nlay = 2; one(c, "media", 0, compare_mm_np(p->mm, q->mm), compare_mm_np(q->mm, p->mm)); one(c, "control layers", 0, compare_control_par(p, q), compare_control_par(q, p)); q->mm->nlay = 1; }
    for (int k = 0; k < nc; k++) for (char **b : {q->img_base_name, q->cal_img_base_name}) { std::string o = b[k]; int w = r.i(0, 2), at = r.i(0, (int)o.size() - 1); std::string z = o; if (w == 0) z[at] = z[at] == 'q' ? 'w' : 'q'; else if (w == 1 && o.size() < 239) z += "x"; else if (o.size() > 1) z.pop_back(); else z = o == "y" ? "z" : "y"; strcpy(b[k], z.c_str()); one(c, "control names", k, compare_control_par(p, q), compare_control_par(q, p)); strcpy(b[k], o.c_str()); }
    { control_par *m = new_control_par(nc + 1); one(c, "control cameras", 0, compare_control_par(p, m), compare_control_par(m, p)); free_control_par(m); }
    if (!compare_control_par(p, q)) c.fail("compare-input", "comparing changed the parameters"); free_control_par(p); free_control_par(q); c.count("control files");
}
static void op_sequence(Case &c) {
    Rng &r = c.r; int nc = r.p(0.9) ? r.i(1, 4) : r.i(0, 12); sequence_par *p = new_sequence_par(nc); std::string t; Hash h; h.i(3); std::vector<std::string> n;
    for (int k = 0; k < nc; k++) { n.push_back(name(r, 239)); t += n[k] + eol(r); strcpy(p->img_base_name[k], n[k].c_str()); h.s(n[k]); } p->first = ival(r); p->last = ival(r); h.i(p->first); h.i(p->last); t += si(r, p->first) + eol(r) + si(r, p->last) + (r.p(0.8) ? "\n" : ""); c.distinct(h.h);
    spit_file(D + "/sequence.par", t); sequence_par *q = read_sequence_par(CStr(D + "/sequence.par"), nc); if (!q) { c.fail("sequence", "a well-formed file is rejected"); free_sequence_par(p); return; }
    same(c, "sequence", q->num_cams, nc, "cameras"); for (int k = 0; k < nc && k < q->num_cams; k++) same(c, "sequence", std::string(q->img_base_name[k]), n[k], "image name"); same(c, "sequence", q->first, p->first, "first"); same(c, "sequence", q->last, p->last, "last");
    if (!compare_sequence_par(p, q) || !compare_sequence_par(q, p)) c.fail("compare-equal", "sequence: what was read is not equal to what was written");
    for (int i = 0; i < 2; i++) { int *f = i ? &q->last : &q->first, o = *f; *f = otheri(r, o); one(c, "sequence", i, compare_sequence_par(p, q), compare_sequence_par(q, p)); *f = o; }
    for (int k = 0; k < nc; k++) { int at = r.i(0, (int)n[k].size() - 1); char o = q->img_base_name[k][at]; q->img_base_name[k][at] = o == 'q' ? 'w' : 'q'; one(c, "sequence names", k, compare_sequence_par(p, q), compare_sequence_par(q, p)); q->img_base_name[k][at] = o; }
    { sequence_par *m = new_sequence_par(nc + 1); m->first = p->first; m->last = p->last; for (int k = 0; k < nc; k++) strcpy(m->img_base_name[k], n[k].c_str()); one(c, "sequence cameras", 0, compare_sequence_par(p, m), compare_sequence_par(m, p)); free_sequence_par(m); }
    free_sequence_par(p); free_sequence_par(q); c.count("sequence files");
}
static void op_flatpars(Case &c) {
    Rng &r = c.r; Hash h; h.i(4);
    { track_par a; memset(&a, 0, sizeof a); std::vector<double track_par::*> df = {&track_par::dvxmin, &track_par::dvxmax, &track_par::dvymin, &track_par::dvymax, &track_par::dvzmin, &track_par::dvzmax, &track_par::dangle, &track_par::dacc}; std::string t; for (auto f : df) { a.*f = val(r); t += sd(r, a.*f) + eol(r); h.d(a.*f); } a.add = ival(r); t += si(r, a.add) + r.pick({"\n", "\n", "", "\n1\n20\n0\n"});
      spit_file(D + "/track.par", t); track_par *q = read_track_par(CStr(D + "/track.par")); if (!q) c.fail("track", "a well-formed file is rejected"); else { for (size_t i = 0; i < df.size(); i++) same(c, "track", q->*df[i], a.*df[i], sfmt("real %zu", i).c_str()); same(c, "track", q->add, a.add, "add"); if (q->dsumg || q->dn || q->dnx || q->dny) c.fail("track", "values that are not in the file are set"); free(q); }
      compare_check<track_par>(c, "tracking parameters", a, df, {&track_par::dsumg, &track_par::dn, &track_par::dnx, &track_par::dny, &track_par::add}, compare_track_par); }
    { volume_par a; memset(&a, 0, sizeof a); double *f[12] = {&a.X_lay[0], &a.Zmin_lay[0], &a.Zmax_lay[0], &a.X_lay[1], &a.Zmin_lay[1], &a.Zmax_lay[1], &a.cnx, &a.cny, &a.cn, &a.csumg, &a.corrmin, &a.eps0}; std::string t; for (auto q : f) { *q = val(r); t += sd(r, *q) + eol(r); h.d(*q); }
      spit_file(D + "/criteria.par", t); volume_par *q = read_volume_par(CStr(D + "/criteria.par")); if (!q) c.fail("volume", "a well-formed file is rejected"); else { double *g[12] = {&q->X_lay[0], &q->Zmin_lay[0], &q->Zmax_lay[0], &q->X_lay[1], &q->Zmin_lay[1], &q->Zmax_lay[1], &q->cnx, &q->cny, &q->cn, &q->csumg, &q->corrmin, &q->eps0}; for (int i = 0; i < 12; i++) same(c, "volume", *g[i], *f[i], sfmt("value %d", i + 1).c_str());
        if (!compare_volume_par(&a, q) || !compare_volume_par(q, &a)) c.fail("compare-equal", "volume: what was read is not equal to what was written"); for (int i = 0; i < 12; i++) { double o = *g[i]; *g[i] = other(r, o); one(c, "volume", i, compare_volume_par(&a, q), compare_volume_par(q, &a)); *g[i] = o; } free(q); } }
    { target_par a; memset(&a, 0, sizeof a); int *f[13] = {&a.gvthres[0], &a.gvthres[1], &a.gvthres[2], &a.gvthres[3], &a.discont, &a.nnmin, &a.nnmax, &a.nxmin, &a.nxmax, &a.nymin, &a.nymax, &a.sumg_min, &a.cr_sz}; std::string t; for (auto q : f) { *q = ival(r); t += si(r, *q) + (r.p(0.9) ? "\n" : "  "); h.i(*q); } target_par a0 = a;
      for (int w = 0; w < 2; w++) { std::string fn = D + (w ? "/targ_rec.par" : "/written.par"); if (w) spit_file(fn, t); else write_target_par(&a, CStr(fn)); target_par *q = read_target_par(CStr(fn)); if (!q) { c.fail("target-par", "a %s file is rejected", w ? "well-formed" : "written"); continue; }
        int *g[13] = {&q->gvthres[0], &q->gvthres[1], &q->gvthres[2], &q->gvthres[3], &q->discont, &q->nnmin, &q->nnmax, &q->nxmin, &q->nxmax, &q->nymin, &q->nymax, &q->sumg_min, &q->cr_sz}; for (int i = 0; i < 13; i++) same(c, w ? "target-par" : "target-par-round-trip", *g[i], *f[i], sfmt("value %d", i + 1).c_str());
        if (!compare_target_par(&a, q) || !compare_target_par(q, &a)) c.fail("compare-equal", "target parameters: what was read is not equal to what was written"); for (int i = 0; i < 13; i++) { int o = *g[i]; *g[i] = otheri(r, o); one(c, "target parameters", i, compare_target_par(&a, q), compare_target_par(q, &a)); *g[i] = o; } free(q); }
      if (memcmp(&a, &a0, sizeof a)) c.fail("compare-input", "writing or comparing changed the target parameters"); }
    { orient_par a; unsigned *f[12] = {&a.useflag, &a.ccflag, &a.xhflag, &a.yhflag, &a.k1flag, &a.k2flag, &a.k3flag, &a.p1flag, &a.p2flag, &a.scxflag, &a.sheflag, &a.interfflag}; std::string t; for (auto q : f) { *q = r.p(0.8) ? r.i(0, 1) : r.i(0, 30); t += si(r, (int)*q) + eol(r); h.i(*q); } spit_file(D + "/orient.par", t); orient_par *q = read_orient_par(CStr(D + "/orient.par")); if (!q) c.fail("orient", "a well-formed file is rejected"); else { unsigned *g[12] = {&q->useflag, &q->ccflag, &q->xhflag, &q->yhflag, &q->k1flag, &q->k2flag, &q->k3flag, &q->p1flag, &q->p2flag, &q->scxflag, &q->sheflag, &q->interfflag}; for (int i = 0; i < 12; i++) same(c, "orient", *g[i], *f[i], sfmt("flag %d", i + 1).c_str()); free(q); } }
    { int e = r.i(1, 5000); spit_file(D + "/sortgrid.par", si(r, e) + eol(r)); int g = read_sortgrid_par(CStr(D + "/sortgrid.par")); same(c, "sortgrid", g, e, "radius"); h.i(e); }
    c.distinct(h.h); c.count("parameter files", 5);
}
static void op_block(Case &c) {
    Rng &r = c.r; int n = r.p(0.02) ? r.i(500, 4000) : r.i(1, 60); std::vector<double> v; std::string t; Hash h; h.i(5); int id0 = r.pick({1, 1, 0, 100}); for (int i = 0; i < n; i++) { t += si(r, id0 + i) + "  "; for (int j = 0; j < 3; j++) { v.push_back(val(r)); t += sd(r, v.back()) + (r.p(0.9) ? " " : "\t"); h.d(v.back()); } t += eol(r); } if (r.p(0.2)) while (isspace((unsigned char)t.back())) t.pop_back();
    spit_file(D + "/calblock.txt", t); int got = -7; vec3d *b = read_calblock(&got, CStr(D + "/calblock.txt")); c.eval(); c.distinct(h.h); c.count("calibration blocks");
    if (!b || got != n) { c.fail("calblock", "%d of %d points read", b ? got : -1, n); free(b); return; }
    if (memcmp(b, v.data(), v.size() * 8)) for (int i = 0; i < 3 * n; i++) if (((double *)b)[i] != v[i]) { c.fail("calblock", "point %d: coordinate %d is %.17g instead of %.17g", i / 3, i % 3, ((double *)b)[i], v[i]); break; } free(b);
    if (n < 4) return; /* manual orientation points: per camera the numbers of four of them */
    int nc = r.i(1, 4); std::vector<std::array<int, 4>> m(nc); std::string o; for (auto &q : m) { for (int j = 0; j < 4; j++) { bool dup; do { q[j] = r.p(0.15) ? r.pick({1, n}) : r.i(1, n); dup = false; for (int l = 0; l < j; l++) if (q[l] == q[j]) dup = true; } while (dup); o += si(r, q[j]) + eol(r); } }
    spit_file(D + "/man_ori.par", o); int cam = r.i(0, nc - 1); vec3d *f4 = (vec3d *)malloc(4 * sizeof(vec3d)); for (int i = 0; i < 12; i++) ((double *)f4)[i] = -12345; int k = read_man_ori_fix(f4, CStr(D + "/calblock.txt"), CStr(D + "/man_ori.par"), cam); c.count("manual orientation files");
    if (k != 4) c.fail("man-ori", "camera %d of %d: %d of 4 points found among %d", cam, nc, k, n); else for (int j = 0; j < 4; j++) if (memcmp(f4[j], &v[3 * (m[cam][j] - 1)], 24)) { c.fail("man-ori", "camera %d: point %d is not number %d of the block", cam, j, m[cam][j]); break; } free(f4);
}
static void op_tracking_compare(Case &c) {
    Rng &r = c.r; Hash h; h.i(6);
    target t; memset(&t, 0, sizeof t); t.pnr = ival(r); t.x = val(r); t.y = val(r); t.n = ival(r); t.nx = ival(r); t.ny = ival(r); t.sumg = ival(r); t.tnr = ival(r); h.d(t.x); h.d(t.y);
    compare_check<target>(c, "detections", t, {&target::x, &target::y}, {&target::pnr, &target::n, &target::nx, &target::ny, &target::sumg, &target::tnr}, compare_targets);
    corres k, k2; k.nr = ival(r); for (int &v : k.p) v = ival(r); k2 = k; if (!compare_corres(&k, &k2)) c.fail("compare-equal", "equal correspondences reported different"); int *f[5] = {&k2.nr, &k2.p[0], &k2.p[1], &k2.p[2], &k2.p[3]}; for (int i = 0; i < 5; i++) { int o = *f[i]; *f[i] = otheri(r, o); one(c, "correspondences", i, compare_corres(&k, &k2), compare_corres(&k2, &k)); *f[i] = o; }
    static P p, q; memset((void *)&p, 0, sizeof p); for (double &v : p.x) v = val(r); p.prev = ival(r); p.next = ival(r); p.prio = ival(r); p.finaldecis = (float)val(r); p.inlist = r.i(0, 80); for (int i = 0; i < POSI; i++) { p.decis[i] = (float)val(r); p.linkdecis[i] = ival(r); } q = p; h.d(p.x[0]); c.distinct(h.h);
    if (!compare_path_info(&p, &q) || !compare_path_info(&p, &p)) c.fail("compare-equal", "equal particles reported different");
    for (int i = 0; i < 3; i++) { q.x[i] = other(r, p.x[i]); one(c, "particle coordinates", i, compare_path_info(&p, &q), compare_path_info(&q, &p)); q.x[i] = p.x[i]; }
    int *g[4] = {&q.prev, &q.next, &q.prio, &q.inlist}; for (int i = 0; i < 4; i++) { int o = *g[i]; *g[i] = otheri(r, o); one(c, "particle links", i, compare_path_info(&p, &q), compare_path_info(&q, &p)); *g[i] = o; }
    { float o = q.finaldecis; q.finaldecis = o + 1 + fabsf(o); one(c, "particle decision", 0, compare_path_info(&p, &q), compare_path_info(&q, &p)); q.finaldecis = o; }
    int i = r.p(0.5) ? r.pick({0, POSI - 1}) : r.i(0, POSI - 1); { float o = q.decis[i]; q.decis[i] = o + 1 + fabsf(o); one(c, "candidate decisions", i, compare_path_info(&p, &q), compare_path_info(&q, &p)); q.decis[i] = o; } { int o = q.linkdecis[i]; q.linkdecis[i] = otheri(r, o); one(c, "candidate links", i, compare_path_info(&p, &q), compare_path_info(&q, &p)); q.linkdecis[i] = o; }
    if (memcmp((void *)&p, (void *)&q, sizeof p)) c.fail("compare-input", "comparing changed the particles"); c.count("frame items compared");
}
void run_case(Case &c) {
    Rng &r = c.r; D = G_scratch + "/par"; mkdir(D.c_str(), 0700); clear_dir(D); int op = r.i(0, 6);
    switch (op) { case 0: op_calib(c); break; case 1: op_calib_compare(c); break; case 2: op_control(c); break; case 3: op_sequence(c); break; case 4: op_flatpars(c); break; case 5: op_block(c); break; default: op_tracking_compare(c); }
    if (c.idx < 4) c.sample("kind %d (calibration, its comparison, control, sequence, single-value files, points, frame items)", op); clear_dir(D);
}
