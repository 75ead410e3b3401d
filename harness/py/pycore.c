/* The core as the Python monitors see it: plain arrays in, plain arrays out.
   Compiled against the headers and sources of the tree under test, apart from the
   bindings, so that the results of the bindings can be compared with it.
   cal: x0 y0 z0 omega phi kappa | xh yh cc | glass x y z | k1 k2 k3 p1 p2 scx she
   mm:  nlay n1 n2[3] d[3] n3
   cp:  num_cams imx imy pix_x pix_y chfield hp allcam tiff
   vp:  X0 X1 Zmin0 Zmin1 Zmax0 Zmax1 cn cnx cny csumg eps0 corrmin
   tg:  pnr x y n nx ny sumg tnr (8 doubles per target) */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "calibration.h"
#include "parameters.h"
#include "trafo.h"
#include "imgcoord.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "epi.h"
#include "correspondences.h"
#include "orientation.h"
#include "sortgrid.h"
#include "segmentation.h"
#include "image_processing.h"
#include "tracking_frame_buf.h"
#include "tracking_run.h"
#include "track.h"

static void mkcal(Calibration *c, const double *a) {
    memset(c, 0, sizeof *c);
    c->ext_par.x0 = a[0]; c->ext_par.y0 = a[1]; c->ext_par.z0 = a[2];
    c->ext_par.omega = a[3]; c->ext_par.phi = a[4]; c->ext_par.kappa = a[5];
    c->int_par.xh = a[6]; c->int_par.yh = a[7]; c->int_par.cc = a[8];
    c->glass_par.vec_x = a[9]; c->glass_par.vec_y = a[10]; c->glass_par.vec_z = a[11];
    c->added_par.k1 = a[12]; c->added_par.k2 = a[13]; c->added_par.k3 = a[14];
    c->added_par.p1 = a[15]; c->added_par.p2 = a[16];
    c->added_par.scx = a[17]; c->added_par.she = a[18];
    rotation_matrix(&c->ext_par);
}
static void getcal(const Calibration *c, double *a) {
    a[0] = c->ext_par.x0; a[1] = c->ext_par.y0; a[2] = c->ext_par.z0;
    a[3] = c->ext_par.omega; a[4] = c->ext_par.phi; a[5] = c->ext_par.kappa;
    a[6] = c->int_par.xh; a[7] = c->int_par.yh; a[8] = c->int_par.cc;
    a[9] = c->glass_par.vec_x; a[10] = c->glass_par.vec_y; a[11] = c->glass_par.vec_z;
    a[12] = c->added_par.k1; a[13] = c->added_par.k2; a[14] = c->added_par.k3;
    a[15] = c->added_par.p1; a[16] = c->added_par.p2;
    a[17] = c->added_par.scx; a[18] = c->added_par.she;
}
static void mkmm(mm_np *m, const double *a) {
    memset(m, 0, sizeof *m);
    m->nlay = (int)a[0]; m->n1 = a[1];
    for (int i = 0; i < 3; i++) { m->n2[i] = a[2 + i]; m->d[i] = a[5 + i]; }
    m->n3 = a[8];
}
static control_par *mkcp(const double *a, const double *mm) {
    control_par *c = new_control_par((int)a[0]);
    c->imx = (int)a[1]; c->imy = (int)a[2]; c->pix_x = a[3]; c->pix_y = a[4];
    c->chfield = (int)a[5]; c->hp_flag = (int)a[6]; c->allCam_flag = (int)a[7]; c->tiff_flag = (int)a[8];
    if (mm) mkmm(c->mm, mm);
    return c;
}
static void mkvp(volume_par *v, const double *a) {
    memset(v, 0, sizeof *v);
    v->X_lay[0] = a[0]; v->X_lay[1] = a[1]; v->Zmin_lay[0] = a[2]; v->Zmin_lay[1] = a[3];
    v->Zmax_lay[0] = a[4]; v->Zmax_lay[1] = a[5];
    v->cn = a[6]; v->cnx = a[7]; v->cny = a[8]; v->csumg = a[9]; v->eps0 = a[10]; v->corrmin = a[11];
}
static void mktg(target *t, const double *a) {
    t->pnr = (int)a[0]; t->x = a[1]; t->y = a[2]; t->n = (int)a[3]; t->nx = (int)a[4];
    t->ny = (int)a[5]; t->sumg = (int)a[6]; t->tnr = (int)a[7];
}
static void gettg(const target *t, double *a) {
    a[0] = t->pnr; a[1] = t->x; a[2] = t->y; a[3] = t->n; a[4] = t->nx; a[5] = t->ny; a[6] = t->sumg; a[7] = t->tnr;
}

void vc_rotation(const double *cal, double *out) {
    Calibration c; mkcal(&c, cal);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out[3*i + j] = c.ext_par.dm[i][j];
}
void vc_project(const double *cal, const double *mm, int n, const double *in, double *out, int flat) {
    Calibration c; mm_np m; mkcal(&c, cal); mkmm(&m, mm);
    for (int i = 0; i < n; i++) {
        vec3d p = {in[3*i], in[3*i+1], in[3*i+2]};
        if (flat) flat_image_coord(p, &c, &m, out + 2*i, out + 2*i + 1);
        else img_coord(p, &c, &m, out + 2*i, out + 2*i + 1);
    }
}
void vc_pixel(const double *cp, int n, const double *in, double *out, int to_pixel) {
    control_par *c = mkcp(cp, NULL);
    for (int i = 0; i < n; i++) {
        if (to_pixel) metric_to_pixel(out + 2*i, out + 2*i + 1, in[2*i], in[2*i+1], c);
        else pixel_to_metric(out + 2*i, out + 2*i + 1, in[2*i], in[2*i+1], c);
    }
    free_control_par(c);
}
void vc_brown(const double *cal, int n, const double *in, double *out, int distort) {
    Calibration c; mkcal(&c, cal);
    for (int i = 0; i < n; i++) {
        if (distort) distort_brown_affin(in[2*i], in[2*i+1], c.added_par, out + 2*i, out + 2*i + 1);
        else correct_brown_affin(in[2*i], in[2*i+1], c.added_par, out + 2*i, out + 2*i + 1);
    }
}
void vc_flat(const double *cal, int n, const double *in, double *out, double tol) {
    Calibration c; mkcal(&c, cal);
    for (int i = 0; i < n; i++) dist_to_flat(in[2*i], in[2*i+1], &c, out + 2*i, out + 2*i + 1, tol);
}
/* points at the given depths on the ray of a pixel, seen by the other camera, in pixels */
void vc_epicurve(double px, double py, const double *cal1, const double *cal2, int n, const double *zs,
    const double *cp, const double *mm, double *out)
{
    Calibration c1, c2; control_par *c = mkcp(cp, mm); vec3d v, d, p; double x, y;
    mkcal(&c1, cal1); mkcal(&c2, cal2);
    pixel_to_metric(&x, &y, px, py, c);
    dist_to_flat(x, y, &c1, &x, &y, 0.00001);
    ray_tracing(x, y, &c1, *c->mm, v, d);
    for (int i = 0; i < n; i++) {
        move_along_ray(zs[i], v, d, p);
        img_coord(p, &c2, c->mm, &x, &y);
        metric_to_pixel(out + 2*i, out + 2*i + 1, x, y, c);
    }
    free_control_par(c);
}
int vc_prepare(unsigned char *img, unsigned char *out, int dim, int hp, char *file, const double *cp) {
    control_par *c = mkcp(cp, NULL);
    int r = prepare_image(img, out, dim, hp, file, c);
    free_control_par(c);
    return r;
}
int vc_recognize(unsigned char *img, const int *tp, int xmin, int xmax, int ymin, int ymax, const double *cp, int cam,
    double *out, int maxout)
{
    target_par t; control_par *c = mkcp(cp, NULL);
    memset(&t, 0, sizeof t);
    for (int i = 0; i < 4; i++) t.gvthres[i] = tp[i];
    t.discont = tp[4]; t.nnmin = tp[5]; t.nnmax = tp[6]; t.nxmin = tp[7]; t.nxmax = tp[8];
    t.nymin = tp[9]; t.nymax = tp[10]; t.sumg_min = tp[11]; t.cr_sz = tp[12];
    target *pix = (target *)calloc((size_t)c->imx * c->imy + 1, sizeof(target));
    int n = targ_rec(img, &t, xmin, xmax, ymin, ymax, c, cam, pix);
    for (int i = 0; i < n && i < maxout; i++) gettg(pix + i, out + 8*i);
    free(pix); free_control_par(c);
    return n;
}
void vc_matched(int n, const double *tg, const double *cp, const double *cal, double tol, double *pos, int *pnr) {
    Calibration c; control_par *p = mkcp(cp, NULL); mkcal(&c, cal);
    coord_2d *b = (coord_2d *)calloc(n + 1, sizeof(coord_2d));
    for (int i = 0; i < n; i++) {
        pixel_to_metric(&b[i].x, &b[i].y, tg[8*i+1], tg[8*i+2], p);
        dist_to_flat(b[i].x, b[i].y, &c, &b[i].x, &b[i].y, tol);
        b[i].pnr = (int)tg[8*i];
    }
    quicksort_coord2d_x(b, n);
    for (int i = 0; i < n; i++) { pos[2*i] = b[i].x; pos[2*i+1] = b[i].y; pnr[i] = b[i].pnr; }
    free(b); free_control_par(p);
}
/* tg: concatenated targets of all cameras; pos/pnr: their matched coordinates; out: 4 ids per match, by coordinate */
int vc_correspond(int nc, const int *counts, double *tg, const double *pos, const int *pnr, const double *cals,
    const double *vp, const double *cp, const double *mm, int *match_counts, int *out, int maxout)
{
    frame f; volume_par v; control_par *c = mkcp(cp, mm); Calibration cal[4], *pc[4]; coord_2d *corr[4];
    int off = 0, most = 0, total = 0;
    mkvp(&v, vp);
    for (int k = 0; k < nc; k++) most = counts[k] > most ? counts[k] : most;
    frame_init(&f, nc, most + 1);
    for (int k = 0; k < nc; k++) {
        mkcal(cal + k, cals + 19*k); pc[k] = cal + k;
        corr[k] = (coord_2d *)calloc(counts[k] + 1, sizeof(coord_2d));
        for (int i = 0; i < counts[k]; i++) {
            mktg(f.targets[k] + i, tg + 8*(off + i));
            corr[k][i].x = pos[2*(off+i)]; corr[k][i].y = pos[2*(off+i)+1]; corr[k][i].pnr = pnr[off+i];
        }
        f.num_targets[k] = counts[k];
        off += counts[k];
    }
    n_tupel *r = correspondences(&f, corr, &v, c, pc, match_counts);
    total = match_counts[3];
    for (int i = 0; i < total && i < maxout; i++) for (int k = 0; k < 4; k++) out[4*i+k] = r[i].p[k];
    off = 0;
    for (int k = 0; k < nc; k++) {
        for (int i = 0; i < counts[k]; i++) gettg(f.targets[k] + i, tg + 8*(off + i));
        off += counts[k];
        free(corr[k]);
    }
    free(r); free_frame(&f); free_control_par(c);
    return total;
}
void vc_positions(int nc, int n, const double *tg, const double *cals, const double *mm, double *out, double *rcm) {
    Calibration cal[8], *pc[8]; mm_np m; mkmm(&m, mm);
    for (int k = 0; k < nc; k++) { mkcal(cal + k, cals + 19*k); pc[k] = cal + k; }
    for (int i = 0; i < n; i++) {
        vec2d t[8];
        for (int k = 0; k < nc; k++) { t[k][0] = tg[2*(nc*i + k)]; t[k][1] = tg[2*(nc*i + k) + 1]; }
        rcm[i] = point_position(t, nc, &m, pc, out + 3*i);
    }
}
void vc_positions_2d(int n, const double *tg, const double *cal, const double *mm, const double *vp, double *out) {
    Calibration c; mm_np m; volume_par v; mkcal(&c, cal); mkmm(&m, mm); mkvp(&v, vp);
    for (int i = 0; i < n; i++) epi_mm_2D(tg[2*i], tg[2*i+1], &c, &m, &v, out + 3*i);
}
int vc_raw_orient(double *cal, const double *cp, const double *mm, int n, double *ref, const double *pix) {
    Calibration c; control_par *p = mkcp(cp, mm); mkcal(&c, cal);
    target *t = (target *)calloc(n + 1, sizeof(target));
    for (int i = 0; i < n; i++) { t[i].x = pix[2*i]; t[i].y = pix[2*i+1]; }
    int r = raw_orient(&c, p, n, (vec3d *)ref, t);
    getcal(&c, cal); free(t); free_control_par(p);
    return r;
}
/* flags: cc xh yh k1 k2 k3 p1 p2 scale shear; resid: 2 doubles per used point; returns -1 or number of residuals */
int vc_orient(double *cal, const double *cp, const double *mm, int n, double *ref, const double *tg, const int *fl,
    double *resid, double *err)
{
    Calibration c; control_par *p = mkcp(cp, mm); orient_par o; int used = 0; double sig[NPAR + 1];
    mkcal(&c, cal); memset(&o, 0, sizeof o); memset(sig, 0, sizeof sig);
    o.ccflag = fl[0]; o.xhflag = fl[1]; o.yhflag = fl[2]; o.k1flag = fl[3]; o.k2flag = fl[4]; o.k3flag = fl[5];
    o.p1flag = fl[6]; o.p2flag = fl[7]; o.scxflag = fl[8]; o.sheflag = fl[9];
    target *t = (target *)calloc(n + 1, sizeof(target));
    for (int i = 0; i < n; i++) mktg(t + i, tg + 8*i);
    double *r = orient(&c, p, n, (vec3d *)ref, t, &o, sig);
    for (int i = 0; i < n; i++) if (t[i].pnr == i) used++;
    if (r) for (int i = 0; i < 2*used; i++) resid[i] = r[i];
    for (int i = 0; i <= NPAR; i++) err[i] = sig[i];
    getcal(&c, cal); free(t); free_control_par(p);
    if (!r) return -1;
    free(r);
    return used;
}
int vc_npar(void) { return NPAR; }
void vc_sortgrid(const double *cal, const double *cp, const double *mm, int nfix, double *ref, int n, const double *tg, int eps, double *out) {
    Calibration c; control_par *p = mkcp(cp, mm); mkcal(&c, cal);
    target *t = (target *)calloc(n + 1, sizeof(target));
    for (int i = 0; i < n; i++) mktg(t + i, tg + 8*i);
    target *s = sortgrid(&c, p, nfix, (vec3d *)ref, n, eps, t);
    for (int i = 0; i < nfix; i++) gettg(s + i, out + 8*i);
    free(s); free(t); free_control_par(p);
}
double vc_dumbbell(int nc, int n, const double *tg, const double *cals, const double *mm, int len, double weight) {
    Calibration cal[8], *pc[8]; mm_np m; mkmm(&m, mm);
    for (int k = 0; k < nc; k++) { mkcal(cal + k, cals + 19*k); pc[k] = cal + k; }
    vec2d **t = (vec2d **)calloc(n + 1, sizeof(vec2d *));
    for (int i = 0; i < n; i++) {
        t[i] = (vec2d *)calloc(nc, sizeof(vec2d));
        for (int k = 0; k < nc; k++) { t[i][k][0] = tg[2*(nc*i + k)]; t[i][k][1] = tg[2*(nc*i + k) + 1]; }
    }
    double r = weighted_dumbbell_precision(t, n, nc, &m, pc, len, weight);
    for (int i = 0; i < n; i++) free(t[i]);
    free(t);
    return r;
}
/* tp: dacc dangle vx- vx+ vy- vy+ vz- vz+ add; mode: 1 forward, 2 backward, 3 both; tol: flattening tolerance;
   begun: steps of a run that is started over, if not negative; stop: the last frame tracked */
void vc_track(int nc, const double *cals, const double *cp, const double *mm, const double *vp, const double *tp,
    int first, int last, char **img_base, char *corres, char *linkage, char *prio, double tol, int mode, int begun, int stop)
{
    control_par *c = mkcp(cp, mm); volume_par *v = (volume_par *)calloc(1, sizeof *v);
    track_par *t = (track_par *)calloc(1, sizeof *t); sequence_par *s = new_sequence_par(nc);
    Calibration cal[4]; Calibration **pc = (Calibration **)calloc(4, sizeof *pc);
    mkvp(v, vp);
    t->dacc = tp[0]; t->dangle = tp[1]; t->dvxmin = tp[2]; t->dvxmax = tp[3]; t->dvymin = tp[4]; t->dvymax = tp[5];
    t->dvzmin = tp[6]; t->dvzmax = tp[7]; t->add = (int)tp[8];
    s->first = first; s->last = last;
    for (int k = 0; k < nc; k++) {
        mkcal(cal + k, cals + 19*k); pc[k] = cal + k;
        strncpy(s->img_base_name[k], img_base[k], SEQ_FNAME_MAX_LEN - 1);
    }
    tracking_run *tr = tr_new(s, t, v, c, 4, 20000, corres, linkage, prio, pc, tol);
    if (mode & 1) {
        if (begun >= 0) {
            track_forward_start(tr);
            for (int k = first; k < first + begun; k++) trackcorr_c_loop(tr, k);
        }
        track_forward_start(tr);
        for (int k = first; k < stop; k++) trackcorr_c_loop(tr, k);
        trackcorr_c_finish(tr, stop);
    }
    if (mode & 2) trackback_c(tr);
    fb_free(tr->fb); free(tr->fb); free(tr);
    for (int k = 0; k < nc; k++) free(cal[k].mmlut.data);
    free(pc); free_control_par(c); free(v); free(t); free_sequence_par(s);
}
