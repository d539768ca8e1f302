/* C24: parameter files. */
#include "vp.h"
#include "parameters.h"
#include "orientation.h"
#include "sortgrid.h"
#include "tracking_frame_buf.h"
#ifndef NP
#define NP 4
#endif
#define ANY(s) vp_int(s, -2147483647 - 1, 2147483647)
#define REAL(s) vp_double(s, -1e6, 1e6)
static char name[600];
static FILE *f;
/* what the file holds, word by word */
static int iv[40]; static double dv[40]; static char *sv[40]; static int kind[40], words, ints0;
static void wi(int v) { iv[words] = v; kind[words] = 0; fprintf(f, "%d\n", v); words++; }
static void wd(double v) { dv[words] = v; kind[words] = 1; fprintf(f, "%.17g\n", v); words++; }
static void ws(char *s) { sv[words] = s; kind[words] = 2; fprintf(f, "%s\n", s); words++; }
static void begin(const char *leaf) { vp_scratch_path(name, leaf); f = fopen(name, "w"); words = 0; }
/* leaves the file as it is (1) or damages it (0): missing, cut after any number of words, or one number spoilt */
static int damage(void)
{
    int k = vp_pick(vp_int("damage", 0, 3)), w;
    fclose(f);
    if (k == 0) { vp_reach("whole"); return 1; }
    if (k == 1) { vp_unlink(name); vp_reach("missing"); return 0; }
    if (k == 2) { vp_words_keep(name, vp_pick(vp_int("keep", 0, words - 1))); vp_reach("cut"); return 0; }
    w = vp_pick(vp_int("word", 0, words - 1));
    if (kind[w] == 2) return 1;
    vp_word_replace(name, w, "x7"); vp_reach("word"); return 0;
}
#define REJECT(p) do { vp_assert((p) == NULL, "a missing, cut or malformed file is rejected"); return; } while (0)
#define TAKE(p) vp_assert((p) != NULL, "a complete file is accepted")
void h_track(void)
{
    track_par *t; int i, whole;
    begin("track.par"); for (i = 0; i < 8; i++) wd(REAL("v")); wi(ANY("add"));
    whole = damage(); t = read_track_par(name);
    if (!whole) REJECT(t);
    TAKE(t);
    vp_assert((t->dvxmin == dv[0]) & (t->dvxmax == dv[1]) & (t->dvymin == dv[2]) & (t->dvymax == dv[3]) & (t->dvzmin == dv[4]) & (t->dvzmax == dv[5])
              & (t->dangle == dv[6]) & (t->dacc == dv[7]) & (t->add == iv[8]), "every value, in the documented order");
    vp_assert((t->dsumg == 0) & (t->dn == 0) & (t->dnx == 0) & (t->dny == 0), "values not in the file are zero");
    free(t);
}
void h_volume(void)
{
    volume_par *v; int i, whole;
    begin("criteria.par"); for (i = 0; i < 12; i++) wd(REAL("v"));
    whole = damage(); v = read_volume_par(name);
    if (!whole) REJECT(v);
    TAKE(v);
    vp_assert((v->X_lay[0] == dv[0]) & (v->Zmin_lay[0] == dv[1]) & (v->Zmax_lay[0] == dv[2]) & (v->X_lay[1] == dv[3]) & (v->Zmin_lay[1] == dv[4]) & (v->Zmax_lay[1] == dv[5])
              & (v->cnx == dv[6]) & (v->cny == dv[7]) & (v->cn == dv[8]) & (v->csumg == dv[9]) & (v->corrmin == dv[10]) & (v->eps0 == dv[11]), "every value, in the documented order");
    free(v);
}
static char *nm[8] = {"img/cam1.", "cal/cam1", "b", "/x/y.z", "cam-3_", "c3", "4", "5"};
void h_sequence(void)
{
    sequence_par *s; int c, n = vp_pick(vp_int("cams", 1, 4)), whole;
    begin("sequence.par"); for (c = 0; c < n; c++) ws(nm[c]); wi(ANY("first")); wi(ANY("last"));
    whole = damage(); s = read_sequence_par(name, n);
    if (!whole) REJECT(s);
    TAKE(s);
    vp_assert(s->num_cams == n, "the number of cameras"); 
    for (c = 0; c < n; c++) vp_assert(strcmp(s->img_base_name[c], nm[c]) == 0, "each name");
    vp_assert((s->first == iv[n]) & (s->last == iv[n + 1]), "first and last frame");
    free_sequence_par(s);
}
void h_control(void)
{
    control_par *p; int c, n = vp_pick(vp_int("cams", 1, 4)), whole, b = 1 + 2 * n;
    begin("ptv.par"); wi(n); for (c = 0; c < 2 * n; c++) ws(nm[c]);
    for (c = 0; c < 5; c++) wi(ANY("i")); wd(REAL("pix")); wd(REAL("pix")); wi(ANY("ch")); for (c = 0; c < 4; c++) wd(REAL("mm"));
    whole = damage(); p = read_control_par(name);
    if (!whole) REJECT(p);
    TAKE(p);
    vp_assert(p->num_cams == n, "the number of cameras");
    for (c = 0; c < n; c++)
        vp_assert((strcmp(p->img_base_name[c], nm[2 * c]) == 0) & (strcmp(p->cal_img_base_name[c], nm[2 * c + 1]) == 0), "each name");
    vp_assert((p->hp_flag == iv[b]) & (p->allCam_flag == iv[b + 1]) & (p->tiff_flag == iv[b + 2]) & (p->imx == iv[b + 3]) & (p->imy == iv[b + 4])
              & (p->pix_x == dv[b + 5]) & (p->pix_y == dv[b + 6]) & (p->chfield == iv[b + 7]) & (p->mm->n1 == dv[b + 8]) & (p->mm->n2[0] == dv[b + 9])
              & (p->mm->n3 == dv[b + 10]) & (p->mm->d[0] == dv[b + 11]) & (p->mm->nlay == 1), "every value, in the documented order");
    free_control_par(p);
}
/* names up to the length that fits, and longer ones */
void h_long_names(void)
{
    static const int len[5] = {1, 239, 240, 241, 700};
    static char s[800]; int i, n = len[vp_pick(vp_int("length", 0, 4))], which = vp_pick(vp_int("which", 0, 2));
    for (i = 0; i < n; i++) s[i] = '1';
    s[n] = 0;
    begin("long.par");
    if (which == 0) {
        sequence_par *p; ws(s); wi(5); wi(6); fclose(f);
        p = read_sequence_par(name, 1);
        if (n >= SEQ_FNAME_MAX_LEN) REJECT(p);
        TAKE(p); vp_assert(strcmp(p->img_base_name[0], s) == 0 && p->first == 5 && p->last == 6, "name and numbers");
        free_sequence_par(p); vp_reach("sequence");
    } else {
        control_par *p; wi(1); ws(which == 1 ? s : "a"); ws(which == 2 ? s : "b"); for (i = 0; i < 12; i++) wi(i); fclose(f);
        p = read_control_par(name);
        if (n >= SEQ_FNAME_MAX_LEN) REJECT(p);
        TAKE(p); vp_assert(strcmp(which == 1 ? p->img_base_name[0] : p->cal_img_base_name[0], s) == 0 && p->hp_flag == 0 && p->mm->d[0] == 11, "name and numbers");
        free_control_par(p); vp_reach("control");
    }
}
/* a number of cameras that is none */
void h_bad_cams(void)
{
    control_par *p; int i;
    begin("ptv.par"); wi(vp_int("cams", -2147483647 - 1, -1)); for (i = 0; i < 20; i++) wi(i); fclose(f);
    p = read_control_par(name); vp_reach("end");
    REJECT(p);
}
void h_target(void)
{
    target_par *t; int i, whole;
    begin("targ_rec.par"); for (i = 0; i < 13; i++) wi(ANY("v"));
    whole = damage(); t = read_target_par(name);
    if (!whole) REJECT(t);
    TAKE(t);
    for (i = 0; i < 4; i++) vp_assert(t->gvthres[i] == iv[i], "the thresholds of the four images");
    vp_assert((t->discont == iv[4]) & (t->nnmin == iv[5]) & (t->nnmax == iv[6]) & (t->nxmin == iv[7]) & (t->nxmax == iv[8]) & (t->nymin == iv[9]) & (t->nymax == iv[10])
              & (t->sumg_min == iv[11]) & (t->cr_sz == iv[12]), "every value, in the documented order");
    free(t);
}
/* written parameters are what is read */
void h_target_write(void)
{
    target_par a, *t; int i, v[13];
    for (i = 0; i < 13; i++) v[i] = ANY("v");
    for (i = 0; i < 4; i++) a.gvthres[i] = v[i];
    a.discont = v[4]; a.nnmin = v[5]; a.nnmax = v[6]; a.nxmin = v[7]; a.nxmax = v[8]; a.nymin = v[9]; a.nymax = v[10]; a.sumg_min = v[11]; a.cr_sz = v[12];
    if (vp_pick(vp_int("writable", 0, 1))) {
        vp_scratch_path(name, "targ_rec.par");
        write_target_par(&a, name);
        vp_assert(vp_numbers(name) == 13, "thirteen numbers are written");
        f = fopen(name, "r");
        for (i = 0; i < 13; i++) vp_assert(fscanf(f, "%d", &iv[i]) == 1 && iv[i] == v[i], "in the documented order");
        fclose(f); vp_reach("written");
    } else {
        vp_scratch_path(name, "nodir/targ_rec.par");
        write_target_par(&a, name); vp_reach("not writable");
        t = read_target_par(name);
        REJECT(t);
    }
}
void h_orient(void)
{
    orient_par *o; int i, whole;
    begin("orient.par"); for (i = 0; i < 12; i++) wi(ANY("v"));
    whole = damage(); o = read_orient_par(name);
    if (!whole) REJECT(o);
    TAKE(o);
    vp_assert((o->useflag == iv[0]) & (o->ccflag == iv[1]) & (o->xhflag == iv[2]) & (o->yhflag == iv[3]) & (o->k1flag == iv[4]) & (o->k2flag == iv[5]) & (o->k3flag == iv[6])
              & (o->p1flag == iv[7]) & (o->p2flag == iv[8]) & (o->scxflag == iv[9]) & (o->sheflag == iv[10]) & (o->interfflag == iv[11]), "every value, in the documented order");
    free(o);
}
void h_sortgrid(void)
{
    int r, whole;
    begin("sortgrid.par"); wi(ANY("eps"));
    whole = damage(); r = read_sortgrid_par(name);
    vp_assert(r == (whole ? iv[0] : 0), "the radius, or zero for a missing, cut or malformed file");
}
void h_calblock(void)
{
    vec3d *p; int i, k, n = vp_pick(vp_int("points", 1, 3)), num = -5, whole = 1;
    begin("calblock.txt"); for (i = 0; i < n; i++) { wi(ANY("id")); for (k = 0; k < 3; k++) wd(REAL("x")); }
    fclose(f);
    k = vp_pick(vp_int("damage", 0, 3));
    if (k == 1) { vp_unlink(name); whole = 0; vp_reach("missing"); }
    else if (k == 2) {          /* a list cut between two points is another list */
        int w = vp_pick(vp_int("keep", 0, words - 1));
        vp_words_keep(name, w);
        if (w % 4 || w == 0) whole = 0; else n = w / 4;
        vp_reach("cut");
    } else if (k == 3) { vp_word_replace(name, vp_pick(vp_int("word", 0, words - 1)), "x7"); whole = 0; vp_reach("word"); }
    else vp_reach("whole");
    p = read_calblock(&num, name);
    if (!whole) { vp_assert(num == 0, "no points of a rejected file"); REJECT(p); }
    TAKE(p);
    vp_assert(num == n, "the number of points");
    for (i = 0; i < n; i++) for (k = 0; k < 3; k++) vp_assert(p[i][k] == dv[4 * i + 1 + k], "each point, in the order of the file");
    free(p);
}
/* the four picked points of one camera; points of the block are told by their place in the file */
static void block_file(char *block, double x[][3], int n)
{
    int i, k;
    begin("calblock.txt"); for (i = 0; i < n; i++) { wi(i + 1); for (k = 0; k < 3; k++) { x[i][k] = REAL("x"); wd(x[i][k]); } }
    fclose(f); memcpy(block, name, sizeof name);
}
void h_man_ori(void)
{
    static char block[600]; vec3d fix4[4]; double x[6][3]; int i, k, c, n = NP, cam = vp_pick(vp_int("cam", 0, 1)), r, found = 0, nr[4];
    block_file(block, x, n);
    begin("man_ori.dat");
    for (c = 0; c < 3; c++) for (i = 0; i < 4; i++) wi(c == cam ? vp_int("nr", 0, NP + 1) : 4 - i + 10 * c);
    fclose(f);
    for (i = 0; i < 4; i++) nr[i] = iv[4 * cam + i];
    for (i = 0; i < 4; i++) for (k = 0; k < i; k++) vp_assume(nr[i] != nr[k]);
    for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) fix4[i][k] = -7;
    r = read_man_ori_fix(fix4, block, name, cam);
    for (i = 0; i < 4; i++) {
        int got = 0, ok = 1;
        for (k = 1; k <= n; k++)
            { int h = nr[i] == k; got |= h; ok &= !h | ((fix4[i][0] == x[k - 1][0]) & (fix4[i][1] == x[k - 1][1]) & (fix4[i][2] == x[k - 1][2])); }
        found += got;
        vp_assert(ok & (got | (fix4[i][0] == -7)), "each picked point is the point of the block with its number");
    }
    vp_assert(r == found, "the number of points found");
    vp_reach("end");
}
void h_man_ori_damage(void)
{
    static char block[600]; vec3d fix4[4]; double x[6][3]; int i, k, c, n = vp_pick(vp_int("points", 3, 5)), cam = vp_pick(vp_int("cam", 0, 2)), whole, r;
    block_file(block, x, n);
    begin("man_ori.dat"); for (c = 0; c <= cam; c++) for (i = 0; i < 4; i++) wi(c == cam ? 4 - i : ANY("other"));
    whole = damage();
    r = read_man_ori_fix(fix4, block, name, cam);
    if (!whole) { vp_assert(r == 0, "a missing, cut or malformed file of picked points is rejected"); return; }
    if (n < 4) { vp_assert(r == 0, "a block of fewer than four points is rejected"); vp_reach("few"); return; }
    vp_assert(r == 4, "the four points are found");
    for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) vp_assert(fix4[i][k] == x[3 - i][k], "each picked point is the point of the block with its number");
}
/* the block itself unreadable */
void h_man_ori_block(void)
{
    static char block[600]; vec3d fix4[4]; int i, kind = vp_pick(vp_int("kind", 0, 2));
    begin("calblock.txt"); for (i = 0; i < 20; i++) wi(i); fclose(f); memcpy(block, name, sizeof name);
    if (kind == 0) vp_unlink(block); else vp_words_keep(block, kind == 1 ? 0 : 18);
    begin("man_ori.dat"); for (i = 1; i <= 4; i++) wi(i); fclose(f);
    vp_assert(read_man_ori_fix(fix4, block, name, 0) == 0, "an unreadable block is rejected");
    vp_reach("end");
}
