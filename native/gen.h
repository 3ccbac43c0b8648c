/* Random OIFITS datasets and exact comparison, for replaying failed obligations
 * against the real library.  Allocates with plain malloc (exact sizes). */
#ifndef GEN_H
#define GEN_H
#include "oifile.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oiiter.h"
#include "oicheck.h"
#include "chkmalloc.h"
#include "datemjd.h"
#include <complex.h>
#include <float.h>
#include <math.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static unsigned long long rs;
static unsigned rnd(void)
{
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return (unsigned)(rs >> 11);
}
static int ri(int lo, int hi) { return lo + (int)(rnd() % (unsigned)(hi - lo + 1)); }
static int chance(int pct) { return ri(0, 99) < pct; }
static double rd(void) { return (ri(-4000, 4000)) / 16.0; }
static double rdz(void)
{
  int k = ri(0, 19);
  if (k == 0) return 0.0;
  if (k == 1) return 1e300;
  if (k == 2) return -1e-300;
  return rd();
}
static void rstr(char *d, int n, const char *pre)
{
  /* up to n-1 characters */
  int l = chance(15) ? n - 1 : ri(0, n - 1 < 8 ? n - 1 : 8), i;
  for (i = 0; i < l; i++) d[i] = (char)ri('A', 'Z');
  d[l] = 0;
  if (pre && (int)strlen(pre) < n && l > 0) memcpy(d, pre, strlen(pre) <= (size_t)l ? strlen(pre) : (size_t)l);
}
#define NEW(n, t) ((t *)malloc((size_t)(n) * sizeof(t)))

typedef struct
{
  int maxarr, maxwave, maxcorr, maxinspol, maxtab, maxrec, maxchan, maxtarg;
  int rev1;     /* percent of revision-1 datasets */
  int named;    /* always reference tables that exist */
  int emptytab; /* percent of data tables with no records */
  int iosafe;   /* values that survive FITS storage */
  int tag;      /* distinguishes names between datasets */
  int shared;   /* percent: take a name from the common pool */
  int suffix;   /* percent: names that look like ones made by merging; long names */
} gopt;
static gopt GOPT = {2, 2, 2, 2, 2, 3, 4, 3, 30, 1, 0, 0, 0, 0, 0};

static double gval(const gopt *o) { return o->iosafe ? rd() : rdz(); }

static void g_header(oi_header *h)
{
  char *p[] = {h->origin, h->date, h->date_obs, h->content, h->telescop, h->instrume, h->observer,
               h->insmode, h->object, h->referenc, h->author, h->prog_id, h->procsoft, h->obstech};
  int i;
  for (i = 0; i < 14; i++)
    if (chance(75)) snprintf(p[i], FLEN_VALUE, "H%d-%d", i, ri(0, 2)); else p[i][0] = 0;
  snprintf(h->date_obs, FLEN_VALUE, "20%02d-%02d-%02d", ri(0, 30), ri(1, 12), ri(1, 28));
  if (chance(5)) h->date_obs[0] = 0;
  if (chance(5)) strcpy(h->date_obs, "unknown");
  if (chance(10)) strcat(h->date_obs, "T12:00:00");
}

static oi_array *g_array(const gopt *o, const char *name)
{
  oi_array *a = NEW(1, oi_array);
  int i;
  memset(a, 0, sizeof *a);
  a->revision = 2;
  snprintf(a->arrname, FLEN_VALUE, "%s", name);
  strcpy(a->frame, chance(50) ? "GEOCENTRIC" : "SKY");
  a->arrayx = rd(); a->arrayy = rd(); a->arrayz = rd();
  a->nelement = ri(1, 3);
  a->elem = NEW(a->nelement, element);
  memset(a->elem, 0, a->nelement * sizeof(element));
  for (i = 0; i < a->nelement; i++)
  {
    element *e = &a->elem[i];
    snprintf(e->tel_name, 17, "T%d", ri(0, 99));
    snprintf(e->sta_name, 17, "S%d", ri(0, 99));
    e->sta_index = i + 1 + (chance(30) ? 10 : 0);
    e->diameter = (float)rd();
    e->staxyz[0] = rd(); e->staxyz[1] = rd(); e->staxyz[2] = rd();
    e->fov = rd();
    strcpy(e->fovtype, chance(50) ? "FWHM" : "RADIUS");
  }
  return a;
}
static void g_target(const gopt *o, oi_target *t)
{
  int i;
  memset(t, 0, sizeof *t);
  t->revision = 2;
  t->ntarget = ri(1, o->maxtarg);
  t->usecategory = chance(40);
  t->targ = NEW(t->ntarget, target);
  memset(t->targ, 0, t->ntarget * sizeof(target));
  for (i = 0; i < t->ntarget; i++)
  {
    target *g = &t->targ[i];
    g->target_id = i + 1 + (chance(20) ? 20 : 0);
    snprintf(g->target, 33, "TG%d_%d", chance(o->shared) ? 0 : o->tag, i);
    g->raep0 = rd(); g->decep0 = rd(); g->equinox = (float)rd();
    g->ra_err = rd(); g->dec_err = rd(); g->sysvel = rd();
    strcpy(g->veltyp, chance(50) ? "LSR" : "TOPOCENT"); strcpy(g->veldef, chance(50) ? "RADIO" : "OPTICAL");
    g->pmra = rd(); g->pmdec = rd(); g->pmra_err = rd(); g->pmdec_err = rd();
    g->parallax = (float)rd(); g->para_err = (float)rd();
    snprintf(g->spectyp, 33, "K%dIII", ri(0, 9));
    if (t->usecategory) strcpy(g->category, chance(50) ? "SCI" : "CAL");
  }
}
static oi_wavelength *g_wave(const gopt *o, const char *name)
{
  oi_wavelength *w = NEW(1, oi_wavelength);
  int i, dir = chance(70) ? 1 : -1;
  memset(w, 0, sizeof *w);
  w->revision = 2;
  snprintf(w->insname, FLEN_VALUE, "%s", name);
  w->nwave = ri(1, o->maxchan);
  w->eff_wave = NEW(w->nwave, float);
  w->eff_band = NEW(w->nwave, float);
  for (i = 0; i < w->nwave; i++)
  {
    w->eff_wave[i] = (float)((10 + dir * i) * 1e-7);
    w->eff_band[i] = (float)(ri(1, 9) * 1e-8);
  }
  return w;
}
static oi_corr *g_corr(const gopt *o, const char *name)
{
  oi_corr *c = NEW(1, oi_corr);
  int i;
  memset(c, 0, sizeof *c);
  c->revision = 1;
  snprintf(c->corrname, FLEN_VALUE, "%s", name);
  c->ndata = ri(1, 9);
  c->ncorr = ri(1, 4);
  c->iindx = NEW(c->ncorr, int); c->jindx = NEW(c->ncorr, int); c->corr = NEW(c->ncorr, double);
  for (i = 0; i < c->ncorr; i++) { c->iindx[i] = ri(1, 9); c->jindx[i] = ri(1, 9); c->corr[i] = rd(); }
  return c;
}
static double *gd(const gopt *o, int n)
{
  double *d = NEW(n, double);
  int i;
  for (i = 0; i < n; i++) d[i] = gval(o);
  return d;
}
static char *gf(int n, int pct)
{
  char *d = NEW(n, char);
  int i;
  for (i = 0; i < n; i++) d[i] = chance(pct) ? 1 : 0;
  return d;
}
static const char *nm(GList *l, size_t off, int k)
{
  GList *x = g_list_nth(l, k);
  return (char *)x->data + off;
}
static int gflagpct(void) { int k = ri(0, 4); return k == 0 ? 100 : k == 1 ? 0 : 40; }

static void g_names(const gopt *o, oi_fits *f, char *arr, char *ins, char *corr, int *nwave)
{
  int k = ri(0, f->numWavelength - 1);
  oi_wavelength *w = g_list_nth_data(f->wavelengthList, k);
  strcpy(ins, w->insname);
  *nwave = w->nwave;
  arr[0] = corr[0] = 0;
  if (f->numArray && chance(85)) strcpy(arr, nm(f->arrayList, offsetof(oi_array, arrname), ri(0, f->numArray - 1)));
  if (f->numCorr && chance(70)) strcpy(corr, nm(f->corrList, offsetof(oi_corr, corrname), ri(0, f->numCorr - 1)));
}
static double gmjd(void) { return 50000 + ri(0, 8) + ri(0, 3) / 4.0; }
static double guv(void) { return ri(-12, 12) * 10.0; }
static int gtid(oi_fits *f) { return f->targets.targ[ri(0, f->targets.ntarget - 1)].target_id; }
static void gsta(oi_fits *f, const char *arr, int *s, int n)
{
  GList *l;
  int i;
  for (i = 0; i < n; i++) s[i] = i + 1;
  for (l = f->arrayList; l; l = l->next)
    if (!strcmp(((oi_array *)l->data)->arrname, arr))
      for (i = 0; i < n; i++)
        s[i] = ((oi_array *)l->data)->elem[ri(0, ((oi_array *)l->data)->nelement - 1)].sta_index;
}
static int gnrec(const gopt *o) { return chance(o->emptytab) ? 0 : ri(1, o->maxrec); }

static oi_inspol *g_inspol(const gopt *o, oi_fits *f)
{
  oi_inspol *t = NEW(1, oi_inspol);
  char corr[FLEN_VALUE], ins[FLEN_VALUE];
  int i, j;
  memset(t, 0, sizeof *t);
  t->revision = 1;
  g_names(o, f, t->arrname, ins, corr, &t->nwave);
  if (!t->arrname[0]) strcpy(t->arrname, f->numArray ? nm(f->arrayList, offsetof(oi_array, arrname), 0) : "NOARR");
  snprintf(t->date_obs, FLEN_VALUE, "2010-01-%02d", ri(1, 28));
  t->npol = ri(1, 4);
  strcpy(t->orient, "NORTH"); strcpy(t->model, "MODEL");
  t->numrec = ri(1, o->maxrec);
  t->record = NEW(t->numrec, oi_inspol_record);
  memset(t->record, 0, t->numrec * sizeof(oi_inspol_record));
  for (i = 0; i < t->numrec; i++)
  {
    oi_inspol_record *r = &t->record[i];
    GList *l;
    float complex **p[] = {&r->jxx, &r->jyy, &r->jxy, &r->jyx};
    int q;
    r->target_id = gtid(f);
    strcpy(r->insname, ins);
    if (chance(40)) /* another instrument with the same number of channels */
      for (l = f->wavelengthList; l; l = l->next)
        if (((oi_wavelength *)l->data)->nwave == t->nwave && chance(60)) strcpy(r->insname, ((oi_wavelength *)l->data)->insname);
    r->mjd_obs = gmjd(); r->mjd_end = r->mjd_obs + ri(0, 3);
    gsta(f, t->arrname, &r->sta_index, 1);
    for (q = 0; q < 4; q++)
    {
      *p[q] = NEW(t->nwave, float complex);
      for (j = 0; j < t->nwave; j++) (*p[q])[j] = (float)rd() + I * (float)rd();
    }
  }
  return t;
}
#define COMMON(t, T)                                                              \
  T *t = NEW(1, T);                                                               \
  int i;                                                                          \
  memset(t, 0, sizeof *t);                                                        \
  t->revision = chance(50) ? 2 : 1;                                               \
  g_names(o, f, t->arrname, t->insname, t->corrname, &t->nwave);                  \
  snprintf(t->date_obs, FLEN_VALUE, "2010-02-%02d", ri(1, 28));                   \
  t->numrec = gnrec(o);                                                           \
  t->record = t->numrec ? malloc(t->numrec * sizeof(t->record[0])) : NULL;        \
  if (t->numrec) memset(t->record, 0, t->numrec * sizeof(t->record[0]));

static oi_vis *g_vis(const gopt *o, oi_fits *f)
{
  COMMON(t, oi_vis)
  t->revision = chance(70) ? 2 : 1;
  t->usevisrefmap = t->revision == 2 && chance(40);
  t->usecomplex = t->revision == 2 && chance(40);
  if (t->revision == 1) t->corrname[0] = 0;
  t->amporder = t->phiorder = -1;
  if (t->revision == 2 && chance(70))
  {
    strcpy(t->amptyp, chance(30) ? "absolute" : chance(50) ? "differential" : "correlated flux");
    strcpy(t->phityp, chance(50) ? "absolute" : "differential");
    if (chance(50)) { t->amporder = ri(0, 3); t->phiorder = ri(0, 3); }
  }
  if (t->usecomplex) strcpy(t->complexunit, "Jy");
  if (!strcmp(t->amptyp, "correlated flux")) strcpy(t->ampunit, "Jy");
  for (i = 0; i < t->numrec; i++)
  {
    oi_vis_record *r = &t->record[i];
    r->target_id = gtid(f); r->time = rd(); r->mjd = gmjd(); r->int_time = rd();
    r->visamp = gd(o, t->nwave); r->visamperr = gd(o, t->nwave); r->visphi = gd(o, t->nwave); r->visphierr = gd(o, t->nwave);
    r->corrindx_visamp = r->corrindx_visphi = r->corrindx_rvis = r->corrindx_ivis = -1;
    if (t->corrname[0]) { r->corrindx_visamp = ri(1, 9); r->corrindx_visphi = ri(1, 9); }
    if (t->corrname[0] && t->usecomplex) { r->corrindx_rvis = ri(1, 9); r->corrindx_ivis = ri(1, 9); }
    if (t->usevisrefmap) r->visrefmap = gf(t->nwave * t->nwave, 50);
    if (t->usecomplex)
    {
      r->rvis = gd(o, t->nwave); r->rviserr = gd(o, t->nwave); r->ivis = gd(o, t->nwave); r->iviserr = gd(o, t->nwave);
    }
    r->ucoord = guv(); r->vcoord = guv();
    gsta(f, t->arrname, r->sta_index, 2);
    r->flag = gf(t->nwave, gflagpct());
  }
  return t;
}
static double *gerr(const gopt *o, int n)
{
  double *d = NEW(n, double);
  int i;
  for (i = 0; i < n; i++) d[i] = ri(1, 40) / 16.0;
  return d;
}
static oi_vis2 *g_vis2(const gopt *o, oi_fits *f)
{
  COMMON(t, oi_vis2)
  if (t->revision == 1) t->corrname[0] = 0;
  for (i = 0; i < t->numrec; i++)
  {
    oi_vis2_record *r = &t->record[i];
    r->target_id = gtid(f); r->time = rd(); r->mjd = gmjd(); r->int_time = rd();
    r->vis2data = gd(o, t->nwave); r->vis2err = gerr(o, t->nwave);
    r->corrindx_vis2data = t->corrname[0] ? ri(1, 9) : -1;
    r->ucoord = guv(); r->vcoord = guv();
    gsta(f, t->arrname, r->sta_index, 2);
    r->flag = gf(t->nwave, gflagpct());
  }
  return t;
}
static oi_t3 *g_t3(const gopt *o, oi_fits *f)
{
  COMMON(t, oi_t3)
  if (t->revision == 1) t->corrname[0] = 0;
  for (i = 0; i < t->numrec; i++)
  {
    oi_t3_record *r = &t->record[i];
    r->target_id = gtid(f); r->time = rd(); r->mjd = gmjd(); r->int_time = rd();
    r->t3amp = gd(o, t->nwave); r->t3amperr = gerr(o, t->nwave); r->t3phi = gd(o, t->nwave); r->t3phierr = gerr(o, t->nwave);
    r->corrindx_t3amp = t->corrname[0] ? ri(1, 9) : -1;
    r->corrindx_t3phi = t->corrname[0] ? ri(1, 9) : -1;
    r->u1coord = guv(); r->v1coord = guv(); r->u2coord = guv(); r->v2coord = guv();
    gsta(f, t->arrname, r->sta_index, 3);
    r->flag = gf(t->nwave, gflagpct());
  }
  return t;
}
static oi_flux *g_flux(const gopt *o, oi_fits *f)
{
  COMMON(t, oi_flux)
  t->revision = 1;
  t->fov = chance(50) ? rd() : 0;
  if (chance(50)) strcpy(t->fovtype, chance(50) ? "FWHM" : "RADIUS");
  t->calstat = chance(50) ? 'C' : 'U';
  strcpy(t->fluxunit, "Jy");
  for (i = 0; i < t->numrec; i++)
  {
    oi_flux_record *r = &t->record[i];
    r->target_id = gtid(f); r->mjd = gmjd(); r->int_time = rd();
    r->fluxdata = gd(o, t->nwave); r->fluxerr = gd(o, t->nwave);
    r->corrindx_fluxdata = t->corrname[0] ? ri(1, 9) : -1;
    r->sta_index = -1;
    if (t->arrname[0]) gsta(f, t->arrname, &r->sta_index, 1);
    r->flag = gf(t->nwave, gflagpct());
  }
  return t;
}

/* distinct for distinct i within one dataset */
static void g_name(const gopt *o, char *s, const char *pre, int i)
{
  snprintf(s, FLEN_VALUE, "%s%d_%d", pre, chance(o->shared) ? 0 : o->tag, i);
  if (chance(o->suffix))
  {
    if (chance(60)) snprintf(s + strlen(s), FLEN_VALUE - strlen(s), "_%03d", ri(1, 5));
    else
      while (strlen(s) < FLEN_VALUE - 1 - (chance(50) ? 5 : 0)) strcat(s, "x");
  }
}
static void g_file(const gopt *o, oi_fits *f)
{
  char s[FLEN_VALUE];
  int i, n;
  memset(f, 0, sizeof *f);
  g_header(&f->header);
  f->arrayHash = g_hash_table_new(g_str_hash, g_str_equal);
  f->wavelengthHash = g_hash_table_new(g_str_hash, g_str_equal);
  f->corrHash = g_hash_table_new(g_str_hash, g_str_equal);
  g_target(o, &f->targets);
  f->numArray = ri(0, o->maxarr);
  for (i = 0; i < f->numArray; i++)
  {
    oi_array *a;
    g_name(o, s, "ARR", i);
    a = g_array(o, s);
    f->arrayList = g_list_append(f->arrayList, a);
    g_hash_table_insert(f->arrayHash, a->arrname, a);
  }
  f->numWavelength = ri(1, o->maxwave);
  for (i = 0; i < f->numWavelength; i++)
  {
    oi_wavelength *a;
    g_name(o, s, "INS", i);
    a = g_wave(o, s);
    f->wavelengthList = g_list_append(f->wavelengthList, a);
    g_hash_table_insert(f->wavelengthHash, a->insname, a);
  }
  f->numCorr = ri(0, o->maxcorr);
  for (i = 0; i < f->numCorr; i++)
  {
    oi_corr *a;
    g_name(o, s, "COR", i);
    a = g_corr(o, s);
    f->corrList = g_list_append(f->corrList, a);
    g_hash_table_insert(f->corrHash, a->corrname, a);
  }
  n = f->numArray ? ri(0, o->maxinspol) : 0;
  for (i = 0; i < n; i++) f->inspolList = g_list_append(f->inspolList, g_inspol(o, f));
  f->numInspol = n;
  n = ri(0, o->maxtab);
  for (i = 0; i < n; i++) f->visList = g_list_append(f->visList, g_vis(o, f));
  f->numVis = n;
  n = ri(0, o->maxtab);
  for (i = 0; i < n; i++) f->vis2List = g_list_append(f->vis2List, g_vis2(o, f));
  f->numVis2 = n;
  n = ri(0, o->maxtab);
  for (i = 0; i < n; i++) f->t3List = g_list_append(f->t3List, g_t3(o, f));
  f->numT3 = n;
  n = ri(0, o->maxtab);
  for (i = 0; i < n; i++) f->fluxList = g_list_append(f->fluxList, g_flux(o, f));
  f->numFlux = n;
}

/* ------------------------------------------------ reference deep copy and free */
static void *xdup(const void *p, size_t n)
{
  void *q;
  if (!p) return NULL;
  q = malloc(n ? n : 1);
  memcpy(q, p, n);
  return q;
}
#define D1(f, n) c->record[i].f = xdup(t->record[i].f, (size_t)(n) * sizeof(*t->record[i].f))
static oi_array *x_array(const oi_array *t) { oi_array *c = xdup(t, sizeof *t); c->elem = xdup(t->elem, t->nelement * sizeof(element)); return c; }
static oi_wavelength *x_wavelength(const oi_wavelength *t)
{
  oi_wavelength *c = xdup(t, sizeof *t);
  c->eff_wave = xdup(t->eff_wave, t->nwave * sizeof(float)); c->eff_band = xdup(t->eff_band, t->nwave * sizeof(float));
  return c;
}
static oi_corr *x_corr(const oi_corr *t)
{
  oi_corr *c = xdup(t, sizeof *t);
  c->iindx = xdup(t->iindx, t->ncorr * sizeof(int)); c->jindx = xdup(t->jindx, t->ncorr * sizeof(int));
  c->corr = xdup(t->corr, t->ncorr * sizeof(double));
  return c;
}
#define XHEAD(T) T *c = xdup(t, sizeof *t); int i; c->record = xdup(t->record, t->numrec * sizeof(t->record[0])); for (i = 0; i < t->numrec; i++)
static oi_inspol *x_inspol(const oi_inspol *t) { XHEAD(oi_inspol) { D1(jxx, t->nwave); D1(jyy, t->nwave); D1(jxy, t->nwave); D1(jyx, t->nwave); } return c; }
static oi_vis *x_vis(const oi_vis *t)
{
  XHEAD(oi_vis)
  {
    D1(visamp, t->nwave); D1(visamperr, t->nwave); D1(visphi, t->nwave); D1(visphierr, t->nwave); D1(flag, t->nwave);
    if (t->usevisrefmap) D1(visrefmap, t->nwave * t->nwave);
    if (t->usecomplex) { D1(rvis, t->nwave); D1(rviserr, t->nwave); D1(ivis, t->nwave); D1(iviserr, t->nwave); }
  }
  return c;
}
static oi_vis2 *x_vis2(const oi_vis2 *t) { XHEAD(oi_vis2) { D1(vis2data, t->nwave); D1(vis2err, t->nwave); D1(flag, t->nwave); } return c; }
static oi_t3 *x_t3(const oi_t3 *t) { XHEAD(oi_t3) { D1(t3amp, t->nwave); D1(t3amperr, t->nwave); D1(t3phi, t->nwave); D1(t3phierr, t->nwave); D1(flag, t->nwave); } return c; }
static oi_flux *x_flux(const oi_flux *t) { XHEAD(oi_flux) { D1(fluxdata, t->nwave); D1(fluxerr, t->nwave); D1(flag, t->nwave); } return c; }
#define XL(list, fn, hash, key)                                                     \
  c->list = NULL;                                                                   \
  for (l = t->list; l; l = l->next) c->list = g_list_append(c->list, fn(l->data));
static oi_fits *x_file(const oi_fits *t)
{
  oi_fits *c = xdup(t, sizeof *t);
  GList *l;
  c->targets.targ = xdup(t->targets.targ, t->targets.ntarget * sizeof(target));
  XL(arrayList, x_array,,) XL(wavelengthList, x_wavelength,,) XL(corrList, x_corr,,) XL(inspolList, x_inspol,,)
  XL(visList, x_vis,,) XL(vis2List, x_vis2,,) XL(t3List, x_t3,,) XL(fluxList, x_flux,,)
  return c;
}

static void gf_inspol(oi_inspol *t) { int i; for (i = 0; i < t->numrec; i++) { free(t->record[i].jxx); free(t->record[i].jyy); free(t->record[i].jxy); free(t->record[i].jyx); } free(t->record); }
static void gf_vis(oi_vis *t)
{
  int i;
  for (i = 0; i < t->numrec; i++)
  {
    oi_vis_record *r = &t->record[i];
    free(r->visamp); free(r->visamperr); free(r->visphi); free(r->visphierr); free(r->flag);
    if (t->usevisrefmap) free(r->visrefmap);
    if (t->usecomplex) { free(r->rvis); free(r->rviserr); free(r->ivis); free(r->iviserr); }
  }
  free(t->record);
}
static void gf_vis2(oi_vis2 *t) { int i; for (i = 0; i < t->numrec; i++) { free(t->record[i].vis2data); free(t->record[i].vis2err); free(t->record[i].flag); } free(t->record); }
static void gf_t3(oi_t3 *t) { int i; for (i = 0; i < t->numrec; i++) { free(t->record[i].t3amp); free(t->record[i].t3amperr); free(t->record[i].t3phi); free(t->record[i].t3phierr); free(t->record[i].flag); } free(t->record); }
static void gf_flux(oi_flux *t) { int i; for (i = 0; i < t->numrec; i++) { free(t->record[i].fluxdata); free(t->record[i].fluxerr); free(t->record[i].flag); } free(t->record); }
static void gf_wave(oi_wavelength *w) { free(w->eff_wave); free(w->eff_band); }
static void gf_corr(oi_corr *c) { free(c->iindx); free(c->jindx); free(c->corr); }
static void gf_array(oi_array *a) { free(a->elem); }
#define GFL(list, fn) for (l = f->list; l; l = l->next) { fn(l->data); free(l->data); } g_list_free(f->list);
static void gfree(oi_fits *f, int hashes)
{
  GList *l;
  if (hashes) { g_hash_table_destroy(f->arrayHash); g_hash_table_destroy(f->wavelengthHash); g_hash_table_destroy(f->corrHash); }
  free(f->targets.targ);
  GFL(arrayList, gf_array) GFL(wavelengthList, gf_wave) GFL(corrList, gf_corr) GFL(inspolList, gf_inspol)
  GFL(visList, gf_vis) GFL(vis2List, gf_vis2) GFL(t3List, gf_t3) GFL(fluxList, gf_flux)
}

/* ------------------------------------------------ comparison: NULL if equal, else what differs */
static char why[400];
static char *W(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(why, sizeof why, fmt, ap);
  va_end(ap);
  return why;
}
#define CS(f) if (strcmp(a->f, b->f)) return W("%s: \"%s\" vs \"%s\"", #f, a->f, b->f)
#define CI(f) if (a->f != b->f) return W("%s: %ld vs %ld", #f, (long)a->f, (long)b->f)
#define CD(f) if (memcmp(&a->f, &b->f, sizeof a->f) && !(a->f == b->f)) return W("%s: %g vs %g", #f, (double)a->f, (double)b->f)
/* contents, bit for bit, except that one NaN is as good as another */
static int ca(const void *x, const void *y, long n, size_t z, int dbl)
{
  long i;
  for (i = 0; i < n; i++)
    if (memcmp((const char *)x + i * z, (const char *)y + i * z, z) && !(dbl && isnan(((const double *)x)[i]) && isnan(((const double *)y)[i]))) return 1;
  return 0;
}
#define CA(f, n) if (ca(a->f, b->f, n, sizeof(*a->f), __builtin_types_compatible_p(__typeof__(*a->f), double))) return W("contents of %s differ", #f)
static char *c_header(const oi_header *a, const oi_header *b)
{
  CS(origin); CS(date); CS(date_obs); CS(content); CS(telescop); CS(instrume); CS(observer); CS(insmode); CS(object);
  CS(referenc); CS(author); CS(prog_id); CS(procsoft); CS(obstech);
  return NULL;
}
static char *c_element(const element *a, const element *b)
{
  CS(tel_name); CS(sta_name); CI(sta_index); CD(diameter); CD(staxyz[0]); CD(staxyz[1]); CD(staxyz[2]); CD(fov); CS(fovtype);
  return NULL;
}
static char *c_array(const oi_array *a, const oi_array *b)
{
  int i; char *r;
  CI(revision); CS(arrname); CS(frame); CD(arrayx); CD(arrayy); CD(arrayz); CI(nelement);
  for (i = 0; i < a->nelement; i++) if ((r = c_element(&a->elem[i], &b->elem[i]))) return r;
  return NULL;
}
static char *c_targ(const target *a, const target *b, int id)
{
  if (id) CI(target_id);
  CS(target); CD(raep0); CD(decep0); CD(equinox); CD(ra_err); CD(dec_err); CD(sysvel); CS(veltyp); CS(veldef);
  CD(pmra); CD(pmdec); CD(pmra_err); CD(pmdec_err); CD(parallax); CD(para_err); CS(spectyp);
  return NULL;
}
static char *c_target(const oi_target *a, const oi_target *b)
{
  int i; char *r;
  CI(revision); CI(ntarget); CI(usecategory);
  for (i = 0; i < a->ntarget; i++)
  {
    if ((r = c_targ(&a->targ[i], &b->targ[i], 1))) return r;
    if (a->usecategory && strcmp(a->targ[i].category, b->targ[i].category)) return W("category");
  }
  return NULL;
}
static char *c_wavelength(const oi_wavelength *a, const oi_wavelength *b)
{
  CI(revision); CS(insname); CI(nwave); CA(eff_wave, a->nwave); CA(eff_band, a->nwave);
  return NULL;
}
static char *c_corr(const oi_corr *a, const oi_corr *b)
{
  CI(revision); CS(corrname); CI(ndata); CI(ncorr); CA(iindx, a->ncorr); CA(jindx, a->ncorr); CA(corr, a->ncorr);
  return NULL;
}
#define RECS(R, fn, ...) { int i; char *r; for (i = 0; i < a->numrec; i++) if ((r = fn(&a->record[i], &b->record[i], __VA_ARGS__))) return r; }
static char *c_inspol_rec(const oi_inspol_record *a, const oi_inspol_record *b, int n)
{
  CI(target_id); CS(insname); CD(mjd_obs); CD(mjd_end); CA(jxx, n); CA(jyy, n); CA(jxy, n); CA(jyx, n); CI(sta_index);
  return NULL;
}
static char *c_inspol(const oi_inspol *a, const oi_inspol *b)
{
  CI(revision); CS(date_obs); CI(npol); CS(arrname); CS(orient); CS(model); CI(numrec); CI(nwave);
  RECS(, c_inspol_rec, a->nwave)
  return NULL;
}
static char *c_vis_rec(const oi_vis_record *a, const oi_vis_record *b, int n, int ref, int cpx)
{
  CI(target_id); CD(time); CD(mjd); CD(int_time); CA(visamp, n); CA(visamperr, n); CI(corrindx_visamp);
  CA(visphi, n); CA(visphierr, n); CI(corrindx_visphi);
  if (ref) CA(visrefmap, n * n);
  if (cpx) { CA(rvis, n); CA(rviserr, n); CI(corrindx_rvis); CA(ivis, n); CA(iviserr, n); CI(corrindx_ivis); }
  CD(ucoord); CD(vcoord); CI(sta_index[0]); CI(sta_index[1]); CA(flag, n);
  return NULL;
}
static char *c_vis(const oi_vis *a, const oi_vis *b)
{
  CI(revision); CS(date_obs); CS(arrname); CS(insname); CS(corrname); CS(amptyp); CS(phityp); CI(amporder); CI(phiorder);
  CI(usevisrefmap); CI(usecomplex); CS(complexunit); CS(ampunit); CI(numrec); CI(nwave);
  RECS(, c_vis_rec, a->nwave, a->usevisrefmap, a->usecomplex)
  return NULL;
}
static char *c_vis2_rec(const oi_vis2_record *a, const oi_vis2_record *b, int n)
{
  CI(target_id); CD(time); CD(mjd); CD(int_time); CA(vis2data, n); CA(vis2err, n); CI(corrindx_vis2data);
  CD(ucoord); CD(vcoord); CI(sta_index[0]); CI(sta_index[1]); CA(flag, n);
  return NULL;
}
static char *c_vis2(const oi_vis2 *a, const oi_vis2 *b)
{
  CI(revision); CS(date_obs); CS(arrname); CS(insname); CS(corrname); CI(numrec); CI(nwave);
  RECS(, c_vis2_rec, a->nwave)
  return NULL;
}
static char *c_t3_rec(const oi_t3_record *a, const oi_t3_record *b, int n)
{
  CI(target_id); CD(time); CD(mjd); CD(int_time); CA(t3amp, n); CA(t3amperr, n); CI(corrindx_t3amp); CA(t3phi, n); CA(t3phierr, n);
  CI(corrindx_t3phi); CD(u1coord); CD(v1coord); CD(u2coord); CD(v2coord);
  CI(sta_index[0]); CI(sta_index[1]); CI(sta_index[2]); CA(flag, n);
  return NULL;
}
static char *c_t3(const oi_t3 *a, const oi_t3 *b)
{
  CI(revision); CS(date_obs); CS(arrname); CS(insname); CS(corrname); CI(numrec); CI(nwave);
  RECS(, c_t3_rec, a->nwave)
  return NULL;
}
static char *c_flux_rec(const oi_flux_record *a, const oi_flux_record *b, int n)
{
  CI(target_id); CD(mjd); CD(int_time); CA(fluxdata, n); CA(fluxerr, n); CI(corrindx_fluxdata); CI(sta_index); CA(flag, n);
  return NULL;
}
static char *c_flux(const oi_flux *a, const oi_flux *b)
{
  CI(revision); CS(date_obs); CS(arrname); CS(insname); CS(corrname); CD(fov); CS(fovtype); CI(calstat); CS(fluxunit); CI(numrec); CI(nwave);
  RECS(, c_flux_rec, a->nwave)
  return NULL;
}
#define CLIST(list, fn, N)                                                           \
  {                                                                                  \
    GList *x = a->list, *y = b->list;                                                \
    int k = 0;                                                                       \
    char *r;                                                                         \
    CI(N);                                                                           \
    for (; x && y; x = x->next, y = y->next, k++)                                    \
      if ((r = fn(x->data, y->data))) { char t_[300]; snprintf(t_, 300, "%s", r); return W("%s[%d]: %s", #list, k, t_); } \
    if (x || y) return W("%s: lengths differ", #list);                               \
  }
static char *c_file(const oi_fits *a, const oi_fits *b)
{
  char *r;
  if ((r = c_header(&a->header, &b->header))) return r;
  if ((r = c_target(&a->targets, &b->targets))) return r;
  CLIST(arrayList, c_array, numArray) CLIST(wavelengthList, c_wavelength, numWavelength) CLIST(corrList, c_corr, numCorr)
  CLIST(inspolList, c_inspol, numInspol) CLIST(visList, c_vis, numVis) CLIST(vis2List, c_vis2, numVis2)
  CLIST(t3List, c_t3, numT3) CLIST(fluxList, c_flux, numFlux)
  return NULL;
}
#endif
