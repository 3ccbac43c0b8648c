/* random filters and the meaning of each criterion (reference) */
#define R2D (180.0 / 3.14159)
static double hypo(double u, double v) { return pow(u * u + v * v, 0.5); }

/* candidate threshold values, collected from the data so that bounds are hit exactly */
static double cand[5][4000];
static int ncand[5];
static void addc(int k, double x) { if (ncand[k] < 4000 && x == x && fabs(x) < 1e290) cand[k][ncand[k]++] = x; }
enum { C_MJD, C_WAVE, C_BAS, C_UV, C_SNR };
static const oi_wavelength *wof(const oi_fits *f, const char *ins)
{
  GList *l;
  for (l = f->wavelengthList; l; l = l->next) if (!strcmp(((oi_wavelength *)l->data)->insname, ins)) return l->data;
  return NULL;
}
static void collect(const oi_fits *f)
{
  GList *l;
  int i, j, k;
  for (k = 0; k < 5; k++) ncand[k] = 0;
  for (l = f->wavelengthList; l; l = l->next)
    for (i = 0; i < ((oi_wavelength *)l->data)->nwave; i++) addc(C_WAVE, ((oi_wavelength *)l->data)->eff_wave[i]);
#define COL(LIST, T, BASE, SNRS)                                                \
  for (l = f->LIST; l; l = l->next)                                             \
  {                                                                             \
    T *t = l->data;                                                             \
    const oi_wavelength *w = wof(f, t->insname);                                \
    for (i = 0; i < t->numrec; i++)                                             \
    {                                                                           \
      addc(C_MJD, t->record[i].mjd);                                            \
      { BASE }                                                                  \
      for (j = 0; j < t->nwave; j++) { SNRS }                                   \
    }                                                                           \
  }
#define B1(u, v) { double b = hypo(u, v); addc(C_BAS, b); if (w) for (j = 0; j < t->nwave && j < w->nwave; j++) addc(C_UV, b / w->eff_wave[j]); }
  COL(visList, oi_vis, B1(t->record[i].ucoord, t->record[i].vcoord),
      addc(C_SNR, (float)(t->record[i].visamp[j] / t->record[i].visamperr[j])); addc(C_SNR, (float)(R2D / t->record[i].visphierr[j]));)
  COL(vis2List, oi_vis2, B1(t->record[i].ucoord, t->record[i].vcoord), addc(C_SNR, (float)(t->record[i].vis2data[j] / t->record[i].vis2err[j]));)
  COL(t3List, oi_t3, B1(t->record[i].u1coord, t->record[i].v1coord) B1(t->record[i].u2coord, t->record[i].v2coord)
      B1(t->record[i].u1coord + t->record[i].u2coord, t->record[i].v1coord + t->record[i].v2coord),
      addc(C_SNR, (float)(t->record[i].t3amp[j] / t->record[i].t3amperr[j])); addc(C_SNR, (float)(R2D / t->record[i].t3phierr[j]));)
  COL(fluxList, oi_flux, ;, addc(C_SNR, (float)(t->record[i].fluxdata[j] / t->record[i].fluxerr[j]));)
}
static double pick(int k, double dflt) { return ncand[k] ? cand[k][ri(0, ncand[k] - 1)] : dflt; }
static const char *PAT[] = {"*", "ARR*_0", "*_0", "INS*", "*1", "COR*", "?NS*", "", "NOPE", "*_1"};
static void g_filter(const oi_fits *f, oi_filter_spec *p)
{
  double *d2[] = {p->mjd_range, NULL, p->bas_range, p->uvrad_range, NULL};
  float *f2[] = {NULL, p->wave_range, NULL, NULL, p->snr_range};
  int k, e;
  init_oi_filter(p);
  collect(f);
  if (chance(25)) strcpy(p->arrname, chance(50) ? "ARR*_0" : PAT[ri(0, 9)]);
  if (chance(25)) strcpy(p->insname, chance(50) ? "INS*_0" : PAT[ri(0, 9)]);
  if (chance(20)) strcpy(p->corrname, chance(50) ? "COR*_0" : PAT[ri(0, 9)]);
  if (chance(35)) p->target_id = f->targets.targ[ri(0, f->targets.ntarget - 1)].target_id;
  if (chance(3)) p->target_id = 0;
  if (chance(3)) p->target_id = 77;
  for (k = 0; k < 5; k++)
    for (e = 0; e < 2; e++)
      if (chance(k == C_SNR ? 10 : 16))
      {
        double x = pick(k, 0);
        if (d2[k]) d2[k][e] = x; else f2[k][e] = (float)x;
      }
  if (chance(40)) p->snr_range[0] = -FLT_MAX, p->snr_range[1] = FLT_MAX;
  if (chance(10)) p->accept_vis = 0;
  if (chance(10)) p->accept_vis2 = 0;
  if (chance(25)) p->accept_t3amp = 0;
  if (chance(25)) p->accept_t3phi = 0;
  if (chance(10)) p->accept_flux = 0;
  if (chance(50)) p->accept_flagged = 0;
}
#define INR(x, r) (!((x) < (r)[0]) && !((x) > (r)[1]))
static int rf_names(const oi_filter_spec *p, const char *a, const char *i, const char *c)
{
  return g_pattern_match_simple(p->arrname, a) && (!i || g_pattern_match_simple(p->insname, i)) &&
         (!c || g_pattern_match_simple(p->corrname, c));
}
static int rf_rec(const oi_filter_spec *p, int tid, double mjd) { return (p->target_id < 0 || tid == p->target_id) && INR(mjd, p->mjd_range); }
static int rf_snr(const oi_filter_spec *p, double x, double e) { float s = x / e; return INR(s, p->snr_range); }
static int rf_wave(const oi_filter_spec *p, const oi_wavelength *w, int j) { return INR(w->eff_wave[j], p->wave_range); }
static int rf_uv1(const oi_filter_spec *p, double u, double v, double w) { double x = hypo(u, v) / w; return INR(x, p->uvrad_range); }
static int rf_bas1(const oi_filter_spec *p, double u, double v) { double x = hypo(u, v); return INR(x, p->bas_range); }
static int rf_bas_vis(const oi_filter_spec *p, const oi_vis_record *r) { return rf_bas1(p, r->ucoord, r->vcoord); }
static int rf_bas_vis2(const oi_filter_spec *p, const oi_vis2_record *r) { return rf_bas1(p, r->ucoord, r->vcoord); }
static int rf_bas_t3(const oi_filter_spec *p, const oi_t3_record *r)
{
  return rf_bas1(p, r->u1coord, r->v1coord) && rf_bas1(p, r->u2coord, r->v2coord) && rf_bas1(p, r->u1coord + r->u2coord, r->v1coord + r->v2coord);
}
static int rf_bas_flux(const oi_filter_spec *p, const oi_flux_record *r) { return 1; }
static int rf_uv_vis(const oi_filter_spec *p, const oi_vis_record *r, double w) { return rf_uv1(p, r->ucoord, r->vcoord, w); }
static int rf_uv_vis2(const oi_filter_spec *p, const oi_vis2_record *r, double w) { return rf_uv1(p, r->ucoord, r->vcoord, w); }
static int rf_uv_t3(const oi_filter_spec *p, const oi_t3_record *r, double w)
{
  return rf_uv1(p, r->u1coord, r->v1coord, w) && rf_uv1(p, r->u2coord, r->v2coord, w) && rf_uv1(p, r->u1coord + r->u2coord, r->v1coord + r->v2coord, w);
}
static int rf_uv_flux(const oi_filter_spec *p, const oi_flux_record *r, double w) { return 1; }
