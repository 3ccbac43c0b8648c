/* Reference filter, written from the documented meaning of each criterion. */
#define RFLT(K, T, RT, LIST, ON, SNR, COPY, DATAFLAG)                                                      \
  static T *rt_##K(const oi_fits *f, const oi_filter_spec *p, const T *t)                                  \
  {                                                                                                        \
    const oi_wavelength *w = wof(f, t->insname);                                                           \
    int use[64], nu = 0, i, j, k;                                                                          \
    T *q;                                                                                                  \
    if (!(ON) || !rf_names(p, t->arrname, t->insname, t->corrname)) return NULL;                           \
    for (j = 0; j < t->nwave; j++) nu += use[j] = rf_wave(p, w, j);                                        \
    if (!nu) return NULL;                                                                                  \
    q = xdup(t, sizeof *t);                                                                                \
    q->record = malloc(t->numrec * sizeof(RT) + 1);                                                        \
    q->numrec = 0; q->nwave = nu;                                                                          \
    for (i = 0; i < t->numrec; i++)                                                                        \
    {                                                                                                      \
      const RT *r = &t->record[i];                                                                         \
      RT *s = &q->record[q->numrec];                                                                       \
      int fl[64], un = 0;                                                                                  \
      if (!rf_rec(p, r->target_id, r->mjd) || !rf_bas_##K(p, r)) continue;                                 \
      for (j = 0; j < t->nwave; j++)                                                                       \
      {                                                                                                    \
        fl[j] = r->flag[j];                                                                                \
        if (DATAFLAG && !fl[j] && !((SNR) && rf_uv_##K(p, r, w->eff_wave[j]))) fl[j] = 1;                  \
        if (use[j] && !fl[j]) un = 1;                                                                      \
      }                                                                                                    \
      if (DATAFLAG && !p->accept_flagged && !un) continue;                                                 \
      *s = *r;                                                                                             \
      if (p->target_id >= 0) s->target_id = 1;                                                             \
      s->flag = malloc(nu);                                                                                \
      for (j = k = 0; j < t->nwave; j++) if (use[j]) s->flag[k++] = fl[j];                                 \
      COPY                                                                                                 \
      q->numrec++;                                                                                         \
    }                                                                                                      \
    if (!q->numrec) { free(q->record); free(q); return NULL; }                                             \
    return q;                                                                                              \
  }
#define CP(F, E) { s->F = malloc(nu * sizeof(*s->F)); for (j = k = 0; j < t->nwave; j++) if (use[j]) s->F[k++] = (E); }
RFLT(vis, oi_vis, oi_vis_record, visList, p->accept_vis, rf_snr(p, r->visamp[j], r->visamperr[j]) && rf_snr(p, R2D, r->visphierr[j]),
  { CP(visamp, r->visamp[j]) CP(visamperr, r->visamperr[j]) CP(visphi, r->visphi[j]) CP(visphierr, r->visphierr[j])
    if (t->usecomplex) { CP(rvis, r->rvis[j]) CP(rviserr, r->rviserr[j]) CP(ivis, r->ivis[j]) CP(iviserr, r->iviserr[j]) }
    if (t->usevisrefmap) { int l; s->visrefmap = malloc(nu * nu); k = 0;
      for (j = 0; j < t->nwave; j++) for (l = 0; l < t->nwave; l++) if (use[j] && use[l]) s->visrefmap[k++] = r->visrefmap[l + j * t->nwave]; } }, 1)
RFLT(vis2, oi_vis2, oi_vis2_record, vis2List, p->accept_vis2, rf_snr(p, r->vis2data[j], r->vis2err[j]), { CP(vis2data, r->vis2data[j]) CP(vis2err, r->vis2err[j]) }, 1)
RFLT(t3, oi_t3, oi_t3_record, t3List, p->accept_t3amp || p->accept_t3phi,
  (!p->accept_t3amp || rf_snr(p, r->t3amp[j], r->t3amperr[j])) && (!p->accept_t3phi || rf_snr(p, R2D, r->t3phierr[j])),
  { CP(t3amp, p->accept_t3amp ? r->t3amp[j] : NAN) CP(t3amperr, r->t3amperr[j]) CP(t3phi, p->accept_t3phi ? r->t3phi[j] : NAN) CP(t3phierr, r->t3phierr[j]) }, 1)
RFLT(flux, oi_flux, oi_flux_record, fluxList, p->accept_flux, 1,
  { CP(fluxdata, rf_snr(p, r->fluxdata[j], r->fluxerr[j]) ? r->fluxdata[j] : NAN) CP(fluxerr, r->fluxerr[j]) }, 0)
static oi_inspol *rt_inspol(const oi_fits *f, const oi_filter_spec *p, const oi_inspol *t)
{
  oi_inspol *q;
  int i, j, k, nu = 0, use[64];
  if (!g_pattern_match_simple(p->arrname, t->arrname)) return NULL;
  q = xdup(t, sizeof *t);
  q->record = malloc(t->numrec * sizeof(*q->record) + 1);
  q->numrec = 0; q->nwave = 0;
  for (i = 0; i < t->numrec; i++)
  {
    const oi_inspol_record *r = &t->record[i];
    oi_inspol_record *s = &q->record[q->numrec];
    const oi_wavelength *w = wof(f, r->insname);
    if (p->target_id >= 0 && r->target_id != p->target_id) continue;
    if (!g_pattern_match_simple(p->insname, r->insname)) continue;
    if (r->mjd_end < p->mjd_range[0] || r->mjd_obs > p->mjd_range[1]) continue;
    for (nu = j = 0; j < t->nwave; j++) nu += use[j] = rf_wave(p, w, j);
    if (!nu || (q->numrec && nu != q->nwave)) continue; /* one table, one number of channels */
    *s = *r;
    if (p->target_id >= 0) s->target_id = 1;
    CP(jxx, r->jxx[j]) CP(jyy, r->jyy[j]) CP(jxy, r->jxy[j]) CP(jyx, r->jyx[j])
    q->numrec++; q->nwave = nu;
  }
  if (!q->numrec) { free(q->record); free(q); return NULL; }
  return q;
}
static int referenced(const oi_fits *g, int what, const char *s)
{
  GList *l;
#define RE(LIST, T) for (l = g->LIST; l; l = l->next) { const T *t = l->data; \
    if (!strcmp(s, what == 0 ? t->arrname : what == 1 ? t->insname : t->corrname) && (what == 1 || s[0])) return 1; }
  RE(visList, oi_vis) RE(vis2List, oi_vis2) RE(t3List, oi_t3) RE(fluxList, oi_flux)
  return 0;
}
#define RLIST(LIST, T, NUM, E) for (l = f->LIST; l; l = l->next) { const T *t = l->data; T *q; (void)t; if ((q = (E))) { g->LIST = g_list_append(g->LIST, q); g->NUM++; } }
static oi_wavelength *rt_wave(const oi_fits *g, const oi_filter_spec *p, const oi_wavelength *w)
{
  oi_wavelength *q;
  int j, n = 0;
  if (!g_pattern_match_simple(p->insname, w->insname) || !referenced(g, 1, w->insname)) return NULL;
  q = x_wavelength(w);
  for (j = 0; j < w->nwave; j++) if (rf_wave(p, w, j)) { q->eff_wave[n] = w->eff_wave[j]; q->eff_band[n++] = w->eff_band[j]; }
  q->nwave = n;
  return q;
}
static oi_fits *ref_filter(const oi_fits *f, const oi_filter_spec *p)
{
  oi_fits *g = calloc(1, sizeof *g);
  GList *l;
  int i;
  g->header = f->header;
  g->targets = f->targets;
  g->targets.targ = malloc(f->targets.ntarget * sizeof(target));
  g->targets.ntarget = 0;
  for (i = 0; i < f->targets.ntarget; i++)
    if (p->target_id < 0 || f->targets.targ[i].target_id == p->target_id)
    {
      target *t = &g->targets.targ[g->targets.ntarget++];
      *t = f->targets.targ[i];
      if (p->target_id >= 0) t->target_id = 1;
    }
  RLIST(visList, oi_vis, numVis, rt_vis(f, p, t)) RLIST(vis2List, oi_vis2, numVis2, rt_vis2(f, p, t))
  RLIST(t3List, oi_t3, numT3, rt_t3(f, p, t)) RLIST(fluxList, oi_flux, numFlux, rt_flux(f, p, t))
  RLIST(arrayList, oi_array, numArray, g_pattern_match_simple(p->arrname, t->arrname) && referenced(g, 0, t->arrname) ? x_array(t) : NULL)
  RLIST(corrList, oi_corr, numCorr, g_pattern_match_simple(p->corrname, t->corrname) && referenced(g, 2, t->corrname) ? x_corr(t) : NULL)
  RLIST(wavelengthList, oi_wavelength, numWavelength, rt_wave(g, p, t))
  RLIST(inspolList, oi_inspol, numInspol, referenced(g, 0, t->arrname) ? rt_inspol(f, p, t) : NULL)
  return g;
}
static void no_empty(const oi_fits *g)
{
  GList *l;
  int i;
#define NE(LIST, T) for (l = g->LIST; l; l = l->next) { const T *t = l->data; REQ(t->numrec > 0 && t->nwave > 0, "empty table in the output: " #LIST); }
  NE(visList, oi_vis) NE(vis2List, oi_vis2) NE(t3List, oi_t3) NE(fluxList, oi_flux) NE(inspolList, oi_inspol)
}
static void names_resolve(oi_fits *g)
{
  GList *l;
#define NR(LIST, T) for (l = g->LIST; l; l = l->next) { const T *t = l->data; REQ(oi_fits_lookup_wavelength(g, t->insname), "INSNAME %s does not resolve", t->insname); \
  REQ(oi_fits_lookup_wavelength(g, t->insname)->nwave == t->nwave, "channel count of %s differs from its wavelength table", t->insname); }
  NR(visList, oi_vis) NR(vis2List, oi_vis2) NR(t3List, oi_t3) NR(fluxList, oi_flux)
#define NH(LIST, T, key, HASH, lk) for (l = g->LIST; l; l = l->next) REQ(lk(g, ((T *)l->data)->key) == l->data, "table %s is not found by name", ((T *)l->data)->key); \
  REQ((int)g_hash_table_size(g->HASH) == (int)g_list_length(g->LIST), "stale names registered in " #HASH);
  NH(arrayList, oi_array, arrname, arrayHash, oi_fits_lookup_array) NH(wavelengthList, oi_wavelength, insname, wavelengthHash, oi_fits_lookup_wavelength)
  NH(corrList, oi_corr, corrname, corrHash, oi_fits_lookup_corr)
}
static void p_filter(void)
{
  gopt o = GOPT;
  oi_fits f, g, *ref, *orig, *copy;
  oi_filter_spec p, p0;
  static oi_fits keep;
  o.maxtab = 3; o.emptytab = 0; o.maxchan = 5;
  g_file(&o, &f);
  g_filter(&f, &p);
  p0 = p;
  orig = x_file(&f);
  ref = ref_filter(&f, &p);
  memset(&g, 0xA5, sizeof g);
  apply_oi_filter(&f, &p, &g);
  REQ(!memcmp(&p0, &p, sizeof p), "the filter itself was changed");
  OK(c_file(orig, &f));
  if (ref->targets.ntarget == 0 && g.targets.ntarget == 0) g.targets.targ = NULL, g.targets.usecategory = ref->targets.usecategory;
  OK(c_file(ref, &g));
  no_empty(&g);
  names_resolve(&g);
  copy = x_file(&g);
  gfree(&f, 1);
  memset(&f, 0xA5, sizeof f);
  OK(c_file(copy, &g));
  free_oi_fits(&g);
  gfree(ref, 0); free(ref); gfree(copy, 0); free(copy); gfree(orig, 0); free(orig);
}
