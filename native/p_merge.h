/* Merging 1..3 datasets: every table of every input is in the output, in order,
 * with its references still leading to the same things. */
#define NTH(l, k) g_list_nth_data(l, k)
static const target *mtarg(const oi_fits *f, int id)
{
  int i;
  for (i = 0; i < f->targets.ntarget; i++) if (f->targets.targ[i].target_id == id) return &f->targets.targ[i];
  return NULL;
}
#define MF(LIST, T, key, fn) static const T *fn(const oi_fits *f, const char *s) \
  { GList *l; for (l = f->LIST; l; l = l->next) if (!strcmp(((T *)l->data)->key, s)) return l->data; return NULL; }
MF(arrayList, oi_array, arrname, marr) MF(wavelengthList, oi_wavelength, insname, mwav) MF(corrList, oi_corr, corrname, mcor)
static int close_(double a, double b) { return fabs(a - b) <= 1e-10; }
static char *sub_array(const oi_array *a, const oi_array *b)
{
  int i, j;
  if (!close_(a->arrayx, b->arrayx) || !close_(a->arrayy, b->arrayy) || !close_(a->arrayz, b->arrayz)) return W("array centre moved");
  for (i = 0; i < a->nelement; i++)
  {
    const element *p = &a->elem[i], *q = NULL;
    for (j = 0; j < b->nelement && !q; j++) if (b->elem[j].sta_index == p->sta_index) q = &b->elem[j];
    if (!q) return W("station %d lost", p->sta_index);
    if (!close_(p->staxyz[0], q->staxyz[0]) || !close_(p->staxyz[1], q->staxyz[1]) || !close_(p->staxyz[2], q->staxyz[2]) || fabs(p->diameter - q->diameter) > 1e-3)
      return W("station %d is another one now", p->sta_index);
  }
  return NULL;
}
static char *same_wave(const oi_wavelength *a, const oi_wavelength *b)
{
  int i;
  if (a->nwave != b->nwave) return W("number of channels changed");
  for (i = 0; i < a->nwave; i++)
    if (!close_(a->eff_wave[i], b->eff_wave[i]) || !close_(a->eff_band[i], b->eff_band[i])) return W("channel %d changed", i);
  return NULL;
}
static char *same_targ(const oi_fits *a, int ia, const oi_fits *b, int ib)
{
  const target *p = mtarg(a, ia), *q = mtarg(b, ib);
  if (!p || !q) return W("target does not resolve");
  if (strcmp(p->target, q->target)) return W("target %s became %s", p->target, q->target);
  return NULL;
}
static char *xref(const oi_fits *a, const char *arr, const char *ins, const char *cor, const oi_fits *b, const char *arr2, const char *ins2, const char *cor2)
{
  const oi_corr *c1, *c2;
  char *r;
  if (!arr[0] != !arr2[0] || !cor[0] != !cor2[0]) return W("reference dropped or invented");
  if (arr[0] && (!marr(b, arr2) || (r = sub_array(marr(a, arr), marr(b, arr2))))) return marr(b, arr2) ? r : W("ARRNAME %s does not resolve", arr2);
  if (ins && (!mwav(b, ins2) || (r = same_wave(mwav(a, ins), mwav(b, ins2))))) return mwav(b, ins2) ? r : W("INSNAME %s does not resolve", ins2);
  if (cor[0])
  {
    oi_corr t;
    if (!(c2 = mcor(b, cor2))) return W("CORRNAME %s does not resolve", cor2);
    t = *mcor(a, cor);
    strcpy(t.corrname, cor2);
    if ((r = c_corr(&t, c2))) return r;
  }
  return NULL;
}
#define MDATA(LIST, T, K, NUM, UP)                                                                           \
  {                                                                                                          \
    GList *m = g.LIST;                                                                                       \
    REQ((int)g_list_length(g.LIST) == g.NUM, #NUM " is wrong");                                              \
    for (k = 0; k < n; k++)                                                                                  \
      for (l = in[k].LIST; l; l = l->next)                                                                   \
      {                                                                                                      \
        T *a = l->data, *e = x_##K(a), *b;                                                                   \
        REQ(m, #LIST ": a table was lost");                                                                  \
        b = m->data; m = m->next;                                                                            \
        UP                                                                                                   \
        strcpy(e->arrname, b->arrname);                                                                      \
        for (i = 0; i < e->numrec && i < b->numrec; i++)                                                     \
        {                                                                                                    \
          OK(same_targ(&in[k], e->record[i].target_id, &g, b->record[i].target_id));                         \
          e->record[i].target_id = b->record[i].target_id;                                                   \
        }                                                                                                    \
        OK(c_##K(e, b));                                                                                     \
        gf_##K(e); free(e);                                                                                  \
      }                                                                                                      \
    REQ(!m, #LIST ": too many tables");                                                                      \
  }
#define MX OK(xref(&in[k], a->arrname, a->insname, a->corrname, &g, b->arrname, b->insname, b->corrname)); strcpy(e->insname, b->insname); strcpy(e->corrname, b->corrname);
static void m_header(oi_fits *in, int n, const oi_fits *g)
{
  size_t off[] = {offsetof(oi_header, origin), offsetof(oi_header, telescop), offsetof(oi_header, instrume), offsetof(oi_header, observer),
                  offsetof(oi_header, insmode), offsetof(oi_header, object), offsetof(oi_header, referenc), offsetof(oi_header, author),
                  offsetof(oi_header, prog_id), offsetof(oi_header, procsoft), offsetof(oi_header, obstech)};
  int i, k;
  char e[FLEN_VALUE], best[FLEN_VALUE] = "";
  for (i = 0; i < 11; i++)
  {
    const char *o = (const char *)&g->header + off[i];
    e[0] = 0;
    for (k = 0; k < n; k++)
    {
      const char *v = (const char *)&in[k].header + off[i];
      if (!v[0]) continue;
      if (!e[0]) strcpy(e, v);
      else if (strcmp(e, v)) { strcpy(e, "MULTIPLE"); break; }
    }
    if (!e[0] && i < 6) strcpy(e, "UNKNOWN");
    REQ(!strcmp(e, o), "header keyword %d: expected \"%s\", found \"%s\"", i, e, o);
  }
  for (k = 0; k < n; k++)
  {
    const char *v = in[k].header.date_obs;
    if (v[0] != '2') continue;
    if (!best[0] || strncmp(v, best, 10) < 0) { strncpy(best, v, 10); best[10] = 0; }
  }
  if (best[0]) REQ(!strcmp(best, g->header.date_obs), "DATE-OBS: expected %s, found %s", best, g->header.date_obs);
  REQ(!strcmp(g->header.content, "OIFITS2"), "CONTENT is %s", g->header.content);
}
static void m_target(oi_fits *in, int n, const oi_fits *g)
{
  int i, k, j, q = 0, cat = 0;
  for (k = 0; k < n; k++)
    for (i = 0; i < in[k].targets.ntarget; i++)
    {
      const target *t = &in[k].targets.targ[i];
      for (j = 0; j < q && strcmp(g->targets.targ[j].target, t->target); j++) ;
      if (j < q) continue;
      REQ(q < g->targets.ntarget, "target %s lost", t->target);
      OK(c_targ(t, &g->targets.targ[q], 0));
      REQ(g->targets.targ[q].target_id == q + 1, "TARGET_ID of new target %d is %d", q, g->targets.targ[q].target_id);
      if (in[k].targets.usecategory) cat = 1;
      REQ(!strcmp(in[k].targets.usecategory ? t->category : "", g->targets.usecategory ? g->targets.targ[q].category : ""), "category of %s", t->target);
      q++;
    }
  REQ(q == g->targets.ntarget, "%d targets instead of %d", g->targets.ntarget, q);
  REQ(!cat == !g->targets.usecategory, "usecategory");
  REQ(g->targets.revision == 2, "revision of targets");
}
#define MNAMES(LIST, T, key, HASH, NUM, LK)                                                                  \
  REQ((int)g_list_length(g.LIST) == g.NUM, #NUM " is wrong");                                                \
  for (l = g.LIST; l; l = l->next)                                                                           \
  {                                                                                                          \
    GList *m;                                                                                                \
    for (m = l->next; m; m = m->next) REQ(strcmp(((T *)l->data)->key, ((T *)m->data)->key), "two tables named %s", ((T *)l->data)->key); \
    REQ(LK(&g, ((T *)l->data)->key) == l->data, "table %s is not found by name", ((T *)l->data)->key);        \
  }                                                                                                          \
  REQ((int)g_hash_table_size(g.HASH) == g.NUM, "stale names registered in " #HASH);
static void p_merge(void)
{
  gopt o = GOPT;
  oi_fits in[3], *orig[3], g, *copy;
  int n = ri(1, 3), k, i;
  GList *l, *list = NULL;
  o.shared = 50; o.suffix = 25; o.maxtab = 2; o.maxrec = 2; o.maxchan = 2; o.maxinspol = 1;
  o.maxtarg = chance(2) ? 80 : 3;
  for (k = 0; k < n; k++)
  {
    o.tag = k + 1;
    g_file(&o, &in[k]);
    /* sometimes the same array or instrument in several datasets, maybe under another name */
    if (k && chance(50) && in[k].numArray && in[0].numArray)
    {
      oi_array *a = in[k].arrayList->data, *b = in[0].arrayList->data;
      element *e = xdup(b->elem, b->nelement * sizeof(element));
      free(a->elem);
      a->elem = e; a->nelement = b->nelement; a->arrayx = b->arrayx; a->arrayy = b->arrayy; a->arrayz = b->arrayz;
      if (chance(30)) a->elem[ri(0, a->nelement - 1)].staxyz[ri(0, 2)] += 1;
      else if (chance(20)) a->elem[ri(0, a->nelement - 1)].diameter += 1;
      else if (chance(20)) a->arrayz += 1;
      else if (chance(30) && a->nelement > 1) a->nelement--;
    }
    orig[k] = x_file(&in[k]);
    list = g_list_append(list, &in[k]);
  }
  memset(&g, 0xA5, sizeof g);
  if (n == 2 && chance(50)) merge_oi_fits(&g, &in[0], &in[1], NULL);
  else if (n == 3 && chance(50)) merge_oi_fits(&g, &in[0], &in[1], &in[2], NULL);
  else merge_oi_fits_list(list, &g);
  for (k = 0; k < n; k++) OK(c_file(orig[k], &in[k]));
  m_header(in, n, &g);
  m_target(in, n, &g);
  MNAMES(arrayList, oi_array, arrname, arrayHash, numArray, oi_fits_lookup_array)
  MNAMES(wavelengthList, oi_wavelength, insname, wavelengthHash, numWavelength, oi_fits_lookup_wavelength)
  MNAMES(corrList, oi_corr, corrname, corrHash, numCorr, oi_fits_lookup_corr)
  MDATA(visList, oi_vis, vis, numVis, MX upgrade_oi_vis(e);)
  MDATA(vis2List, oi_vis2, vis2, numVis2, MX upgrade_oi_vis2(e);)
  MDATA(t3List, oi_t3, t3, numT3, MX upgrade_oi_t3(e);)
  MDATA(fluxList, oi_flux, flux, numFlux, MX)
  MDATA(inspolList, oi_inspol, inspol, numInspol,
    OK(xref(&in[k], a->arrname, NULL, "", &g, b->arrname, NULL, ""));
    for (i = 0; i < e->numrec; i++) { OK(xref(&in[k], "", a->record[i].insname, "", &g, "", b->record[i].insname, "")); strcpy(e->record[i].insname, b->record[i].insname); })
  /* every array and instrument of every input is there, whether referenced or not */
  for (k = 0; k < n; k++)
  {
    for (l = in[k].arrayList; l; l = l->next)
    {
      GList *m;
      for (m = g.arrayList; m && sub_array(l->data, m->data); m = m->next) ;
      REQ(m, "array %s lost", ((oi_array *)l->data)->arrname);
    }
    for (l = in[k].wavelengthList; l; l = l->next)
    {
      GList *m;
      for (m = g.wavelengthList; m && same_wave(l->data, m->data); m = m->next) ;
      REQ(m, "instrument %s lost", ((oi_wavelength *)l->data)->insname);
    }
  }
  /* no storage shared with the inputs */
  copy = x_file(&g);
  for (k = 0; k < n; k++) { gfree(&in[k], 1); memset(&in[k], 0xA5, sizeof in[k]); }
  OK(c_file(copy, &g));
  free_oi_fits(&g);
  gfree(copy, 0); free(copy);
  for (k = 0; k < n; k++) { gfree(orig[k], 0); free(orig[k]); }
  g_list_free(list);
}
