/* lookups, classification, counting, time span, upgrades */
static void p_lookup(void)
{
  gopt o = GOPT;
  oi_fits f, *g;
  GList *l;
  int i, k;
  char s[FLEN_VALUE];
  o.maxtarg = 6; o.maxarr = 3; o.maxwave = 3; o.maxcorr = 3;
  g_file(&o, &f);
  /* duplicate keys: the first must win */
  for (i = 1; i < f.targets.ntarget; i++) if (chance(30)) f.targets.targ[i].target_id = f.targets.targ[ri(0, i - 1)].target_id;
  for (i = 1; i < f.targets.ntarget; i++) if (chance(30)) strcpy(f.targets.targ[i].target, f.targets.targ[ri(0, i - 1)].target);
  for (l = f.arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    for (i = 1; i < a->nelement; i++) if (chance(30)) a->elem[i].sta_index = a->elem[ri(0, i - 1)].sta_index;
  }
  g = x_file(&f);
  for (l = f.arrayList; l; l = l->next)
  {
    oi_array *a = l->data;
    REQ(oi_fits_lookup_array(&f, a->arrname) == a, "lookup_array did not return the registered table");
    for (k = -1; k < 15; k++)
    {
      element *e = NULL;
      for (i = a->nelement - 1; i >= 0; i--) if (a->elem[i].sta_index == k) e = &a->elem[i];
      REQ(oi_fits_lookup_element(&f, a->arrname, k) == e, "lookup_element(%d) not the first match", k);
    }
  }
  REQ(oi_fits_lookup_element(&f, "no such array", 1) == NULL, "lookup_element in absent array");
  for (l = f.wavelengthList; l; l = l->next) REQ(oi_fits_lookup_wavelength(&f, ((oi_wavelength *)l->data)->insname) == l->data, "lookup_wavelength");
  for (l = f.corrList; l; l = l->next) REQ(oi_fits_lookup_corr(&f, ((oi_corr *)l->data)->corrname) == l->data, "lookup_corr");
  for (k = 0; k < 5; k++)
  {
    snprintf(s, sizeof s, "%s%s", k & 1 ? "" : "X", k & 2 ? "ARR" : "INS0_0 ");
    REQ(!oi_fits_lookup_array(&f, s) && !oi_fits_lookup_wavelength(&f, s) && !oi_fits_lookup_corr(&f, s), "lookup of absent name");
  }
  for (k = -1; k < 30; k++)
  {
    target *t = NULL;
    for (i = f.targets.ntarget - 1; i >= 0; i--) if (f.targets.targ[i].target_id == k) t = &f.targets.targ[i];
    REQ(oi_fits_lookup_target(&f, k) == t, "lookup_target(%d) not the first match", k);
  }
  for (k = 0; k <= f.targets.ntarget; k++)
  {
    target *t = NULL;
    snprintf(s, sizeof s, "%s", k < f.targets.ntarget ? f.targets.targ[k].target : "nobody");
    if (chance(20) && strlen(s) > 1) s[strlen(s) - 1] = 0;
    for (i = f.targets.ntarget - 1; i >= 0; i--) if (!strcmp(f.targets.targ[i].target, s)) t = &f.targets.targ[i];
    REQ(oi_fits_lookup_target_by_name(&f, s) == t, "lookup_target_by_name(%s) not the first match", s);
  }
  OK(c_file(g, &f));
  gfree(g, 0); free(g);
  gfree(&f, 1);
}
static void p_version(void)
{
  gopt o = GOPT;
  oi_fits f, *g;
  GList *l;
  int one, two, k = ri(0, 9);
  o.maxtab = 3;
  g_file(&o, &f);
#define SETREV(LIST, T, r) for (l = f.LIST; l; l = l->next) ((T *)l->data)->revision = (r);
  if (k < 8)
  {
    SETREV(arrayList, oi_array, 1) SETREV(wavelengthList, oi_wavelength, 1) SETREV(visList, oi_vis, 1) SETREV(vis2List, oi_vis2, 1) SETREV(t3List, oi_t3, 1)
    f.targets.revision = 1;
  }
#define PERT(LIST, T) if (f.LIST) ((T *)g_list_nth_data(f.LIST, ri(0, g_list_length(f.LIST) - 1)))->revision = 2;
  if (k == 1) PERT(arrayList, oi_array)
  if (k == 2) PERT(wavelengthList, oi_wavelength)
  if (k == 3) PERT(visList, oi_vis)
  if (k == 4) PERT(vis2List, oi_vis2)
  if (k == 5) PERT(t3List, oi_t3)
  if (k == 6) f.targets.revision = 2;
  if (chance(30)) strcpy(f.header.content, chance(70) ? "OIFITS2" : "OIFITS");
  g = x_file(&f);
  two = !strcmp(f.header.content, "OIFITS2");
  one = !two && f.targets.revision == 1;
#define ALL1(LIST, T) for (l = f.LIST; l; l = l->next) if (((T *)l->data)->revision != 1) one = 0;
  ALL1(arrayList, oi_array) ALL1(wavelengthList, oi_wavelength) ALL1(visList, oi_vis) ALL1(vis2List, oi_vis2) ALL1(t3List, oi_t3)
  REQ(!!is_oi_fits_two(&f) == two, "is_oi_fits_two: %d expected %d", is_oi_fits_two(&f), two);
  REQ(!!is_oi_fits_one(&f) == one, "is_oi_fits_one: %d expected %d", is_oi_fits_one(&f), one);
  OK(c_file(g, &f));
  /* upgrades: only the revision and TIME change */
#define UPG(LIST, T, K, REC) { GList *m; for (l = f.LIST, m = g->LIST; l; l = l->next, m = m->next) { T *a = m->data, *t = l->data; int i, old = a->revision; \
    (void)i; upgrade_oi_##K(t); REQ(t->revision == (old == 1 ? 2 : old), "upgrade_oi_" #K " revision"); a->revision = t->revision; REC OK(c_##K(a, t)); } }
#define UREC if (old == 1) for (i = 0; i < a->numrec; i++) a->record[i].time = 0.0;
  UPG(arrayList, oi_array, array,) UPG(wavelengthList, oi_wavelength, wavelength,)
  UPG(visList, oi_vis, vis, UREC) UPG(vis2List, oi_vis2, vis2, UREC) UPG(t3List, oi_t3, t3, UREC)
  { int old = f.targets.revision; upgrade_oi_target(&f.targets); g->targets.revision = old == 1 ? 2 : old; OK(c_target(&g->targets, &f.targets)); }
  gfree(g, 0); free(g);
  gfree(&f, 1);
}
static void p_count(void)
{
  gopt o = GOPT;
  oi_fits f;
  GList *l;
  long n[3] = {0, 0, 0}, r[3];
  int i, j, k, m;
  double mn = 100000, mx = 0, days;
  o.maxtab = 3; o.emptytab = 10;
  g_file(&o, &f);
  if (chance(70)) f.targets.ntarget = 1;
  if (chance(30)) { f.numArray = f.numArray > 1 ? 1 : f.numArray; f.numWavelength = 1; }
#define CNT(LIST, T, q) for (l = f.LIST; l; l = l->next) { T *t = l->data; for (i = 0; i < t->numrec; i++) { \
    if (t->record[i].mjd < mn) mn = t->record[i].mjd; if (t->record[i].mjd > mx) mx = t->record[i].mjd; \
    for (j = 0; j < t->nwave; j++) if ((q) < 3 && !t->record[i].flag[j]) ++n[q % 3]; } }
  CNT(visList, oi_vis, 0) CNT(vis2List, oi_vis2, 1) CNT(t3List, oi_t3, 2) CNT(fluxList, oi_flux, 3)
  m = chance(50) ? 7 : ri(0, 7);
  for (k = 0; k < 3; k++) r[k] = -5;
  count_oi_fits_data(&f, m & 1 ? &r[0] : NULL, m & 2 ? &r[1] : NULL, m & 4 ? &r[2] : NULL);
  for (k = 0; k < 3; k++) REQ(r[k] == (m & (1 << k) ? n[k] : -5), "count_oi_fits_data[%d] = %ld expected %ld", k, r[k], n[k]);
  days = chance(40) ? fabs(mx - mn) : ri(0, 36) / 4.0;
  k = f.numArray <= 1 && f.numWavelength == 1 && f.targets.ntarget == 1 && !(fabs(mx - mn) > days);
  REQ(!!is_atomic(&f, days) == k, "is_atomic: expected %d (span %g limit %g)", k, mx - mn, days);
  gfree(&f, 1);
}
