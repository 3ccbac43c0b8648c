/* Conformity checker: level, number of breaches and where they are, against an
 * independent reading of what each check is documented to look for. */
static char exloc[4000][96];
static int exn, exlevel;
static void ex(int level, const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(exloc[exn++], 96, fmt, ap);
  va_end(ap);
  if (level > exlevel) exlevel = level;
}
static void cmp_check(const char *name, check_func fn, const oi_fits *f)
{
  oi_check_result r;
  oi_breach_level lv;
  char seen[4000] = {0};
  int i, k, n;
  memset(&r, 0xA5, sizeof r);
  lv = fn(f, &r);
  REQ((int)lv == exlevel, "%s: level %d, expected %d (%s)", name, lv, exlevel, exn ? exloc[0] : "");
  REQ((int)r.level == exlevel, "%s: recorded level %d, expected %d", name, r.level, exlevel);
  REQ(r.numBreach == exn, "%s: %d breaches, expected %d", name, r.numBreach, exn);
  REQ(!exn == !r.description, "%s: description", name);
  n = exn < MAX_REPORT ? exn : MAX_REPORT - 1;
  for (i = 0; i < n; i++)
  {
    REQ(r.location[i], "%s: location %d missing", name, i);
    for (k = 0; k < exn && (seen[k] || strncmp(r.location[i], exloc[k], strlen(exloc[k]))
         || (r.location[i][strlen(exloc[k])] && r.location[i][strlen(exloc[k])] != ' ')); k++) ;
    REQ(k < exn, "%s: reports \"%s\"", name, r.location[i]);
    seen[k] = 1;
  }
  if (exn == 0) REQ(!format_check_result(&r), "%s: text for no error", name);
  else
  {
    char *s = format_check_result(&r), b[64];
    snprintf(b, 64, "%d occurrences", exn);
    REQ(s && strstr(s, b) && strstr(s, oi_breach_level_desc[exlevel]) && strstr(s, r.description), "%s: formatted text", name);
    for (i = 0; i < n; i++) REQ(strstr(s, r.location[i]), "%s: location %d not in the text", name, i);
  }
  free_check_result(&r);
  exn = exlevel = 0;
}
#define EACH(LIST, T) for (l = f->LIST, k = 1; l; l = l->next, k++) { const T *t = l->data; (void)t;
#define DATA4(A) EACH(visList, oi_vis) const char *N = "OI_VIS"; A } EACH(vis2List, oi_vis2) const char *N = "OI_VIS2"; A } \
  EACH(t3List, oi_t3) const char *N = "OI_T3"; A } EACH(fluxList, oi_flux) const char *N = "OI_FLUX"; A }
static int has_elem(const oi_fits *f, const char *arr, int s)
{
  const oi_array *a = marr(f, arr);
  int i;
  for (i = 0; a && i < a->nelement; i++) if (a->elem[i].sta_index == s) return 1;
  return 0;
}
static void mutate(oi_fits *f)
{
  GList *l;
  int k, i, j;
  char *h[] = {f->header.origin, f->header.date, f->header.date_obs, f->header.telescop, f->header.instrume, f->header.observer,
    f->header.insmode, f->header.object};
  strcpy(f->header.content, chance(60) ? "OIFITS2" : chance(50) ? "" : "OIFITS22");
  if (chance(70)) for (i = 0; i < 8; i++) if (!h[i][0]) strcpy(h[i], "x");
  int pm = chance(50) ? 0 : chance(50) ? 8 : 60;  /* how broken */
  int rev = !strcmp(f->header.content, "OIFITS2") ? 2 : 1;
  f->targets.revision = chance(pm) ? ri(1, 3) : rev;
#define REV(LIST, T, R) EACH(LIST, T) ((T *)t)->revision = chance(pm) ? ri(0, 3) : (R); }
  REV(arrayList, oi_array, rev) REV(wavelengthList, oi_wavelength, rev) REV(visList, oi_vis, rev) REV(vis2List, oi_vis2, rev) REV(t3List, oi_t3, rev)
  REV(fluxList, oi_flux, 1) REV(corrList, oi_corr, 1) REV(inspolList, oi_inspol, 1)
  EACH(arrayList, oi_array) if (chance(pm)) strcpy(((oi_array *)t)->frame, chance(50) ? "" : "SKYX"); }
  EACH(visList, oi_vis) oi_vis *v = (oi_vis *)t;
    strcpy(v->amptyp, chance(pm) ? "bogus" : chance(30) ? "" : chance(50) ? "absolute" : chance(50) ? "differential" : "correlated flux");
    strcpy(v->phityp, chance(pm) ? "correlated flux" : chance(30) ? "" : chance(50) ? "absolute" : "differential"); }
  EACH(fluxList, oi_flux) oi_flux *v = (oi_flux *)t; int u;
    if (chance(pm)) v->calstat = chance(50) ? 'X' : 'u';
    u = v->calstat == 'U';
    strcpy(v->fovtype, chance(pm) ? "fwhm" : u && chance(100 - pm) ? "" : chance(50) ? "FWHM" : "RADIUS");
    if (chance(pm)) continue;
    if (!u) { v->arrname[0] = 0; for (i = 0; i < v->numrec; i++) v->record[i].sta_index = -1; }
    else if (!v->arrname[0] && f->numArray) { strcpy(v->arrname, ((oi_array *)f->arrayList->data)->arrname); for (i = 0; i < v->numrec; i++) gsta(f, v->arrname, &v->record[i].sta_index, 1); } }
  if (f->targets.ntarget > 1 && chance(pm)) strcpy(f->targets.targ[ri(0, f->targets.ntarget - 1)].target, f->targets.targ[0].target);
  DATA4(
    if (chance(pm)) strcpy((char *)t->corrname, "NOCORR");
    if (chance(pm / 2)) ((char *)t->arrname)[0] = 0;
    if (chance(pm / 2)) strcpy((char *)t->arrname, "NOARR");
    for (i = 0; i < t->numrec; i++) if (chance(pm)) t->record[i].target_id = ri(0, 5);)
#define STA(LIST, T, n) EACH(LIST, T) for (i = 0; i < t->numrec; i++) for (j = 0; j < n; j++) if (chance(pm)) t->record[i].sta_index[j] = ri(0, 13); }
  STA(visList, oi_vis, 2) STA(vis2List, oi_vis2, 2) STA(t3List, oi_t3, 3)
  EACH(inspolList, oi_inspol) for (i = 0; i < t->numrec; i++) if (chance(pm)) t->record[i].sta_index = ri(0, 13);
    if (chance(pm / 2)) ((char *)t->arrname)[0] = 0; }
#define TM(LIST, T) EACH(LIST, T) for (i = 0; i < t->numrec; i++) if (!chance(pm)) t->record[i].time = chance(80) ? 0. : 1e-11; else t->record[i].time = chance(50) ? -1e-9 : 5.; }
  TM(visList, oi_vis) TM(vis2List, oi_vis2) TM(t3List, oi_t3)
#define EB(P, PM) for (i = 0; i < t->numrec; i++) for (j = 0; j < t->nwave; j++) { double *p = &t->record[i].P[j]; if (chance(PM)) *p = chance(50) ? -1e-300 : -3.; else *p = chance(10) ? 0. : chance(10) ? NAN : fabs(*p); }
  EACH(visList, oi_vis) EB(visamperr, pm) EB(visphierr, pm) } EACH(vis2List, oi_vis2) EB(vis2err, pm) }
  EACH(t3List, oi_t3) EB(t3amperr, pm) EB(t3phierr, pm)
    for (i = 0; i < t->numrec; i++) for (j = 0; j < t->nwave; j++) if (!chance(pm)) t->record[i].t3amp[j] = chance(50) ? 1.0 + t->record[i].t3amperr[j] : 0.5; }
  EACH(wavelengthList, oi_wavelength)
    if (!chance(pm)) for (i = 0; i < t->nwave; i++) t->eff_wave[i] = (float)((10 + i / 2) * 1e-7);
    else if (chance(50)) t->eff_wave[ri(0, t->nwave - 1)] = (float)(ri(8, 14) * 1e-7); }
}
static void p_check(void)
{
  gopt o = GOPT;
  oi_fits F, *f = &F, *orig;
  GList *l;
  int k, i, j, two;
  o.maxtab = chance(20) ? 1 : 3; o.maxrec = chance(20) ? 8 : 3; o.maxwave = 2; o.maxcorr = 1;
  if (chance(8)) o.maxtab = 0;
  if (chance(8)) o.maxarr = 0;
  g_file(&o, f);
  mutate(f);
  if (o.maxtab == 0 && chance(50))
  { /* no OI_WAVELENGTH either */
    g_hash_table_remove_all(f->wavelengthHash);
    for (l = f->wavelengthList; l; l = l->next) { gf_wave(l->data); free(l->data); }
    g_list_free(f->wavelengthList); f->wavelengthList = NULL; f->numWavelength = 0;
  }
  orig = x_file(f);
  two = !strcmp(f->header.content, "OIFITS2");

  if (two && !f->numArray) ex(2, "No OI_ARRAY table");
  if (!f->numWavelength) ex(2, "No OI_WAVELENGTH table");
  if (!f->numVis && !f->numVis2 && !f->numT3 && (!two || !f->numFlux)) ex(2, "No data table");
  if (f->targets.revision != (two ? 2 : 1)) ex(2, "OI_TARGET");
#define XR(LIST, T, NM, R) EACH(LIST, T) if (t->revision != (R)) ex(2, NM " #%d", k); }
  XR(arrayList, oi_array, "OI_ARRAY", two + 1) XR(wavelengthList, oi_wavelength, "OI_WAVELENGTH", two + 1) XR(visList, oi_vis, "OI_VIS", two + 1)
  XR(vis2List, oi_vis2, "OI_VIS2", two + 1) XR(t3List, oi_t3, "OI_T3", two + 1)
  if (two) { XR(fluxList, oi_flux, "OI_FLUX", 1) XR(corrList, oi_corr, "OI_CORR", 1) XR(inspolList, oi_inspol, "OI_INSPOL", 1) }
  cmp_check("check_tables", check_tables, f);

  if (two)
  {
    struct { const char *k, *v; } h[] = {{"ORIGIN", f->header.origin}, {"DATE", f->header.date}, {"DATE-OBS", f->header.date_obs},
      {"TELESCOP", f->header.telescop}, {"INSTRUME", f->header.instrume}, {"OBSERVER", f->header.observer},
      {"INSMODE", f->header.insmode}, {"OBJECT", f->header.object}};
    for (i = 0; i < 8; i++) if (!h[i].v[0]) ex(2, "%s value missing", h[i].k);
  }
  cmp_check("check_header", check_header, f);

  EACH(arrayList, oi_array) if (strcmp(t->frame, "GEOCENTRIC") && strcmp(t->frame, "SKY")) ex(2, "OI_ARRAY #%d", k); }
  EACH(visList, oi_vis)
    if (two && t->amptyp[0] && strcmp(t->amptyp, "absolute") && strcmp(t->amptyp, "differential") && strcmp(t->amptyp, "correlated flux")) ex(2, "OI_VIS #%d AMPTYP", k);
    if (two && t->phityp[0] && strcmp(t->phityp, "absolute") && strcmp(t->phityp, "differential")) ex(2, "OI_VIS #%d PHITYP", k); }
  for (i = 0; i < exn; i++) { char *p = strstr(exloc[i], " AMPTYP"); if (!p) p = strstr(exloc[i], " PHITYP"); if (p) *p = 0; }
  EACH(fluxList, oi_flux)
    if (t->calstat != 'C' && t->calstat != 'U') ex(2, "OI_FLUX #%d", k);
    if (t->fovtype[0] && strcmp(t->fovtype, "FWHM") && strcmp(t->fovtype, "RADIUS")) ex(2, "OI_FLUX #%d", k); }
  cmp_check("check_keywords", check_keywords, f);

  EACH(visList, oi_vis)
    int diff = !strcmp(t->amptyp, "differential") || !strcmp(t->phityp, "differential");
    if (diff && !t->usevisrefmap) ex(2, "OI_VIS #%d", k);
    if (!diff && t->usevisrefmap) ex(1, "OI_VIS #%d", k); }
  cmp_check("check_visrefmap", check_visrefmap, f);

  for (i = 0; i < f->targets.ntarget; i++)
    for (j = 0; j < i; j++) if (!strcmp(f->targets.targ[i].target, f->targets.targ[j].target)) { ex(1, "TARGET_ID=%d", f->targets.targ[i].target_id); break; }
  cmp_check("check_unique_targets", check_unique_targets, f);

  DATA4(for (i = 0; i < t->numrec; i++) if (!mtarg(f, t->record[i].target_id)) ex(2, "%s #%d record %d", N, k, i + 1);)
  cmp_check("check_targets_present", check_targets_present, f);

  if (two)
  {
    EACH(visList, oi_vis) if (!t->arrname[0]) ex(2, "OI_VIS #%d", k); }
    EACH(vis2List, oi_vis2) if (!t->arrname[0]) ex(2, "OI_VIS2 #%d", k); }
    EACH(t3List, oi_t3) if (!t->arrname[0]) ex(2, "OI_T3 #%d", k); }
    EACH(fluxList, oi_flux) if (!t->arrname[0] && t->calstat == 'U') ex(2, "OI_FLUX #%d", k); }
    EACH(inspolList, oi_inspol) if (!t->arrname[0]) ex(2, "OI_INSPOL #%d", k); }
  }
  cmp_check("check_arrname", check_arrname, f);

#define XE(LIST, T, NM, n) EACH(LIST, T) if (t->arrname[0]) for (i = 0; i < t->numrec; i++) for (j = 0; j < n; j++) \
    if (!has_elem(f, t->arrname, t->record[i].sta_index[j])) ex(2, NM " #%d record %d", k, i + 1); }
  XE(visList, oi_vis, "OI_VIS", 2) XE(vis2List, oi_vis2, "OI_VIS2", 2) XE(t3List, oi_t3, "OI_T3", 3)
  EACH(fluxList, oi_flux) if (t->arrname[0]) for (i = 0; i < t->numrec; i++)
    if (t->record[i].sta_index != -1 && !has_elem(f, t->arrname, t->record[i].sta_index)) ex(2, "OI_FLUX #%d record %d", k, i + 1); }
  EACH(inspolList, oi_inspol) if (!t->arrname[0]) ex(2, "OI_INSPOL #%d", k); else for (i = 0; i < t->numrec; i++)
    if (!has_elem(f, t->arrname, t->record[i].sta_index)) ex(2, "OI_INSPOL #%d record %d", k, i + 1); }
  cmp_check("check_elements_present", check_elements_present, f);

  DATA4(if (t->corrname[0] && !mcor(f, t->corrname)) ex(2, "%s #%d", N, k);)
  cmp_check("check_corr_present", check_corr_present, f);

#define XF(LIST, T, NM, COND) EACH(LIST, T) for (i = 0; i < t->numrec; i++) for (j = 0; j < t->nwave; j++) \
    if (!t->record[i].flag[j] && (COND)) ex(2, NM " #%d record %d channel %d", k, i + 1, j + 1); }
  XF(visList, oi_vis, "OI_VIS", t->record[i].visamperr[j] < 0 || t->record[i].visphierr[j] < 0)
  XF(vis2List, oi_vis2, "OI_VIS2", t->record[i].vis2err[j] < 0)
  XF(t3List, oi_t3, "OI_T3", t->record[i].t3amperr[j] < 0 || t->record[i].t3phierr[j] < 0)
  cmp_check("check_flagging", check_flagging, f);
  XF(t3List, oi_t3, "OI_T3", t->record[i].t3amp[j] - 1. > t->record[i].t3amperr[j])
  cmp_check("check_t3amp", check_t3amp, f);

  EACH(wavelengthList, oi_wavelength) for (i = 1; i < t->nwave; i++)
    if (t->eff_wave[i] < t->eff_wave[i - 1] || (i + 1 < t->nwave && t->eff_wave[i + 1] < t->eff_wave[i])) ex(1, "OI_WAVELENGTH INSNAME=%s channel %d", t->insname, i + 1); }
  cmp_check("check_waveorder", check_waveorder, f);

#define XT(LIST, T, NM) EACH(LIST, T) for (i = 0; i < t->numrec; i++) if (fabs(t->record[i].time) > 1e-10) ex(1, NM " #%d record %d", k, i + 1); }
  if (two) { XT(visList, oi_vis, "OI_VIS") XT(vis2List, oi_vis2, "OI_VIS2") XT(t3List, oi_t3, "OI_T3") }
  cmp_check("check_time", check_time, f);

  EACH(fluxList, oi_flux)
    if (t->calstat == 'C') { if (t->arrname[0]) ex(2, "OI_FLUX #%d", k); if (t->record[0].sta_index != -1) ex(2, "OI_FLUX #%d", k); }
    if (t->calstat == 'U') { if (!t->arrname[0]) ex(2, "OI_FLUX #%d", k); if (t->record[0].sta_index == -1) ex(2, "OI_FLUX #%d", k); if (t->fovtype[0]) ex(2, "OI_FLUX #%d", k); } }
  cmp_check("check_flux", check_flux, f);

  OK(c_file(orig, f));
  gfree(f, 1); gfree(orig, 0); free(orig);
}
