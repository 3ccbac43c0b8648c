/* Writing and reading back: single tables, headers, whole files. */
#include <fitsio.h>
#include <sys/stat.h>
static void g_opt_io(gopt *o) { *o = GOPT; o->iosafe = 1; o->maxchan = 6; o->maxtab = 3; o->emptytab = 0; }
/* what a table reads back as: current revision, TIME zero, absent columns unset */
static void nv_array(oi_array *t) { t->revision = OI_REVN_V2_ARRAY; }
static void nv_wavelength(oi_wavelength *t) { t->revision = OI_REVN_V2_WAVELENGTH; }
static void nv_corr(oi_corr *t) { t->revision = OI_REVN_V2_CORR; }
static void nv_inspol(oi_inspol *t) { t->revision = OI_REVN_V2_INSPOL; }
static void nv_target(oi_target *t) { t->revision = OI_REVN_V2_TARGET; }
static void nv_vis(oi_vis *t)
{
  int i;
  t->revision = OI_REVN_V2_VIS;
  if (!t->usecomplex) t->complexunit[0] = 0;
  if (strcmp(t->amptyp, "correlated flux")) t->ampunit[0] = 0;
  for (i = 0; i < t->numrec; i++)
  {
    oi_vis_record *r = &t->record[i];
    r->time = 0;
    if (!t->corrname[0]) r->corrindx_visamp = r->corrindx_visphi = -1;
    if (!t->corrname[0] || !t->usecomplex) r->corrindx_rvis = r->corrindx_ivis = -1;
  }
}
static void nv_vis2(oi_vis2 *t)
{
  int i;
  t->revision = OI_REVN_V2_VIS2;
  for (i = 0; i < t->numrec; i++) { t->record[i].time = 0; if (!t->corrname[0]) t->record[i].corrindx_vis2data = -1; }
}
static void nv_t3(oi_t3 *t)
{
  int i;
  t->revision = OI_REVN_V2_T3;
  for (i = 0; i < t->numrec; i++) { t->record[i].time = 0; if (!t->corrname[0]) t->record[i].corrindx_t3amp = t->record[i].corrindx_t3phi = -1; }
}
static void nv_flux(oi_flux *t)
{
  int i;
  t->revision = OI_REVN_V2_FLUX;
  if (!t->fovtype[0]) t->fov = 0;
  for (i = 0; i < t->numrec; i++)
  {
    if (!t->corrname[0]) t->record[i].corrindx_fluxdata = -1;
    if (!t->arrname[0]) t->record[i].sta_index = -1;
  }
}
static fitsfile *io_mem(void)
{
  fitsfile *p = NULL;
  int st = 0;
  REQ(!fits_create_file(&p, "mem://x", &st), "cannot create file in memory");
  return p;
}
static fitsfile *iof; static int iost;
/* noise: other tables before and after, so that the right one must be found */
#define TRIP(LIST, T, K, WR, RD)                                                     \
  for (l = f.LIST; l; l = l->next)                                                    \
  {                                                                                   \
    T *t = l->data, *ref = x_##K(t), *mid, got;                                       \
    memset(&got, 0xA5, sizeof got);                                                   \
    iof = io_mem(); iost = 0;                                                         \
    if (chance(30) && f.wavelengthList) write_oi_wavelength(iof, *(oi_wavelength *)f.wavelengthList->data, 9, &iost); \
    WR;                                                                               \
    REQ(!iost, "writing oi_%s failed: %d", #K, iost);                                 \
    mid = x_##K(t);                                                                   \
    { char *r_ = c_##K(ref, mid); if (r_) fails("write_oi_%s changed the table: %s", #K, r_); } \
    fits_movabs_hdu(iof, 1, NULL, &iost);                                             \
    if (!strcmp(#K, "wavelength")) { int n_; fits_get_num_hdus(iof, &n_, &iost); fits_movabs_hdu(iof, n_ - 1, NULL, &iost); } \
    RD;                                                                               \
    REQ(!iost, "reading oi_%s back failed: %d", #K, iost);                            \
    nv_##K(ref); nv_##K(&got);                                                        \
    { char *r_ = c_##K(ref, &got); if (r_) fails("oi_%s read back differs: %s", #K, r_); } \
    free_oi_##K(&got);                                                                \
    IOF_##K(ref); free(ref); IOF_##K(mid); free(mid);                                 \
    fits_close_file(iof, &iost);                                                      \
  }
#define IOF_array gf_array
#define IOF_wavelength gf_wave
#define IOF_corr gf_corr
#define IOF_inspol gf_inspol
#define IOF_vis gf_vis
#define IOF_vis2 gf_vis2
#define IOF_t3 gf_t3
#define IOF_flux gf_flux
static void io_quiet(void) { static int done; if (!done) { fflush(stdout); done = 1; } oi_hush_errors = 1; }
static void p_trip(void)
{
  gopt o;
  oi_fits f;
  GList *l;
  int i;
  io_quiet();
  g_opt_io(&o);
  g_file(&o, &f);
  { /* header */
    oi_header h = f.header, got;
    memset(&got, 0xA5, sizeof got);
    iof = io_mem(); iost = 0;
    write_oi_header(iof, h, &iost);
    REQ(!iost, "writing header failed");
    read_oi_header(iof, &got, &iost);
    REQ(!iost, "reading header failed");
    strcpy(h.content, "OIFITS2");
    REQ(strlen(got.date) >= 10, "DATE not written: %s", got.date);
    strcpy(h.date, got.date);
    { char *r_ = c_header(&h, &got); if (r_) fails("header read back differs: %s", r_); }
    fits_close_file(iof, &iost);
  }
  { /* targets */
    oi_target t = f.targets, got;
    memset(&got, 0xA5, sizeof got);
    iof = io_mem(); iost = 0;
    write_oi_target(iof, t, &iost);
    REQ(!iost, "writing oi_target failed");
    read_oi_target(iof, &got, &iost);
    REQ(!iost, "reading oi_target back failed");
    nv_target(&t);
    { char *r_ = c_target(&t, &got); if (r_) fails("oi_target read back differs: %s", r_); }
    free_oi_target(&got);
    fits_close_file(iof, &iost);
  }
  i = ri(0, 3);
  TRIP(arrayList, oi_array, array, write_oi_array(iof, *t, 1 + i, &iost), (i & 1) ? read_oi_array(iof, t->arrname, &got, &iost) : read_next_oi_array(iof, &got, &iost))
  TRIP(wavelengthList, oi_wavelength, wavelength, write_oi_wavelength(iof, *t, 1 + i, &iost), read_next_oi_wavelength(iof, &got, &iost))
  TRIP(corrList, oi_corr, corr, write_oi_corr(iof, *t, 1 + i, &iost), (i & 1) ? read_oi_corr(iof, t->corrname, &got, &iost) : read_next_oi_corr(iof, &got, &iost))
  TRIP(inspolList, oi_inspol, inspol, write_oi_inspol(iof, *t, 1 + i, &iost), read_next_oi_inspol(iof, &got, &iost))
  TRIP(visList, oi_vis, vis, write_oi_vis(iof, *t, 1 + i, &iost), read_next_oi_vis(iof, &got, &iost))
  TRIP(vis2List, oi_vis2, vis2, write_oi_vis2(iof, *t, 1 + i, &iost), read_next_oi_vis2(iof, &got, &iost))
  TRIP(t3List, oi_t3, t3, write_oi_t3(iof, *t, 1 + i, &iost), read_next_oi_t3(iof, &got, &iost))
  TRIP(fluxList, oi_flux, flux, write_oi_flux(iof, *t, 1 + i, &iost), read_next_oi_flux(iof, &got, &iost))
  gfree(&f, 1);
}
#define NVL(LIST, K) for (l = f->LIST; l; l = l->next) nv_##K(l->data);
static void nv_file(oi_fits *f)
{
  GList *l;
  nv_target(&f->targets);
  NVL(arrayList, array) NVL(wavelengthList, wavelength) NVL(corrList, corr) NVL(inspolList, inspol)
  NVL(visList, vis) NVL(vis2List, vis2) NVL(t3List, t3) NVL(fluxList, flux)
}
#define LKALL(LIST, T, K, name)                                                                            \
  for (l = got.LIST; l; l = l->next)                                                                       \
  {                                                                                                        \
    T *w = NULL; GList *m;                                                                                 \
    for (m = got.LIST; m && !w; m = m->next) if (!strcmp(((T *)m->data)->name, ((T *)l->data)->name)) w = m->data; \
    REQ(oi_fits_lookup_##K(&got, ((T *)l->data)->name) == w, "%s table \"%s\" not found by name after reading", #K, ((T *)l->data)->name); \
  }
static void p_file(void)
{
  gopt o;
  oi_fits f, got, *x;
  GList *l;
  int st = 0;
  char fn[64];
  io_quiet();
  g_opt_io(&o);
  g_file(&o, &f);
  x = x_file(&f);
  snprintf(fn, sizeof fn, "io-%d.fits", (int)getpid());
  unlink(fn);
  write_oi_fits(fn, f, &st);
  REQ(!st, "write_oi_fits failed: %d", st);
  { char *r_ = c_file(x, &f); if (r_) fails("write_oi_fits changed the dataset: %s", r_); }
  memset(&got, 0xA5, sizeof got);
  read_oi_fits(fn, &got, &st);
  REQ(!st, "read_oi_fits failed: %d", st);
  nv_file(x); nv_file(&got);
  strcpy(x->header.content, "OIFITS2");
  strcpy(x->header.date, got.header.date);
  { char *r_ = c_file(x, &got); if (r_) fails("file read back differs: %s", r_); }
  LKALL(arrayList, oi_array, array, arrname)
  LKALL(wavelengthList, oi_wavelength, wavelength, insname)
  LKALL(corrList, oi_corr, corr, corrname)
  free_oi_fits(&got);
  unlink(fn);
  gfree(x, 0); free(x);
  gfree(&f, 1);
}
/* error status: a call made with an error status set returns it and does nothing */
#define NOP(call, obj)                                                             \
  { unsigned char *c_ = xdup(&obj, sizeof obj); int s_; iost = 104; n0 = io_nhdu(iof, &pos0); \
    s_ = (call); REQ(s_ == 104 && iost == 104, "%s with status 104 gave %d/%d", #call, s_, iost); \
    REQ(!memcmp(c_, &obj, sizeof obj), "%s with an error status changed its argument", #call); \
    n1 = io_nhdu(iof, &pos1); REQ(n0 == n1 && pos0 == pos1, "%s with an error status changed the file", #call); free(c_); }
static int io_nhdu(fitsfile *f, int *pos) { int n = 0, s = 0; fits_get_num_hdus(f, &n, &s); fits_get_hdu_num(f, pos); return n; }
static void p_status(void)
{
  gopt o;
  oi_fits f, g;
  int n0, n1, pos0, pos1, st, e;
  oi_header h; oi_target t; oi_array a; oi_wavelength w; oi_corr c; oi_inspol ip; oi_vis v; oi_vis2 v2; oi_t3 t3; oi_flux fl;
  io_quiet();
  g_opt_io(&o);
  g_file(&o, &f);
  memset(&a, 0, sizeof a); memset(&c, 0, sizeof c); memset(&ip, 0, sizeof ip); memset(&v, 0, sizeof v); memset(&v2, 0, sizeof v2);
  memset(&t3, 0, sizeof t3); memset(&fl, 0, sizeof fl); memset(&g, 0x11, sizeof g);
  h = f.header; t = f.targets; w = *(oi_wavelength *)f.wavelengthList->data;
  iof = io_mem(); iost = 0;
  write_oi_target(iof, f.targets, &iost);
  write_oi_wavelength(iof, w, 1, &iost);
  fits_movabs_hdu(iof, 1, NULL, &iost);
  NOP(write_oi_header(iof, h, &iost), h) NOP(write_oi_target(iof, t, &iost), t) NOP(write_oi_array(iof, a, 1, &iost), a)
  NOP(write_oi_wavelength(iof, w, 1, &iost), w) NOP(write_oi_corr(iof, c, 1, &iost), c) NOP(write_oi_inspol(iof, ip, 1, &iost), ip)
  NOP(write_oi_vis(iof, v, 1, &iost), v) NOP(write_oi_vis2(iof, v2, 1, &iost), v2) NOP(write_oi_t3(iof, t3, 1, &iost), t3)
  NOP(write_oi_flux(iof, fl, 1, &iost), fl)
  NOP(read_oi_header(iof, &h, &iost), h) NOP(read_oi_target(iof, &t, &iost), t) NOP(read_oi_array(iof, "x", &a, &iost), a)
  NOP(read_next_oi_array(iof, &a, &iost), a) NOP(read_oi_wavelength(iof, w.insname, &w, &iost), w) NOP(read_next_oi_wavelength(iof, &w, &iost), w)
  NOP(read_oi_corr(iof, "x", &c, &iost), c) NOP(read_next_oi_corr(iof, &c, &iost), c) NOP(read_next_oi_inspol(iof, &ip, &iost), ip)
  NOP(read_next_oi_vis(iof, &v, &iost), v) NOP(read_next_oi_vis2(iof, &v2, &iost), v2) NOP(read_next_oi_t3(iof, &t3, &iost), t3)
  NOP(read_next_oi_flux(iof, &fl, &iost), fl)
  NOP(read_oi_fits("io-none.fits", &g, &iost), g)
  NOP(write_oi_fits("io-never.fits", f, &iost), f)
  REQ(access("io-never.fits", F_OK), "write_oi_fits with an error status created a file");
  /* failures are reported: absent tables, absent keywords, file that cannot be created or opened */
#define EXPECT(call, what) { iost = 0; e = (call); REQ(e && e == iost, "%s: %s not reported (%d/%d)", #call, what, e, iost); }
  fits_movabs_hdu(iof, 1, NULL, (iost = 0, &iost));
  EXPECT(read_next_oi_vis(iof, &v, &iost), "absent table") fits_movabs_hdu(iof, 1, NULL, (iost = 0, &iost));
  EXPECT(read_next_oi_t3(iof, &t3, &iost), "absent table") fits_movabs_hdu(iof, 1, NULL, (iost = 0, &iost));
  EXPECT(read_next_oi_flux(iof, &fl, &iost), "absent table") fits_movabs_hdu(iof, 1, NULL, (iost = 0, &iost));
  EXPECT(read_next_oi_vis2(iof, &v2, &iost), "absent table")
  EXPECT(read_oi_array(iof, "nowhere", &a, &iost), "absent table")
  EXPECT(read_oi_wavelength(iof, "nowhere", &w, &iost), "absent table")
  EXPECT(read_oi_corr(iof, "nowhere", &c, &iost), "absent table")
  EXPECT(read_oi_fits("io-none.fits", &g, &iost), "absent file")
  EXPECT(write_oi_fits("no-such-dir/x.fits", f, &iost), "uncreatable file")
  { /* a mandatory keyword or column is gone */
    int k = ri(0, 3);
    oi_wavelength w2;
    st = 0;
    fits_movabs_hdu(iof, 3, NULL, &st);
    if (k == 0) fits_delete_key(iof, "OI_REVN", &st);
    if (k == 1) fits_delete_key(iof, "INSNAME", &st);
    if (k == 2) fits_delete_col(iof, 1, &st);
    if (k == 3) fits_delete_col(iof, 2, &st);
    fits_movabs_hdu(iof, 1, NULL, &st);
    memset(&w2, 0, sizeof w2);
    EXPECT(read_next_oi_wavelength(iof, &w2, &iost), "missing mandatory item")
    if (w2.eff_wave) free(w2.eff_wave);
    if (w2.eff_band) free(w2.eff_band);
  }
  iost = 0;
  fits_close_file(iof, &iost);
  gfree(&f, 1);
}
