/* allocation and release (C09): write every byte of every array, read it back, free; leaks are found at exit */
static unsigned char *a_p[100000];
static size_t a_n[100000];
static int a_c;
static void a_reg(void *p, size_t n)
{
  REQ(p != NULL, "array missing after allocation");
  a_p[a_c] = p; a_n[a_c] = n;
  memset(p, 1 + a_c % 250, n);
  a_c++;
}
static void a_check(void)
{
  int i; size_t k;
  for (i = 0; i < a_c; i++)
    for (k = 0; k < a_n[i]; k++) REQ(a_p[i][k] == 1 + i % 250, "arrays overlap");
}
#define AR(f, n) do { void *v_ = (f); a_reg(v_, (n) * sizeof((f)[0])); } while (0)
#define AOPT(f, n) do { REQ((f) == NULL, "optional column " #f " present after allocation"); if (opt) (f) = malloc((n) * sizeof((f)[0])); } while (0)
#define ATAB(T, K, BODY) \
  { \
    T *t = malloc(sizeof(T)), sav; \
    int n = ri(1, 5), w = chance(15) ? 1 : ri(1, 9), opt = chance(50); long i; \
    memset(t, 0xA5, sizeof *t); a_c = 0; \
    BODY \
    sav = *t; \
    a_check(); \
    free_oi_##K(t); \
    free(t); \
  }
#define ADATA(T, K, BODY) ATAB(T, K, { \
    alloc_oi_##K(t, n, w); \
    REQ(t->numrec == n && t->nwave == w, "dimensions not recorded"); \
    { size_t k; unsigned char *q = (unsigned char *)t->record; for (i = 0; i < n; i++) { T##_record *r = &t->record[i]; BODY } (void)k; (void)q; } })
static void p_alloc(void)
{
  ATAB(oi_array, array, { alloc_oi_array(t, n); REQ(t->nelement == n, "nelement"); AR(t->elem, n); })
  ATAB(oi_target, target, { alloc_oi_target(t, n); REQ(t->ntarget == n, "ntarget"); AR(t->targ, n); })
  ATAB(oi_wavelength, wavelength, { alloc_oi_wavelength(t, n); REQ(t->nwave == n, "nwave"); AR(t->eff_wave, n); AR(t->eff_band, n); })
  ATAB(oi_corr, corr, { alloc_oi_corr(t, n); REQ(t->ncorr == n, "ncorr"); AR(t->iindx, n); AR(t->jindx, n); AR(t->corr, n); })
  ADATA(oi_inspol, inspol, { AR(r->jxx, w); AR(r->jyy, w); AR(r->jxy, w); AR(r->jyx, w); r->sta_index = 7; memset(r->insname, 'x', sizeof r->insname); })
  ADATA(oi_vis, vis, { if (i == 0) { REQ(!t->usevisrefmap && !t->usecomplex, "option flags set"); }
    AR(r->visamp, w); AR(r->visamperr, w); AR(r->visphi, w); AR(r->visphierr, w); AR(r->flag, w);
    AOPT(r->visrefmap, w * w); AOPT(r->rvis, w); AOPT(r->rviserr, w); AOPT(r->ivis, w); AOPT(r->iviserr, w);
    if (i == n - 1 && opt) { t->usevisrefmap = TRUE; t->usecomplex = TRUE; } r->sta_index[1] = 3; r->mjd = 4; })
  ADATA(oi_vis2, vis2, { AR(r->vis2data, w); AR(r->vis2err, w); AR(r->flag, w); r->mjd = 4; r->sta_index[1] = 3; })
  ADATA(oi_t3, t3, { AR(r->t3amp, w); AR(r->t3amperr, w); AR(r->t3phi, w); AR(r->t3phierr, w); AR(r->flag, w); r->mjd = 4; r->sta_index[2] = 3; })
  ADATA(oi_flux, flux, { AR(r->fluxdata, w); AR(r->fluxerr, w); AR(r->flag, w); r->mjd = 4; r->sta_index = 3; })
  {
    oi_fits *f = malloc(sizeof *f);
    memset(f, 0xA5, sizeof *f);
    init_oi_fits(f);
    REQ(!f->header.origin[0] && !f->header.date[0] && !f->header.date_obs[0] && !f->header.content[0] && !f->header.telescop[0] && !f->header.instrume[0]
        && !f->header.observer[0] && !f->header.insmode[0] && !f->header.object[0] && !f->header.referenc[0] && !f->header.author[0]
        && !f->header.prog_id[0] && !f->header.procsoft[0] && !f->header.obstech[0], "fresh dataset has header keywords");
    REQ(f->targets.ntarget == 0 && f->targets.targ == NULL && !f->targets.usecategory, "fresh dataset has targets");
    REQ(!f->numArray && !f->numWavelength && !f->numCorr && !f->numInspol && !f->numVis && !f->numVis2 && !f->numT3 && !f->numFlux, "fresh dataset has tables");
    REQ(!f->arrayList && !f->wavelengthList && !f->corrList && !f->inspolList && !f->visList && !f->vis2List && !f->t3List && !f->fluxList, "fresh dataset has lists");
    REQ(g_hash_table_size(f->arrayHash) == 0 && g_hash_table_size(f->wavelengthHash) == 0 && g_hash_table_size(f->corrHash) == 0, "fresh dataset has names");
    REQ(f->arrayHash != f->wavelengthHash && f->arrayHash != f->corrHash && f->corrHash != f->wavelengthHash, "hash tables shared");
    free_oi_fits(f);
    free(f);
  }
  {
    gopt o = GOPT;
    oi_fits f;
    o.maxchan = 5; o.emptytab = chance(30) ? 30 : 0;
    g_file(&o, &f);
    free_oi_fits(&f);
  }
}
