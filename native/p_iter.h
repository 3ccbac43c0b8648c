#define ITER1(K, T, RT, LIST, ON, SNR, ...)                                                            \
  {                                                                                                    \
    oi_##K##_iter it;                                                                                  \
    int extver, iwave, ev = 0, got, i, j;                                                              \
    long irec;                                                                                         \
    T *pt; RT *pr;                                                                                     \
    double ew;                                                                                         \
    oi_##K##_iter_init(&it, &f, pf);                                                                   \
    for (l = f.LIST; l; l = l->next)                                                                   \
    {                                                                                                  \
      T *t = l->data;                                                                                  \
      const oi_wavelength *w = wof(&f, t->insname);                                                    \
      ++ev;                                                                                            \
      for (i = 0; i < t->numrec; i++)                                                                  \
        for (j = 0; j < t->nwave; j++)                                                                 \
        {                                                                                              \
          RT *r = &t->record[i];                                                                       \
          if (!((ON) && rf_names(&p, t->arrname, t->insname, t->corrname) && rf_rec(&p, r->target_id, r->mjd) && \
                rf_bas_##K(&p, r) && rf_wave(&p, w, j) && (SNR) && rf_uv_##K(&p, r, w->eff_wave[j]) && \
                (!r->flag[j] || p.accept_flagged))) continue;                                          \
          extver = -9; iwave = -9; irec = -9; pt = NULL; pr = NULL;                                    \
          { int m = chance(20) ? ri(0, 31) : 31;                                                       \
          got = oi_##K##_iter_next(&it, m & 1 ? &extver : NULL, m & 2 ? &pt : NULL, m & 4 ? &irec : NULL, m & 8 ? &pr : NULL, m & 16 ? &iwave : NULL); \
          REQ(got, #K " iterator ended before table %d record %d channel %d", ev, i, j);               \
          REQ((!(m & 1) || extver == ev) && (!(m & 4) || irec == i) && (!(m & 16) || iwave == j), #K " iterator returned table %d record %ld channel %d, expected %d %d %d", extver, irec, iwave, ev, i, j); \
          REQ((!(m & 2) || pt == t) && (!(m & 8) || pr == r), #K " iterator returned wrong table or record pointer"); } \
          __VA_ARGS__                                                                                        \
        }                                                                                              \
    }                                                                                                  \
    for (i = 0; i < 2; i++)                                                                            \
    {                                                                                                  \
      got = oi_##K##_iter_next(&it, &extver, &pt, &irec, &pr, &iwave);                                 \
      REQ(!got, #K " iterator returned an extra point: table %d record %ld channel %d", extver, irec, iwave); \
    }                                                                                                  \
  }
#define UV2(K) { double u = 0, v = 0; oi_##K##_iter_get_uv(&it, &ew, &u, &v); \
  REQ(ew == w->eff_wave[j] && u == r->ucoord / ew && v == r->vcoord / ew, #K " get_uv wrong"); }
static void p_iter(void)
{
  gopt o = GOPT;
  oi_fits f;
  oi_filter_spec p, *pf = &p;
  GList *l;
  o.maxtab = 3;
  g_file(&o, &f);
  g_filter(&f, &p);
  if (chance(20)) { init_oi_filter(&p); pf = NULL; }
  ITER1(vis, oi_vis, oi_vis_record, visList, p.accept_vis, rf_snr(&p, r->visamp[j], r->visamperr[j]) && rf_snr(&p, R2D, r->visphierr[j]), UV2(vis))
  ITER1(vis2, oi_vis2, oi_vis2_record, vis2List, p.accept_vis2, rf_snr(&p, r->vis2data[j], r->vis2err[j]), UV2(vis2))
  ITER1(t3, oi_t3, oi_t3_record, t3List, p.accept_t3amp || p.accept_t3phi,
        (!p.accept_t3amp || rf_snr(&p, r->t3amp[j], r->t3amperr[j])) && (!p.accept_t3phi || rf_snr(&p, R2D, r->t3phierr[j])),
        { double a, b, c, d; oi_t3_iter_get_uv(&it, &ew, &a, &b, &c, &d);
          REQ(ew == w->eff_wave[j] && a == r->u1coord / ew && b == r->v1coord / ew && c == r->u2coord / ew && d == r->v2coord / ew, "t3 get_uv wrong"); })
  gfree(&f, 1);
}
