#define DUP1(LIST, T, K, FREE)                                                        \
  for (l = f.LIST; l; l = l->next)                                                    \
  {                                                                                   \
    T *c = dup_oi_##K(l->data), *ref = x_##K(l->data);                                \
    OK(c_##K(l->data, c));                                                            \
    FREE(l->data); memset(l->data, 0xA5, sizeof(T)); /* copy must not depend on it */ \
    OK(c_##K(ref, c));                                                                \
    memcpy(l->data, ref, sizeof(T)); free(ref);                                       \
    FREE(c); free(c);                                                                 \
  }
static void p_dup(void)
{
  gopt o = GOPT;
  oi_fits f;
  GList *l;
  o.maxchan = 5;
  g_file(&o, &f);
  {
    oi_target *c = dup_oi_target(&f.targets);
    OK(c_target(&f.targets, c));
    REQ(c->targ != f.targets.targ, "target records shared");
    free(c->targ); free(c);
  }
  DUP1(arrayList, oi_array, array, gf_array)
  DUP1(wavelengthList, oi_wavelength, wavelength, gf_wave)
  DUP1(corrList, oi_corr, corr, gf_corr)
  DUP1(inspolList, oi_inspol, inspol, gf_inspol)
  DUP1(visList, oi_vis, vis, gf_vis)
  DUP1(vis2List, oi_vis2, vis2, gf_vis2)
  DUP1(t3List, oi_t3, t3, gf_t3)
  DUP1(fluxList, oi_flux, flux, gf_flux)
  gfree(&f, 1);
}
