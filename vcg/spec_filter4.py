"""filter_all_oi_*: only the storage of the output (newly allocated, owned) and what stays untouched."""
import spec_filter3 as f3
SPECS = dict(f3.SPECS)
for kd, x in f3.ALLKINDS:
    f3.mk_all(kd, x, SPECS, True)
