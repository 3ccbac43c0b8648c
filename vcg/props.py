"""Registry: which functions decide which property."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
K = ["array", "target", "wavelength", "corr", "inspol", "vis", "vis2", "t3", "flux"]

TRUSTED = [
    "the verification-condition generator in /verif/vcg (cast.py, sym.py, lib.py, contract.py)",
    "clang 18's AST of the current source",
    "Z3's unsat answers",
    "models of libc and GLib functions in vcg/lib.py",
]
ASSUMPTIONS = [
    "machine integers are treated as mathematical integers (no overflow)",
    "floating-point values are an uninterpreted sort: arithmetic is deterministic, comparisons are predicates",
    "allocation succeeds (the library aborts otherwise); pointers held in memory refer to existing blocks",
    "character arrays in input structures hold NUL-terminated strings",
    "structures of different types do not overlap (no type punning)",
]

PROOF_NOTE = ("Every obligation (postconditions, loop invariants, frames, call preconditions, memory safety of each access) is generated from the "
              "current source by vcg/ and discharged by Z3 for all inputs. Trusted: the generator, clang's AST, Z3, the libc/GLib models; "
              "integers are mathematical, floating point is uninterpreted (see evidence assumptions).")
IT = ["oi_%s_iter_%s" % (k, f) for k in ("vis", "vis2", "t3") for f in ("init", "next", "get_uv")]
UP = ["upgrade_oi_" + k for k in ("target", "wavelength", "array", "vis", "vis2", "t3")]
LK = ["oi_fits_lookup_" + k for k in ("array", "wavelength", "corr", "element", "target", "target_by_name")]

FILT = ["oifilter.c", "oifile.c", "alloc_fits.c", "chkmalloc.c"]
DATA4 = ("vis", "vis2", "t3", "flux")
FILTER_TABLE = [dict(spec="spec_filter", fns=["filter_oi_%s" % k for k in DATA4] + ["filter_oi_%s_record" % k for k in DATA4] +
                     ["any_%s_chan_ok" % k for k in DATA4[:3]]),
                dict(spec="spec_filter2", fns=["filter_oi_inspol", "filter_oi_wavelength", "filter_oi_target", "filter_oi_header"])]

MERGE = ["oimerge.c", "oifile.c", "alloc_fits.c", "chkmalloc.c", "datemjd.c"]
MDATA = ["merge_all_oi_" + k for k in ("vis", "vis2", "t3", "flux", "inspol")]
MNAMES = ["lookup_element", "match_oi_wavelength", "match_oi_array"] + ["merge_all_oi_" + k for k in ("array", "wavelength", "corr")]
MBOUND = "merge_oi_fits_list (the composition) run on random inputs with clashing names and targets and compared with an independent reference (native mode merge)"

STANDIN = ("Bounded stand-in, not counted as proved: %s run natively on random inputs against an independent reference.")


def lemmas(tier, repo):
    import lemmas as l
    return l.run(tier, repo)


PROPS = {
    "C01": dict(level="proof", files=["oifile.c"], native=["dup"], note=PROOF_NOTE,
                groups=[dict(spec="spec_dup", fns=["dup_oi_" + k for k in K])]),
    "C02": dict(level="proof", files=FILT, native=["filter"], note=PROOF_NOTE, groups=FILTER_TABLE, ignore=r"frame:|:post:indep", extra=[lemmas]),
    "C03": dict(level="proof", files=FILT, native=["filter"], note=PROOF_NOTE + " " + STANDIN % "prune_*, get_*name_list and apply_oi_filter (composition)",
                groups=[dict(spec="spec_filter3", fns=["filter_all_oi_" + k for k in ("vis", "vis2", "t3", "flux", "inspol", "wavelength", "array", "corr")])],
                ignore=r":frame:|:post:shape\.", extra=[lemmas], cases=1600,
                bounded="whole-dataset filtering (apply_oi_filter: composition, pruning of unreferenced tables, name lists, header and targets) compared with an "
                        "independent reference on random datasets and filters (native mode filter)"),
    "C04": dict(level="proof", files=FILT, native=["filter"], note=PROOF_NOTE + " " + STANDIN % "prune_* and apply_oi_filter (composition)", ignore=r":post:(value|count|select|list|absent|present|others|exact)",
                groups=FILTER_TABLE + [dict(spec="spec_filter4", fns=["filter_all_oi_" + k for k in ("vis", "vis2", "t3", "flux", "inspol", "wavelength", "array", "corr")])],
                cases=1600,
                bounded="whole-dataset filtering (apply_oi_filter) on random datasets and filters under address and leak sanitizers, input compared before and after"),
    "C05": dict(level="proof", files=["oiiter.c", "oifile.c", "oifilter.c"], native=["iter"],
                note=PROOF_NOTE + " Precondition: no empty data tables; every INSNAME is registered with at least as many channels.",
                groups=[dict(spec="spec_iter", fns=IT)]),
    "C06": dict(level="proof", files=MERGE, native=["merge"], note=PROOF_NOTE + " " + STANDIN % "merge_oi_fits_list (the composition of the merges)",
                groups=[dict(spec="spec_merge", fns=MDATA)], ignore=r":post:(ref|shape)|:frame:", cases=1500, bounded=MBOUND),
    "C07": dict(level="proof", files=MERGE, native=["merge"], note=PROOF_NOTE + " " + STANDIN % "merge_oi_fits_list (the composition of the merges)",
                groups=[dict(spec="spec_merge3", fns=MNAMES + ["merge_oi_target"]), dict(spec="spec_merge", fns=MDATA)],
                ignore=r":post:(value|count:num|shape)|:frame:", cases=1500, bounded=MBOUND),
    "C08": dict(level="proof", files=MERGE, native=["merge"], note=PROOF_NOTE + " " + STANDIN % "merge_oi_fits_list (the composition of the merges)",
                groups=[dict(spec="spec_merge4", fns=["files_min_mjd", "merge_oi_header", "merge_oi_target"] + MNAMES), dict(spec="spec_dup", fns=["dup_oi_" + k for k in K]),
                        dict(spec="spec_merge", fns=MDATA)],
                ignore=r"(merge_all_oi_\w+|merge_oi_target|match_oi_\w+|lookup_element|dup_oi_\w+):post:(value|count|ref|resolves|table|member|equivalent)", cases=1500, bounded=MBOUND),
    "C09": dict(level="proof", files=["oifile.c", "alloc_fits.c", "free_fits.c", "chkmalloc.c"], native=["alloc"], note=PROOF_NOTE,
                groups=[dict(spec="spec_alloc", fns=["alloc_oi_" + k for k in K] + ["free_oi_" + k for k in K] + ["init_oi_fits", "free_oi_fits"])]),
    "C13": dict(level="proof", files=["oifile.c", "datemjd.c"], native=["lookup"], note=PROOF_NOTE,
                groups=[dict(spec="spec_file", fns=LK)]),
    "C15": dict(level="proof", files=["datemjd.c"], native=["date"], note=PROOF_NOTE,
                groups=[dict(spec="spec_date", fns=["date2mjd", "mjd2date"])]),
    "C16": dict(level="proof", files=["oifile.c", "datemjd.c"], native=["version"], note=PROOF_NOTE,
                groups=[dict(spec="spec_file", fns=["is_oi_fits_one", "is_oi_fits_two"] + UP)]),
    "C17": dict(level="proof", files=["oifile.c", "datemjd.c"], native=["count"], note=PROOF_NOTE,
                groups=[dict(spec="spec_file", fns=["count_oi_fits_data", "get_min_mjd", "get_max_mjd", "is_atomic"])]),
}


def known(pid):
    out = []
    p = os.path.join(HERE, "..", "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out
