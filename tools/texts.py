P("C01", "Duplicating a table yields an equal and fully independent copy",
  "For every well-formed table of each of the nine kinds, duplicating it returns a new table of the same kind whose every "
  "field, record, and per-channel array value (including optional columns exactly when present) equals the original's. "
  "The copy shares no storage with the original, so changing or freeing either never affects the other, and the original is unchanged.",
  ["inputs"], "all tables of every kind: any number of records and channels, any values, optional columns present or absent",
  "Tests duplicate nothing directly; merge and filter tests compare a few tables read from seven sample files.",
  ["oifile.c"], [("dup_oi_array ... dup_oi_flux", "oifile.c")], [("record arrays", "owned by their table", "exchange.h")],
  ["returned table"])
P("C02", "Filtering preserves the values of what it keeps and masks as documented",
  "Every record in the filter's output carries exactly the scalar values of the input record it comes from, and for each accepted wavelength channel exactly the input's per-channel values, in the input order, with matrix-valued columns restricted to the accepted channels in both dimensions. "
  "Channels outside the signal-to-noise or spatial-frequency ranges are flagged (flux values become not-a-number), unwanted triple-product amplitudes or phases become not-a-number, and target identifiers become 1 when a single target is selected. "
  "Table headers, wavelength values, array elements, polarisation matrices and the selected target keep their contents.",
  ["inputs"], "all well-formed datasets and all filter settings",
  "Tests apply four filters to a few sample files and compare counts.",
  ["oifilter.c"], [("filter_oi_*_record, filter_oi_vis/vis2/t3/flux/inspol/wavelength/target", "oifilter.c")],
  [("useWave", "which channels of a wavelength table are accepted", "oifilter.c")], ["output dataset"])
P("C03", "Filtering selects exactly the matching data and leaves no dangling or empty tables",
  "A data table, record or channel appears in the filter's output exactly when it meets the filter's criteria (names, target, time, baseline, waveband, data type, and, unless flagged data are accepted, at least one good channel), and output order follows input order. "
  "The output has no table without records or channels, keeps array, wavelength, correlation and polarisation tables only while something in the output refers to them, and its table counts, lists and name lookups agree with each other.",
  ["inputs"], "all well-formed datasets and all filter settings",
  "Tests apply four filters to a few sample files and compare counts.",
  ["oifilter.c"], [("filter_all_oi_*, prune_oi_*, get_*name_list, apply_oi_filter", "oifilter.c")],
  [("table lists, counts and lookup hashes", "kept in step", "oifile.h")], ["output dataset"])
P("C04", "Filtering never changes its input, and its output is independent of it",
  "Applying a filter leaves the input dataset unchanged, bit for bit. The output shares no storage with the input: every table, record and array in it is newly allocated and belongs to the output alone, so either may be freed or modified without affecting the other.",
  ["inputs"], "all well-formed datasets and all filter settings",
  "Tests never compare the input before and after, nor look at storage.",
  ["oifilter.c"], [("filter_oi_*, filter_all_oi_*, apply_oi_filter", "oifilter.c")], [("record arrays", "owned by their table", "exchange.h")],
  ["input dataset, storage of the output dataset"])
P("C05", "Iterators visit exactly the accepted data points, once each, in file order",
  "Iterating over the complex visibilities, squared visibilities or triple products of a dataset with a filter returns exactly the data points "
  "that satisfy every criterion of the filter (names, target, time, baseline, waveband, signal-to-noise, spatial frequency, flags, data types), each exactly once and in "
  "table, record, channel order, and then reports exhaustion on every further call. "
  "Each step reports the table's 1-based position among tables of its kind, the table, the record number, the record and the channel of that point; "
  "the (u,v) query returns that channel's wavelength and the record's coordinates divided by it.",
  ["inputs", "histories"], "all datasets with non-empty tables and registered wavelength tables, all filters, any number of calls",
  "Tests iterate over two sample files with three filters and compare counts.",
  ["oiiter.c"], [("oi_*_iter_init / _next / _get_uv, accept_table/record/channel", "oiiter.c")],
  [("iterator position", "table link, record index, channel index", "oiiter.h")], ["return value and output arguments of each step"])
P("C06", "Merging keeps every data table of every input, with its values, in order",
  "The merged dataset contains, for each kind of data table, one table per input table, in input order, with the same records and values as the original, except for the references (target identifiers and array, wavelength and correlation names) that the merge renames. "
  "No data table is lost, duplicated or altered by merging, and counts agree with the lists.",
  ["inputs"], "any number of inputs, any tables in them",
  "Tests merge a few sample files and compare counts of tables.",
  ["oimerge.c"], [("merge_all_oi_*, merge_oi_fits_list", "oimerge.c")], [("table lists and counts", "of the output", "oifile.h")], ["output dataset"])
P("C07", "References in merged data resolve to what they referred to before merging",
  "In a merged dataset every target identifier, array name, wavelength-table name and correlation name used by a data table resolves to a target or table equivalent to the one it referred to in its input file. "
  "Names and target identifiers in the output are unique; targets of the same name are merged into one entry, and tables are shared only when their contents are equivalent, otherwise renamed.",
  ["inputs"], "any number of inputs, including inputs that use the same name for different tables, or different names for the same target",
  "Tests merge sample files whose names seldom clash.",
  ["oimerge.c"], [("merge_oi_target, merge_all_oi_array / wavelength / corr, arrname/insname/corrname hash lists", "oimerge.c")],
  [("name and target-id translation tables", "one per input", "oimerge.c")], ["output dataset"])
P("C08", "Merging never changes its inputs, and its output is independent of them",
  "Merging leaves every input dataset unchanged, and the output shares no storage with any input. "
  "The output's primary header declares the current standard, and each other header keyword is that of the inputs when they agree and the documented multiple-value marker when they differ.",
  ["inputs"], "any number of inputs with any contents",
  "Tests never compare the inputs before and after.",
  ["oimerge.c"], [("merge_oi_fits_list, merge_oi_header", "oimerge.c"), ("dup_oi_*", "oifile.c")], (), ["input datasets, output header and storage"])
P("C09", "Allocated tables are consistent and freeing releases everything exactly once",
  "Allocating a table of given dimensions yields a table whose counts are those dimensions and whose every record and per-channel array is distinct writable storage of the matching size, with optional columns absent. "
  "Freeing a table or a whole dataset releases every block it owns exactly once, touches nothing else, and accepts optional columns present or absent; a fresh dataset is empty and can be freed.",
  ["inputs", "histories"], "all table kinds, all positive dimensions, optional columns present or absent",
  "Tests allocate a few tables of fixed size and do not check for leaks.",
  ["alloc_fits.c", "free_fits.c", "oifile.c"], [("alloc_oi_*, free_oi_*", "alloc_fits.c, free_fits.c"), ("init_oi_fits, free_oi_fits", "oifile.c")],
  [("record arrays", "owned by their table", "exchange.h")], ["table contents and storage"])
P("C10", "A table written to a FITS file reads back equal",
  "Writing a valid table of the current standard and reading it back yields the same header values, number of records and channels, and, for every record and channel, the same column values within the precision of the column type. "
  "Optional columns are present after reading exactly when they were written, and text reads back up to the column width.",
  ["inputs"], "all table kinds with any number of records and channels and any values",
  "Tests copy a few sample files and compare the copies.",
  ["write_fits.c", "read_fits.c"], [("write_oi_*", "write_fits.c"), ("read_oi_*", "read_fits.c")], (), ["table returned by reading", "FITS columns"])
P("C11", "A file read into a dataset yields every table once, with working lookups",
  "Reading a file yields a dataset holding each table of each kind in the file exactly once and in file order, with counts equal to list lengths. "
  "Every array, wavelength and correlation table read is found by its name, and writing a dataset and reading it back preserves all of this.",
  ["inputs"], "all valid files",
  "Tests read seven sample files.",
  ["oifile.c", "read_fits.c"], [("read_oi_fits, write_oi_fits", "oifile.c"), ("read_next_oi_*", "read_fits.c")],
  [("table lists, counts and lookup hashes", "kept in step", "oifile.h")], ["dataset returned by reading"])
P("C12", "The conformance checker reports a breach exactly when there is one",
  "Each check reports success on every dataset that satisfies its rule, and otherwise the documented severity together with a location naming an offending table, for any dataset and any number of offending tables. "
  "Checking never modifies the dataset and never aborts, and stores at most the documented number of locations.",
  ["inputs"], "all datasets, conforming or not",
  "Tests check a few sample files with known breaches.",
  ["oicheck.c"], [("check_*", "oicheck.c")], [("check result", "level, count, description and locations", "oicheck.h")], ["returned level and check result"])
P("C13", "Lookups return the first matching entry, or nothing",
  "Looking up an array, wavelength or correlation table by name returns the table registered under that name and NULL if there is none. "
  "Looking up an array element by station index, or a target by identifier or by name, returns the first entry that matches and NULL exactly when none does (also when the named array does not exist). "
  "Lookups do not change the dataset.",
  ["inputs"], "all datasets, names, station indices and identifiers, including duplicates and absent keys",
  "Tests look up a handful of existing names in sample files.",
  ["oifile.c"], [("oi_fits_lookup_*", "oifile.c")], [("arrayHash, wavelengthHash, corrHash", "name to table", "oifile.h")], ["returned pointer"])
P("C14", "An error status on entry makes every file operation a no-op that returns it",
  "Every reading and writing routine, called with an error status already set, returns that status at once and leaves the file, the status and its output arguments untouched. "
  "Otherwise it returns the status it stores, and reports an error whenever an underlying file operation failed.",
  ["inputs", "fault_sequences"], "all reading and writing routines, all status values on entry, a failure of any underlying file operation",
  "Tests only exercise success, and failure to open a missing file.",
  ["read_fits.c", "write_fits.c", "oifile.c"], [("*pStatus convention", "read_fits.c, write_fits.c")], (), ["return value, *pStatus"])
P("C15", "Calendar date and Modified Julian Day conversions are exact inverses",
  "For every valid calendar date from 1901 to 2099, conversion to Modified Julian Day yields the true day number of the Gregorian calendar, and conversion of that day number yields the date again. "
  "This includes leap days and the century year 2000.",
  ["inputs"], "all 72,683 days from 1901-01-01 to 2099-12-31",
  "Tests try three dates.", ["datemjd.c"], [("date2mjd, mjd2date", "datemjd.c")], (), ["return value and output arguments"])
P("C16", "Datasets are classified by standard version, and upgraded, without side effects",
  "A dataset is reported as version 2 exactly when its header declares that content, and as version 1 exactly when it does not and its target, array, wavelength, visibility, squared-visibility and triple-product tables all have revision 1. "
  "Upgrading a table raises revision 1 to 2 (setting TIME to zero in every record of data tables that have it) and changes nothing else; tables of any other revision stay as they are. "
  "Classifying a dataset never changes it.",
  ["inputs"], "all datasets with any combination of revisions and header content",
  "Tests classify two sample files and upgrade none of the mixed-revision cases.",
  ["oifile.c"], [("is_oi_fits_one, is_oi_fits_two, upgrade_oi_*", "oifile.c")], (), ["return value", "table contents"])
P("C17", "Data counts, time span and atomicity are exact",
  "The reported numbers of complex visibility, squared visibility and triple product data equal the numbers of unflagged channels over all records of all tables of that kind, and outputs not asked for are untouched. "
  "A dataset is atomic exactly when it has at most one array, one wavelength table and one target, and the difference between the latest and the earliest observation time over all data tables does not exceed the given limit.",
  ["inputs"], "all datasets: any number of tables, records and channels, any flags and times",
  "Tests check the totals and atomicity of a few sample files.",
  ["oifile.c"], [("count_oi_fits_data, is_atomic, get_min_mjd, get_max_mjd", "oifile.c")], (), ["output arguments, return value"])
