MORE = {
 "C08": ("AddressSanitizer+LeakSanitizer (with checked std preconditions) and the Miri interpreter over generated texts; thorough adds MemorySanitizer, tree borrows, valgrind", "Held on ~100k texts under ASan/LSan and ~2.5k small texts under Miri per run; nothing is claimed of executions not observed."),
 "C13": ("reference monitor over target matching: plain fields decide", "Every built-in target and thousands of made-up ones against every kind of predicate, near misses and defaults."),
 "C14": ("offline comparison of the table with what rustc reports when run", "All 287 targets x all fields against the installed rustc; fields that changed since 1.86 are judged by a recorded ledger (data/c14.json)."),
 "C15": ("reference monitor over lookups: a linear scan decides", "Every triple, all single-character edits, prefixes, suffixes, component edits of it, and random strings."),
 "C16": ("differential monitor of the two matchers over all parseable triples and both vocabularies", "Complete over built-in triples x vocabulary; one finding listed (mips64-openwrt-linux-musl vendor)."),
 "C17": ("set and order-law monitors over the value types", "Sets against BTreeSet, pairs of descriptions against field-wise comparison, exhaustive atomics to 66000."),
 "C18": ("differential monitor against the real rustc stripping #[cfg] items for every target", "About 1.2M (target, expression) verdicts per run; targets that changed since the table's version are left out."),
 "C19": ("trace comparison across histories, processes, threads and made-up worlds (environment, clock, files, random source); ThreadSanitizer over shared objects; compile probes for Send and Sync", "About 1M traces per run; races only of interleavings that ran. Thorough adds Miri's data-race detector."),
 "C20": ("trace digests compared across seven build configurations and two machines interpreted by Miri", "About 120k texts and 3k targets on each of dev, release, checked, opt-level 3 with LTO, opt-level z without unwinding, and release and dev with the targets feature; some 450 texts on 32-bit and big-endian machines."),
 "C21": ("the real tool run against scripted compilers; its output compiled, dumped and compared with the answers given", "About 100 compilers with 12k distinct cfg answers per run, including those behind the current table."),
 "C22": ("fault injection into every kind of compiler query of the real tool; exit status and digests of all files watched", "About 3000 faulted runs per run of the check; rustfmt and file-system faults are outside."),
 "C23": ("growth monitor: callgrind instruction counts and a counting allocator at n and 4n", "About 80 families of texts x up to 10 operations; observed growth is within 1.1 of linear."),
}
