"""What each property's check compiles and runs. See DESIGN.md."""

ASAN = dict()
OPT = dict(permille=250, permille_thorough=500)


def std(permille=250, **kw):
    d = dict(asan=dict(), opt=dict(permille=permille, permille_thorough=500))
    d.update(kw)
    return d


def groups(n, permille=250):
    """the harness in n groups of instantiations, built side by side"""
    d = {}
    for g in range(n):
        d["asan%d" % g] = dict(base="asan", flags=["-DVH_GROUP=%d" % g])
    for g in range(n):
        d["opt%d" % g] = dict(base="opt", flags=["-DVH_GROUP=%d" % g], permille=permille, permille_thorough=500)
    return d


CHECKS = {
    "C01": dict(
        harness="c01_roundtrip", level="exploration", variants=std(),
        technique="sanitized round-trip monitor against an independent deep model over generated values and options",
        rule="Values are generated from an independent model (all kinds, boundary integers, floats, code points, sizes to 70000, depth to "
             "1025), dumped with random options in all four text/value widths, parsed and compared with the model; every Unicode scalar value "
             "is covered as key and string. A case is non-trivial when the value has more than one node; distinct by hash of the model."),
    "C02": dict(
        harness="c02_wellformed", level="exploration", variants=std(),
        technique="independent strict RFC 8259 reader as oracle over dumped text, sanitized",
        rule="Generated values are dumped with random options through all sinks and the text is read by an independent strict RFC 8259 "
             "reader and compared with the model; non-finite floats and ill-formed strings at random places must give a serialization "
             "error. Non-trivial: more than one node, or an unrepresentable datum; distinct by content hash."),
}

CHECKS.update({
    "C03": dict(
        harness="c03_accept", level="exploration", variants=std(),
        technique="sanitized monitor comparing parse results with the value a document was generated from",
        rule="Documents are generated together with the value they denote, in random spellings (whitespace, comments, escapes, numbers, "
             "repeated keys), sizes and depths, and parsed from all sources in all widths. Non-trivial and distinct: by hash of the text."),
    "C04": dict(
        harness="c04_reject", level="exploration", variants=std(150),
        technique="sanitized monitor against an independent three-valued reference reader",
        rule="Every text of up to four characters of the format's alphabet and every sequence of up to five tokens, every proper prefix of "
             "generated documents, documents with damaged, missing, repeated or trailing characters and tokens, and systematic bad escapes, "
             "surrogates, numbers and look-alike code points are judged by an independent reader. Distinct: by hash of the text."),
    "C05": dict(
        harness="c05_robust", level="exploration", variants=std(250),
        technique="ASan/UBSan with allocation-balance and read-count monitors over arbitrary and hostile input",
        rule="Random bytes and wide characters, damaged documents, very long tokens, comments and runs, and nesting up to 600 levels are fed "
             "from all sources under all encodings. Each input is counted once; distinct by hash of the input."),
    "C06": dict(
        harness="c06_unicode", level="exploration",
        variants=dict(asan=dict(permille=300, permille_thorough=1000), opt=dict(permille_thorough=1000)),
        technique="sanitized transcoding monitor against independent strict encoders and decoders, exhaustive over scalar values",
        rule="Every Unicode scalar value raw and escaped, as string and key, parsed and dumped between 13 combinations of text and value "
             "encodings; every one- and two-byte sequence, three- and four-byte sequences with boundary bytes, every wide unit, surrogate "
             "neighbourhoods and damaged strings are judged by independent strict decoders. Distinct: by code point or sequence."),
})

CHECKS.update({
    "C07": dict(
        harness="c07_sources", level="exploration", variants=std(200),
        technique="sanitized differential monitor over every kind of source and sink of the same text",
        rule="Well-formed, malformed and arbitrary texts are parsed from 15 kinds of source (strings, C strings, streams with several "
             "buffer sizes, C files, adapters, extraction), narrow and wide, and values are dumped to every kind of sink with the same "
             "options; results must be identical. Distinct: by hash of the text."),
    "C08": dict(
        harness="c08_locale", level="exploration", variants=std(250),
        technique="sanitized monitor over generated locales, stream states and options, with stream-state snapshots",
        rule="Values and documents are read and written under generated global and imbued locales (digit grouping, other decimal points, "
             "wide facets), under locales of the system (de_DE, ps_AF, tr_TR in a single-byte character set) set for C and C++, and random flags, fill, base, precision and width; results must equal those of a plain stream, and the state of "
             "the stream before and after is compared. Distinct: by hash of text and state."),
    "C09": dict(
        harness="c09_copies", level="exploration", variants=std(250),
        technique="model-based history monitor (independent deep values) under ASan/UBSan with allocation balance",
        rule="Random histories of copies, moves, assignments and swaps of values and their parts are run next to independent model values; "
             "after every step each value must match its model. Distinct: by hash of history state."),
    "C10": dict(
        harness="c10_containers", level="exploration", variants=std(250),
        technique="model-based history monitor (sequence and dictionary) under ASan/UBSan, exceptions checked against the model",
        rule="Random histories of building, indexing, appending, erasing, finding, counting, clearing and querying are run next to an "
             "independent sequence and dictionary; every result, exception type and whole value is compared. Distinct: by state hash."),
    "C11": dict(
        harness="c11_access", level="exploration", variants=std(250),
        technique="sanitized monitor of every typed accessor on every kind of value against the model",
        rule="Every typed accessor is applied to generated values of every kind and must give the model's datum or the specified error "
             "and leave the value unchanged. Distinct: by value hash."),
    "C12": dict(
        harness="c12_compare", level="exploration", variants=std(250),
        technique="sanitized monitor of all comparison operators against an independent order, with algebraic laws on triples",
        rule="All six operators on pairs and triples of generated related values and scalars on either side, compared with an independent "
             "order over the model; deep nesting is compared within a bounded time. Distinct: by hash of pair."),
    "C13": dict(
        harness="c13_conversions", level="exploration", variants=groups(7),
        technique="sanitized conversion monitor over generated C++ data of all supported types",
        rule="Generated data of about a hundred C++ types, the user's own among them, are converted to values, checked against the model, converted back by every getter, "
             "into dirty destinations too, and wrong kinds must be refused. Distinct: by hash of datum."),
    "C14": dict(
        harness="c14_faults", level="fault_enumeration", variants=std(300),
        technique="fault injection at every allocation and conversion call under ASan with allocation-balance and state monitors",
        rule="For each generated operation, the run is repeated failing its 1st, 2nd, ... allocation (once, and sticky) or user-conversion "
             "call until none is left to fail; each failure must be reported, leak nothing and leave every value usable. Distinct: by hash "
             "of operation and value."),
    "C15": dict(
        harness="c15_io", level="fault_enumeration", variants=std(300),
        technique="fault injection at every character position of sinks and sources, sanitized, with prefix and report monitors",
        rule="For each generated text, every character position is made to fail (refuse, throw, end, read error, undecodable) in every kind "
             "of sink and source; the failure must be reported and what was written must be a prefix. Distinct: by hash of the text."),
})


def deep_step(run, bins, tier):
    """nesting as deep as an 8 MB stack should carry, and far beyond; each depth in a process of its own"""
    import resource
    import subprocess
    from run import env, signame, tail

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))

    for depth in [1500, 3000] + ([4000, 5000] if tier == "thorough" else []) + [2000000]:
        stem = "%s/deep%d" % (run.work, depth)
        with open(stem + ".log", "w") as f:
            p = subprocess.run([bins["opt"], "--only", "deep_probe:%d" % depth, "--out", stem + ".json"], stdout=f, stderr=f,
                               stdin=subprocess.DEVNULL, env=env(), preexec_fn=limits, timeout=300)
        run.evaluations += 1
        run.cases += 1
        run.notes.append("nesting of %d levels with a stack of 8 MB: %s" % (depth, "read" if p.returncode == 0 else signame(p.returncode)))
        if p.returncode:
            run.violations.append(dict(variant="opt", part="deep_probe", index=depth,
                                       msg="nesting of %d levels: %s %s" % (depth, signame(p.returncode), tail(stem + ".log", 800))))


CHECKS["C05"]["steps"] = [deep_step]

FUZZ_TOKENS = ["[", "]", "{", "}", ":", ",", "null", "true", "false", "\\\"", "\\\\", "\\\\u", "\\\\ud83d\\\\ude00", "\\\\u0000", "\\\\uffff", "//", "/*", "*/",
               "\\x0a", "\\x0d", "\\xef\\xbb\\xbf", "\\xf0\\x9f\\x98\\x80", "\\xed\\xa0\\x80", "-0", "+1", "0.5", "1e5", "1E-5", "1e+05",
               "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "1e308", "5e-324",
               "\\\"a\\\":", "[]", "{}", "\\x00", "\\xff"]
FUZZ_SEEDS = ['null', '[1,2.5,-3e2,"a",true]', '{"a":{"b":[{"c":null}]},"d":"\\u00e9\\ud83d\\ude00"}', '/* c */ [ // d\n "x" ]', '"\\"\\\\\\/\\b\\f\\n\\r\\t"',
              '[[[[]]],{},[{}]]', '{"":"","a":0,"a":1}', '-12.25E+2', '"\u00e9\u20ac\U0001f600"', '9223372036854775807', '[\r\n\t +1 ]']


def fuzz_step(runs, runs_thorough):
    def step(run, bins, tier):
        """libFuzzer with the oracle inside the target: coverage of the library's code leads the generation of texts"""
        import os
        import re
        import shutil
        import subprocess
        from run import CheckError, HERE, env, limit_memory, run_alone, tail  # noqa: F401

        n = runs_thorough if tier == "thorough" else runs
        dic = run.work + "/dict"
        with open(dic, "w") as f:
            for t in FUZZ_TOKENS:
                f.write('"%s"\n' % t)
        procs = []
        for k in range(8):
            stem = "%s/fuzz%d" % (run.work, k)
            os.makedirs(stem + ".corpus")
            for i, t in enumerate(FUZZ_SEEDS):
                for j, how in enumerate((0, 4, 2, 130)):
                    with open("%s.corpus/s%d-%d" % (stem, i, j), "wb") as f:
                        f.write(bytes([how, (i * 37 + j * 11 + k) % 256, (i + j * 5 + k) % 256]) + t.encode())
            f = open(stem + ".log", "w")
            cmd = [bins["fuzz"], "-runs=%d" % n, "-seed=%d" % (run.seed * 8 + k + 1), "-max_len=%d" % (120 if k % 2 else 500), "-detect_leaks=0",
                   "-rss_limit_mb=3000", "-timeout=100", "-print_final_stats=1", "-verbosity=1", "-dict=" + dic, "-artifact_prefix=%s.bad-" % stem,
                   stem + ".corpus"]
            procs.append((subprocess.Popen(cmd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=env(), preexec_fn=limit_memory(0)), stem))
        total = cov = units = 0
        for p, stem in procs:
            rc = p.wait()
            text = open(stem + ".log", errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units: (\d+)", text)
            total += int(m[-1]) if m else 0
            c = re.findall(r"cov: (\d+)", text)
            cov = max(cov, int(c[-1]) if c else 0)
            units += len(os.listdir(stem + ".corpus"))
            if rc:
                bad = [x for x in os.listdir(run.work) if x.startswith(os.path.basename(stem) + ".bad-")]
                if not bad:
                    raise CheckError("the fuzz target ended with %s: %s" % (rc, text[-3000:]))
                src = os.path.join(run.work, bad[0])
                again = subprocess.run([bins["fuzz"], "-rss_limit_mb=3000", "-timeout=200", "-detect_leaks=0", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       stdin=subprocess.DEVNULL, env=env())
                if again.returncode == 0:
                    raise CheckError("the fuzz target's failure does not repeat: %s" % text[-3000:])
                out = again.stdout.decode(errors="replace")
                i = out.find("VH-FAIL")
                if i < 0:
                    i = max(0, out.find("ERROR: "))
                run.violations.append(dict(variant="fuzz", part="fuzz", index=0, input=open(src, "rb").read()[:5000].hex(), msg=out[i:i + 3000]))
        run.evaluations += total
        run.cases += total
        run.counters["fuzz_executions"] = total
        run.counters["fuzz_corpus_units"] = units
        run.notes.append("coverage-guided texts: %d executions, %d edges covered, %d inputs that reached something new" % (total, cov, units))
        if total < n * 8 // 2 and not run.violations:
            raise CheckError("the fuzz target executed only %d inputs" % total)
    return step


def with_fuzz(prop, mode, runs, runs_thorough):
    c = CHECKS[prop]
    c["variants"] = dict(c["variants"], fuzz=dict(source="fuzz_text", flags=["-DVH_FUZZ=%d" % mode], manual=True))
    c["steps"] = c.get("steps", []) + [fuzz_step(runs, runs_thorough)]


with_fuzz("C02", 2, 60000, 3000000)
with_fuzz("C04", 4, 40000, 2000000)
with_fuzz("C05", 5, 40000, 2000000)

CHECKS.update({
    "C16": dict(
        harness="c16_handlers", level="exploration", variants=std(250),
        technique="sanitized differential monitor: recording handlers against the exception of the same run without one",
        rule="Damaged documents, all short texts, every position of damage (the first character included), arbitrary bytes, deep failures, "
             "unrepresentable values and failing allocations are run without a handler and with strict, recording, ignoring and custom "
             "handlers, which count their calls and keep exception types and messages. Distinct: by hash of the input."),
    "C17": dict(
        harness="c17_threads", level="exploration",
        variants=dict(tsan=dict(shards=4), asan=dict(permille=250, shards=4), opt=dict(permille=400, shards=4)),
        technique="ThreadSanitizer plus a monitor comparing each thread's results with the same work done alone",
        rule="Threads released together run random mixes of parsing, dumping, converting, copying, modifying own values and reading shared "
             "ones (also first uses of anything lazily initialised), with random yields; every result is compared with the one computed by a "
             "single thread. Distinct: by hash of the plan; interleavings seen are counted."),
    "C18": dict(
        harness="c18_numbers", level="exploration", variants=std(250),
        technique="sanitized monitor against exact decimal arithmetic (long double and digit strings)",
        rule="Integers at and around every boundary, generated decimals with long digits and exponents, the same number shifted through "
             "exponents, every exponent from -400 to 400, and generated doubles under every notation and precision, compared with "
             "independently computed values. Distinct: by hash of the spelling."),
    "C19": dict(
        harness="c19_iterators", level="exploration", variants=std(250),
        technique="model-based iterator walks (index into an independent sequence) under ASan/UBSan and library assertions",
        rule="Random walks of all iterator kinds over generated values next to an index model, all small values exhaustively, large values, "
             "erasing through iterators, and every documented misuse. Distinct: by hash of value and walk."),
    "C20": dict(
        harness="c20_adapters", level="exploration", variants=std(250),
        technique="online monitor of the character stream between adapter and caller, all short operation sequences, sanitized",
        rule="Every sequence of up to five stream operations over short data and long random ones, on adapters that deliver and accept in "
             "several ways, narrow and wide; the log of characters at the adapter is compared with what the operations asked for. "
             "Distinct: by hash of operations and data."),
    "C21": dict(
        harness="c21_layout", level="exploration", variants=std(250),
        technique="independent layout writer as oracle over indented output, sanitized",
        rule="Generated values under every step from 0 to 255 and several indent characters, through options and stream width and fill, "
             "compared with the compact text laid out by an independent writer; depths up to tens of thousands. Distinct: by hash of value "
             "and step."),
    "C22": dict(
        harness="c22_custom", level="exploration", variants=groups(4),
        technique="sanitized model-based monitor over eleven instantiations of the template arguments",
        rule="Eleven value types (16 to 64-bit signed and unsigned integers, float and long double, wide, insertion-ordered, hashed and "
             "reversed dictionaries, deque arrays, a counting allocator) are run through building, text round trips, copies, comparison, "
             "iteration and erasing next to the model; every integer near the limits of each type; histories of ordered dictionaries. "
             "Distinct: by hash of value and instantiation."),
    "C23": dict(
        harness="c23_bind", level="exploration", variants=groups(4),
        technique="sanitized monitor of generated bound structures against an independent table of their fields",
        rule="Fifty-five generated structures of 1 to 50 fields and hand-written ones of 27 fields of every supported type, nested in each "
             "other and in containers, with random contents are converted to values, text and streams and back, and read over used "
             "structures from random subsets of their names. Distinct: by hash of the value."),
})


# thorough only: libstdc++'s debug containers under C++20, and valgrind's memcheck (uninitialised values)
MEMCHECK = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--main-stacksize=67108864", "--max-stackframe=8000000"]
for _p, _c in CHECKS.items():
    if _p == "C17":
        continue
    _g = [k for k in _c["variants"] if k.startswith("asan")]
    _v = dict(_c["variants"])
    for _k in _g:
        _f = _c["variants"][_k].get("flags", [])
        _v["dbg20" + _k[4:]] = dict(base="dbg20", flags=_f, only="thorough", permille_thorough=150)
        if _p not in ("C14", "C06"):
            _v["memcheck" + _k[4:]] = dict(base="vg", flags=_f, only="thorough", quick_size=True, permille_thorough=15, wrap=MEMCHECK, slow=10)
    _c["variants"] = _v
