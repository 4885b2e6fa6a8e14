"""Which binaries decide which property, and how many cases each runs."""
class Job:
    def __init__(self, name, src, defs=None, san="", sets=None, quick=100, thorough=None, shards=4, flags=None, libs=None, optional=False):
        self.name, self.src, self.defs, self.san, self.sets = name, src, defs or {}, san, sets or {}
        self.quick, self.thorough, self.shards = quick, thorough or quick * 20, shards
        self.flags, self.libs, self.optional = flags or [], libs or [], optional
        self.cpu = []    # features of the processor without which the job is left out

FAM = {"g15": 1, "g16": 2, "robin": 3, "robin16": 4, "flat16": 5}
def hist(prop, fam, cfg, quick, san="", props=0, shards=3, sets=None, lay=0):
    s = {"prop": prop}; s.update(sets or {})
    return Job("%s%s.%d%s%s" % (fam, LAYS[lay], cfg, "." + san if san else "", ".p%d" % props if props else ""), "hist.cpp",
               {"FAM": FAM[fam], "CFG": cfg, "PROPS": props, "LAY": lay}, san, s, quick, shards=shards)
def huge(prop, fams, *cfgs, san="", **kw):
    r = [hist(prop, f, c, n, san, shards=6, sets={"huge": 1}, **kw) for f in fams for c, n in cfgs]
    for j in r: j.name += ".huge"; j.thorough = 15 * j.quick
    return r
# robin_hash_map with a layout policy that fixes what the default one derives from the types
LAYS = ("", "-direct", "-hash", "-indirect")
def lays(prop, *cfgs, **kw): return [hist(prop, "robin", c, n, san, lay=l, **kw) for l, c, n, san in cfgs]
def lay(src, *cfgs, **kw):
    return [Job("robin%s.%d%s" % (LAYS[l], c, "." + san if san else ""), src, {"FAM": 3, "CFG": c, "LAY": l}, san, quick=n, shards=2, **kw) for l, c, n, san in cfgs]

MAPS = ["g15", "g16", "robin"]
HIST_RULE = ("A case is a random history of map operations, generated from the seed: element type, key universe, hash distribution, "
             "initial capacity, prefill and operation mix are drawn per case; every result is compared with a mathematical map. "
             "Non-trivial: the history changed the capacity at least once while holding elements. Distinct: different operation sequences (digest of the trace).")
CHECKS = {}
def model(prop, fam):
    CHECKS[prop] = dict(rule=HIST_RULE, need={"events": 100000, "rehashes": 1000, "own_references": 20000},
        jobs=[hist(prop, fam, c, n) for c, n in ((1, 2500), (2, 1200), (3, 1200), (4, 2500), (5, 1500), (6, 1500), (7, 2000), (10, 2500))]
           + [hist(prop, fam, c, n, "asan") for c, n in ((2, 150), (10, 150))])
    # every operation there is, on two maps
    for c, n in ((10, 900), (2, 600), (3, 500)):
        j = hist(prop, fam, c, n, sets={"all": 1}); j.name += ".all"; CHECKS[prop]["jobs"].append(j)
model("C01", "g15"); model("C02", "g16"); model("C03", "robin")
CHECKS["C04"] = dict(rule=HIST_RULE, need={"events": 1000000, "rehashes": 1000, "walk_steps": 1000000, "own_references": 20000},
    jobs=[hist("C04", f, c, n) for f in ("robin16", "flat16") for c, n in ((1, 4000), (2, 2500), (3, 2000), (4, 4000), (5, 2500), (6, 2000), (8, 2000))]
       + [hist("C04", f, c, n, "asan") for f in ("robin16", "flat16") for c, n in ((1, 300), (3, 200))])
def multi(prop, cfgs, asan, rule=HIST_RULE, need=None, props=(0,), **kw):
    jobs = []
    for f in MAPS:
        for c, n in cfgs: jobs += [hist(prop, f, c, n, props=p, **kw) for p in props]
        for c, n in asan: jobs.append(hist(prop, f, c, n, "asan", **kw))
    CHECKS[prop] = dict(rule=rule, need=need or {"events": 50000, "rehashes": 1000}, jobs=jobs)
multi("C05", ((1, 800), (2, 500), (7, 800), (10, 800), (4, 800)), ((3, 60),), need={"walk_steps": 1000000})
multi("C06", ((1, 1500), (2, 800), (3, 800), (7, 1200), (10, 1200)), ((3, 80),))
multi("C07", ((1, 900), (2, 500), (3, 500), (9, 300), (10, 900), (11, 400), (17, 400)), ((2, 60),))
multi("C08", ((1, 900), (2, 500), (3, 500), (9, 300), (10, 900), (11, 400), (17, 400)), ((2, 60),), need={"moves_checked": 5000, "transfers": 5000})
multi("C09", ((1, 1500), (2, 900), (3, 900), (10, 1200)), ((2, 80),), need={"short_constructors": 5000})
multi("C10", ((1, 1200), (2, 700), (3, 700), (9, 500), (10, 1200)), ((2, 60),), need={"load_factors": 20000})
multi("C12", ((3, 900), (9, 500), (11, 900)), ((3, 60),))
multi("C13", ((3, 350),), (), props=(0, 1, 2, 4, 7, 8, 16, 23), need={"short_constructors": 3000})
multi("C16", (), ((1, 70), (2, 60), (3, 60), (6, 70), (8, 70), (9, 40), (12, 70), (13, 70), (14, 70), (15, 70), (16, 70), (17, 60)))

CHECKS["C15"] = dict(
    rule="A case builds a map and applies a random sequence of operations; each operation is repeated with a fault at its 0th, 1st, 2nd ... call of one kind of user code "
         "(constructor, copy, assignment, hash, equality, allocation) until it completes without a fault; after every fault the whole map is compared with the state before. "
         "Non-trivial: at least 5 faults were delivered. Distinct: different operation sequences.",
    need={"faults": 20000}, level="fault_enumeration",
    jobs=[Job("%s.%d%s" % (f, c, "." + s if s else ""), "fault.cpp", {"FAM": FAM[f], "CFG": c}, s, quick=n, shards=3)
          for f in MAPS for c, n, s in ((1, 900, ""), (2, 500, ""), (3, 700, ""), (4, 700, ""), (1, 60, "asan"))])

CHECKS["C14"] = dict(
    rule="A case applies a random sequence of 35 insertion, lookup and erase forms (value categories of key and value x absent/present x growth) with objects that count copies and moves and know that they were moved from. "
         "Non-trivial: at least two elements at the end. Distinct: different sequences of forms and keys.",
    need={"calls_absent": 30000, "calls_present": 30000, "calls_with_growth": 3000},
    jobs=[Job("%s.%d%s" % (f, c, "." + s if s else ""), "args.cpp", {"FAM": FAM[f], "CFG": c}, s, quick=n, shards=2)
          for f in MAPS for c, n, s in ((1, 1500, ""), (2, 800, ""), (3, 800, ""), (1, 60, "asan"))])

CHECKS["C17"] = dict(
    rule="A case runs a random history over three maps of one type whose hash and equality objects carry different state (modulus, mask, salt, tag); keys have a class (what the objects decide on) and a representation. "
         "Lookups, insertions and erasures use changing representations; maps are copied, moved, swapped. Non-trivial: at least five insertions met an equal key with a different representation. Distinct: different histories.",
    need={"equal_but_different": 50000, "lookups": 200000, "convertible_lookups": 50000, "convertible_insertions": 10000},
    jobs=[Job("%s.%d%s" % (f, c, "." + s if s else ""), "ident.cpp", {"FAM": FAM[f], "CFG": c}, s, quick=n, shards=3)
          for f in MAPS for c, n, s in ((1, 1500, ""), (2, 1000, ""), (2, 40, "asan"))])

CHECKS["C11"] = dict(
    rule="A case keeps a map at n elements (n drawn around group and capacity boundaries, 1..12000) for many times n erase/insert operations in one of eleven patterns (FIFO, random replacement, LIFO, one key, sawtooth, bursts, returning keys, clear() cycles, erasure through iterators, all insertion forms with present keys, moved and swapped maps); "
         "capacity, allocated bytes, key comparisons per operation and in total and hash calls are bounded throughout; absent keys are looked up during churn and at the highest load. Non-trivial: every case. Distinct: n, pattern and seed.",
    need={"churn_ops": 2000000, "filled_to_the_brim": 500, "absent_lookups": 500000},
    jobs=[Job("%s.%d" % (f, c), "churn.cpp", {"FAM": FAM[f], "CFG": c}, quick=n, shards=5) for f in MAPS for c, n in ((1, 300), (2, 120))]
       + [Job("%s.long" % f, "churn.cpp", {"FAM": FAM[f], "CFG": 1}, sets={"turns": 20}, quick=40, thorough=400, shards=8) for f in MAPS])

CHECKS["C18"] = dict(
    rule="A case starts 1..4 threads that call only const operations (find, at, count, contains, equal_range, walks, copies, ranges, size, function objects), or lookups and walks of it as a map that is not const, of one shared map and 0..3 threads that work on maps of their own, empty ones included; the shared map was left in one of six ways "
         "(never used, cleared, moved into, moved from, filled). ThreadSanitizer watches, every result is compared with the sequential one. Non-trivial: at least two threads. Distinct: seed and kind of the shared map.",
    need={"overlapping_operations": 2000, "reader_lookups": 20000, "reader_copies": 5000, "owner_operations": 20000, "ranges_read": 2000},
    jobs=[Job("%s.%d.tsan" % (f, c), "readers.cpp", {"FAM": FAM[f], "CFG": c}, "tsan", quick=n, shards=2, libs=["-pthread"]) for f in MAPS for c, n in ((1, 480), (2, 300), (3, 300))])

CHECKS["C19"] = dict(
    rule="A case hashes one byte string (lengths 0..511 in turn, then random up to 5000; seven kinds of content with NULs and high bytes) with 29 hash functions (and, where the processor has the instructions, the three SHA-1 ones) and with the string hash helpers of three hash families "
         "for char, wchar_t, unsigned char and short, each placed flush before an unreadable page, flush after one, in an exact heap block and among changing neighbours, and compares with independent definitions; each function once hashes a string of 2^32+5 bytes. "
         "Non-trivial: longer than 2 bytes. Distinct: length, kind and content.",
    need={"placements": 200000, "helper_calls": 300000, "huge_strings": 20},
    jobs=[Job("plain", "strhash.cpp", {"FAM": 1, "CFG": 1}, quick=8000, thorough=80000, shards=4),
          Job("long", "strhash.cpp", {"FAM": 1, "CFG": 1}, sets={"huge": 1}, quick=40, thorough=40, shards=8, flags=["-msha"]),
          Job("sha", "strhash.cpp", {"FAM": 1, "CFG": 1}, quick=2500, thorough=40000, shards=2, flags=["-msha"]),
          Job("asan", "strhash.cpp", {"FAM": 1, "CFG": 1}, "asan", quick=1500, thorough=10000, shards=4, flags=["-fno-sanitize=alignment,nonnull-attribute", "-msha"])])

CHECKS["C20"] = dict(
    rule="A case evaluates 400 argument pairs (small, powers of two and their neighbours, sign and 32 bit boundaries, random widths; all 64x64 pairs of single bits and masks besides) with every mixer, functor and index policy, "
         "in three compilations of the 128 bit multiplication, against arithmetic on 16 bit digits and a bitwise CRC. Non-trivial: every case. Distinct: argument lists.",
    need={"pairs": 300000, "of_uint128_mul.high": 300000, "of_intel_int_crc32_x64": 100000, "of_mum_policy.index": 1000000},
    jobs=[Job("cfg%d" % c, "mixers.cpp", {"CFG": c}, quick=n, thorough=20 * n, shards=3) for c, n in ((1, 900), (2, 400), (3, 300))]
       + [Job("asan", "mixers.cpp", {"CFG": 1}, "asan", quick=60, thorough=1000, shards=2)])

MODES = ((0, "stl"), (1, "u64"), (2, "sse42"), (3, "libc"), (4, "unset"))
CHECKS["C21"] = dict(
    rule="A case makes 25 pairs of char and 25 of wchar_t strings (equal, prefix, one unit or one bit different, unrelated; with NULs and high units; around block lengths) and compares every view query over them, with positions and counts inside, at the end, behind it and near npos, "
         "with std::basic_string_view; the text is placed flush against unreadable pages, in exact heap blocks and among changing neighbours. Five builds, one per STRING_UTILS_MODE. Non-trivial: every case. Distinct: pairs.",
    need={"views": 50000, "out_of_range": 500000},
    jobs=[Job(n, "strview.cpp", {"CFG": c}, quick=150, thorough=4000, shards=2) for c, n in MODES]
       + [Job(n + ".asan", "strview.cpp", {"CFG": c}, "asan", quick=24, thorough=600, shards=2) for c, n in MODES])
CHECKS["C22"] = dict(
    rule="A case makes 40 pairs of char and wchar_t strings (fewer of unsigned char and unsigned short) as for C21 and calls 53 comparison entry points of libc, stl and str_utils, length-delimited and NUL-terminated, on text flush against unreadable pages, in exact heap blocks and among changing neighbours; "
         "null pointers, one string with itself and (once per build) strings of more than 2^31 bytes are included. The oracle is a loop over unsigned units. Five builds, one per STRING_UTILS_MODE. Non-trivial: every case. Distinct: pairs.",
    need={"placements": 500000, "terminated_pairs": 200000, "huge_strings": 5, "pairs_equal": 20000, "pairs_prefix": 20000, "pairs_different": 50000},
    jobs=[Job(n, "strcmps.cpp", {"CFG": c}, quick=700, thorough=20000, shards=2) for c, n in MODES]
       + [Job(n + ".asan", "strcmps.cpp", {"CFG": c}, "asan", quick=60, thorough=2000, shards=2) for c, n in MODES])
CHECKS["C24"] = dict(
    rule="A case evaluates every function on a stretch of the 32 bit numbers (one number in 16 of each stretch, all of them in the thorough tier; the first 16384 cases cover the 32 bit numbers), on 600 numbers of 64 bits (powers of two and of ten and their neighbours, two bits set, all widths) "
         "and of each integer type, against counting bits one at a time; the first case evaluates the compile-time forms on 640 numbers, against the same and against the run-time forms, and every number below 70000 in every type. Builds: as the tests, without BMI, C++20, 32 bit words, clang with ASan and UBSan. "
         "Non-trivial: every case. Distinct: cases.",
    need={"values_32": 100000000, "values_64": 2000000, "compile_time": 1000, "events": 2000000000},
    jobs=[Job("words64", "bits.cpp", {"CFG": 1}, quick=16384, thorough=16384, shards=8),
          Job("words64.all", "bits.cpp", {"CFG": 1}, quick=8, thorough=16384, shards=8, sets={"part": 1}),
          Job("words32", "bits.cpp", {"CFG": 2}, quick=1000, thorough=16384, shards=2),
          Job("nobmi", "bits.cpp", {"CFG": 1}, quick=1000, thorough=16384, shards=2, flags=["-mno-bmi", "-mno-bmi2", "-mno-lzcnt", "-mno-popcnt"]),
          Job("cxx20", "bits.cpp", {"CFG": 1}, quick=1000, thorough=16384, shards=2, flags=["-std=c++20"]),
          Job("asan", "bits.cpp", {"CFG": 1}, "asan", quick=100, thorough=3000, shards=2),
          Job("words32.asan", "bits.cpp", {"CFG": 2}, "asan", quick=100, thorough=3000, shards=2)])
_avx = ["-mno-avx2"]
CHECKS["C25"] = dict(
    rule="A case evaluates every wrapper, at every lane index, on 1000 pairs of vectors (zeros, ones, sparse, two bytes only, bytes around the sign change, random) and inserted values, against memcpy on an array of bytes. Builds: as the tests, unsigned char, AVX without AVX2, not optimised, clang, clang with ASan and UBSan. Non-trivial: every case. Distinct: cases.",
    need={"operands": 2000000, "events": 400000000},
    jobs=[Job("gcc", "vectors.cpp", quick=1000, thorough=30000, shards=2), Job("uchar", "vectors.cpp", quick=800, thorough=20000, shards=2, flags=["-funsigned-char"]),
          Job("avx", "vectors.cpp", quick=800, thorough=20000, shards=2, flags=_avx), Job("O0", "vectors.cpp", quick=100, thorough=2000, shards=2, flags=["-O0"]),
          Job("asan", "vectors.cpp", None, "asan", quick=100, thorough=2000, shards=2), Job("asan.avx", "vectors.cpp", None, "asan", quick=100, thorough=2000, shards=2, flags=_avx)])
CHECKS["C26"] = dict(
    rule="A case runs two histories of 40 operations (construction from seeds and key arrays of 1 to 1257 words, re-seeding in every form, copying, assigning, destroying, stretches of up to two blocks drawn in all forms) over up to five generators, 32 and 64 bit, each number compared with std::mt19937 / std::mt19937_64 loaded with the state of the authors' published seeding, "
         "and the generators behind the static functions over two blocks; one case in four draws from 360 integer ranges (full, half, at the ends, small, both bound orders) and 2000 real ranges per generator, one of which is fed extreme words. Non-trivial: every case. Distinct: histories.",
    need={"drawn": 10000000, "copies": 10000, "ranged": 30000000, "ranges_covered": 100000, "reals": 3000000, "reseeded": 300},
    jobs=[Job("gcc", "rands.cpp", quick=2000, thorough=60000, shards=6), Job("asan", "rands.cpp", None, "asan", quick=300, thorough=8000, shards=4)])

CHECKS["C27"] = dict(
    rule="A case runs 30 to 200 operations over three arrays of pairs of tracked objects: push_back of both forms, pop_back, clear, resize to less and to more (null entries), reserve, construction by copy and move, copy(), all forms of swap, destruction, replacing entries, and copying, moving, assigning and exchanging the pairs; after each one all reading forms (four traversals, [], at() inside and outside, front, back) "
         "are compared with a model that knows every entry's address and values, and the live objects of both kinds are counted against what the arrays hold. Non-trivial: every case. Distinct: operation histories.",
    need={"events": 100000, "conservation_checks": 100000, "removed": 50000, "copies": 8000, "transfers": 8000, "pair_operations": 10000, "entries_read": 5000000},
    jobs=[Job("gcc", "svarray.cpp", quick=6000, thorough=400000, shards=6), Job("asan", "svarray.cpp", None, "asan", quick=400, thorough=30000, shards=4)])

CHECKS["C03"]["jobs"] += lays("C03", (1, 2, 1000, ""), (1, 3, 800, ""), (1, 6, 1000, ""), (2, 1, 1500, ""), (2, 3, 800, ""), (2, 2, 100, "asan"), (3, 10, 1500, ""), (3, 7, 1200, ""))
for _p in ("C05", "C06", "C07", "C08", "C09", "C10"): CHECKS[_p]["jobs"] += lays(_p, (1, 3, 350, ""), (2, 2, 350, ""), (3, 10, 600, ""))
CHECKS["C12"]["jobs"] += lays("C12", (1, 3, 600, ""), (1, 9, 400, ""), (2, 11, 600, ""), (2, 3, 50, "asan"), (3, 11, 600, ""))
CHECKS["C13"]["jobs"] += lays("C13", (1, 3, 250, ""), (3, 11, 250, ""), props=7)
CHECKS["C16"]["jobs"] += [hist("C16", "robin", c, n, "asan", lay=l) for l, c, n in ((1, 2, 50), (1, 9, 30), (2, 12, 60), (2, 8, 60), (3, 13, 60), (3, 1, 60))]
CHECKS["C14"]["jobs"] += lay("args.cpp", (1, 1, 600, ""), (2, 2, 400, ""))
CHECKS["C15"]["jobs"] += lay("fault.cpp", (1, 1, 400, ""), (2, 2, 250, ""), (3, 4, 300, ""))
CHECKS["C17"]["jobs"] += lay("ident.cpp", (1, 2, 500, ""), (2, 1, 600, ""), (3, 1, 600, ""))
CHECKS["C11"]["jobs"] += lay("churn.cpp", (1, 2, 60, ""), (2, 1, 100, ""), (3, 1, 100, ""))
CHECKS["C18"]["jobs"] += lay("readers.cpp", (1, 2, 50, "tsan"), (3, 1, 60, "tsan"), libs=["-pthread"])

# maps of tens and hundreds of thousands of elements
for _p, _f in (("C01", ["g15"]), ("C02", ["g16"]), ("C03", ["robin"]), ("C04", ["robin16", "flat16"])): CHECKS[_p]["jobs"] += huge(_p, _f, (10, 30), (2, 12), (4, 18))
for _p in ("C05", "C06", "C07", "C08", "C09", "C10"): CHECKS[_p]["jobs"] += huge(_p, MAPS, (10, 12))
CHECKS["C12"]["jobs"] += huge("C12", MAPS, (11, 6))
CHECKS["C13"]["jobs"] += huge("C13", MAPS, (10, 6), props=7)
CHECKS["C16"]["jobs"] += huge("C16", MAPS, (10, 6), san="asan")

# stretches of neighbouring keys that come and go at high load: marks of erased slots pile up
def wear(prop, fams, *cfgs, san="", **kw):
    r = [hist(prop, f, c, n, san, sets={"wear": 1}, **kw) for f in fams for c, n in cfgs]
    for j in r: j.name += ".wear"
    return r
for _p, _f in (("C01", ["g15"]), ("C02", ["g16"]), ("C03", ["robin"])): CHECKS[_p]["jobs"] += wear(_p, _f, (10, 200), (3, 100), (5, 150))
CHECKS["C04"]["jobs"] += wear("C04", ["robin16", "flat16"], (1, 400), (3, 200), (2, 200), (4, 300)) + wear("C04", ["flat16"], (3, 30), san="asan")
CHECKS["C12"]["jobs"] += wear("C12", MAPS, (3, 40)); CHECKS["C16"]["jobs"] += wear("C16", MAPS, (3, 10), san="asan")

# the same code as other compilers and options make it: without AVX2, BMI and POPCNT (the tables' other sets of intrinsics), unsigned char
# (their marks are chars), C++20, clang, no optimisation; with AVX-512 (robin_hash_map and robin16_hash_map have a third set for it) where the processor has it
BUILDS = {"sse2": ["-march=x86-64"], "sse42": ["-march=x86-64-v2"], "uchar": ["-funsigned-char"], "cxx20": ["-std=c++20"], "O0": ["-O0"], "clang": [], "avx512": ["-march=x86-64-v4"]}
def builds(prop, fam, *cfgs, lay=0, san=""):
    r = [hist(prop, fam, c, n, "clang" if b == "clang" else san, lay=lay) for b, c, n in cfgs]
    for j, (b, c, n) in zip(r, cfgs):
        j.name = "%s%s.%d.%s%s" % (fam, LAYS[lay], c, b, san); j.flags = BUILDS[b]; j.optional = True
        if b == "avx512": j.cpu = ["avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"]
    return r
for _p, _f in (("C01", "g15"), ("C02", "g16")):
    CHECKS[_p]["jobs"] += builds(_p, _f, ("sse2", 1, 900), ("sse2", 3, 400), ("sse42", 10, 600), ("uchar", 1, 900), ("cxx20", 2, 400), ("O0", 10, 200), ("clang", 1, 900), ("clang", 3, 400))
CHECKS["C03"]["jobs"] += builds("C03", "robin", ("uchar", 1, 900), ("uchar", 3, 400), ("cxx20", 2, 400), ("O0", 10, 200), ("clang", 1, 900), ("clang", 3, 400), ("avx512", 1, 900), ("avx512", 3, 400), ("avx512", 10, 900))
for _l, _c in ((1, 2), (2, 1), (3, 1)): CHECKS["C03"]["jobs"] += builds("C03", "robin", ("avx512", _c, 600), lay=_l)
CHECKS["C04"]["jobs"] += builds("C04", "robin16", ("avx512", 1, 1500), ("avx512", 3, 700), ("avx512", 4, 1500))
CHECKS["C04"]["jobs"] += [j for f in ("robin16", "flat16") for j in builds("C04", f, ("uchar", 1, 900), ("O0", 2, 200), ("clang", 3, 900))] + builds("C04", "flat16", ("sse42", 1, 900))
for _l, _c in ((0, 3), (2, 1), (3, 1)): CHECKS["C16"]["jobs"] += builds("C16", "robin", ("avx512", _c, 50), lay=_l, san="asan")
CHECKS["C16"]["jobs"] += builds("C16", "g15", ("sse2", 3, 50), san="gasan") + builds("C16", "g16", ("sse2", 3, 50), san="gasan") + builds("C16", "robin", ("uchar", 3, 50), san="gasan")

# the library's own assertions, switched on (harness/dbg/assert.h counts them and reports the first that fails)
def debug(j, n, macro=True):
    j.name += ".debug" if macro else ".asserts"; j.quick, j.thorough, j.optional = n, 20 * n, True
    j.flags = ["-I" + DBG, "-UNDEBUG"] + (["-D_DEBUG"] if macro else []) + [f for f in j.flags if f != "-msha"] + ["-O1"]
    return j
DBG = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "harness", "dbg")
CHECKS["C28"] = dict(
    rule="A case is a random history of map operations as for C04 and C12 (all operations, several maps), of insertion forms, of operations under injected faults, of lookups with foreign keys, or a batch of calls of the string, hash, bit, "
         "vector and random number functions as for the properties on those, in a build with assertions on, with and without _DEBUG; every assertion the library evaluates is counted, the first that fails is reported, and the results are compared with the same models. "
         "Non-trivial and distinct: as for those properties.",
    need={"assertions": 20000000, "max_assertion_places": 60, "events": 2000000, "rehashes": 1000},
    jobs=[debug(hist("C12" if f in MAPS else "C04", f, c, 0), n) for f in FAM for c, n in ((1, 600), (2, 400), (3, 400), (7, 500), (10, 600))]
       + [debug(hist("C12" if f in MAPS else "C04", f, 10, 0), 400, False) for f in FAM]
       + [debug(j, 400) for j in lays("C12", (1, 3, 0, ""), (2, 11, 0, ""), (3, 10, 0, ""))]
       + [debug(j, 12) for f in FAM for j in huge("C12" if f in MAPS else "C04", [f], (10, 0))]
       + [debug(j, 120) for f in FAM for j in wear("C12" if f in MAPS else "C04", [f], (3, 0))]
       + [debug(Job("fault.%s" % f, "fault.cpp", {"FAM": FAM[f], "CFG": 1}), 150) for f in ("g15", "g16")]
       + [debug(Job("args.%s" % f, "args.cpp", {"FAM": FAM[f], "CFG": 1}), 200) for f in MAPS]
       + [debug(Job("ident.%s" % f, "ident.cpp", {"FAM": FAM[f], "CFG": 2}), 100) for f in MAPS]
       + [debug(Job("strhash", "strhash.cpp", {"FAM": 1, "CFG": 1}), 800), debug(Job("mixers", "mixers.cpp", {"CFG": 1}), 60), debug(Job("bits", "bits.cpp", {"CFG": 1}), 400),
          debug(Job("bits32", "bits.cpp", {"CFG": 2}), 200), debug(Job("bits", "bits.cpp", {"CFG": 1}), 200, False), debug(Job("vectors", "vectors.cpp"), 60), debug(Job("rands", "rands.cpp"), 100), debug(Job("svarray", "svarray.cpp"), 600)]
       + [debug(Job("strview.%s" % n, "strview.cpp", {"CFG": c}), 30) for n, c in (("stl", 0), ("sse42", 2))]
       + [debug(Job("strcmps.%s" % n, "strcmps.cpp", {"CFG": c}), 60) for n, c in (("stl", 0), ("sse42", 2))])
for j in CHECKS["C28"]["jobs"]: j.shards = 2

# mapped objects that can be moved but not copied
for _p, _n in (("C08", 350), ("C10", 350), ("C12", 500), ("C06", 350)): CHECKS[_p]["jobs"] += [hist(_p, f, 18, _n) for f in MAPS]
CHECKS["C12"]["jobs"] += lays("C12", (1, 18, 350, ""), (3, 18, 350, ""))
