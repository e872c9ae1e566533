"""The cases of every property: harness entry, parameters, bounds."""


def case(entry, params=(), bounds="", **kw):
    return dict(entry=entry, params=list(params), bounds=bounds, **kw)


PROPS = {}


def prop(pid, outside, assumptions=(), reach=None):
    def deco(f):
        PROPS[pid] = dict(cases=f, outside=outside, assumptions=list(assumptions), reach=reach or {})
        return f
    return deco


COMMON = [
    "LLVM IR of the harness and nanvm-lib (rustc stable, opt-level 1, debug assertions and overflow checks on) has the behaviour of the shipped build",
    "memory model: separate objects with byte-exact bounds, allocation never fails below 8 MB",
    "the engine's instruction semantics; cross-checked by replaying solver models natively and comparing observations",
]


def cases(p, tier):
    cs = [c for c in PROPS[p]["cases"](tier == "thorough") if c]
    seen, out = set(), []
    for c in cs:
        k = (c["entry"], tuple(c["params"]), c.get("hash_seed"))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def reach_labels(p, entry):
    return PROPS[p]["reach"].get(entry, [])


def outside(p):
    return PROPS[p]["outside"]


def assumptions(p):
    return COMMON + PROPS[p]["assumptions"]


def pairs(n, m=None):
    return [(a, b) for a in range(n + 1) for b in range((m if m is not None else n) + 1)]


MANAGERS = ["global heap", "local heap"]
W = "all 64-bit words of operands of %s words, both signs"


@prop("B01", "operands of more words than the bounds name",
      reach={"b01_add_sub": ["computed"], "b01_neg": ["computed"], "b01_from": ["computed"]})
def b01(t):
    n = 6 if t else 4
    return ([case("b01_add_sub", p, W % ("%d and %d" % p)) for p in pairs(n) + [(5, 5), (5, 4), (4, 5)] + ([(7, 7), (8, 8), (9, 1), (1, 9)] if t else [(8, 1)])] +
            [case("b01_neg", [i], W % i) for i in range(n + 1)] + [case("b01_from", [], "all u64")])


@prop("B02", "operands of more words than the bounds name; powers of more than 9 words",
      reach={"b02_mul": ["computed"], "b02_pow": ["computed"], "b02_pow_words": ["computed"], "b02_pow_unit": ["computed"]})
def b02(t):
    r = [case("b02_mul", p, W % ("%d and %d" % p)) for p in pairs(3 if t else 2)]
    r += [case("b02_mul", p, W % ("%d and %d" % p)) for p in [(1, 3), (3, 1), (1, 4), (4, 1)]]
    for e in range(0, 20 if t else 10):
        r.append(case("b02_pow", [6, e, 0], "base of 6 bits, exponent %d" % e))
    for e in range(0, 9 if t else 6):
        r.append(case("b02_pow", [6, e, 58], "base 6 bits << 58, exponent %d" % e))
    r += [case("b02_pow_words", [1, e], W % 1 + ", exponent %d" % e) for e in (0, 1, 2)]
    r += [case("b02_pow_words", [2, e], W % 2 + ", exponent %d" % e) for e in (0, 1)]
    r += [case("b02_pow_unit", [n], "0, 1, -1 to any exponent of %d words" % n) for n in (0, 1, 2, 3)]
    return r


DIVISORS = 29
# dividends of 2 and 3 words that every divisor of these shapes is decided for in seconds
FAST2 = [0, 1, 2, 6, 8, 9, 13, 14, 16, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28]
SLOW2 = [3, 5]
CORNERS_T = [(2, 1, 8, 3), (2, 2, 8, 1), (3, 1, 8, 2), (3, 2, 8, 0), (3, 3, 5, 1), (4, 2, 4, 0)]
CORNERS_Q = [(3, 2, 5, 0), (5, 4, 3, 1), (5, 5, 3, 2)]
FAST3 = [0, 1, 6, 8, 13, 16, 18, 24, 25, 26, 28]


@prop("B03", "divisors outside the table DIVISORS for dividends of more than 8 bits; operands of more words",
      reach={"b03_div_by": ["divided"], "b03_div_by_few": ["divided"], "b03_div_corners": ["divided"], "b03_div_bits": ["divided"], "b03_div_small": ["divided"]})
def b03(t):
    d = "all dividends of %d words, both signs, by the divisor DIVISORS[%d]"
    r = [case("b03_div_by", [1, i], d % (1, i)) for i in range(DIVISORS) if i not in (4, 7)]
    r += [case("b03_div_by", [2, i], d % (2, i)) for i in FAST2 + (SLOW2 if t else [])]
    r += [case("b03_div_by", [3, i], d % (3, i)) for i in FAST3]
    r += [case("b03_div_by_few", [n, i, 1], "dividends of %d words made of a fill bit, a high and a low bit each, both signs, by DIVISORS[%d]" % (n, i))
          for n in (1, 2, 3) for i in range(DIVISORS) if n < 3 or t and i not in (7, 10, 11, 12, 15, 17, 19, 23)]
    c = "dividends of %d words, the lowest any, by divisors of %d words, all other words from the first %d of CORNERS"
    r += [case("b03_div_corners", [n, m, k, g], c % (n, m, k)) for n, m, k, g in ((CORNERS_T if t else CORNERS_Q))]
    r += [case("b03_div_small", p, W % ("%d and %d" % p) + ", |a| <= |b|") for p in SMALL]
    return r


@prop("B04", "operands of more words than the bounds name", reach={"b04_bitwise": ["computed"], "b04_not": ["computed"]})
def b04(t):
    n = 5 if t else 4
    return [case("b04_bitwise", p, W % ("%d and %d" % p)) for p in pairs(n)] + [case("b04_not", [i], W % i) for i in range(n + 2)]


@prop("B05", "left shifts by more than the counts named (they need memory in proportion); operands of more words",
      reach={"b05_shift": ["shifted"], "b05_far": ["shifted"]})
def b05(t):
    r = []
    for n in range(0, 5 if t else 4):
        if t or n <= 2:
            rs = [(lo, lo + 19) for lo in range(0, 260 if t else 140, 20)]
        else:
            rs = [(c, c) for c in (0, 1, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193)]
        r += [case("b05_shift", [n, lo, hi], W % n + ", counts %d..%d, both signs" % (lo, hi)) for lo, hi in rs]
    r += [case("b05_far", [n, m], W % n + ", any count of %d words beyond the value" % m) for n in range(0, 4) for m in (1, 2, 3)]
    return r


@prop("B06", "operands of more words than the bounds name", reach={"b06_compare": ["compared"], "b06_order": ["compared"]})
def b06(t):
    n = 6 if t else 4
    r = [case("b06_compare", p, W % ("%d and %d" % p)) for p in pairs(n) + [(5, 5), (6, 6), (8, 8), (8, 7)]]
    k = 3 if t else 2
    r += [case("b06_order", [a, b, c], W % ("%d, %d and %d" % (a, b, c))) for a in range(k + 1) for b in range(k + 1) for c in range(k + 1)]
    return r


U = "all 64-bit words of operands of %s words"


@prop("B07", "operands of more words than the bounds name; divisors outside the table DIVISORS for dividends above the divisor; left shifts by more than the counts named; powers of more than 9 words",
      reach={"b07_add_sub": ["computed"], "b07_mul": ["computed"], "b07_pow": ["computed"], "b07_pow_unit": ["computed"], "b07_words": ["computed"],
             "b07_div_by": ["divided"], "b07_div_by_few": ["divided"], "b07_div_corners": ["divided"], "b07_div_small": ["divided"],
             "b07_shift": ["shifted"], "b07_far": ["shifted"], "b07_compare": ["compared"]})
def b07(t):
    n = 6 if t else 4
    two = U % "%d and %d"
    r = [case("b07_add_sub", p, two % p) for p in pairs(n) + [(5, 5), (6, 5)]]
    r += [case("b07_compare", p, two % p) for p in pairs(n) + [(5, 5), (6, 6), (8, 8), (8, 7)]]
    r += [case("b07_words", [i], U % i) for i in range(n + 1)]
    r += [case("b07_mul", p, two % p) for p in pairs(3 if t else 2) + [(1, 3), (3, 1)]]
    for e in range(0, 16 if t else 8):
        r.append(case("b07_pow", [6, e, 0], "base of 6 bits, exponent %d" % e))
    for e in range(0, 8 if t else 5):
        r.append(case("b07_pow", [6, e, 58], "base 6 bits << 58, exponent %d" % e))
    r += [case("b07_pow_unit", [i], "0 and 1 to any exponent of %d words" % i) for i in range(4)]
    d = "all dividends of %d words by the divisor DIVISORS[%d]"
    r += [case("b07_div_by", [1, i], d % (1, i)) for i in range(DIVISORS) if i not in (4, 7)]
    r += [case("b07_div_by", [2, i], d % (2, i)) for i in FAST2 + (SLOW2 if t else [])]
    r += [case("b07_div_by", [3, i], d % (3, i)) for i in FAST3]
    r += [case("b07_div_by_few", [k, i, 1], "dividends of %d words made of a fill bit, a high and a low bit each, by DIVISORS[%d]" % (k, i))
          for k in (1, 2, 3) for i in range(DIVISORS) if k < 3 or t]
    c = "dividends of %d words, the lowest any, by divisors of %d words, all other words from the first %d of CORNERS"
    r += [case("b07_div_corners", [n, m, k], c % (n, m, k)) for n, m, k, _ in (CORNERS_T if t else CORNERS_Q)]
    r += [case("b07_div_small", p, two % p + ", a <= b") for p in SMALL]
    for k in range(0, 5 if t else 4):
        rs = [(lo, lo + 19) for lo in range(0, 260 if t else 140, 20)] if t or k <= 2 else [(c, c) for c in (0, 1, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193)]
        r += [case("b07_shift", [k, lo, hi], U % k + ", counts %d..%d" % (lo, hi)) for lo, hi in rs]
    r += [case("b07_far", [k, m], U % k + ", any count of %d words beyond the value" % m) for k in range(4) for m in (1, 2, 3)]
    return r


SMALL = [(0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (0, 3), (1, 3), (2, 3), (3, 3), (4, 4), (4, 5), (5, 5), (6, 6), (8, 8)]


@prop("B08", "operands of more words than the bounds name; divisors outside the table DIVISORS for dividends above the divisor",
      reach={"b08_add_sub": ["computed"], "b08_neg": ["computed"], "b08_from": ["computed"], "b08_mul": ["computed"],
             "b08_div_by": ["divided"], "b08_div_by_few": ["divided"], "b08_div_small": ["divided"], "b08_compare": ["compared"], "b08_order": ["compared"]})
def b08(t):
    n = 6 if t else 4
    r = [case("b08_add_sub", p, W % ("%d and %d" % p)) for p in pairs(n) + [(5, 5), (6, 5)]]
    r += [case("b08_compare", p, W % ("%d and %d" % p)) for p in pairs(n) + [(5, 5), (6, 6), (8, 8), (8, 7)]]
    r += [case("b08_neg", [i], W % i) for i in range(n + 1)] + [case("b08_from", [], "all u64, all i64")]
    r += [case("b08_mul", p, W % ("%d and %d" % p)) for p in pairs(3 if t else 2) + [(1, 3), (3, 1)]]
    d = "all dividends of %d words, both signs, by DIVISORS[%d], both signs"
    r += [case("b08_div_by", [1, i], d % (1, i)) for i in range(DIVISORS) if i not in (4, 7)]
    r += [case("b08_div_by", [2, i], d % (2, i)) for i in (FAST2 if t else [0, 6, 8, 13, 16, 18, 24])]
    r += [case("b08_div_by_few", [k, i, 1], "dividends of %d words made of a fill bit, a high and a low bit each, both signs, by DIVISORS[%d], both signs" % (k, i))
          for k in (1, 2) for i in range(DIVISORS)]
    r += [case("b08_div_small", p, W % ("%d and %d" % p) + ", |a| <= |b|") for p in SMALL]
    k = 3 if t else 2
    r += [case("b08_order", [a, b, c], W % ("%d, %d and %d" % (a, b, c))) for a in range(k + 1) for b in range(k + 1) for c in range(k + 1)]
    return r


@prop("J01", "strings, arrays, objects and bigints of more items than the bounds name; addresses beyond 48 bits",
      reach={"j01_simple": ["moved"], "j01_ref": ["moved"], "j01_equal": ["moved"]})
def j01(t):
    kinds = ["string", "bigint", "array of numbers", "object of booleans"]
    r = [case("j01_simple", [l], "all 2^64 doubles, both booleans, null; %s" % m) for l, m in enumerate(["global heap", "local heap"])]
    r += [case("j01_ref", [k, n, l], "%s of %d items, all contents; %s" % (kinds[k], n, m))
          for k in range(4) for n in range(6 if t else 4) for l, m in enumerate(["global heap", "local heap"])]
    return r + [case("j01_equal", [], "all pairs of doubles")]


@prop("J02", "nothing: all words, tags and masks are covered",
      reach={"j02_has": ["decided"], "j02_pair": ["decided"], "j02_split": ["decided"], "j02_refused": ["decided"]})
def j02(t):
    a = "all 64-bit tags, masks and words"
    return [case("j02_has", [], a), case("j02_pair", [], a), case("j02_split", [], a)] + [case("j02_refused", [i], a) for i in range(4)]


@prop("J03", "containers of more items than the bounds name",
      reach={"j03_walk": ["walked"], "j03_leaf": ["walked"]})
def j03(t):
    return [case("j03_walk", [o, n, r, l], "%ss of %d %s, all contents, a callback that fails at any item or none and keeps what it gets or not; %s" % (["array", "object"][o], n, ["numbers", "strings"][r], MANAGERS[l]))
            for o in (0, 1) for r in (0, 1) for l in (0, 1) for n in (range(12) if t else range(6))] + [
            case("j03_walk", [o, n, 1, 0], "%ss of %d strings, all contents, a callback that fails at any item or none and keeps what it gets or not" % (["array", "object"][o], n)) for o in (0, 1) for n in ((70, 140, 300) if t else (70,))] + [
            case("j03_leaf", [], "all numbers and booleans, null, strings and bigints of two items")]


@prop("R01", "range maps of more entries than the bounds name, of other keys where there are many; keys of other types than u16 (chars are R02's)",
      reach={"r01_get": ["looked up"], "r01_merge": ["merged"], "r01_merge_list": ["merged"], "r01_state": ["merged"], "r01_many": ["looked up"], "r01_into_many": ["merged"]})
def r01(t):
    a = "all sorted 16-bit keys, all values, "
    r = [case("r01_get", [n], a + "%d entries" % n) for n in range(24 if t else 12)]
    r += [case("r01_merge", p, a + "%d and %d entries" % p) for p in (pairs(5) if t else pairs(3) + [(4, 1), (1, 4), (4, 2), (2, 4)])]
    r += [case("r01_merge_list", p, a + "%d maps of %d entries" % p) for p in [(0, 0), (1, 2), (2, 2), (3, 1), (3, 2)] + ([(4, 1), (4, 2), (3, 3)] if t else [])]
    r += [case("r01_many", [n], "%d entries of keys 5 i + 3, asked for all 16-bit keys" % n) for n in ((100, 300, 2000, 8000) if t else (60, 300, 1000))]
    m = "%d entries of keys 8 i + 3 and another one, %s, with a key of %d..%d, all values, asked for keys near by"
    r += [case("r01_into_many", [n, o, k], m % (n, ["second", "first"][o], k, k + 15))
          for n in ((33, 70, 130, 300, 700) if t else (70, 300)) for o in (0, 1) for k in (0, 4 * n, 8 * n - 8)]
    r += [case("r01_state", p, a + "%d and %d entries" % p) for p in pairs(3 if t else 2)]
    return r


@prop("R02", "nothing: all characters are covered", reach={"r02_one": ["looked up"], "r02_range": ["looked up"], "r02_table": ["looked up"]})
def r02(t):
    return [case("r02_one", [], "all characters"), case("r02_range", [], "all ranges of characters"), case("r02_table", [], "all ranges and characters")]


@prop("M01", "longer histories than the bounds name, more than three variables; threads (the counters are used from one thread); unwinding out of a panic",
      reach={"m01_history": ["ended"], "m01_local_size": ["ended"], "m01_many": ["ended"]})
def m01(t):
    b = "every history of %d operations (create, share, drop, store in an array or object, take out, convert, write when unique) over 3 variables from start state %d, all contents; %s"
    return ([case("m01_history", [s, n, l], b % (n, s, MANAGERS[l])) for l in (0, 1) for s in (0, 1, 2) for n in ([1, 2, 3, 4] if t else [1, 2, 3])] +
            [case("m01_local_size", [n], "every history of %d creations and drops of blocks of several sizes" % n) for n in range(1, 5 if t else 4)] +
            [case("m01_many", [lo, hi, o, k], "%s of %d..%d references to one string%s, both heaps" % (["arrays", "objects"][o], lo, hi, ["", ", one of which outlives the rest"][k]))
             for lo, hi in ((0, 140), (250, 260), (1020, 1030)) + (((140, 250), (4090, 4100), (65530, 65540)) if t else ()) for o in (0, 1) for k in (0, 1)])


@prop("M02", "longer histories than the bounds name; more than four references with a history; threads",
      assumptions=["m02_count sets the number of references a block has by its counter, which is the number of others"],
      reach={"m02_unique": ["asked"], "m02_often": ["asked"], "m02_count": ["asked"]})
def m02(t):
    kinds = ["string", "array", "bigint", "object", "single value"]
    return [case("m02_often", [n], "a value of %d references, all contents; both heaps" % n) for n in ((1, 127, 128, 255, 256, 32768, 70000) if t else (130, 300, 70000))] + [
        case("m02_count", [], "a value with any number of references below 2^63 - 2, all contents; both heaps")] + [
        case("m02_unique", [k, n, l], "%s: every history of %d shares, drops and requests over 4 references, all contents; %s" % (kinds[k], n, MANAGERS[l]))
            for k in range(5) for l in (0, 1) for n in ([2, 4, 6, 7] if t else [5])]


@prop("M03", "header and item types other than those named; arrays longer than the bounds name",
      assumptions=["a manager of the harness hands out storage aligned exactly as requested and compares what is released"],
      reach={"m03_flexible": ["built"], "m03_fixed": ["built"], "m03_sizes": ["computed"], "m03_local_align": ["built"]})
def m03(t):
    ms = ["strict heap, Cell counter", "strict heap, atomic counter"] + MANAGERS
    hs = ["usize", "1-byte", "5 bytes in 6", "32-byte aligned"]
    it = ["u8", "u16", "u32", "u64", "u128", "[u8; 3]", "64-byte aligned", "zero-sized", "with a destructor"]
    n = 12 if t else 4
    r = [case("m03_flexible", [h, i, 0, m, n, w], "header %s, items %s, 0..%d items, all contents; %s" % (hs[h], it[i], n, ms[m]))
         for h in range(4) for i in range(9) for m in range(4) for w in (0, 1) if t or w == (h + i + m) % 2]
    r += [case("m03_fixed", [k, m], "single values of 8 types; " + ms[m]) for k in range(8) for m in range(4)]
    r += [case("m03_sizes", [h], "header %s: sizes of arrays of every length below 2^40, items of 10 types, 4 managers" % hs[h]) for h in range(4)]
    return r + [case("m03_local_align", [k], "alignments 1, 8, 16, 32, 64 on a local heap") for k in range(6)]


@prop("M04", "more requests, larger blocks and buffers than the bounds name", assumptions=["the arena is reached through the guarded function mem::arena::verif_alloc"],
      reach={"m04_arena": ["served", "refused"]})
def m04(t):
    return [case("m04_arena", [n, o], "every sequence of %d requests of 0..100 bytes and alignments 1..64 in buffers of 0, 48, 96, 144 bytes at offset %d" % (n, o))
            for n in range(0, 5 if t else 4) for o in ((0, 1, 8, 24) if t and n < 4 else (0, 1))]


@prop("F02", "significands of more words than the bounds name; exponents beyond 2^40", reach={"f02_double": ["converted"]})
def f02(t):
    kinds = ["too large", "normal", "subnormal", "too small"]
    b = "all significands of %d words whose top word has %d..%d bits, all exponents within 2^40 that make the value %s, both signs, with and without a remainder"
    r = [case("f02_double", [0, 0, 0, 0], "zero, both signs, all exponents within 2^40")]
    for n in range(1, 4 if t else 3):
        for k in (0, 1, 3):
            r += [case("f02_double", [n, k, lo, lo + 15], b % (n, lo, lo + 15, kinds[k])) for lo in (1, 17, 33, 49)]
        bits = range(1, 65) if t and n < 3 else (1, 3, 11, 53, 64) if n == 1 else (11,)
        r += [case("f02_double", [n, 2, l, l], b % (n, l, l, kinds[2])) for l in bits]
    if not t:
        r += [case("f02_double", [3, 1, 60, 64], b % (3, 60, 64, kinds[1]))]
    return r


@prop("F03", "significands of other sizes, exponents and precisions than the bounds name", reach={"f03_bin": ["converted"]})
def f03(t):
    b = "all significands of %d words whose top word has %d..%d bits, exponents 10^%d..10^%d, both signs, precisions of %d..%d bits"

    def c(n, lo, hi, e0, e1, p0, p1):
        return case("f03_bin", [n, lo, hi, e0 + 1000, e1 + 1000, p0, p1], b % (n, lo, hi, e0, e1, p0, p1))
    r = [c(0, 0, 0, -3, 5, 1, 255), c(1, 1, 64, 0, 0, 1, 1), c(1, 1, 64, 0, 0, 54, 54), c(1, 1, 16, 1, 1, 24, 24), c(1, 60, 64, 1, 1, 64, 65), c(1, 1, 8, -1, -1, 24, 24), c(1, 1, 8, -3, -3, 64, 64),
         c(1, 60, 60, -1, -1, 1, 1), c(2, 1, 2, 0, 0, 1, 2), c(3, 64, 64, 0, 0, 127, 128), c(2, 8, 8, 3, 3, 100, 100), c(1, 10, 12, 0, 3, 8, 9), c(1, 1, 4, 27, 27, 53, 53), c(1, 1, 4, -5, -5, 10, 12), c(4, 1, 2, 0, 0, 200, 255)]
    if t:
        r += [c(1, 1, 64, 0, 0, p, p) for p in (2, 3, 8, 32, 52, 53, 63, 64, 65, 127, 128, 129)] + [c(1, 1, 10, e, e, p, p) for e in (-1, -2, -4, 1, 2, 5, 10, 22) for p in (1, 24, 54, 65)]
        r += [c(2, 1, 64, 0, 0, p, p) for p in (54, 64, 65, 100)] + [c(1, 30, 32, -1, -1, 20, 54), c(3, 1, 64, 0, 0, 54, 54), c(1, 60, 64, 2, 4, 54, 54)]
    return r


@prop("F01", "significands of more words; for exponents below zero significands other than 10 bits and the windows named; exponents beyond 1100",
      reach={"f01_exp": ["converted"]})
def f01(t):
    b = "all significands of %d words whose top word has %d..%d bits, exponents 10^%d..10^%d, both signs"
    w = "significands HARD[%d] with any 8 bits from bit %d changed, exponents 10^%d..10^%d, both signs"
    r = []

    def full(n, lo, hi, e):
        r.append(case("f01_exp", [0, n, lo, hi, e + 1000, e + 1000], b % (n, lo, hi, e, e)))

    def window(i, pos, lo, hi):
        r.append(case("f01_exp", [1, i, 8, pos, lo + 1000, hi + 1000], w % (i, pos, lo, hi)))

    for lo in range(1, 64, 16):
        full(1, lo, lo + 15, 0)
    full(2, 1, 8, 0)
    for e in (1, 2, 3, 5) if not t else range(1, 28):
        full(1, 60, 64, e)
        if e < 4 or t:
            full(1, 1, 16, e)
    for e, n in ((-1, 10), (-2, 8)) if not t else ((-1, 16), (-2, 12), (-3, 10), (-4, 10)):
        full(1, 1, n, e)
    for i in range(13):
        for pos in (0, 45) if not t else (0, 8, 16, 24, 32, 40, 48, 56):
            for lo, hi in ((-30, -1), (0, 40), (-345, -325), (-310, -290), (270, 310)):
                if not t and (i % 3 and lo not in (-30, -345) or pos and not -100 < lo < 100):
                    continue
                window(i, pos, lo, hi)
    for n in (2, 3, 4, 6, 9, 14) if t else (2, 3, 5):
        for pos in (0, 30, 56) if t else (0, 56):
            r.append(case("f01_exp", [2, n, 8, pos, 1000, 1000], "significands of %d words half way between two doubles or above by any 8 bits from bit %d, both signs" % (n, pos)))
    if t:
        full(2, 1, 64, 0)
        for e in (1, 2, 7):
            full(2, 32, 40, e)
        for lo in range(-1100, 1100, 50):
            window(6, 0, lo, lo + 49)
    return r


KINDS = ["any ASCII", "any character", "any non-ASCII character", "digits", "one of 019.eE+-n and space", 'one of 07afAFDd89cC"\\u', 'one of "\\u/bnd, line ends',
         "one of */a, space, line ends", "one of a9_$Z-. and space", "hex digits"]


LONG_TEXTS = ["a long string", "a long word", "spaces", "a long comment", "a long comment of stars", "many brackets", "a string of escapes", "a long bigint", "many lines", "many comments", "a long fraction", "many arrays"]
LENGTHS = [0, 33, 66, 130, 258, 515]


def around(table, ctx):
    return "%s[%d]" % (table, ctx) if ctx < 100 else "%s of %d parts" % (LONG_TEXTS[ctx % 100], LENGTHS[ctx // 100])


def text(ctx, *kinds):
    return case("tok_text", [ctx, len(kinds)] + list(kinds), "texts %s around %d characters: %s" % (around("CONTEXTS", ctx), len(kinds), ", ".join(KINDS[k] for k in kinds)))


LEX = "texts of other shapes or with more symbolic characters than the bounds name"


@prop("T01", LEX, reach={"tok_text": ["valid text", "invalid text"]})
def t01(t):
    r = [text(0, *[0] * n) for n in range(5 if t else 4)]
    r += [text(0, 1), text(0, 1, 1), text(0, 0, 1, 0)]
    r += [text(c, *[0] * n) for c in range(1, 32) for n in ((1, 2, 3) if t else (1,))]
    r += [text(c, 1) for c in range(1, 32) if c != 18 or t]
    r += [text(100 * k + i, 0) for k in ((1, 2, 3, 4, 5) if t else (2, 4)) for i in range(12) if i != 11 or k < 3 or t]
    if t:
        r += [text(0, 1, 1, 1), text(0, 6, 6, 6, 6, 6), text(0, 7, 7, 7, 7, 7, 7)]
    return r


@prop("T02", LEX, reach={"tok_text": ["valid text", "invalid text"]})
def t02(t):
    r = [text(1, 0, 0), text(1, 0, 0, 0), text(1, 2), text(1, 1, 1), text(31, 1, 0), text(7, 0, 0), text(7, 2), text(2, 0, 0)]
    r += [text(3, *[0] * n) for n in (1, 2, 3, 4)] + [text(3, *[9] * 4), text(3, 9, 9, 9, 2)]
    r += [text(4, *[0] * n) for n in (2, 3)] + [text(4, 9, 9, 9, 9), text(4, 9, 9, 0, 0), text(4, 9, 9, 9, 9, 0)]
    r += [text(5, 0), text(5, 0, 0), text(5, 1), text(6, 9, 9, 9, 9), text(8, 0, 0), text(8, 9, 9, 0)]
    r += [text(1, *[6] * n) for n in ((4, 5, 6) if t else (4,))]
    r += [text(100 * k + i, c) for k in range(1, 6) for i in (0, 6) for c in (0, 1)]
    if t:
        r += [text(1, 0, 0, 0, 0), text(1, 1, 1, 1), text(4, 0, 0, 0, 0), text(4, 0, 0, 0, 0, 0), text(5, 0, 0, 0), text(3, 9, 9, 9, 9, 0, 0), text(7, 0, 0, 0)]
    return r


@prop("T03", LEX + "; the values of number literals beyond those of F01", reach={"tok_text": ["valid text", "invalid text"]})
def t03(t):
    r = [text(c, 0, 0) for c in (9, 10, 11, 12, 15, 16, 17, 19)] + [text(c, 0) for c in range(9, 21)]
    r += [text(0, 4, 4, 4), text(13, 3, 0), text(14, 3), text(20, 3), text(18, 3, 3), text(16, 3, 3, 3), text(17, 3, 3, 3), text(10, 4, 4, 4), text(9, 3, 3, 3)]
    r += [text(c, 0, 0) for c in (13, 14, 20)] + [text(c, 4, 4, 4) for c in (9, 11, 12, 13)]
    r += [text(100 * k + i, c) for k in ((1, 2, 3, 4, 5) if t else (1, 2, 4)) for i, c in ((7, 0), (7, 3))] + [text(110, 0)]
    if t:
        r += [text(0, *[4] * 4), text(0, *[4] * 5), text(10, *[4] * 4), text(13, 3, 3, 0), text(14, 3, 3), text(20, 3, 3), text(11, 0, 0, 0), text(12, 0, 0, 0), text(15, 3, 3, 3), text(9, *[3] * 5)]
    return r


@prop("T04", LEX, reach={"tok_text": ["valid text", "invalid text"]})
def t04(t):
    r = [text(c, 0, 0) for c in range(21, 31)] + [text(0, *[7] * 4), text(0, *[8] * 4), text(23, *[7] * 3), text(24, *[7] * 3), text(22, *[7] * 3)]
    r += [text(c, 1) for c in range(21, 31)]
    r += [text(100 * k + i, 0) for k in range(1, 6) for i in (1, 2, 3, 4, 5, 8, 9)]
    if t:
        r += [text(c, 0, 0, 0) for c in range(21, 31)] + [text(0, *[7] * 6), text(0, *[8] * 6), text(23, *[7] * 5), text(28, *[7] * 5), text(25, *[7] * 5)]
    return r


LONGS = ["nested arrays", "nested objects", "nested arrays and objects", "a long array", "a long object", "many line ends", "nested arrays in a const", "many consts that use each other", "a long array of consts"]
TIMES = [0, 17, 35, 66, 130, 260]
SEQ = ["any token from the start", "documents of []{},: string number null", "documents of []{},: string", "[{ string :[ and items", "items of an array", "a property's value",
       "leaves", "an object with keys", "nine levels deep", "an object",
       "const statements from the start", "a const, then more and an export", "two consts, the second symbolic", "two consts, then anything", "a const's value and what follows",
       "two consts of symbolic names, then an export", "const, then anything", "module, then anything", "export, then anything", "a const, then an exported value",
       "imports from the start", "import, then anything", "require inside an array", "two consts, the second an object", "three consts, the third symbolic", "two imports, an exported array",
       "a required const, then anything", "require inside an object", "an import, then an exported value"]
FREE = "sequences of other shapes or with more symbolic tokens than the bounds name"


def seq(i, n, extra=0, mode=0):
    what = "SEQS[%d] (%s)" % (i, SEQ[i]) if i < 100 else "LONG[%d] (%s, %d times)" % (i % 100, LONGS[i % 100], TIMES[i // 100])
    return case("par_tokens", [mode, i, n, extra], "every sequence of up to %d symbolic tokens of %s, all numbers, names and characters in them, %d more after an error; %s" % (n, what, extra, ["parse_with_tokens", "JsonState::push"][mode]))


VALUES, AROUND, STATEMENTS, IMPORTS = range(0, 30), range(30, 38), range(38, 66), range(66, 85)


def place(i, n, extra, mode=0, within=0):
    if within:
        return case("par_tokens", [mode, 1000 + 100 * within + i, n, extra], "up to %d tokens of any kind at PLACES[%d] in %s, %d more after an error, all numbers, names and characters in them; %s" % (n, i, ["", "the value of a const", "an exported value", "an exported value (CommonJS)", "the value of a second const"][within], extra, ["parse_with_tokens", "JsonState::push"][mode]))
    return case("par_tokens", [mode, 1000 + i, n, extra], "up to %d tokens of any kind at PLACES[%d] of a document, %d more after an error, all numbers, names and characters in them; %s" % (n, i, extra, ["parse_with_tokens", "JsonState::push"][mode]))


def txt(entry, ctx, *kinds):
    return case(entry, [ctx, len(kinds)] + list(kinds), "texts %s around %d characters: %s" % (around({"par_text": "TEXTS", "par_lex": "CONTEXTS"}[entry], ctx), len(kinds), ", ".join(KINDS[k] for k in kinds)))


@prop("P01", FREE + "; longer symbolic parts of texts", reach={"par_tokens": ["accepted", "refused"], "par_text": ["accepted", "refused"], "par_lex": ["refused"]})
def p01(t):
    r = [seq(0, n, 1) for n in ((2, 3, 4) if t else (2, 3))]
    r += [place(i, 2, 1) for i in (*VALUES, *AROUND, *STATEMENTS, *IMPORTS)]
    r += [txt("par_text", 0, 0, 0, 0)] if t else [txt("par_text", 0, 0, 0, 4)]
    r += [txt("par_text", c, 0, 0) for c in range(12)] + [txt("par_text", c, 1) for c in range(12)]
    r += [txt("par_lex", 100 * k + c, 0) for k in ((1, 2, 3, 4, 5) if t else (2, 4)) for c in range(12) if c not in (7, 10) and (c != 11 or t or k < 3)]
    r += [txt("par_lex", c, *([0] if 9 <= c <= 20 else [0, 0])) for c in range(32)]
    if t:
        r += [txt("par_text", c, 0, 0, 0) for c in (1, 2, 4, 6, 7, 10)] + [txt("par_lex", c, 0, 0) for c in range(9, 21)]
    return r


@prop("P02", FREE, reach={"par_tokens": ["accepted", "refused"]})
def p02(t):
    r = [seq(0, 3, 0), seq(1, 9 if t else 7), seq(2, 12 if t else 9), seq(3, 6 if t else 5, 1), seq(4, 8 if t else 6), seq(5, 7 if t else 5, 1), seq(6, 7 if t else 5), seq(7, 11 if t else 8), seq(8, 12 if t else 8), seq(9, 9 if t else 7)]
    r += [place(i, 3, 1) for i in (*VALUES, *AROUND)] + [place(i, 2, 2) for i in VALUES if t or i % 3 == 0]
    return r + [seq(100 * k + i, 3 if t else 2) for k in ((1, 2, 3, 4, 5) if t else (3, 5)) for i in range(6)]


@prop("P03", FREE + "; documents that mix the two kinds of modules, line ends inside the head of a statement, a semicolon after the exported value",
      reach={"par_tokens": ["accepted", "refused"]})
def p03(t):
    n = {10: 8, 11: 7, 12: 5, 13: 5, 14: 4, 15: 6, 16: 7, 17: 7, 18: 7, 19: 5, 23: 7, 24: 6, 25: 5}
    more = {10: 9, 11: 9, 12: 7, 13: 7, 14: 6, 15: 8, 16: 8, 17: 9, 18: 9, 19: 7, 23: 9, 24: 8, 25: 7}
    r = [seq(i, more[i] if t else n[i], 1 if i in (10, 13, 16, 17, 18) else 0) for i in n]
    r += [place(i, 3 if t else 2, 1, 0, w) for i in VALUES for w in (1, 2, 3, 4)]
    r += [place(i, 3, 1) for i in STATEMENTS] + ([place(i, 2, 2) for i in STATEMENTS] if t else [])
    return r + [seq(100 * k + i, 4 if t else 3) for k in ((1, 2, 3, 4, 5) if t else (3, 5)) for i in (6, 7, 8)]


@prop("P06", FREE + "; imports; documents that mix the two kinds of modules, line ends inside the head of a statement, a semicolon after the exported value",
      reach={"par_tokens": ["accepted", "refused"]})
def p06(t):
    n = {10: 8, 11: 7, 12: 5, 13: 5, 14: 4, 15: 6, 16: 7, 17: 7, 18: 7, 19: 5, 23: 7, 24: 6}
    r = [seq(0, 4 if t else 3, 1, 1), seq(1, 8 if t else 6, 0, 1), seq(2, 10 if t else 8, 0, 1), seq(3, 5 if t else 4, 1, 1), seq(4, 7 if t else 5, 0, 1), seq(5, 6 if t else 4, 1, 1),
         seq(6, 6 if t else 4, 0, 1), seq(7, 10 if t else 7, 0, 1), seq(8, 10 if t else 7, 0, 1), seq(9, 8 if t else 6, 0, 1)]
    r += [seq(i, n[i] - (not t), 1 if i in (10, 13, 16) else 0, 1) for i in n]
    r += [place(i, 3 if t else 2, 1, 1, w) for i in VALUES for w in (1, 3, 4)]
    r += [place(i, 3, 1, 1) for i in (*VALUES, *AROUND, *STATEMENTS)]
    return r + [seq(100 * k + i, 3 if t else 2, 0, 1) for k in ((1, 3, 5) if t else (3,)) for i in range(9)]


@prop("P04", "longer paths than the bounds name; characters other than ASCII; import paths that start at the root",
      reach={"p04_normalize": ["normalized"], "p04_concat": ["joined"], "p04_split": ["split"], "p04_spelling": ["respelled"]})
def p04(t):
    a = "all paths of %d ASCII characters"
    m = 11 if t else 9
    r = [case("p04_normalize", [n], a % n) for n in range(m + 1)] + [case("p04_split", [n], a % n) for n in range(m + 1)]
    r += [case("p04_concat", p, (a + " and %d") % p) for p in (pairs(6) if t else pairs(4) + [(5, 5), (6, 3), (2, 7)])]
    return r + [case("p04_spelling", p, (a + " and %d, five things between them") % p) for p in (pairs(5) if t else pairs(4))]


@prop("P05", "larger graphs than the bounds name; import paths that start at the root; one module cache for several runs",
      reach={"p05_graph": ["accepted", "refused"], "par_tokens": ["accepted", "refused"]})
def p05(t):
    b = "every graph of %d modules in three folders, each with up to %d imports, %s; modules are %s; the root is given as %s"
    def g(n, k, f, s, r, m=0):
        return case("p05_graph", [n, k, f, s, r, m], (b + ["", "; JSON documents, and exports that are an import, too", "; the same, importing only modules after them"][m]) % (n, k, "each file there, missing or invalid" if f else "no faults", ["CommonJS", "ES modules", "mixed"][s], ["m0", "./m0"][r]))
    r = [g(1, 2, 1, 0, 0), g(2, 2, 1, 0, 0), g(2, 3, 1, 1, 0), g(2, 3, 1, 2, 1), g(3, 2, 0, 0, 1), g(3, 2, 1, 1, 0), g(3, 2, 1, 2, 1), g(4, 1, 1, 1, 0), g(5, 1, 1, 2, 0)]
    r += [g(2, 2, 1, 0, 0, 1), g(2, 2, 1, 1, 1, 1), g(4, 1, 0, 1, 0, 1), g(3, 2, 1, 2, 0, 2), g(3, 2, 1, 0, 0, 2), g(3, 3, 0, 1, 0, 2)]
    if t:
        r += [g(3, 2, 1, s, 1, 1) for s in (0, 1)] + [g(4, 1, 1, 0, 0, 1), g(3, 2, 0, 2, 0, 1), g(4, 2, 0, 1, 0, 2)]
        r += [g(4, 2, 0, s, s % 2) for s in (0, 1, 2)] + [g(3, 3, 1, 2, 0), g(4, 2, 1, 2, 1)]
    r += [place(i, 3 if t else 2, 1) for i in IMPORTS]
    return r + [seq(20, 8 if t else 6, 1), seq(21, 8 if t else 7, 1), seq(22, 7 if t else 5, 0), seq(25, 7 if t else 5), seq(26, 8 if t else 6), seq(27, 8 if t else 7), seq(28, 7 if t else 5)]


@prop("M05", "longer symbolic parts of texts; more than one imported module", reach={"m05_text": ["accepted", "refused"]})
def m05(t):
    def c(i, *kinds):
        return case("m05_text", [i, len(kinds)] + list(kinds), "texts RELEASE[%d] around %d characters: %s" % (i, len(kinds), ", ".join(KINDS[k] for k in kinds)))
    short = (6, 8, 9, 11)
    r = [c(i, *[0] * (1 if i in short else 2)) for i in range(12)] + [c(i, 1) for i in range(12) if i != 9]
    if t:
        r += [c(i, 0, 0, 0) for i in range(12) if i not in short] + [c(8, 0, 0), c(9, 3, 0), c(9, 3, 3), c(6, 0, 0), c(11, 0, 0)]
    return r


VAL = "every value made of %s, up to %d levels, %d parts at each, %d parts altogether"
MADE = ["null, booleans, arrays, objects", "null, strings of any one code unit, objects", "numbers of twelve sorts, arrays", "null, infinities and NaN, bigints, arrays, objects",
        "strings of any one character, empty strings, arrays, objects", "numbers of twelve sorts, booleans, objects", "null, bigints, arrays, objects", "words, infinities and NaN, arrays, objects"]
PATTERNS = 14


def tree(entry, m, d, w, n, *more):
    return case(entry, [m, d, w, n, *more], VAL % (MADE[m], d, w, n))


def long(entry, k, n):
    w = ["a string of %d characters and any", "a string of any character and %d", "an array of %d parts", "an object of %d parts", "arrays %d deep", "objects %d deep"][k] % n
    return case(entry, [k, n], w + (", one part a string of any code unit" if k > 1 else ""))


def doubles(entry, t):
    b = "double pattern %d with every value of %d bits from bit %d"
    if t:
        return [case(entry, [i, 8, s], b % (i, 8, s)) for i in range(PATTERNS) for s in range(0, 64, 8)]
    return [case(entry, [i, 6, s], b % (i, 6, s)) for i in range(PATTERNS) for s in (0, 28, 47, 52, 58)]


@prop("S01", "larger values than the bounds name; longer strings; doubles whose bits differ from the patterns in more than one window",
      reach={"s01_tree": ["written"], "s01_string": ["written"], "s01_keys": ["written"], "s01_long": ["written"]})
def s01(t):
    b = "all strings of %d code units, as a %s"
    r = [case("s01_string", [n, 0], b % (n, "value")) for n in range(5 if t else 4)]
    r += [case("s01_string", [n, 1], b % (n, "key")) for n in range(4 if t else 3)] + [case("s01_keys", [0], "all two different keys of one code unit")]
    r += [tree("s01_tree", 0, 3, 2, 7 if t else 6), tree("s01_tree", 0, 2, 3, 7 if t else 6), tree("s01_tree", 1, 2, 2, 4), tree("s01_tree", 2, 2, 2, 4 if t else 3),
          tree("s01_tree", 3, 2, 2, 5 if t else 4), tree("s01_tree", 5, 2, 2, 4 if t else 3), tree("s01_tree", 7, 2, 2, 4), tree("s01_tree", 0, 6, 1, 7)]
    r += [long("s01_long", k, n) for k in range(6) for n in ((10, 33, 66, 130, 260, 600) if t else (33, 130, 260)) if n <= (260 if k > 1 else 600)]
    return r + doubles("s01_number", t)


@prop("S02", "larger values than the bounds name; longer strings; doubles whose bits differ from the patterns in more than one window; strings that are no text (lone surrogates, which the reader refuses)",
      reach={"s02_tree": ["read back"], "s02_string": ["read back"], "s02_long": ["read back"]})
def s02(t):
    def s(key, *kinds):
        return case("s02_string", [len(kinds), key, *kinds], "all strings of %s, as a %s" % (" then ".join(KINDS[k] for k in kinds) or "no characters", "key" if key else "value"))
    r = [s(k, *[0] * n) for k in (0, 1) for n in range(5 if t and not k else 4 - k)] + [s(0, 1), s(1, 1), s(0, 0, 1), s(0, 2, 0)]
    if t:
        r += [s(0, 0, 1, 0), s(1, 0, 1), s(0, 1, 0, 0)]
    r += [tree("s02_tree", 0, 3, 2, 7 if t else 5), tree("s02_tree", 2, 2, 2, 4 if t else 2), tree("s02_tree", 4, 1, 1, 3), tree("s02_tree", 5, 2, 2, 4 if t else 3), tree("s02_tree", 0, 6, 1, 7)]
    r += [long("s02_long", k, n) for k in range(6) for n in ((10, 33, 66, 130, 260, 600) if t else (66, 260)) if n <= (260 if k > 1 else 600)]
    return r + doubles("s02_number", t)


@prop("S03", "larger graphs than the bounds name; orders of the randomised tables other than those of the seeds that are run; sharing of strings and bigints (they are written at every use)",
      reach={"s03_graph": ["written"], "s03_tree": ["written"], "s03_bigint": ["written"], "s03_string": ["written"], "s03_many": ["written"], "s03_deep": ["written"]})
def s03(t):
    leaf = ["nothing else", "null", "strings of any ASCII character", "bigints"]
    kind = ["arrays", "objects", "arrays or objects"]

    def g(n, w, k, l, back, *seeds):
        b = "every value of %d %s, each with up to %d parts, these or %s%s" % (n, kind[k], w, leaf[l], ", read back by the parser" if back else "")
        return [case("s03_graph", [n, w, k, l, back], b + "; hash seed %d" % h, hash_seed=h) for h in seeds]
    r = g(1, 2, 2, 2, 1, 0) + g(2, 3, 2, 1, 1, 0, 1) + g(3, 2, 2, 1, 0, 0, 1, 2) + g(3, 3, 0, 0, 1, 0, 1) + g(4, 2, 0, 0, 1, 0, 1, 2) + g(4, 2, 1, 0, 0, 3) + g(3, 2, 1, 3, 1, 4) + g(5, 2, 0, 0, 0, 5)
    if t:
        r += g(3, 3, 2, 1, 0, 6, 7) + g(4, 2, 2, 0, 0, 8, 9) + g(4, 3, 0, 0, 0, 10) + g(5, 2, 0, 0, 1, 11, 12) + g(5, 2, 2, 0, 0, 13) + g(6, 2, 0, 0, 0, 14) + g(4, 2, 0, 1, 1, 15)
    r += [tree("s03_tree", 6, 2, 2, 5 if t else 4, 0), tree("s03_tree", 3, 2, 2, 5 if t else 4, 0), tree("s03_tree", 4, 1, 1, 2, 1), tree("s03_tree", 2, 2, 2, 3, 1), tree("s03_tree", 7, 2, 2, 4, 0)]
    r += [case("s03_many", [n, b], "%d arrays, all used twice but any one%s" % (n, ", read back by the parser" if b else ""), hash_seed=h)
          for n, b, h in (((9, 1, 0), (12, 1, 1), (27, 0, 2), (30, 0, 3), (64, 0, 4), (102, 0, 5)) if t else ((11, 1, 0), (27, 0, 1)))]
    r += [case("s03_deep", [n, b], "%d levels, the outermost shared or not%s" % (n, ", read back by the parser" if b else "")) for n, b in ((10, 1), (66, 0), (130, 0)) + (((260, 1),) if t else ())]
    w = 8 if t else 5
    r += [case("s03_bigint", [0, 0, 0, 0], "zero")]
    r += [case("s03_bigint", [n, p, w, s], "bigints of %d words, all bits %d, with every value of %d bits from bit %d, both signs" % (n, p, w, s))
          for n in (1, 2, 3) for p in (0, 1) for s in sorted({0, 29, 64 * n - w} | ({64 * (n - 1), 64 * (n - 1) + 31} if t else set())) if p or s >= 64 * (n - 1)]

    def s(key, *kinds):
        return case("s03_string", [len(kinds), key, *kinds], "all strings of %s, as a %s" % (" then ".join(KINDS[k] for k in kinds), "key" if key else "value"))
    return r + [s(0, 0, 0), s(1, 0, 0), s(0, 1), s(1, 1)] + ([s(0, 0, 0, 0), s(0, 0, 1)] if t else [])


@prop("A01", "longer texts than the bounds name; mixtures of module kinds and other open regions of P03; faults that stop half way through a write (the file system's write is one step)",
      reach={"a01_text": ["failed"], "a01_name": ["failed"]})
def a01(t):
    out = [".json", ".d.cjs", ".d.mjs", ".js"]
    fault = {0: "no fault", 1: "the input is missing", 2: "writing fails", 4: "the imported module is missing", 8: "the imported module is invalid"}

    def x(o, i, f, *kinds):
        return case("a01_text", [o, i, f, len(kinds), *kinds], "output %s, input template %d with %s; %s" % (out[o], i, " then ".join(KINDS[k] for k in kinds) or "nothing more", fault[f]))

    def n(o, k, i, f, a=0):
        return case("a01_name", [o, k, i, f, a], "output name template %d with %d ASCII characters; %s; %d arguments missing" % (o, k, fault[f], a))
    r = [x(o, i, 0, 0, 0) for o in (0, 1, 2) for i in (0, 1, 2, 3, 8)] + [x(o, 9, 0, *k) for o in (0, 1) for k in ((0, 0), (4, 4, 4))] + [x(0, 10, 0, 4, 4)]
    r += [x(o, 4, 0, 3, 3) for o in (0, 1)] + [x(o, 5, 0, 1) for o in (0, 1, 2)] + [x(1, 5, 0, 0, 0)]
    r += [x(o, i, f, 0) for o in (0, 1, 2) for i in (6, 7) for f in (0, 2, 4, 8)] + [x(o, i, f, 0) for o in (0, 1, 2, 3) for i in (0, 3) for f in (1, 2)] + [x(3, 0, 0, 0)]
    r += [n(o, 1, 0, 0) for o in (0, 1, 2, 5, 6, 7, 8, 9, 10, 11)] + [n(4, k, 0, 0) for k in range(8)] + [n(5, 2, 1, 2), n(0, 0, 1, 1)]
    r += [n(0, 0, 0, 0, a) for a in (1, 2, 3)] + [n(o, 0, 0, f) for o in (0, 1, 2) for f in (1, 2)]
    if t:
        r += [x(o, i, 0, 0, 0, 0) for o in (0, 1) for i in (0, 1, 2, 3)] + [x(o, 4, 0, 3, 3, 3) for o in (0, 2)] + [x(o, 9, 0, 0, 0, 0) for o in (0, 1, 2)] + [x(1, 5, 0, 0, 1), x(1, 6, 0, 0, 0), x(1, 7, 0, 0, 0)]
        r += [n(4, k, 0, 0) for k in (8, 9, 10)] + [n(o, 3, 0, 0) for o in (5, 6, 7, 8)]
    return r
