"""What each property's check explores: harness entry points with their bounds."""
import json, os
from dataclasses import dataclass, field

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_C = os.path.join(V, "drv", "costs.json")
COSTS = json.load(open(_C)) if os.path.exists(_C) else {}

ASSUME = [
    "LLVM IR emitted by the pinned rustc for the dev profile with overflow checks and debug assertions, optimised (opt-level 2), stands for the code the tests build",
    "allocation succeeds; threads, I/O and the clock are outside the explored code",
]


@dataclass
class Job:
    fn: str
    args: tuple
    bound: str = ""
    secs: int = 60
    max_paths: int = 200000
    max_inst: int = 400_000_000
    rlimit: int = 200_000_000
    id: str = ""

    def __post_init__(self):
        self.id = self.id or f"{self.fn}:{','.join(map(str, self.args))}"


def J(fn, *args, b="", **kw):
    a = tuple(args) + (0,) * (3 - len(args))
    return Job(fn, a, b, **kw)


@dataclass
class Prop:
    id: str
    quick: list = field(default_factory=list)
    more: list = field(default_factory=list)
    note: str = ""
    assume: list = field(default_factory=list)
    q_total: int = 150
    q_cap: float = 12
    q_core: float = 380
    t_total: int = 700

    def jobs(self, tier):
        js = list(self.quick)
        if tier == "quick":
            # what does not fit into the quick budget is left to the thorough command; every operation on every encoding
            # comes in with its cheapest job before any comes in with a second one
            cost = lambda j: COSTS.get(j.id, 1.0)
            js.sort(key=cost)
            seen, first, rest = set(), [], []
            for j in js:
                k = (j.fn, j.args[0] // 16, j.args[1] > 24, j.args[2] % 4 != 0, j.args[2] // 4)
                (rest if k in seen else first).append(j)
                seen.add(k)
            t, keep = 0.0, []
            for j in first + rest:
                if cost(j) <= self.q_cap and t + cost(j) + 0.02 <= self.q_core:
                    t += cost(j) + 0.02
                    keep.append(j)
            ids = {j.id for j in keep}
            js = [j for j in self.quick if j.id in ids]
        elif tier == "thorough":
            js += self.more
        seen, out = set(), []
        for j in js:
            if j.id not in seen:
                seen.add(j.id)
                out.append(j)
        return out

    def total(self, tier):
        return self.q_total if tier == "quick" else self.t_total

    def bounds(self, tier):
        return self.note


def known_findings():
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


PROPS = {}


def prop(id, **kw):
    PROPS[id] = Prop(id, **kw)
    return PROPS[id]


U = {0: "u8", 1: "u16", 2: "u32", 3: "u64"}
T = {0: "u8", 1: "u16", 2: "u32", 3: "u64", 4: "i8", 5: "i16", 6: "i32", 7: "i64", 8: "f32", 9: "f64"}
VM = {0: "non-nullable", 1: "all valid", 2: "all null", 3: "any validity bitmap"}


def ints(fn, types, lens, modes, what):
    return [J(fn, t, n, m, b=f"{what}, {T[t]} x {n}, {VM[m]}") for t in types for n in lens for m in modes]


# ---------------------------------------------------------------- arrays: type x encoding x length x validity
CANON, CANON_SLICED, CONSTANT, CHUNKED, SPARSE, DICT, RUNEND, FOR, ZIGZAG, BITPACKED, DELTA, BYTEBOOL, ALP, FOR_BITPACKED, ALPRD, CHUNKED_MIXED = range(16)
SLICED = 16
ENC = ["canonical", "canonical sliced", "constant", "chunked", "sparse", "dictionary", "run-end", "frame of reference", "zig-zag", "bit-packed", "delta",
       "byte bool", "ALP", "frame of reference over bit-packed", "ALP-RD", "mixed chunks"]
TN = dict(T)
TN.update({10: "bool", 11: "utf8", 12: "binary", 13: "timestamp[ms]", 14: "struct{i32, bool}"})
STR, TS, REC = (11, 12), (13,), (14,)
# numbers 7.. mean other encodings for the types that are not numbers
ENC2 = {t: {7: "view", 8: "view of two buffers", 9: "FSST"} for t in STR}
ENC2[13] = {7: "date-time parts", 8: "date-time parts (narrow)"}
ENC2[14] = {7: "encoded fields", 8: "encoded fields (2)"}
UINT, SINT, FLT, BOOL = (0, 1, 2, 3), (4, 5, 6, 7), (8, 9), (10,)


def fits(t, e, n, m):
    """whether the harness builds this combination"""
    b = e % SLICED
    if e >= SLICED:
        n += 2
    if t in STR + TS + REC:
        if t not in STR and b in (CONSTANT, CHUNKED_MIXED):
            return False  # constants of these types do not decode: not supported by the code
        return (b in ENC2[t] or b in (CANON, CANON_SLICED, CHUNKED, CHUNKED_MIXED) or b == CONSTANT and m != 3) and n <= 30 + 2 and not (t in REC and b == 8 and n == 0)
    if b in (ALP, ALPRD):
        return t in FLT
    if b == DICT:
        return t not in BOOL
    if b == FOR:
        return t in UINT + SINT
    if b == ZIGZAG:
        return t in SINT
    if b == BITPACKED:
        return t in UINT and n > 0
    if b == DELTA:
        return t in UINT
    if b == FOR_BITPACKED:
        return t in UINT + SINT and n > 0
    if b == BYTEBOOL:
        return t in BOOL
    if b == RUNEND:
        return t not in BOOL or n > 0
    if b == CONSTANT:
        return m != 3
    return True


def ename(e, t=0):
    return ENC2.get(t, {}).get(e % SLICED, ENC[e % SLICED]) + (" (sliced)" if e >= SLICED else "")


def arrays(fn, ts, es, ns, ms, vs=(0,), skip=None, what="", **kw):
    return [J(fn, t + 16 * e, n, m + 4 * v, b=f"{what}{ename(e, t)} {TN[t]} x {n}, {VM[m]}" + (f", variant {v}" if len(vs) > 1 else ""), **kw)
            for t in ts for e in es for n in ns for m in ms for v in vs if fits(t, e, n, m) and not (skip and skip(t, e, n, m, v))]


# ---------------------------------------------------------------- C01 integer codecs
p = prop("C01", note="")
p.quick += ints("h_for", [0, 4], [1, 2, 3], [0, 3], "frame of reference")
p.quick += ints("h_zigzag", [4, 5, 6, 7], [3], [0, 3], "zig-zag")
p.quick += [J("h_bitpack", t + 4 * bw, 3, m, b=f"bit-packing {U[t]} x 3 to {bw} bits, {VM[m]}") for t, bw in ((0, 0), (0, 3), (1, 5), (2, 3), (3, 9)) for m in (0, 3)]
p.quick += [J("h_delta", t, n, m, b=f"delta {U[t]} x {n}, {VM[m]}") for t in (0, 1, 2, 3) for n in (1, 3) for m in (0, 3)]

# ---------------------------------------------------------------- C02-C05 the other codecs
p = prop("C02")
FLN = {0: "f32", 1: "f64"}
p.quick += [J("h_alp", t + 2 * e, n, m, b=f"decimal scaling of {FLN[t]} x {n}, every pair of exponents up to {e}, {VM[m]}") for t in (0, 1) for e in (2,) for n in (1,) for m in (0, 3)]
p.quick += [J("h_alprd", t + 2 * s, n, m, b=f"front-bit dictionary of {FLN[t]} x {n}, dictionary from sample {s}, {VM[m]}") for t in (0, 1) for s in range(4) for n in (1, 2) for m in (0, 3)]
p.quick += [J("h_alp", t + 2 * e, 2, m, b=f"decimal scaling of {FLN[t]} x 2, every pair of exponents up to {e}, {VM[m]}") for t in (0, 1) for e in (1,) for m in (0, 3)]
p.more += [J("h_alp", t + 2 * e, n, m, b=f"decimal scaling of {FLN[t]} x {n}, every pair of exponents up to {e}, {VM[m]}") for t in (0, 1) for e in (4, 8, 10) for n in (0, 1, 2) for m in (0, 1, 2, 3)]
p.more += [J("h_alprd", t + 2 * s, n, m, b=f"front-bit dictionary of {FLN[t]} x {n}, dictionary from sample {s}, {VM[m]}") for t in (0, 1) for s in range(4) for n in (0, 3, 4) for m in (0, 1, 2, 3)]

p = prop("C03", q_cap=60)
DW = {0: "any values", 1: "values out of four bit patterns"}
p.quick += [J("h_dict", t, 1, m, b=f"dictionary of {T[t]} x 1, any values, {VM[m]}") for t in range(10) for m in (0, 3)]
p.quick += [J("h_dict", t, 2, 0, b=f"dictionary of {T[t]} x 2, any values, {VM[0]}") for t in (0, 6, 9)]
p.quick += [J("h_dict", t + 16, n, m, b=f"dictionary of {T[t]} x {n}, values out of four bit patterns, {VM[m]}") for t in range(10) for n in (2, 3) for m in (0, 3)]
p.quick += [J("h_runend", t, n, m, b=f"run ends of {T[t]} x {n}, {VM[m]}") for t in range(10) for n in (0, 1, 3) for m in (0, 3)]
p.quick += [J("h_bools", k + 4 * o, n, m, b=f"{('run ends', 'bytes', 'optional bytes')[k]} of bool x {n}{f' after {o} rows cut off' if o else ''}, {VM[m]}") for k in (0, 1, 2) for o in ((0, 1, 3) if k == 0 else (0,)) for n in (1, 3, 5) for m in (0, 3)]
p.more += [J("h_dict", t, 2, m, b=f"dictionary of {T[t]} x 2, any values, {VM[m]}") for t in range(10) for m in (0, 1, 2, 3)]
p.more += [J("h_dict", t + 16, 4, m, b=f"dictionary of {T[t]} x 4, values out of four bit patterns, {VM[m]}") for t in range(10) for m in (0, 1, 2, 3)]
p.more += [J("h_runend", t, n, m, b=f"run ends of {T[t]} x {n}, {VM[m]}") for t in range(10) for n in (2, 4) for m in (0, 1, 2, 3)]
p.more += [J("h_bools", k + 4 * o, n, m, b=f"{('run ends', 'bytes', 'optional bytes')[k]} of bool x {n}{f' after {o} rows cut off' if o else ''}, {VM[m]}") for k in (0, 1, 2) for o in ((0, 1, 3, 8) if k == 0 else (0,)) for n in (2, 4, 7) for m in (0, 1, 2, 3)]

p = prop("C04")
ROUTE = ["offsets built from rows", "views built from rows", "offsets to views", "offsets to views to offsets", "dictionary of an offset array", "dictionary of a view array",
         "symbol table of an offset array", "symbol table of a view array", "fixed symbol table over an offset array", "fixed symbol table over a view array",
         "dictionary of an offset array, any bytes", "dictionary of a view array, any bytes"]
p.quick += [J("h_text", u + 2 * r, n, m, b=f"{ROUTE[r]}, {('utf8', 'binary')[u]} x {n}, {VM[m]}") for u in (0, 1) for r in range(8) for n in (1, 2, 3) for m in (0, 3)]
p.quick += [J("h_text", u + 2 * r, 1, m, b=f"{ROUTE[r]}, {('utf8', 'binary')[u]} x 1, {VM[m]}") for u in (0, 1) for r in (8, 9, 10, 11) for m in (0, 3)]
p.more += [J("h_text", u + 2 * r, 2, m, b=f"{ROUTE[r]}, {('utf8', 'binary')[u]} x 2, {VM[m]}") for u in (0, 1) for r in (8, 9) for m in (0, 3)]
p.more += [J("h_text", u + 2 * r, n, m, b=f"{ROUTE[r]}, {('utf8', 'binary')[u]} x {n}, {VM[m]}") for u in (0, 1) for r in range(8) for n in (0, 1, 2, 3, 4) for m in (0, 1, 2, 3)]

p = prop("C05")
p.quick += [J("h_dtparts", u + 4 * z + 8 * w, n, m, b=f"timestamp[{('ns', 'us', 'ms', 's')[u]}{', UTC' if z else ''}] x {n}, {w}-bit values, {VM[m]}")
            for u in range(4) for z in (0, 1) for w in (16, 64) for n in (1, 2, 3) for m in (0, 3)]
p.more += [J("h_dtparts", u + 4 * z + 8 * w, n, m, b=f"timestamp[{('ns', 'us', 'ms', 's')[u]}{', UTC' if z else ''}] x {n}, {w}-bit values, {VM[m]}")
           for u in range(4) for z in (0, 1) for w in (16, 40, 64) for n in (0, 1, 2, 4) for m in (0, 1, 2, 3)]

# ---------------------------------------------------------------- arrays
ALLE = list(range(0, 12)) + [FOR_BITPACKED, CHUNKED_MIXED]
SL = [SLICED + e for e in (CONSTANT, CHUNKED, SPARSE, DICT, RUNEND, FOR, ZIGZAG, BITPACKED, DELTA, BYTEBOOL, FOR_BITPACKED, CHUNKED_MIXED)]
M4 = (0, 1, 2, 3)
BIG = [e for e in ALLE if e not in (CANON_SLICED, CHUNKED_MIXED)]

p = prop("A01")
p.quick += arrays("h_oob", (6,), [SLICED + FOR_BITPACKED], (1,), (0, 3))
p.quick += arrays("h_canon", (0, 6, 8, 10), ALLE + SL, (2,), M4)
p.quick += arrays("h_canon", (2, 3), ALLE + SL, (0, 3), (0, 3))
p.quick += arrays("h_oob", (6, 10), ALLE + SL, (2,), (0, 3))
p.quick += arrays("h_canon", (2, 6), BIG, (1030,), (0, 3))
p.more += arrays("h_canon", range(11), ALLE + SL, (0, 1, 3), M4)
p.more += arrays("h_canon", (0, 1, 2, 3, 6, 7, 9, 10), BIG, (1030, 2050), M4)

NEW = (CANON, CANON_SLICED, CONSTANT, CHUNKED, 7, 8, 9, CHUNKED_MIXED)
NSL = [SLICED + e for e in (CONSTANT, CHUNKED, 7, 8, 9)]
p.quick += arrays("h_canon", (8, 9), (ALP, ALPRD, SLICED + ALP, SLICED + ALPRD), (2,), M4)
p.quick += arrays("h_canon", (11, 12, 13, 14), NEW + tuple(NSL), (1, 2), (0, 3))
p.quick += arrays("h_oob", (8, 11, 13, 14), (ALP, ALPRD) + NEW, (1, 2), (0, 3))
p.more += arrays("h_canon", (8, 9), (ALP, ALPRD, SLICED + ALP, SLICED + ALPRD), (0, 1, 3), M4)
p.more += arrays("h_canon", (11, 12, 13, 14), NEW + tuple(NSL), (0, 1, 2, 3), M4)

p = prop("A02")
p.quick += arrays("h_slice", (8,), (ALP, ALPRD), (2,), (0, 3), (0, 1))
p.quick += arrays("h_slice", (11, 13, 14), NEW, (2,), (0, 3))
p.more += arrays("h_slice", (8, 9), (ALP, ALPRD), (0, 1, 3), M4, (0, 1))
p.more += arrays("h_slice", (11, 12, 13, 14), NEW, (0, 1, 3), (0, 3), (0, 1))
p.quick += arrays("h_slice", (6, 2, 10), ALLE + SL, (3,), (0, 3))
p.quick += arrays("h_slice", (6, 2, 10), ALLE, (3,), (0, 3), (1,))
p.quick += arrays("h_slice", (2, 6), BIG, (1030,), (0, 3))
p.more += arrays("h_slice", range(11), ALLE + SL, (0, 1, 3), M4, (0, 1))
p.more += arrays("h_slice", (0, 1, 2, 3, 6, 10), BIG, (1030, 2050), (0, 3), (0, 1))

SLB = [SLICED + BITPACKED, SLICED + FOR_BITPACKED]
p.quick += arrays("h_slice", (2, 6, 10), SL, (1,), (0, 3))

p = prop("A03")
p.quick += arrays("h_take", (2, 6, 10), SL, (1,), (0, 3))
p.quick += arrays("h_take_many", (2, 6, 10), SLB + [SLICED + SPARSE, SLICED + CHUNKED, SLICED + RUNEND, SLICED + CHUNKED_MIXED], (1,), (0, 3))
p.quick += arrays("h_take_many", (2, 6, 10), (SPARSE, DICT, RUNEND, CHUNKED_MIXED), (2,), (0, 3))
p.quick += arrays("h_take", (2, 6, 10), ALLE + SL, (2, 3), (0, 3))
p.quick += arrays("h_take", (6, 10), ALLE, (2,), M4, (1, 3, 4))
p.quick += arrays("h_take", (2, 6), BIG, (1030,), (0, 3))
p.more += arrays("h_take", range(11), ALLE + SL, (1, 3), M4, (0, 1, 2, 3, 4, 6))
p.more += arrays("h_take", (0, 1, 2, 3, 6, 10), BIG, (1030, 2050), (0, 3), (0, 1, 2))

p.quick += arrays("h_take", (8,), (ALP, ALPRD), (2,), (0, 3))
p.quick += arrays("h_take", (11, 13, 14), NEW, (2,), (0, 3))
p.quick += arrays("h_take_many", (2, 6, 10), BIG, (1100,), (0, 3))
p.quick += arrays("h_take_many", (2, 6, 10), ALLE + SL, (3,), (0, 3))
p.quick += arrays("h_take_many", (8, 11, 13, 14), NEW, (2,), (0, 3))
p.more += arrays("h_take_many", range(11), ALLE + SL, (1, 2, 5), M4)
p.more += arrays("h_take", (8, 9), (ALP, ALPRD), (0, 1, 3), M4, (0, 1, 3, 4))
p.more += arrays("h_take", (11, 12, 13, 14), NEW, (0, 1, 3), (0, 3), (0, 1, 3))
p.more += arrays("h_take_many", (0, 1, 2, 3, 6, 7), BIG + [SLICED + e for e in (BITPACKED, FOR_BITPACKED, RUNEND, CHUNKED)], (1100,), M4, (0, 1))

p = prop("A04")
p.quick += arrays("h_filter", (2, 6, 10), SL, (1,), (0, 3))
p.quick += arrays("h_filter", (8,), (ALP, ALPRD), (2,), (0, 3))
p.quick += arrays("h_filter", (11, 13, 14), NEW, (2,), (0, 3))
p.more += arrays("h_filter", (8, 9), (ALP, ALPRD), (0, 1, 3), M4)
p.more += arrays("h_filter", (11, 12, 13, 14), NEW, (0, 1, 3), (0, 3))
p.quick += arrays("h_filter", (2, 6, 10), ALLE + SL, (3,), (0, 3))
p.quick += arrays("h_filter", (6, 10), ALLE, (2,), M4)
p.quick += arrays("h_filter", (2, 6), BIG, (1030,), (0, 3))
p.quick += arrays("h_filter", (6, 10, 11), (CHUNKED, CHUNKED_MIXED, SLICED + CHUNKED), (6,), (0, 3))
p.more += arrays("h_filter", range(11), ALLE + SL, (0, 1, 3), M4)
p.more += arrays("h_filter", (0, 1, 2, 3, 6, 10), BIG, (1030, 2050), M4)


def no_search(t, e, n, m, v):
    return e % SLICED == SPARSE and m == 3


p = prop("A05")
p.quick += arrays("h_search", (0, 2, 6), SL, (1,), (0, 3))
p.quick += arrays("h_search_via", (0, 2), SLB, (1,), (0, 3), (0, 1, 2))
p.quick += arrays("h_search", (2, 6), ALLE + SL, (2, 3), (0, 3), skip=no_search)
p.quick += [J("h_for_search", t + 16 * sh, 3, m, b=f"search in frame of reference, {T[t]} x 3, shift {sh}, {VM[m]}") for t in (0, 4) for sh in (0, 1) for m in (0,)]
p.quick += arrays("h_search", (2, 6), (CANON, CONSTANT, CHUNKED, SPARSE, DICT, RUNEND, FOR, BITPACKED, FOR_BITPACKED, ZIGZAG), (2,), (1, 2), skip=no_search)
p.quick += arrays("h_search_via", (0, 2, 6), ALLE + [SLICED + SPARSE, SLICED + BITPACKED, SLICED + CHUNKED], (2,), (0, 2, 3), (0, 1, 2), skip=no_search)
p.more += arrays("h_search", range(10), ALLE + SL, (0, 1, 3), M4, skip=no_search)
p.more += [J("h_for_search", t + 16 * sh, 3, m, b=f"search in frame of reference, {T[t]} x 3, shift {sh}, {VM[m]}") for t in range(8) for sh in (0, 1, 3) for m in (0, 3)]


def pairs(fn, ts, e1s, e2s, ns, m1s, m2s, extra=0, what=""):
    return [J(fn, t + 16 * (e1 + 32 * e2), n, m1 + 4 * m2 + extra, b=f"{what}{ename(e1, t)} ({VM[m1]}) with {ename(e2, t)} ({VM[m2]}), {TN[t]} x {n}")
            for t in ts for e1 in e1s for e2 in e2s for n in ns for m1 in m1s for m2 in m2s if fits(t, e1, n, m1) and fits(t, e2, n, m2)]


p = prop("A06")
p.quick += pairs("h_cmp", (6,), ALLE + [SLICED + CHUNKED], (CANON, CONSTANT), (2,), (0, 3), (0, 2, 3))
p.quick += pairs("h_cmp", (0, 8), (CANON, CONSTANT, CHUNKED, DICT, RUNEND), (CANON, CONSTANT, CHUNKED), (2,), (0, 3), (0, 1))
p.quick += pairs("h_cmp", (10,), (CANON, CONSTANT, CHUNKED, BYTEBOOL), (CANON, CONSTANT), (0, 1), (0, 3), (0, 2, 3))
p.quick += pairs("h_cmp", (6,), (CANON, CONSTANT, CHUNKED), (CANON, CONSTANT), (70,), (0,), (0, 3))
p.quick += pairs("h_cmp_len", (6, 10), (CANON, CONSTANT, CHUNKED), (CANON, CONSTANT), (1,), (0,), (0, 1))
p.more += pairs("h_cmp", range(10), ALLE, (CANON, CONSTANT, CHUNKED, SPARSE, RUNEND), (0, 2), M4, M4)
p.more += pairs("h_cmp", (10,), ALLE, (CANON, CONSTANT, CHUNKED), (1, 2), (0, 3), M4)

p.quick += pairs("h_cmp", (11,), (CANON, CONSTANT, CHUNKED, 7), (CANON, CONSTANT, 7), (1,), (0, 3), (0,))
p.quick += pairs("h_cmp", (8,), (ALPRD,), (CANON, CONSTANT), (1,), (0, 3), (0,))
p.quick += pairs("h_cmp", (8,), (ALP,), (CANON,), (1,), (0, 3), (0,))
p.more += pairs("h_cmp", (11, 12), (CANON, CONSTANT, CHUNKED, 7), (CANON, CONSTANT, 7), (1, 2), (0, 3), (0, 2, 3))
p.more += pairs("h_cmp", (8, 9), (ALP, ALPRD), (CANON,), (1, 2), (0, 3), (0, 2, 3))
p.more += pairs("h_cmp", (13,), (CANON, CHUNKED, 7, 8), (CANON, 7), (1,), (0, 3), (0, 3))

p = prop("A07")
BE = (CANON, CANON_SLICED, CONSTANT, CHUNKED, SPARSE, RUNEND, BYTEBOOL)
for o in (0, 16):
    p.quick += pairs("h_bool", (10,), BE, BE, (1,), (0, 3), (0, 1, 2, 3), o, "or of " if o else "and of ")
    p.quick += pairs("h_bool", (10,), (CANON, CONSTANT, CANON_SLICED), (CANON, CONSTANT, CHUNKED), (0, 2), (0, 3), (0, 2, 3), o, "or of " if o else "and of ")
    p.more += pairs("h_bool", (10,), BE, BE, (0, 2, 70), M4, M4, o, "or of " if o else "and of ")

p = prop("A08")
CE = (CANON, CONSTANT, CHUNKED)
p.quick += [J("h_cast", t + 16 * e, 2, m + 4 * (to + 16 * nul), b=f"cast of {ename(e, t)} {TN[t]} x 2 ({VM[m]}) to {'nullable ' if nul else ''}{TN[to]}")
            for t in range(10) for to in range(10) for e in CE for m in (0, 2, 3) for nul in (0, 1)
            if fits(t, e, 2, m) and (e == CANON and (m == 3 or t in (2, 6, 8)) or t in (2, 8) and to in (0, 4, 9))]
p.quick += arrays("h_fill", (0, 6, 8, 10), (CANON, CANON_SLICED, CHUNKED, SPARSE), (0, 3), M4, what="fill_forward of ")
p.quick += arrays("h_sub", range(10), (CANON, CANON_SLICED, CONSTANT, CHUNKED), (2,), M4, what="subtraction from ")
p.quick += arrays("h_sub", (2, 6), ALLE, (2,), (0, 3), what="subtraction from ")
p.more += [J("h_cast", t + 16 * e, 3, m + 4 * (to + 16 * nul), b=f"cast of {ename(e, t)} {TN[t]} x 3 ({VM[m]}) to {'nullable ' if nul else ''}{TN[to]}")
           for t in range(10) for to in range(10) for e in CE + (DICT, RUNEND) for m in M4 for nul in (0, 1) if fits(t, e, 3, m)]
p.more += arrays("h_fill", range(11), ALLE, (1, 4), M4, what="fill_forward of ")
p.more += arrays("h_sub", range(10), ALLE + SL, (3,), M4, what="subtraction from ")

p = prop("A09")
p.quick += arrays("h_stats", (0, 6, 8), ALLE, (2, 3), (0, 3))
p.quick += arrays("h_stats", (6, 10), ALLE, (2,), M4, (1, 3))
p.quick += arrays("h_stats", (8,), (ALP, ALPRD), (2,), (0, 3))
p.quick += arrays("h_stats", (11,), NEW, (2,), (0, 3))
p.more += arrays("h_stats", (11, 12, 13, 14), NEW, (1, 2), M4, (0, 1))
p.quick += arrays("h_stats_after", (6, 10), (CANON, CONSTANT, CHUNKED, SPARSE, DICT, RUNEND, BYTEBOOL), (3,), (0, 3), (0, 1, 2))
p.quick += [J("h_stats_merge", t, b, c, b=f"merged statistics of {TN[t]} x {b % 8} and x {b // 8}") for t in (6, 8, 10) for b in (17, 10, 9) for c in (0, 1, 5, 9, 6, 13)]
p.quick += [J("h_freq", t, 2, m, b=f"bit-width histogram of {TN[t]} x 2, {VM[m]}") for t in (0,) for m in (0, 3)]
p.more += arrays("h_stats", range(11), ALLE + SL, (1, 3), M4, (0, 1, 2, 3, 5, 7))
p.more += arrays("h_stats_after", (0, 6, 8, 10), ALLE, (3,), M4, (0, 1, 2))
p.more += [J("h_freq", t, 3, m, b=f"bit-width histogram of {TN[t]} x 3, {VM[m]}") for t in range(8) for m in (0, 3)]

# ---------------------------------------------------------------- A10 nulls, A11 chunks
p = prop("A10")
VOP = ["queries", "slice", "take", "filter", "and", "from bits", "concatenation"]
VENC = (0, CANON_SLICED, CONSTANT, CHUNKED, SPARSE, RUNEND, BYTEBOOL)


def validities(ops, encs, ns, m1s, m2s):
    return [J("h_validity", o + 8 * e, n, m1 + 4 * m2, b=f"validity: {VOP[o]}, {VM[m1]}" + (f" with {VM[m2]}" if o in (4, 6) else "") + f" x {n}, bitmaps {ENC[e]}")
            for o in ops for e in encs for n in ns for m1 in m1s for m2 in (m2s if o in (4, 6) else (0,)) if e == 0 or 3 in (m1, m2 if o in (4, 6) else m1)]


def under(fn, a, n, c, v, what):
    return J("h_under", a, n + 4096 * (v + 32 * fn), c, b=f"{what}, nulls held in a {ENC[v]} bitmap")


UNDER = {0: "decoding", 1: "slice", 2: "take", 3: "take of many rows", 4: "filter", 5: "search", 6: "fill_forward", 7: "statistics", 8: "comparison", 9: "cast", 10: "subtraction"}
p.quick += validities(range(7), VENC, (2,), (0, 1, 2, 3), (0, 1, 2, 3))
p.quick += validities(range(7), VENC, (0, 1), (3,), (3,))
p.quick += arrays("h_nulls", (6, 10), ALLE + SL, (2,), (0, 1, 2, 3), what="nulls of ")
p.quick += arrays("h_nulls", (8, 11, 13, 14), (CANON, CHUNKED, 7, 8, 9, ALP, ALPRD), (2,), (0, 3), what="nulls of ")
p.quick += [under(f, t + 16 * e, n, 3, v, f"{UNDER[f]} of {ename(e, t)} {TN[t]} x {n}") for f in (0, 1, 2, 3, 4, 6, 7) for t in (6, 10, 11) for e in (CANON, CANON_SLICED, CHUNKED) for n in (2,) for v in VENC[1:]
            if not (t == 11 and f in (6,))]
p.quick += [under(5, 6, 2, 3, v, "search of canonical i32 x 2") for v in VENC[1:]]
p.quick += [under(8, 6 + 16 * 32 * e2, 2, 3 + 4 * m2, v, f"comparison of canonical i32 x 2 with {ENC[e2]} ({VM[m2]})") for v in VENC[1:] for e2, m2 in ((CANON, 0), (CANON, 3), (CONSTANT, 0), (CONSTANT, 2))]
p.quick += [under(22, 10 + 16 * 32 * e2, 2, 3 + 4 * m2 + o, v, f"{'or' if o else 'and'} of canonical bool x 2 with {ENC[e2]} ({VM[m2]})") for v in VENC[1:] for e2, m2 in ((CANON, 0), (CANON, 3), (CONSTANT, 0), (CONSTANT, 2)) for o in (0, 16)]
p.quick += [under(9, 6, 2, 3 + 4 * (to + 16 * nul), v, f"cast of canonical i32 x 2 to {'nullable ' if nul else ''}{TN[to]}") for v in VENC[1:] for to in (0, 6, 9) for nul in (0, 1)]
p.quick += [under(10, t, 2, 3, v, f"subtraction from canonical {TN[t]} x 2") for v in VENC[1:] for t in (6, 8)]
p.quick += [under(f, a, 3, 3, v, w) for v in VENC[1:] for f, a, w in (
    (11, 0, "frame of reference of u8 x 3"), (12, 4, "zig-zag of i8 x 3"), (13, 2 + 4 * 3, "bit-packing of u32 x 3"), (14, 2, "delta of u32 x 3"), (16, 0, "front-bit dictionary of f32 x 3"),
    (17, 16 + 6, "dictionary of i32 x 3"), (18, 6, "run ends of i32 x 3"), (19, 0, "run ends of bool x 3"), (19, 1, "bytes of bool x 3"), (20, 2 + 8 * 64, "timestamps x 3"))]
p.more += validities(range(7), VENC, (3, 9), (0, 1, 2, 3), (0, 1, 2, 3))
p.more += arrays("h_nulls", (0, 3, 6, 9, 10, 12, 13, 14), ALLE + SL + [ALP, ALPRD], (0, 3), (0, 1, 2, 3), what="nulls of ")
p.more += [under(f, t + 16 * e, n, 3, v, f"{UNDER[f]} of {ename(e, t)} {TN[t]} x {n}") for f in (0, 1, 2, 3, 4, 6, 7) for t in (2, 6, 8, 10, 11, 13, 14) for e in (CANON, CHUNKED, RUNEND, FOR, BITPACKED, DELTA, ZIGZAG, ALP) for n in (3,) for v in VENC[1:]
           if fits(t, e, n, 3) and not (t > 10 and f == 6)]

p = prop("A11")
MIX = ["canonical", "sliced, constant, canonical", "constant", "sparse, canonical, dictionary", "run-end, sparse, sliced", "chunked, canonical, chunked", "canonical, mixed chunks, canonical", "dictionary, run-end, dictionary"]
CK = ["as it is", "rechunked", "chunk by chunk", "chunks of chunks"]


def chunks(ts, mixes, ns, ms, ks):
    return [J("h_chunks", t + 16 * x, n, m + 4 * k, b=f"{TN[t]} x {n} in three chunks ({MIX[x]}), {CK[k]}, {VM[m]}") for t in ts for x in mixes for n in ns for m in ms for k in ks
            if not (t == 10 and x in (3, 4, 7)) and not (t > 10 and x not in (0, 5)) and not (t in STR and x in (3, 4, 7))]


p.quick += chunks((6, 10, 11, 13, 14), range(8), (1, 2), (0, 3), (0, 1, 2, 3))
p.more += chunks((0, 6, 8, 10, 11, 12, 13, 14), range(8), (0, 3), (0, 1, 2, 3), (0, 1, 2, 3))
p.more += chunks((2, 9), range(8), (2,), (0, 1, 2, 3), (0, 1, 2, 3))
p.quick += pairs("h_cmp", (6, 10), (CHUNKED, CHUNKED_MIXED), (CHUNKED, CHUNKED_MIXED), (1, 2), (0, 3), (0, 3), what="comparison of ")
p.quick += pairs("h_bool", (10,), (CHUNKED, CHUNKED_MIXED), (CHUNKED, CHUNKED_MIXED), (1, 2), (0, 3), (0, 3), what="and of ")
CH = (CHUNKED, CHUNKED_MIXED, SLICED + CHUNKED, SLICED + CHUNKED_MIXED)
p.quick += arrays("h_slice", (6, 10), CH, (2,), (0, 3), (1,), what="slice of ")
p.quick += arrays("h_take", (6, 10), CH, (2,), (0, 3), (0, 4), what="take of ")
p.quick += arrays("h_take_many", (6, 10), CH, (2,), (0, 3), what="take of many rows of ")
p.quick += arrays("h_filter", (6, 10), CH, (2, 3), (0, 3), what="filter of ")
p.quick += arrays("h_search", (6,), (CHUNKED, SLICED + CHUNKED), (2,), (0, 3), what="search of ")
p.quick += arrays("h_stats", (6, 10), CH, (2,), (0, 3), what="statistics of ")
p.quick += arrays("h_fill", (6, 10), (CHUNKED,), (2,), (0, 3), what="fill_forward of ")
p.quick += arrays("h_sub", (6,), CH, (2,), (0, 3), what="subtraction from ")

# ---------------------------------------------------------------- I02 streams, I03/I04 files
p = prop("I02")
T15 = range(15)
p.quick += arrays("h_stream", T15, ALLE + [ALP, ALPRD] + SL, (2,), (0, 3), what="stream of ")
p.quick += arrays("h_stream", T15, ALLE, (0, 1), (3,), what="stream of ")
p.quick += arrays("h_stream", (1, 6, 10, 11, 13, 14), (CANON, CONSTANT, CHUNKED, SPARSE, 7, 8, 9), (2,), (0, 1, 2, 3), (1,), what="stream of ")
p.more += arrays("h_stream", T15, ALLE + [ALP, ALPRD] + SL, (0, 1, 3), M4, (0, 1), what="stream of ")
p.quick += arrays("h_stream", (2, 6, 8, 10, 11, 13), ALLE + [ALP, ALPRD], (2,), (0, 3), (2,), what="stream with statistics of ")
CARRIED = ["h_canon", "h_slice", "h_take", "h_take_many", "h_filter", "h_search", "h_fill", "h_stats", "h_cmp", "h_cast", "h_sub", "h_bool", "h_stats_after", "h_nulls"]


def carried(js):
    return [J("h_carried", j.args[0], j.args[1] + 4096 * CARRIED.index(j.fn), j.args[2], b=f"on what was read back: {j.fn[2:].replace('_', ' ')} of {j.bound}") for j in js]


def no_carry(t, e, n, m, v):
    return t == 8 and e % SLICED in (CONSTANT, SPARSE, CHUNKED_MIXED)


p.quick += carried(sum((arrays(f, (1, 6, 9, 10), ALLE, (2,), (0, 3)) for f in ("h_canon", "h_slice", "h_take", "h_take_many", "h_filter", "h_nulls")), []))
p.quick += carried(sum((arrays(f, (11, 13, 14), (CANON, CONSTANT, CHUNKED, 7, 8, 9), (2,), (0, 3)) for f in ("h_canon", "h_slice", "h_take", "h_take_many", "h_filter", "h_nulls")), []))
p.quick += carried(sum((arrays(f, (8, 9), (ALP, ALPRD), (2,), (0, 3)) for f in ("h_canon", "h_slice", "h_take", "h_filter")), []))
p.quick += carried(arrays("h_search", (2, 6), ALLE, (2,), (0, 3), skip=no_search))
p.quick += carried(pairs("h_cmp", (6, 9), (CANON, CONSTANT, CHUNKED, DICT, SPARSE), (CANON, CONSTANT), (2,), (0, 3), (0, 3)))
p.quick += carried(pairs("h_bool", (10,), (CANON, CONSTANT, CHUNKED, SPARSE, RUNEND, BYTEBOOL), (CANON, CONSTANT), (2,), (0, 3), (0, 3)))
p.quick += carried(arrays("h_stats", (2, 6, 10), (CANON, CONSTANT), (2,), (0, 3)))
p.quick += carried(arrays("h_fill", (6, 10), (CANON, CHUNKED, SPARSE), (2,), (0, 3)))
p.quick += carried(arrays("h_sub", (2, 6), ALLE, (2,), (0, 3)))
CM = [j for q in ("A01", "A02", "A03", "A04", "A05", "A07", "A08", "A09") for j in PROPS[q].quick if j.fn in CARRIED and j.fn != "h_stats" and j.args[1] < 5 and not no_carry(j.args[0] % 16, j.args[0] // 16 % 32, 0, 0, 0)]
p.more += [j for j in carried(CM) if j.id not in {k.id for k in p.quick}]

EX = ["x op c", "c op x", "x op c and y", "y and x op c", "x op c or y", "x op z", "y", "x op null", "z op c and y and x op z", "z op c and (z op' d or y)", "z op c", "y = (z op c) or y", "y and z op c", "c swapped-op x", "x inverse-op c", "b and x op c"]
HOWE = {0: "", 1: ", columns by index", 2: ", chunked table", 3: ", chunked table, columns by index", 4: ", as row filter", 5: ", as row filter, columns by index", 6: ", as row filter, chunked table"}
YM = [(CANON, 0), (CANON, 3), (CONSTANT, 1), (CHUNKED, 3), (SPARSE, 3), (RUNEND, 3), (BYTEBOOL, 3), (CANON_SLICED, 3)]


def tabs(fn, ts, encs, ys, ns, xms, bs, c=0, what=""):
    """b and what come from bs"""
    return [J(fn, t + 16 * (e + 32 * ye), n + b, m + 4 * ym + c, b=f"{what}{w}, x: {ename(e, t)} {TN[t]} x {n} ({VM[m]}), y: {ename(ye, 10)} ({VM[ym]})")
            for t in ts for e in encs for ye, ym in ys for n in ns for m in xms for b, w in bs if fits(t, e, n, m)]


def exs(kinds, hows):
    return [(16 * k + 256 * h, EX[k] + HOWE[h]) for k in kinds for h in hows]


p = prop("E01")
OPN = ["", ", op is =", ", op is !=", ", op is >", ", op is >=", ", op is <", ", op is <="]


def op(js, ops=(1, 3, 6)):
    return [J(j.fn, j.args[0], j.args[1], j.args[2] + 16 * o, b=j.bound + OPN[o]) for j in js for o in ops]


p.quick += tabs("h_expr", (6,), (CANON,), ((CANON, 0), (CANON, 3)), (2,), (0, 3), exs(range(16), (0, 1)))
p.quick += op(tabs("h_expr", (6,), (CANON,), ((CANON, 3),), (2,), (3,), exs(range(16), (2,))), (1, 5))
p.quick += tabs("h_expr", (6, 8), ALLE, ((CANON, 3),), (1,), (3,), exs((0, 1, 2, 4, 5), (0,)))
p.quick += op(tabs("h_expr", (6, 8), ALLE, ((CANON, 3),), (2,), (3,), exs((0, 2, 5), (0,))), (2, 4))
p.quick += op(tabs("h_expr", (11,), (CANON, CONSTANT, CHUNKED, 7, 8, 9), ((CANON, 3),), (1,), (3,), exs((0, 2, 5), (0,))))
p.quick += tabs("h_expr", (10,), (CANON, CONSTANT, CHUNKED, SPARSE, RUNEND, BYTEBOOL), ((CANON, 3),), (1,), (3,), exs((0, 2, 5), (0,)))
p.quick += tabs("h_expr", (13,), (CANON, CHUNKED), ((CANON, 3),), (1,), (3,), exs((0, 2, 5), (0,)))
p.quick += tabs("h_expr", (13,), (7, 8), ((CANON, 3),), (1,), (3,), exs((5,), (0,)))  # constants of this type do not decode
p.quick += tabs("h_expr", (6,), (CANON,), YM[2:], (2,), (3,), exs((2, 3, 4, 6, 9, 11), (0,)))
SEL = [(16 * k + 256 * h, f"selection {k}" + HOWE[h]) for k in range(6) for h in (0, 1, 2)]
p.quick += tabs("h_select", (6,), (CANON,), ((CANON, 3),), (2,), (3,), SEL)
p.quick += tabs("h_select", (6, 10, 11, 13, 14), ALLE, ((CANON, 3),), (2,), (3,), SEL[3:4])
p.more += op(tabs("h_expr", (0, 2, 7, 9), ALLE, ((CANON, 3), (CHUNKED, 3), (SPARSE, 3)), (2,), (0, 3), exs((0, 2, 4, 5, 9), (0, 2))), (1, 3, 6))
p.more += tabs("h_select", (6, 10, 11, 13, 14), ALLE, ((CHUNKED, 3),), (3,), (3,), SEL)

PARTS = ["one table", "table in two chunks", "two tables", "columns cut at different rows"]
LATE = ["", ", reads delivered late", ", every read delivered late"]


def fs(parts, batches, lates, filters=(None,)):
    return [(16 * bs + 256 * pt + 1024 * l + 4096 * (0 if f is None else 1 + f), f"file of {PARTS[pt]}" + (f", batches of {bs}" if bs else "") + LATE[l] + ("" if f is None else f", rows where {EX[f]}"))
            for pt in parts for bs in batches for l in lates for f in filters]


def columns(js, ks=range(6), ixs=(0, 1)):
    return [J(j.fn, j.args[0], j.args[1], j.args[2] + 16 * k + 128 * ix, b=j.bound + f", columns {[[0, 1, 2], [0], [2, 0], [1], [1, 2], [2, 1, 0]][k]}" + (" by index" if ix else "")) for j in js for k in ks for ix in ixs]


Y3, Y0 = ((CANON, 3),), ((CANON, 0),)
p = prop("I03")
p.quick += tabs("h_file", range(15), ALLE + [ALP, ALPRD] + SL, Y0, (1,), (3,), fs((0,), (0,), (0,)))
p.quick += tabs("h_file", range(15), ALLE + [ALP, ALPRD], Y0, (2,), (0,), fs((0,), (0,), (0,)))
p.quick += tabs("h_file", (6, 10, 11, 13, 14), (CANON, CONSTANT, CHUNKED, 7, 8, 9), Y0, (2,), (0,), fs((1, 2, 3), (0, 1), (0,)))
p.quick += columns(tabs("h_file", (6,), (CANON,), Y3, (2,), (3,), fs((0,), (1,), (0,))))
p.quick += columns(tabs("h_file", (6,), (CANON, DICT), Y0, (2,), (0,), fs((1, 2, 3), (0, 1), (0,))))
p.quick += tabs("h_file", (6, 11), (CANON,), Y0, (3,), (0,), fs((0, 1, 2, 3), (0, 1, 2, 4), (0, 1, 2)))
p.quick += tabs("h_file", (6,), (CANON,), YM, (2,), (0,), fs((0, 3), (1,), (0,)))
p.quick += tabs("h_file", (6, 11), (CANON,), Y3, (0,), (0, 3), fs((0, 1, 2, 3), (0, 1), (0,)))
p.more += tabs("h_file", range(15), ALLE + [ALP, ALPRD] + SL, Y3, (2,), (3,), fs((0,), (0,), (0,)))
p.more += tabs("h_file", (6, 10, 11, 13, 14), (CANON, CONSTANT, CHUNKED, DICT, 8, 9), Y3, (2,), (3,), fs((1, 2, 3), (0, 1), (0,)))
p.more += tabs("h_file", (6,), (CANON, CHUNKED), Y0, (5,), (0,), fs((0, 1, 2, 3), (0, 2, 3), (0,)))
# a signalling NaN in a constant or fill value does not survive (it goes through a 64-bit float)
for q in ("quick", "more"):
    setattr(p, q, [j for j in getattr(p, q) if not no_carry(j.args[0] % 16, j.args[0] // 16 % 32, 0, 0, 0)])
p = prop("I04")
p.quick += tabs("h_file", (6,), (CANON,), Y0, (2,), (0,), fs((0, 2), (0,), (0,), range(16)))
p.quick += tabs("h_file", (6,), (CANON,), Y3, (2,), (3,), fs((0,), (1,), (0,), range(16)))
p.quick += tabs("h_file", (6,), (CANON,), Y0, (2,), (0,), fs((1, 3), (1,), (0,), (0, 3, 5, 9, 12)))
p.quick += columns(tabs("h_file", (6,), (CANON,), Y0, (2,), (0,), fs((2,), (1,), (0,), (0, 3, 5, 9, 10))))
p.quick += tabs("h_file", (6, 8), ALLE, Y0, (1,), (3,), fs((0,), (0,), (0,), (0, 3, 5)))
p.quick += tabs("h_file", (11,), (CANON, CONSTANT, CHUNKED, 7, 8, 9), Y0, (1,), (3,), fs((0,), (0,), (0,), (0, 3)))
p.quick += tabs("h_file", (6,), ALLE, Y0, (2,), (0,), fs((3,), (1,), (0,), (3,)))
p.quick += tabs("h_file", (6,), (CANON,), YM, (2,), (0,), fs((0, 3), (1,), (0,), (3, 4)))
p.quick += tabs("h_file", (6,), (CANON,), Y0, (3,), (0,), fs((1, 3), (0, 1, 2), (0, 1, 2), (3, 10)))
p.quick += op(tabs("h_expr", (6,), (CANON,), ((CANON, 0), (CANON, 3)), (2,), (0, 3), exs(range(16), (4, 5))), (1, 4))
p.quick += op(tabs("h_expr", (6,), (CANON,), ((CANON, 3),), (2,), (3,), exs(range(16), (6,))), (5,))
p.quick += op(tabs("h_expr", (6, 10, 11), ALLE, YM[1:5], (1,), (3,), exs((0, 2, 3), (4,))), (2, 5))
p.more += tabs("h_file", (6,), (CANON,), Y3, (2,), (0, 3), fs((0, 1, 2, 3), (0, 1), (0,), range(16)))
p.more += tabs("h_file", (6, 8, 11), ALLE, Y3, (2,), (3,), fs((0, 3), (1,), (0,), (0, 3, 5)))
