"""Workload plan: which instrumented builds run how many workers for how long, per property."""
LEVEL = "exploration"
ASSUME = [
    "the base library (m4ri, statically linked, uninstrumented) is taken as given; operand restrictions that follow from it are listed in DESIGN.md",
    "single-threaded use, as the library is built (no OpenMP)",
]
INF = 10 ** 9


def std(asan=4, fast=4, big_asan=0, big_fast=0, q=30, t=420, cnt=INF, vg=0):
    def jobs(dl):
        j = []
        if asan:
            j.append(dict(variant="asan", workers=asan, count=cnt, deadline=dl))
        if fast:
            # the two builds explore different cases of the same deterministic sequence
            j.append(dict(variant="fast", workers=fast, count=cnt, deadline=dl, start=0))
        if big_asan:
            j.append(dict(variant="asan", workers=big_asan, count=cnt, deadline=dl, args=["--big"]))
        if big_fast:
            j.append(dict(variant="fast", workers=big_fast, count=cnt, deadline=dl, args=["--big"]))
        if vg:
            j.append(dict(variant="valgrind", workers=vg, count=cnt, deadline=dl))
        return j
    return {"quick": jobs(q), "thorough": jobs(t)}


def P(rule, must, **kw):
    d = std(**kw)
    d["rule"] = rule
    d["must_see"] = must
    return d


DIM = ("dimensions are drawn around word boundaries of the element layout, multiples of 64, small values and up to ~180 "
       "(larger strata cross the dispatch thresholds); operands are owned or windows, entries uniform/sparse/low-rank/zero/structured; ")
NT = "every case counts as non-trivial (an operation ran and its complete result was compared); two cases are distinct if their signature (operation, path, polynomial, dimensions, parameters) differs"

PLAN = {
    "P01": P("every irreducible polynomial of degree 2..10 in turn, then random ones up to degree 16; all products (degree<=8) or sampled products plus edge patterns, inverses, multiples tables; " + NT,
             ["products checked", "inverses checked", "multiples-table entries checked"]),
    "P02": P("random and edge-pattern polynomials over GF(2) against an independent bit-serial reference; " + NT, []),
    "P03": P("the table of polynomials is enumerated completely and compared with an independent irreducibility test; " + NT, [], cnt=64, asan=2, fast=2),
    "P04": P("random read/write/add sequences at random and edge positions against a shadow copy, storage outside the view compared bit by bit; " + DIM + NT, ["element accesses", "guarded window operands"]),
    "P05": P("conversions in both directions with absent, dirty, windowed destinations and a round trip; " + DIM + NT, ["conversions"]),
    "P06": P("addition, copy, concatenation, stacking, extraction, comparison, set-to-scalar with distinct or aliased operands; " + DIM + NT, []),
    "P07": P("row and column operations incl. bounded column/row ranges; " + DIM + NT, []),
    "P08": P("row/column permutations, left/right, transposed or not; " + DIM + NT, []),
    "P09": P("every multiplication algorithm and both dispatchers against a schoolbook reference product (random linear checks for the large stratum); " + DIM + NT, ["packed products", "sliced products"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P10": P("every accumulating multiplication algorithm and both dispatchers against the reference; " + DIM + NT, ["packed products", "sliced products"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P11": P("scalar multiples packed/sliced/accumulating, incl. in place and the table path above 2^17 entries; " + DIM + NT, ["scalar products", "table-path scalar products"]),
    "P12": P("reduced echelon forms from every algorithm against the reference reduced form and rank; " + DIM + NT, ["packed echelon forms", "sliced echelon forms", "rank-deficient inputs"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P13": P("non-reduced echelon forms: shape, rank and row space against the reference; " + DIM + NT, ["packed echelon forms", "sliced echelon forms", "rank-deficient inputs"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P14": P("inversion of invertible and singular matrices; " + DIM + NT, ["inverses verified", "singular inputs rejected"]),
    "P15": P("triangular solves upper/lower, packed/sliced, all algorithms and cutoffs, junk in the other triangle; " + DIM + NT, ["packed triangular solves", "sliced triangular solves"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P16": P("PLE factorisations by every algorithm: P^T*L*E rebuilt by the reference equals the input; " + DIM + NT, ["packed factorisations verified", "sliced factorisations verified", "rank-deficient inputs", "permutations that were not the identity before"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P17": P("PLUQ factorisations: P^T*L*U*Q^T rebuilt by the reference equals the input; " + DIM + NT, ["sliced factorisations verified", "rank-deficient inputs", "permutations that were not the identity before"], asan=3, fast=3, big_asan=1, big_fast=1),
    "P18": P("products of polynomials with matrix coefficients by every algorithm, sums, comparison, change of length, against a bit-level reference; " + NT, ["polynomial products", "polynomial operations"]),
    "P22": P("operations called with operands whose dimensions or fields do not fit, one mismatch at a time, and the same calls with fitting operands, requests beyond the limits of the library and at them; " + NT, ["mismatching operands rejected", "fitting operands accepted", "requests beyond the limits rejected", "requests at the limits accepted"]),
    "P23": P("random sequences of 60 (thorough 160) operations of 20 kinds on a pool of some 60 matrices over three fields alive at once, each destination compared with a shadow copy after every step, all other matrices compared bit by bit every 10 steps; non-trivial: every history; distinct: different operation sequences or fields", ["steps", "pool checks", "operations over replaced fields"]),
    "P24": P("up to six tables built for consecutive columns, reused up to four times at other columns, every row of every table compared, then used to process rows; " + NT, ["table rows checked", "row processings"]),
    "P25": P("repeated randomisation of the same matrix: value coverage, bit frequencies, positions, storage around the view; " + NT, ["random elements observed", "positions observed to vary"]),
    "P26": P("new matrices, windows of windows, copies, tables, polynomials and fields created among freed junk; " + NT, ["new matrices inspected", "nested views exercised", "copies compared"]),
    "P27": P("text printed for matrices and windows, parsed back; " + NT, ["printed elements compared"]),
    "P28": P("all pairs of lengths 1..16, then random ones (some up to 140, or 1200 by a short one) with own schemes and field reductions; the map is checked on every pair of monomials, which determines it, and applied to random matrices; " + NT, ["monomial products checked", "map applications", "moduli that are powers", "maps for long operands"]),
    "P30": P("Karatsuba of every length with no field or a field of at least that degree, additions of powers, sums of lists up to length 44, random compiled maps up to 40x40, 40% windows; " + NT, ["list operations", "compiled maps applied", "window coefficients"]),
    "P31": P("wide matrices of 2^31 to 2^32 bits with up to 40 nonzero columns, and matrices of millions of rows with up to 40 nonzero rows (some stored in several blocks), these placed around the ends, word and block boundaries and the positions where bit and entry counts wrap; ten families of operations in turn for wide, nine for tall ones, every word of every result compared; " + NT, ["very large matrices compared", "operations on more than 2^31 bits", "operations on very many rows"], asan=2, fast=2, q=55),
    "P29": P("the same operation with several cutoffs and through every entry point of the family; " + NT, ["parameter settings compared"]),
}

ALL = "P01,P02,P04,P05,P06,P07,P08,P09,P10,P11,P12,P13,P14,P15,P16,P17,P18,P22,P23,P24,P25,P26,P27,P28,P29,P30"
MATS = "P04,P05,P06,P07,P08,P09,P10,P11,P12,P13,P14,P15,P16,P17,P22,P23,P24,P25,P26,P27,P29"
BIG = "P09,P10,P12,P13,P15,P16,P17,P11"


def meta(mode, mix, spec, rule, must, q=34, t=420):
    def jobs(dl):
        return [dict(variant=v, workers=n, count=INF, deadline=dl, label=("big" if big else "mix"),
                     args=["--mix", BIG if big else mix, "--only", mode] + (["--big"] if big else [])) for v, n, big in spec]
    return {"quick": jobs(q), "thorough": jobs(t), "rule": rule, "must_see": must}


MIXNT = "the workloads of the other properties in turn (counts per workload in monitor_events); a case is non-trivial and distinct as in its own workload"
PLAN["P19"] = meta("frame", MATS, [("fast", 4, 0), ("asan", 3, 0), ("fast", 1, 1)],
                   "inputs compared word by word with their contents before the call, destinations compared outside their view and for unused element bits, 80% windows; " + MIXNT,
                   ["input operands verified unchanged", "destination frames verified", "guarded window operands"])
PLAN["P20"] = meta("mem", ALL, [("asan", 3, 0), ("dbg", 1, 0), ("valgrind", 3, 0), ("asan", 1, 1)],
                   "AddressSanitizer and UndefinedBehaviorSanitizer (asan), the same with the library's own assertions (dbg), memcheck for uninitialised values (valgrind), abort() and CPU budget; " + MIXNT,
                   ["guarded window operands", "reference products", "packed products", "sliced products"])
PLAN["P21"] = meta("leak", ALL, [("asan", 7, 0), ("asan", 1, 1)],
                   "every case is repeated with identical inputs and the number of live heap blocks before and after the repetition compared; growth is confirmed over 40 further repetitions; " + MIXNT,
                   ["repetitions compared"])
