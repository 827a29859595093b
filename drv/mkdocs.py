#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "drv"))
import jobs as J  # noqa: E402

P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), state=None, observe=None, na=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a}, na, note))


VALS = "The tests use a handful of literal arrays; what decides is the combination of arbitrary values, lengths, null positions and physical encodings, which only a symbolic value per row covers."

p("C01", "Integer compression is lossless",
  "Compressing any integer array with frame-of-reference, zig-zag, bit-packing (with exceptions for values that do not fit) or delta coding and decompressing it gives the same values, the same nulls, the same type and the same length. This holds for every chosen reference, shift and bit width, including values at the ends of the type's range.",
  "all integer arrays of each primitive type, all validity bitmaps, all bit widths", VALS,
  ["encodings/fastlanes/src/for/compress.rs", "encodings/zigzag/src/compress.rs", "encodings/fastlanes/src/bitpacking/compress.rs", "encodings/fastlanes/src/delta/compress.rs"],
  [("frame of reference and trailing-zero shift", "for/compress.rs compress_primitive, decompress_primitive"), ("packing and patches", "bitpacking/compress.rs"), ("transposed deltas", "delta/compress.rs"), ("zig-zag mapping", "zigzag/src/compress.rs")])
p("C03", "Structural compression is lossless",
  "Encoding any array as a dictionary, run-end, run-end boolean or byte-per-boolean array and decoding it gives back the same values, nulls, type and length. Bit patterns that compare equal but differ, such as the two zeros of a float, stay apart.",
  "all arrays of every primitive type and of booleans, with any validity bitmap", VALS,
  ["encodings/dict/src/compress.rs", "encodings/runend/src/compress.rs", "encodings/runend-bool/src/compress.rs", "encodings/bytebool/src/array.rs"],
  [("dictionary of distinct values with null code", "dict/src/compress.rs dict_encode_typed_primitive"), ("run detection", "runend/src/compress.rs"), ("boolean runs from slices of set bits", "runend-bool/src/compress.rs")],
  note="run ends and booleans: any values; dictionaries: any values up to two rows, and up to four rows of values drawn from four bit patterns (zeros of either sign, a NaN)")
p("C02", "Floating-point compression is bit exact",
  "Compressing any 32- or 64-bit float array adaptively (decimal scaling or front-bit dictionary) and decompressing it gives back every value bit for bit, NaN payloads, infinities, subnormals and both zeros included, with the same nulls.",
  "all float arrays and all choices of exponents and dictionaries", "Rounding decides which values are exceptions; the tests use a few decimals, while losslessness must hold for all 2^32 or 2^64 patterns.",
  ["encodings/alp/src/alp/mod.rs", "encodings/alp/src/alp/compress.rs", "encodings/alp/src/alp_rd/mod.rs"],
  [("encode, decode and compare, exceptions to patches", "alp/mod.rs ALPFloat::encode"), ("left-part dictionary and exceptions", "alp_rd/mod.rs RDEncoder")],
  note="every bit pattern of one to four values; decimal scaling for every pair of exponents up to 2 (quick) or 10 (thorough), front-bit dictionaries built from four fixed samples; the sampling that picks exponents is outside")
p("C04", "String and binary compression is lossless",
  "Encoding any string or binary array with symbol-table or dictionary compression, or between the offset and view layouts, and decoding it gives back the same bytes, nulls, type and length, for empty strings, strings at the inline limit and longer ones alike.",
  "all string and binary arrays with any validity", VALS,
  ["encodings/fsst/src/compress.rs", "encodings/fsst/src/canonical.rs", "encodings/dict/src/compress.rs", "vortex-array/src/array/varbin/mod.rs", "vortex-array/src/array/varbinview/mod.rs"],
  [("symbol compression over offsets and uncompressed lengths", "fsst/src/compress.rs"), ("inline and referenced views", "varbinview/mod.rs")],
  note="layouts: any bytes in rows of chosen lengths around the inline limit; dictionaries: any bytes in one row, else rows of chosen words; symbol tables: up to three bytes of a four-letter alphabet against a fixed table, else rows of chosen words trained on themselves")
p("C05", "Timestamp splitting is lossless",
  "Splitting any timestamp array into days, seconds and sub-seconds and joining the parts gives back the same timestamps, nulls, unit and time zone, before and after the epoch.",
  "all timestamps in all units that carry a sub-second part, any validity", "Negative timestamps and the ends of the range are where truncating division and joining disagree; tests use a few recent dates.",
  ["encodings/datetime-parts/src/compress.rs", "encodings/datetime-parts/src/array.rs", "encodings/datetime-parts/src/compute.rs"],
  [("split and join by unit divisors", "compress.rs split_temporal, array.rs decode_to_temporal")])
p("C06", "Adaptive compression preserves contents",
  "Compressing any array with the default sampling compressor, in any chunking, yields an array whose decoded contents, nulls and type equal the input's, whatever encodings sampling selects.",
  "all arrays, samples and compressor configurations", "The choice depends on sampled ratios of the data itself, so each test exercises one path through the candidate encodings.",
  ["vortex-sampling-compressor/src/lib.rs", "vortex-sampling-compressor/src/compressors"],
  [("candidate selection", "sampling_compressor.rs compress_array"), ("per-encoding wrappers", "src/compressors/*.rs")], over=("inputs", "configurations"))
p("A01", "Random access equals decoding, in every encoding",
  "For every array in every encoding, each row read individually equals the same row of the fully decoded array, in value, null-ness and type, and both equal the contents the array was built from. Reading past the end is an error.",
  "all array contents, validity layouts and encodings, sliced or not", VALS,
  ["vortex-array/src/compute/unary/scalar_at.rs", "vortex-array/src/canonical.rs", "encodings"],
  [("per-encoding row access", "*/compute*.rs ScalarAtFn"), ("per-encoding decoding", "*/ IntoCanonical")])
p("A02", "A slice contains exactly the rows asked for",
  "Slicing any array in any encoding to any valid row range yields exactly those rows, with values, nulls and type unchanged, and slices of slices compose. A range outside the array is an error.",
  "all contents, encodings, range bounds and nestings of two", VALS,
  ["vortex-array/src/compute/slice.rs", "encodings"],
  [("per-encoding slicing with offsets into blocks, runs, bitmaps and patches", "*/compute*.rs SliceFn")])
p("A03", "Take gathers exactly the rows asked for",
  "Taking any list of row numbers from any array in any encoding gives those rows in that order with repetitions, values and nulls unchanged, for each unsigned index type and for no indices at all.",
  "all contents, encodings and index lists", VALS,
  ["vortex-array/src/compute/take.rs", "encodings"],
  [("per-encoding gather, by block, run, chunk and patch", "*/compute*.rs TakeFn")])
p("A04", "Filter keeps exactly the selected rows",
  "Filtering any array in any encoding by a mask of the same length keeps exactly the rows whose mask bit is set, in order, with values, nulls and type unchanged. A mask of another length is an error.",
  "all contents, encodings and masks", VALS,
  ["vortex-array/src/compute/filter.rs", "encodings"],
  [("mask to indices or slices", "compute/filter.rs"), ("per-encoding filters", "*/compute*.rs FilterFn")])
p("A05", "Search in a sorted array finds the insertion point",
  "In every sorted array, in every encoding, searching any value from the left or right reports a position such that all rows before compare below (or not above) the value and all rows from there on do not, and reports found exactly when an equal row exists.",
  "all sorted contents, search values (also of other ranges than the stored one) and sides", VALS,
  ["vortex-array/src/compute/search_sorted.rs", "vortex-array/src/array/sparse/compute/mod.rs", "encodings/fastlanes/src/for/compute.rs", "encodings/fastlanes/src/bitpacking/compute/search_sorted.rs"],
  [("generic binary search", "compute/search_sorted.rs"), ("translation of the value into the encoded domain", "for/compute.rs, bitpacking/compute/search_sorted.rs, sparse, chunked, runend")])
p("A06", "Comparison is row by row and encoding independent",
  "Comparing two arrays of the same type and length with any of the six operators yields for each row the comparison of the two values, and null where either row is null, whatever the encodings of the two sides. Arrays of different lengths are refused.",
  "all contents of both sides, operators and pairs of encodings (floats: without NaN and negative zero, where implementations are allowed to differ)", VALS,
  ["vortex-array/src/compute/compare.rs", "vortex-array/src/array/primitive/compute/compare.rs", "vortex-array/src/array/constant/compute.rs", "vortex-array/src/array/chunked/compute/mod.rs"],
  [("operand order and operator swapping", "compute/compare.rs"), ("bit-packed results in blocks of 64", "primitive/compute/compare.rs"), ("constants", "constant/compute.rs scalar_cmp")])
p("A07", "Boolean and/or is row by row with nulls propagated",
  "The conjunction and disjunction of two boolean arrays are computed row by row and are null where either side is null, for every pair of encodings that supports them.",
  "all contents and encodings of both sides", VALS,
  ["vortex-array/src/compute/boolean.rs", "vortex-array/src/array/bool/compute/boolean.rs", "vortex-array/src/array/constant/compute.rs"],
  [("arrow kernels over bitmaps", "bool/compute/boolean.rs"), ("constants", "constant/compute.rs constant_array_bool_impl")])
p("A08", "Casting, filling and subtracting change only what they say",
  "Casting converts each non-null row to the same number in the target type or fails, and never turns nulls into values; filling forward replaces each null by the last value before it; subtracting a scalar subtracts it from every valid row. Nulls, length and type come out as defined, in every encoding.",
  "all contents, all pairs of numeric types and nullabilities, all scalars that do not overflow", VALS,
  ["vortex-array/src/array/primitive/compute/cast.rs", "vortex-array/src/array/primitive/compute/fill.rs", "vortex-array/src/array/primitive/compute/subtract_scalar.rs", "vortex-array/src/compute/unary"],
  [("checked conversion per value", "primitive/compute/cast.rs"), ("forward fill", "primitive/compute/fill.rs, bool/compute/fill.rs"), ("subtraction", "*/subtract_scalar.rs")])
p("A09", "Statistics never lie about the data",
  "Every statistic an array reports, computed, carried over by an operation or merged from parts, is true of its rows: minimum and maximum bound all values, null and true counts are exact, and an array said to be constant or sorted is. Statistics of a plain array are exact.",
  "all contents, encodings, orders of asking, and subsets of statistics merged", "Readers skip data on the strength of statistics; wrong ones arise from nulls, NaN, negative zero, merging and stale inheritance, combinations the tests do not enumerate.",
  ["vortex-array/src/stats/statsset.rs", "vortex-array/src/array/primitive/stats.rs", "vortex-array/src/array/bool/stats.rs", "vortex-array/src/array/chunked/stats.rs", "encodings/dict/src/stats.rs"],
  [("accumulators", "primitive/stats.rs, bool/stats.rs, varbin/stats.rs"), ("merge rules", "stats/statsset.rs"), ("inheritance", "compute/slice.rs, filter, take")])
p("A10", "Nulls are tracked consistently through every layer",
  "The nulls an array reports row by row, as a whole bitmap, through its null count and in decoded form always agree, and combining, slicing, taking and filtering validity gives what doing so to the bits gives.",
  "all validity layouts and bitmaps, in every encoding", VALS,
  ["vortex-array/src/validity.rs", "vortex-array/src/array/sparse/mod.rs", "encodings"],
  [("validity algebra", "validity.rs"), ("logical validity per encoding", "*/ ArrayValidity")])
p("A11", "How an array is split into chunks never shows",
  "An array made of any number of chunks, empty ones included and in any mixture of encodings, behaves in every operation as the one contiguous array with the same rows, and rechunking keeps its contents.",
  "all contents, chunk boundaries and chunk encodings", VALS,
  ["vortex-array/src/array/chunked/mod.rs", "vortex-array/src/array/chunked/canonical.rs", "vortex-array/src/array/chunked/compute"],
  [("chunk lookup by offsets", "chunked/mod.rs find_chunk_idx"), ("swizzled canonical form", "chunked/canonical.rs")])
p("I01", "Arrow conversion preserves data both ways",
  "Converting any array to Arrow and back, or from Arrow, including sliced Arrow arrays with offsets, preserves values, nulls, type and length.",
  "all contents, types, nulls and offsets", VALS,
  ["vortex-array/src/arrow/array.rs", "vortex-array/src/canonical.rs", "vortex-dtype/src/arrow.rs"],
  [("canonical to Arrow", "canonical.rs"), ("Arrow to array", "arrow/array.rs")])
p("I02", "The message stream carries arrays unchanged",
  "An array written to the streaming format and read back is the same array: same type, length, encoding, values, nulls and statistics, however late the bytes arrive. Every operation works on it as on the array that was written.",
  "all contents and encodings, all splittings of the byte stream", "Alignment, padding and message boundaries depend on buffer sizes and on how the transport splits reads.",
  ["vortex-serde/src/stream_writer/mod.rs", "vortex-serde/src/stream_reader/mod.rs", "vortex-serde/src/messages", "vortex-array/src/view.rs"],
  [("message framing", "messages/reader.rs, writer.rs"), ("array views over flatbuffers", "vortex-array/src/view.rs")], over=("inputs", "schedules"),
  note="every encoding with symbolic contents in one message, or one per chunk, and the operations on what was read back; up to two deliveries late; a signalling NaN held as a constant or fill value is left out (it travels through a 64-bit float)")
p("I03", "A file returns the rows and columns that were written",
  "Reading a file back, whole, with a projection by name or by position, and in batches of any size, returns exactly the corresponding rows and columns of what was written, in order, however it was cut into chunks and writes and however late the reads are delivered.",
  "all table contents, projections, batch sizes, chunkings and delivery orders", "Row bookkeeping across layouts, chunks and batches has a combinatorial number of boundary cases.",
  ["vortex-serde/src/layouts/write/writer.rs", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/layouts/read/batch.rs", "vortex-serde/src/layouts/read/buffered.rs"],
  [("layout tree and batching", "layouts/read/layouts, batch.rs, buffered.rs, stream.rs"), ("footer", "layouts/read/footer.rs"), ("projection of types and columns", "layouts/read/cache.rs, layouts/column.rs")], over=("inputs", "configurations"),
  note="tables of three columns with up to 3 rows (5 thorough), x in every encoding; tables without nulls of their own; a signalling NaN held as a constant or fill value is left out; reading chosen row indices is accepted but not implemented by the code and is not claimed")
p("I04", "Pushed-down predicates select exactly the matching rows",
  "Reading a file with a row filter returns exactly the rows for which the predicate is true, in order: rows where it is false or null are left out, and every column, batch and chunk of what is returned stays in step with the others.",
  "all table contents, predicates of the listed shapes, literals, projections, batch sizes and chunkings", "The filter runs over its own columns and batches next to those returned; which batches are empty, skipped or pending depends on the data.",
  ["vortex-serde/src/layouts/read/filtering.rs", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/layouts/read/builder.rs", "vortex-expr/src"],
  [("row filter evaluation", "layouts/read/filtering.rs"), ("masks and batches in step", "layouts/read/stream.rs"), ("conjunction splitting and column selection", "vortex-expr/src, layouts/read/builder.rs")], over=("inputs", "programs"),
  note="sixteen shapes of predicates with any literal and operator over tables of three columns and up to 3 rows; floats without NaN and negative zero; skipping by statistics (layouts/pruning.rs) is not used by the reader and not claimed")
p("I05", "Types and scalars survive serialization",
  "Every logical type and every scalar value written to its serialized form and read back is equal to the original.",
  "all types up to a nesting depth and all scalar values", "The tests serialize a few types; nesting, nullability at each level and extension metadata multiply.",
  ["vortex-dtype/src/serde", "vortex-scalar/src/serde", "vortex-flatbuffers"],
  [("flatbuffer schemas", "vortex-dtype/src/serde/flatbuffers"), ("scalar value encoding", "vortex-scalar/src/serde")])
p("S01", "Scalars convert, compare and order like their values",
  "Converting a scalar between numeric types gives the same number or an error; equality and ordering of scalars of the same logical type are those of the values, with null last; a scalar survives conversion to a Rust value and back.",
  "all scalar values and pairs of types", "Numeric conversions fail at range ends, signs and NaN, which the tests touch for few pairs of types.",
  ["vortex-scalar/src/primitive.rs", "vortex-scalar/src/pvalue.rs", "vortex-scalar/src/lib.rs", "vortex-scalar/src/value.rs"],
  [("numeric conversion", "pvalue.rs, primitive.rs"), ("ordering", "lib.rs, value.rs")])
p("R01", "Malformed input is an error, not a crash",
  "Opening bytes that were truncated or altered, or constructing arrays from parts that do not fit together, yields an error or a well-formed array; it never reads outside the given buffers.",
  "all byte strings up to a length, all inconsistent constructor arguments", "The space of malformed inputs is adversarial.",
  ["vortex-serde/src/layouts/read/footer.rs", "vortex-serde/src/messages/reader.rs", "vortex-array/src/array", "encodings"],
  [("length and magic checks", "layouts/read/footer.rs, stream.rs"), ("constructor validation", "*/mod.rs try_new")], over=("inputs", "fault_sequences"))
p("E01", "Expressions evaluate to what they say",
  "Evaluating an expression built of columns (by name or position), literals, comparisons, and, or and column selections over a table gives for each row the value of the expression on that row's fields, and null where an operand is null. Swapping an operator exchanges its sides and inverting it negates its result.",
  "all rows, literals and operators, in sixteen shapes of expressions", "The combinations of operators, nulls and columns grow exponentially with depth.",
  ["vortex-expr/src/binary.rs", "vortex-expr/src/column.rs", "vortex-expr/src/select.rs", "vortex-expr/src/operators.rs", "vortex-expr/src/literal.rs"],
  [("evaluation", "vortex-expr/src/*.rs evaluate"), ("operators", "operators.rs")], over=("inputs", "programs"),
  note="sixteen shapes of expressions and six of selections over tables of three columns and up to 2 rows, x in every encoding; floats without NaN and negative zero; timestamps in date-time parts are not compared with literals (the code returns an error)")
p("D01", "Query engine scans return what a direct read returns",
  "A scan through the query-engine integration, with any pushed-down projection and filters, returns the rows a full read followed by the same projection and filter would return.",
  "all tables and pushed-down plans", "Plans and data multiply, and the engine re-applies some filters, which hides errors.",
  ["vortex-datafusion/src/memory/provider.rs", "vortex-datafusion/src/persistent", "vortex-expr/src/datafusion.rs"],
  [("filter pushdown", "memory/provider.rs supports_filters_pushdown"), ("plan execution", "memory/plans.rs")], over=("inputs", "programs"),
  na="the code runs inside DataFusion's planner and a multi-threaded async runtime; neither (hundreds of thousands of lines of dynamic dispatch, threads and wakers) can be executed symbolically within reach. The filter and expression code it delegates to is claimed under E01.")

TECH = "symbolic execution of the compiled LLVM IR of the real functions with symbolic inputs; every branch and assertion decided by z3 (bounded model checking by path exploration), counterexamples replayed natively"
LATER = "not encoded: see DESIGN.md"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, why, note in P:
        i = d["id"]
        if i in J.PROPS:
            checks.append({"property": i, "quick_cmd": f"python3 /verif/check.py {i} quick", "thorough_cmd": f"python3 /verif/check.py {i} thorough", "technique": TECH,
                           "level": "model_checking", "level_note": note or "exhaustive within the stated lengths, types and encodings (see the evidence's jobs); nothing is claimed beyond them"})
        else:
            na.append({"property": i, "reason": why or LATER})
    m = {"version": 1, "setup_cmd": "python3 /verif/drv/build.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
