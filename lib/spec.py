"""What each property's check runs."""
BOTH = ["checked", "release"]
COMMON = [
    "the instrumented allocator and element types observe all effects of the code under test",
    "single-threaded executions; the standard library and rustc are correct",
]
VEC_BOUNDS = ("two containers, length <= 2 (A) and <= 1 or 2 (B), two element values, two same-layout types, ~90 operations; searched to "
              "closure of (contents, capacities, types); long elements to depth 3; unmerged histories to depth 2 or 3; "
              "elements of every alignment from 8 KiB to 64 MiB in unmerged histories of 1 to 3 operations (to 512 MiB for 2 operations); every operation with every argument at every length to 34 (thorough 50) with three amounts of spare capacity; 61 lengths from 35 to 65537 around powers of two and round numbers, each operation with its boundary arguments and with spare capacity; and, "
              "for three histories of one pair of containers and two of another, every operation of one pair with every operation of the other run to "
              "its end at each point where the first calls a clone, drop, equality or hash, or the allocator")



CLIENT = "explicit-state exploration of the real code in lockstep with a typed reference model"
ENUM = "exhaustive enumeration of bounded executions of the real code against a typed oracle"
NOTE = ("Everything within the stated bounds is executed on the implementation itself and judged by an independent oracle; outside the "
        "bounds nothing is shown. Trusted: rustc, the standard library, the oracle, the instrumented allocator and elements.")


def mk(plan, classes, level, bounds, oracle, rule, technique, assumptions=(), programs=(), thorough=None, note=NOTE):
    return {"plan": {"quick": plan, "thorough": thorough or plan}, "classes": set(classes) | {"Crash"}, "level": level,
            "bounds": bounds, "oracle": oracle, "rule": rule, "assumptions": COMMON + list(assumptions), "programs": list(programs),
            "technique": technique, "note": note}


VALS = [("values", BOTH, ":[mu]"), ("values", ["checked"], ":n"), ("copyvalues", BOTH, "")]
PROPS = {
    "C01": mk([("vecdyn", BOTH, ""), ("aligns", BOTH, "K"), ("lengths", BOTH, "^[KS].*:ops"), ("long", ["checked"], ":ops:short"), ("long", ["release"], "^(D1|D8|D24|P1):ops:long")], ["Content", "Panic", "Type"], "model_checking", VEC_BOUNDS,
              "two Vec<label> models stepped in lockstep; after every operation every way of reading is compared",
              "every operation enabled in every reached state is executed on the implementation and compared with the model; a transition "
              "counts as non-trivial because both result and full contents are compared", CLIENT),
    "C02": mk([("veccopy", BOTH, ""), ("aligns", BOTH, "C|huge"), ("lengths", BOTH, "^C.*:ops"), ("long", ["checked"], ":copies:short"), ("long", ["release"], "^P(1|3|8|24):copies:long")], ["Content", "Panic", "Type"], "model_checking", VEC_BOUNDS,
              "two Vec<label> models stepped in lockstep; after every operation every way of reading is compared",
              "every operation enabled in every reached state is executed on the implementation and compared with the model; a transition "
              "counts as non-trivial because both result and full contents are compared", CLIENT),
    "C03": mk([("vecdyn", BOTH, ""), ("values", BOTH, ":[mu]"), ("types", BOTH, "K|S|B"), ("aligns", BOTH, "K"), ("lengths", BOTH, "^[KS].*:ops"), ("long", ["checked"], "^D.*:ops:short"), ("long", ["release"], "^(D8|D24):ops:long")], ["Drop", "Mem"], "model_checking", VEC_BOUNDS,
              "ledger of live value identities against the number of values the model owns",
              "every operation enabled in every reached state; after each, the number and identity of live values is compared with ownership in the model",
              CLIENT),
    "C04": mk([("vecdyn", BOTH + ["miri"], ""), ("veccopy", ["checked", "miri"], ""), ("values", ["checked"], ":[mu]"), ("copyvalues", ["release"], ":m"), ("slices", BOTH, ""), ("aligns", BOTH, ""), ("lengths", ["checked"], ":ops"), ("long", ["checked"], "^(D3|D24|P3|P24):(ops|copies):short"), ("long", ["release"], "^(D12|P8):(ops|copies):long")], ["Mem"], "model_checking", VEC_BOUNDS,
              "allocator that checks layouts, canaries, poison, quarantine and leaks",
              "every operation enabled in every reached state under the checking allocator", CLIENT),
    "C05": mk([("types", BOTH, ""), ("vecdyn", ["checked"], ":m", ["Type"]), ("veccopy", ["checked"], ":m", ["Type"]), ("values", ["checked"], ":[mu]", ["Type"])],
              ["Type", "Content", "Panic", "Drop", "Mem"], "model_checking",
              "13 element types (every ordered pair, with pairs of equal size, of equal size and alignment, and of equal layout), 11 Copy types, "
              "containers of 0..3 elements, ~75 typed entry points; and the wrong-type operations inside all merged histories of C01, C02 and C07",
              "an entry point accepts exactly if the TypeIds are equal, and then has the effect of the typed operation; refused: both operands keep their contents",
              "every (stored type, supplied type, length, index, entry point) case is executed; afterwards the container is read in every way", ENUM),
    "C06": mk([("slices", BOTH, ""), ("lengths", BOTH, ":views"), ("long", ["checked"], ":views")], ["Content", "Panic", "Type", "Mem"], "exploration",
              "slices of length 0..5 (thorough 0..7), every composition of view operations (7 kinds of range, split, chunk, reborrow, check, "
              "conversion) up to depth 3 for short and 1 for the longest slices (and sub-slices at boundary places at 61 lengths from 35 to 65537 around powers of two and round numbers), then every reading or writing action with every valid argument; 31 element layouts; "
              "every range, split and chunk size of slices of 0..24 (thorough 0..60) elements of 7 layouts",
              "the same operation on the typed slice (addresses for views, contents for writes)",
              "every path within the bound is executed; each ends in a comparison of every element address or of the whole original", ENUM),
    "C07": mk(VALS, ["Content", "Panic", "Type", "Drop", "Mem"], "model_checking",
              "two boxed values, one small value, two container elements, two typed values (two element types of equal layout, two contents each): all "
              "histories of swap, assign, clone-from, clone, downcast, upcast, reborrow, write and drop to closure of the contents, plus all histories of depth 2 "
              "without merging; the same for Copy values with copy; 19 and 18 layouts; every operation of one such system with every operation of another run to its end at "
              "each point where the first calls a clone, drop, equality or hash, or the allocator",
              "typed model of every place's type and contents; equality, hash, debug output and key behaviour of the typed values",
              "every operation enabled in every reached state; after each, every place is read through every kind of handle", CLIENT),
    "C08": mk([("eqhash", BOTH, ""), ("lengths", BOTH, ":same"), ("long", ["checked"], ":same")], ["Content", "Panic", "Type", "Mem", "Drop"], "exploration",
              "long containers that differ in one place or in length (61 lengths from 35 to 65537); all ordered pairs of containers, sub-slices and values over a domain of lengths 0..3, three element values and several types (partial "
              "equality with NaN, padding, equal layouts of distinct types, custom Eq/Hash/Debug), compared through every handle; hashing with a recording "
              "hasher and with std's; debug output in normal, alternate and padded form; containers of up to 40 elements that differ at any one place or in length",
              "equality, hash input and debug output of the typed Vec, slice or value",
              "every ordered pair in the domain is compared through every kind of handle; a pair counts as non-trivial when both sides have an element", ENUM),
    "C09": mk([("faults", BOTH, ""), ("lengths", BOTH, ":faults"), ("long", ["checked"], "faults:short|(D1|D8|D24):faults:long")], ["Content", "Panic", "Drop", "Mem"], "fault_enumeration",
              "containers of 0..3 elements of five layouts; every operation that runs callbacks; for each, a panic injected at every callback index in turn "
              "(clone, drop, eq, hash, debug, iterator); continuations of the survivors to depth 2 (deep jobs); containers of 1..20 (thorough 50) elements, a panic at every callback index, and of up to 65537 elements, a panic at the first, middle and last ones",
              "ledger of live identities, allocator monitor, and agreement of all readings of the surviving container",
              "every (operation, state, callback index) is executed; afterwards the container is read in every way, used again and dropped", ENUM),
    "C10": mk([("ranges", BOTH, ""), ("long", BOTH, ":ranges")], ["Content", "Panic", "Cap", "Mem", "Type", "Drop"], "exploration",
              "lengths 0..3 (thorough 0..4), and boundary places of 61 lengths from 35 to 65537, and every index, range (all kinds of bounds), split point, rotation and chunk size in 0..len+2 and around every value "
              "whose multiple of the element size or whose successor overflows; 14 element layouts",
              "panics exactly if the typed Vec or slice operation panics; the same result otherwise; contents, capacity and address intact",
              "every (operation, length, argument) is executed on both; non-trivial when the argument is out of range or the result non-empty", ENUM),
    "C13": mk([("capacity", BOTH, "")], ["Cap", "Content", "Mem"], "exploration",
              "capacities 0..9 x lengths x 17 layouts through every conversion (typed to untyped, back, VecCopy, VecDyn, upcasts, views); "
              "with_capacity and reserve up to 70 elements then filled one by one by every kind of push; growth sequences to 100000 pushes (30000 for elements of the general family without a heap block of their own, 10000 with); all of it again at 31 lengths, capacities and reserves from 63 to 65537, as far as 1 MiB of elements goes (120 for counted elements, 8000 for strings)",
              "address, length and capacity seen by the allocator, and its count of allocations, moves and frees",
              "every (layout, capacity, length, conversion chain) is executed; the allocator's counters decide", ENUM),
    "C14": mk([("numeric", BOTH, "")], ["Content", "Type", "Panic", "Mem"], "exploration",
              "10 source types x 16 target types; every value of the 8- and 16-bit sources, all boundary values (powers of two +-2, limits, "
              "halves, infinities, NaN, subnormals) of the wider ones; lengths 0..40 and 36 lengths from 48 to 100000 (display: to 4097); every numeric dispatch form; display of every source",
              "num_traits::cast per element with zero for None, an independent exact computation, and to_string of the elements",
              "every (source, target, value) is cast through VecCopy and VecDyn; the values include every one the target cannot represent at the boundary", ENUM),
    "C11": mk([("dispatch", BOTH, "")], ["Rejected", "Content", "Panic", "Mem", "Drop"], "exploration",
              "declarations compiled: all 128 subsets of the 7 traits by both macros; all pairs of subsets of 5 traits for parent and child; every assignment of 4 traits to "
              "the nodes of 5 inheritance shapes (chains, diamond, two parents); all orders of items, names and bounds; two shapes of five traits in all 120 orders; chains of 2..12. Declarations run (subset of these): every "
              "upcast path to every ancestor and to every single-trait table, and every conversion to and from a trait object, for up to 12 kinds of container and handle. Elements whose clone, equality, hash and debug output differ from their bytes' and that need no destructor: 13 layouts, containers of 0..7 (thorough 0..12), every operation of every handle that dispatches, at every position",
              "the traits a table must offer, by a model of inheritance; the typed element's own clone, equality, hash and debug output; live and clone counts",
              "each declaration must compile with all its tables, conversions and promises; each (declaration, path, handle) is executed: contents, writes, drops, and every "
              "behaviour of the resulting table", "exhaustive enumeration of trait declarations and conversion paths, each compiled and executed against the typed behaviour",
              programs=["tables"]),
    "C12": mk([], ["Accepted", "Rejected"], "exploration",
              "12 handle kinds x 46 tables (every promise declared alone, with others, inherited once, twice, from either parent, behind a trait object, built in) x 7 "
              "wrappers; every subset of the 7 traits, declared and inherited, x element types lacking each trait or marker x 22 ways of building a table; every value "
              "obtained by a chain of at most 2 (thorough 3) steps of the grammar of C15, with every promise and every element type permitted by it",
              "the rule of the property: owners and exclusive views follow Send and Sync, shared views follow Sync, a promise needs the marker",
              "each probe is a function that requires the marker (or builds the table) and must be accepted or rejected as the rule says; probes that must be "
              "accepted show that the rejected ones differ only in the marker", "exhaustive enumeration of (handle, table, element type, derivation) probes, each decided by the compiler",
              programs=["markers"], note="Says nothing about unsafe implementations of the marker traits by clients. VecCopy is never Send or Sync, which the property permits."),
    "C15": mk([], ["Accepted", "Rejected"], "exploration",
              "client programs from a grammar: 8 sources, ~300 ways of obtaining a view from a source or from another view, composed to depth 3, "
              "every value such a chain depends on, and every use that changes, moves, drops or aliases it (all uses to depth 2, one of each strength "
              "at depth 3); pairs of chains of read-only views of one source",
              "the borrow rules of the grammar: which step borrows, exclusively or shared, which consumes, which use conflicts with which borrow",
              "each program is judged by the compiler and must be rejected; its control, with the last use of the view moved before the conflicting use, must be "
              "accepted; pairs of read-only views must be accepted", "exhaustive enumeration of client programs from a grammar, each decided by the compiler's borrow checker",
              programs=["borrow"], note="Says nothing about unsafe clients or about programs outside the grammar. Trusted: rustc's borrow checker, and that the bodies honour their signatures (C04, C16)."),
    "C16": mk([("arena", ["checked", "miri"], "^(?!step)"), ("arena", ["release"], "")], ["Content", "Panic", "Mem", "Type", "Drop", "Cap"], "exploration",
              "containers of 0..3 elements (thorough 0..5) and of 9, 17, 26 (counted) or 9, 17, 33, 65, 129, 257, with and without spare capacity, 14 element layouts and five numeric types: every operation "
              "that takes a shared reference to a container, slice view or value handle (about 40 for owned, 35 for Copy elements), alone and repeated; "
              "every such operation with every other run to its end, on a second container of another element type, at each point where the first calls into "
              "the element type or the allocator; and all of them in two threads under Miri's happens-before monitor for containers of 0..2 elements",
              "read-only pages: container, table, handle, storage and every element's heap data refuse writes while the operation runs, so that any "
              "write, even a temporary one, is a fault; in threads, two conflicting accesses without order; between instructions, a change of static memory",
              "every (layout, length, operation) is executed on frozen memory (the kernel is asked whether the pages refuse writes before each) and, single-stepped, "
              "with all static memory compared after every instruction; operations that write neither are independent, so every interleaving of readers is "
              "equivalent to the executed one; an operation that writes static memory is executed with every other one run to its end after each of its "
              "instructions, and after each one that writes, and judged by its results", ENUM),
}
UNCLAIMED = {}
