"""What each check runs: engine parts (entry selections) and lints."""
import parts

ASSUME = [
    "clang's translation of the sources to LLVM bitcode (-O0, locals promoted) means what the sources mean",
    "every bitmap passed to a public function is well formed and arguments are distinct unless an aliased entry says otherwise",
    "bitmaps with and without copy-on-write are not mixed in one call (documented in roaring.h)",
    "assert()ed conditions hold (assert(false) counts as unreachable and is checked)",
    "allocations succeed (except in the part named fault)",
]


def any_entry(e):
    return True


def eng(name, select=any_entry, **k):
    return dict(name=name, select=select, **k)


E = "Abstract interpretation (join/widening fixpoint over ownership, typestate and shape facts, interprocedural with function summaries) of the library's bitcode from every public entry point; an entry listed under entries_not_decided gives no verdict."
T = "abstract interpretation of the bitcode from every public entry point"
N = "Sound for the entries listed as decided, up to the stated assumptions; entries that exceed the step limit or need facts outside the domain are listed in the evidence and give no verdict."
PLAN = {}


def plan(pid, engine, lints=(), technique=T, note=N, explanation=E, **k):
    PLAN[pid] = dict(engine=engine, lints=list(lints), technique=technique, note=note, explanation=explanation, **k)


def not_cow0(e):
    return "cow=0" not in e and own(e)


def own(e):
    return "frozen=1" not in e


def view(e):
    return "frozen" in e or "view" in e


plan("P01", [eng("entries", own)], technique=T + " (const-effect rule)")
plan("P02", [eng("entries", not_cow0)], technique=T + " (ownership/sharing typestate)")
plan("P03", [eng("entries", own)], technique=T + " (ownership and liveness)")
plan("P04", [eng("entries", own)], technique=T + " (kind typestate)")
plan("P05", [eng("entries", own)], technique=T + " (liveness of derived pointers), and a dataflow analysis of pointers into the node arrays of the 64-bit index (age and node type)", lints=[("index_nodes", parts.relocation)])
plan("P06", [eng("entries", own)], technique=T + " (allocation family typestate), and who names the system allocator", lints=[("allocators", parts.alloc)])
plan("P07", [eng("entries", own, keep=lambda e, f: not e["entry"].startswith("roaring_init_memory_hook"))], technique=T + " (global-effect rule), and a flow-insensitive scan of every write for global targets", lints=[("globals", parts.globals_c)])
plan("P08", [eng("entries", not_cow0)], technique=T + " (reference-count typestate), and atomicity/ordering rules on every counter access", lints=[("counters", parts.refcount)])
plan("P09", [], lints=[("isa", parts.isa)], technique="call-graph reachability after constant propagation of the detection result; partial evaluation of the detection itself",
     note="Functions built for an extension must be unreachable when the extension is not announced, and it must not be announced unless the processor answers demand it; code the compiler itself may emit for a non-generic target is out of scope.",
     explanation="Bitcode of the generic x86-64 build; croaring_hardware_support() replaced by each constant, sparse conditional constant propagation, then reachability over calls and address-taken functions.")
plan("P10", [], lints=[("bounds", parts.bounds)], technique="relational abstract interpretation: linear inequalities between positions, counts and the announced length, at every access through the buffer, on the inlined bitcode of each reader",
     note="Sound for the readers listed, for announced lengths up to 2^62; a reader under entries_not_decided gives no verdict. The 64-bit frozen view is not covered.",
     explanation="Each reader is called by a client function with a buffer of n bytes (n and content arbitrary). Its calls are inlined, and a fixpoint over conjunctions of linear inequalities (Fourier-Motzkin projection, simplex entailment, widening with position templates) gives the facts that hold at each access; the obligation 0 <= position and position + length <= n must follow from them.",
     assume=["the announced length is at most 2^62", "the caller's buffer is not memory the library allocated"])
plan("P11", [eng("entries", lambda e: own(e) and ("range" in e or "flip" in e))], technique=T + " (narrowing of 64-bit range bounds)")
plan("P12", [eng("wrappers", cpp=True), eng("failures", lambda e: "client5taken" not in e, cpp=True, fault=True, keep=lambda e, f: f["rule"] == "CPPFAIL" or (f["rule"] in ("NULLDEREF", "LEAK", "UAF", "DFREE", "BADFREE") and "cpp/" in f["where"]))],
     technique=T.replace("from every public entry point", "of the C++ header linked with the library, from every member function of roaring::Roaring and its iterator and from client functions that build and destroy objects") + " (ownership and liveness; in a second part every allocation may fail)",
     note="Covers roaring::Roaring (cpp/roaring.hh). The std::map inside Roaring64Map is outside the domain: its members are not covered. Clients are functions in cpp_clients.cpp, analysed and never run.")
plan("P13", [], lints=[("sizes", parts.sizes)], technique="relational abstract interpretation with ghost sums over the containers: linear equalities between the announced size, the write position and what each container contributes",
     note="Sound for the formats of 32-bit bitmaps (portable, native, frozen; C functions and the C++ class), for bitmaps whose directory holds at most 65536 containers; a client under entries_not_decided gives no verdict. 64-bit formats are not covered.",
     explanation="Each client asks for the size, declares a buffer of that many bytes and has it written. The calls are inlined; at each place where a container is unwrapped ghost sums add up the number of containers and what their kinds contribute; a loop that visits the whole directory ends with the sums of the whole directory. A fixpoint over linear constraints must imply every obligation.",
     assume=["what container_unwrap_shared, ra_has_run_container, roaring_bitmap_get_cardinality and roaring_bitmap_to_uint32_array promise: the container itself and its kind; a fixed answer as long as nothing changes; four bytes for each value",
             "the buffer does not overlap the bitmap", "each container has at most 65536 values or runs"])
plan("P14", [eng("views", view)], technique=T + " (views: read-only bitmaps whose containers and tree lie in the caller's buffer; const-effect, release and ownership rules)")
plan("P15", [eng("entries", own)], technique=T + " (initialisation)")
plan("P16", [eng("entries", lambda e: own(e) and ("iterate" in e or "for_each" in e))], technique=T + " (callback typestate)")

plan("P17", [eng("fault", fault=True)], technique=T + " in which every allocation may also return null (null-dereference, ownership and liveness rules on the failing paths)",
     note="Covers the operations listed in cfg/entries.json under fault (creation, copying, opening, deserialization, exporting, iterators, bitset growth). Insertion into an existing bitmap has no way to report and is not covered.")

LINT = "Every function of the bitcode (no entry selection); the rule is in the evidence."
plan("P18", [], lints=[("alignment", parts.align)], technique="interprocedural alignment analysis: the base and the offset of every access compiled with 16 or more bytes of alignment, demands propagated through parameters",
     note="x86-64 build (SSE, AVX2, AVX-512 and generic kernels); accesses whose base cannot be followed are counted under not_followed and give no verdict.", explanation=LINT)
plan("P19", [], lints=[("asserts", parts.asserts)], technique="effect analysis of the bitcode with and without NDEBUG, compared function by function",
     note="C sources and headers of the library.", explanation=LINT)
plan("P20", [], lints=[("noexcept", parts.noexc)], technique="exception reachability over the call graph of the C++ headers, from every call guarded by noexcept",
     note="Exceptions of the headers themselves (ROARING_TERMINATE) and out-of-range/length errors; failure of operator new inside the standard library is not counted.", explanation=LINT)
