"""Checks on the bitcode other than the abstract interpreter: each returns (findings, evidence)."""
import concurrent.futures, json, os, re, tempfile, shutil


def _run(env, bc, *args):
    t = env["tool"]()[0]
    r = env["sh"]([t + "/roarlint", bc] + [str(a) for a in args])
    if r.returncode:
        env["die"]("roarlint " + str(args[0]) + " failed\n" + r.stdout[-2000:])
    fs, st, notes = [], {}, []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if "rule" in d:
            fs.append(d)
        elif "stat" in d:
            st[d["stat"]] = d["n"]
        elif "note" in d:
            notes.append((d["note"], d["v"]))
    return fs, st, notes


def _ev(st, notes, **k):
    return dict(st, notes=[f"{a}: {b}" for a, b in notes], **k)


def alloc(env):
    fs, st, n = _run(env, env["bitcode"](), "alloc")
    if not st.get("functions") and not any(st.values()):
        env["die"]("allocation rule: nothing analysed")
    f2, s2, n2 = _run(env, env["bitcode"]("cpp", "mkcpp.sh"), "alloc", "--cpp")
    if not s2.get("functions"):
        env["die"]("C++ headers: nothing analysed")
    return fs + f2, dict(_ev(st, n, rule="the system allocator is named only by the table of hooks; every dispatcher calls only the hook that stands at its own place in the table"), cpp_headers=_ev(s2, n2))


def globals_c(env):
    fs, st, n = _run(env, env["bitcode"](), "globals", "roaring_init_memory_hook")
    f2, s2, n2 = _run(env, env["bitcode"]("cpp", "mkcpp.sh"), "globals", "--cpp", "roaring_init_memory_hook", "__cxx_global_var_init")
    if not s2.get("functions"):
        env["die"]("C++ headers: nothing analysed")
    return fs + f2, dict(_ev(st, n, rule="no store, atomic or call-out can write a global or static variable, except the hook table at start-up and atomic detection caches"), cpp_headers=_ev(s2, n2))


def refcount(env):
    fs, st, n = _run(env, env["bitcode"](), "refcount", "atomic")
    f2, s2, n2 = _run(env, env["bitcode"]("plain", "mkir.sh", ("-DCROARING_ATOMIC_IMPL=1",)), "refcount", "plain")
    return fs + f2, dict(atomic=_ev(st, n), plain=_ev(s2, n2), rule="counters are only touched by the atomic helpers; increments at least relaxed, the decrement acquire-release; the decrement's result decides the release")


def relocation(env):
    fs, st, n = _run(env, env["bitcode"](), "reloc")
    if not st.get("functions_that_may_move_nodes") or not st.get("accesses_checked"):
        env["die"]("relocation rule: nothing analysed")
    return fs, _ev(st, n, rule="a pointer into the array of one type of index node is not used after that array may have moved (dataflow over ages and node types, with function summaries); an insertion into a node created in the same function does not overflow it; an iterator handed in has a fresh value at every exit after the leaves may have moved")


def align(env):
    fs, st, n = _run(env, env["bitcode"](), "align")
    if not st.get("aligned_accesses"):
        env["die"]("alignment rule: nothing analysed")
    return fs, _ev(st, n, rule="an access of 16 or more bytes alignment has a base that is a local, a constant or a block requested with that alignment, and an offset that is a multiple of it; demands on parameters are passed to the callers")


def asserts(env):
    a, b = env["bitcode"](), env["bitcode"]("ndebug", "mkir.sh", ("-DNDEBUG",))
    fs, st, n = _run(env, a, "asserts", b)
    if not st.get("functions_compared"):
        env["die"]("assertion rule: nothing analysed")
    return fs, _ev(st, n, rule="function by function, the writes and the calls that (transitively) write memory other than locals are the same with and without NDEBUG")


def noexc(env):
    fs, st, n = _run(env, env["bitcode"]("cppx", "mkcpp.sh", ("sroa",)), "noexcept")
    if not st.get("calls_checked"):
        env["die"]("noexcept rule: nothing analysed")
    return fs, _ev(st, n, rule="no call in a noexcept member reaches a throw of the headers (or an out-of-range or length error) that is not caught on the way")


def isa(env):
    t = env["tool"]()[0]
    bc = env["bitcode"]()
    fs, ev = [], {}
    d = tempfile.mkdtemp()
    try:
        pub = sorted(l.split()[0] for l in env["sh"]([t + "/roarai", bc, "--list"]).stdout.splitlines()
                     if len(l.split()) > 1 and l.split()[1] == "external" and l.startswith(("roaring_", "roaring64_", "bitset_")))
        pub = [p for p in pub if not p.startswith(("bitset_container_", "bitset_extract", "roaring_aligned", "roaring_hamming"))]
        if len(pub) < 50:
            env["die"]("public functions not found")
        open(d + "/pub", "w").write("\n".join(pub))
        passes = "function(sroa,early-cse,simplifycfg),ipsccp,function(sccp,simplifycfg),globaldce"
        for lv, feats in ((0, ["avx", "avx2", "bmi", "bmi2", "avx512f"]), (1, ["avx512f"])):
            _, _, n0 = _run(env, bc, "isaprep", lv, d + "/a.bc", d + "/pub")
            if n0:
                ev[f"level{lv}"] = dict(undecided=[b for _, b in n0])
                continue
            r = env["sh"](["/usr/bin/opt", "-passes=" + passes, d + "/a.bc", "-o", d + "/b.bc"])
            if r.returncode:
                env["die"]("constant propagation failed\n" + r.stdout[-2000:])
            f, st, n = _run(env, d + "/b.bc", "isaleft", *feats)
            fs += f
            ev[f"level{lv}"] = dict(st, forbidden=feats)
        # detection: which answers of the processor make it announce support
        ALL = 0xFFFFFFFF
        sc = [("all", ALL, ALL, ALL, 0xE7, None)]
        for nm, need in (("avx2", 1), ("avx512", 2)):
            if nm == "avx2":
                sc += [("a_osxsave", ALL & ~(1 << 27), ALL, ALL, 0xE7, 3), ("a_avx2", ALL, ALL & ~(1 << 5), ALL, 0xE7, 1), ("a_ymm", ALL, ALL, ALL, 0xE7 & ~4, 3)]
            else:
                sc += [(f"b_x{b}", ALL, ALL, ALL, 0xE7 & ~(1 << b), 2) for b in (5, 6, 7)]
                sc += [(f"b_b{b}", ALL, ALL & ~(1 << b), ALL, 0xE7, 2) for b in (16, 17, 30)]
                sc += [(f"b_c{b}", ALL, ALL, ALL & ~(1 << b), 0xE7, 2) for b in (6, 12, 14)]
        open(d + "/scn", "w").write("".join(f"{s[0]} {s[1]} {s[2]} {s[3]} {s[4]}\n" for s in sc))
        _, st, n = _run(env, bc, "detprep", d + "/scn", d + "/a.bc")
        und = [b for a, b in n if a == "undecided"]
        got = {}
        if not und:
            r = env["sh"](["/usr/bin/opt", "-O2", d + "/a.bc", "-o", d + "/b.bc"])
            if r.returncode:
                env["die"]("constant propagation failed\n" + r.stdout[-2000:])
            _, _, n = _run(env, d + "/b.bc", "detread")
            got = dict(b.split() for a, b in n if a == "scn")
            for s in sc:
                v = got.get(s[0], "?")
                if v == "?":
                    und.append(s[0])
                elif s[5] and int(v) & s[5]:
                    fs.append(dict(rule="ISADETECT", fn="croaring_hardware_support", where="", stack="",
                                   msg=f"announces {'AVX-512' if int(v) & s[5] & 2 else 'AVX2'} support although a required answer of the processor is missing (leaf1.ecx={s[1]:#x} leaf7.ebx={s[2]:#x} leaf7.ecx={s[3]:#x} xcr0={s[4]:#x})"))
        ev["detection"] = dict(st, scenarios=len(sc), answers=got, undecided=und)
    finally:
        shutil.rmtree(d)
    ev["public_functions"] = len(pub)
    ev["rule"] = "with the detection result fixed to 'none' (or 'AVX2 only'), no function built for a withheld extension stays reachable from a public function after sparse conditional constant propagation; and the detection folds to a value without an extension's bit whenever one of the processor answers it requires is withheld"
    return fs, ev


# what the writers call and the analysis replaces by what it promises
CONTRACTS = ["container_unwrap_shared", "ra_has_run_container", "roaring_bitmap_get_cardinality", "roaring_bitmap_to_uint32_array"]


def bounded(env, prefix, opaque, rule):
    t = env["tool"]()[0]
    lib, cl = env["bitcode"](), env["bitcode"]("bound", "mkclients.sh")
    src = open(env["V"] + "/bound_clients.c").read() + open(env["V"] + "/bound_clients.cpp").read()
    names = sorted(set(re.findall(r"\b(" + prefix + r"\w+)\(", src)))
    if prefix == "p13_":
        c, x = src.split("#include <roaring64map.hh>")
        names = sorted(set(["p13_" + n for n in re.findall(r"^P13\((\w+)", c, re.M)] + ["p13_cpp_" + n for n in re.findall(r"^P13\((\w+)", x, re.M)] + re.findall(r"\b(p13_(?:cpp_)?frozen)\(", src)))

    def one(n):
        return env["sh"](["timeout", "400", t + "/roarbound", cl, "--with", lib] + [x for o in opaque for x in ("--opaque", o)] + [n])

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        rs = list(ex.map(one, names))
    fs, ev, und = [], [], []
    obl = fns = 0
    for n, r in zip(names, rs):
        ds = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
        s = [d for d in ds if "client" in d]
        if not s or s[0].get("crashed"):
            und.append(n + " (the analyser gave up)")
            continue
        s = s[0]
        if not s["found"]:
            env["die"]("client " + n + " was not found")
        if not s["obligations"] or not s["stable"]:
            und.append(n + (" (no fixpoint within the limits)" if s["obligations"] else " (no access found)"))
            continue
        if s["lost"]:
            und.append(n + " (" + "; ".join(s["notes"]) + ")")
            continue
        fs += [d for d in ds if "rule" in d]
        obl += s["obligations"]
        und += [f"{n} ({x})" for x in s["notes"]]
        ev.append({k: s[k] for k in ("client", "obligations", "failed", "functions", "instructions", "entailments", "given_up", "notes")})
    if not obl:
        env["die"]("bounds: nothing could be analysed\n" + "\n".join(und))
    return fs, dict(readers=len(names), access_obligations=obl, clients=ev, entries_not_decided=und, rule=rule)


def bounds(env):
    return bounded(env, "p10_", [], "at each access through the buffer: position >= 0 and position + length <= announced length, implied by the linear facts that hold there on every path")


def sizes(env):
    return bounded(env, "p13_", CONTRACTS, "at each write: position >= 0 and position + length <= announced size; at the end: the number of bytes reported as written equals the announced size; both implied by the linear facts that hold there on every path")
