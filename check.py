#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

Builds the analysers (cached by source hash), compiles /repo's current sources
to bitcode, analyses that bitcode (it is never executed), writes
evidence/<PROPERTY>.json.  Exit 0: held on everything analysed.  Exit 1: a
VIOLATION line was printed.  Exit 3: the check could not do its work.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import lints  # noqa: E402

# which engine rules are evidence against which property
RULES = {
    "P01": ["CONSTW"],
    "P02": ["SHAREDW", "DOUBLEOWN", "REFOVER"],
    "P03": ["UAF", "DFREE", "LEAK", "BADFREE", "DANGLING", "DOUBLEOWN", "REFLEAK", "REFOVER"],
    "P04": ["TYPE", "TAGMISMATCH", "UNREACH"],
    "P05": ["UAF", "DANGLING"],
    "P06": ["FAMILY"],
    "P07": ["GLOBALW"],
    "P08": ["REFRACE", "REFLEAK", "REFOVER", "SHAREDW"],
    "P10": ["BOUNDS"],
    "P11": ["TRUNC"],
    "P13": ["BOUNDS", "SIZEDIFF"],
    "P12": ["CPPFAIL", "CONSTW", "UAF", "DFREE", "LEAK", "BADFREE", "DANGLING", "DOUBLEOWN", "REFLEAK", "REFOVER", "TAGMISMATCH", "FAMILY", "UNINIT", "NULLDEREF", "GLOBALW"],
    "P14": ["CONSTW", "BADFREE", "DFREE", "LEAK", "UAF", "FAMILY"],
    "P15": ["UNINIT", "UNINITRET"],
    "P16": ["CALLBACK"],
    "P17": ["NULLDEREF", "LEAK", "DANGLING", "DFREE", "UAF", "BADFREE", "DOUBLEOWN", "TAGMISMATCH", "FAMILY"],
}
RULE_TEXT = {
    "CPPFAIL": "a wrapper does not return normally after the C library reported a failure to it",
    "CONSTW": "no store reaches memory owned by a const argument",
    "SHAREDW": "no store reaches a payload owned by a shared wrapper",
    "DOUBLEOWN": "no container has two owners without a reference count",
    "UAF": "no access to released storage", "DFREE": "no second release", "LEAK": "nothing owned becomes unreachable",
    "BADFREE": "only owned heap blocks are released, at their start", "DANGLING": "no released container stays reachable from a bitmap",
    "REFLEAK": "every hold taken is stored", "REFOVER": "no hold is given up twice or stored without being taken",
    "REFRACE": "no payload access after the hold was given up",
    "TYPE": "containers are only accessed as the kind they are", "TAGMISMATCH": "a slot records the kind it holds", "UNREACH": "no reachable assert(false) / unreachable",
    "FAMILY": "aligned blocks go to the aligned release function and only those", "GLOBALW": "no store to process-wide data",
    "UNINIT": "no decision on, or use of, uninitialised memory", "UNINITRET": "returned structures have every member set",
    "CALLBACK": "no callback call after false; result reflects it", "NULLDEREF": "no dereference of a failed allocation",
    "SYSALLOC": "only the hook table names the system allocator", "HOOKCALL": "each dispatcher calls its own hook",
    "REFATOMIC": "reference counters are only accessed atomically", "REFORDER": "the decrement orders earlier uses before the release", "REFLAST": "only the last holder releases",
    "SIZEDIFF": "the number of bytes written is the number announced",
    "BOUNDS": "no access through the caller's buffer outside the number of bytes it was announced to have",
    "ISA": "no function built for an extension is reachable unless the extension was detected", "ISADETECT": "an extension is announced only when all required processor answers are there",
    "TRUNC": "no 64-bit range bound (or sum with one) is narrowed, or compared after narrowing, before it was brought into the 32-bit universe",
}


def die(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def files(d, exts):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(exts)]


class Lock:
    def __enter__(self):
        os.makedirs(V + "/build", exist_ok=True)
        self.f = open(V + "/build/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tool():
    h = digest(files(V + "/engine", (".cpp", ".h", ".sh")))
    d = f"{V}/build/t-{h}"
    with Lock():
        if not os.path.exists(d + "/roarai"):
            r = sh(["bash", V + "/engine/build.sh", d + ".tmp"])
            if r.returncode:
                die("building the analyser failed\n" + r.stdout[-3000:])
            os.rename(d + ".tmp", d)
    return d, h


def bitcode(name="all", script="mkir.sh", flags=()):
    src = files(REPO + "/src", (".c", ".h")) + files(REPO + "/include", (".h",)) + files(REPO + "/cpp", (".hh", ".h", ".cpp"))
    if not src:
        die("no sources under " + REPO)
    h = digest(src + [V + "/" + script, V + "/mkir.sh", V + "/c_clients.c", V + "/cpp_clients.cpp", V + "/bound_clients.c", V + "/bound_clients.cpp", V + "/bound_directory.h"])
    h = hashlib.sha256((h + name + " ".join(flags)).encode()).hexdigest()[:16]
    o = f"{V}/build/ir-{name}-{h}.bc"
    with Lock():
        if not os.path.exists(o):
            for f in os.listdir(V + "/build"):      # keep only the current tree's bitcode
                if f.startswith(f"ir-{name}-") and time.time() - os.path.getmtime(f"{V}/build/{f}") > 3600:
                    os.unlink(f"{V}/build/{f}")
            r = sh(["bash", f"{V}/{script}", REPO, o + ".tmp"] + list(flags))
            if r.returncode:
                die("compiling the sources to bitcode failed\n" + r.stdout[-3000:])
            os.rename(o + ".tmp", o)
    return o


def cfg(n):
    return json.load(open(f"{V}/cfg/{n}"))


PUB32 = re.compile(r"^roaring_(?!(bitmap_)?aligned_|bitmap_free_without|hamming|leading|trailing|malloc|free|realloc|calloc)")


PUB64 = re.compile(r"^roaring64_(bitmap|iterator)_")
BULK = re.compile(r"_bulk$")
FREE = re.compile(r"^roaring(64)?_bitmap_free$")


def entry_list(tooldir, bc, tier):
    """Every public function of the library x the modes it can be called in."""
    c = cfg("entries.json")
    fns = {}
    for l in sh([tooldir + "/roarai", bc, "--list"]).stdout.splitlines():
        p = l.split()
        if len(p) == 4 and p[1] == "external":
            fns[p[0]] = p[3]
    pub32 = sorted(f for f in fns if PUB32.match(f) and "_client_" not in f)
    pub64 = sorted(f for f in fns if PUB64.match(f))
    pubbs = sorted(f for f in fns if re.match(r"^bitset_(?!container|extract_)", f))
    es = list(pubbs)
    for f in pub32 + pub64:
        for m in ("cow=0", "cow=1") if f in pub32 else ("cow=0",):
            if BULK.search(f):                     # with and without a cursor from an earlier call
                es += [f"{f} ctx=0 {m}", f"{f} ctx=1 {m}"]
            elif f.startswith("roaring64_iterator_") and "create" not in f:
                es += [f"{f} itnull=0 {m}", f"{f} itnull=1 {m}"]
            else:
                es.append(f"{f} {m}")
            if re.match("^[Bc]c", fns[f]):         # the same bitmap as both operands
                es.append(f"{f} 1=0 {m}")
        if FREE.search(f) or ("c" in fns[f] and "B" not in fns[f]):
            # views over a caller's buffer can be read and released
            es += [f"{f} ctx=0 frozen=1", f"{f} ctx=1 frozen=1"] if BULK.search(f) else [f"{f} frozen=1"]
    es += c["flag_off"]                            # copy-on-write was turned off, storage is still shared
    es += c["histories"]                           # several calls in a row (c_clients.c)
    missing = [f for f in c["anchors"] + [h.split()[0] for h in c["histories"]] if f not in fns]
    return es, pub32 + pub64 + pubbs, missing


def fault_list():
    """Operations whose contract is to report a failed allocation."""
    return cfg("entries.json")["fault"]


HARD = re.compile(r"serialize |frozen_view|many|iterator_read|lazy|xor|andnot|and_inplace|_or |deserialize_safe|roaring_bitmap_of ")


def cpp_list(tooldir, cmd):
    """Every member function of the 32-bit C++ class and of its iterator, and the clients."""
    fns = []
    for l in sh([tooldir + "/roarai"] + cmd + ["--list"]).stdout.splitlines():
        p = l.split()
        if len(p) == 4 and p[0].startswith("_Z") and (p[2].endswith("cpp/roaring.hh") or p[0].startswith("_ZN6client")):
            fns.append(p[0])
    es = []
    for f in sorted(set(fns)):
        for m in ("cow=0", "cow=1"):
            if "cowCopies" in f and m == "cow=0":     # turns copy-on-write on: that is the other mode
                continue
            es += [f"{f} ctx=0 {m}", f"{f} ctx=1 {m}"] if "Bulk" in f else [f"{f} {m}"]
    return es, fns


def run_engine(tier, select, fault=False, cpp=False):
    t, th = tool()
    bc = bitcode("eng", "mkeng.sh")
    es, pub, missing = entry_list(t, bc, tier)
    if missing:
        die("functions the analysis starts from are gone: " + ", ".join(missing))
    und = {u["entry"]: u for u in cfg("undecided.json")}
    mods = [bc]
    if cpp:
        mods = [bitcode("cpp", "mkcpp.sh"), "--with", bc]
        es, pub = cpp_list(t, mods)
        if len(es) < 100 or not any("client" in e for e in es):
            die("the C++ wrappers were not found")
        if fault:
            und = {k[:-6]: u for k, u in und.items() if k.endswith(" fault")}
    elif fault:
        es = fault_list()
        gone = [e for e in es if e.split()[0] not in pub]
        if gone:
            die("functions the analysis starts from are gone: " + ", ".join(gone))
        und = {k[:-6]: u for k, u in und.items() if k.endswith(" fault")}
    todo, skipped = [], []
    for e in es:
        u = und.get(e)
        if not select(e):
            continue
        if u and u.get("rules") == "all" and not (tier == "thorough" and u.get("thorough")):
            skipped.append(e)
        else:
            todo.append(e)
    todo.sort(key=lambda e: not HARD.search(e))     # long ones first; no effect on the outcome
    lim = cfg("limits.json")[tier]
    key = hashlib.sha256(json.dumps([th, [os.path.basename(m) for m in mods], todo, lim, fault]).encode()).hexdigest()[:16]
    out = f"{V}/build/res-{key}.json"
    if not os.path.exists(out):
        mine = f"{out}.{os.getpid()}"
        lst = mine + ".lst"
        open(lst, "w").write("\n".join(todo) + "\n")
        cmd = [t + "/roarai"] + mods + ["--entries", lst, "--out", mine, "--jobs", str(os.cpu_count() or 4),
               "--steps", str(lim["steps"]), "--tlimit", str(lim["tlimit"])] + (["--fault"] if fault else [])
        r = sh(cmd)
        os.unlink(lst)
        if r.returncode or not os.path.exists(mine):
            die("the analyser failed\n" + r.stdout[-3000:])
        os.rename(mine, out)
    res = json.load(open(out))
    return res, todo, skipped, und, pub


def engine_part(pid, tier, select, fault=False, keep=lambda e, f: True, cpp=False):
    rules = RULES[pid]
    res, todo, skipped, und, pub = run_engine(tier, select, fault, cpp)
    bad = [e["entry"] for e in res if not e.get("found")]
    if not res or bad:
        die("nothing to analyse: " + ", ".join(bad))
    crashed = [e["entry"] for e in res if e.get("crashed")]
    finds, undecided = [], list(skipped)
    tot = {k: 0 for k in ("steps", "calls", "merges", "slot_checks", "kind_checks", "free_sites", "alloc_sites", "store_sites", "load_sites", "kind_sites", "callback_sites", "wide_checks")}
    fns = set()
    complete = 0
    for e in res:
        u = und.get(e["entry"], {})
        for k in tot:
            tot[k] += e.get(k, 0)
        fns |= set(e.get("functions", []))
        ur = u.get("rules", [])
        if not e["complete"]:
            undecided.append(e["entry"] + " (" + e.get("why", "") + ")")
        elif set(ur) & set(rules):
            undecided.append(e["entry"] + " (rules " + ",".join(ur) + " imprecise here)")
        else:
            complete += 1
        for f in e.get("findings", []):
            if f["rule"] in rules and f["rule"] not in ur and ur != "all" and keep(e, f):
                finds.append(dict(f, entry=e["entry"]))
    ev = {
        "entries": len(todo) + len(skipped), "entries_decided": complete, "entries_not_decided": undecided, "crashed": crashed,
        "functions_analysed": len(fns), "abstract_steps": tot["steps"], "calls_analysed": tot["calls"], "joins": tot["merges"],
        "store_sites": tot["store_sites"], "load_sites": tot["load_sites"], "release_sites": tot["free_sites"],
        "allocation_sites": tot["alloc_sites"], "kind_check_sites": tot["kind_sites"], "slot_checks": tot["slot_checks"],
        "callback_sites": tot["callback_sites"], "bound_checks": tot["wide_checks"],
        "rules": {r: RULE_TEXT[r] for r in rules},
        "samples": [dict(entry=e["entry"], complete=e["complete"], steps=e.get("steps"), functions=len(e.get("functions", []))) for e in res[:5]],
    }
    if not fns or tot["steps"] == 0:
        die("the analysis visited no function")
    return finds, ev


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2:] + [os.environ.get("VERIF_TIER", "quick")])[0]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    spec = lints.PLAN[pid]
    finds, cov, assume = [], {}, list(lints.ASSUME)
    env = dict(REPO=REPO, V=V, tier=tier, bitcode=bitcode, die=die, tool=tool, sh=sh, cfg=cfg)
    for part in spec["engine"]:
        f, ev = engine_part(pid, tier, part["select"], part.get("fault", False), part.get("keep", lambda e, f: True), part.get("cpp", False))
        finds += f
        cov[part["name"]] = ev
    for name, fn in spec["lints"]:
        f, ev = fn(env)
        finds += f
        cov[name] = ev
    # known findings: identified by rule, entry and call site
    known = [k for k in cfg("known_findings.json") if k.get("status") == "known" and k["property"] == pid]
    new, seen = [], []
    for f in finds:
        k = next((k for k in known if k["rule"] == f["rule"] and k.get("fn", f["fn"]) == f["fn"] and not re.search(k.get("notfn", "^$"), f["fn"]) and re.search(k.get("match", ""), f.get("entry", "") + " " + f["msg"] + " " + f.get("where", "")) and re.search(k.get("stack", ""), f.get("stack", ""))), None)
        (seen.append((k, f)) if k else new.append(f))
    for k in known:
        if any(x is k for x, _ in seen):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    dedup = {}
    for f in new:
        dedup.setdefault((f["rule"], f["fn"], f.get("where", ""), f["msg"]), []).append(f)
    os.makedirs(V + "/evidence", exist_ok=True)
    rp = f"{V}/evidence/{pid}.violation.txt"
    if dedup:
        with open(rp, "w") as o:
            for (r, fn, w, m), fs in dedup.items():
                o.write(f"{r} in {fn} at {w}: {m}\n  reached from: {', '.join(sorted(set(x.get('entry', '') for x in fs)))}\n  call path: {fs[0].get('stack', '')}\n")
    elif os.path.exists(rp):
        os.unlink(rp)
    for (r, fn, w, m), fs in list(dedup.items())[:40]:
        print(f"  {r}: {fn} ({w}): {m} [{fs[0].get('entry', '')}] {fs[0].get('stack', '')[:300]}")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": dict(cov, explanation=spec["explanation"]), "assumptions": assume + spec.get("assume", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(dedup), "known_findings_seen": len(set(id(k) for k, _ in seen))}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for n, c in cov.items():
        print(f"{pid} {n}: " + ", ".join(f"{k}={v if not isinstance(v, list) else len(v)}" for k, v in c.items() if isinstance(v, (int, list)) and k != "samples"))
    if dedup:
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violation.txt")
        sys.exit(1)
    print(f"{pid}: no violation on everything analysed ({ev['wall_s']} s)")


if __name__ == "__main__":
    main()
