#include "engine.h"
#include <llvm/IR/IntrinsicInst.h>

static bool endsPath(const std::string &n) { return n == "__assert_fail" || n == "abort" || n == "exit" || n == "_exit" || n == "__assert_rtn" || n == "_ZSt9terminatev" || n == "__clang_call_terminate"; }
// an exception leaves: locals are destroyed on the way out, plain pointers are lost
void Engine::thrown(State s, const CallBase *cb) {
    s.fr.resize(1);
    s.fr[0].env.clear();
    s.ret = Val();
    std::vector<int> loc;
    for (auto &h : s.heap) if (h.second->kind == O_STACK && h.second->alive) loc.push_back(h.first);
    for (int i : loc) mut(s, i).root = true;
    foldDirs(s, true, cb);
    gc(s, cb);
}
// functions of the C library that only read the bitmaps given to them and return a new one
static bool makesBitmap(const Function *F) {
    auto *sp = F->getSubprogram();
    if (!sp || F->getName().compare("roaring_bitmap_") == 0 || !F->getName().starts_with("roaring_bitmap_")) return false;
    auto ta = sp->getType()->getTypeArray();
    if (!ta.size()) return false;
    if (F->getName().contains("frozen")) return false;   // a view, laid out differently
    bool c = false, any = false;
    if (structName(pointee(ta[0], &c)) != "roaring_bitmap_s" || c) return false;
    for (unsigned i = 1; i < ta.size(); i++) {
        c = false;
        const DIType *p = pointee(ta[i], &c);
        if (structName(p) == "roaring_bitmap_s" && !c) return false;
        any |= p != nullptr;
    }
    return any;
}
std::vector<State> Engine::call(State s, const CallBase *cb) {
    std::vector<State> outs;
    nCalls++;
    const FnInfo &cfi = info(s.fr.back().fn);
    const Function *F = cb->getCalledFunction();
    std::vector<Val> args;
    for (auto &a : cb->args()) args.push_back(eval(s, a.get()));
    Val calleeV;
    if (!F) { calleeV = eval(s, cb->getCalledOperand()); if (calleeV.k == VF) F = calleeV.f; }
    auto restrictNow = [&](State &st) {
        auto la = cfi.liveAfter.find(cb);
        if (la == cfi.liveAfter.end()) return;
        Frame &f = st.fr.back();
        std::vector<std::pair<int, Val>> n;
        for (int k : la->second) for (auto &p : f.env) if (p.first == k) { n.push_back(p); break; }
        f.env.swap(n);
        if (!cfi.slots.empty()) { auto sa = cfi.slotAfter.find(cb); if (sa != cfi.slotAfter.end()) dropDeadSlots(st, cfi, sa->second); }
    };
    auto setRet = [&](State &st, const Val &v) { if (!cb->getType()->isVoidTy()) setv(st, cb, v); };
    auto freshRet = [&](State &st) -> Val {
        Type *t = cb->getType();
        if (t->isIntegerTy(1)) return vI(domSym(st, "r", 3));
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return freshI("r");
        return vX();
    };
    if (!F) {  // callback
        siteCb.insert(cb);
        if (s.cb == 2) report(s, "CALLBACK", cb, "the callback is called again after it asked to stop");
        if (cb->getType()->isIntegerTy()) {
            State t = s;
            t.cb = 2; setRet(t, vC(0)); outs.push_back(std::move(t));
            s.cb = 1; setRet(s, vC(1)); outs.push_back(std::move(s));
        } else { setRet(s, vX()); outs.push_back(std::move(s)); }
        return outs;
    }
    std::string nm = fname(F);
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
                copyMem(s, args[0], args[1], args[2], F->getIntrinsicID() == Intrinsic::memmove, cb); break;
            case Intrinsic::memset: zeroMem(s, args[0], args[1], args[2], cb); break;
            case Intrinsic::trap: return outs;
            case Intrinsic::vastart: case Intrinsic::vacopy: if (args[0].k == VP && args[0].obj) { Obj &m = mut(s, args[0].obj); m.bulk = true; m.cells.clear(); } break;
            default: setRet(s, freshRet(s)); break;
        }
        if (!s.dead) outs.push_back(std::move(s));
        return outs;
    }
    if (endsPath(nm)) {
        if (nm == "__assert_fail") {
            if (falseAssert(cb) && kindDispatch(cb)) report(s, "UNREACH", cb, "a kind or case that this code does not handle is reached");
        }
        return outs;
    }
    // allocator
    auto mayFail = [&](State &st, const std::function<void(State &)> &ok) {
        if (faultMode && !st.faulted) { State t = st; t.faulted = true; t.extra["fault"] = 1; setRet(t, vNull()); outs.push_back(std::move(t)); }
        ok(st);
        outs.push_back(std::move(st));
    };
    if (nm == "roaring_malloc" || nm == "roaring_aligned_malloc" || nm == "roaring_calloc" || nm == "malloc" || nm == "calloc") {
        int fam = nm == "roaring_aligned_malloc" ? 2 : 1;
        Val n = nm == "roaring_aligned_malloc" ? args[1] : args[0];
        if (nm == "roaring_calloc" || nm == "calloc") n = args[0].k == VI && args[1].k == VI ? vI(X.mul(args[0].e, args[1].e)) : vX();
        bool z = nm == "roaring_calloc" || nm == "calloc";
        mayFail(s, [&](State &st) { Val p = alloc(st, n, fam, cb); if (z) mut(st, p.obj).zero.push_back({0, INF}); setRet(st, p); });
        return outs;
    }
    if (nm == "roaring_realloc" || nm == "realloc") {
        mayFail(s, [&](State &st) {
            if (args[0].k == VP && args[0].obj) {
                const Obj *o = get(st, args[0].obj);
                std::map<EId, Cell> cells; bool bulk = false, dat = false; std::vector<std::pair<int64_t, int64_t>> zero; const DIType *elem = nullptr; int sb = 0;
                OK kind = O_HEAP; bool okObj = o && o->alive;
                if (o) { dat = o->data; cells = o->cells; bulk = o->bulk || o->kind == O_INPUT; zero = o->zero; elem = o->elem; sb = o->sharedBy; kind = o->kind; }
                (void)kind;
                Obj keep; if (o) keep = *o;
                // contents move, so members still owned are not lost
                if (okObj) { nFrees++; siteFree.insert(cb);
                    if (o->kind == O_INPUT || o->kind == O_HEAP) {
                        Obj save = *o;
                        if (o->isConst) report(st, "CONSTW", cb, "storage of a read-only argument is reallocated (" + o->site + ")", o->site);
                        if (o->fam == 2) report(st, "FAMILY", cb, "storage from the aligned allocator is given to the ordinary reallocation", o->site);
                        if (o->sharedBy) { const Obj *w = get(st, o->sharedBy); if (w && w->alive && w->rc != 0 && w->rc != 1 && !(w->rc < 0 && w->holds == 0 && w->kind == O_HEAP)) report(st, "SHAREDW", cb, "buffer of a container shared with another bitmap is reallocated (" + o->site + ")", o->site); }
                        Obj &m = mut(st, args[0].obj); m.alive = false; m.cells.clear();
                    } else report(st, "BADFREE", cb, "storage that was not allocated is reallocated (" + o->site + ")", o->site);
                } else freeObj(st, args[0], 1, cb);
                Val p = alloc(st, args[1], 1, cb);
                Obj &m = mut(st, p.obj);
                m.cells = cells; m.bulk = bulk; m.data = dat; m.zero = zero; m.elem = elem; m.sharedBy = sb;
                if (useArt && keep.dir) { m.dir = true; m.owner = keep.owner; m.ownerOff = keep.ownerOff; m.wfC = keep.wfC; m.pending = keep.pending; m.moved = keep.moved; m.borrowed = keep.borrowed; m.excess = keep.excess; m.site = keep.site; }
                setRet(st, p);
            } else { if (args[0].k == VU) report(st, "UNINIT", cb, "uninitialised pointer is reallocated"); Val p = alloc(st, args[1], 1, cb); if (args[0].k == VX) mut(st, p.obj).bulk = true; setRet(st, p); }
        });
        return outs;
    }
    if (nm == "roaring_free" || nm == "roaring_aligned_free" || nm == "free") {
        freeObj(s, args[0], nm == "roaring_aligned_free" ? 2 : 1, cb);
        if (!s.dead) outs.push_back(std::move(s));
        return outs;
    }
    if (nm == "croaring_hardware_support") { setRet(s, freshI("cpu")); outs.push_back(std::move(s)); return outs; }
    if (useArt && artCall(s, cb, nm, args, outs)) return outs;
    if (F->isDeclaration()) {
        if (nm == "memcpy" || nm == "memmove") { copyMem(s, args[0], args[1], args[2], nm == "memmove", cb); setRet(s, args[0]); }
        else if (nm == "memset") { zeroMem(s, args[0], args[1], args[2], cb); setRet(s, args[0]); }
        else {
            if (nm == "__cxa_throw" || nm == "__cxa_rethrow") { thrown(s, cb); return outs; }
            if (F->doesNotReturn()) return outs;
            setRet(s, freshRet(s));
        }
        if (!s.dead) outs.push_back(std::move(s));
        return outs;
    }
    if (kernelOf(F)) {
        kernelsUsed.insert(nm); visitedFns.insert(nm);
        const FnInfo &ki = fns[F];
        for (unsigned k = 0; k < args.size() && k < ki.argMod.size(); k++) {
            if (!ki.argMod[k] && !ki.argRef[k] && ki.ptrAt[k].empty()) continue;
            const Val p = args[k];
            if (p.k == VP && p.obj == 0) { if (!ki.argKind[k].empty()) access(s, p, ki.argMod[k], cb, "use"); continue; }
            if (p.k == VU) { report(s, "UNINIT", cb, "uninitialised pointer used"); continue; }
            if (p.k != VP) continue;
            if (!ki.argKind[k].empty()) {
                const Obj *o = get(s, p.obj);
                if (o && o->kind == O_HEAP && !o->stype && o->tag < 0) mut(s, p.obj).stype = tagOfStruct[ki.argKind[k]];
                kindCheck(s, cb, p, ki.argKind[k]);
                for (auto &m : ki.rdAt[k]) {
                    Val v = load(s, vP(p.obj, X.add(p.e, X.cst(m.first))), m.second, false, cb);
                    if (v.k == VU && !ki.wrAt[k].count(m.first)) report(s, "UNINIT", cb, "uninitialised member read (" + (get(s, p.obj) ? get(s, p.obj)->site : "") + ")");
                }
                for (auto &m : ki.ptrAt[k]) {
                    Val v = load(s, vP(p.obj, X.add(p.e, X.cst(m.first))), 8, true, cb);
                    if (v.k == VU) { report(s, "UNINIT", cb, "uninitialised member read"); continue; }
                    if (v.k != VP || !v.obj) continue;
                    markData(s, v.obj);
                    if (ki.deepRef[k]) access(s, v, false, cb, "read");
                    if (ki.deepMod[k]) access(s, v, true, cb, "write");
                }
                for (auto &m : ki.wrAt[k]) {
                    Val f = freshI("m");
                    const DIType *st = structs.count(ki.argKind[k]) ? structs[ki.argKind[k]] : nullptr;
                    std::string nm; if (st) memberAt(st, m.first, &nm, nullptr);
                    if (nm == "n_runs" || nm == "capacity" || (nm == "cardinality" && ki.argKind[k] == "array_container_s")) bound(s, f.e, false, 0);
                    store(s, vP(p.obj, X.add(p.e, X.cst(m.first))), f, m.second, cb);
                }
                continue;
            }
            if (ki.argRef[k]) access(s, p, false, cb, "read");
            if (ki.argMod[k] && access(s, p, true, cb, "write")) {
                const Obj *o = get(s, p.obj);
                if (o->data || o->dir) continue;
                Obj &m = mut(s, p.obj);
                for (auto i = m.cells.begin(); i != m.cells.end();) if (i->second.v.k != VP) i = m.cells.erase(i); else ++i;
                m.zero.clear();
                m.bulk = true;
            }
        }
        if (s.dead) return outs;
        if (cb->getType()->isStructTy() || cb->getType()->isVectorTy()) setRet(s, vX());
        else setRet(s, freshRet(s));
        if (auto *it = dyn_cast<IntegerType>(cb->getType())) if (it->getBitWidth() > 1) {
            const Val r = eval(s, cb);
            const DIType *rt = F->getSubprogram()->getType()->getTypeArray().size() ? strip(F->getSubprogram()->getType()->getTypeArray()[0]) : nullptr;
            auto *bt = dyn_cast_or_null<DIBasicType>(rt);
            if (r.k == VI && bt && bt->getEncoding() == dwarf::DW_ATE_unsigned) bound(s, r.e, false, 0);
            if ((nm == "count_less" || nm == "count_greater") && r.k == VI && args.size() >= 2 && args[1].k == VI) {
                if (!bound(s, r.e, false, 0) || !bound(s, X.sub(r.e, args[1].e), true, 0)) return outs;
            }
            if (nm == "binarySearch" && r.k == VI && args.size() >= 2 && args[1].k == VI) {
                // contract of the search: a position inside the array, or -(insertion point) - 1
                if (!bound(s, X.sub(r.e, args[1].e), true, -1) || !bound(s, X.add(r.e, args[1].e), false, -1)) return outs;
            }
        }
        outs.push_back(std::move(s));
        return outs;
    }
    if (s.fr.size() > 48) { if (getenv("SHOWDEPTH")) for (auto &c : callerStack) fprintf(stderr, "C %s\n", c.c_str()); if (getenv("SHOWDEPTH")) for (auto &f : s.fr) fprintf(stderr, "%s\n", fname(f.fn).c_str()); budget.partial = true; budget.why = "call depth"; return outs; }
    if (const char *dc = getenv("DUMPCALL")) if (nm == dc) dumpHead(s, "call", nullptr);
    restrictNow(s);
    if (cpp && makesBitmap(F)) {   // its own contract is decided elsewhere: a new well-formed bitmap, or nothing
        auto ta = F->getSubprogram()->getType()->getTypeArray();
        int id = inputObj(s, pointee(ta[0]), false, "result of " + nm, nullptr);
        mut(s, id).owned = true;
        setRet(s, vP(id, X.cst(0)));
        outs.push_back(std::move(s));
        return outs;
    }
    if (summarise(s, cb, F, args, outs)) {
        if (budget.hit) return outs;
        for (auto &o : outs) { Val r = o.ret; o.ret = Val(); setRet(o, r); }
        return outs;
    }
    Frame nf;
    nf.fn = F; nf.site = cb;
    const FnInfo &ci = info(F);
    unsigned i = 0;
    for (auto &a : F->args()) { if (i < args.size()) nf.env.push_back({ci.id.at(&a), args[i]}); i++; }
    s.fr.push_back(std::move(nf));
    s.ret = Val();
    outs = exec(F, std::move(s));
    if (budget.hit) return outs;
    for (auto &o : outs) { Val r = o.ret; o.ret = Val(); setRet(o, r); }
    if (outs.size() > 1) outs = mergeStates(std::move(outs), cb);
    return outs;
}
