#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <csignal>
volatile int timeUp = 0;

Val Engine::argFor(State &s, const DIType *t, const std::string &nm, const EntrySpec &e) {
    const DIType *b = strip(t);
    if (!b) return vX();
    if (auto *bt = dyn_cast<DIBasicType>(b)) {
        if (bt->getEncoding() == dwarf::DW_ATE_boolean) return vI(domSym(s, nm, 3));
        if (bt->getEncoding() == dwarf::DW_ATE_float) return vX();
        EId x = X.fresh(nm);
        if (bt->getEncoding() == dwarf::DW_ATE_unsigned || bt->getEncoding() == dwarf::DW_ATE_unsigned_char) bound(s, x, false, 0);
        if (bt->getSizeInBits() <= 16 && (bt->getEncoding() == dwarf::DW_ATE_unsigned || bt->getEncoding() == dwarf::DW_ATE_unsigned_char)) bound(s, x, true, (1ll << bt->getSizeInBits()) - 1);
        return vI(x);
    }
    if (isa<DICompositeType>(b)) return freshI(nm);
    auto *d = dyn_cast<DIDerivedType>(b);
    if (!d || (d->getTag() != dwarf::DW_TAG_pointer_type && d->getTag() != dwarf::DW_TAG_reference_type && d->getTag() != dwarf::DW_TAG_rvalue_reference_type)) return freshI(nm);
    bool c = false;
    const DIType *p = strip(d->getBaseType(), &c);
    if (p && isa<DISubroutineType>(p)) return vX();
    if (e.fn.size() > 5 && (!e.fn.compare(e.fn.size() - 5, 5, "_free"))) c = false;   // releasing is its job
    // a plain structure without pointers is there to be filled: it comes unset
    auto *pc = dyn_cast_or_null<DICompositeType>(p);
    bool plain = !c && pc && pc->getTag() == dwarf::DW_TAG_structure_type && pc->getElements().size();
    if (plain) for (auto *el : pc->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(el);
        if (m && m->getTag() == dwarf::DW_TAG_member && !isa_and_nonnull<DIBasicType>(strip(m->getBaseType()))) plain = false;
    }
    if (plain) {
        int id = newObj(s, O_HEAP, nm);
        Obj &o = mut(s, id);
        o.size = X.cst((int64_t)pc->getSizeInBits() / 8);
        o.owned = false; o.root = true; o.outT = pc;
        return vP(id, X.cst(0));
    }
    int id = inputObj(s, p, c, nm, nullptr);
    Obj &o = mut(s, id);
    o.root = true;
    if (!o.di) { o.owned = false; o.bulk = true; }
    return vP(id, X.cst(0));
}
void Engine::exitChecks(State &s, const Function *F, const Instruction *I) {
    // positions the caller keeps must still describe entries
    if (useArt) for (auto &h : s.heap) if (h.second->root && h.second->alive && !h.second->dir) for (auto &c : h.second->cells) {
        const Obj *g = c.second.v.k == VP && c.second.v.obj && c.second.size == 8 ? get(s, c.second.v.obj) : nullptr;
        if (!g || !g->leafG) continue;
        if (!g->alive) { report(s, "DANGLING", I, "a position kept in " + h.second->site + " points to a leaf that was moved or released", h.second->site + "pos"); continue; }
        if (g->owner == h.first) continue;
        auto t = g->cells.find(canonIdx(c.second.v.e));
        int64_t z;
        if (t != g->cells.end() && t->second.v.k == VI && X.isC(t->second.v.e, &z) && z == 0) report(s, "DANGLING", I, "a position kept in " + h.second->site + " describes an entry that was removed", h.second->site + "pos");
    }
    foldDirs(s, true, I);
    if (cpp) {
        if (s.extra.count("cfail")) report(s, "CPPFAIL", I, "the C library reported a failure, but this function returns as if it had succeeded");
        bool dtor = entryFn.find("D0E") != std::string::npos || entryFn.find("D1E") != std::string::npos || entryFn.find("D2E") != std::string::npos;
        std::map<int, std::set<int>> holders;
        for (auto &h : s.heap) if (h.second->alive && !h.second->dir) for (auto &c : h.second->cells) if (c.second.v.k == VP && c.second.v.obj && c.second.size == 8) {
            const Obj *d = get(s, c.second.v.obj);
            if (!d || d->leafG || (!d->dir && d->alive) || (!d->dir && !d->wfC)) continue;
            holders[d->id].insert(h.first);
        }
        for (auto &h : holders) {
            const Obj *d = get(s, h.first), *a = get(s, *h.second.begin());
            if (d->isConst) continue;
            if (!d->alive) { if (!dtor) report(s, "DANGLING", I, "released storage is still listed in " + a->site, a->site + "dir"); }
            else if (h.second.size() > 1) report(s, "DOUBLEOWN", I, "the storage of a bitmap belongs to two objects (" + a->site + ", " + get(s, *h.second.rbegin())->site + ")", d->site + "two");
        }
    }
    for (auto &h : s.heap) {
        const Obj &d = *h.second;
        if (!d.dir || !d.alive) continue;
        const Obj *w = get(s, d.owner);
        if (!w || !w->alive) continue;
        EId c, k, t; int oc, ot;
        if (!dirBases(s, d, c, k, t, oc, ot)) continue;
        if (oc != d.id) continue;
        if (d.pending) report(s, "DANGLING", I, "a released container is left in " + w->site, w->site);
        if (d.borrowed) report(s, "DOUBLEOWN", I, "a container still owned by a read-only argument is stored in another bitmap without sharing it (" + w->site + ")", w->site);
        if (d.moved) report(s, "DOUBLEOWN", I, "containers of " + w->site + " were handed to another bitmap but are still listed", w->site);
        if (d.excess) report(s, "REFLEAK", I, "holds on shared containers of " + w->site + " are taken but never stored", w->site);
        if (ot && !get(s, ot)->leafG && d.wfC != get(s, ot)->wfT) report(s, "TAGMISMATCH", I, "containers and recorded kinds of " + w->site + " are not both filled", w->site);
    }
    // everything a returned structure consists of must be set
    std::function<void(const Obj *, const DICompositeType *, int64_t, const std::string &)> chk = [&](const Obj *o, const DICompositeType *ct, int64_t base, const std::string &what) {
        for (auto *e : ct->getElements()) {
            auto *m = dyn_cast<DIDerivedType>(e);
            if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
            int64_t mo = base + (int64_t)m->getOffsetInBits() / 8;
            auto *mc = dyn_cast_or_null<DICompositeType>(strip(m->getBaseType()));
            if (mc && mc->getTag() == dwarf::DW_TAG_structure_type) { chk(o, mc, mo, what); continue; }
            if (mc) continue;
            auto j = o->cells.find(X.cst(mo));
            bool z = false;
            for (auto &zz : o->zero) if (mo >= zz.first && mo < zz.second) z = true;
            // the side an iterator ran off only matters once it ran off
            if (m->getName() == "saturated_forward") {
                int64_t v; bool on = false;
                for (auto *e2 : ct->getElements()) if (auto *m2 = dyn_cast<DIDerivedType>(e2)) if (m2->getName() == "has_value") {
                    auto k = o->cells.find(X.cst(base + (int64_t)m2->getOffsetInBits() / 8));
                    if (k != o->cells.end() && k->second.v.k == VI && X.isC(k->second.v.e, &v) && v == 1) on = true;
                }
                if (on) continue;
            }
            if (!z && (j == o->cells.end() || j->second.v.k == VU)) report(s, "UNINITRET", I, what + " has member '" + m->getName().str() + "' never set", structName(ct) + m->getName().str());
        }
    };

    for (auto &h : s.heap) if (h.second->outT) chk(h.second.get(), h.second->outT, 0, "structure " + h.second->site + " filled for the caller");
    auto *sp = F->getSubprogram();
    if (s.ret.k == VP && s.ret.obj && sp && sp->getType()) {
        auto ta = sp->getType()->getTypeArray();
        const DIType *rt = ta.size() ? pointee(ta[0]) : nullptr;
        const Obj *o = get(s, s.ret.obj);
        if (o && !o->alive) report(s, "UAF", I, "freed storage is returned (" + o->site + ")", o->site);
        std::string sn = structName(rt);
        const DICompositeType *st = structs.count(sn) ? structs[sn] : nullptr;
        if (o && o->alive && o->kind == O_HEAP && !o->bulk && st) {
            // an iterator that says it holds nothing has nothing else to say
            bool empty = false;
            for (auto *e : st->getElements()) {
                auto *m = dyn_cast<DIDerivedType>(e);
                if (!m || m->getTag() != dwarf::DW_TAG_member || m->getName() != "has_value") continue;
                auto j = o->cells.find(X.cst((int64_t)m->getOffsetInBits() / 8));
                int64_t v;
                if (j != o->cells.end() && j->second.v.k == VI && X.isC(j->second.v.e, &v) && v == 0) empty = true;
            }
            if (!empty) chk(o, st, 0, "returned structure");
        }
    }
    if (s.ret.k == VU && !F->getReturnType()->isVoidTy()) report(s, "UNINITRET", I, "uninitialised value is returned");
    if (!siteCb.empty() && s.cb && F->getReturnType()->isIntegerTy(1) && s.ret.k == VI) {
        int64_t v;
        if (X.isC(s.ret.e, &v)) { if ((s.cb == 2) != (v == 0)) report(s, "CALLBACK", I, s.cb == 2 ? "iteration stopped by the callback is reported as complete" : "complete iteration is reported as stopped"); }
        else report(s, "CALLBACK", I, "result does not tell whether the callback stopped the iteration");
    }
    gc(s, I);
}
// Values that are (parts of sums of) a 64-bit range bound: two or more by-value
// uint64_t parameters of a 32-bit bitmap operation are such bounds.
void Engine::findWide(const Function *F) {
    auto *sp = F->getSubprogram();
    if (!sp || fname(F).compare(0, 15, "roaring_bitmap_")) return;
    auto ta = sp->getType()->getTypeArray();
    std::vector<const Value *> w;
    for (auto &a : F->args()) {
        unsigned i = a.getArgNo() + 1;
        auto *t = i < ta.size() ? dyn_cast_or_null<DIDerivedType>(ta[i]) : nullptr;
        if (t && a.getType()->isIntegerTy(64) && t->getTag() == dwarf::DW_TAG_typedef && t->getName() == "uint64_t") w.push_back(&a);
    }
    if (w.size() < 2) return;
    while (!w.empty()) {
        const Value *v = w.back(); w.pop_back();
        if (!wide.insert(v).second) continue;
        for (auto *u : v->users()) {
            if (isa<PHINode>(u) || isa<SelectInst>(u) || isa<FreezeInst>(u)) w.push_back(u);
            else if (auto *bo = dyn_cast<BinaryOperator>(u)) { if (bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Sub) w.push_back(u); }
            else if (auto *r = dyn_cast<ReturnInst>(u)) { for (auto *cu : r->getFunction()->users()) if (isa<CallBase>(cu) && cu->getType()->isIntegerTy(64)) w.push_back(cu); }
            else if (auto *c = dyn_cast<CallBase>(u)) {
                auto *G = c->getCalledFunction();
                if (G && !G->isDeclaration()) for (unsigned k = 0; k < c->arg_size() && k < G->arg_size(); k++) if (c->getArgOperand(k) == v) w.push_back(G->getArg(k));
            }
        }
    }
}
// narrowing such a value to 32 bits must not lose anything
void Engine::wideTrunc(State &s, const TruncInst *T, const Val &a) {
    const int64_t M32 = 0xffffffffll;
    nWide++;
    if (a.k == VI) {
        Iv r = range(s, a.e);
        if (r.hi > M32) report(s, "TRUNC", T, "64-bit range bound is cut to 32 bits although it may lie beyond the universe");
    }
    // a bound replaced by a constant must become the end of the universe
    std::set<const Value *> seen;
    std::function<void(const Value *, int64_t)> walk = [&](const Value *v, int64_t acc) {
        if (!seen.insert(v).second) return;
        auto konst = [&](const Value *x) { if (auto *k = dyn_cast<ConstantInt>(x)) { if (k->getSExtValue() + acc != M32) report(s, "TRUNC", T, "64-bit range bound is clamped to something else than the end of the universe"); } else walk(x, acc); };
        if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) konst(x); }
        else if (auto *q = dyn_cast<SelectInst>(v)) { konst(q->getTrueValue()); konst(q->getFalseValue()); }
        else if (auto *f = dyn_cast<FreezeInst>(v)) walk(f->getOperand(0), acc);
        else if (auto *b = dyn_cast<BinaryOperator>(v)) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) walk(b->getOperand(0), acc + (b->getOpcode() == Instruction::Sub ? -k->getSExtValue() : k->getSExtValue()));
    };
    if (T->getFunction() == byName[entryFn]) walk(T->getOperand(0), 0);
}
// ... and such a bound is only ever compared with the end of the universe
void Engine::wideCmp(State &s, const ICmpInst *C, const Val &a, const Val &b) {
    const Value *x = C->getOperand(0), *y = C->getOperand(1);
    auto pr = C->getPredicate();
    if (isa<ConstantInt>(x)) { std::swap(x, y); pr = CmpInst::getSwappedPredicate(pr); }
    auto *k = dyn_cast<ConstantInt>(y);
    if (!k || !wide.count(x)) return;
    nWide++;
    uint64_t v = k->getZExtValue();
    if (v <= 0x7fffffffull) return;
    // smallest value on the far side
    unsigned __int128 p = v;
    if (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_ULE) p++;
    else if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) return;
    if (p < 0x100000000ull) report(s, "TRUNC", C, "64-bit range bound is cut off inside the 32-bit universe");
}
void Engine::runEntry(const EntrySpec &e) {
    entryFn = e.fn;
    entry = e.name.empty() ? e.fn : e.name;
    auto it = byName.find(e.fn);
    if (it == byName.end()) return;
    const Function *F = it->second;
    State s;
    std::vector<Val> args;
    auto *sp = F->getSubprogram();
    auto ta = sp->getType()->getTypeArray();
    Frame f;
    f.fn = F;
    const FnInfo &fi = info(F);
    entryFlags["flags"] = 0x3;
    // bitmaps with and without copy-on-write are not to be mixed (documented in roaring.h)
    if (e.opt.count("cow")) { bool c = e.opt.at("cow") != "0"; entryFlags["flags"] = e.opt.at("cow") == "2" ? 0x1 : c ? 0x2 : 0x1; kindMask = c ? 0x1e : 0x0e; }
    if (e.opt.count("frozen")) { entryFlags["flags"] = 0x4; entryFlags["frozen"] = 1; kindMask = 0x0e; }
    if (e.opt.count("itnull")) entryFlags["itnull"] = e.opt.at("itnull") == "1";
    useArt = e.fn.compare(0, 10, "roaring64_") == 0;
    cpp = e.fn.compare(0, 2, "_Z") == 0;
    bool ctor = e.fn.find("C1E") != std::string::npos || e.fn.find("C2E") != std::string::npos;
    findWide(F);
    lazyBits = e.fn.find("_lazy") != std::string::npos || e.fn.find("_free") != std::string::npos;
    unsigned i = 0;
    for (auto &a : F->args()) {
        unsigned di = i + 1 - (cpp && F->arg_size() && F->getArg(0)->hasStructRetAttr() ? 1 : 0);
        const DIType *t = di < ta.size() ? ta[di] : nullptr;
        Val v;
        if (a.hasStructRetAttr() || (cpp && ctor && i == 0)) {   // raw storage the function has to fill
            int id = newObj(s, O_HEAP, a.hasStructRetAttr() ? "result" : "this");
            Obj &o = mut(s, id);
            o.owned = false; o.root = true;
            args.push_back(vP(id, X.cst(0)));
            f.env.push_back({fi.id.at(&a), args.back()});
            i++;
            continue;
        }
        if (cpp && i && F->arg_size() + 1 - (F->getArg(0)->hasStructRetAttr() ? 1 : 0) != ta.size()) t = nullptr;   // a structure passed in pieces
        auto al = e.alias.find((int)i);
        if (al != e.alias.end()) { v = args[al->second]; if (v.k == VP) { bool c = false; pointee(t, &c); } }
        else v = argFor(s, t, a.hasName() ? a.getName().str() : "arg" + std::to_string(i), e);
        args.push_back(v);
        f.env.push_back({fi.id.at(&a), v});
        i++;
    }
    // aliased arguments: writable if any of the views is writable
    for (auto &al : e.alias) {
        bool c1 = false, c2 = false;
        pointee(ta[al.first + 1], &c1); pointee(ta[al.second + 1], &c2);
        if (args[al.first].k == VP) mut(s, args[al.first].obj).isConst = c1 && c2;
    }
    // a bulk context: empty, or describing a slot of the bitmap it belongs to
    if (e.opt.count("ctx")) for (size_t k = 1; k < args.size(); k++) {
        std::string sn = k + 1 < ta.size() ? structName(pointee(ta[k + 1])) : "";
        if (sn == "roaring64_bulk_context_s" && args[k].k == VP && args[0].k == VP) {
            Val leaf = vNull();
            if (e.opt.at("ctx") == "1") {
                int g = artLeaf(s, vP(args[0].obj, X.add(args[0].e, X.cst(artOff()))), nullptr);
                Val ix = freshI("ctxidx"); bound(s, ix.e, false, 0);
                if (g) leaf = vP(g, ix.e);
            }
            Cell c; c.v = c.init = leaf; c.size = 8;
            mut(s, args[k].obj).cells[X.cst(memberOffset(structs[sn], "leaf"))] = c;
            continue;
        }
        if (sn == "BulkContext") sn = "roaring_bulk_context_s";   // the C++ class holds just that
        if (sn != "roaring_bulk_context_s" || args[k].k != VP || args[0].k != VP) continue;
        auto *ct = structs[sn], *rt = structs["roaring_array_s"];
        Val cont = vNull(), idx = vC(0), key = vC(0), tc = vC(0);
        if (e.opt.at("ctx") == "1") {
            auto at = [&](const char *m, int sz, bool p) { return load(s, vP(args[0].obj, X.cst(memberOffset(rt, m))), sz, p, &F->front().front()); };
            Val size = at("size", 4, false), cs = at("containers", 8, true), ts = at("typecodes", 8, true);
            idx = freshI("ctxidx"); key = freshI("ctxkey");
            if (!bound(s, idx.e, false, 0) || !bound(s, X.sub(size.e, idx.e), false, 1)) return;
            bound(s, key.e, false, 0); bound(s, key.e, true, 65535);
            cont = load(s, vP(cs.obj, X.add(cs.e, X.scale(idx.e, 8))), 8, true, &F->front().front());
            tc = load(s, vP(ts.obj, X.add(ts.e, idx.e)), 1, false, &F->front().front());
            if (tc.k == VI && s.dom.count(tc.e)) s.dom[tc.e] &= 0x0e;   // a context never describes a shared container
        }
        Obj &m = mut(s, args[k].obj);
        auto put = [&](const char *n, const Val &v, int sz) { Cell c; c.v = v; c.init = v; c.size = sz; m.cells[X.cst(memberOffset(ct, n))] = c; };
        put("container", cont, 8); put("idx", idx, 4); put("key", key, 2); put("typecode", tc, 1);
    }
    s.fr.push_back(f);
    auto rets = exec(F, std::move(s));
    if (budget.hit) return;
    const Instruction *I = nullptr;
    for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator())) I = bb.getTerminator();
    for (auto &r : rets) exitChecks(r, F, I);
}
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += ' '; else o += c; } return o; }

int main(int argc, char **argv) {
    std::string bc, with, entries, out;
    long maxSteps = 20000000; int jobs = 8; int tlimit = 120; bool fault = false, trace = false, prof = false, list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--with") with = argv[++i];   // definitions of what the first module only declares
        else if (a == "--entries") entries = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--steps") maxSteps = atol(argv[++i]);
        else if (a == "--tlimit") tlimit = atoi(argv[++i]);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--fault") fault = true;
        else if (a == "--trace") trace = true;
        else if (a == "--prof") prof = true;
        else if (a == "--list") list = true;
        else bc = a;
    }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(bc, err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    std::unique_ptr<Module> W;
    if (!with.empty()) {
        W = parseIRFile(with, err, ctx);
        if (!W) { err.print(argv[0], errs()); return 2; }
        for (auto &F : *M) if (!F.isIntrinsic() && !F.getName().starts_with("_Z")) if (auto *D = W->getFunction(F.getName())) if (!D->isDeclaration()) F.replaceAllUsesWith(D);
        for (auto &G : M->globals()) if (G.isDeclaration()) if (auto *D = W->getNamedGlobal(G.getName())) G.replaceAllUsesWith(D);
    }
    if (list) {
        // every function defined in the module: name, linkage, file
        for (auto &F : *M) if (!F.isDeclaration() && F.getSubprogram())
        {
            // which parameters are bitmaps: B written to, c read only
            std::string sig;
            auto ta = F.getSubprogram()->getType()->getTypeArray();
            for (unsigned i = 1; i < ta.size(); i++) {
                bool c = false;
                std::string sn = structName(pointee(ta[i], &c));
                sig += sn == "roaring_bitmap_s" || sn == "roaring64_bitmap_s" || sn == "bitset_s" ? (c ? "c" : "B") : "-";
            }
            printf("%s %s %s %s\n", F.getName().str().c_str(), F.hasLocalLinkage() ? "internal" : "external", F.getSubprogram()->getFilename().str().c_str(), sig.empty() ? "." : sig.c_str());
        }
        return 0;
    }
    std::vector<Engine::EntrySpec> es;
    std::ifstream in(entries);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line); Engine::EntrySpec e; std::string w;
        if (!(ls >> e.fn)) continue;
        e.name = line;
        while (ls >> w) { int a, b; if (sscanf(w.c_str(), "%d=%d", &a, &b) == 2) e.alias[a] = b; else if (w.find('=') != std::string::npos) e.opt[w.substr(0, w.find('='))] = w.substr(w.find('=') + 1); }
        es.push_back(e);
    }
    std::string tmp = out + ".d";
    (void)!system(("mkdir -p " + tmp).c_str());
    size_t next = 0; int running = 0;
    auto child = [&](size_t i) {
        signal(SIGALRM, [](int) { timeUp = 1; signal(SIGALRM, SIG_DFL); alarm(30); }); timeUp = 0; alarm(tlimit);
        auto t0 = std::chrono::steady_clock::now();
        Engine E(*M, W.get());
        E.budget.maxSteps = maxSteps; E.faultMode = fault; E.trace = trace;
        bool exists = E.byName.count(es[i].fn) && !E.byName[es[i].fn]->isDeclaration() && E.byName[es[i].fn]->getSubprogram();
        if (exists) E.runEntry(es[i]);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ofstream o(tmp + "/" + std::to_string(i) + ".json");
        o << "{\"entry\":\"" << esc(es[i].name) << "\",\"found\":" << (exists ? "true" : "false") << ",\"complete\":" << (E.budget.hit || E.budget.partial ? "false" : "true") << ",\"why\":\"" << esc(E.budget.why) << "\",\"wall\":" << dt << ",\"steps\":" << E.budget.steps
          << ",\"calls\":" << E.nCalls << ",\"merges\":" << E.nMerges << ",\"slot_checks\":" << E.nSlotChecks << ",\"kind_checks\":" << E.nKindChecks << ",\"free_sites\":" << E.siteFree.size() << ",\"alloc_sites\":" << E.siteAlloc.size()
          << ",\"store_sites\":" << E.siteStore.size() << ",\"load_sites\":" << E.siteLoad.size() << ",\"kind_sites\":" << E.siteKind.size() << ",\"wide_checks\":" << E.nWide << ",\"callback_sites\":" << E.siteCb.size() << ",\"functions\":[";
        bool first = true;
        for (auto &f : E.visitedFns) { o << (first ? "" : ",") << "\"" << esc(f) << "\""; first = false; }
        o << "],\"findings\":[";
        first = true;
        for (auto &kv : E.findings) {
            auto &f = kv.second;
            o << (first ? "" : ",") << "\n{\"rule\":\"" << f.rule << "\",\"fn\":\"" << esc(f.fn) << "\",\"where\":\"" << esc(f.where) << "\",\"obj\":\"" << esc(f.obj) << "\",\"msg\":\"" << esc(f.msg) << "\",\"stack\":\"" << esc(f.stack) << "\"}";
            first = false;
        }
        o << "]}\n";
        if (prof) { std::vector<std::pair<long, std::string>> v; for (auto &p : E.fnSteps) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t k = 0; k < v.size() && k < 12; k++) fprintf(stderr, "%10ld %s\n", v[k].first, v[k].second.c_str()); }
    };
    if (trace || jobs <= 1) { for (; next < es.size(); next++) child(next); }
    else {
        while (next < es.size() || running) {
            while (running < jobs && next < es.size()) {
                pid_t p = fork();
                if (p == 0) { child(next); _exit(0); }
                next++; running++;
            }
            int st; if (wait(&st) > 0) running--;
        }
    }
    std::ofstream o(out);
    o << "[";
    for (size_t i = 0; i < es.size(); i++) {
        std::ifstream f(tmp + "/" + std::to_string(i) + ".json");
        std::stringstream ss; ss << f.rdbuf();
        std::string body = ss.str();
        if (body.empty()) body = "{\"entry\":\"" + esc(es[i].name) + "\",\"found\":true,\"complete\":false,\"crashed\":true,\"findings\":[],\"functions\":[]}";
        o << (i ? "," : "") << body;
        unlink((tmp + "/" + std::to_string(i) + ".json").c_str());
    }
    o << "]\n";
    rmdir(tmp.c_str());
    o.close();
    fflush(nullptr);
    _exit(0);
}
