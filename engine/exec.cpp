#include "engine.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/CFG.h>

static int sizeOf(const DataLayout &DL, Type *t) { return t->isSized() ? (int)DL.getTypeStoreSize(t).getFixedValue() : 0; }
std::string baseStruct(Type *t) {
    auto *st = dyn_cast<StructType>(t);
    if (!st || !st->hasName()) return "";
    std::string n = st->getName().str();
    if (!n.compare(0, 7, "struct.")) n = n.substr(7);
    else if (!n.compare(0, 6, "class.")) n = n.substr(6);
    size_t d = n.find('.');
    if (d != std::string::npos) n = n.substr(0, d);
    size_t c = n.rfind("::");
    if (c != std::string::npos) n = n.substr(c + 2);
    return n;
}
Val Engine::eval(State &s, const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
        unsigned w = c->getBitWidth();
        if (w > 64) return vX();
        return vC(w <= 16 ? (int64_t)c->getZExtValue() : c->getSExtValue());
    }
    if (isa<ConstantPointerNull>(v)) return vNull();
    if (isa<UndefValue>(v)) return vU();
    if (auto *f = dyn_cast<Function>(v)) { Val r; r.k = VF; r.f = f; return r; }
    if (auto *g = dyn_cast<GlobalVariable>(v)) {
        auto &o = globalObj[g];
        if (!o) o = nextObj++;
        if (!s.heap.count(o)) {
            auto p = std::make_shared<Obj>(); p->id = o; p->kind = O_GLOBAL; p->site = g->getName().str(); p->owned = false; s.heap[o] = p;
        }
        return vP(o, X.cst(0));
    }
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (auto *g = dyn_cast<GEPOperator>(ce)) {
            Val b = eval(s, g->getPointerOperand());
            APInt off(64, 0);
            if (b.k == VP && g->accumulateConstantOffset(DL, off)) return vP(b.obj, X.add(b.e, X.cst(off.getSExtValue())));
        }
        return v->getType()->isPointerTy() ? vX() : v->getType()->isIntegerTy() ? freshI("ce") : vX();
    }
    if (isa<ConstantAggregateZero>(v) || isa<ConstantData>(v) || isa<Constant>(v)) {
        if (auto *st = dyn_cast<StructType>(v->getType())) {
            Val r; r.k = VA; r.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < st->getNumElements(); i++) { auto *e = cast<Constant>(v)->getAggregateElement(i); r.agg->push_back(e ? eval(s, e) : vU()); }
            return r;
        }
        return vX();
    }
    Frame &f = s.fr.back();
    const FnInfo &fi = info(f.fn);
    auto it = fi.id.find(v);
    if (it == fi.id.end()) return vX();
    for (auto i = f.env.rbegin(); i != f.env.rend(); ++i) if (i->first == it->second) return i->second;
    return vU();
}
void Engine::setv(State &s, const Value *v, const Val &x) {
    Frame &f = s.fr.back();
    const FnInfo &fi = info(f.fn);
    int id = fi.id.at(v);
    for (auto &p : f.env) if (p.first == id) { p.second = x; return; }
    f.env.push_back({id, x});
}
static void restrictEnv(Frame &f, const std::vector<int> &keep) {
    std::vector<std::pair<int, Val>> n;
    for (int k : keep) for (auto &p : f.env) if (p.first == k) { n.push_back(p); break; }
    f.env.swap(n);
}
std::vector<std::pair<State, bool>> Engine::branch(State s, EId cond) {
    std::vector<std::pair<State, bool>> out;
    int64_t v;
    static const char *dbr = getenv("DUMPBR");
    if (dbr && !s.fr.empty() && fname(s.fr.back().fn) == dbr) { EId q = X.n[cond].op == E_NOT ? X.n[cond].a : cond; EId in = X.n[q].a >= 0 ? X.n[q].a : q; Iv r = range(s, in); fprintf(stderr, "BRANCH %s : %s in [%ld,%ld]\n", X.str(cond).c_str(), X.str(in).c_str(), (long)r.lo, (long)r.hi); if (getenv("DUMPBRF")) for (auto &f : s.facts) fprintf(stderr, "     fact %s in [%ld,%ld]\n", X.str(f.first).c_str(), (long)f.second.lo, (long)f.second.hi); }
    if (X.isC(cond, &v)) { out.push_back({std::move(s), v != 0}); return out; }
    // a finite-domain unknown inside something more complex than sym==const: enumerate
    EId d;
    if (findDom(s, cond, d)) {
        const ENode n = X.n[cond];
        bool simple = false;
        EId inner = cond;
        if (n.op == E_NOT) inner = n.a;
        if (inner == d) simple = s.dom[d] == 3 || s.dom[d] == 1 || s.dom[d] == 2;
        const ENode m = X.n[inner];
        if (m.op == E_EQ || m.op == E_LT) {
            const ENode l = X.n[m.a];
            if (m.a == d || (l.op == E_LIN && l.t.size() == 1 && l.t[0].first == d)) simple = true;
        }
        if (!simple) {
            unsigned mask = s.dom[d];
            for (int i = 0; i < 32; i++) if (mask >> i & 1) {
                State t = s;
                EId c = X.cst(i);
                std::unordered_map<EId, EId> memo;
                EId nc = mapE(cond, [&](EId x) { return x == d ? c : x; }, memo);
                substConst(t, d, i);
                for (auto &r : branch(std::move(t), nc)) out.push_back(std::move(r));
            }
            return out;
        }
    }
    State t = s;
    if (assume(t, cond, true)) out.push_back({std::move(t), true});
    if (assume(s, cond, false)) out.push_back({std::move(s), false});
    return out;
}
static int kindLit(const std::string &n, const std::map<std::string, unsigned> &m) { auto i = m.find(n); return i == m.end() ? 0 : (int)i->second; }

void Engine::kindCheck(State &s, const Instruction *I, const Val &b, const std::string &sn) {
    int want = kindLit(sn, tagOfStruct);
    if (!want || b.k != VP || !b.obj) return;
    const Obj *o = get(s, b.obj);
    int64_t z;
    if (!o || !X.isC(b.e, &z) || z != 0 || !o->alive) return;
    siteKind.insert(I); nKindChecks++;
    if (o->tag >= 0) {
        int64_t tv;
        if (!X.isC(o->tag, &tv)) report(s, "TYPE", I, "container accessed as " + sn + " without its kind being known", o->site);
        else if (tv != want) report(s, "TYPE", I, "container of kind " + std::to_string(tv) + " accessed as " + sn, o->site);
    } else if (o->kind == O_HEAP) {
        if (!o->stype) mut(s, b.obj).stype = want;
        else if (o->stype != want) report(s, "TYPE", I, "container built as kind " + std::to_string(o->stype) + " accessed as " + sn, o->site);
    }
}
// a call from a wrapper into the C library whose result tells about a failure
static bool canFail(const CallBase *cb) {
    auto *F = cb->getCalledFunction();
    if (!F || !cb->getFunction()->getName().starts_with("_Z") || !F->getName().starts_with("roaring")) return false;
    auto *sp = F->getSubprogram();
    auto ta = sp ? sp->getType()->getTypeArray() : DITypeRefArray();
    if (!sp || !ta.size()) return false;
    std::string rn = structName(pointee(ta[0]));
    if (rn.compare(0, 7, "roaring") == 0) return true;
    StringRef n = F->getName();
    return n.ends_with("_overwrite") || n.ends_with("_init_with_capacity");
}
void Engine::runBlock(const FnInfo &fi, const BasicBlock *bb, State s0, std::vector<Out> &outs) {
    // work list of (state, instruction)
    std::vector<std::pair<State, const Instruction *>> work;
    work.push_back({std::move(s0), &*bb->getFirstNonPHIIt()});
    while (!work.empty()) {
        State s = std::move(work.back().first);
        const Instruction *I = work.back().second;
        work.pop_back();
        for (;; I = I->getNextNode()) {
            static const int watch = getenv("WATCH") ? atoi(getenv("WATCH")) : 0;
            if (watch) {
                static std::string last; static bool had = false;
                auto wi = s.heap.find(watch);
                bool now = false;
                if (wi != s.heap.end() && wi->second->alive) {
                    for (auto &h : s.heap) if (h.second->dir) for (auto &c : h.second->cells) if (c.second.v.k == VP && c.second.v.obj == watch) now = true;
                    if (had && !now && !wi->second->absorbed) { fprintf(stderr, "WATCH lost before %s %s (previous %s)\n", fi.name.c_str(), loc(I).c_str(), last.c_str()); Canon cc = canon(s); dumpHead(s, "", nullptr); }
                    had = now;
                    last = fi.name + " " + loc(I);
                }
            }
            budget.steps++; fnSteps[fi.name]++;
            if (timeUp || (budget.maxSteps && budget.steps > budget.maxSteps)) { budget.hit = true; budget.why = "time or step limit in " + fi.name; return; }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *cb = dyn_cast<CallBase>(I)) {
                State before;
                before.dead = true;
                if (cpp && faultMode && !s.faulted && cb->getType()->isPointerTy() && canFail(cb)) before = s;
                auto rs = call(std::move(s), cb);
                if (budget.hit) return;
                if (rs.empty()) { s.dead = true; break; }
                if (!before.dead) { before.faulted = true; before.extra["fault"] = 1; setv(before, cb, vNull()); rs.push_back(std::move(before)); }
                if (cpp && canFail(cb)) {   // remember failures the C library reported to a wrapper
                    std::vector<State> q;
                    for (auto &r : rs) {
                        Val v = eval(r, cb);
                        int64_t z;
                        if (v.k == VP) { if (!v.obj) r.extra["cfail"] = 1; }
                        else if (v.k == VI && X.isC(v.e, &z)) { if (!z) r.extra["cfail"] = 1; }
                        else if (v.k == VI) {
                            State t = r;
                            if (assume(t, X.eq0(v.e), true)) { t.extra["cfail"] = 1; q.push_back(std::move(t)); }
                            if (!assume(r, X.eq0(v.e), false)) continue;
                        }
                        q.push_back(std::move(r));
                    }
                    rs.swap(q);
                    if (rs.empty()) { s.dead = true; break; }
                }
                for (size_t i = 1; i < rs.size(); i++) work.push_back({std::move(rs[i]), I->getNextNode()});
                s = std::move(rs[0]);
                continue;
            }
            switch (I->getOpcode()) {
                case Instruction::Alloca: {
                    int id = newObj(s, O_STACK, "local of " + fi.name);
                    s.fr.back().stack.push_back(id);
                    setv(s, I, vP(id, X.cst(0)));
                    break; }
                case Instruction::Load: {
                    auto *L = cast<LoadInst>(I);
                    Val p = eval(s, L->getPointerOperand());
                    Type *t = L->getType();
                    int sz = sizeOf(DL, t);
                    if (L->isAtomic() && p.k == VP && p.obj) {
                        const Obj *o = get(s, p.obj);
                        if (o && o->alive && (o->stype == 4 || tagOf(s, p.obj) == 4)) {
                            if (access(s, p, false, I, "read")) {
                                o = get(s, p.obj);
                                if (o->rc >= 0) { setv(s, I, vC(o->rc)); break; }
                                State t1 = s;
                                if (o->holds <= 1) { mut(t1, p.obj).rc = 1; setv(t1, I, vC(1)); work.push_back({std::move(t1), I->getNextNode()}); }
                                Val f = freshI("count"); bound(s, f.e, false, 2);
                                setv(s, I, f);
                                break;
                            }
                        }
                    }
                    Val v;
                    if (t->isVectorTy() || t->isFloatingPointTy() || t->isStructTy() || t->isArrayTy() || sz > 8) { access(s, p, false, I, "read"); v = vX(); }
                    else v = load(s, p, sz, t->isPointerTy(), I);
                    if (t->isIntegerTy() && v.k == VX) v = freshI("ld");
                    setv(s, I, v);
                    break; }
                case Instruction::Store: {
                    auto *S = cast<StoreInst>(I);
                    Val p = eval(s, S->getPointerOperand()), v = eval(s, S->getValueOperand());
                    int sz = sizeOf(DL, S->getValueOperand()->getType());
                    if (p.k == VP && p.obj) {
                        const Obj *o = get(s, p.obj);
                        if (o && o->alive && (o->stype == 4) && sz == 4 && v.k == VI) {
                            int64_t n; Obj &m = mut(s, p.obj);
                            if (X.isC(v.e, &n)) { m.rc = (int)n; m.holds = (int)n; }
                        }
                    }
                    if (v.k == VP || v.k == VI) fieldRole(s, I, S->getPointerOperand(), p, v);
                    store(s, p, v, sz, I);
                    break; }
                case Instruction::GetElementPtr: {
                    auto *g = cast<GEPOperator>(I);
                    Val b = eval(s, g->getPointerOperand());
                    std::string sn = baseStruct(g->getSourceElementType());
                    kindCheck(s, I, b, sn);
                    if (b.k != VP) { setv(s, I, b.k == VU ? vU() : vX()); break; }
                    MapVector<Value *, APInt> vars; APInt c(64, 0);
                    if (!g->collectOffset(DL, 64, vars, c)) { setv(s, I, vX()); break; }
                    EId off = X.add(b.e, X.cst(c.getSExtValue()));
                    bool unk = false;
                    for (auto &p : vars) {
                        Val i = eval(s, p.first);
                        if (i.k == VI) off = X.lincomb(off, 1, i.e, p.second.getSExtValue());
                        else unk = true;
                    }
                    if (unk) off = X.fresh("off");
                    if (b.obj == 0) { int64_t z; if (X.isC(off, &z) && z == 0) { setv(s, I, b); break; } }
                    setv(s, I, vP(b.obj, off));
                    break; }
                case Instruction::ICmp: {
                    auto *C = cast<ICmpInst>(I);
                    if (C->getType()->isVectorTy()) { setv(s, I, vX()); break; }
                    Val a = eval(s, C->getOperand(0)), b = eval(s, C->getOperand(1));
                    auto pr = C->getPredicate();
                    if (!wide.empty()) wideCmp(s, C, a, b);
                    if (a.k == VU || b.k == VU) { setv(s, I, vU()); break; }
                    if (a.k == VP || b.k == VP) {
                        if (a.k == VP && b.k == VP && a.obj != b.obj && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE)) {
                            setv(s, I, vC(pr == CmpInst::ICMP_NE)); break;
                        }
                        if (a.k == VP && b.k == VP && a.obj == b.obj) { a = vI(a.e); b = vI(b.e); }
                        else { Val f = freshI("pc"); f.e = domSym(s, "pc", 3); setv(s, I, f); break; }
                    }
                    if (a.k == VF && b.k == VP && b.obj == 0 && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE)) { setv(s, I, vC(pr == CmpInst::ICMP_NE)); break; }
                    if (a.k != VI || b.k != VI) { Val f = vI(domSym(s, "cmp", 3)); setv(s, I, f); break; }
                    EId ea = a.e, eb = b.e;
                    if (CmpInst::isUnsigned(pr) && C->getOperand(0)->getType()->isIntegerTy()) {
                        unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth();
                        auto fix = [&](EId &e) { int64_t v; if (X.isC(e, &v) && v < 0) { if (w == 32) e = X.cst(v & 0xffffffffll); else if (w == 64) e = X.cst(INF); } };
                        fix(ea); fix(eb);
                        auto neg = [&](EId e) { const ENode n = X.n[e]; if (n.op != E_LIN) return false; if (n.c < 0) return true; for (auto &p : n.t) if (p.second < 0) return true; return false; };
                        bool na = neg(ea) && range(s, ea).lo < 0, nb = neg(eb) && range(s, eb).lo < 0;
                        // a range bound whose sign is out of reach of its expression: from here on just some unsigned number
                        auto rename = [&](const Value *o, EId &x, bool &ng) {
                            if (!ng || !wide.count(o) || !isa<Instruction>(o)) return;
                            Val f = freshI("wide"); x = f.e; ng = false;
                            bound(s, x, false, 0);
                            setv(s, o, f);
                        };
                        rename(C->getOperand(0), ea, na); rename(C->getOperand(1), eb, nb);
                        if (na || nb) { setv(s, I, freshI("ucmp")); EId e = eval(s, I).e; bound(s, e, false, 0); bound(s, e, true, 1); setv(s, I, vI(e)); break; }
                    }
                    EId r;
                    {   // unsigned comparisons with 0 are (in)equalities
                        int64_t z;
                        if ((pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_ULE) && X.isC(eb, &z) && z == 0) pr = pr == CmpInst::ICMP_UGT ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ;
                        else if ((pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_UGE) && X.isC(eb, &z) && z == 1) { eb = X.cst(0); pr = pr == CmpInst::ICMP_UGE ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ; }
                    }
                    switch (pr) {
                        case CmpInst::ICMP_EQ: r = X.eq0(X.sub(ea, eb)); break;
                        case CmpInst::ICMP_NE: r = X.notE(X.eq0(X.sub(ea, eb))); break;
                        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: r = X.lt0(X.sub(ea, eb)); break;
                        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: r = X.lt0(X.sub(eb, ea)); break;
                        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: r = X.notE(X.lt0(X.sub(eb, ea))); break;
                        default: r = X.notE(X.lt0(X.sub(ea, eb))); break;
                    }
                    // decide now when the facts allow it
                    {
                        EId q = r; bool ng = false;
                        if (X.n[q].op == E_NOT) { q = X.n[q].a; ng = true; }
                        if (X.n[q].op == E_LT) { Iv v = range(s, X.n[q].a); if (v.hi < 0) r = X.cst(!ng); else if (v.lo >= 0) r = X.cst(ng); }
                        else if (X.n[q].op == E_EQ) { Iv v = range(s, X.n[q].a); if (v.lo > 0 || v.hi < 0) r = X.cst(ng); else if (v.lo == 0 && v.hi == 0) r = X.cst(!ng); else { auto kf = s.facts.find(q); if (kf != s.facts.end() && kf->second.hi == 0) r = X.cst(ng); } }
                    }
                    setv(s, I, vI(r));
                    break; }
                case Instruction::Select: {
                    auto *S = cast<SelectInst>(I);
                    Val c = eval(s, S->getCondition());
                    if (S->getType()->isVectorTy() || S->getCondition()->getType()->isVectorTy()) { setv(s, I, vX()); break; }
                    if (c.k != VI) { if (c.k == VU) report(s, "UNINIT", I, "decision made on uninitialised data"); c = vI(domSym(s, "sel", 3)); }
                    auto bs = branch(std::move(s), c.e);
                    if (bs.empty()) { s.dead = true; goto done; }
                    for (auto &b : bs) { Val v = eval(b.first, b.second ? S->getTrueValue() : S->getFalseValue()); setv(b.first, I, v); }
                    for (size_t i = 1; i < bs.size(); i++) work.push_back({std::move(bs[i].first), I->getNextNode()});
                    s = std::move(bs[0].first);
                    break; }
                case Instruction::Br: {
                    auto *B = cast<BranchInst>(I);
                    if (B->isUnconditional()) { outs.push_back({std::move(s), B->getSuccessor(0), bb}); goto done; }
                    Val c = eval(s, B->getCondition());
                    if (c.k == VU) { report(s, "UNINIT", I, "decision made on uninitialised data"); }
                    if (c.k != VI) c = vI(domSym(s, "br", 3));
                    for (auto &b : branch(std::move(s), c.e)) outs.push_back({std::move(b.first), B->getSuccessor(b.second ? 0 : 1), bb});
                    goto done; }
                case Instruction::Switch: {
                    auto *S = cast<SwitchInst>(I);
                    Val c = eval(s, S->getCondition());
                    if (c.k == VU) report(s, "UNINIT", I, "decision made on uninitialised data");
                    std::vector<State> st;
                    if (c.k != VI) {
                        for (auto &cs : S->cases()) outs.push_back({s, cs.getCaseSuccessor(), bb});
                        outs.push_back({s, S->getDefaultDest(), bb});
                        goto done;
                    }
                    // enumerate finite-domain unknowns in the condition
                    std::vector<std::pair<State, EId>> q; q.push_back({std::move(s), c.e});
                    while (!q.empty()) {
                        State t = std::move(q.back().first); EId e = q.back().second; q.pop_back();
                        EId d;
                        if (findDom(t, e, d)) {
                            unsigned mask = t.dom[d];
                            for (int i = 0; i < 32; i++) if (mask >> i & 1) {
                                State u = t; EId cc = X.cst(i); std::unordered_map<EId, EId> memo;
                                EId ne = mapE(e, [&](EId x) { return x == d ? cc : x; }, memo);
                                substConst(u, d, i);
                                q.push_back({std::move(u), ne});
                            }
                            continue;
                        }
                        int64_t v;
                        if (X.isC(e, &v)) {
                            const BasicBlock *to = S->getDefaultDest();
                            for (auto &cs : S->cases()) if ((int64_t)cs.getCaseValue()->getSExtValue() == v || (int64_t)cs.getCaseValue()->getZExtValue() == v) to = cs.getCaseSuccessor();
                            outs.push_back({std::move(t), to, bb});
                            continue;
                        }
                        bool def = true;
                        State rest = t;
                        for (auto &cs : S->cases()) {
                            State u = t;
                            EId eq = X.eq0(X.sub(e, X.cst(cs.getCaseValue()->getSExtValue())));
                            if (assume(u, eq, true)) outs.push_back({std::move(u), cs.getCaseSuccessor(), bb});
                            if (def && !assume(rest, eq, false)) def = false;
                        }
                        if (def) outs.push_back({std::move(rest), S->getDefaultDest(), bb});
                    }
                    goto done; }
                case Instruction::Ret: {
                    auto *R = cast<ReturnInst>(I);
                    if (R->getReturnValue()) s.ret = eval(s, R->getReturnValue()); else s.ret = Val();
                    Out o; o.s = std::move(s); o.to = nullptr; o.from = bb; o.ret = true;
                    outs.push_back(std::move(o));
                    goto done; }
                case Instruction::Unreachable: {
                    const Instruction *p = I->getPrevNode();
                    bool nr = false;
                    while (p && isa<DbgInfoIntrinsic>(p)) p = p->getPrevNode();
                    if (auto *c = dyn_cast_or_null<CallBase>(p)) if (c->doesNotReturn() || (c->getCalledFunction() && c->getCalledFunction()->doesNotReturn())) nr = true;
                    if (!nr && kindDispatch(I)) report(s, "UNREACH", I, "code declared unreachable is reached");
                    goto done; }
                case Instruction::ExtractValue: {
                    auto *E = cast<ExtractValueInst>(I);
                    Val a = eval(s, E->getAggregateOperand());
                    Val r = vX();
                    if (a.k == VA && E->getNumIndices() == 1 && E->getIndices()[0] < a.agg->size()) r = (*a.agg)[E->getIndices()[0]];
                    else if (E->getType()->isIntegerTy()) r = freshI("ev");
                    setv(s, I, r);
                    break; }
                case Instruction::InsertValue: {
                    auto *E = cast<InsertValueInst>(I);
                    Val a = eval(s, E->getAggregateOperand()), v = eval(s, E->getInsertedValueOperand());
                    auto *st = dyn_cast<StructType>(E->getType());
                    Val r = vX();
                    if (st && E->getNumIndices() == 1) {
                        r.k = VA; r.agg = std::make_shared<std::vector<Val>>(st->getNumElements());
                        if (a.k == VA) *r.agg = *a.agg;
                        (*r.agg)[E->getIndices()[0]] = v;
                    }
                    setv(s, I, r);
                    break; }
                case Instruction::PtrToInt: {
                    Val a = eval(s, I->getOperand(0));
                    setv(s, I, a.k == VP ? (a.obj ? vI(X.add(X.addr(a.obj), a.e)) : vI(a.e)) : a.k == VU ? vU() : freshI("addr"));
                    break; }
                case Instruction::IntToPtr: {
                    Val a = eval(s, I->getOperand(0));
                    Val r = vX();
                    if (a.k == VI) {
                        int64_t z;
                        const ENode n = X.n[a.e];
                        if (X.isC(a.e, &z) && z == 0) r = vNull();
                        else if (n.op == E_ADDR) r = vP((int)n.c, X.cst(0));
                        else if (n.op == E_LIN) {
                            int ad = -1, cnt = 0; EId ae = -1;
                            for (auto &p : n.t) if (X.n[p.first].op == E_ADDR) { cnt++; if (p.second == 1) { ad = (int)X.n[p.first].c; ae = p.first; } }
                            if (cnt == 1 && ad >= 0) r = vP(ad, X.sub(a.e, ae));
                        }
                    }
                    setv(s, I, r);
                    break; }
                case Instruction::Trunc: {
                    Val a = eval(s, I->getOperand(0));
                    if (a.k == VU) { setv(s, I, a); break; }
                    if (a.k != VI || I->getType()->isVectorTy()) { setv(s, I, I->getType()->isIntegerTy() ? freshI("tr") : vX()); break; }
                    unsigned w = I->getType()->getIntegerBitWidth();
                    if (w == 32 && !wide.empty() && wide.count(I->getOperand(0))) wideTrunc(s, cast<TruncInst>(I), a);
                    if (w <= 16) setv(s, I, vI(simp(s, E_AND, a.e, X.cst((1ll << w) - 1))));
                    else { int64_t c; if (X.isC(a.e, &c) && w == 32) setv(s, I, vC((int32_t)c)); else setv(s, I, a); }
                    break; }
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Freeze: case Instruction::BitCast: {
                    Val a = eval(s, I->getOperand(0));
                    if (I->getType()->isVectorTy() || I->getOperand(0)->getType()->isVectorTy()) { setv(s, I, I->getType()->isIntegerTy() ? freshI("v") : vX()); break; }
                    int64_t c;
                    if (I->getOpcode() == Instruction::ZExt && a.k == VI && X.isC(a.e, &c) && c < 0 && I->getOperand(0)->getType()->isIntegerTy(32)) a = vC(c & 0xffffffffll);
                    if (I->getOpcode() == Instruction::SExt && a.k == VI && X.isC(a.e, &c) && I->getOperand(0)->getType()->getIntegerBitWidth() <= 16) {
                        unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth();
                        a = vC((int64_t)((uint64_t)c << (64 - w)) >> (64 - w));
                    }
                    setv(s, I, a);
                    break; }
                case Instruction::Fence: break;
                case Instruction::AtomicRMW: {
                    auto *A = cast<AtomicRMWInst>(I);
                    Val p = eval(s, A->getPointerOperand()), v = eval(s, A->getValOperand());
                    bool done = false;
                    int64_t n = 1;
                    if (v.k == VI) X.isC(v.e, &n);
                    if (p.k == VP && p.obj) {
                        const Obj *o = get(s, p.obj);
                        if (o && (o->stype == 4 || tagOf(s, p.obj) == 4) && (A->getOperation() == AtomicRMWInst::Add || A->getOperation() == AtomicRMWInst::Sub)) {
                            done = true;
                            if (!o->alive) { report(s, "UAF", I, "reference count of a freed shared container is changed", o->site); setv(s, I, freshI("count")); break; }
                            if (o->gaveUp) { report(s, A->getOperation() == AtomicRMWInst::Add ? "REFRACE" : "REFOVER", I, "reference count changed after giving up the hold (" + o->site + ")", o->site); setv(s, I, freshI("count")); break; }
                            if (A->getOperation() == AtomicRMWInst::Add) {
                                Obj &m = mut(s, p.obj);
                                m.holds += (int)n;
                                Val r = m.rc >= 0 ? vC(m.rc) : freshI("count");
                                if (m.rc >= 0) m.rc += (int)n; else bound(s, r.e, false, 1);
                                setv(s, I, r);
                            } else {
                                Obj &m = mut(s, p.obj);
                                if (m.holds < n) report(s, "REFOVER", I, "hold on a shared container given up twice (" + m.site + ")", m.site);
                                m.holds -= (int)n;
                                if (m.rc >= 0) {
                                    setv(s, I, vC(m.rc)); m.rc -= (int)n;
                                    if (m.holds <= 0 && m.rc > 0) m.gaveUp = true;
                                } else {
                                    if (m.holds <= 0) {
                                        State t = s;
                                        Obj &m1 = mut(t, p.obj); m1.rc = 0;
                                        setv(t, I, vC(n));
                                        work.push_back({std::move(t), I->getNextNode()});
                                        Obj &m2 = mut(s, p.obj); m2.gaveUp = true;
                                    }
                                    Val f = freshI("count"); bound(s, f.e, false, n + 1);
                                    setv(s, I, f);
                                }
                            }
                        }
                    }
                    if (!done) { if (p.k == VP) access(s, p, true, I, "write"); setv(s, I, freshI("rmw")); }
                    break; }
                case Instruction::AtomicCmpXchg: setv(s, I, vX()); break;
                default:
                    if (auto *B = dyn_cast<BinaryOperator>(I)) {
                        if (!B->getType()->isIntegerTy() || B->getType()->getIntegerBitWidth() > 64) { setv(s, I, vX()); break; }
                        Val a = eval(s, B->getOperand(0)), b = eval(s, B->getOperand(1));
                        // assembling a small structure from its members starts from a literal undef
                        if (isa<UndefValue>(B->getOperand(0))) a = vC(0);
                        if (isa<UndefValue>(B->getOperand(1))) b = vC(0);
                        if (a.k == VU || b.k == VU) { setv(s, I, vU()); break; }
                        if (a.k != VI || b.k != VI) { setv(s, I, freshI("bin")); break; }
                        EId r;
                        unsigned w = B->getType()->getIntegerBitWidth();
                        switch (B->getOpcode()) {
                            case Instruction::Add: r = X.add(a.e, b.e); break;
                            case Instruction::Sub: r = X.sub(a.e, b.e); break;
                            case Instruction::Mul: r = X.mul(a.e, b.e); break;
                            case Instruction::And: r = simp(s, E_AND, a.e, b.e); break;
                            case Instruction::Or: r = simp(s, E_OR, a.e, b.e); break;
                            case Instruction::Xor: r = simp(s, E_XOR, a.e, b.e); break;
                            case Instruction::Shl: r = simp(s, E_SHL, a.e, b.e); break;
                            case Instruction::LShr: case Instruction::AShr: r = simp(s, E_SHR, a.e, b.e); break;
                            case Instruction::UDiv: case Instruction::SDiv: r = simp(s, E_DIV, a.e, b.e); break;
                            case Instruction::URem: case Instruction::SRem: r = simp(s, E_REM, a.e, b.e); break;
                            default: r = X.fresh("bin");
                        }
                        if (w <= 16 && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Shl)) {
                            Iv q = range(s, r); if (q.lo < 0 || q.hi >= (1ll << w)) r = simp(s, E_AND, r, X.cst((1ll << w) - 1));
                        }
                        if (auto *sk = dyn_cast<ConstantInt>(B->getOperand(1))) if (B->getOpcode() == Instruction::LShr && X.n[r].op == E_SHR && sk->getZExtValue() > 0 && sk->getZExtValue() < w) {
                            int64_t hi = w - sk->getZExtValue() >= 61 ? INF : (1ll << (w - sk->getZExtValue())) - 1;
                            bound(s, r, false, 0); if (hi < INF) bound(s, r, true, hi);
                        }
                        setv(s, I, vI(r));
                        break;
                    }
                    if (!I->getType()->isVoidTy()) setv(s, I, I->getType()->isIntegerTy() ? (I->getType()->isIntegerTy(1) ? vI(domSym(s, "b", 3)) : freshI("op")) : vX());
                    break;
            }
            if (s.dead) break;
        }
    done:;
    }
}
void Engine::dumpHead(State &st, const std::string &key, State *old) {
    fprintf(stderr, "=== %s head %s\n%s\n", dumpFn.c_str(), old ? "join" : "NEW", key.c_str());
    auto dumpS = [&](State &s) {
        for (auto &f : s.fr) { fprintf(stderr, " frame %s:", fname(f.fn).c_str()); for (auto &p : f.env) if (p.second.k == VI || p.second.k == VP) fprintf(stderr, " %d=%s%s", p.first, p.second.k == VP ? ("o" + std::to_string(p.second.obj) + "+").c_str() : "", X.str(p.second.e).c_str()); fprintf(stderr, "\n"); }
        for (auto &h : s.heap) { fprintf(stderr, "  o%d %s k%d%s%s rc%d h%d sz=%s tag=%s by%d%s:", h.first, h.second->site.c_str(), (int)h.second->kind, h.second->alive ? "" : " DEAD", h.second->absorbed ? " abs" : "", h.second->rc, h.second->holds, h.second->size >= 0 ? X.str(h.second->size).c_str() : "?", h.second->tag >= 0 ? X.str(h.second->tag).c_str() : "-", h.second->sharedBy, h.second->gaveUp ? " GAVEUP" : ""); for (auto &c : h.second->cells) fprintf(stderr, " [%s]%d%s=%s%s", X.str(c.first).c_str(), c.second.size, c.second.dirty ? "!" : "", c.second.v.k == VP ? ("o" + std::to_string(c.second.v.obj) + "+").c_str() : c.second.v.k == VI ? "" : "?", c.second.v.k == VI || c.second.v.k == VP ? X.str(c.second.v.e).c_str() : ""); for (auto &q : h.second->mvC) fprintf(stderr, " mvC %s<-%s", X.str(q.first).c_str(), X.str(q.second).c_str()); for (auto &q : h.second->mvT) fprintf(stderr, " mvT %s<-%s", X.str(q.first).c_str(), X.str(q.second).c_str()); for (auto &q : h.second->mvK) fprintf(stderr, " mvK %s<-%s", X.str(q.first).c_str(), X.str(q.second).c_str()); fprintf(stderr, "\n"); }
        for (auto &f : s.facts) fprintf(stderr, "  fact %s in [%ld,%ld]\n", X.str(f.first).c_str(), (long)f.second.lo, (long)f.second.hi);
        for (auto &d : s.dom) fprintf(stderr, "  dom %s %x\n", X.str(d.first).c_str(), d.second);
    };
    dumpS(st);
    if (old) { fprintf(stderr, " --- old\n"); dumpS(*old); }
}
// The block only reports a failed assertion other than assert(false).
bool Engine::doomed(const BasicBlock *bb) {
    if (!isa<UnreachableInst>(bb->getTerminator())) return false;
    const Instruction *p = bb->getTerminator()->getPrevNode();
    while (p && isa<DbgInfoIntrinsic>(p)) p = p->getPrevNode();
    auto *c = dyn_cast_or_null<CallBase>(p);
    if (!c || !c->getCalledFunction() || fname(c->getCalledFunction()) != "__assert_fail") return false;
    for (auto &I : *bb) if (&I != c) if (auto *k = dyn_cast<CallBase>(&I)) if (!isa<DbgInfoIntrinsic>(k)) return false;
    return !falseAssert(c);
}
bool Engine::falseAssert(const CallBase *c) {
    const Value *v = c->getArgOperand(0)->stripPointerCasts();
    std::string e;
    if (auto *g = dyn_cast<GlobalVariable>(v)) if (g->hasInitializer()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) e = d->getAsCString().str();
    return e == "false" || e == "0" || !e.compare(0, 8, "false &&") || !e.compare(0, 4, "0 &&");
}
// Is this place the "no such kind" arm of a dispatch (as opposed to the end of
// a search that its caller promises to succeed)?
bool Engine::kindDispatch(const Instruction *I) {
    const FnInfo &fi = info(I->getFunction());
    if (fi.head.empty()) return true;
    const BasicBlock *b = I->getParent();
    for (int n = 0; n < 8; n++) {
        bool sw = false, one = true;
        const BasicBlock *p = nullptr;
        for (auto *q : predecessors(b)) { if (isa<SwitchInst>(q->getTerminator())) sw = true; if (p && p != q) one = false; p = q; }
        if (sw) return true;
        if (!one || !p) return false;
        b = p;
    }
    return false;
}
// Loops that only crunch numbers (no allocation, release, pointer stored, or
// call to anything but such code) are entered with everything they change
// already unknown, so that one pass covers every iteration.
static bool bitmapArg(const Function *F) {
    auto *sp = F->getSubprogram();
    if (!sp || !sp->getType()) return true;
    for (auto *t : sp->getType()->getTypeArray()) {
        const DIType *p = t ? pointee(t) : nullptr;
        for (int k = 0; k < 2 && p; k++) { std::string n = structName(p); if (n == "roaring_bitmap_s" || n == "roaring_array_s" || n == "roaring64_bitmap_s" || n == "art_s" || n.find("iterator") != std::string::npos && n.find("container_iterator") == std::string::npos) return true; p = pointee(p); }
    }
    return false;
}
void Engine::numericLoops(FnInfo &fi) {
    if (noKernels || fi.head.empty() || bitmapArg(fi.F)) return;
    std::set<const BasicBlock *> reach(fi.rpo.begin(), fi.rpo.end());
    for (auto *h : fi.head) {
        std::set<const BasicBlock *> body{h};
        std::vector<const BasicBlock *> w;
        for (auto *p : predecessors(h)) if (reach.count(p) && fi.ord[p] >= fi.ord[h] && body.insert(p).second) w.push_back(p);
        while (!w.empty()) { auto *b = w.back(); w.pop_back(); for (auto *p : predecessors(b)) if (reach.count(p) && fi.ord[p] >= fi.ord[h] && body.insert(p).second) w.push_back(p); }
        std::vector<const Instruction *> wr;
        bool ok = true;
        for (auto *b : body) for (auto &I : *b) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic() || S->getValueOperand()->getType()->isPointerTy()) ok = false; wr.push_back(S); }
            else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<AllocaInst>(I)) ok = false;
            else if (auto *C = dyn_cast<CallBase>(&I)) {
                const Function *G = C->getCalledFunction();
                if (!G) { ok = false; continue; }
                std::string n = fname(G);
                if (G->isIntrinsic()) { if (C->mayWriteToMemory()) wr.push_back(C); continue; }
                if (n == "__assert_fail" || n == "croaring_hardware_support") continue;
                if (kernelOf(G)) { for (char m : fns[G].argMod) if (m) { wr.push_back(C); break; } continue; }
                ok = false;
            }
        }
        if (ok) fi.numLoop[h] = wr;
    }
}
void Engine::widenNumbers(State &s, const FnInfo &fi, const BasicBlock *head) {
    Frame &f = s.fr.back();
    for (auto &ph : head->phis()) {
        int id = fi.id.at(&ph);
        for (auto &p : f.env) if (p.first == id) {
            if (p.second.k == VI && ph.getType()->isIntegerTy() && ph.getType()->getIntegerBitWidth() > 8) p.second = freshI("n");
            else if (p.second.k == VP && p.second.obj) { const Obj *o = get(s, p.second.obj); if (o && (o->data || o->bulk)) p.second.e = X.fresh("p"); }
        }
    }
    auto hav = [&](int obj, int64_t lo, int64_t hi) {   // forget numbers stored in [lo,hi)
        const Obj *o = get(s, obj);
        if (!o || !o->alive || o->dir || o->data) return;
        bool any = false;
        for (auto &c : o->cells) { int64_t z; if (c.second.v.k == VI && c.second.size > 1 && (!X.isC(c.first, &z) || (z >= lo && z < hi))) any = true; }
        if (!any) return;
        Obj &m = mut(s, obj);
        for (auto &c : m.cells) {
            int64_t z;
            if (c.second.v.k != VI || c.second.size <= 1 || (X.isC(c.first, &z) && (z < lo || z >= hi))) continue;
            c.second.v = freshI("m"); c.second.dirty = true;
            std::string nm; if (m.di) memberAt(m.di, X.isC(c.first, &z) ? z : 0, &nm, nullptr);
            if (nm == "n_runs" || nm == "capacity") bound(s, c.second.v.e, false, 0);
        }
    };
    auto place = [&](const Value *p, int64_t lo, int64_t hi) {
        APInt off(64, 0);
        const Value *b = p->stripAndAccumulateConstantOffsets(DL, off, true);
        bool cst = !isa<GetElementPtrInst>(b);
        Val v = eval(s, b);
        if (v.k == VP && cst) { int64_t k; if (!v.obj) return; if (X.isC(v.e, &k)) hav(v.obj, k + off.getSExtValue() + lo, k + off.getSExtValue() + hi); else hav(v.obj, -INF, INF); return; }
        while (auto *g = dyn_cast<GetElementPtrInst>(b)) b = g->getPointerOperand();
        v = eval(s, b);
        if (v.k == VP) { if (v.obj) hav(v.obj, -INF, INF); return; }
        // the pointer is set inside the loop: a member of a container, or plain elements
        if (auto *g = dyn_cast<GetElementPtrInst>(p)) { std::string sn = baseStruct(g->getSourceElementType()); if (tagOfStruct.count(sn)) { for (auto &h : std::map<int, std::shared_ptr<Obj>>(s.heap)) hav(h.first, off.getSExtValue() + lo, off.getSExtValue() + hi); return; } }
        if (isa<LoadInst>(b)) return;    // elements of a buffer loaded from memory: contents are not tracked
        for (auto &h : std::map<int, std::shared_ptr<Obj>>(s.heap)) hav(h.first, -INF, INF);
    };
    for (auto *I : fi.numLoop.at(head)) {
        if (auto *S = dyn_cast<StoreInst>(I)) { place(S->getPointerOperand(), 0, (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); continue; }
        auto *C = cast<CallBase>(I);
        const Function *G = C->getCalledFunction();
        if (G->isIntrinsic()) { for (auto &a : C->args()) if (a->getType()->isPointerTy()) place(a.get(), -INF, INF); continue; }
        const FnInfo &gi = fns[G];
        for (unsigned k = 0; k < C->arg_size() && k < gi.argMod.size(); k++) if (gi.argMod[k]) {
            if (gi.argKind[k].empty()) { place(C->getArgOperand(k), -INF, INF); continue; }
            for (auto &m : gi.wrAt[k]) place(C->getArgOperand(k), m.first, m.first + m.second);
        }
    }
}
std::vector<State> Engine::exec(const Function *F, State s) {
    info(F);
    if (!numReady[F]) { numReady[F] = true; numericLoops(fns[F]); }
    const FnInfo &fi = fns[F];
    visitedFns.insert(fi.name);
    std::vector<State> rets;
    std::map<int, std::vector<State>> pend;
    std::map<const BasicBlock *, std::map<std::string, std::pair<State, Canon>>> seen;
    pend[0].push_back(std::move(s));
    while (!pend.empty()) {
        if (budget.hit) return rets;
        int b = pend.begin()->first;
        std::vector<State> ss = std::move(pend.begin()->second);
        pend.erase(pend.begin());
        const BasicBlock *bb = fi.rpo[b];
        bool head = fi.head.count(bb);
        if (head) {
            std::vector<State> go;
            for (auto &st : ss) {
                foldDirs(st, false, &bb->front());
                if (fi.numLoop.count(bb)) widenNumbers(st, fi, bb);
                gc(st, &bb->front());
                fillNull(st);
                Canon c = canon(st);
                auto &m = seen[bb];
                auto it = m.find(c.key);
                if (dumpFn == fi.name) dumpHead(st, c.key, it == m.end() ? nullptr : &it->second.first);
                bool queued = false;
                for (int tries = 0; !queued; tries++) {
                    it = m.find(c.key);
                    if (it == m.end() || tries > 8) { auto &e = m[c.key]; e.first = st; e.second = c; go.push_back(std::move(st)); break; }
                    nMerges++;
                    State J = it->second.first;
                    if (!join(J, it->second.second, st, c, true)) break;
                    nRejoin++; if (dumpFn == fi.name) fprintf(stderr, "CHANGED\n");
                    Canon cj = canon(J);
                    if (cj.key == it->first) { it->second.first = J; it->second.second = std::move(cj); go.push_back(std::move(J)); queued = true; }
                    else { st = std::move(J); c = std::move(cj); }   // the joined state has another shape: it belongs there
                }
                if (m.size() > 3000) { budget.hit = true; budget.why = "too many shapes at a loop of " + fi.name; return rets; }
            }
            ss = std::move(go);
            if (ss.size() > 1) ss = mergeStates(std::move(ss), &bb->front());
        } else if (ss.size() > 1) {
            if (ss.size() > 6 && fi.exitB.count(bb)) for (auto &st : ss) foldDirs(st, false, &bb->front());
            ss = mergeStates(std::move(ss), &bb->front());
        }
        for (auto &st : ss) {
            std::vector<Out> outs;
            runBlock(fi, bb, std::move(st), outs);
            if (budget.hit) return rets;
            for (auto &o : outs) {
                if (o.s.dead) continue;
                if (!o.ret && doomed(o.to)) continue;   // a stated assumption is violated there
                if (o.ret) { rets.push_back(std::move(o.s)); continue; }
                // phis
                std::vector<std::pair<const PHINode *, Val>> pv;
                for (auto &p : o.to->phis()) pv.push_back({&p, eval(o.s, p.getIncomingValueForBlock(o.from))});
                restrictEnv(o.s.fr.back(), fi.liveIn.at(o.to));
                if (!fi.slots.empty()) dropDeadSlots(o.s, fi, fi.slotIn.at(o.to));
                for (auto &p : pv) setv(o.s, p.first, p.second);
                // a block entered through phis: keep only live ones plus the phis
                pend[fi.ord.at(o.to)].push_back(std::move(o.s));
            }
        }
    }
    // pop the frame
    for (auto &r : rets) {
        for (int id : r.fr.back().stack) { auto i = r.heap.find(id); if (i != r.heap.end()) { Obj &m = mut(r, id); m.alive = false; m.cells.clear(); m.site = "dead local of " + fi.name; } }
        r.fr.pop_back();
    }
    return rets;
}
