#include <llvm/IR/CFG.h>
#include "engine.h"
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>

// ---------------------------------------------------------------- debug info
const DIType *strip(const DIType *t, bool *isConst) {
    while (t) {
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            unsigned tag = d->getTag();
            if (tag == dwarf::DW_TAG_const_type) { if (isConst) *isConst = true; t = d->getBaseType(); continue; }
            if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_restrict_type || tag == dwarf::DW_TAG_atomic_type || tag == dwarf::DW_TAG_member || tag == dwarf::DW_TAG_inheritance) { t = d->getBaseType(); continue; }
        }
        break;
    }
    return t;
}
const DIType *pointee(const DIType *t, bool *isConst) {
    t = strip(t);
    if (auto *d = dyn_cast_or_null<DIDerivedType>(t))
        if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) return strip(d->getBaseType(), isConst);
    return nullptr;
}
static bool isPtrTy(const DIType *t) {
    t = strip(t);
    auto *d = dyn_cast_or_null<DIDerivedType>(t);
    return d && (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type);
}
std::string structName(const DIType *t) {
    t = strip(t);
    if (auto *c = dyn_cast_or_null<DICompositeType>(t)) return c->getName().str();
    return "";
}
const DIType *memberAt(const DIType *t, int64_t off, std::string *name, const DICompositeType **owner, bool *isConst, int64_t *rel) {
    t = strip(t);
    auto *c = dyn_cast_or_null<DICompositeType>(t);
    if (!c) return nullptr;
    if (c->getTag() == dwarf::DW_TAG_array_type) {
        const DIType *b = strip(c->getBaseType());
        int64_t sz = b ? (int64_t)b->getSizeInBits() / 8 : 0;
        if (!sz) return nullptr;
        if (dyn_cast<DICompositeType>(b)) return memberAt(b, off % sz, name, owner, isConst, rel);
        if (rel) *rel = off % sz;
        if (owner) *owner = c;
        if (name && name->empty()) *name = "[]";
        return c->getBaseType();
    }
    for (auto *e : c->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(e);
        if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
        int64_t o = (int64_t)m->getOffsetInBits() / 8, sz = (int64_t)m->getSizeInBits() / 8;
        if (off < o || off >= o + std::max<int64_t>(sz, 1)) continue;
        bool cst = false;
        const DIType *b = strip(m->getBaseType(), &cst);
        if (auto *bc = dyn_cast_or_null<DICompositeType>(b)) {
            if (bc->getTag() == dwarf::DW_TAG_array_type && name) *name = m->getName().str();
            auto *r = memberAt(bc, off - o, name, owner, isConst, rel);
            if (bc->getTag() == dwarf::DW_TAG_array_type && owner) *owner = c;
            return r;
        }
        if (name) *name = m->getName().str();
        if (owner) *owner = c;
        if (rel) *rel = off - o;
        return m->getBaseType();
    }
    return nullptr;
}
int64_t memberOffset(const DICompositeType *c, const std::string &n) {
    for (auto *e : c->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(e);
        if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
        int64_t o = (int64_t)m->getOffsetInBits() / 8;
        if (m->getName() == n) return o;
    }
    return -1;
}

// ---------------------------------------------------------------- functions
std::string Engine::fname(const Function *F) {
    if (F->getName().starts_with("_Z")) return F->getName().str();
    if (auto *sp = F->getSubprogram()) return sp->getName().str();
    std::string n = F->getName().str();
    size_t p = n.rfind('.');
    if (p != std::string::npos && p + 1 < n.size() && isdigit(n[p + 1]) && n.compare(0, 5, "llvm.")) n = n.substr(0, p);
    return n;
}
std::string Engine::loc(const Instruction *I) {
    if (!I) return "?";
    if (auto &d = I->getDebugLoc()) {
        std::string f = d->getFilename().str();
        size_t p = f.find("/src/"); size_t q = f.find("/include/");
        size_t c = f.find("cpp_clients.cpp"); if (c == std::string::npos) { c = f.rfind("/cpp/"); if (c != std::string::npos) c++; }
        if (c != std::string::npos && q == std::string::npos) f = f.substr(c);
        else if (p != std::string::npos) f = f.substr(p + 1); else if (q != std::string::npos) f = f.substr(q + 1);
        return f + ":" + std::to_string(d.getLine());
    }
    return fname(I->getFunction());
}
void Engine::report(State &s, const std::string &rule, const Instruction *I, const std::string &msg, const std::string &obj) {
    std::string fn = I ? fname(I->getFunction()) : (s.fr.empty() ? "?" : fname(s.fr.back().fn));
    std::string key = rule + "|" + fn + "|" + loc(I) + "|" + obj;
    if (findings.count(key)) return;
    Finding f;
    f.rule = rule; f.fn = fn; f.where = loc(I); f.entry = entry; f.msg = msg; f.obj = obj;
    for (auto &c : callerStack) f.stack += c + " > ";
    for (size_t i = 0; i < s.fr.size(); i++) f.stack += (i ? " > " : "") + fname(s.fr[i].fn) + (i + 1 < s.fr.size() && s.fr[i + 1].site ? "@" + loc(s.fr[i + 1].site) : "");
    findings[key] = f;
    if (const char *dr = getenv("DUMPREPORT")) if (rule == dr) { fprintf(stderr, "REPORT %s %s | %s | %s\n", rule.c_str(), f.where.c_str(), msg.c_str(), f.stack.c_str()); dumpHead(s, "", nullptr); }
    if (trace) fprintf(stderr, "REPORT %s %s %s: %s [%s]\n", rule.c_str(), fn.c_str(), f.where.c_str(), msg.c_str(), f.stack.c_str());
}
Engine::Engine(Module &m, Module *with) : M(m), DL(m.getDataLayout()) {
    X.cst(0);
    readModule(m);
    if (with) readModule(*with);
    tagOfStruct = {{"bitset_container_s", 1}, {"array_container_s", 2}, {"run_container_s", 3}, {"shared_container_s", 4}};
}
void Engine::readModule(Module &M) {
    for (auto &F : M) if (!F.isDeclaration() || !byName.count(fname(&F))) byName[fname(&F)] = &F;
    std::set<const DIType *> seen;
    std::function<void(const DIType *)> walk = [&](const DIType *t) {
        if (!t || !seen.insert(t).second) return;
        if (auto *d = dyn_cast<DIDerivedType>(t)) walk(d->getBaseType());
        if (auto *c = dyn_cast<DICompositeType>(t)) {
            if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type) && !c->getName().empty() && !c->isForwardDecl()) structs[c->getName().str()] = c;
            if (c->getBaseType()) walk(c->getBaseType());
            for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIType>(e)) walk(x);
        }
        if (auto *sr = dyn_cast<DISubroutineType>(t)) for (auto *x : sr->getTypeArray()) walk(x);
    };
    for (auto &F : M) if (auto *sp = F.getSubprogram()) {
        walk(sp->getType());
        for (auto *n : sp->getRetainedNodes()) if (auto *v = dyn_cast<DILocalVariable>(n)) walk(v->getType());
    }
    for (auto *cu : M.debug_compile_units()) for (auto *t : cu->getRetainedTypes()) if (auto *x = dyn_cast<DIType>(t)) walk(x);
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) walk(d->getVariable()->getType());
}
const FnInfo &Engine::info(const Function *F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    FnInfo &fi = fns[F];
    fi.F = F; fi.name = fname(F);
    auto add = [&](const Value *v) { fi.id[v] = (int)fi.val.size(); fi.val.push_back(v); };
    for (auto &a : F->args()) add(&a);
    for (auto &I : instructions(*F)) if (!I.getType()->isVoidTy()) add(&I);
    ReversePostOrderTraversal<const Function *> rpot(F);
    for (auto *bb : rpot) { fi.ord[bb] = (int)fi.rpo.size(); fi.rpo.push_back(bb); }
    for (auto *bb : fi.rpo) for (auto *s : successors(bb)) if (fi.ord[s] <= fi.ord[bb]) fi.head.insert(s);
    for (auto *h : fi.head) {   // where control leaves a loop
        std::set<const BasicBlock *> body{h};
        std::vector<const BasicBlock *> w;
        for (auto *p : predecessors(h)) if (fi.ord.count(p) && fi.ord[p] >= fi.ord[h] && body.insert(p).second) w.push_back(p);
        while (!w.empty()) { auto *b = w.back(); w.pop_back(); for (auto *p : predecessors(b)) if (fi.ord.count(p) && body.insert(p).second) w.push_back(p); }
        for (auto *b : body) for (auto *t : successors(b)) if (!body.count(t)) fi.exitB.insert(t);
    }
    // liveness
    std::map<const BasicBlock *, std::set<int>> in;
    auto use = [&](const Value *v, std::set<int> &l) { auto j = fi.id.find(v); if (j != fi.id.end()) l.insert(j->second); };
    bool ch = true;
    auto outOf = [&](const BasicBlock *bb) {
        std::set<int> l;
        for (auto *s : successors(bb)) {
            for (int v : in[s]) l.insert(v);
            for (auto &p : s->phis()) use(p.getIncomingValueForBlock(bb), l);
        }
        return l;
    };
    while (ch) {
        ch = false;
        for (auto i = fi.rpo.rbegin(); i != fi.rpo.rend(); ++i) {
            auto *bb = *i;
            std::set<int> l = outOf(bb);
            for (auto r = bb->rbegin(); r != bb->rend(); ++r) {
                auto j = fi.id.find(&*r);
                if (j != fi.id.end()) l.erase(j->second);
                if (isa<PHINode>(*r) || isa<DbgInfoIntrinsic>(*r)) continue;
                for (auto &o : r->operands()) use(o.get(), l);
            }
            if (l != in[bb]) { in[bb] = l; ch = true; }
        }
    }
    for (auto *bb : fi.rpo) {
        fi.liveIn[bb] = std::vector<int>(in[bb].begin(), in[bb].end());
        std::set<int> l = outOf(bb);
        for (auto r = bb->rbegin(); r != bb->rend(); ++r) {
            auto j = fi.id.find(&*r);
            if (j != fi.id.end()) l.erase(j->second);
            if (isa<CallBase>(*r) && !isa<DbgInfoIntrinsic>(*r)) fi.liveAfter[&*r] = std::vector<int>(l.begin(), l.end());
            if (isa<PHINode>(*r) || isa<DbgInfoIntrinsic>(*r)) continue;
            for (auto &o : r->operands()) use(o.get(), l);
        }
    }
    slotLiveness(fi);
    return fi;
}
// Does F keep a copy of pointer argument k anywhere?
bool Engine::captures(const Function *F, unsigned k, int depth) {
    if (F->isIntrinsic()) return false;
    if (F->isDeclaration() || F->isVarArg() || k >= F->arg_size()) return true;
    auto key = std::make_pair(F, k);
    auto it = capMemo.find(key);
    if (it != capMemo.end()) return it->second;
    capMemo[key] = 1;
    if (depth > 6) return true;
    const Argument *a = F->getArg(k);
    bool cap = false;
    for (auto *u : a->users()) {
        if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
        if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getPointerOperand() == a && st->getValueOperand() != a) continue; cap = true; break; }
        if (auto *c = dyn_cast<CallBase>(u)) {
            const Function *G = c->getCalledFunction();
            if (!G) { cap = true; break; }
            for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i) == a && captures(G, i, depth + 1)) cap = true;
            if (cap) break;
            continue;
        }
        cap = true; break;
    }
    capMemo[key] = cap;
    return cap;
}
// Is *argument k always set, and never looked at before, when F returns?
bool Engine::outParam(const Function *F, unsigned k, int depth) {
    if (F->isDeclaration() || F->isVarArg() || k >= F->arg_size()) return false;
    auto key = std::make_pair(F, k);
    auto it = outMemo.find(key);
    if (it != outMemo.end()) return it->second;
    outMemo[key] = 0;
    if (depth > 6 || captures(F, k)) return false;
    const Argument *a = F->getArg(k);
    // maybe-unwritten on entry to each block
    std::set<const BasicBlock *> un{&F->getEntryBlock()};
    std::vector<const BasicBlock *> w{&F->getEntryBlock()};
    bool ok = true;
    while (!w.empty() && ok) {
        auto *bb = w.back(); w.pop_back();
        bool unw = true;
        for (auto &I : *bb) {
            if (!unw) break;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->getPointerOperand() == a) { ok = false; break; } }
            else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->getPointerOperand() == a) unw = false; }
            else if (auto *C = dyn_cast<CallBase>(&I)) {
                for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == a) { if (C->getCalledFunction() && outParam(C->getCalledFunction(), i, depth + 1)) unw = false; else ok = false; }
            } else if (isa<ReturnInst>(I)) ok = false;
        }
        if (unw && ok) for (auto *s : successors(bb)) if (un.insert(s).second) w.push_back(s);
    }
    outMemo[key] = ok;
    return ok;
}
void Engine::slotLiveness(FnInfo &fi) {
    std::set<const AllocaInst *> cand;
    for (auto &I : instructions(*fi.F)) if (auto *A = dyn_cast<AllocaInst>(&I)) {
        if (A->isArrayAllocation() || !(A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isPointerTy())) continue;
        bool ok = true;
        for (auto *u : A->users()) {
            if (auto *L = dyn_cast<LoadInst>(u)) { (void)L; continue; }
            if (auto *S = dyn_cast<StoreInst>(u)) { if (S->getValueOperand() == A) ok = false; continue; }
            if (auto *C = dyn_cast<CallBase>(u)) {
                const Function *G = C->getCalledFunction();
                if (!G) { ok = false; break; }
                for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == A && captures(G, i)) ok = false;
                continue;
            }
            ok = false;
        }
        if (ok) { cand.insert(A); fi.slots.insert(fi.id.at(A)); }
    }
    if (cand.empty()) return;
    auto isC = [&](const Value *v) { auto *A = dyn_cast<AllocaInst>(v); return A && cand.count(A); };
    std::map<const BasicBlock *, std::set<int>> in;
    auto step = [&](const Instruction &I, std::set<int> &l) {
        if (isa<DbgInfoIntrinsic>(I)) return;
        if (auto *L = dyn_cast<LoadInst>(&I)) { if (isC(L->getPointerOperand())) l.insert(fi.id.at(L->getPointerOperand())); }
        else if (auto *S = dyn_cast<StoreInst>(&I)) { if (isC(S->getPointerOperand())) l.erase(fi.id.at(S->getPointerOperand())); }
        else if (auto *C = dyn_cast<CallBase>(&I)) for (unsigned i = 0; i < C->arg_size(); i++) if (isC(C->getArgOperand(i))) {
            int id = fi.id.at(C->getArgOperand(i));
            if (C->getCalledFunction() && outParam(C->getCalledFunction(), i)) l.erase(id); else l.insert(id);
        }
    };
    bool ch = true;
    auto outOf = [&](const BasicBlock *bb) { std::set<int> l; for (auto *s : successors(bb)) l.insert(in[s].begin(), in[s].end()); return l; };
    while (ch) {
        ch = false;
        for (auto i = fi.rpo.rbegin(); i != fi.rpo.rend(); ++i) {
            std::set<int> l = outOf(*i);
            for (auto r = (*i)->rbegin(); r != (*i)->rend(); ++r) step(*r, l);
            if (l != in[*i]) { in[*i] = l; ch = true; }
        }
    }
    for (auto *bb : fi.rpo) {
        fi.slotIn[bb] = in[bb];
        std::set<int> l = outOf(bb);
        for (auto r = bb->rbegin(); r != bb->rend(); ++r) {
            if (isa<CallBase>(*r) && !isa<DbgInfoIntrinsic>(*r)) {
                std::set<int> l2 = l;   // needed after the call, or written by it
                for (auto &a : cast<CallBase>(*r).args()) if (isC(a.get())) l2.insert(fi.id.at(a.get()));
                fi.slotAfter[&*r] = l2;
            }
            step(*r, l);
        }
    }
}
void Engine::dropDeadSlots(State &st, const FnInfo &fi, const std::set<int> &live) {
    for (auto &p : st.fr.back().env) if (fi.slots.count(p.first) && !live.count(p.first) && p.second.k == VP) {
        const Obj *o = get(st, p.second.obj);
        if (o && o->kind == O_STACK && (!o->cells.empty() || o->bulk)) { Obj &m = mut(st, p.second.obj); m.cells.clear(); m.bulk = false; m.zero.clear(); }
    }
}

// A kernel only reads and writes numbers in the buffers its arguments point
// to: no allocation, release, pointer traffic through memory, callbacks or
// process-wide state. Its effect is summarised by which arguments it reads and
// which it writes.
static bool numericPointee(const DIType *t, int depth = 0) {
    t = strip(t);
    if (!t || depth > 3) return false;
    if (isa<DIBasicType>(t)) return true;
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) return numericPointee(c->getBaseType(), depth + 1);
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) return true;
        if (c->getTag() == dwarf::DW_TAG_structure_type && c->getSizeInBits() <= 64) {
            for (auto *e : c->getElements()) { auto *m = dyn_cast<DIDerivedType>(e); if (!m || m->getTag() != dwarf::DW_TAG_member || !numericPointee(m->getBaseType(), depth + 1)) return false; }
            return true;
        }
    }
    return false;
}
std::string baseStruct(Type *t);
// a table no code writes to
static bool neverWritten(const GlobalVariable *g) {
    if (!g->hasLocalLinkage() || !g->hasInitializer()) return false;
    std::vector<const Value *> w{g};
    std::set<const Value *> seen;
    while (!w.empty()) {
        const Value *v = w.back(); w.pop_back();
        if (!seen.insert(v).second) continue;
        for (auto *u : v->users()) {
            if (isa<LoadInst>(u)) continue;
            if (isa<GetElementPtrInst>(u) || isa<ConstantExpr>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { w.push_back(u); continue; }
            if (auto *ci = dyn_cast<CallBase>(u)) { auto *f = ci->getCalledFunction(); if (f && f->isIntrinsic() && !ci->mayWriteToMemory()) continue; if (f && !f->isDeclaration()) { bool ok = true; for (unsigned k = 0; k < ci->arg_size(); k++) if (ci->getArgOperand(k) == v) { if (k < f->arg_size()) w.push_back(f->getArg(k)); else ok = false; } if (ok) continue; } }
            return false;
        }
    }
    return true;
}
bool Engine::kernelOf(const Function *F, int depth) {
    auto no = [&](int l) { if (getenv("KDBG") && F) fprintf(stderr, "not a kernel: %s (%d)\n", fname(F).c_str(), l); return false; };
    if (noKernels || F->isDeclaration()) return false;
    info(F);
    if (fns[F].kernel >= 0) return fns[F].kernel == 1;
    fns[F].kernel = 0;
    if (F->isDeclaration() || depth > 8 || F->isVarArg()) return no(__LINE__);
    // a few scalar operations are better interpreted
    if (F->getReturnType()->isIntegerTy() && F->size() <= 8) {
        bool scalar = true;
        std::set<const BasicBlock *> seenB;
        for (auto &bb : *F) { seenB.insert(&bb); for (auto &I : bb) { if (isa<DbgInfoIntrinsic>(I)) continue; if (I.mayReadOrWriteMemory() || isa<CallBase>(I) || isa<AllocaInst>(I) || isa<ExtractElementInst>(I)) scalar = false; if (I.isTerminator()) for (unsigned q = 0; q < I.getNumSuccessors(); q++) if (seenB.count(I.getSuccessor(q))) scalar = false; } }
        if (scalar) return no(__LINE__);
    }
    auto *sp = F->getSubprogram();
    if (!sp || !sp->getType() || F->getReturnType()->isPointerTy()) return no(__LINE__);
    auto ta = sp->getType()->getTypeArray();
    size_t na = F->arg_size();
    if (na > 14) return no(__LINE__);
    std::vector<std::string> kind(na);
    unsigned np = 0;
    for (auto &a : F->args()) {
        if (a.hasStructRetAttr()) { if (!ta.size() || !numericPointee(ta[0])) return no(__LINE__); continue; }
        np++;
        if (!a.getType()->isPointerTy()) continue;
        if (np >= ta.size()) return no(__LINE__);
        if (a.hasByValAttr()) { if (!numericPointee(ta[np])) return no(__LINE__); continue; }
        const DIType *pt = pointee(ta[np]);
        if (!pt) continue;   // void *: a plain buffer as long as only numbers go through it
        std::string sn = structName(pt);
        if (sn == "bitset_container_s" || sn == "array_container_s" || sn == "run_container_s") kind[a.getArgNo()] = sn;
        else if (!numericPointee(pt)) return no(__LINE__);
    }
    // where pointers come from: bit i argument i, bit 20+i storage argument i points to, 60 local, 61 other, 62 constant
    std::vector<char> mod(na, 0), ref(na, 0), dmod(na, 0), dref(na, 0);
    std::vector<std::map<int64_t, int>> rd(na), wr(na), pt(na);
    std::map<const Value *, uint64_t> org;
    unsigned i = 0;
    for (auto &a : F->args()) { if (a.getType()->isPointerTy()) org[&a] = 1ull << i; i++; }
    const uint64_t LOCAL = 1ull << 60, OTHER = 1ull << 61, CONSTG = 1ull << 62;
    auto get = [&](const Value *v) -> uint64_t {
        if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return LOCAL;
        if (isa<Constant>(v)) { auto *g = dyn_cast<GlobalVariable>(v->stripInBoundsOffsets()); return g && (g->isConstant() || neverWritten(g)) ? CONSTG : OTHER; }
        auto j = org.find(v); return j == org.end() ? 0 : j->second;
    };
    auto constOff = [&](const Value *p, int &arg, int64_t &off) {  // pointer = argument + constant
        APInt o(64, 0);
        const Value *b = p->stripAndAccumulateConstantOffsets(DL, o, true);
        auto *a = dyn_cast<Argument>(b);
        if (!a) return no(__LINE__);
        arg = (int)a->getArgNo(); off = o.getSExtValue();
        return true;
    };
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto &I : instructions(*F)) {
            if (!I.getType()->isPointerTy()) continue;
            uint64_t o = 0;
            if (isa<AllocaInst>(I)) o = LOCAL;
            else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) o = get(g->getPointerOperand());
            else if (auto *p = dyn_cast<PHINode>(&I)) for (auto &v : p->incoming_values()) o |= get(v.get());
            else if (auto *s = dyn_cast<SelectInst>(&I)) o = get(s->getTrueValue()) | get(s->getFalseValue());
            else if (isa<IntrinsicInst>(I)) o = 0;
            else if (auto *C = dyn_cast<CallBase>(&I)) { if (!I.use_empty()) return no(__LINE__); (void)C; continue; }
            else if (auto *L = dyn_cast<LoadInst>(&I)) {
                int a; int64_t off;
                if (L->isAtomic() || !constOff(L->getPointerOperand(), a, off) || kind[a].empty()) return no(__LINE__);
                o = 1ull << (20 + a);
                pt[a][off] = 8;
            }
            else return no(__LINE__);
            if (o != org[&I]) { org[&I] = o; ch = true; }
        }
    }
    auto touch = [&](const Value *p, bool w, int size) {
        uint64_t o = get(p);
        if (o & OTHER) return no(__LINE__);
        if (w && (o & CONSTG)) return no(__LINE__);
        for (unsigned k = 0; k < na; k++) {
            if (o >> k & 1) {
                (w ? mod : ref)[k] = 1;
                if (!kind[k].empty()) {
                    int a; int64_t off;
                    if (!constOff(p, a, off) || a != (int)k || size <= 0 || size > 8) return no(__LINE__);
                    (w ? wr : rd)[k][off] = size;
                }
            }
            if (o >> (20 + k) & 1) (w ? dmod : dref)[k] = 1;
        }
        return true;
    };
    for (auto &I : instructions(*F)) {
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            std::string sn = baseStruct(g->getSourceElementType());
            uint64_t o = get(g->getPointerOperand());
            if (tagOfStruct.count(sn)) for (unsigned k = 0; k < na; k++) { if ((o >> k & 1) && kind[k] != sn) return no(__LINE__); if (o >> (20 + k) & 1) return no(__LINE__); }
        }
        else if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (L->isAtomic()) return no(__LINE__);
            if (L->getType()->isPointerTy()) continue;
            if (!touch(L->getPointerOperand(), false, (int)DL.getTypeStoreSize(L->getType()).getFixedValue())) return no(__LINE__);
        }
        else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic() || S->getValueOperand()->getType()->isPointerTy() || !touch(S->getPointerOperand(), true, (int)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue())) return no(__LINE__); }
        else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return no(__LINE__);
        else if (isa<DbgInfoIntrinsic>(I)) continue;
        else if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy()) return no(__LINE__); }
        else if (auto *C = dyn_cast<CallBase>(&I)) {
            const Function *G = C->getCalledFunction();
            if (C->isInlineAsm()) { for (auto &a : C->args()) if (a->getType()->isPointerTy() && (!touch(a.get(), true, 0) || !touch(a.get(), false, 0))) return no(__LINE__); continue; }
            if (!G) return no(__LINE__);
            std::string n = fname(G);
            if (G->isIntrinsic()) {
                auto id = G->getIntrinsicID();
                if (id == Intrinsic::memcpy || id == Intrinsic::memmove || id == Intrinsic::memcpy_inline) { if (!touch(C->getArgOperand(0), true, 0) || !touch(C->getArgOperand(1), false, 0)) return no(__LINE__); continue; }
                for (auto &a : C->args()) if (a->getType()->isPointerTy() && !touch(a.get(), C->mayWriteToMemory(), 0)) return no(__LINE__);
                continue;
            }
            if (n == "memcpy" || n == "memmove" || n == "memcmp" || n == "memset") { for (unsigned k = 0; k < 2; k++) if (C->getArgOperand(k)->getType()->isPointerTy() && !touch(C->getArgOperand(k), k == 0 && n != "memcmp", 0)) return no(__LINE__); continue; }
            if (n == "croaring_hardware_support") continue;
            if (n == "__assert_fail") { std::string e; return no(__LINE__); }
            if (!kernelOf(G, depth + 1)) return no(__LINE__);
            const FnInfo &gi = fns[G];
            for (unsigned k = 0; k < C->arg_size(); k++) if (C->getArgOperand(k)->getType()->isPointerTy()) {
                const Value *av = C->getArgOperand(k);
                if (!gi.argKind[k].empty()) {
                    // a container handed on whole: its effects become ours
                    if (get(av) & (OTHER | CONSTG)) return no(__LINE__);
                    if (get(av) == LOCAL) continue;
                    auto *ar = dyn_cast<Argument>(av);
                    if (!ar || kind[ar->getArgNo()] != gi.argKind[k]) return no(__LINE__);
                    unsigned a = ar->getArgNo();
                    mod[a] |= gi.argMod[k]; ref[a] |= gi.argRef[k]; dmod[a] |= gi.deepMod[k]; dref[a] |= gi.deepRef[k];
                    for (auto &p : gi.rdAt[k]) rd[a].insert(p);
                    for (auto &p : gi.wrAt[k]) wr[a].insert(p);
                    for (auto &p : gi.ptrAt[k]) pt[a].insert(p);
                    continue;
                }
                if (gi.argMod[k] && !touch(av, true, 0)) return no(__LINE__);
                if (gi.argRef[k] && !touch(av, false, 0)) return no(__LINE__);
            }
        }
    }
    FnInfo &f2 = fns[F];
    f2.kernel = 1; f2.argMod = mod; f2.argRef = ref; f2.deepMod = dmod; f2.deepRef = dref; f2.argKind = kind; f2.rdAt = rd; f2.wrAt = wr; f2.ptrAt = pt;
    return true;
}
// ---------------------------------------------------------------- numeric facts
static int64_t sat(__int128 v) { if (v > INF) return INF; if (v < -INF) return -INF; return (int64_t)v; }
static Iv isect(Iv a, Iv b) { return Iv{std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
static Iv scaleIv(Iv a, int64_t k, int64_t c) {
    auto m = [&](int64_t v) -> int64_t { if (v >= INF) return k > 0 ? INF : -INF; if (v <= -INF) return k > 0 ? -INF : INF; return sat((__int128)v * k + c); };
    Iv r{m(a.lo), m(a.hi)};
    if (k < 0) std::swap(r.lo, r.hi);
    return r;
}
// e = k*t + c
static void norm(Exprs &X, EId e, EId &t, int64_t &k, int64_t &c) {
    const ENode n = X.n[e];
    if (n.op != E_LIN) { t = e; k = 1; c = 0; return; }
    c = n.c;
    int64_t g = 0;
    for (auto &p : n.t) { int64_t a = p.second < 0 ? -p.second : p.second; while (a) { int64_t r = g % a; g = a; a = r; } }
    if (!g) { t = -1; k = 0; return; }
    if (n.t[0].second < 0) g = -g;
    std::map<EId, int64_t> m;
    for (auto &p : n.t) m[p.first] = p.second / g;
    t = X.mkLin(m, 0); k = g;
}
static int64_t fdiv(__int128 a, int64_t b) { __int128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return sat(q); }
Iv Engine::range(const State &s, EId e, int depth) {
    int64_t v;
    if (X.isC(e, &v)) return Iv{v, v};
    EId t; int64_t k, c;
    norm(X, e, t, k, c);
    Iv r;
    auto f = s.facts.find(t);
    if (f != s.facts.end()) r = f->second;
    const ENode n = X.n[t];
    switch (n.op) {
        case E_SYM: {
            auto d = s.dom.find(t);
            if (d != s.dom.end() && d->second) {
                int lo = 0, hi = 31; while (!(d->second >> lo & 1)) lo++; while (!(d->second >> hi & 1)) hi--;
                r = isect(r, Iv{lo, hi});
            }
            break; }
        case E_LIN: if (depth < 4) {
            Iv a{0, 0};
            for (auto &p : n.t) {
                Iv q = scaleIv(range(s, p.first, depth + 1), p.second, 0);
                a.lo = (a.lo <= -INF || q.lo <= -INF) ? -INF : sat((__int128)a.lo + q.lo);
                a.hi = (a.hi >= INF || q.hi >= INF) ? INF : sat((__int128)a.hi + q.hi);
            }
            r = isect(r, a);
            // 2^m * (x >> m) is x without its low m bits
            if (depth == 0) for (auto &p : n.t) {
                const ENode q = X.n[p.first];
                int64_t m;
                if (q.op != E_SHR || !X.isC(q.b, &m) || m < 1 || m > 32 || p.second % (1ll << m)) continue;
                int64_t f2 = p.second >> m;
                EId x = q.a, low = X.bin(E_AND, x, X.cst((1ll << m) - 1));
                EId alt = X.add(X.sub(t, X.scale(p.first, p.second)), X.sub(X.scale(x, f2), X.scale(low, f2)));
                if (range(s, x, 1).lo < 0) continue;
                EId rest = X.add(alt, X.scale(low, f2));
                Iv v1 = range(s, rest, 0), v2 = scaleIv(range(s, low, 1), -f2, 0);
                Iv z; z.lo = (v1.lo <= -INF || v2.lo <= -INF) ? -INF : sat((__int128)v1.lo + v2.lo); z.hi = (v1.hi >= INF || v2.hi >= INF) ? INF : sat((__int128)v1.hi + v2.hi);
                r = isect(r, z);
            }
            // a stored fact that differs from this by a single unknown
            if (depth == 0 && n.t.size() >= 2 && (r.lo <= -INF || r.hi >= INF || r.lo < r.hi)) for (auto &fq : s.facts) {
                const ENode &m = X.n[fq.first];
                if (m.op != E_LIN || fq.first == t || m.t.size() > n.t.size() + 1 || n.t.size() > m.t.size() + 1) continue;
                for (int sg : {1, -1}) {
                    // t - sg*m, at most one term
                    EId rt = -1; int64_t rk = 0; int cnt = 0;
                    size_t i = 0, j = 0;
                    while ((i < n.t.size() || j < m.t.size()) && cnt < 2) {
                        EId e; int64_t k;
                        if (j >= m.t.size() || (i < n.t.size() && n.t[i].first < m.t[j].first)) { e = n.t[i].first; k = n.t[i].second; i++; }
                        else if (i >= n.t.size() || m.t[j].first < n.t[i].first) { e = m.t[j].first; k = -sg * m.t[j].second; j++; }
                        else { e = n.t[i].first; k = n.t[i].second - sg * m.t[j].second; i++; j++; }
                        if (k) { cnt++; rt = e; rk = k; }
                    }
                    if (cnt >= 2) continue;
                    int64_t cc = n.c - sg * m.c;
                    Iv q = cnt ? scaleIv(range(s, rt, depth + 1), rk, cc) : Iv{cc, cc};
                    Iv fv = scaleIv(fq.second, sg, 0);
                    Iv z; z.lo = (q.lo <= -INF || fv.lo <= -INF) ? -INF : sat((__int128)q.lo + fv.lo); z.hi = (q.hi >= INF || fv.hi >= INF) ? INF : sat((__int128)q.hi + fv.hi);
                    r = isect(r, z);
                }
            } }
            break;
        case E_LT: case E_EQ: case E_NOT: r = isect(r, Iv{0, 1}); break;
        case E_AND: { int64_t m; if (X.isC(n.b, &m) && m >= 0) r = isect(r, Iv{0, m}); else if (X.isC(n.a, &m) && m >= 0) r = isect(r, Iv{0, m}); break; }
        case E_SHR: { int64_t m; if (X.isC(n.b, &m) && m >= 0 && m < 62) { Iv q = range(s, n.a, depth); if (q.lo >= 0) r = isect(r, Iv{q.lo >> m, q.hi >= INF ? INF : q.hi >> m}); } break; }
        case E_REM: { int64_t m; if (!X.isC(n.b)) { Iv q = range(s, n.a, depth + 1), d = depth < 4 ? range(s, n.b, depth + 1) : Iv{}; if (q.lo >= 0 && d.lo > 0) r = isect(r, Iv{0, d.hi >= INF ? q.hi : std::min(q.hi, d.hi - 1)}); } if (X.isC(n.b, &m) && m > 0) { Iv q = range(s, n.a, depth); r = isect(r, q.lo >= 0 ? Iv{0, m - 1} : Iv{-(m - 1), m - 1}); } break; }
        case E_DIV: { int64_t m; if (X.isC(n.b, &m) && m > 0) { Iv q = range(s, n.a, depth); if (q.lo >= 0) r = isect(r, Iv{q.lo / m, q.hi >= INF ? INF : q.hi / m}); } break; }
        default: break;
    }
    return scaleIv(r, k, c);
}
// Linear facts over at most three unknowns tighten the unknowns themselves.
bool Engine::tighten(State &s, EId t) {
    const ENode n = X.n[t];
    if (n.op != E_LIN || n.t.size() < 2 || n.t.size() > 3) return true;
    auto f = s.facts.find(t);
    if (f == s.facts.end()) return true;
    Iv F = f->second;
    for (auto &p : n.t) {
        Iv rest{n.c, n.c};
        for (auto &q : n.t) if (q.first != p.first) {
            Iv r = scaleIv(range(s, q.first), q.second, 0);
            rest.lo = (rest.lo <= -INF || r.lo <= -INF) ? -INF : sat((__int128)rest.lo + r.lo);
            rest.hi = (rest.hi >= INF || r.hi >= INF) ? INF : sat((__int128)rest.hi + r.hi);
        }
        // p.second * x in [F.lo - rest.hi, F.hi - rest.lo]
        int64_t lo = (F.lo <= -INF || rest.hi >= INF) ? -INF : sat((__int128)F.lo - rest.hi);
        int64_t hi = (F.hi >= INF || rest.lo <= -INF) ? INF : sat((__int128)F.hi - rest.lo);
        Iv now;
        int64_t k = p.second;
        if (k > 0) { if (hi < INF) now.hi = fdiv(hi, k); if (lo > -INF) now.lo = -fdiv(-(__int128)lo, k); }
        else { if (lo > -INF) now.hi = fdiv(-(__int128)lo, -k); if (hi < INF) now.lo = -fdiv((__int128)hi, -k); }
        Iv old = range(s, p.first);
        if (now.lo > old.lo || now.hi < old.hi) {
            auto &g = s.facts[p.first];
            g.lo = std::max(g.lo, now.lo); g.hi = std::min(g.hi, now.hi);
            if (g.lo > g.hi || std::max(old.lo, g.lo) > std::min(old.hi, g.hi)) return false;
        }
    }
    return true;
}
bool Engine::bound(State &s, EId d, bool up, int64_t u) {
    int64_t v;
    if (X.isC(d, &v)) return up ? v <= u : v >= u;
    EId t; int64_t k, c;
    norm(X, d, t, k, c);
    // k*t + c <= u   or >= u
    bool tup = (k > 0) == up;
    __int128 q = (__int128)u - c;
    int64_t b;
    if (tup) b = fdiv(k > 0 ? q : -q, k > 0 ? k : -k);
    else { __int128 qq = k > 0 ? q : -q; int64_t kk = k > 0 ? k : -k; b = -fdiv(-qq, kk); }
    auto &f = s.facts[t];
    if (tup) f.hi = std::min(f.hi, b); else f.lo = std::max(f.lo, b);
    if (f.lo > f.hi) return false;
    Iv r = range(s, t);
    if (r.lo > r.hi) return false;
    if (X.n[t].op == E_LIN) {
        if (!tighten(s, t)) return false;
        const ENode n = X.n[t];
        if (n.t.size() >= 3 && n.t.size() <= 5) {
            // t = p + T: what is known about T follows
            Iv F = s.facts[t];
            for (auto &p : n.t) {
                if (X.n[p.first].op != E_SYM) continue;
                EId T = X.lincomb(t, 1, p.first, -p.second);
                EId tt; int64_t tk, tc;
                norm(X, T, tt, tk, tc);
                auto g = s.facts.find(tt);
                if (g == s.facts.end() || tk == 0) continue;
                Iv r = scaleIv(range(s, p.first), p.second, 0);
                int64_t lo = F.lo <= -INF || r.hi >= INF ? -INF : sat((__int128)F.lo - r.hi), hi = F.hi >= INF || r.lo <= -INF ? INF : sat((__int128)F.hi - r.lo);
                // tk * tt + tc in [lo, hi]
                if (tk < 0) { int64_t a = lo; lo = hi >= INF ? -INF : -hi; hi = a <= -INF ? INF : -a; }
                int64_t k2 = tk < 0 ? -tk : tk, c2 = tk < 0 ? -tc : tc;
                if (lo > -INF) g->second.lo = std::max<int64_t>(g->second.lo, -fdiv(-((__int128)lo - c2), k2));
                if (hi < INF) g->second.hi = std::min<int64_t>(g->second.hi, fdiv((__int128)hi - c2, k2));
                if (g->second.lo > g->second.hi) return false;
            }
        }
    }
    if (X.n[t].op == E_LIN) {
        // longer facts that contain a known two-term combination say something about the rest
        std::vector<std::pair<EId, Iv>> add;
        auto combine = [&](EId L, const Iv &lv, EId S, const Iv &sv) {
            const ENode &m = X.n[L], &n = X.n[S];
            int64_t k0 = 0, k1 = 0;
            for (auto &q : m.t) { if (q.first == n.t[0].first) k0 = q.second; if (q.first == n.t[1].first) k1 = q.second; }
            if (!k0 || !k1 || k0 % n.t[0].second || k0 / n.t[0].second * n.t[1].second != k1) return;
            int64_t sg = k0 / n.t[0].second;
            Iv tv = scaleIv(sv, -sg, 0), z;
            z.lo = (tv.lo <= -INF || lv.lo <= -INF) ? -INF : sat((__int128)tv.lo + lv.lo);
            z.hi = (tv.hi >= INF || lv.hi >= INF) ? INF : sat((__int128)tv.hi + lv.hi);
            if (!z.top()) add.push_back({X.lincomb(L, 1, S, -sg), z});
        };
        auto isLong = [&](EId e) { const ENode &m = X.n[e]; return m.op == E_LIN && m.t.size() >= 3 && m.t.size() <= 5; };
        auto isPair = [&](EId e) { const ENode &m = X.n[e]; return m.op == E_LIN && m.t.size() == 2; };
        std::vector<std::pair<EId, Iv>> fs(s.facts.begin(), s.facts.end());
        Iv T = s.facts[t];
        if (isPair(t)) { for (auto &q : fs) if (isLong(q.first)) combine(q.first, q.second, t, T); }
        else if (isLong(t)) { for (auto &q : fs) if (isPair(q.first)) combine(t, T, q.first, q.second); }
        for (auto &a : add) {
            Iv now = range(s, a.first);
            if (std::max(now.lo, a.second.lo) > std::min(now.hi, a.second.hi)) return false;
            EId tt; int64_t tk, tc;
            norm(X, a.first, tt, tk, tc);
            if (tk == 0 || (now.lo >= a.second.lo && now.hi <= a.second.hi)) continue;
            int64_t lo = a.second.lo, hi = a.second.hi;
            if (tk < 0) { int64_t q = lo; lo = hi >= INF ? -INF : -hi; hi = q <= -INF ? INF : -q; tk = -tk; tc = -tc; }
            auto &g = s.facts[tt];
            if (lo > -INF) g.lo = std::max<int64_t>(g.lo, -fdiv(-((__int128)lo - tc), tk));
            if (hi < INF) g.hi = std::min<int64_t>(g.hi, fdiv((__int128)hi - tc, tk));
            if (g.lo > g.hi) return false;
        }
    }
    else if (X.n[t].op == E_SYM) {
        std::vector<EId> rel;
        for (auto &q : s.facts) { const ENode &n = X.n[q.first]; if (n.op == E_LIN) for (auto &p : n.t) if (p.first == t) { rel.push_back(q.first); break; } }
        for (EId q : rel) if (!tighten(s, q)) return false;
    }
    auto dm = s.dom.find(t);
    if (dm != s.dom.end()) {
        unsigned m = 0;
        for (int i = 0; i < 32; i++) if ((dm->second >> i & 1) && i >= f.lo && i <= f.hi) m |= 1u << i;
        if (!m) return false;
        dm->second = m;
        if (!(m & (m - 1))) substConst(s, t, __builtin_ctz(m));
    } else if (X.n[t].op != E_LIN && !X.isBool(t)) {
        Iv r = range(s, t);
        if (r.lo == r.hi) substConst(s, t, r.lo);
    }
    return true;
}
bool Engine::assume(State &s, EId e, bool truth) {
    int64_t v;
    if (X.isC(e, &v)) return (v != 0) == truth;
    const ENode n = X.n[e];
    if (n.op == E_NOT) return assume(s, n.a, !truth);
    if (n.op == E_LT) return truth ? bound(s, n.a, true, -1) : bound(s, n.a, false, 0);
    if (n.op == E_EQ) {
        // addresses of two different objects are different
        { const ENode &d = X.n[n.a]; if (d.op == E_LIN && d.t.size() == 2 && d.c == 0 && X.n[d.t[0].first].op == E_ADDR && X.n[d.t[1].first].op == E_ADDR && d.t[0].second + d.t[1].second == 0) return !truth; }
        auto known = s.facts.find(e);
        if (known != s.facts.end() && known->second.hi == 0) return !truth;
        if (truth) {
            if (!(bound(s, n.a, true, 0) )) return false;
            // the first bound may have rewritten the state; the expression is still valid for facts
            return bound(s, n.a, false, 0);
        }
        EId t; int64_t k, c;
        norm(X, n.a, t, k, c);
        if (k == 0) return c != 0;
        if (c % k) return true;
        int64_t x = -c / k;
        auto dm = s.dom.find(t);
        if (dm != s.dom.end()) {
            if (x >= 0 && x < 32) dm->second &= ~(1u << x);
            unsigned m = dm->second;
            if (!m) return false;
            if (!(m & (m - 1))) substConst(s, t, __builtin_ctz(m));
            return true;
        }
        Iv r = range(s, t);
        if (r.lo == x && r.hi == x) return false;
        if (r.lo == x) return bound(s, t, false, x + 1);
        if (r.hi == x) return bound(s, t, true, x - 1);
        // keep "is not" for plain unknowns compared with a constant
        if (X.n[t].op == E_SYM && r.lo < x && x < r.hi) s.facts[e] = Iv{0, 0};
        return true;
    }
    if (X.isBool(e)) return true;
    // plain number used as a condition
    Iv r = range(s, e);
    if (r.lo == 0 && r.hi == 0) return !truth;
    if (r.lo > 0 || r.hi < 0) return truth;
    return assume(s, X.eq0(e), !truth);
}
EId Engine::simp(const State &s, EOp op, EId a, EId b) {
    int64_t va, vb;
    bool ca = X.isC(a, &va), cb = X.isC(b, &vb);
    switch (op) {
        case E_AND:
            if (ca && cb) return X.cst(va & vb);
            if (ca) { std::swap(a, b); std::swap(va, vb); std::swap(ca, cb); }
            if (a == b) return a;
            if (cb && vb == 0) return b;
            if (cb && vb == -1) return a;
            if (cb && vb > 0 && (vb & (vb + 1)) == 0) {
                const ENode n = X.n[a];
                if (n.op == E_LIN) {
                    std::map<EId, int64_t> m;
                    int64_t k = vb + 1;
                    for (auto &p : n.t) if (p.second % k) m[p.first] = p.second;
                    EId rem = X.mkLin(m, n.c & vb);
                    Iv q = range(s, rem);
                    if (rem != a && q.lo >= 0 && q.hi <= vb) return rem;
                }
                Iv r = range(s, a);
                if (r.lo >= 0 && r.hi <= vb) return a;
                if (n.op == E_AND) { int64_t m2; if (X.isC(n.b, &m2) && m2 >= 0) return simp(s, E_AND, n.a, X.cst(m2 & vb)); }
            }
            // bool and
            if (cb && vb == 1 && X.isBool(a)) return a;
            break;
        case E_OR:
            if (ca && cb) return X.cst(va | vb);
            if (ca) { std::swap(a, b); std::swap(va, vb); std::swap(ca, cb); }
            if (cb && vb == 0) return a;
            if (a == b) return a;
            { // disjoint low bits
                for (int k : {8, 16, 32}) {
                    auto mult = [&](EId x) { const ENode n = X.n[x]; if (n.op != E_LIN) return false; for (auto &p : n.t) if (p.second % (1ll << k)) return false; return n.c % (1ll << k) == 0; };
                    auto small = [&](EId x) { Iv r = range(s, x); return r.lo >= 0 && r.hi < (1ll << k); };
                    if ((mult(a) && small(b)) || (mult(b) && small(a))) return X.add(a, b);
                }
            }
            break;
        case E_XOR:
            if (ca && cb) return X.cst(va ^ vb);
            if (ca) { std::swap(a, b); std::swap(va, vb); std::swap(ca, cb); }
            if (cb && vb == 0) return a;
            if (a == b) return X.cst(0);
            if (cb && vb == -1) return X.sub(X.cst(-1), a);
            if (cb && vb == 1 && X.isBool(a)) return X.notE(a);
            break;
        case E_SHL:
            if (cb && vb >= 0 && vb < 48) return X.scale(a, 1ll << vb);
            if (ca && va == 0) return a;
            break;
        case E_SHR:
            if (ca && cb && vb >= 0 && vb < 64) return X.cst(va >> vb);
            if (cb && vb == 0) return a;
            if (cb && vb > 0 && vb < 48) {
                const ENode n = X.n[a];
                int64_t k = 1ll << vb;
                if (n.op == E_LIN) {
                    std::map<EId, int64_t> q, m;
                    for (auto &p : n.t) { if (p.second % k) m[p.first] = p.second; else q[p.first] = p.second / k; }
                    int64_t cq = n.c >= 0 ? n.c / k : -((-n.c + k - 1) / k);
                    EId rem = X.mkLin(m, n.c - cq * k);
                    Iv r = range(s, rem);
                    if (!q.empty() && r.lo >= 0 && r.hi < k) return X.mkLin(q, cq);
                }
                Iv r = range(s, a);
                if (r.lo >= 0 && r.hi < k) return X.cst(0);
            }
            break;
        case E_DIV:
            if (ca && cb && vb) return X.cst(va / vb);
            if (cb && vb == 1) return a;
            if (cb && vb > 1) { EId o; if (divLin(a, vb, o)) return o; }
            break;
        case E_REM:
            if (ca && cb && vb) return X.cst(va % vb);
            if (cb && vb > 0) { Iv r = range(s, a); if (r.lo >= 0 && r.hi < vb) return a; EId o; if (divLin(a, vb, o)) return X.cst(0); }
            break;
        default: break;
    }
    if ((op == E_AND || op == E_OR || op == E_XOR) && !X.isC(b) && a > b) std::swap(a, b);
    return X.bin(op, a, b);
}
bool Engine::divLin(EId e, int64_t k, EId &out) {
    if (k == 1) { out = e; return true; }
    const ENode n = X.n[e];
    if (n.op != E_LIN) return false;
    if (n.c % k) return false;
    std::map<EId, int64_t> m;
    for (auto &p : n.t) { if (p.second % k) return false; m[p.first] = p.second / k; }
    out = X.mkLin(m, n.c / k);
    return true;
}
EId Engine::mapE(EId e, const std::function<EId(EId)> &leaf, std::unordered_map<EId, EId> &memo) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    const ENode n = X.n[e];
    EId r = e;
    static State empty;
    switch (n.op) {
        case E_SYM: case E_ADDR: r = leaf(e); break;
        case E_LIN: {
            if (n.t.empty()) break;
            std::map<EId, int64_t> m; int64_t c = n.c;
            for (auto &p : n.t) { EId q = mapE(p.first, leaf, memo); X.lin(q, p.second, m, c); }
            r = X.mkLin(m, c); break; }
        case E_NOT: r = X.notE(mapE(n.a, leaf, memo)); break;
        case E_LT: r = X.lt0(mapE(n.a, leaf, memo)); break;
        case E_EQ: r = X.eq0(mapE(n.a, leaf, memo)); break;
        case E_MUL: r = X.mul(mapE(n.a, leaf, memo), mapE(n.b, leaf, memo)); break;
        default: {
            EId a = mapE(n.a, leaf, memo), b = mapE(n.b, leaf, memo);
            r = (a == n.a && b == n.b) ? e : simp(empty, n.op, a, b); }
    }
    memo[e] = r;
    return r;
}
void Engine::mapState(State &s, const std::function<EId(EId)> &leaf, EId opq, EId opqTo) {
    std::unordered_map<EId, EId> memo;
    if (opq >= 0) memo[opq] = opqTo;
    auto me = [&](EId e) -> EId { return e < 0 ? e : mapE(e, leaf, memo); };
    std::function<void(Val &)> mv = [&](Val &v) {
        if (v.k == VI || v.k == VP) v.e = me(v.e);
        if (v.k == VA) { bool d = false; for (auto &x : *v.agg) { Val y = x; mv(y); if (!y.same(x)) d = true; } if (d) { auto n = std::make_shared<std::vector<Val>>(*v.agg); for (auto &x : *n) mv(x); v.agg = n; } }
    };
    for (auto &f : s.fr) for (auto &p : f.env) mv(p.second);
    mv(s.ret);
    for (auto &w : s.wit) mv(w);
    std::vector<int> ids;
    for (auto &h : s.heap) ids.push_back(h.first);
    for (int id : ids) {
        const Obj &o = *s.heap[id];
        bool d = me(o.tag) != o.tag || me(o.ownerOff) != o.ownerOff || me(o.size) != o.size || me(o.lazyDelta) != o.lazyDelta;
        if (!d) for (auto &c : o.cells) {
            Val v = c.second.v, w = c.second.init; mv(v); mv(w);
            if (me(c.first) != c.first || !v.same(c.second.v) || !w.same(c.second.init)) { d = true; break; }
        }
        if (!d) for (auto &c : o.copies) if (me(c.dst) != c.dst || me(c.srcOff) != c.srcOff) d = true;
        for (auto *l : {&o.mvC, &o.mvT, &o.mvK}) for (auto &p : *l) if (me(p.first) != p.first || me(p.second) != p.second) d = true;
        if (!d) continue;
        Obj &m = mut(s, id);
        m.tag = me(m.tag); m.ownerOff = me(m.ownerOff); m.size = me(m.size); m.lazyDelta = me(m.lazyDelta);
        std::map<EId, Cell> nc;
        for (auto &c : m.cells) { Cell x = c.second; mv(x.v); mv(x.init); nc[me(c.first)] = x; }
        m.cells = nc;
        for (auto &c : m.copies) { c.dst = me(c.dst); c.srcOff = me(c.srcOff); }
        for (auto *l : {&m.mvC, &m.mvT, &m.mvK}) for (auto &p : *l) { p.first = me(p.first); p.second = me(p.second); }
    }
    std::map<EId, Iv> nf;
    for (auto &f : s.facts) {
        EId e = me(f.first);
        if (e == f.first) { auto i = nf.find(e); if (i == nf.end()) nf[e] = f.second; else i->second = isect(i->second, f.second); continue; }
        EId t; int64_t k, c;
        norm(X, e, t, k, c);
        if (k == 0) continue;
        Iv iv = f.second;
        Iv r;
        if (k > 0) { if (iv.hi < INF) r.hi = fdiv((__int128)iv.hi - c, k); if (iv.lo > -INF) r.lo = -fdiv(-((__int128)iv.lo - c), k); }
        else { if (iv.lo > -INF) r.hi = fdiv(-((__int128)iv.lo - c), -k); if (iv.hi < INF) r.lo = -fdiv((__int128)iv.hi - c, -k); }
        auto i = nf.find(t);
        if (i == nf.end()) nf[t] = r; else i->second = isect(i->second, r);
    }
    s.facts = nf;
}
void Engine::substConst(State &s, EId sym, int64_t v) {
    EId c = X.cst(v);
    s.dom.erase(sym);
    s.facts.erase(sym);
    mapState(s, [&](EId x) { return x == sym ? c : x; }, sym, c);
}
EId Engine::domSym(State &s, const std::string &nm, unsigned mask) {
    if (!(mask & (mask - 1))) return X.cst(__builtin_ctz(mask));
    EId e = X.fresh(nm);
    s.dom[e] = mask;
    return e;
}
bool Engine::findDom(const State &s, EId e, EId &out) {
    bool found = false;
    if (s.dom.empty()) return false;
    X.syms(e, [&](EId x) { if (!found && s.dom.count(x)) { found = true; out = x; } });
    return found;
}
