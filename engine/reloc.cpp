// reloc: pointers into the node arrays of the index of 64-bit bitmaps.
// The arrays (art_s.nodes[t], one for each type of node) move when a node of
// that type is created. A pointer obtained before must not be used after,
// unless it certainly points to a node of another type.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <deque>
#include <map>
#include <set>
#include <string>
using namespace llvm;
std::string fname(const Function *F);
std::string loc(const Instruction *I);
void finding(const std::string &rule, const std::string &fn, const std::string &where, const std::string &msg, const std::string &stack = "");
void stat(const std::string &k, long v);
void note(const std::string &k, const std::string &v);
namespace {
typedef unsigned char Mask;
const Mask ANY = 0x3e, INNER = 0x3c;
const int NC = 9;                         // 0: always; k+1: unless parameter k is a node created a moment ago
struct Eff { int cond; Mask m; int param; bool operator<(const Eff &o) const { return std::tie(cond, m, param) < std::tie(o.cond, o.m, o.param); } };
struct Src { const Value *v; Mask m; };   // where a pointer comes from, and what the path there says about the type
struct Sum {
    std::set<Eff> eff;
    Mask ret = 0; std::set<unsigned> retParam; std::map<unsigned, std::array<Mask, NC>> retAge;
    std::map<unsigned, Mask> access;                                     // parameter -> types it is accessed as
    std::map<std::pair<unsigned, int>, std::pair<Mask, std::string>> ua; // (parameter, condition) -> accessed after the array of these types moved
    std::map<int, std::set<std::string>> cf;                             // condition -> finding that depends on it
    int itParam = -1; bool setsIt = false;                                                 // refreshes iterator->value on every path
};
struct Mover {
    Module &M; std::map<const Function *, Sum> S; bool changed = false;
    StructType *artT = nullptr; int nodesF = -1; std::map<const StructType *, Mask> ty; StructType *itT = nullptr; int valF = -1;
    std::map<std::string, std::set<std::string>> out; long nacc = 0, nfn = 0, nit = 0;
    Mover(Module &m) : M(m) {}

    bool setup() {
        for (auto *T : M.getIdentifiedStructTypes()) {
            StringRef n = T->getName();
            if (n == "struct.art_s") artT = T;
            if (n == "struct.art_leaf_s") ty[T] = 1 << 1;
            if (n == "struct.art_node4_s") ty[T] = 1 << 2;
            if (n == "struct.art_node16_s") ty[T] = 1 << 3;
            if (n == "struct.art_node48_s") ty[T] = 1 << 4;
            if (n == "struct.art_node256_s") ty[T] = 1 << 5;
            if (n == "struct.art_inner_node_s") ty[T] = INNER;
            if (n == "struct.art_iterator_s") itT = T;
        }
        if (!artT || ty.size() < 6) return false;
        for (unsigned i = 0; i < artT->getNumElements(); i++) if (auto *a = dyn_cast<ArrayType>(artT->getElementType(i))) if (a->getElementType()->isPointerTy()) nodesF = i;
        // art_iterator_s: the pointer named "value"
        if (itT) { DebugInfoFinder D; D.processModule(M); for (auto *t : D.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getName() == "art_iterator_s") { int k = 0; for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) { if (d->getName() == "value") valF = k; k++; } } }
        return nodesF >= 0;
    }
    // address of art->nodes[idx]? the index, or null for "the array itself"
    bool nodesSlot(const Value *p, const Value *&idx) {
        auto *g = dyn_cast<GEPOperator>(p);
        idx = nullptr;
        while (g) {
            if (g->getSourceElementType() == artT) {
                if (g->getNumOperands() < 3) return false;
                auto *c = dyn_cast<ConstantInt>(g->getOperand(2));
                if (!c || (int)c->getZExtValue() != nodesF) return false;
                if (g->getNumOperands() > 3) idx = g->getOperand(3);
                return true;
            }
            if (isa<ArrayType>(g->getSourceElementType()) && g->getNumOperands() == 3) { idx = g->getOperand(2); }
            else if (g->getSourceElementType()->isPointerTy() && g->getNumOperands() == 2) idx = g->getOperand(1);
            else return false;
            p = g->getPointerOperand(); g = dyn_cast<GEPOperator>(p);
        }
        return false;
    }
    static const Value *strip(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }
    void idxTypes(const Value *v, Mask &m, std::set<int> &params, std::set<const Value *> &seen) {
        v = strip(v);
        if (!seen.insert(v).second) return;
        if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getZExtValue() < 6) m |= 1 << c->getZExtValue(); }
        else if (auto *a = dyn_cast<Argument>(v)) params.insert(a->getArgNo());
        else if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) { idxTypes(u, m, params, seen); } }
        else if (auto *s = dyn_cast<SelectInst>(v)) { idxTypes(s->getTrueValue(), m, params, seen); idxTypes(s->getFalseValue(), m, params, seen); }
        else m = ANY;
    }
    void addEff(std::set<Eff> &o, int cond, const Value *idx) {
        Mask m = 0; std::set<int> ps; std::set<const Value *> seen;
        if (idx) idxTypes(idx, m, ps, seen); else m = ANY;
        if (m) o.insert({cond, (Mask)(m & ANY), -1});
        for (int p : ps) o.insert({cond, 0, p});
    }
    // ---- where pointers come from
    bool holder(const Value *v) { return isa<PHINode>(v) || isa<SelectInst>(v) || isa<Argument>(v) || isa<LoadInst>(v) || isa<CallBase>(v); }
    const Value *state(const Value *v, Mask &m) {   // nearest value whose age is recorded
        m = ANY;
        for (;;) {
            if (auto *g = dyn_cast<GEPOperator>(v)) { if (auto *t = dyn_cast<StructType>(g->getSourceElementType())) { auto i = ty.find(t); if (i != ty.end()) m &= i->second; } v = g->getPointerOperand(); }
            else if (auto *c = dyn_cast<BitCastOperator>(v)) v = c->getOperand(0);
            else if (auto *i = dyn_cast<IntToPtrInst>(v)) { v = i->getOperand(0); if (auto *p = dyn_cast<PtrToIntInst>(v)) v = p->getOperand(0); else return nullptr; }
            else break;
        }
        if (!v->getType()->isPointerTy() || !holder(v)) return nullptr;
        return v;
    }
    void sources(const Value *v, Mask in, std::vector<Src> &o, std::set<const Value *> &seen) {
        Mask m; const Value *h = state(v, m); m &= in;
        if (!h || !m || !seen.insert(h).second) return;
        if (auto *p = dyn_cast<PHINode>(h)) { for (auto &u : p->incoming_values()) sources(u, m, o, seen); return; }
        if (auto *s = dyn_cast<SelectInst>(h)) { sources(s->getTrueValue(), m, o, seen); sources(s->getFalseValue(), m, o, seen); return; }
        if (auto *c = dyn_cast<CallBase>(h)) {
            auto *f = c->getCalledFunction(); if (!f) return;
            auto &q = S[f];
            if (Mask r = q.ret & m) o.push_back({h, r});
            for (unsigned k : q.retParam) if (k < c->arg_size()) sources(c->getArgOperand(k), m, o, seen);
            return;
        }
        if (auto *l = dyn_cast<LoadInst>(h)) {
            const Value *idx; if (!nodesSlot(l->getPointerOperand(), idx)) return;
            Mask t = 0; std::set<int> ps; std::set<const Value *> sn;
            if (idx) idxTypes(idx, t, ps, sn); else t = ANY;
            if (!ps.empty()) t = ANY;
            if (Mask r = t & m) o.push_back({h, r});
            return;
        }
        if (Mask r = m & declared(cast<Argument>(h))) o.push_back({h, r}); // parameter
    }
    Mask declared(const Argument *a) { // what the declaration says the parameter points to
        auto i = decl.find(a); if (i != decl.end()) return i->second;
        Mask r = ANY; auto *F = a->getParent(); auto *sp = F->getSubprogram();
        if (sp && sp->getType()) {
            auto t = sp->getType()->getTypeArray(); unsigned off = F->hasStructRetAttr() ? 1 : 0;
            if (t.size() == F->arg_size() - off + 1 && a->getArgNo() >= off) {
                auto *d = t[a->getArgNo() - off + 1];
                auto named = [&](DIType *x) -> DICompositeType * { for (int n = 0; x && n < 20; n++) { if (auto *c = dyn_cast<DICompositeType>(x)) return c; auto *e = dyn_cast<DIDerivedType>(x); if (!e || e->getTag() == dwarf::DW_TAG_pointer_type) return nullptr; x = e->getBaseType(); } return nullptr; };
                DIType *x = d; for (int n = 0; x && n < 20; n++) { auto *e = dyn_cast<DIDerivedType>(x); if (!e) { x = nullptr; break; } x = e->getBaseType(); if (e->getTag() == dwarf::DW_TAG_pointer_type) break; }
                if (auto *c = x ? named(x) : nullptr) for (auto &kv : ty) if (kv.first->getName() == ("struct." + c->getName()).str()) r = kv.second;
            }
        }
        return decl[a] = r;
    }
    std::map<const Argument *, Mask> decl;
    // is the node this argument points to one that was just created here?
    bool fresh(const Value *a) {
        Mask m; const Value *h = state(a, m);
        if (auto *c = dyn_cast_or_null<CallBase>(h)) if (auto *f = c->getCalledFunction()) {
            auto &q = S[f]; if (!q.ret || !q.retParam.empty()) return false;
            for (auto &e : q.eff) if (e.m & q.ret) return true;
        }
        return false;
    }
    int resolve(const CallBase *c, int cond) { // condition of the callee -> condition here, -1: does not happen
        if (!cond) return 0;
        if (cond - 1 >= (int)c->arg_size()) return 0;
        const Value *a = c->getArgOperand(cond - 1);
        if (fresh(a)) return -1;
        Mask m; const Value *h = state(a, m);
        if (auto *p = dyn_cast_or_null<Argument>(h)) return p->getArgNo() + 1 < NC ? p->getArgNo() + 1 : 0;
        return 0;
    }
    // does a condition over a field of a node parameter decide whether B is reached?
    int guard(const DominatorTree &D, const BasicBlock *B) {
        for (auto *n = D.getNode(B); n && n->getIDom(); n = n->getIDom()) {
            const BasicBlock *d = n->getIDom()->getBlock();
            auto *br = dyn_cast<BranchInst>(d->getTerminator());
            if (!br || !br->isConditional()) continue;
            bool one = false; for (unsigned i = 0; i < 2; i++) if (D.dominates(BasicBlockEdge(d, br->getSuccessor(i)), B)) one = true;
            if (!one) continue;
            std::vector<const Value *> w{br->getCondition()}; std::set<const Value *> seen;
            while (!w.empty()) {
                const Value *v = w.back(); w.pop_back();
                if (!seen.insert(v).second) continue;
                if (auto *l = dyn_cast<LoadInst>(v)) {
                    Mask m; auto *h = state(l->getPointerOperand(), m);
                    if (auto *a = dyn_cast_or_null<Argument>(h)) if (m != ANY && (m & INNER) && a->getArgNo() + 1 < NC) return a->getArgNo() + 1;
                    continue;
                }
                if (auto *I = dyn_cast<Instruction>(v)) if (!isa<PHINode>(I)) for (auto &u : I->operands()) w.push_back(u.get());
            }
        }
        return 0;
    }
    void effectsOf(const Instruction *I, std::set<Eff> &o) { // what one instruction moves
        if (auto *s = dyn_cast<StoreInst>(I)) {
            const Value *idx; if (s->getValueOperand()->getType()->isPointerTy() && nodesSlot(s->getPointerOperand(), idx)) addEff(o, 0, idx);
            return;
        }
        auto *c = dyn_cast<CallBase>(I); if (!c) return;
        auto *f = c->getCalledFunction(); if (!f) return;
        if (f->getName() == "roaring_free" || f->getName() == "roaring_realloc") {
            Mask m; auto *l = dyn_cast_or_null<LoadInst>(state(c->getArgOperand(0), m)); const Value *idx;
            if (l && nodesSlot(l->getPointerOperand(), idx)) addEff(o, 0, idx);
            return;
        }
        for (auto &e : S[f].eff) {
            int k = resolve(c, e.cond); if (k < 0) continue;
            if (e.param >= 0) { if (e.param < (int)c->arg_size()) addEff(o, k, c->getArgOperand(e.param)); else o.insert({k, ANY, -1}); }
            else o.insert({k, e.m, -1});
        }
    }
    typedef std::map<const Value *, std::array<Mask, NC>> St;
    static std::string types(Mask m) { std::string s; const char *n[] = {"", "leaf", "node4", "node16", "node48", "node256"}; for (int i = 1; i < 6; i++) if (m >> i & 1) s += std::string(s.empty() ? "" : "/") + n[i]; return s; }
    void report(const Function *F, int cond, const std::string &where, const std::string &msg) {
        if (cond) { if (S[F].cf[cond].insert(where + "\t" + msg).second) changed = true; }
        else out[where + "\t" + fname(F)].insert(msg);
    }
    // pointer v is accessed at I as one of `as`; s: its age
    void access(const Function *F, const St &st, const Value *v, Mask as, const Instruction *I, const std::string &what) {
        Mask m; const Value *h = state(v, m); if (!h) return;
        m &= as; if (!m) return;
        std::vector<Src> src; std::set<const Value *> seen; sources(v, m, src, seen);
        if (src.empty()) return;
        nacc++;
        auto it = st.find(h);
        for (auto &q : src) {
            if (auto *a = dyn_cast<Argument>(q.v)) { auto &x = S[F].access[a->getArgNo()]; if ((x | q.m) != x) { x |= q.m; changed = true; } }
            if (it == st.end()) continue;
            for (int k = 0; k < NC; k++) {
                Mask bad = it->second[k] & q.m; if (!bad) continue;
                if (auto *a = dyn_cast<Argument>(q.v)) {
                    auto &u = S[F].ua[{a->getArgNo(), k}];
                    if ((u.first | bad) != u.first) { u.first |= bad; if (u.second.empty()) u.second = what + " at " + loc(I); changed = true; }
                } else report(F, k, loc(I), what + " through a pointer taken before the array of " + types(bad) + " nodes may have moved");
            }
        }
    }
    void function(Function &F) {
        DominatorTree D(F);
        std::map<const BasicBlock *, St> in; std::deque<const BasicBlock *> wl; std::set<const BasicBlock *> reached;
        // first the effects (they do not depend on ages)
        std::map<const Instruction *, std::set<Eff>> ef; auto &me = S[&F];
        for (auto &B : F) for (auto &I : B) {
            std::set<Eff> e; effectsOf(&I, e); if (e.empty()) continue;
            std::set<Eff> g; int gd = guard(D, &B);
            for (auto x : e) { if (!x.cond && gd) x.cond = gd; g.insert(x); }
            for (auto &x : g) if (me.eff.insert(x).second) changed = true;
            ef[&I] = e;
        }
        for (auto &a : F.args()) if (a.getType()->isPointerTy()) in[&F.getEntryBlock()][&a] = {};
        wl.push_back(&F.getEntryBlock());
        auto step = [&](const BasicBlock *B, St st, bool check) {
            for (auto &I : *B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (check) uses(F, st, &I);
                auto e = ef.find(&I); std::array<Mask, NC> ra{};
                if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = c->getCalledFunction()) for (unsigned k : S[f].retParam) if (k < c->arg_size()) {
                    Mask m; if (auto *h = state(c->getArgOperand(k), m)) { auto x = st.find(h); if (x != st.end()) for (int j = 0; j < NC; j++) ra[j] |= x->second[j]; }
                    for (int j = 0; j < NC; j++) if (Mask z = S[f].retAge[k][j]) { int r = resolve(c, j); if (r >= 0) ra[r] |= z; }
                }
                if (e != ef.end()) for (auto &x : e->second) {
                    Mask m = x.param >= 0 ? ANY : x.m;
                    for (auto &kv : st) kv.second[x.cond] |= m;
                }
                if (I.getType()->isPointerTy() && !isa<PHINode>(I)) {
                    if (auto *s = dyn_cast<SelectInst>(&I)) { std::array<Mask, NC> r{}; for (auto *o : {s->getTrueValue(), s->getFalseValue()}) { Mask m; if (auto *h = state(o, m)) { auto f = st.find(h); if (f != st.end()) for (int k = 0; k < NC; k++) r[k] |= f->second[k]; } } st[&I] = r; }
                    else if (holder(&I)) {
                        st[&I] = ra;
                    }
                }
            }
            return st;
        };
        while (!wl.empty()) {
            auto *B = wl.front(); wl.pop_front(); reached.insert(B);
            St o = step(B, in[B], false);
            for (auto *s : successors(B)) {
                St t = o;
                std::map<const Value *, std::array<Mask, NC>> ph;
                for (auto &p : s->phis()) if (p.getType()->isPointerTy()) { std::array<Mask, NC> r{}; Mask m; if (auto *h = state(p.getIncomingValueForBlock(B), m)) { auto f = o.find(h); if (f != o.end()) r = f->second; } ph[&p] = r; }
                for (auto &kv : ph) t[kv.first] = kv.second;
                auto &d = in[s]; bool ch = !reached.count(s);
                for (auto &kv : t) { auto f = d.find(kv.first); if (f == d.end()) { d[kv.first] = kv.second; ch = true; } else for (int k = 0; k < NC; k++) if ((f->second[k] | kv.second[k]) != f->second[k]) { f->second[k] |= kv.second[k]; ch = true; } }
                if (ch) wl.push_back(s);
            }
        }
        for (auto *B : reached) step(B, in[B], true);
        iterators(F, ef, reached);
    }
    void uses(Function &F, const St &st, const Instruction *I) {
        if (auto *l = dyn_cast<LoadInst>(I)) access(&F, st, l->getPointerOperand(), ANY, I, "read");
        else if (auto *s = dyn_cast<StoreInst>(I)) access(&F, st, s->getPointerOperand(), ANY, I, "write");
        else if (auto *p = dyn_cast<PtrToIntInst>(I)) access(&F, st, p->getPointerOperand(), ANY, I, "position computed");
        else if (auto *r = dyn_cast<ReturnInst>(I)) {
            if (!r->getReturnValue() || !r->getReturnValue()->getType()->isPointerTy()) return;
            std::vector<Src> src; std::set<const Value *> seen; sources(r->getReturnValue(), ANY, src, seen);
            auto &me = S[&F];
            for (auto &q : src) {
                if (auto *a = dyn_cast<Argument>(q.v)) { if (me.retParam.insert(a->getArgNo()).second) changed = true; Mask m; auto it = st.find(state(r->getReturnValue(), m)); auto &x = me.retAge[a->getArgNo()]; if (it != st.end()) for (int k = 0; k < NC; k++) if ((x[k] | it->second[k]) != x[k]) { x[k] |= it->second[k]; changed = true; } }
                else { if ((me.ret | q.m) != me.ret) { me.ret |= q.m; changed = true; }
                    Mask m; const Value *h = state(r->getReturnValue(), m); auto it = st.find(h);
                    if (it != st.end()) for (int k = 0; k < NC; k++) if (Mask bad = it->second[k] & q.m) report(&F, k, loc(I), "returns a pointer taken before the array of " + types(bad) + " nodes may have moved"); }
            }
        } else if (auto *c = dyn_cast<CallBase>(I)) {
            auto *f = c->getCalledFunction();
            if (auto *mi = dyn_cast<MemIntrinsic>(I)) {
                access(&F, st, mi->getDest(), ANY, I, "write");
                if (auto *t = dyn_cast<MemTransferInst>(mi)) access(&F, st, t->getSource(), ANY, I, "read");
                return;
            }
            if (!f || f->isIntrinsic()) return;
            if (f->isDeclaration()) { for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i)->getType()->isPointerTy()) access(&F, st, c->getArgOperand(i), ANY, I, "passed to " + fname(f)); return; }
            auto q = S[f]; // copy: recursion
            for (unsigned i = 0; i < c->arg_size(); i++) {
                const Value *a = c->getArgOperand(i); if (!a->getType()->isPointerTy()) continue;
                auto ac = q.access.find(i); if (ac != q.access.end()) access(&F, st, a, ac->second, I, "used by " + fname(f));
            }
            for (auto &u : q.ua) {
                unsigned i = u.first.first; if (i >= c->arg_size()) continue;
                int k = resolve(c, u.first.second); if (k < 0) continue;
                std::vector<Src> src; std::set<const Value *> seen; sources(c->getArgOperand(i), ANY, src, seen);
                for (auto &s : src) {
                    Mask bad = s.m & u.second.first; if (!bad) continue;
                    if (auto *a = dyn_cast<Argument>(s.v)) { auto &x = S[&F].ua[{a->getArgNo(), k}]; if ((x.first | bad) != x.first) { x.first |= bad; if (x.second.empty()) x.second = u.second.second; changed = true; } }
                    else report(&F, k, loc(I), "passes a pointer into a node to " + fname(f) + ", which uses it (" + u.second.second + ") after the array of " + types(bad) + " nodes may have moved");
                }
            }
            for (auto &k : q.cf) { int r = resolve(c, k.first); if (r < 0) continue; for (auto &s : k.second) { auto t = s.find('\t'); report(&F, r, s.substr(0, t), s.substr(t + 1)); } }
        }
    }
    // a function that may move the leaves must give the iterator it was handed a value again
    void iterators(Function &F, std::map<const Instruction *, std::set<Eff>> &ef, std::set<const BasicBlock *> &reached) {
        if (!itT || valF < 0) return;
        // parameter used as an iterator
        if (S[&F].itParam < 0) return;
        const Argument *it = F.getArg(S[&F].itParam);
        auto isSet = [&](const Instruction *I) {
            if (auto *s = dyn_cast<StoreInst>(I)) { if (auto *g = dyn_cast<GEPOperator>(s->getPointerOperand())) if (g->getSourceElementType() == itT && g->getPointerOperand() == it && g->getNumOperands() == 3) if (auto *c = dyn_cast<ConstantInt>(g->getOperand(2))) return (int)c->getZExtValue() == valF; return false; }
            if (auto *c = dyn_cast<CallBase>(I)) if (auto *f = c->getCalledFunction()) if (S[f].setsIt && S[f].itParam >= 0 && S[f].itParam < (int)c->arg_size() && c->getArgOperand(S[f].itParam) == it) return true;
            return false;
        };
        // forward: 2 = set since entry on every path; 1 = not set; stale bit separate
        std::map<const BasicBlock *, int> in; in[&F.getEntryBlock()] = 1; std::deque<const BasicBlock *> wl{&F.getEntryBlock()};
        auto run = [&](const BasicBlock *B, int s, bool check) { // bits: 1 unset possible, 4 stale possible
            for (auto &I : *B) {
                auto e = ef.find(&I);
                bool set = isSet(&I);
                if (e != ef.end() && !set) for (auto &x : e->second) if (x.param >= 0 || (x.m & 2)) s |= 4;
                if (set) s = 0;
                if (check && isa<ReturnInst>(I)) { nit++; if (s & 4) report(&F, 0, loc(&I), "the iterator keeps a value taken before the array of leaves may have moved"); if (s & 1) unset = true; }
            }
            return s;
        };
        std::set<const BasicBlock *> done;
        while (!wl.empty()) { auto *B = wl.front(); wl.pop_front(); done.insert(B); int o = run(B, in[B], false); for (auto *s : successors(B)) { int n = in[s] | o; if (!done.count(s) || n != in[s]) { in[s] = n; wl.push_back(s); } } }
        unset = false; for (auto *B : done) run(B, in[B], true);
        if (S[&F].setsIt == unset) { S[&F].setsIt = !unset; changed = true; }
    }
    bool unset = false;
    int go() {
        if (!setup()) return 2;
        for (auto &F : M) if (!F.isDeclaration()) S[&F].setsIt = true; // greatest fixpoint
        if (itT) for (bool more = true; more;) { more = false; for (auto &F : M) if (S[&F].itParam < 0) for (auto &I : instructions(F)) {
            const Argument *a = nullptr;
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { if (g->getSourceElementType() == itT) a = dyn_cast<Argument>(g->getPointerOperand()); }
            else if (auto *c = dyn_cast<CallBase>(&I)) { if (auto *f = c->getCalledFunction()) if (S[f].itParam >= 0 && S[f].itParam < (int)c->arg_size()) a = dyn_cast<Argument>(c->getArgOperand(S[f].itParam)); }
            if (a) { S[&F].itParam = a->getArgNo(); more = true; break; }
        } }
        for (int round = 0; round < 60; round++) { changed = false; out.clear(); nacc = nfn = nit = 0; for (auto &F : M) if (!F.isDeclaration()) { nfn++; function(F); } if (!changed) break; }
        if (changed) return 2;
        for (auto &kv : out) { auto t = kv.first.find('\t'); finding("RELOC", kv.first.substr(t + 1), kv.first.substr(0, t), *kv.second.begin()); }
        if (getenv("RELOC_DUMP")) for (auto &kv : S) if (!kv.second.eff.empty()) { fprintf(stderr, "%s ret=%s:", fname(kv.first).c_str(), types(kv.second.ret).c_str()); for (auto &e : kv.second.eff) fprintf(stderr, " c%d/%s/p%d", e.cond, types(e.m).c_str(), e.param); fprintf(stderr, "\n"); }
        long mv = 0; for (auto &kv : S) if (!kv.second.eff.empty()) { mv++; }
        stat("functions", nfn); stat("functions_that_may_move_nodes", mv); stat("accesses_checked", nacc); stat("iterator_exits_checked", nit);
        return 0;
    }
};
} // namespace
int cmdReloc(Module &M) { Mover r(M); return r.go(); }
