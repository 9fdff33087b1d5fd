// roarbound MODULE [--with MODULE] --client FN ...: every access to a region
// announced with __vf_region(pointer, size) stays inside it, and every
// __vf_equal(a, b) holds. Linear relational analysis of the client's inlined
// body: constraints between symbols, joined at merge points (affine hull plus
// entailed constraints), widened at loop heads. One JSON line per finding and
// a summary line per client.
#include "lin.h"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <cstdio>
#include <functional>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

// ---------------------------------------------------------------- inlining
static std::set<const Function *> recursive;
static bool reaches(const Function *f, const Function *g, std::set<const Function *> &seen) {
    for (auto &I : instructions(f)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *d = c->getCalledFunction()) {
        if (d == g) return true;
        if (!d->isDeclaration() && seen.insert(d).second && reaches(d, g, seen)) return true;
    }
    return false;
}
static bool isRec(const Function *f) {
    static std::map<const Function *, bool> memo;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    std::set<const Function *> seen;
    return memo[f] = reaches(f, f, seen);
}
static bool isAlloc(StringRef n) {
    return n == "roaring_malloc" || n == "roaring_calloc" || n == "roaring_realloc" || n == "roaring_aligned_malloc" || n == "malloc" || n == "calloc" || n == "realloc" || n == "_Znwm";
}
static bool isFree(StringRef n) { return n == "roaring_free" || n == "roaring_aligned_free" || n == "free" || n == "_ZdlPv" || n == "_ZdlPvm"; }
static const Value *base0(const Value *v) {
    for (;;) {
        v = v->stripPointerCasts();
        if (auto *g = dyn_cast<GetElementPtrInst>(v)) v = g->getPointerOperand();
        else return v;
    }
}
// values that may point into a region
static std::set<const Value *> regionVals(Function &F) {
    std::set<const Value *> S;
    for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__vf_region") {
        S.insert(c->getArgOperand(0)); S.insert(base0(c->getArgOperand(0)));
    }
    for (bool ch = true; ch;) {
        ch = false;
        for (auto &I : instructions(F)) {
            if (auto *s = dyn_cast<StoreInst>(&I)) {
                if (S.count(s->getValueOperand())) { const Value *b = base0(s->getPointerOperand()); if (isa<AllocaInst>(b) && S.insert(b).second) ch = true; }
                continue;
            }
            if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->getType()->isPointerTy() && isa<AllocaInst>(base0(l->getPointerOperand())) && S.count(base0(l->getPointerOperand())) && S.insert(l).second) ch = true; continue; }
            if (isa<CallBase>(I) || isa<CmpInst>(I) || isa<AllocaInst>(I)) continue;
            for (auto &o : I.operands()) if (S.count(o) && S.insert(&I).second) { ch = true; break; }
        }
    }
    return S;
}
static std::set<std::string> opaque;      // functions replaced by their contract
static StringRef plainName(const Function *f) { StringRef n = f ? f->getName() : ""; auto p = n.rfind('.'); if (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos) n = n.substr(0, p); return n; }
static void inlineAll(Function &F, FunctionAnalysisManager &FAM) {
    size_t budget = 40000;
    { PassBuilder PB; FunctionPassManager FPM; if (auto e = PB.parsePassPipeline(FPM, "sroa")) { consumeError(std::move(e)); return; } FPM.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none()); }
    for (int round = 0; round < 30; round++) {
        auto S = regionVals(F);
        std::vector<std::pair<CallBase *, bool>> todo;
        for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) {
            Function *d = c->getCalledFunction();
            if (!d || d->isDeclaration() || d == &F || isAlloc(d->getName()) || isFree(d->getName()) || opaque.count(plainName(d).str()) || isRec(d)) continue;
            bool rv = false;
            for (auto &a : c->args()) if (S.count(a) || S.count(base0(a))) rv = true;
            size_t n = d->getInstructionCount();
            bool loops = false;
            if (rv || n <= 130) todo.push_back({c, rv});
        }
        if (todo.empty()) break;
        bool did = false;
        for (auto &p : todo) {
            if (F.getInstructionCount() > budget && !p.second) continue;
            InlineFunctionInfo IFI;
            auto R = InlineFunction(*p.first, IFI);
            if (R.isSuccess()) did = true; else if (getenv("BDEBUG")) fprintf(stderr, "not inlined: %s\n", R.getFailureReason());
        }
        if (!did) break;
        PassBuilder PB;
        FunctionPassManager FPM;
        if (auto e = PB.parsePassPipeline(FPM, "sroa")) { consumeError(std::move(e)); return; }
        FPM.run(F, FAM);
        FAM.invalidate(F, PreservedAnalyses::none());
    }
    PassBuilder PB;
    FunctionPassManager FPM;
    if (auto e = PB.parsePassPipeline(FPM, "sroa,early-cse<memssa>,simplifycfg,sroa,early-cse<memssa>,dce,loop-simplify")) { consumeError(std::move(e)); return; }
    FPM.run(F, FAM);
    FAM.invalidate(F, PreservedAnalyses::none());
}

// A loop that advances a position by a constant other than one gets a counter:
// the divisibility of the position becomes a linear fact.
static void addCounters(Function &F) {
    DominatorTree DT(F); LoopInfo LI(DT);
    auto &DL = F.getParent()->getDataLayout();
    for (Loop *L : LI.getLoopsInPreorder()) {
        BasicBlock *H = L->getHeader(), *T = L->getLoopLatch(), *P = L->getLoopPreheader();
        if (!T || !P) continue;
        bool want = false;
        for (auto &ph : H->phis()) {
            const Value *v = ph.getIncomingValueForBlock(T);
            APInt n(64, 0);
            for (;;) {
                if (auto *g = dyn_cast<GEPOperator>(v)) { APInt o(64, 0); if (!g->accumulateConstantOffset(DL, o)) break; n += o; v = g->getPointerOperand(); continue; }
                auto *b = dyn_cast<BinaryOperator>(v);
                if (b && (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) && isa<ConstantInt>(b->getOperand(1))) { APInt o = cast<ConstantInt>(b->getOperand(1))->getValue().sextOrTrunc(64); n += b->getOpcode() == Instruction::Add ? o : -o; v = b->getOperand(0); continue; }
                break;
            }
            if (v == &ph && n.abs().ugt(1)) want = true;
        }
        if (!want) continue;
        Type *t = Type::getInt64Ty(F.getContext());
        auto *c = PHINode::Create(t, 2, "ghost", &H->front());
        auto *a = BinaryOperator::Create(Instruction::Add, c, ConstantInt::get(t, 1), "ghost.next", T->getTerminator());
        a->setHasNoUnsignedWrap(); a->setHasNoSignedWrap();
        c->addIncoming(ConstantInt::get(t, 0), P); c->addIncoming(a, T);
    }
}

// Sums over the containers of a directory. After every place where a container
// is unwrapped, running sums of what this container contributes (its size in
// the portable format and in each zone of the frozen one) become variables of
// the program, so that the domain can relate them to what the code adds up.
static const char *UNWRAP = "container_unwrap_shared";
static const int NATTR = 4;
static bool isUnwrap(const Instruction &I) { auto *c = dyn_cast<CallBase>(&I); return c && plainName(c->getCalledFunction()) == UNWRAP; }
static void addSums(Function &F, FunctionAnalysisManager &FAM) {
    std::vector<CallBase *> sites;
    for (auto &I : instructions(F)) if (isUnwrap(I)) sites.push_back(cast<CallBase>(&I));
    if (sites.empty()) return;
    DominatorTree DT(F); LoopInfo LI(DT);
    Module *M = F.getParent(); LLVMContext &C = F.getContext();
    Type *t = Type::getInt64Ty(C), *p = PointerType::get(C, 0);
    auto attr = M->getOrInsertFunction("__vf_attr", FunctionType::get(t, {p, t}, false));
    auto visit = M->getOrInsertFunction("__vf_visit", FunctionType::get(Type::getVoidTy(C), {p, t, t, t, t, t}, false));
    auto total = M->getOrInsertFunction("__vf_total", FunctionType::get(Type::getVoidTy(C), {t, t, t, t, t}, false));
    for (auto f : {attr, visit, total}) { auto *fn = cast<Function>(f.getCallee()); fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); fn->setDoesNotThrow(); fn->addFnAttr(Attribute::WillReturn); }
    for (auto *c : sites) {
        AllocaInst *g[NATTR + 1];
        IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
        for (auto &a : g) { a = E.CreateAlloca(t, nullptr, "__vfsum"); }
        for (auto &a : g) E.CreateStore(ConstantInt::get(t, 0), a);
        IRBuilder<> B(c->getNextNode());
        std::vector<Value *> av{c->getArgOperand(0), B.CreateLoad(t, g[0])};
        for (int k = 0; k < NATTR; k++) {
            Value *d = B.CreateCall(attr, {c, ConstantInt::get(t, k)});
            Value *n = B.CreateAdd(B.CreateLoad(t, g[k + 1]), d, "", true, true);
            B.CreateStore(n, g[k + 1]); av.push_back(n);
        }
        B.CreateCall(visit, av);
        B.CreateStore(B.CreateAdd(av[1], ConstantInt::get(t, 1), "", true, true), g[0]);
        Loop *L = LI.getLoopFor(c->getParent());
        if (!L) continue;
        while (L->getParentLoop()) L = L->getParentLoop();
        SmallVector<BasicBlock *, 4> ex; L->getUniqueExitBlocks(ex);
        for (auto *x : ex) { IRBuilder<> X(&*x->getFirstInsertionPt()); std::vector<Value *> v; for (auto *a : g) v.push_back(X.CreateLoad(t, a)); X.CreateCall(total, v); }
    }
    PassBuilder PB; FunctionPassManager FPM;
    if (auto e = PB.parsePassPipeline(FPM, "sroa")) { consumeError(std::move(e)); return; }
    FPM.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none());
}

// ---------------------------------------------------------------- analysis
static const I MAXSZ = (I)1 << 62;
enum VKind { VINT, VPTR, VUNK };
struct Val { VKind k = VUNK; int base = 0; Lin e; char rep = 0; };    // base: 0 unknown, -1 null, n
struct MemKey { int base; Lin off; int size; bool operator<(const MemKey &o) const { if (base != o.base) return base < o.base; if (size != o.size) return size < o.size; return off < o.off; } };
struct St { bool bot = true; Cons cs; std::map<MemKey, Val> mem; std::map<const Value *, bool> flags; };
typedef std::vector<St> SS;    // one per known outcome of the conditions that are tested again

struct An {
    Function &F;
    DominatorTree DT;
    std::map<const Value *, Val> env;
    std::map<std::pair<const Value *, int>, int> syms;
    std::vector<const Instruction *> symDef;     // null: valid everywhere
    std::vector<std::string> symName;
    std::map<const BasicBlock *, SS> outS, inv;
    std::map<std::pair<const BasicBlock *, const BasicBlock *>, SS> edges;
    std::set<const Value *> retest;              // conditions tested in more than one place
    std::map<const BasicBlock *, bool> head;
    std::vector<Con> wanted;                     // kept across a join where both sides have it
    std::map<const BasicBlock *, int> visits;      // how often a loop head was joined into
    std::map<int, Lin> regions;                  // base -> size
    std::set<int> fresh, loaded;                 // bases by origin
    std::map<int, int> addr;                     // base -> symbol of its address
    int nBase = 0;
    std::map<std::pair<const Value *, Lin>, int> baseOf;
    bool final = false, unstable = false;
    int sweep = 0;
    long obligations = 0, failed = 0;
    std::set<std::string> reported, notes;
    // the directory whose containers are summed up: array of pointers, number, kinds and sums over all of it
    int dirBase = 0; Lin dirSize; int dirTotal[NATTR] = {};
    bool lost = false;
    std::vector<const CallBase *> unwraps;
    int kindOf(const CallBase *c) { return sym(c, 10, 1, 3, c); }
    int countOf(const CallBase *c) { return sym(c, 11, 0, 65536, c); }
    int attrOf(const CallBase *c, int k) { return sym(c, 20 + k, 0, (I)1 << 20, c); }
    // what a container of a known kind contributes
    void kindFacts(St &s) {
        for (auto *c : unwraps) {
            auto it = syms.find({c, 10});
            if (it == syms.end()) continue;
            for (auto &q : s.cs) if (q.eq && q.e.coef(it->second)) { facts(s, c, it->second); break; }
            if (s.bot) return;
        }
    }
    void facts(St &s, const CallBase *c, int ty) {
        for (int k = 1; k <= 3; k++) {
            if (!entailsEq(s.cs, comb(ls(ty), 1, lc(1), -k))) continue;
            Lin n = ls(countOf(c)), z[NATTR] = {lc(0), lc(0), lc(0), lc(0)};
            if (k == 1) z[0] = z[1] = lc(8192);                              // bitset
            else if (k == 2) z[0] = z[3] = mulc(n, 2);                       // array
            else { z[2] = mulc(n, 4); z[0] = add(z[2], lc(2)); }             // runs
            for (int a = 0; a < NATTR; a++) assume(s, sub(z[a], ls(attrOf(c, a))), true);
        }
    }
    bool dbg = getenv("BDEBUG") != nullptr;

    An(Function &f) : F(f), DT(f) {}
    int sym(const Value *v, int k, I lo, I hi, const Instruction *def) {
        auto key = std::make_pair(v, k);
        auto it = syms.find(key);
        if (it != syms.end()) return it->second;
        int n = symRng.size();
        symRng.push_back({lo, hi}); symDef.push_back(def);
        std::string nm; if (v) { raw_string_ostream o(nm); v->printAsOperand(o, false); }
        symName.push_back(nm + (k ? "." + std::to_string(k) : ""));
        return syms[key] = n;
    }
    static Rng rng(unsigned w) {
        if (w <= 16) return {0, ((I)1 << w) - 1};
        return {-((I)1 << (w - 1)), ((Num)1 << (w - 1)) - 1};
    }
    // 32-bit values that are only ever used as unsigned ones are numbers from 0 on
    std::map<const Value *, const Value *> uf;
    std::map<const Value *, int> votes;          // 1 unsigned, 2 signed
    const Value *find(const Value *v) { auto it = uf.find(v); if (it == uf.end() || it->second == v) return v; return uf[v] = find(it->second); }
    void webs() {
        auto is32 = [](const Value *v) { return v->getType()->isIntegerTy(32) && !isa<Constant>(v); };
        auto uni = [&](const Value *a, const Value *b) { if (is32(a) && is32(b)) { a = find(a); b = find(b); if (a != b) uf[a] = b; } };
        std::vector<std::pair<const Value *, int>> vs;
        for (auto &I : instructions(F)) {
            if (isa<PHINode>(I)) for (auto &v : cast<PHINode>(I).incoming_values()) uni(&I, v);
            else if (auto *se = dyn_cast<SelectInst>(&I)) { uni(&I, se->getTrueValue()); uni(&I, se->getFalseValue()); }
            else if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                switch (bo->getOpcode()) {
                    case Instruction::UDiv: case Instruction::LShr: case Instruction::URem: vs.push_back({bo->getOperand(0), 1}); vs.push_back({&I, 1}); break;
                    case Instruction::SDiv: case Instruction::AShr: case Instruction::SRem: vs.push_back({bo->getOperand(0), 2}); vs.push_back({&I, 2}); break;
                    case Instruction::Shl: uni(&I, bo->getOperand(0)); break;
                    case Instruction::And: break;
                    default: uni(&I, bo->getOperand(0)); uni(&I, bo->getOperand(1));
                }
                if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) if (o->hasNoSignedWrap()) vs.push_back({&I, 2});
            } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
                uni(c->getOperand(0), c->getOperand(1));
                int v = c->isUnsigned() ? 1 : c->isSigned() ? 2 : 0;
                if (v) for (auto &o : c->operands()) vs.push_back({o, v});
            } else if (isa<ZExtInst>(I)) vs.push_back({I.getOperand(0), 1});
            else if (isa<SExtInst>(I)) vs.push_back({I.getOperand(0), 2});
        }
        for (auto &p : vs) if (is32(p.first)) votes[find(p.first)] |= p.second;
    }
    bool U(const Value *v) {
        if (!v->getType()->isIntegerTy()) return false;
        unsigned w = v->getType()->getIntegerBitWidth();
        if (w <= 16) return true;
        if (w != 32 || isa<Constant>(v)) return false;
        auto it = votes.find(find(v));
        return it != votes.end() && it->second == 1;
    }
    Rng rngV(const Value *v, unsigned w) { if (w == 32 && U(v)) return {0, ((Num)1 << 32) - 1}; return rng(w); }
    int symOf(const Instruction *I, int k, unsigned w) { Rng r = rngV(I, w); if (isa<PHINode>(I) && I->getName().starts_with("__vfsum")) r = {0, MAXSZ / 2}; return sym(I, k, r.lo, r.hi, I); }
    int newBase(const Value *v, const Lin &at = lc(0)) { auto k = std::make_pair(v, at); auto it = baseOf.find(k); return it != baseOf.end() ? it->second : baseOf[k] = ++nBase; }
    std::map<std::pair<Lin, I>, std::pair<int, int>> divs;
    int addrSym(int b) { auto it = addr.find(b); if (it != addr.end()) return it->second; int n = symRng.size(); symRng.push_back({1, MAXSZ / 2}); symDef.push_back(nullptr); symName.push_back("addr" + std::to_string(b)); return addr[b] = n; }
    std::string str(const Lin &e) { std::string s; for (auto &p : e.t) s += (p.second >= 0 ? "+" : "") + std::to_string((long)p.second) + "*" + symName[p.first]; return s + (e.c >= 0 ? "+" : "") + std::to_string((long)e.c); }
    void dump(const St &s) { for (auto &c : s.cs) fprintf(stderr, "    %s %s 0\n", str(c.e).c_str(), c.eq ? "==" : ">="); if (getenv("BMEM")) for (auto &m : s.mem) fprintf(stderr, "    [%d %s %d] = %d:%d %s\n", m.first.base, str(m.first.off).c_str(), m.first.size, m.second.k, m.second.base, str(m.second.e).c_str()); }

    void assume(St &s, Lin e, bool eq = false) {
        if (s.bot) return;
        Con c{e, eq};
        int n = normCon(c);
        if (n > 0) return;
        if (n < 0 || !feasible(s.cs, {c})) { s.bot = true; s.cs.clear(); return; }
        s.cs.insert(c);
        if (eq) return;
        // what becomes stronger over the integers once a symbol is replaced by what it equals
        std::vector<Con> more;
        try {
            for (auto &q : s.cs) if (q.eq) for (auto &t : q.e.t) if (t.second == 1 || t.second == -1) if (auto k = c.e.coef(t.first)) {
                Con r{comb(c.e, 1, q.e, t.second == 1 ? -k : k), false};
                I g = 0;
                for (auto &p : r.e.t) g = igcd(g, p.second);
                if (g > 1 && r.e.c % g && normCon(r) == 0) more.push_back(r);
            }
        } catch (Overflow &) {}
        for (auto &r : more) s.cs.insert(r);
    }
    bool ge0(const St &s, const Lin &e) { return s.bot || entails(s.cs, e); }
    bool inRange(const St &s, const Lin &e, I lo, I hi) {
        // quick interval test first
        I l = e.c, h = e.c; bool ok = true;
        for (auto &p : e.t) { Rng &r = symRng[p.first]; I a = r.lo * (p.second > 0 ? p.second : -p.second), b = r.hi * (p.second > 0 ? p.second : -p.second); if (iabs(p.second) > ((I)1 << 40)) { ok = false; break; } if (p.second > 0) l += a, h += b; else l -= b, h -= a; }
        if (ok && l >= lo && h <= hi) return true;
        return ge0(s, comb(e, 1, lc(1), -lo)) && ge0(s, comb(e, -1, lc(1), hi));
    }
    Val I_(const Lin &e) { Val v; v.k = VINT; v.e = e; return v; }
    Val P_(int b, const Lin &e) { Val v; v.k = VPTR; v.base = b; v.e = e; return v; }
    Val fit(St &s, const Instruction *I, const Lin &e, unsigned w, bool noWrap = false) {
        Rng r = rngV(I, w);
        if (noWrap || inRange(s, e, r.lo, r.hi)) return I_(e);
        if (dbg) { std::string n; raw_string_ostream o(n); I->printAsOperand(o, false); if (getenv("BFIT") && n == getenv("BFIT")) { fprintf(stderr, "FIT sweep %d %s\n", sweep, str(e).c_str()); dump(s); } }
        int x = symOf(I, 0, w);
        return I_(ls(x));
    }
    Val get(St &s, const Value *v, bool u = false) {
        if (auto *c = dyn_cast<ConstantInt>(v)) {
            unsigned w = c->getBitWidth();
            if (w > 64) return Val();
            return I_(lc(w <= 16 || (u && w == 32) ? (I)c->getZExtValue() : (I)c->getSExtValue()));
        }
        if (isa<ConstantPointerNull>(v)) return P_(-1, lc(0));
        if (isa<UndefValue>(v)) return v->getType()->isPointerTy() ? P_(-1, lc(0)) : Val();
        if (isa<GlobalValue>(v)) return P_(newBase(v), lc(0));
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); const Value *b = ce->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), o, true); Val p = get(s, b); if (p.k == VPTR) p.e = add(p.e, lc(o.getSExtValue())); return p; }
            return Val();
        }
        auto it = env.find(v);
        if (it != env.end()) return it->second;
        if (auto *a = dyn_cast<Argument>(v)) {
            if (a->getType()->isPointerTy()) return env[v] = P_(newBase(a), lc(0));
            if (a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() <= 64) { Rng r = rngV(a, a->getType()->getIntegerBitWidth()); if (a->getType()->getIntegerBitWidth() == 64) r = {0, MAXSZ}; return env[v] = I_(ls(sym(a, 0, r.lo, r.hi, nullptr))); }
        }
        return Val();
    }
    // unknown integer result
    Val unk(const Instruction *I) {
        Type *t = I->getType();
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return I_(ls(symOf(I, 0, t->getIntegerBitWidth())));
        if (t->isPointerTy()) { int b = newBase(I); loaded.insert(b); return P_(b, lc(0)); }
        return Val();
    }
    std::string where(const Instruction *I, std::string &fn, std::string &stack) {
        const DILocation *l = I->getDebugLoc().get();
        if (!l) { fn = F.getName().str(); return ""; }
        auto nm = [](const DILocation *d) { auto *sp = d->getScope()->getSubprogram(); return sp ? sp->getName().str() : std::string("?"); };
        fn = nm(l);
        std::string w = l->getFilename().str() + ":" + std::to_string(l->getLine());
        for (const DILocation *i = l->getInlinedAt(); i; i = i->getInlinedAt()) stack = nm(i) + ":" + std::to_string(i->getLine()) + (stack.empty() ? "" : " > ") + stack;
        return w;
    }
    void finding(const Instruction *I, const std::string &rule, const std::string &msg) {
        failed++;
        std::string fn, st, w = where(I, fn, st);
        auto sl = w.rfind("/src/"); if (sl == std::string::npos) sl = w.rfind("/include/"); if (sl == std::string::npos) sl = w.rfind("/cpp/");
        if (sl != std::string::npos) w = w.substr(sl + 1);
        std::string j = "{\"rule\":\"" + rule + "\",\"fn\":\"" + fn + "\",\"where\":\"" + w + "\",\"msg\":\"" + msg + "\",\"stack\":\"" + st + "\",\"entry\":\"" + F.getName().str() + "\"}";
        if (reported.insert(j).second) printf("%s\n", j.c_str());
    }
    void access(St &s, const Instruction *I, const Val &p, const Val &n, bool write) {
        if (s.bot || !final) return;
        if (p.k != VPTR || !regions.count(p.base)) return;
        obligations++;
        Lin sz = regions[p.base];
        std::string what = write ? "write" : "read";
        if (n.k != VINT) { finding(I, "BOUNDS", what + " of unknown length in the caller's buffer"); return; }
        if (n.e.isC() && n.e.c == 0) return;
        if (!ge0(s, p.e)) { finding(I, "BOUNDS", what + " may lie before the start of the buffer"); if (dbg) { fprintf(stderr, "off %s\n", str(p.e).c_str()); dump(s); } return; }
        if (!ge0(s, n.e) || !ge0(s, sub(sz, add(p.e, n.e)))) { finding(I, "BOUNDS", what + " may reach past the end of the buffer"); if (dbg) { fprintf(stderr, "off %s len %s size %s\n", str(p.e).c_str(), str(n.e).c_str(), str(sz).c_str()); dump(s); } }
    }
    // a pointer that was read from memory may lead to anything whose address has been stored
    bool distinct(int a, int b) { return a != b && (regions.count(a) || regions.count(b) || (!(loaded.count(a) && (loaded.count(b) || escaped(b))) && !(loaded.count(b) && escaped(a)))); }
    void clobber(St &s, int base, const Lin *off, int size) {
        for (auto it = s.mem.begin(); it != s.mem.end();) {
            bool kill = false;
            if (base == 0 || it->first.base == base) {
                kill = true;
                if (base && off) { Lin d = sub(it->first.off, *off); if (d.isC() ? (d.c >= size || d.c + it->first.size <= 0) : (ge0(s, comb(d, 1, lc(1), -size)) || ge0(s, comb(d, -1, lc(1), -it->first.size)))) kill = false; }
                if (!base && regions.count(it->first.base)) kill = false;
            } else if (!distinct(base, it->first.base)) kill = true;
            if (kill) it = s.mem.erase(it); else ++it;
        }
    }
    // refine by a condition
    void refine(St &s, const Value *c, bool truth, int depth = 0) {
        if (s.bot || depth > 8) return;
        if (auto *k = dyn_cast<ConstantInt>(c)) { if (k->isZero() == truth) s.bot = true; return; }
        auto *I = dyn_cast<Instruction>(c);
        if (!I) return;
        if (retest.count(I)) {
            auto it = s.flags.find(I);
            if (it != s.flags.end()) { if (it->second != truth) s.bot = true; return; }
            s.flags[I] = truth;
        }
        if (auto *cm = dyn_cast<ICmpInst>(I)) { refineCmp(s, cm, truth, depth); return; }
        if (isa<TruncInst>(I) || isa<ZExtInst>(I) || isa<FreezeInst>(I)) { refine(s, I->getOperand(0), truth, depth + 1); return; }
        if (I->getOpcode() == Instruction::And && (truth || I->getType()->isIntegerTy(1))) { if (truth && I->getType()->isIntegerTy(1)) { refine(s, I->getOperand(0), true, depth + 1); refine(s, I->getOperand(1), true, depth + 1); } else if (!truth) either(s, I->getOperand(0), I->getOperand(1), false, depth); return; }
        if (I->getOpcode() == Instruction::Or && I->getType()->isIntegerTy(1)) { if (!truth) { refine(s, I->getOperand(0), false, depth + 1); refine(s, I->getOperand(1), false, depth + 1); } else either(s, I->getOperand(0), I->getOperand(1), true, depth); return; }
        if (I->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(I->getOperand(1))) { if (k->isOne()) refine(s, I->getOperand(0), !truth, depth + 1); return; }
        if (auto *se = dyn_cast<SelectInst>(I)) {
            auto *t = dyn_cast<ConstantInt>(se->getTrueValue()), *f = dyn_cast<ConstantInt>(se->getFalseValue());
            if (f && f->isZero() && truth) { refine(s, se->getCondition(), true, depth + 1); refine(s, se->getTrueValue(), true, depth + 1); return; }
            if (t && !t->isZero() && !truth) { refine(s, se->getCondition(), false, depth + 1); refine(s, se->getFalseValue(), false, depth + 1); return; }
            St a = s, b = s;
            refine(a, se->getCondition(), true, depth + 1); refine(a, se->getTrueValue(), truth, depth + 1);
            refine(b, se->getCondition(), false, depth + 1); refine(b, se->getFalseValue(), truth, depth + 1);
            s = join2(a, b);
            return;
        }
        if (auto *p = dyn_cast<PHINode>(I)) { refinePhi(s, p, [&](St &x, const Value *v) { refine(x, v, truth, depth + 1); }); return; }
        if (isa<CallBase>(I) && I->getType()->isIntegerTy(1)) { Val v = get(s, I); if (v.k == VINT) assume(s, comb(v.e, 1, lc(1), truth ? -1 : 0), true); return; }
    }
    void either(St &s, const Value *a, const Value *b, bool truth, int depth) {
        St x = s, y = s;
        refine(x, a, truth, depth + 1); refine(y, b, truth, depth + 1);
        s = join2(x, y);
    }
    // the state came through one of the edges whose value is possible
    template <class Fn> void refinePhi(St &s, const PHINode *p, Fn f) {
        if (head[p->getParent()]) return;
        St acc;
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
            auto it = edges.find({p->getIncomingBlock(i), p->getParent()});
            if (it == edges.end()) continue;
            for (St x : it->second) {
                bool clash = x.bot;
                for (auto &g : x.flags) { auto h = s.flags.find(g.first); if (h != s.flags.end() && h->second != g.second) clash = true; }
                if (clash) continue;
                f(x, p->getIncomingValue(i));
                if (!x.bot) acc = acc.bot ? x : join2(acc, x);
            }
        }
        if (acc.bot) { s.bot = true; return; }
        for (auto &c : acc.cs) if (!s.cs.count(c)) { bool ok = true; for (auto &t : c.e.t) if (symDef[t.first] && !DT.dominates(symDef[t.first]->getParent(), p->getParent())) ok = false; if (ok) s.cs.insert(c); }
        if (!feasible(s.cs, {})) s.bot = true;
    }
    void refineCmp(St &s, const ICmpInst *c, bool truth, int depth) {
        auto pr = truth ? c->getPredicate() : c->getInversePredicate();
        const Value *A = c->getOperand(0), *B = c->getOperand(1);
        // comparison of a flag with zero
        if (auto *k = dyn_cast<ConstantInt>(B)) if (c->isEquality() && k->isZero()) {
            const Value *x = A;
            while (isa<ZExtInst>(x) || isa<SExtInst>(x)) x = cast<Instruction>(x)->getOperand(0);
            if (x->getType()->isIntegerTy(1)) { refine(s, x, pr == ICmpInst::ICMP_NE, depth + 1); return; }
        }
        if (c->isEquality() && isa<Constant>(B)) if (auto *p = dyn_cast<PHINode>(A)) {
            bool anyC = false;
            for (auto &v : p->incoming_values()) if (isa<Constant>(v)) anyC = true;
            if (anyC && !head[p->getParent()]) {
                bool eq = pr == ICmpInst::ICMP_EQ;
                refinePhi(s, p, [&](St &x, const Value *v) {
                    if (v == B) { if (!eq) x.bot = true; return; }
                    if (isa<Constant>(v) && eq) { x.bot = true; return; }
                    if (isa<ConstantPointerNull>(B) && eq) { auto *q = dyn_cast<CallBase>(v->stripPointerCasts()); (void)q; }
                    bool u = U(p);
                    Val a = get(x, v, u), b = get(x, B, u);
                    if (a.k == VINT && b.k == VINT) cmp(x, a.e, b.e, pr, v->getType()->getIntegerBitWidth(), u);
                });
                if (s.bot) return;
            }
        }
        bool u = U(A) || U(B);
        Val a = get(s, A, u), b = get(s, B, u);
        if (a.k == VPTR && b.k == VPTR) {
            if (a.base > 0 && a.base == b.base) cmp(s, a.e, b.e, pr == ICmpInst::ICMP_ULT ? ICmpInst::ICMP_SLT : pr == ICmpInst::ICMP_ULE ? ICmpInst::ICMP_SLE : pr == ICmpInst::ICMP_UGT ? ICmpInst::ICMP_SGT : pr == ICmpInst::ICMP_UGE ? ICmpInst::ICMP_SGE : pr, 64);
            return;
        }
        if (a.k != VINT || b.k != VINT) return;
        cmp(s, a.e, b.e, pr, A->getType()->getIntegerBitWidth(), u);
    }
    void cmp(St &s, const Lin &a, const Lin &b, CmpInst::Predicate pr, unsigned w, bool u = false) {
        u |= w <= 16;
        try {
            Lin d = sub(b, a);   // b - a
            bool uns = ICmpInst::isUnsigned(pr);
            if (u && ICmpInst::isSigned(pr)) { I h = ((Num)1 << (w - 1)) - 1; if (!inRange(s, a, 0, h) || !inRange(s, b, 0, h)) return; uns = false; }
            if (!u && uns) {
                // a <u b with b not negative bounds a from both sides
                bool lt = pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_ULE;
                Lin small = lt ? a : b, large = lt ? b : a;
                bool strict = pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_UGT;
                if (ge0(s, large)) { assume(s, small); assume(s, comb(sub(large, small), 1, lc(1), strict ? -1 : 0)); }
                return;
            }
            switch (pr) {
                case ICmpInst::ICMP_EQ: assume(s, d, true); break;
                case ICmpInst::ICMP_NE:
                    if (d.isC()) { if (d.c == 0) s.bot = true; break; }
                    if (ge0(s, d)) assume(s, comb(d, 1, lc(1), -1)); else if (ge0(s, mulc(d, -1))) assume(s, comb(d, -1, lc(1), -1));
                    break;
                case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: assume(s, comb(d, 1, lc(1), -1)); break;
                case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: assume(s, d); break;
                case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: assume(s, comb(d, -1, lc(1), -1)); break;
                case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: assume(s, mulc(d, -1)); break;
                default: break;
            }
        } catch (Overflow &) {}
    }
    St join2(const St &a, const St &b, bool onlyA = false) {
        if (a.bot) return b;
        if (b.bot) return a;
        St r; r.bot = false;
        for (auto &g : a.flags) { auto it = b.flags.find(g.first); if (it != b.flags.end() && it->second == g.second) r.flags.insert(g); }
        r.cs = joinCons(a.cs, b.cs, onlyA);
        for (auto &c : wanted) if (!r.cs.count(c) && entails(a.cs, c.e) && entails(b.cs, c.e)) r.cs.insert(c);
        for (auto &m : a.mem) { auto it = b.mem.find(m.first); if (it != b.mem.end() && it->second.k == m.second.k && it->second.base == m.second.base && it->second.e == m.second.e) r.mem.insert(m); }
        return r;
    }
    bool okAt(int s, const BasicBlock *bb, bool phis) {
        const Instruction *d = symDef[s];
        if (!d) return true;
        if (d->getParent() == bb) return phis && isa<PHINode>(d);
        return DT.dominates(d->getParent(), bb);
    }
    SS edge(const BasicBlock *p, const BasicBlock *bb) {
        SS r;
        for (auto &s : outS[p]) { St e = edge1(s, p, bb); if (!e.bot) addTo(r, e); }
        return r;
    }
    void addTo(SS &v, const St &e) {
        for (auto &x : v) if (x.flags == e.flags) { x = join2(x, e); return; }
        v.push_back(e);
        if (v.size() > 12) { St a; for (auto &x : v) a = join2(a, x); a.flags.clear(); v = {a}; }
    }
    void findRetest() {
        std::map<const Value *, std::set<const BasicBlock *>> uses;
        std::function<void(const Value *, const BasicBlock *, int)> walk = [&](const Value *v, const BasicBlock *b, int d) {
            auto *I = dyn_cast<Instruction>(v);
            if (!I || d > 6) return;
            if (isa<ICmpInst>(I)) {
                uses[I].insert(b);
                auto *k = dyn_cast<ConstantInt>(I->getOperand(1));
                if (k && k->isZero() && (isa<ZExtInst>(I->getOperand(0)) || isa<PHINode>(I->getOperand(0)))) walk(I->getOperand(0), b, d + 1);
                return;
            }
            if (auto *p = dyn_cast<PHINode>(I)) { if (p->getType()->isIntegerTy(1) || p->getType()->isIntegerTy(8)) uses[I].insert(b); return; }
            if (isa<CallBase>(I) || isa<LoadInst>(I)) { if (I->getType()->isIntegerTy(1)) uses[I].insert(b); return; }
            if (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<SelectInst>(I)) for (auto &o : I->operands()) walk(o, b, d + 1);
        };
        for (auto &I : instructions(F)) {
            if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) walk(br->getCondition(), I.getParent(), 0); }
            else if (auto *se = dyn_cast<SelectInst>(&I)) walk(se->getCondition(), I.getParent(), 0);
        }
        for (auto &u : uses) if (u.second.size() > 1) retest.insert(u.first);
    }
    St edge1(St s, const BasicBlock *p, const BasicBlock *bb) {
        auto *T = p->getTerminator();
        if (auto *br = dyn_cast<BranchInst>(T)) { if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) refine(s, br->getCondition(), br->getSuccessor(0) == bb); }
        else if (auto *sw = dyn_cast<SwitchInst>(T)) {
            Val v = get(s, sw->getCondition());
            if (v.k == VINT) {
                unsigned w = sw->getCondition()->getType()->getIntegerBitWidth();
                bool u = U(sw->getCondition());
                auto cv = [&](const ConstantInt *k) { return w <= 16 || u ? (Num)k->getZExtValue() : (Num)k->getSExtValue(); };
                if (sw->getDefaultDest() == bb) { for (auto &c : sw->cases()) if (c.getCaseSuccessor() != bb) cmp(s, v.e, lc(cv(c.getCaseValue())), ICmpInst::ICMP_NE, w, u); }
                else {
                    St acc;
                    for (auto &c : sw->cases()) if (c.getCaseSuccessor() == bb) { St x = s; assume(x, comb(v.e, 1, lc(1), -cv(c.getCaseValue())), true); acc = acc.bot ? x : join2(acc, x); }
                    s = acc;
                }
            }
        }
        if (s.bot) return s;
        kindFacts(s);
        if (s.bot) return s;
        // phis, all at once
        std::vector<std::pair<int, int>> ren;
        std::vector<std::pair<int, Lin>> def;
        auto shares = [](const Lin &a, const Lin &b) { for (auto &t : b.t) if (!a.coef(t.first)) return false; return true; };
        for (auto &ph : bb->phis()) {
            Val v = get(s, ph.getIncomingValueForBlock(p), U(&ph));
            bool ptr = ph.getType()->isPointerTy();
            if (!ptr && (!ph.getType()->isIntegerTy() || ph.getType()->getIntegerBitWidth() > 64)) continue;
            if (ptr ? (v.k != VPTR || v.base <= 0) : v.k != VINT) continue;
            unsigned w = ptr ? 64 : ph.getType()->getIntegerBitWidth();
            int x = symOf(&ph, 0, w);
            Rng r = symRng[x];
            int t = sym(&ph, 1000, r.lo, r.hi, &ph);
            try { Con c{sub(v.e, ls(t)), true}; if (normCon(c) == 0) s.cs.insert(c); ren.push_back({t, x}); def.push_back({t, v.e}); } catch (Overflow &) {}
        }
        // state known bounds in terms of the new names, too: what the edges have in common shows there
        std::vector<Con> more;
        for (auto &d : def) {
            Lin df = sub(d.second, ls(d.first));
            for (auto &c : s.cs) if (!c.eq) for (int k : {1, -1}) try {
                Con n{comb(c.e, 1, df, k), false};
                if (d.second.isC() ? (d.second.c != 0 && n.e.c == 0 && c.e.t.size() == 1) : (n.e.t.size() <= c.e.t.size() && d.second.t.size() + c.e.t.size() > n.e.t.size() - 1 && shares(c.e, d.second))) if (normCon(n) == 0) more.push_back(n);
            } catch (Overflow &) {}
        }
        for (auto &n : more) s.cs.insert(n);
        std::set<int> used;
        for (auto &c : s.cs) for (auto &t : c.e.t) used.insert(t.first);
        std::set<int> tmp; for (auto &r : ren) tmp.insert(r.first);
        std::vector<int> kill;
        for (int u : used) if (!tmp.count(u) && !okAt(u, bb, false)) kill.push_back(u);
        // equalities with a unit coefficient first
        pairUp(s.cs);
        for (int u : kill) eliminate(s.cs, u);
        if (ren.size()) {
            Cons n;
            for (auto &c : s.cs) { Con d; d.eq = c.eq; d.e.c = c.e.c; for (auto &t : c.e.t) { int q = t.first; for (auto &r : ren) if (r.first == q) { q = r.second; break; } d.e.t.push_back({q, t.second}); } std::sort(d.e.t.begin(), d.e.t.end()); if (normCon(d) != 1) n.insert(d); }
            s.cs = n;
        }
        for (auto it2 = s.flags.begin(); it2 != s.flags.end();) { auto *d = cast<Instruction>(it2->first)->getParent(); if (d == bb || !DT.dominates(d, bb)) it2 = s.flags.erase(it2); else ++it2; }
        for (auto it2 = s.mem.begin(); it2 != s.mem.end();) {
            bool ok = true;
            for (const Lin *e : {(const Lin *)&it2->first.off, (const Lin *)&it2->second.e}) for (auto &t : e->t) if (!okAt(t.first, bb, false)) ok = false;
            for (int b : {it2->first.base, it2->second.k == VPTR ? it2->second.base : 0}) if (b > 0 && !baseOk(b, bb)) ok = false;
            if (!ok) it2 = s.mem.erase(it2); else ++it2;
        }
        return s;
    }
    // what every position in a region should satisfy at a loop head
    std::vector<Con> positions(const BasicBlock *bb) {
        std::vector<Con> r;
        for (auto &ph : bb->phis()) if (ph.getType()->isPointerTy()) {
            auto it = env.find(&ph);
            if (it == env.end() || it->second.k != VPTR || !regions.count(it->second.base)) continue;
            for (const Lin &e : {it->second.e, sub(regions[it->second.base], it->second.e)}) { Con c{e, false}; if (normCon(c) == 0) r.push_back(c); }
        }
        // what a counter is compared with
        if (head.count(bb)) for (auto &ph : bb->phis()) if (ph.getType()->isIntegerTy()) {
            auto me = env.find(&ph);
            if (me == env.end() || me->second.k != VINT) continue;
            std::set<const Value *> as{&ph};
            std::vector<const Value *> wl{&ph};
            while (!wl.empty()) {
                auto *v = wl.back(); wl.pop_back();
                for (auto *u : v->users()) {
                    if (isa<CastInst>(u) && as.insert(u).second) wl.push_back(u);
                    auto *cm = dyn_cast<ICmpInst>(u);
                    if (!cm) continue;
                    const Value *o = cm->getOperand(cm->getOperand(0) == v);
                    auto it = env.find(o);
                    if (isa<Constant>(o) || it == env.end() || it->second.k != VINT) continue;
                    bool ok = true;
                    for (auto &t : it->second.e.t) if (!okAt(t.first, bb, false)) ok = false;
                    if (!ok) continue;
                    for (int sg : {1, -1}) { Con c{mulc(sub(it->second.e, me->second.e), sg), false}; if (normCon(c) == 0) r.push_back(c); }
                }
            }
        }
        return r;
    }
    bool baseOk(int b, const BasicBlock *bb) {
        for (auto &k : baseOf) if (k.second == b) { auto *I = dyn_cast<Instruction>(k.first.first); return !I || (I->getParent() != bb && DT.dominates(I->getParent(), bb)); }
        return true;
    }
    void setPhis(const BasicBlock *bb) {
        for (auto &ph : bb->phis()) {
            Val r;
            if (ph.getType()->isPointerTy()) {
                int base = -1; bool bad = false, reg = false;
                for (auto &v : ph.incoming_values()) {
                    if (v == &ph) continue;
                    auto *I = dyn_cast<Instruction>(v);
                    if (I && !env.count(I)) continue;        // not analysed yet
                    St d; Val x = get(d, v);
                    if (x.k != VPTR) { bad = true; continue; }
                    if (x.base == -1) continue;
                    if (regions.count(x.base)) reg = true;
                    if (base == -1) base = x.base; else if (base != x.base) bad = true;
                }
                if (bad) { if (reg && final) notes.insert("a pointer that may or may not lead into the region (" + F.getName().str() + ")"); int b = newBase(&ph); loaded.insert(b); r = P_(b, lc(0)); }
                else if (base == -1) r = P_(-1, lc(0));
                else r = P_(base, ls(symOf(&ph, 0, 64)));
            } else if (ph.getType()->isIntegerTy() && ph.getType()->getIntegerBitWidth() <= 64) r = I_(ls(symOf(&ph, 0, ph.getType()->getIntegerBitWidth())));
            auto it = env.find(&ph);
            if (it != env.end() && (it->second.k != r.k || it->second.base != r.base)) unstable = true;
            env[&ph] = r;
        }
    }
    void setEnv(const Instruction *I, const Val &v) { env[I] = v; }

    Val loadV(St &s, const Instruction *I, const Val &p, Type *t) {
        unsigned sz = F.getParent()->getDataLayout().getTypeStoreSize(t);
        if (p.k == VPTR && p.base != 0) {
            MemKey k{p.base, p.e, (int)sz};
            auto it = s.mem.find(k);
            if (it != s.mem.end() && (it->second.k == VPTR) == t->isPointerTy() && it->second.k != VUNK && (sz != 4 || it->second.k != VINT || it->second.rep == (U(I) ? 2 : 1) || inRange(s, it->second.e, 0, ((Num)1 << 31) - 1))) return it->second;
            Val v = unk(I);
            if (v.k == VPTR) { v = P_(newBase(I), lc(0)); loaded.insert(v.base); }
            if (sz == 4) v.rep = U(I) ? 2 : 1;
            if (v.k == VINT || v.k == VPTR) s.mem[k] = v;
            return v;
        }
        return unk(I);
    }
    void forgetSym(St &s, const Instruction *I) { auto it = syms.find({I, 0}); if (it != syms.end()) { bool u = false; for (auto &c : s.cs) if (c.e.coef(it->second)) u = true; if (u) eliminate(s.cs, it->second); } }

    void divide(St &s, const Instruction *I, const Lin &x, Num k, Val &q, Val &r) {
        // x >= 0, k >= 1: x = k*q + r
        int qs, rs;
        bool fixed = true;                       // x has one value throughout: so have the quotient and the rest
        for (auto &t : x.t) if (symDef[t.first] && symDef[t.first]->getParent() != &F.getEntryBlock()) fixed = false;
        auto it = divs.find({x, k});
        if (fixed && it != divs.end()) { qs = it->second.first; rs = it->second.second; }
        else {
            int u = 1000 + 2 * divs.size();
            qs = fixed ? sym(nullptr, u, 0, ((Num)1 << 63) - 1, nullptr) : sym(I, 1, 0, ((Num)1 << 63) - 1, I);
            rs = fixed ? sym(nullptr, u + 1, 0, k - 1, nullptr) : sym(I, 2, 0, k - 1, I);
            if (fixed) divs[{x, k}] = {qs, rs};
        }
        assume(s, sub(x, add(mulc(ls(qs), k), ls(rs))), true);
        q = I_(ls(qs)); r = I_(ls(rs));
    }
    void run(St &s, const Instruction &I0) {
        const Instruction *I = &I0;
        cur = I;
        if (isa<PHINode>(I)) return;
        if (I->isTerminator()) return;
        const DataLayout &DL = F.getParent()->getDataLayout();
        unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 0;
        if (w > 64) { setEnv(I, Val()); return; }
        try {
        if (auto *al = dyn_cast<AllocaInst>(I)) { int b = newBase(al); fresh.insert(b); setEnv(I, P_(b, lc(0))); return; }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
            Val p = get(s, g->getPointerOperand());
            if (p.k != VPTR || p.base <= 0) { setEnv(I, p.k == VPTR ? p : Val()); return; }
            unsigned bw = DL.getIndexSizeInBits(0);
            MapVector<Value *, APInt> vo; APInt co(bw, 0);
            if (!g->collectOffset(DL, bw, vo, co)) { setEnv(I, P_(p.base, ls(symOf(I, 0, 64)))); return; }
            Lin e = add(p.e, lc(co.getSExtValue()));
            for (auto &v : vo) {
                Val x = get(s, v.first);
                if (x.k != VINT) { setEnv(I, P_(p.base, ls(symOf(I, 0, 64)))); return; }
                unsigned vw = v.first->getType()->getIntegerBitWidth();
                if (U(v.first) && !inRange(s, x.e, 0, ((Num)1 << (vw - 1)) - 1)) { setEnv(I, P_(p.base, ls(symOf(I, 0, 64)))); return; }
                e = comb(e, 1, x.e, v.second.getSExtValue());
            }
            if (!inRange(s, e, -((Num)1 << 63), ((Num)1 << 63) - 1)) e = ls(symOf(I, 0, 64));
            setEnv(I, P_(p.base, e));
            return;
        }
        if (auto *l = dyn_cast<LoadInst>(I)) {
            Val p = get(s, l->getPointerOperand());
            access(s, I, p, I_(lc(DL.getTypeStoreSize(l->getType()))), false);
            setEnv(I, loadV(s, I, p, l->getType()));
            return;
        }
        if (auto *st = dyn_cast<StoreInst>(I)) {
            Val p = get(s, st->getPointerOperand());
            int sz = DL.getTypeStoreSize(st->getValueOperand()->getType());
            access(s, I, p, I_(lc(sz)), true);
            if (p.k != VPTR || p.base == 0) { clobber(s, 0, nullptr, 0); return; }
            if (p.base < 0) return;
            clobber(s, p.base, &p.e, sz);
            Val v = get(s, st->getValueOperand());
            if (sz == 4) v.rep = U(st->getValueOperand()) ? 2 : 1;
            if (v.k != VUNK && !st->isVolatile()) s.mem[{p.base, p.e, sz}] = v;
            return;
        }
        if (auto *c = dyn_cast<CallBase>(I)) { call(s, c); return; }
        if (auto *bo = dyn_cast<BinaryOperator>(I)) {
            if (!w) { setEnv(I, Val()); return; }
            bool u = U(I) && bo->getOpcode() != Instruction::Add && bo->getOpcode() != Instruction::Sub;
            Val a = get(s, I->getOperand(0), u), b = get(s, I->getOperand(1), u);
            if (w == 32 && bo->getOpcode() == Instruction::And) { b = get(s, I->getOperand(1), true); bool ua = U(I->getOperand(0)), ub = U(I->getOperand(1)) || isa<Constant>(I->getOperand(1)); if ((!ua && a.k == VINT && !ge0(s, a.e)) || (!ub && b.k == VINT && !ge0(s, b.e)) || isa<Constant>(I->getOperand(0))) { if (auto *k = dyn_cast<ConstantInt>(I->getOperand(1))) if (k->getSExtValue() >= 0) { setEnv(I, I_(ls(sym(I, 3, 0, k->getSExtValue(), I)))); return; } setEnv(I, unk(I)); return; } }
            if (a.k == VPTR || b.k == VPTR) { setEnv(I, unk(I)); return; }
            if (a.k != VINT || b.k != VINT) { setEnv(I, unk(I)); return; }
            bool nw = false;
            if (auto *o = dyn_cast<OverflowingBinaryOperator>(bo)) nw = !U(I) && o->hasNoSignedWrap();
            switch (bo->getOpcode()) {
                case Instruction::Add: setEnv(I, fit(s, I, add(a.e, b.e), w, nw)); return;
                case Instruction::Sub: setEnv(I, fit(s, I, sub(a.e, b.e), w, nw)); return;
                case Instruction::Mul:
                    if (b.e.isC()) { setEnv(I, fit(s, I, mulc(a.e, b.e.c), w, nw)); return; }
                    if (a.e.isC()) { setEnv(I, fit(s, I, mulc(b.e, a.e.c), w, nw)); return; }
                    break;
                case Instruction::Shl:
                    if (b.e.isC() && b.e.c >= 0 && b.e.c < w) { setEnv(I, fit(s, I, mulc(a.e, (__int128)1 << (int)b.e.c), w, nw)); return; }
                    break;
                case Instruction::UDiv: case Instruction::LShr: case Instruction::SDiv: case Instruction::AShr: case Instruction::URem: case Instruction::SRem: {
                    if (!b.e.isC() || b.e.c < 0) break;
                    bool sh = bo->getOpcode() == Instruction::LShr || bo->getOpcode() == Instruction::AShr;
                    if (sh && b.e.c >= w) break;
                    __int128 k = sh ? (__int128)1 << (int)b.e.c : b.e.c;
                    if (k < 1) break;
                    bool rem = bo->getOpcode() == Instruction::URem || bo->getOpcode() == Instruction::SRem;
                    if (a.e.isC() && a.e.c >= 0) { setEnv(I, I_(lc(rem ? a.e.c % k : a.e.c / k))); return; }
                    if (ge0(s, a.e)) { Val q, r; divide(s, I, a.e, k, q, r); setEnv(I, rem ? r : q); return; }
                    if (bo->getOpcode() == Instruction::UDiv || bo->getOpcode() == Instruction::LShr) { if (k > 1) { setEnv(I, I_(ls(sym(I, 3, 0, (((unsigned __int128)1 << w) - 1) / k, I)))); return; } }
                    if (bo->getOpcode() == Instruction::URem) { setEnv(I, I_(ls(sym(I, 3, 0, k - 1, I)))); return; }
                    break;
                }
                case Instruction::And: {
                    if (a.e.isC() && !b.e.isC()) std::swap(a, b);
                    if (!b.e.isC()) { if (ge0(s, a.e) && ge0(s, b.e)) { Val v = unk(I); assume(s, v.e); assume(s, sub(a.e, v.e)); assume(s, sub(b.e, v.e)); setEnv(I, v); return; } break; }
                    __int128 m = b.e.c;
                    if (m >= 0 && ((m + 1) & m) == 0) {                       // low bits
                        if (ge0(s, a.e)) { Val q, r; divide(s, I, a.e, m + 1, q, r); setEnv(I, r); return; }
                        setEnv(I, I_(ls(sym(I, 3, 0, m, I)))); return;
                    }
                    __int128 mm = w <= 32 ? m - ((__int128)1 << w) : m;       // as a signed mask
                    if (mm < 0 && ((-mm) & (-mm - 1)) == 0) {                  // high bits: a - a % k
                        if (ge0(s, a.e)) { Val q, r; divide(s, I, a.e, -mm, q, r); setEnv(I, I_(sub(a.e, r.e))); return; }
                        break;
                    }
                    if (m >= 0) { setEnv(I, I_(ls(sym(I, 3, 0, m, I)))); return; }
                    break;
                }
                case Instruction::Or: case Instruction::Xor:
                    if (ge0(s, a.e) && ge0(s, b.e)) { Val v = unk(I); assume(s, v.e); assume(s, sub(add(a.e, b.e), v.e)); setEnv(I, v); return; }
                    break;
                default: break;
            }
            setEnv(I, unk(I));
            return;
        }
        if (auto *ca = dyn_cast<CastInst>(I)) {
            Val a = get(s, I->getOperand(0));
            Type *st = I->getOperand(0)->getType();
            unsigned w0 = st->isIntegerTy() ? st->getIntegerBitWidth() : 0;
            switch (ca->getOpcode()) {
                case Instruction::ZExt:
                    if (a.k != VINT) break;
                    if (U(I->getOperand(0)) || ge0(s, a.e)) { setEnv(I, a); return; }
                    setEnv(I, I_(ls(sym(I, 4, 0, ((__int128)1 << w0) - 1, I)))); return;
                case Instruction::SExt:
                    if (a.k != VINT) break;
                    if (!U(I->getOperand(0))) { setEnv(I, a); return; }
                    if (inRange(s, a.e, 0, ((__int128)1 << (w0 - 1)) - 1)) { setEnv(I, a); return; }
                    break;
                case Instruction::Trunc: {
                    if (a.k != VINT) break;
                    Rng r = rngV(I, w);
                    if (inRange(s, a.e, r.lo, r.hi)) { setEnv(I, a); return; }
                    break;
                }
                case Instruction::PtrToInt: if (a.k == VPTR && a.base > 0) { setEnv(I, fit(s, I, add(ls(addrSym(a.base)), a.e), 64)); return; } break;
                case Instruction::IntToPtr:
                    if (a.k == VINT) for (auto &p : addr) if (a.e.coef(p.second) == 1) { setEnv(I, P_(p.first, sub(a.e, ls(p.second)))); return; }
                    break;
                case Instruction::BitCast: setEnv(I, a); return;
                default: break;
            }
            setEnv(I, unk(I));
            return;
        }
        if (auto *se = dyn_cast<SelectInst>(I)) {
            if (!w && !I->getType()->isPointerTy()) { setEnv(I, Val()); return; }
            St a = s, b = s;
            refine(a, se->getCondition(), true); refine(b, se->getCondition(), false);
            Val x = get(a, se->getTrueValue(), U(I)), y = get(b, se->getFalseValue(), U(I));
            if (a.bot) { setEnv(I, y); if (!b.bot) s = b; return; }
            if (b.bot) { setEnv(I, x); s = a; return; }
            if (x.k == VPTR && y.k == VPTR) {
                if (x.base == -1) { setEnv(I, y); return; }
                if (y.base == -1) { setEnv(I, x); return; }
                if (x.base != y.base) { if ((regions.count(x.base) || regions.count(y.base)) && final) notes.insert("a pointer that may or may not lead into the region"); setEnv(I, unk(I)); return; }
            } else if (x.k != VINT || y.k != VINT) { setEnv(I, unk(I)); return; }
            int z = symOf(I, 0, w ? w : 64);
            assume(a, sub(x.e, ls(z)), true); assume(b, sub(y.e, ls(z)), true);
            auto keep = wanted;
            if (!w && regions.count(x.base)) { wanted.push_back({ls(z), false}); wanted.push_back({sub(regions[x.base], ls(z)), false}); }
            s = join2(a, b);
            wanted = keep;
            setEnv(I, w ? I_(ls(z)) : P_(x.base, ls(z)));
            return;
        }
        if (isa<FreezeInst>(I)) { setEnv(I, get(s, I->getOperand(0))); return; }
        if (auto *c = dyn_cast<ICmpInst>(I)) { setEnv(I, I_(ls(symOf(I, 0, 1)))); (void)c; return; }
        } catch (Overflow &) {}
        setEnv(I, unk(I));
    }
    // the result of a function that only reads: the same until something it may read is written
    bool pureResult(St &s, const CallBase *c, StringRef nm, I lo, I hi) {
        Val a = get(s, c->getArgOperand(0));
        if (a.k != VPTR || a.base <= 0) return false;
        int b = newBase(c->getCalledFunction(), comb(a.e, 1, lc(1), (I)a.base << 32)); loaded.insert(b);
        MemKey k{b, lc(0), 8};
        auto it = s.mem.find(k);
        if (it == s.mem.end()) it = s.mem.insert({k, I_(ls(sym(c, 5, lo, hi, c)))}).first;
        setEnv(c, it->second);
        return true;
    }
    bool contract(St &s, const CallBase *c, StringRef nm) {
        if (nm == "__vf_directory") {
            Val p = get(s, c->getArgOperand(0)), n = get(s, c->getArgOperand(1));
            if (p.k != VPTR || p.base <= 0 || !(p.e == lc(0)) || n.k != VINT) { lost = true; return true; }
            dirBase = p.base; dirSize = n.e;
            for (int a = 0; a < NATTR; a++) dirTotal[a] = sym(c, 30 + a, 0, (I)1 << 37, nullptr);
            return true;
        }
        if (nm == "__vf_attr") { auto *u = dyn_cast<CallBase>(c->getArgOperand(0)); setEnv(c, u ? I_(ls(attrOf(u, cast<ConstantInt>(c->getArgOperand(1))->getZExtValue()))) : unk(c)); return true; }
        if (nm == "__vf_visit") {
            if (s.bot || !dirBase) return true;
            Val p = get(s, c->getArgOperand(0)), n = get(s, c->getArgOperand(1));
            bool ok = false;
            if (p.k == VPTR && n.k == VINT) for (auto &m : s.mem) if (m.first.base == dirBase && m.second.k == VPTR && m.second.base == p.base && m.second.e == p.e && entailsEq(s.cs, sub(m.first.off, mulc(n.e, 8)))) ok = true;
            if (!ok && final && dbg) { std::string fn, st; fprintf(stderr, "VISIT %s n=%s p=%d:%s\n", where(c->getPrevNode(), fn, st).c_str(), str(n.e).c_str(), p.base, str(p.e).c_str()); setenv("BMEM", "1", 1); dump(s); }
            if (!ok) { if (final) notes.insert("containers that are not visited one after the other"), lost = true; return true; }
            if (!ge0(s, comb(sub(dirSize, n.e), 1, lc(1), -1))) return true;
            for (int a = 0; a < NATTR; a++) { Val x = get(s, c->getArgOperand(2 + a)); if (x.k == VINT) assume(s, sub(ls(dirTotal[a]), x.e)); }
            return true;
        }
        if (nm == "__vf_total") {
            if (s.bot || !dirBase) return true;
            Val n = get(s, c->getArgOperand(0));
            if (n.k != VINT || !entailsEq(s.cs, sub(n.e, dirSize))) return true;
            for (int a = 0; a < NATTR; a++) { Val x = get(s, c->getArgOperand(1 + a)); if (x.k == VINT) assume(s, sub(ls(dirTotal[a]), x.e), true); }
            return true;
        }
        if (!opaque.count(nm.str())) return false;
        if (nm == UNWRAP) {
            int b = newBase(c); loaded.insert(b);
            for (auto it = s.mem.begin(); it != s.mem.end();) if (it->first.base == b) it = s.mem.erase(it); else ++it;
            Val t = get(s, c->getArgOperand(1));
            if (t.k == VPTR && t.base > 0) { clobber(s, t.base, &t.e, 1); s.mem[{t.base, t.e, 1}] = I_(ls(kindOf(c))); } else lost = true;
            Val m = I_(ls(countOf(c))); m.rep = 1;
            s.mem[{b, lc(0), 4}] = m;
            setEnv(c, P_(b, lc(0)));
            return true;
        }
        if (nm == "ra_has_run_container") return pureResult(s, c, nm, 0, 1);
        if (nm == "roaring_bitmap_get_cardinality") return pureResult(s, c, nm, 0, (I)1 << 32);
        if (nm == "roaring_bitmap_to_uint32_array") {
            // four bytes for each value
            Val a = get(s, c->getArgOperand(0)), to = get(s, c->getArgOperand(1)), len;
            for (auto &k : baseOf) if (auto *f = dyn_cast<Function>(k.first.first)) if (plainName(f) == "roaring_bitmap_get_cardinality" && a.k == VPTR && k.first.second == comb(a.e, 1, lc(1), (I)a.base << 32)) { auto it = s.mem.find({k.second, lc(0), 8}); if (it != s.mem.end()) len = I_(mulc(it->second.e, 4)); }
            access(s, c, to, len, true);
            return true;
        }
        return false;
    }
    void call(St &s, const CallBase *c) {
        const Function *d = c->getCalledFunction();
        StringRef nm = d ? d->getName() : "";
        if (isa<DbgInfoIntrinsic>(c)) return;
        if (auto *m = dyn_cast<MemTransferInst>(c)) {
            Val to = get(s, m->getDest()), from = get(s, m->getSource()), n = get(s, m->getLength());
            access(s, c, from, n, false); access(s, c, to, n, true);
            if (to.k != VPTR || to.base == 0) clobber(s, 0, nullptr, 0);
            else if (to.base > 0) clobber(s, to.base, n.k == VINT && n.e.isC() ? &to.e : nullptr, n.k == VINT && n.e.isC() ? (int)n.e.c : 0);
            return;
        }
        if (auto *m = dyn_cast<MemSetInst>(c)) {
            Val to = get(s, m->getDest()), n = get(s, m->getLength());
            access(s, c, to, n, true);
            if (to.k == VPTR && to.base > 0) clobber(s, to.base, n.k == VINT && n.e.isC() ? &to.e : nullptr, n.k == VINT && n.e.isC() ? (int)n.e.c : 0);
            return;
        }
        if (nm == "__vf_region") {
            Val p = get(s, c->getArgOperand(0)), n = get(s, c->getArgOperand(1));
            if (p.k == VPTR && p.base > 0 && n.k == VINT && p.e.isC() && p.e.c == 0) { regions[p.base] = n.e; assume(s, n.e); assume(s, comb(n.e, -1, lc(1), MAXSZ)); }
            else if (!s.bot) notes.insert("region could not be set up");
            return;
        }
        if (nm == "__vf_equal") {
            if (final && !s.bot) {
                obligations++;
                Val a = get(s, c->getArgOperand(0)), b = get(s, c->getArgOperand(1));
                if (a.k != VINT || b.k != VINT || !entailsEq(s.cs, sub(a.e, b.e))) { finding(c, "SIZEDIFF", "the announced size and the number of bytes written differ"); if (dbg && a.k == VINT && b.k == VINT) { fprintf(stderr, "a %s b %s\n", str(a.e).c_str(), str(b.e).c_str()); dump(s); } }
            }
            return;
        }
        if (nm == "__vf_assume") { refine(s, c->getArgOperand(0), true); return; }
        if (isAlloc(nm)) {
            int b = newBase(c); fresh.insert(b);
            clobber(s, b, nullptr, 0);
            setEnv(c, P_(b, lc(0)));
            return;
        }
        if (isFree(nm)) return;
        if (contract(s, c, plainName(d))) return;
        if (d && d->isIntrinsic()) {
            if (d->getIntrinsicID() == Intrinsic::umin || d->getIntrinsicID() == Intrinsic::smin) { Val a = get(s, c->getArgOperand(0)), b = get(s, c->getArgOperand(1)); if (a.k == VINT && b.k == VINT && ge0(s, a.e) && ge0(s, b.e)) { Val v = unk(c); assume(s, v.e); assume(s, sub(a.e, v.e)); assume(s, sub(b.e, v.e)); setEnv(c, v); return; } }
            if (d->getIntrinsicID() == Intrinsic::ctpop || d->getIntrinsicID() == Intrinsic::ctlz || d->getIntrinsicID() == Intrinsic::cttz) { setEnv(c, I_(ls(sym(c, 3, 0, 64, c)))); return; }
            for (auto &a : c->args()) { Val v = a->getType()->isPointerTy() ? get(s, a) : Val(); if (v.k == VPTR && regions.count(v.base)) notes.insert(("region handed to " + nm).str()); }
            if (!c->getType()->isVoidTy()) setEnv(c, unk(c));
            return;
        }
        // anything else may change what it can reach
        if (nm == "memcmp" || nm == "strlen") { }
        if (auto *ia = dyn_cast<InlineAsm>(c->getCalledOperand())) if (ia->getConstraintString().find("memory") == std::string::npos) {
            bool ptr = false;
            for (auto &a : c->args()) if (a->getType()->isPointerTy()) ptr = true;
            if (!ptr) { if (!c->getType()->isVoidTy()) setEnv(c, unk(c)); return; }
        }
        bool touches = !(d && (d->doesNotAccessMemory() || d->onlyReadsMemory()));
        bool anywhere = touches && !(d && (d->getMemoryEffects() & MemoryEffects::writeOnly()).getWithoutLoc(IRMemLocation::ArgMem).getWithoutLoc(IRMemLocation::InaccessibleMem).doesNotAccessMemory());
        for (auto &a : c->args()) if (a->getType()->isPointerTy()) {
            Val v = get(s, a);
            if (v.k == VPTR && regions.count(v.base)) { if (final && !s.bot) notes.insert(("region handed to " + (nm.empty() ? StringRef("a function pointer") : nm)).str()); }
            else if (v.k == VPTR && v.base > 0 && touches) clobber(s, v.base, nullptr, 0);
        }
        if (anywhere) for (auto it = s.mem.begin(); it != s.mem.end();) if (!regions.count(it->first.base) && (loaded.count(it->first.base) || escaped(it->first.base))) it = s.mem.erase(it); else ++it;
        if (!c->getType()->isVoidTy()) setEnv(c, unk(c));
    }
    // has its address got out by the time cur is executed (stored somewhere, handed to a call, or the caller's)?
    struct Esc { bool always = false; const Instruction *def = nullptr; std::set<const Instruction *> at; std::set<const BasicBlock *> after; };
    std::map<int, Esc> esc;
    const Instruction *cur = nullptr;
    bool escaped(int b) {
        auto it = esc.find(b);
        if (it == esc.end()) it = esc.insert({b, mkEsc(b)}).first;
        Esc &e = it->second;
        if (e.always || !cur) return true;
        if (e.after.count(cur->getParent())) return e.def->getParent() != cur->getParent() || cur->comesBefore(e.def) || sameBlock(e);
        return sameBlock(e);
    }
    bool sameBlock(const Esc &e) { for (auto *x : e.at) if (x->getParent() == cur->getParent() && x->comesBefore(cur) && !(e.def->getParent() == cur->getParent() && x->comesBefore(e.def) && e.def->comesBefore(cur))) return true; return false; }
    Esc mkEsc(int b) {
        const Value *v = nullptr;
        for (auto &k : baseOf) if (k.second == b) v = k.first.first;
        Esc e;
        if (auto *g = v ? dyn_cast<GlobalVariable>(v) : nullptr; g && g->isConstant()) { e.def = &*F.getEntryBlock().begin(); return e; }
        if (auto *g = v ? dyn_cast<GlobalVariable>(v) : nullptr; g && g->hasLocalLinkage()) {
            bool direct = true;
            for (auto *u : g->users()) if (!isa<LoadInst>(u) && !(isa<StoreInst>(u) && cast<StoreInst>(u)->getValueOperand() != g)) direct = false;
            if (direct) { e.def = &*F.getEntryBlock().begin(); return e; }
        }
        e.def = v ? dyn_cast<Instruction>(v) : nullptr;
        if (!e.def) { e.always = true; return e; }
        std::vector<const Value *> wl{v}; std::set<const Value *> seen;
        while (!wl.empty()) {
            const Value *x = wl.back(); wl.pop_back();
            if (!seen.insert(x).second) continue;
            for (auto *u : x->users()) {
                if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getValueOperand() == x) e.at.insert(st); }
                else if (auto *c = dyn_cast<CallBase>(u)) {
                    auto *d = c->getCalledFunction();
                    if (d && (d->isIntrinsic() || isFree(d->getName()) || d->getName() == "__vf_region")) continue;
                    for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i) == x && !c->doesNotCapture(i)) e.at.insert(c);
                } else if (isa<PtrToIntInst>(u)) { for (auto *w : u->users()) if (!isa<CmpInst>(w) && !isa<BinaryOperator>(w)) e.at.insert(cast<Instruction>(u)); }
                else if (isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<CastInst>(u)) wl.push_back(u);
                else if (isa<ReturnInst>(u) || isa<CmpInst>(u) || isa<LoadInst>(u)) continue;
                else e.always = true;
            }
        }
        std::vector<const BasicBlock *> bl;
        for (auto *x : e.at) if (!(x->getParent() == e.def->getParent() && x->comesBefore(e.def))) for (auto *s : successors(x->getParent())) bl.push_back(s);
        while (!bl.empty()) {
            auto *x = bl.back(); bl.pop_back();
            if (!e.after.insert(x).second || x == e.def->getParent()) continue;
            for (auto *s : successors(x)) bl.push_back(s);
        }
        return e;
    }
    void runBlock(St &x, const BasicBlock *bb) { for (auto &I : *bb) { run(x, I); if (x.bot) break; } }
    // run every state; where they disagree on what a value is, name it by its symbol
    void unifyEnv(SS &in, const BasicBlock *bb, SS &out) {
        std::vector<std::map<const Value *, Val>> res;
        std::vector<const Instruction *> is;
        for (auto &I : *bb) if (!isa<PHINode>(I) && !I.getType()->isVoidTy()) is.push_back(&I);
        for (auto &x : in) {
            runBlock(x, bb);
            if (x.bot) continue;
            std::map<const Value *, Val> m;
            for (auto *I : is) { auto it = env.find(I); if (it != env.end()) m[I] = it->second; }
            res.push_back(m); out.push_back(x);
        }
        if (res.size() < 2) return;
        for (auto *I : is) {
            bool same = true;
            int base = -1; bool bad = false, ptr = I->getType()->isPointerTy(), in = I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64;
            for (auto &m : res) {
                Val &v = m[I], &w = res[0][I];
                if (v.k != w.k || v.base != w.base || !(v.e == w.e)) same = false;
                if (ptr) { if (v.k != VPTR) bad = true; else if (v.base != -1) { if (base == -1) base = v.base; else if (base != v.base) bad = true; } }
                else if (v.k != VINT) bad = true;
            }
            if (same) continue;
            if (!ptr && !in) { env[I] = Val(); continue; }
            if (bad) { bool rg = false; for (auto &m : res) if (m[I].k == VPTR && regions.count(m[I].base)) rg = true; if (rg && final) notes.insert("a pointer that may or may not lead into the region"); if (ptr) { int b = newBase(I); loaded.insert(b); env[I] = P_(b, lc(0)); continue; } }
            int z = symOf(I, 0, ptr ? 64 : I->getType()->getIntegerBitWidth());
            for (size_t i = 0; i < res.size(); i++) { Val &v = res[i][I]; if (v.k == VUNK || (ptr && v.base != base)) continue; if (v.e == ls(z)) continue; try { assume(out[i], sub(v.e, ls(z)), true); } catch (Overflow &) {} }
            env[I] = ptr ? P_(base, ls(z)) : I_(ls(z));
        }
        SS o2; for (auto &x : out) if (!x.bot) o2.push_back(x);
        out = o2;
    }
    bool analyse() {
        std::vector<const BasicBlock *> order;
        { ReversePostOrderTraversal<const Function *> R(&F); for (auto *b : R) order.push_back(b); }
        std::map<const BasicBlock *, int> pos;
        for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
        for (auto *b : order) for (auto *p : predecessors(b)) if (pos.count(p) && pos[p] >= pos[b]) head[b] = true;
        findRetest();
        webs();
        for (auto &I : instructions(F)) if (isUnwrap(I)) unwraps.push_back(cast<CallBase>(&I));
        for (sweep = 0; sweep < 60; sweep++) {
            bool changed = false;
            unstable = false;
            for (auto *bb : order) {
                SS in;
                setPhis(bb);
                wanted = positions(bb);
                if (bb == order[0]) { St z; z.bot = false; in.push_back(z); }
                else {
                    std::vector<const BasicBlock *> ps(pred_begin(bb), pred_end(bb));
                    std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
                    std::sort(ps.begin(), ps.end(), [&](auto *a, auto *b) { return pos[a] < pos[b]; });
                    for (auto *p : ps) if (pos.count(p)) { SS e = edge(p, bb); edges[{p, bb}] = e; for (auto &x : e) addTo(in, x); }
                    if (head[bb]) {
                        SS &old = inv[bb];
                        if (in.size()) visits[bb]++;
                        for (auto &x : in) {
                            St *o = nullptr;
                            for (auto &y : old) if (y.flags == x.flags) o = &y;
                            if (!o) { changed = true; old.push_back(x); continue; }
                            St n = join2(*o, x, visits[bb] > 6);
                            if (n.cs == o->cs && n.mem.size() == o->mem.size()) continue;
                            bool weaker = n.mem.size() != o->mem.size();
                            for (auto &c : o->cs) if (!n.cs.count(c) && !(c.eq ? entailsEq(n.cs, c.e) : entails(n.cs, c.e))) weaker = true;
                            if (weaker) changed = true;
                            if (weaker || visits[bb] <= 6) *o = n;
                        }
                        if (old.size() > 12) { St a; for (auto &x : old) a = join2(a, x); a.flags.clear(); old = {a}; changed = true; }
                        if (dbg && getenv("BHEAD")) { std::string n; raw_string_ostream o(n); bb->printAsOperand(o, false); if (n == getenv("BHEAD")) for (auto &x : old) { fprintf(stderr, "HEAD sweep %d\n", sweep); dump(x); } }
                        in = old;
                    }
                }
                wanted.clear();
                SS out;
                if (getenv("BBLOCK") && final) for (auto &x : in) { fprintf(stderr, "== "); bb->printAsOperand(errs(), false); fprintf(stderr, "%s", head[bb] ? " HEAD" : ""); for (auto &g : x.flags) { g.first->printAsOperand(errs(), false); fprintf(stderr, "=%d ", g.second); } fprintf(stderr, "\n"); dump(x); }
                // every state has its own view of the values computed here
                if (in.size() > 1) unifyEnv(in, bb, out);
                else for (auto &x : in) { runBlock(x, bb); if (!x.bot) out.push_back(x); }
                outS[bb] = out;
            }
            if (final) return !unstable && !changed;
            if (!changed && !unstable) { final = true; }
        }
        return false;
    }
};

int main(int argc, char **argv) {
    LLVMContext C; SMDiagnostic E;
    std::vector<std::string> clients;
    std::unique_ptr<Module> M = parseIRFile(argv[1], E, C);
    if (!M) { fprintf(stderr, "cannot read %s\n", argv[1]); return 2; }
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "--with")) { auto N = parseIRFile(argv[++i], E, C); if (!N || Linker::linkModules(*M, std::move(N))) { fprintf(stderr, "cannot link %s\n", argv[i]); return 2; } }
        else if (!strcmp(argv[i], "--opaque")) opaque.insert(argv[++i]);
        else clients.push_back(argv[i]);
    }
    for (auto &f : *M) f.removeFnAttr(Attribute::NoInline), f.removeFnAttr(Attribute::OptimizeNone);
    for (auto &f : *M) if (isAlloc(f.getName()) && f.getReturnType()->isPointerTy() && !f.getName().contains("realloc")) f.addRetAttr(Attribute::NoAlias);
    for (auto &f : *M) if (f.isDeclaration() && f.getName().startswith("__vf_")) { f.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); f.setDoesNotThrow(); f.addFnAttr(Attribute::WillReturn); for (auto &a : f.args()) if (a.getType()->isPointerTy()) a.addAttr(Attribute::NoCapture); }
    for (auto &f : *M) if (f.isDeclaration() && f.doesNotReturn()) f.setMemoryEffects(MemoryEffects::none());   // nothing follows it
    {   // which functions write only what their arguments point to
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, "cgscc(function-attrs)")) { consumeError(std::move(e)); return 2; }
        MPM.run(*M, MAM);
    }
    for (auto &c : clients) {
        Function *F = M->getFunction(c);
        if (!F || F->isDeclaration()) { printf("{\"client\":\"%s\",\"found\":false}\n", c.c_str()); continue; }
        fflush(stdout);
        int pid = fork();
        if (pid) { int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"client\":\"%s\",\"found\":true,\"crashed\":true}\n", c.c_str()); fflush(stdout); continue; }
        alarm(300);
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        inlineAll(*F, FAM);
        addCounters(*F);
        addSums(*F, FAM);
        if (getenv("BDUMP")) F->print(errs());
        An A(*F);
        bool ok = A.analyse();
        std::set<std::string> fns;
        for (auto &I : instructions(*F)) if (auto *l = I.getDebugLoc().get()) for (const DILocation *d = l; d; d = d->getInlinedAt()) if (auto *sp = d->getScope()->getSubprogram()) fns.insert(sp->getName().str());
        printf("{\"client\":\"%s\",\"found\":true,\"stable\":%s,\"lost\":%s,\"obligations\":%ld,\"failed\":%ld,\"blocks\":%zu,\"instructions\":%u,\"entailments\":%ld,\"given_up\":%ld,\"functions\":%zu,\"notes\":[", c.c_str(), ok ? "true" : "false", A.lost ? "true" : "false", A.obligations, A.failed, F->size(), F->getInstructionCount(), nLP, nOver + nGiven, fns.size());
        bool first = true;
        for (auto &n : A.notes) { printf("%s\"%s\"", first ? "" : ",", n.c_str()); first = false; }
        printf("]}\n");
        fflush(stdout);
        _exit(0);
    }
}
