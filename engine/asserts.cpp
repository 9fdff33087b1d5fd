// asserts: the same sources with and without NDEBUG must have the same effects.
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
std::string fname(const Function *F);
std::string loc(const Instruction *I);
void finding(const std::string &rule, const std::string &fn, const std::string &where, const std::string &msg, const std::string &stack = "");
void stat(const std::string &k, long v);
namespace {
const Value *root(const Value *p) { for (;;) { if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); else if (auto *b = dyn_cast<BitCastOperator>(p)) p = b->getOperand(0); else return p; } }
bool quiet(StringRef n) { static const std::set<std::string> q{"__assert_fail", "memcmp", "strlen", "strcmp", "abort", "__builtin_unreachable"}; return q.count(n.str()); }
struct Eff {
    struct S { bool other = false; std::set<unsigned> par; };   // writes other memory; writes through parameters
    std::map<const Function *, S> sum;
    // what one instruction writes: "" if nothing but locals; w: through which parameters, or anything else
    std::string of(const Instruction &I, S &w) {
        auto target = [&](const Value *p) { p = root(p); if (isa<AllocaInst>(p)) return false; if (auto *a = dyn_cast<Argument>(p)) w.par.insert(a->getArgNo()); else w.other = true; return true; };
        if (auto *s = dyn_cast<StoreInst>(&I)) return target(s->getPointerOperand()) ? "store" : "";
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { w.other = true; return "atomic update"; }
        if (auto *m = dyn_cast<MemIntrinsic>(&I)) return target(m->getRawDest()) ? "memory write" : "";
        if (auto *c = dyn_cast<CallBase>(&I)) {
            auto *f = c->getCalledFunction();
            if (!f) { w.other = true; return c->isInlineAsm() ? "asm" : "call through a pointer"; }
            if (f->isIntrinsic() || quiet(f->getName())) return "";
            if (f->isDeclaration()) { w.other = true; return "call of " + f->getName().str(); }
            auto q = sum[f]; bool any = q.other; if (any) w.other = true;
            for (unsigned k : q.par) if (k < c->arg_size() && target(c->getArgOperand(k))) any = true;
            return any ? "call of " + f->getName().str() : "";
        }
        return "";
    }
    std::string of(const Instruction &I) { S w; return of(I, w); }
    bool impure(const Function *F) { return sum[F].other || !sum[F].par.empty(); }
    Eff(Module &M) {
        for (bool more = true; more;) { more = false; for (auto &F : M) if (!F.isDeclaration()) {
            S w; for (auto &I : instructions(F)) of(I, w);
            auto &q = sum[&F]; if ((w.other && !q.other) || w.par.size() > q.par.size()) { q = w; more = true; }
        } }
    }
};
}
int cmdAsserts(Module &A, Module &B) { // A: with assertions, B: without
    Eff a(A), b(B); long n = 0, sites = 0;
    for (auto &F : A) {
        if (F.isDeclaration()) continue;
        for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = c->getCalledFunction()) if (f->getName() == "__assert_fail") sites++;
        auto *G = B.getFunction(F.getName()); n++;
        if (!G || G->isDeclaration()) { if (a.impure(&F)) { bool used = false; for (auto *u : F.users()) if (isa<Instruction>(u)) used = true; if (used || !F.hasLocalLinkage()) finding("ASSERT", fname(&F), "", "this function only exists when assertions are checked, and has effects"); } continue; }
        std::map<std::string, long> m; std::map<std::string, const Instruction *> at;
        // an effect in one build only: compare by kind and source line
        std::map<std::string, std::map<std::string, std::pair<long, const Instruction *>>> lines;
        for (auto &I : instructions(F)) { auto e = a.of(I); if (!e.empty()) { m[e]++; auto &q = lines[e][loc(&I)]; q.first++; q.second = &I; } }
        for (auto &I : instructions(*G)) { auto e = b.of(I); if (!e.empty()) { m[e]--; auto &q = lines[e][loc(&I)]; q.first--; if (!q.second) q.second = &I; } }
        for (auto &kv : m) if (kv.second) {
            const Instruction *w = nullptr; for (auto &l : lines[kv.first]) if (l.second.first && (!w || (l.second.first > 0) == (kv.second > 0))) w = l.second.second;
            finding("ASSERT", fname(&F), w ? loc(w) : "", kv.first + (kv.second > 0 ? " happens only when assertions are checked" : " happens only when assertions are not checked"));
        }
    }
    stat("functions_compared", n); stat("assertions", sites);
    return 0;
}
