// noexcept: a C++ member declared noexcept must not reach a throw: the program
// would be terminated.
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <deque>
#include <map>
#include <set>
#include <string>
using namespace llvm;
std::string fname(const Function *F);
std::string loc(const Instruction *I);
void finding(const std::string &rule, const std::string &fn, const std::string &where, const std::string &msg, const std::string &stack = "");
void stat(const std::string &k, long v);
namespace {
bool header(const Function *F) { auto *s = F->getSubprogram(); return s && !s->getFilename().contains("/c++/"); }
bool terminates(const BasicBlock *B) { // landing pad of a noexcept function
    for (int n = 0; B && n < 3; n++) {
        for (auto &I : *B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = c->getCalledFunction()) if (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") return true;
        B = B->getSingleSuccessor();
    }
    return false;
}
bool catches(const InvokeInst *I) { auto *l = I->getLandingPadInst(); for (unsigned k = 0; l && k < l->getNumClauses(); k++) if (l->isCatch(k)) return true; return false; }
const Function *callee(const CallBase *c) { return c->getCalledFunction(); }
}
int cmdNoexcept(Module &M) {
    long fns = 0, calls = 0, throwers = 0;
    std::map<const Function *, const Instruction *> via; // a call or throw through which an exception leaves the function
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = callee(c)) {
        bool t = (f->getName() == "__cxa_throw" && header(&F)) || f->getName().contains("__throw_out_of_range") || f->getName().contains("__throw_length_error");
        if (auto *v = dyn_cast<InvokeInst>(c)) if (catches(v) || terminates(v->getUnwindDest())) t = false;
        if (t) { via[&F] = &I; }
    }
    throwers = via.size();
    for (bool more = true; more;) { more = false; for (auto &F : M) if (!via.count(&F)) for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = callee(c)) if (via.count(f)) {
        if (auto *v = dyn_cast<InvokeInst>(c)) if (catches(v) || terminates(v->getUnwindDest())) continue;
        via[&F] = &I; more = true; break;
    } }
    for (auto &F : M) {
        if (F.isDeclaration() || !header(&F)) continue;
        bool ne = false;
        for (auto &I : instructions(F)) {
            auto *v = dyn_cast<InvokeInst>(&I);
            if (!v || !terminates(v->getUnwindDest())) continue;
            ne = true; calls++;
            auto *f = callee(v); if (!f) continue;
            bool direct = (f->getName() == "__cxa_throw") || f->getName().contains("__throw_out_of_range") || f->getName().contains("__throw_length_error");
            if (!direct && !via.count(f)) continue;
            std::string st; const Function *g = f;
            for (int k = 0; k < 12 && g && via.count(g); k++) { st += (st.empty() ? "" : " > ") + fname(g) + " (" + loc(via[g]) + ")"; g = callee(cast<CallBase>(via[g])); }
            finding("NOEXCEPT", fname(&F), loc(&I), "a member declared noexcept " + std::string(direct ? "throws" : "calls " + fname(f) + ", which may throw") + ": the program is terminated", st);
        }
        if (ne) fns++;
    }
    stat("noexcept_functions_with_calls_that_might_throw", fns); stat("calls_checked", calls); stat("functions_that_throw", throwers);
    return 0;
}
