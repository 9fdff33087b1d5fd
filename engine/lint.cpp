// roarlint M.bc CMD ... : rules decided by direct inspection of the bitcode.
//   alloc                 who names the system allocator, and what the dispatchers do
//   globals               writes to process-wide data
//   refcount FIELD...     accesses to reference counters
//   reloc                 pointers into the node arrays of the 64-bit index (reloc.cpp)
//   align                 accesses that demand more alignment than promised (align.cpp)
//   asserts NDEBUG.bc     effects that depend on assertion checking (asserts.cpp)
//   noexcept              C++ members declared noexcept that may throw (noexc.cpp)
//   isaprep LEVEL OUT.bc  croaring_hardware_support() := LEVEL, library internalised
//   isaleft FEAT...       functions built for FEAT reachable from the roots
//   detprep SCN OUT.bc    wrappers that fix the processor's answers (SCN: file)
//   detread               the constants those wrappers were folded to
// Output: JSON lines.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using namespace llvm;
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
std::string fname(const Function *F) { if (auto *s = F->getSubprogram()) return s->getName().str(); return F->getName().str(); }
std::string loc(const Instruction *I) {
    auto *d = I->getDebugLoc().get();
    if (!d) { if (auto *s = I->getFunction()->getSubprogram()) return s->getFilename().str() + ":" + std::to_string(s->getLine()); return ""; }
    return d->getFilename().str() + ":" + std::to_string(d->getLine());
}
void finding(const std::string &rule, const std::string &fn, const std::string &where, const std::string &msg, const std::string &stack = "") {
    printf("{\"rule\":\"%s\",\"fn\":\"%s\",\"where\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\"}\n", rule.c_str(), esc(fn).c_str(), esc(where).c_str(), esc(msg).c_str(), esc(stack).c_str());
}
void stat(const std::string &k, long v) { printf("{\"stat\":\"%s\",\"n\":%ld}\n", k.c_str(), v); }
void note(const std::string &k, const std::string &v) { printf("{\"note\":\"%s\",\"v\":\"%s\"}\n", k.c_str(), esc(v).c_str()); }

// instructions that use V, looking through constant expressions
static void usersOf(const Value *V, std::vector<const Instruction *> &out, std::set<const Value *> &seen, std::vector<const GlobalVariable *> *gv = nullptr) {
    for (auto *u : V->users()) {
        if (!seen.insert(u).second) continue;
        if (auto *I = dyn_cast<Instruction>(u)) out.push_back(I);
        else if (auto *g = dyn_cast<GlobalVariable>(u)) { if (gv) gv->push_back(g); }
        else if (isa<Constant>(u)) usersOf(u, out, seen, gv);
    }
}
static const Value *base(const Value *p) {
    for (;;) {
        if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand();
        else if (auto *c = dyn_cast<BitCastOperator>(p)) p = c->getOperand(0);
        else return p;
    }
}
// ---------------------------------------------------------------- alloc
static const char *SYS[] = {"malloc", "calloc", "realloc", "reallocarray", "free", "posix_memalign", "aligned_alloc", "memalign", "valloc", "pvalloc", "strdup", "strndup", "asprintf", "vasprintf", "cfree", "mmap", "munmap", "sbrk", "brk", "getline", "getdelim", "_aligned_malloc", "_aligned_free"};
// C++ headers: no member names the system allocator
static int cmdAllocCpp(Module &M) {
    long n = 0, fn = 0;
    auto own = [](const Function *F) { auto *sp = F->getSubprogram(); return sp && !sp->getFilename().contains("/c++/"); };
    for (auto &F : M) if (!F.isDeclaration() && own(&F)) fn++;
    for (auto *s : SYS) if (auto *F = M.getFunction(s)) {
        std::vector<const Instruction *> us; std::set<const Value *> seen;
        usersOf(F, us, seen);
        for (auto *I : us) if (own(I->getFunction())) { n++; finding("SYSALLOC", fname(I->getFunction()), loc(I), std::string("system allocator function ") + s + " is used instead of the configured one"); }
    }
    stat("allocator_uses", n); stat("functions", fn);
    return 0;
}
static int cmdAlloc(Module &M) {
    // the hook: a variable whose initialiser lists the default allocation functions
    GlobalVariable *hook = nullptr;
    StructType *st = nullptr;
    for (auto &g : M.globals()) {
        if (!g.hasInitializer()) continue;
        auto *c = dyn_cast<ConstantStruct>(g.getInitializer());
        if (!c) continue;
        for (auto &o : c->operands()) if (auto *f = dyn_cast<Function>(o)) if (f->getName() == "malloc") { hook = &g; st = cast<StructType>(g.getValueType()); }
    }
    if (!hook) { note("undecided", "no variable lists malloc as a default"); return 0; }
    std::set<const Function *> defaults;
    auto *init = cast<ConstantStruct>(hook->getInitializer());
    for (auto &o : init->operands()) if (auto *f = dyn_cast<Function>(o)) defaults.insert(f);
    // functions only reachable as defaults (helpers of defaults)
    bool grow = true;
    while (grow) {
        grow = false;
        for (auto &F : M) {
            if (F.isDeclaration() || defaults.count(&F) || !F.hasLocalLinkage() || F.use_empty()) continue;
            bool all = true;
            std::vector<const Instruction *> us; std::set<const Value *> seen; std::vector<const GlobalVariable *> gv;
            usersOf(&F, us, seen, &gv);
            for (auto *I : us) if (!defaults.count(I->getFunction())) all = false;
            for (auto *g : gv) if (g != hook) all = false;
            if (all && !us.empty()) { defaults.insert(&F); grow = true; }
        }
    }
    long n = 0, sites = 0;
    for (auto *s : SYS) {
        auto *F = M.getFunction(s);
        if (!F) continue;
        n++;
        std::vector<const Instruction *> us; std::set<const Value *> seen; std::vector<const GlobalVariable *> gv;
        usersOf(F, us, seen, &gv);
        for (auto *I : us) { sites++; if (!defaults.count(I->getFunction())) finding("SYSALLOC", fname(I->getFunction()), loc(I), std::string("system allocator function ") + s + " is used instead of the configured one"); }
        for (auto *g : gv) if (g != hook) finding("SYSALLOC", g->getName().str(), "", std::string("system allocator function ") + s + " is stored in a table other than the allocation hooks");
    }
    for (auto *f : defaults) if (!f->isDeclaration()) for (auto *u : f->users()) if (auto *I = dyn_cast<Instruction>(u)) if (!defaults.count(I->getFunction())) finding("SYSALLOC", fname(I->getFunction()), loc(I), "the default of an allocation hook is used directly: " + fname(f));
    // member names
    std::vector<std::string> mem;
    SmallVector<DIGlobalVariableExpression *, 1> dis; hook->getDebugInfo(dis);
    for (auto *d : dis) {
        const DIType *t = d->getVariable()->getType();
        while (auto *dd = dyn_cast_or_null<DIDerivedType>(t)) t = dd->getBaseType();
        if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) for (auto *e : ct->getElements()) mem.push_back(cast<DIDerivedType>(e)->getName().str());
    }
    // dispatchers: roaring_<member> hands its own arguments to that member
    auto fieldOf = [&](const Value *p) -> int {
        if (p == hook) return 0;
        APInt off(64, 0);
        auto *b = p->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        if (b != hook) return -1;
        auto *sl = M.getDataLayout().getStructLayout(st);
        return off.getZExtValue() < sl->getSizeInBytes() ? (int)sl->getElementContainingOffset(off.getZExtValue()) : -1;
    };
    long disp = 0;
    for (size_t k = 0; k < mem.size(); k++) {
        auto *F = M.getFunction("roaring_" + mem[k]);
        if (!F || F->isDeclaration()) { note("undecided", "no dispatcher for hook " + mem[k]); continue; }
        std::vector<const CallBase *> ind;
        for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (!c->getCalledFunction() && !c->isInlineAsm()) ind.push_back(c);
        bool direct = false;
        for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *G = c->getCalledFunction()) if (!G->isIntrinsic()) direct = true;
        if (ind.empty()) { if (direct) note("undecided", "dispatcher for " + mem[k] + " forwards to another function"); else finding("HOOKCALL", fname(F), "", "the configured hook '" + mem[k] + "' is not called"); continue; }
        for (auto *c : ind) {
            disp++;
            auto *ld = dyn_cast<LoadInst>(c->getCalledOperand());
            int f = ld ? fieldOf(ld->getPointerOperand()) : -1;
            if (f < 0) { note("undecided", "callee in " + fname(F) + " is not read from the hooks directly"); continue; }
            if (f != (int)k) finding("HOOKCALL", fname(F), loc(c), "calls hook '" + (f < (int)mem.size() ? mem[f] : std::string("?")) + "' instead of '" + mem[k] + "'");
            for (unsigned i = 0; i < c->arg_size() && i < F->arg_size(); i++) {
                auto *a = c->getArgOperand(i);
                if (a == F->getArg(i)) continue;
                if (auto *arg = dyn_cast<Argument>(a)) finding("HOOKCALL", fname(F), loc(c), "argument " + std::to_string(arg->getArgNo()) + " is handed to the hook in place of argument " + std::to_string(i));
                else if (isa<Constant>(a)) finding("HOOKCALL", fname(F), loc(c), "a constant is handed to the hook in place of argument " + std::to_string(i));
            }
        }
    }
    stat("allocator_functions", n); stat("allocator_uses", sites); stat("hook_members", mem.size()); stat("dispatch_calls", disp); stat("default_functions", defaults.size());
    return 0;
}
// ---------------------------------------------------------------- globals
static const char *HIDDEN[] = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "localtime", "gmtime", "ctime", "asctime", "setlocale", "setenv", "putenv", "unsetenv", "strerror", "atexit", "signal", "tmpnam", "qsort_r_", "hsearch", "hcreate", "setjmp_", "ecvt", "fcvt"};
// depends on nothing but itself, constants and the processor
static bool pureValue(const Value *v, const GlobalVariable *self, std::set<const Value *> &seen, int depth);
static bool pureFn(const Function *F, std::set<const Value *> &seen, int depth) {
    if (depth > 12 || F->isDeclaration()) return F->isIntrinsic();
    if (!seen.insert(F).second) return true;
    for (auto &I : instructions(F)) {
        if (auto *l = dyn_cast<LoadInst>(&I)) {
            auto *b = base(l->getPointerOperand());
            if (isa<GlobalVariable>(b) || isa<AllocaInst>(b) || isa<Argument>(b)) continue;
            return false;
        }
        if (auto *c = dyn_cast<CallBase>(&I)) {
            if (c->isInlineAsm()) continue;
            auto *G = c->getCalledFunction();
            if (!G || !pureFn(G, seen, depth + 1)) return false;
        }
    }
    return true;
}
static bool pureValue(const Value *v, const GlobalVariable *self, std::set<const Value *> &seen, int depth) {
    if (isa<Constant>(v)) return true;
    if (!seen.insert(v).second) return true;
    if (isa<Argument>(v)) return false;
    if (auto *l = dyn_cast<LoadInst>(v)) { auto *b = base(l->getPointerOperand()); return isa<GlobalVariable>(b); }
    if (auto *c = dyn_cast<CallBase>(v)) {
        if (c->isInlineAsm()) return true;
        auto *G = c->getCalledFunction();
        if (!G) return false;
        for (auto &a : c->args()) if (!pureValue(a, self, seen, depth + 1)) return false;
        std::set<const Value *> s2;
        return pureFn(G, s2, 0);
    }
    if (auto *I = dyn_cast<Instruction>(v)) { for (auto &o : I->operands()) if (!isa<BasicBlock>(o) && !pureValue(o, self, seen, depth + 1)) return false; return true; }
    return false;
}
static int cmdGlobals(Module &M, const std::set<std::string> &setters, bool cpp) {
    long vars = 0, uses = 0, writes = 0;
    for (auto &g : M.globals()) {
        std::string nm = g.getName().str();
        if (g.isConstant() || nm.compare(0, 5, "llvm.") == 0) continue;
        if (g.isDeclaration() && (nm == "stdout" || nm == "stderr" || nm == "stdin" || nm == "__dso_handle")) continue;
        if (cpp && (nm.compare(0, 4, "_ZTI") == 0 || nm.compare(0, 4, "_ZTV") == 0 || nm.compare(0, 4, "_ZTS") == 0 || nm.compare(0, 5, "_ZNSt") == 0 || nm.compare(0, 4, "_ZSt") == 0 || nm.find("__ioinit") != std::string::npos || nm.compare(0, 8, "_ZGVNSt") == 0)) continue;
        vars++;
        std::function<void(const Value *, std::set<const Value *> &)> walk = [&](const Value *p, std::set<const Value *> &seen) {
            for (auto *u : p->users()) {
                if (!seen.insert(u).second) continue;
                auto *I = dyn_cast<Instruction>(u);
                if (I && cpp) if (auto *sp = I->getFunction()->getSubprogram()) if (sp->getFilename().contains("/c++/")) continue;
                if (!I) { if (isa<ConstantExpr>(u)) walk(u, seen); else if (isa<GlobalAlias>(u)) walk(u, seen); continue; }
                uses++;
                std::string fn = fname(I->getFunction());
                auto write = [&](bool atomic, const Value *val) {
                    writes++;
                    if (setters.count(fn)) return;
                    if (g.isThreadLocal()) { finding("GLOBALW", fn, loc(I), "thread-wide variable " + nm + " remembers something between calls"); return; }
                    std::set<const Value *> s;
                    bool pure = val && pureValue(val, &g, s, 0);
                    if (pure && atomic) return;     // idempotent cache of what the processor said
                    finding("GLOBALW", fn, loc(I), "process-wide variable " + nm + (pure ? " is written without atomic access" : " is modified with a value that depends on the call"));
                };
                if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) walk(I, seen);
                else if (auto *s = dyn_cast<StoreInst>(I)) {
                    if (s->getPointerOperand() == p) write(s->isAtomic(), s->getValueOperand());
                    else if (!isa<AllocaInst>(base(s->getPointerOperand()))) note("escape", nm + " in " + fn);
                } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                    const Value *v = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getValOperand() : cast<AtomicCmpXchgInst>(I)->getNewValOperand();
                    bool acc = isa<AtomicRMWInst>(I) && cast<AtomicRMWInst>(I)->getOperation() != AtomicRMWInst::Xchg;
                    if (acc && !setters.count(fn)) { writes++; finding("GLOBALW", fn, loc(I), "process-wide variable " + nm + " accumulates over calls"); }
                    else write(true, v);
                } else if (auto *l = dyn_cast<LoadInst>(I)) {
                    if (!l->isAtomic() && !cpp) {
                        // read without atomic access of something written outside start-up
                        bool hot = false;
                        for (auto *w : g.users()) if (auto *ws = dyn_cast<StoreInst>(w)) if (ws->getPointerOperand() == &g && !setters.count(fname(ws->getFunction()))) hot = true;
                        if (hot) finding("GLOBALW", fn, loc(I), "process-wide variable " + nm + " is written by operations and read without atomic access");
                    }
                } else if (auto *c = dyn_cast<CallBase>(I)) {
                    if (auto *mi = dyn_cast<MemIntrinsic>(c)) { if (mi->getRawDest() == p) write(false, nullptr); continue; }
                    if (c->getCalledFunction() && c->getCalledFunction()->isIntrinsic()) continue;
                    auto *G = c->getCalledFunction();
                    for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == p) {
                        if (cpp && G && (G->getName().starts_with("__cxa_guard") )) continue;
                        if (G && !G->isDeclaration() && k < G->arg_size()) walk(G->getArg(k), seen);
                        else if (G && (G->getName() == "printf" || G->getName() == "fprintf" || G->getName() == "memcmp" || (G->getName() == "memcpy" && k == 1))) {}
                        else { writes++; finding("GLOBALW", fn, loc(I), "process-wide variable " + nm + " is handed out by address"); }
                    }
                }
            }
        };
        std::set<const Value *> seen;
        walk(&g, seen);
    }
    long hid = 0;
    for (auto *h : HIDDEN) if (auto *F = M.getFunction(h)) for (auto *u : F->users()) if (auto *I = dyn_cast<Instruction>(u)) { hid++; finding("GLOBALW", fname(I->getFunction()), loc(I), std::string(h) + " keeps process-wide state"); }
    stat("variables", vars); stat("uses", uses); stat("writes", writes); stat("hidden_state_calls", hid);
    long fn = 0; for (auto &F : M) if (!F.isDeclaration()) fn++;
    stat("functions", fn);
    return 0;
}
// ---------------------------------------------------------------- refcount
// value of an i1/iN expression of a function when the atomic read yields OLD
static bool evalFn(const Function *F, const std::map<const Value *, APInt> &fix, int64_t &ret, std::vector<const Instruction *> &path) {
    std::map<const Value *, APInt> env = fix;
    const BasicBlock *bb = &F->getEntryBlock(), *prev = nullptr;
    auto get = [&](const Value *v, APInt &o) { if (auto *c = dyn_cast<ConstantInt>(v)) { o = c->getValue(); return true; } auto i = env.find(v); if (i == env.end()) return false; o = i->second; return true; };
    for (int steps = 0; steps < 200; steps++) {
        for (auto &I : *bb) {
            if (auto *p = dyn_cast<PHINode>(&I)) { APInt a; if (prev && get(p->getIncomingValueForBlock(prev), a)) env[&I] = a; continue; }
            path.push_back(&I);
            APInt a, b;
            if (env.count(&I) && (I.mayReadOrWriteMemory())) continue;
            if (auto *c = dyn_cast<ICmpInst>(&I)) {
                if (get(c->getOperand(0), a) && get(c->getOperand(1), b)) env[&I] = APInt(1, ICmpInst::compare(a, b, c->getPredicate()));
            } else if (auto *c = dyn_cast<CastInst>(&I)) {
                if (!I.getType()->isIntegerTy()) continue;
                unsigned w = I.getType()->getIntegerBitWidth();
                if (get(c->getOperand(0), a)) { if (isa<ZExtInst>(c)) env[&I] = a.zext(w); else if (isa<SExtInst>(c)) env[&I] = a.sext(w); else if (isa<TruncInst>(c)) env[&I] = a.trunc(w); }
            } else if (auto *o = dyn_cast<BinaryOperator>(&I)) {
                if (!get(o->getOperand(0), a) || !get(o->getOperand(1), b)) continue;
                switch (o->getOpcode()) {
                    case Instruction::Add: env[&I] = a + b; break; case Instruction::Sub: env[&I] = a - b; break;
                    case Instruction::And: env[&I] = a & b; break; case Instruction::Or: env[&I] = a | b; break; case Instruction::Xor: env[&I] = a ^ b; break;
                    default: break;
                }
            } else if (auto *s = dyn_cast<SelectInst>(&I)) { if (get(s->getCondition(), a) && get(a.getBoolValue() ? s->getTrueValue() : s->getFalseValue(), b)) env[&I] = b; }
            else if (auto *r = dyn_cast<ReturnInst>(&I)) { if (!r->getReturnValue()) { ret = 0; return true; } if (!get(r->getReturnValue(), a)) return false; ret = (int64_t)a.getZExtValue(); return true; }
            else if (auto *br = dyn_cast<BranchInst>(&I)) {
                const BasicBlock *nx;
                if (br->isUnconditional()) nx = br->getSuccessor(0);
                else { if (!get(br->getCondition(), a)) return false; nx = br->getSuccessor(a.getBoolValue() ? 0 : 1); }
                prev = bb; bb = nx; goto next;
            }
        }
        return false;
    next:;
    }
    return false;
}
// counter helpers: functions whose only parameter is the counter
struct Helper { int kind = 0; };   // 1 inc, 2 dec, 3 get
static void checkHelper(const Function *F, bool atomics, std::map<const Function *, int> &kind) {
    const Value *p = F->getArg(0);
    std::vector<const Instruction *> rmw, ld, st;
    std::set<const Value *> al{p};
    bool ch = true;
    while (ch) { ch = false; for (auto &I : instructions(F)) { if (al.count(&I)) continue; if ((isa<BitCastInst>(I) || isa<GetElementPtrInst>(I)) && al.count(I.getOperand(0))) { al.insert(&I); ch = true; } } }
    for (auto &I : instructions(F)) {
        if (isa<AtomicRMWInst>(I) && al.count(cast<AtomicRMWInst>(I).getPointerOperand())) rmw.push_back(&I);
        else if (isa<LoadInst>(I) && al.count(cast<LoadInst>(I).getPointerOperand())) ld.push_back(&I);
        else if (isa<StoreInst>(I) && al.count(cast<StoreInst>(I).getPointerOperand())) st.push_back(&I);
        else if (isa<AtomicCmpXchgInst>(I)) { note("undecided", fname(F) + " uses compare and swap"); return; }
    }
    std::string nm = fname(F);
    int k = kind[F];
    auto delta = [&](const Instruction *I, int64_t &d) {
        auto *a = cast<AtomicRMWInst>(I); auto *c = dyn_cast<ConstantInt>(a->getValOperand());
        if (!c) return false;
        if (a->getOperation() == AtomicRMWInst::Add) d = c->getSExtValue(); else if (a->getOperation() == AtomicRMWInst::Sub) d = -c->getSExtValue(); else return false;
        return true;
    };
    if (atomics) {
        for (auto *I : ld) if (!I->isAtomic()) finding("REFATOMIC", nm, loc(I), "reference counter read without atomic access");
        for (auto *I : st) finding("REFATOMIC", nm, loc(I), "reference counter overwritten instead of adjusted atomically");
        if (k == 3) { if (ld.empty()) note("undecided", nm + " does not read the counter"); return; }
        if (rmw.size() != 1) { if (rmw.empty()) finding("REFATOMIC", nm, "", "reference counter is not adjusted by an atomic read-modify-write"); else note("undecided", nm + " adjusts the counter at several places"); return; }
        int64_t d;
        if (!delta(rmw[0], d)) { note("undecided", nm + " adjusts by something unknown"); return; }
        if (d != (k == 1 ? 1 : -1)) { finding("REFATOMIC", nm, loc(rmw[0]), "reference counter is adjusted by " + std::to_string(d)); return; }
        if (k == 1) return;
        auto ord = cast<AtomicRMWInst>(rmw[0])->getOrdering();
        bool rel = isReleaseOrStronger(ord), acq = isAcquireOrStronger(ord);
        if (!rel) finding("REFORDER", nm, loc(rmw[0]), "giving up a hold does not publish the holder's earlier accesses (needs release order)");
        for (uint64_t old : {1ull, 2ull, 3ull, 1000ull}) {
            std::map<const Value *, APInt> fix{{rmw[0], APInt(rmw[0]->getType()->getIntegerBitWidth(), old)}};
            for (auto *l : ld) fix[l] = APInt(l->getType()->getIntegerBitWidth(), old - 1);
            int64_t r; std::vector<const Instruction *> path;
            if (!ld.empty()) { finding("REFORDER", nm, loc(ld[0]), "whether this was the last hold is decided by a second read of the counter"); return; }
            if (!evalFn(F, fix, r, path)) { note("undecided", "result of " + nm); return; }
            if ((old == 1) != (r != 0)) { finding("REFLAST", nm, loc(rmw[0]), "with " + std::to_string(old) + " holds the release is " + (r ? "" : "not ") + "reported as the last one"); return; }
            if (old == 1 && !acq) {
                bool f = false, after = false;
                for (auto *I : path) { if (I == rmw[0]) after = true; else if (after && isa<FenceInst>(I) && isAcquireOrStronger(cast<FenceInst>(I)->getOrdering())) f = true; }
                if (!f) finding("REFORDER", nm, loc(rmw[0]), "the last holder does not see the other holders' earlier accesses (needs an acquire fence)");
            }
        }
    } else if (k != 3) {
        if (st.size() != 1 || ld.empty()) { note("undecided", nm + " is not a plain load-adjust-store"); return; }
        // plain: the value of each load depends on whether it comes after the store
        for (uint64_t old : {1ull, 2ull, 3ull, 1000ull}) {
            uint64_t nw = old + (k == 1 ? 1 : -1);
            std::map<const Value *, APInt> fix;
            DominatorTree dt(*const_cast<Function *>(F));
            for (auto *l : ld) fix[l] = APInt(l->getType()->getIntegerBitWidth(), dt.dominates(st[0], l) ? nw : old);
            int64_t r; std::vector<const Instruction *> path;
            // stored value
            auto *sv = cast<StoreInst>(st[0])->getValueOperand();
            if (auto *bo = dyn_cast<BinaryOperator>(sv)) {
                auto *c = dyn_cast<ConstantInt>(bo->getOperand(1));
                int64_t d = c ? (bo->getOpcode() == Instruction::Add ? c->getSExtValue() : bo->getOpcode() == Instruction::Sub ? -c->getSExtValue() : 99) : 99;
                if (d == 99) { note("undecided", nm + " (plain) adjusts by something unknown"); return; }
                if (d != (k == 1 ? 1 : -1)) { finding("REFATOMIC", nm, loc(st[0]), "reference counter is adjusted by " + std::to_string(d)); return; }
            } else { note("undecided", nm + " (plain) stores something unknown"); return; }
            if (k == 1) return;
            if (!evalFn(F, fix, r, path)) { note("undecided", "result of " + nm); return; }
            if ((old == 1) != (r != 0)) { finding("REFLAST", nm, loc(st[0]), "with " + std::to_string(old) + " holds the release is " + (r ? "" : "not ") + "reported as the last one"); return; }
        }
    }
}
static int cmdRefcount(Module &M, bool atomics) {
    std::map<const Function *, int> kind;
    for (auto &F : M) {
        if (F.isDeclaration()) continue;
        std::string n = fname(&F);
        if (F.arg_size() != 1) continue;
        if (n == "croaring_refcount_inc") kind[&F] = 1; else if (n == "croaring_refcount_dec") kind[&F] = 2; else if (n == "croaring_refcount_get") kind[&F] = 3;
    }
    if (kind.size() < 3) { note("undecided", "reference count helpers not found"); return 0; }
    for (auto &k : kind) checkHelper(k.first, atomics, kind);
    // every other access to a counter
    StructType *st = nullptr;
    for (auto *t : M.getIdentifiedStructTypes()) if (t->getName().contains("shared_container_s")) st = t;
    if (!st) { note("undecided", "shared container structure not found"); return 0; }
    int fld = -1;
    DebugInfoFinder df; df.processModule(M);
    for (auto *t : df.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getName() == "shared_container_s") { int i = 0; for (auto *e : c->getElements()) { if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member) { if (m->getName() == "counter") fld = i; i++; } } }
    if (fld < 0) { note("undecided", "shared container has no member 'counter'"); return 0; }
    long acc = 0, inits = 0;
    std::function<void(const Instruction *, const Value *, std::set<const Value *> &)> follow = [&](const Instruction *g, const Value *p, std::set<const Value *> &seen) {
        for (auto *u : p->users()) {
            auto *I = dyn_cast<Instruction>(u);
            if (!I || !seen.insert(I).second) continue;
            if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<BitCastInst>(I)) { follow(g, I, seen); continue; }
            if (isa<GetElementPtrInst>(I)) { follow(g, I, seen); continue; }
            acc++;
            auto *c = dyn_cast<CallBase>(I);
            if (c && c->getCalledFunction() && kind.count(c->getCalledFunction())) continue;
            if (c && c->getCalledFunction() && c->getCalledFunction()->isIntrinsic()) continue;
            if (c && c->getCalledFunction() && !c->getCalledFunction()->isDeclaration()) { for (unsigned k = 0; k < c->arg_size(); k++) if (c->getArgOperand(k) == p) { std::set<const Value *> s2; follow(g, c->getCalledFunction()->getArg(k), s2); } continue; }
            // allowed: first value of a block obtained in this function
            const Value *b = base(p);
            std::set<const Value *> vs; bool fresh = true;
            std::function<void(const Value *)> org = [&](const Value *v) { v = base(v); if (!vs.insert(v).second) return; if (auto *ph = dyn_cast<PHINode>(v)) { for (auto &x : ph->incoming_values()) org(x); return; } auto *cc = dyn_cast<CallBase>(v); if (!cc || !cc->getCalledFunction() || !cc->getType()->isPointerTy() || cc->getCalledFunction()->getName().find("alloc") == StringRef::npos) fresh = false; };
            org(b);
            if (fresh) {
                if (auto *s = dyn_cast<StoreInst>(I)) { inits++; auto *k = dyn_cast<ConstantInt>(s->getValueOperand()); if (k && k->getZExtValue() != 2) note("init", "counter starts at " + std::to_string(k->getZExtValue()) + " in " + fname(I->getFunction())); }
                continue;
            }
            bool atom = I->isAtomic();
            if (isa<StoreInst>(I)) finding("REFATOMIC", fname(I->getFunction()), loc(I), "reference counter of a container that others may hold is overwritten");
            else if (atomics && !atom) finding("REFATOMIC", fname(I->getFunction()), loc(I), "reference counter is accessed without atomic access");
            else if (isa<AtomicRMWInst>(I)) note("undecided", "counter adjusted directly in " + fname(I->getFunction()));
        }
    };
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getSourceElementType() != st || g->getNumIndices() != 2) continue;
        auto *k = dyn_cast<ConstantInt>(g->getOperand(2));
        if (!k || (int)k->getZExtValue() != fld) continue;
        std::set<const Value *> seen;
        follow(g, g, seen);
    }
    stat("helpers", kind.size()); stat("counter_accesses", acc); stat("counter_initialisations", inits);
    return 0;
}
// ---------------------------------------------------------------- isa
static int writeM(Module &M, const std::string &o) { std::error_code ec; raw_fd_ostream os(o, ec); WriteBitcodeToFile(M, os); return ec ? 2 : 0; }
static void unlockO0(Module &M) { for (auto &F : M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); } }
static int cmdIsaPrep(Module &M, int level, const std::string &out, const std::set<std::string> &pub) {
    auto *H = M.getFunction("croaring_hardware_support");
    if (!H || H->isDeclaration()) { note("undecided", "croaring_hardware_support not found"); return 0; }
    H->deleteBody();
    auto *bb = BasicBlock::Create(M.getContext(), "", H);
    ReturnInst::Create(M.getContext(), ConstantInt::get(H->getReturnType(), level), bb);
    H->setSubprogram(nullptr);
    for (auto &F : M) {
        if (F.isDeclaration()) continue;
        if (pub.count(F.getName().str())) { F.setLinkage(GlobalValue::ExternalLinkage); continue; }
        F.setComdat(nullptr);
        F.setLinkage(GlobalValue::InternalLinkage);
    }
    for (auto &g : M.globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) g.setLinkage(GlobalValue::InternalLinkage);
    unlockO0(M);
    return writeM(M, out);
}
static int cmdIsaLeft(Module &M, const std::vector<std::string> &feats) {
    std::map<const Function *, const Instruction *> via;
    std::vector<const Function *> work;
    long roots = 0, nf = 0;
    for (auto &F : M) if (!F.isDeclaration() && !F.hasLocalLinkage()) { work.push_back(&F); via[&F] = nullptr; roots++; }
    std::vector<const Function *> bad;
    while (!work.empty()) {
        auto *F = work.back(); work.pop_back();
        nf++;
        std::string a = F->getFnAttribute("target-features").getValueAsString().str();
        for (auto &f : feats) if (("," + a + ",").find(",+" + f + ",") != std::string::npos) { bad.push_back(F); break; }
        std::set<const Value *> seen;
        std::function<void(const Value *, const Instruction *)> ref = [&](const Value *v, const Instruction *I) {
            if (auto *G = dyn_cast<Function>(v)) { if (!G->isDeclaration() && !via.count(G)) { via[G] = I; work.push_back(G); } return; }
            if (auto *C = dyn_cast<Constant>(v)) { if (!seen.insert(C).second) return; if (auto *gv = dyn_cast<GlobalVariable>(C)) { if (gv->hasInitializer()) ref(gv->getInitializer(), I); return; } for (auto &o : C->operands()) ref(o, I); }
        };
        for (auto &I : instructions(F)) for (auto &o : I.operands()) ref(o, &I);
    }
    for (auto *F : bad) {
        std::string path = fname(F); const Instruction *I = via[F];
        if (I) { auto *p = I->getFunction(); bool again = false; for (auto *x : bad) if (x == p) again = true; if (again) continue; }
        std::string w = I ? loc(I) : "";
        int n = 0;
        const Function *c = F;
        while (via[c] && n++ < 20) { c = via[c]->getFunction(); path = fname(c) + " > " + path; }
        finding("ISA", I ? fname(I->getFunction()) : fname(F), w, fname(F) + " (built for an extension) can be entered without that extension having been detected", path);
    }
    stat("roots", roots); stat("functions_left", nf);
    return 0;
}
// SCN file: one scenario per line: name l1c l7b l7c xcr0
static int cmdDetPrep(Module &M, const std::string &scn, const std::string &out) {
    auto *H = M.getFunction("croaring_hardware_support");
    if (!H || H->isDeclaration()) { note("undecided", "croaring_hardware_support not found"); return 0; }
    auto &C = M.getContext();
    auto *i32 = Type::getInt32Ty(C); auto *i64 = Type::getInt64Ty(C);
    const char *nms[] = {"vp_l1c", "vp_l7b", "vp_l7c", "vp_xcr"};
    GlobalVariable *an[4];
    for (int i = 0; i < 4; i++) an[i] = new GlobalVariable(M, i64, false, GlobalValue::InternalLinkage, ConstantInt::get(i64, 0), nms[i]);
    std::vector<Instruction *> dead;
    long nc = 0, nx = 0;
    for (auto &F : M) for (auto &I : instructions(F)) {
        auto *c = dyn_cast<CallInst>(&I);
        if (!c || !c->isInlineAsm()) continue;
        auto s = cast<InlineAsm>(c->getCalledOperand())->getAsmString();
        IRBuilder<> B(c);
        Value *agg = PoisonValue::get(c->getType());
        auto ld = [&](int k) { return B.CreateTrunc(B.CreateLoad(i64, an[k]), i32); };
        if (s.find("cpuid") != std::string::npos && c->getType()->isStructTy() && c->arg_size() >= 1) {
            nc++;
            auto *leaf = c->getArgOperand(0);
            auto *is1 = B.CreateICmpEQ(leaf, ConstantInt::get(i32, 1)), *is7 = B.CreateICmpEQ(leaf, ConstantInt::get(i32, 7));
            auto *is0 = B.CreateICmpEQ(leaf, ConstantInt::get(i32, 0));
            Value *z = ConstantInt::get(i32, 0);
            Value *a = B.CreateSelect(is0, ConstantInt::get(i32, 32), z), *b = B.CreateSelect(is7, ld(1), z), *cc = B.CreateSelect(is1, ld(0), B.CreateSelect(is7, ld(2), z));
            Value *r[4] = {a, b, cc, z};
            for (unsigned k = 0; k < 4; k++) agg = B.CreateInsertValue(agg, r[k], k);
        } else if (s.find("xgetbv") != std::string::npos && c->getType()->isStructTy()) {
            nx++;
            agg = B.CreateInsertValue(agg, ld(3), 0);
            agg = B.CreateInsertValue(agg, ConstantInt::get(i32, 0), 1);
        } else continue;
        c->replaceAllUsesWith(agg); dead.push_back(c);
    }
    for (auto *d : dead) d->eraseFromParent();
    stat("cpuid_sites", nc); stat("xgetbv_sites", nx);
    // caches: what the detection reads and writes; first call starts from the initial values
    std::set<GlobalVariable *> caches;
    std::set<Function *> fs; std::vector<Function *> wk{H};
    while (!wk.empty()) { auto *F = wk.back(); wk.pop_back(); if (!fs.insert(F).second) continue; for (auto &I : instructions(F)) { if (auto *c = dyn_cast<CallBase>(&I)) if (auto *G = c->getCalledFunction()) if (!G->isDeclaration()) wk.push_back(G);
        if (auto *s = dyn_cast<StoreInst>(&I)) { s->setAtomic(AtomicOrdering::NotAtomic); s->setVolatile(false); if (auto *g = dyn_cast<GlobalVariable>(const_cast<Value *>(base(s->getPointerOperand())))) caches.insert(g); }
        if (auto *l = dyn_cast<LoadInst>(&I)) { l->setAtomic(AtomicOrdering::NotAtomic); l->setVolatile(false); } } }
    for (auto &F : M) { if (F.isDeclaration()) continue; F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
    for (auto &g : M.globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) g.setLinkage(GlobalValue::InternalLinkage);
    unlockO0(M);
    for (auto *F : fs) { F->removeFnAttr(Attribute::NoInline); F->addFnAttr(Attribute::AlwaysInline); }
    std::ifstream in(scn); std::string nm; uint64_t v[4];
    while (in >> nm >> v[0] >> v[1] >> v[2] >> v[3]) {
        auto *W = Function::Create(FunctionType::get(H->getReturnType(), false), GlobalValue::ExternalLinkage, "vp_scn_" + nm, M);
        IRBuilder<> B(BasicBlock::Create(C, "", W));
        for (int i = 0; i < 4; i++) B.CreateStore(ConstantInt::get(i64, v[i]), an[i]);
        for (auto *g : caches) if (g->hasInitializer() && g->getValueType()->isIntegerTy()) B.CreateStore(g->getInitializer(), g);
        B.CreateRet(B.CreateCall(H));
    }
    // keep only what the wrappers need
    for (auto &F : M) F.setSubprogram(nullptr);
    StripDebugInfo(M);
    return writeM(M, out);
}
static int cmdDetRead(Module &M) {
    for (auto &F : M) {
        if (!F.getName().starts_with("vp_scn_") || F.isDeclaration()) continue;
        std::string v = "?";
        bool one = true; const ConstantInt *k = nullptr;
        for (auto &bb : F) if (auto *r = dyn_cast<ReturnInst>(bb.getTerminator())) { auto *c = dyn_cast<ConstantInt>(r->getReturnValue()); if (!c || (k && k != c)) one = false; else k = c; }
        if (one && k) v = std::to_string(k->getZExtValue());
        note("scn", F.getName().str().substr(7) + " " + v);
    }
    return 0;
}
int cmdReloc(Module &M);
int cmdNoexcept(Module &M);
int cmdAsserts(Module &A, Module &B);
int cmdAlign(Module &M, const std::set<std::string> &pub);
static std::set<std::string> readSet(const char *f) { std::set<std::string> r; std::ifstream in(f); std::string s; while (in >> s) r.insert(s); return r; }
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    std::string c = argv[2];
    if (c == "alloc") return argc > 3 && std::string(argv[3]) == "--cpp" ? cmdAllocCpp(*M) : cmdAlloc(*M);
    if (c == "globals") { std::set<std::string> s; bool cpp = false; for (int i = 3; i < argc; i++) if (std::string(argv[i]) == "--cpp") cpp = true; else s.insert(argv[i]); return cmdGlobals(*M, s, cpp); }
    if (c == "refcount") return cmdRefcount(*M, std::string(argv[3]) == "atomic");
    if (c == "isaprep") return cmdIsaPrep(*M, atoi(argv[3]), argv[4], readSet(argv[5]));
    if (c == "isaleft") return cmdIsaLeft(*M, std::vector<std::string>(argv + 3, argv + argc));
    if (c == "detprep") return cmdDetPrep(*M, argv[3], argv[4]);
    if (c == "reloc") return cmdReloc(*M);
    if (c == "align") { std::set<std::string> p; for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage()) { auto n = F.getName(); if (n.starts_with("roaring") || n.starts_with("bitset_")) if (!n.starts_with("bitset_container") && !n.starts_with("bitset_extract") && n != "roaring_hamming") p.insert(n.str()); } return cmdAlign(*M, p); }
    if (c == "asserts") { auto N = parseIRFile(argv[3], err, ctx); return N ? cmdAsserts(*M, *N) : 2; }
    if (c == "noexcept") return cmdNoexcept(*M);
    if (c == "detread") return cmdDetRead(*M);
    return 2;
}
