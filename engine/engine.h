// Abstract interpreter: shapes, ownership and kinds of heap storage, with
// joins at merge points and a fixpoint at loops.
#pragma once
#include "core.h"
#include <functional>
#include <map>
#include <string>
#include <set>
#include <unordered_map>
#include <vector>
using namespace llvm;

struct FnInfo {
    const Function *F;
    std::string name;
    std::unordered_map<const Value *, int> id;
    std::vector<const Value *> val;
    std::vector<const BasicBlock *> rpo;
    std::unordered_map<const BasicBlock *, int> ord;
    std::set<const BasicBlock *> exitB;                          // blocks entered when leaving a loop
    std::set<const BasicBlock *> head;                           // loop heads
    std::map<const BasicBlock *, std::vector<const Instruction *>> numLoop;  // heads of loops that only crunch numbers: what they write
    std::unordered_map<const BasicBlock *, std::vector<int>> liveIn;  // sorted, excluding phis of the block
    std::unordered_map<const Instruction *, std::vector<int>> liveAfter;
    std::unordered_map<const BasicBlock *, std::set<int>> slotIn;      // scalar locals whose contents matter on entry
    std::unordered_map<const Instruction *, std::set<int>> slotAfter;
    std::set<int> slots;                                              // scalar locals covered by the two maps
    int kernel = -1;        // 1: number crunching over buffers only (see kernelOf)
    std::vector<char> argMod, argRef, deepMod, deepRef;
    std::vector<std::string> argKind;                               // container structure an argument is used as
    std::vector<std::map<int64_t, int>> rdAt, wrAt, ptrAt;          // members read, written, followed
};

struct Finding {
    std::string rule, fn, where, entry, msg, stack, obj;
};

extern volatile int timeUp;
struct Budget { long steps = 0, maxSteps = 0; bool hit = false, partial = false; std::string why; };

std::string baseStruct(Type *t);
struct Engine {
    Module &M;
    const DataLayout &DL;
    Exprs X;
    std::map<const Function *, FnInfo> fns;
    std::map<std::string, const Function *> byName;
    std::map<std::string, const DICompositeType *> structs;
    std::map<std::string, Finding> findings;
    std::string entry;
    std::vector<int> worldRoots;
    std::map<const GlobalValue *, int> globalObj;
    int nextObj = 1;
    Budget budget;
    bool faultMode = false;
    std::set<const Value *> wide;   // values derived from 64-bit range bounds of a 32-bit operation
    void findWide(const Function *F);
    void wideTrunc(State &s, const TruncInst *T, const Val &a);
    void wideCmp(State &s, const ICmpInst *C, const Val &a, const Val &b);
    long nWide = 0;
    std::string entryFn;
    bool cpp = false;       // the entry is a C++ wrapper
    void thrown(State s, const CallBase *cb);
    bool lazyBits = false;      // bitsets may come without their count (left by lazy operations)
    unsigned kindMask = 0x1e;   // kinds a bitmap's slots may record on entry
    bool trace = false;
    std::string dumpFn = getenv("DUMPFN") ? getenv("DUMPFN") : "";
    void dumpHead(State &st, const std::string &key, State *old);
    // coverage
    std::set<std::string> visitedFns;
    long nCalls = 0, nMerges = 0, nFrees = 0, nAllocs = 0, nSlotChecks = 0, nKindChecks = 0, nLoads = 0, nStores = 0;
    std::set<const Instruction *> siteFree, siteAlloc, siteKind, siteStore, siteLoad, siteCb;
    std::map<std::string, unsigned> tagOfStruct;
    std::map<std::string, int> entryFlags;
    std::map<std::string,long> fnSteps;

    explicit Engine(Module &m, Module *with = nullptr);
    void readModule(Module &);
    const FnInfo &info(const Function *F);
    bool outParam(const Function *F, unsigned k, int depth = 0);
    bool captures(const Function *F, unsigned k, int depth = 0);
    std::map<std::pair<const Function *, unsigned>, int> outMemo, capMemo;
    void slotLiveness(FnInfo &fi);
    void numericLoops(FnInfo &fi);
    void widenNumbers(State &s, const FnInfo &fi, const BasicBlock *head);
    std::map<const Function *, bool> numReady;
    void dropDeadSlots(State &st, const FnInfo &fi, const std::set<int> &live);
    bool slotClean(State &s, int did, EId idx);
    bool doomed(const BasicBlock *bb);
    bool falseAssert(const CallBase *c);
    bool kindDispatch(const Instruction *I);
    void fillNull(State &s);
    bool fillNullAt(State &s, int id);
    bool kernelOf(const Function *F, int depth = 0);
    bool noKernels = getenv("NOKERNELS") != nullptr;
    std::set<std::string> kernelsUsed;
    // expressions under a state
    Iv range(const State &s, EId e, int depth = 0);
    bool assume(State &s, EId e, bool truth);
    
    
    bool bound(State &s, EId d, bool up, int64_t v);
    EId simp(const State &s, EOp op, EId a, EId b);
    EId mapE(EId e, const std::function<EId(EId)> &leaf, std::unordered_map<EId, EId> &memo);
    void mapState(State &s, const std::function<EId(EId)> &leaf, EId opq = -1, EId opqTo = -1);
    void substConst(State &s, EId sym, int64_t v);
    EId domSym(State &s, const std::string &nm, unsigned mask);
    bool findDom(const State &s, EId e, EId &out);

    // objects
    int newObj(State &s, OK kind, const std::string &site);
    Obj &mut(State &s, int id);
    const Obj *get(const State &s, int id);
    int inputObj(State &s, const DIType *pointee, bool isConst, const std::string &site, const Obj *parent);
    Val vI(EId e) { Val v; v.k = VI; v.e = e; return v; }
    Val vC(int64_t c) { return vI(X.cst(c)); }
    Val vP(int o, EId e) { Val v; v.k = VP; v.obj = o; v.e = e; return v; }
    Val vNull() { return vP(0, X.cst(0)); }
    Val vX() { Val v; v.k = VX; return v; }
    Val vU() { return Val(); }
    Val freshI(const std::string &n) { return vI(X.fresh(n)); }

    // memory
    typedef std::vector<std::pair<State, Val>> SV;
    Val load(State &s, const Val &p, int size, bool isPtr, const Instruction *I);
    void store(State &s, const Val &p, const Val &v, int size, const Instruction *I);
    bool access(State &s, const Val &p, bool write, const Instruction *I, const char *what);
    Val lazyMember(State &s, int obj, int64_t off, int size, bool isPtr);
    Val dirLoad(State &s, int obj, EId off, int size, bool isPtr, const Instruction *I);
    bool dirBases(State &s, const Obj &d, EId &c, EId &k, EId &t, int &objC, int &objT);
    EId canonIdx(EId e);
    bool divLin(EId e, int64_t k, EId &out);
    void copyMem(State &s, const Val &d, const Val &src, const Val &n, bool isMove, const Instruction *I);
    void zeroMem(State &s, const Val &d, const Val &byte, const Val &n, const Instruction *I);
    Val alloc(State &s, const Val &n, int fam, const Instruction *I);
    void freeObj(State &s, const Val &p, int fam, const Instruction *I);
    void fieldRole(State &s, const Instruction *I, const Value *ptrOp, const Val &pv, const Val &v);
    void foldDirs(State &s, bool all, const Instruction *I);
    void foldSlot(State &s, int dir, EId idx, const Instruction *I);
    void kindCheck(State &s, const Instruction *I, const Val &b, const std::string &sn);
    void markData(State &s, int id);
    Val freshData(State &s, int size);
    bool tighten(State &s, EId t);
    void absorb(State &s, int obj);
    int tagOf(State &s, int obj);

    // trees of 64-bit bitmaps
    bool useArt = false;
    int64_t artOff();
    int artLeaf(State &s, const Val &a, const Instruction *I);
    int artMove(State &s, int g);
    void artEmpty(State &s, int g);
    std::vector<Val> artPlaces(State &s, int g, bool &mayBeNone);
    void artFill(State &s, const Val &it, const Val &art, const Val &v, const Instruction *I);
    bool artVictim(State &s, int g, EId &idx);
    void artErased(State &s, int g, EId idx, const Val &out, const Instruction *I);
    Val leafValue(State &s, int g, EId idx, const Instruction *I);
    void leafStore(State &s, int g, EId idx, const Val &v, const Instruction *I);
    bool artCall(State s, const CallBase *cb, const std::string &nm, const std::vector<Val> &args, std::vector<State> &outs);

    // control
    Val eval(State &s, const Value *v);
    void setv(State &s, const Value *v, const Val &x);
    std::vector<State> exec(const Function *F, State s);
    struct Out { State s; const BasicBlock *to; const BasicBlock *from; bool ret = false; };
    void runBlock(const FnInfo &fi, const BasicBlock *bb, State s, std::vector<Out> &outs);
    std::vector<State> call(State s, const CallBase *cb);
    bool prim(State &s, const CallBase *cb, const std::string &nm, const std::vector<Val> &args, std::vector<State> &outs, bool &handled);
    void gc(State &s, const Instruction *I, bool leaks = true);
    struct CellName { std::string nm; EId off; EId idx = -1; EId base = -1; int w = 0; bool operator<(const CellName &o) const { return nm != o.nm ? nm < o.nm : off < o.off; } };
    struct Canon { std::string key; std::vector<int> order; std::map<int, int> num; std::map<int, std::vector<CellName>> cellNames; };
    Canon canon(State &s);
    bool join(State &a, const Canon &ca, const State &b, const Canon &cb, bool widen, std::unordered_map<EId, EId> *sub = nullptr);  // a := a join b; true if changed
    std::vector<State> mergeStates(std::vector<State> v, const Instruction *I);
    std::vector<std::pair<State, bool>> branch(State s, EId cond);

    // function summaries over the part of the heap a call can reach
    struct Summary { State in; Canon cin; std::vector<State> outs; bool busy = false; };
    std::map<std::pair<const Function *, std::string>, Summary> sums;
    std::set<const Function *> active;
    std::vector<std::string> callerStack;
    bool noSums = getenv("NOSUMS") != nullptr;
    long nRejoin = 0, nSumHit = 0, nSumRun = 0;
    bool summarise(State &s, const CallBase *cb, const Function *F, const std::vector<Val> &args, std::vector<State> &outs);
    bool applySummary(State &s, const State &O, const Canon &cin, const Canon &cact, const State &L, std::unordered_map<EId, EId> sub);

    // reporting
    void report(State &s, const std::string &rule, const Instruction *I, const std::string &msg, const std::string &obj = "");
    std::string fname(const Function *F);
    std::string loc(const Instruction *I);

    // entries
    struct EntrySpec { std::string fn; std::map<int, int> alias; std::string name; std::map<std::string, std::string> opt; };
    void runEntry(const EntrySpec &e);
    void exitChecks(State &s, const Function *F, const Instruction *I);
    Val argFor(State &s, const DIType *t, const std::string &nm, const EntrySpec &e);
};

const DIType *strip(const DIType *t, bool *isConst = nullptr);
const DIType *pointee(const DIType *t, bool *isConst = nullptr);
std::string structName(const DIType *t);
const DIType *memberAt(const DIType *t, int64_t off, std::string *name, const DICompositeType **owner, bool *isConst = nullptr, int64_t *rel = nullptr);
int64_t memberOffset(const DICompositeType *t, const std::string &n);
