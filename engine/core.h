// State representation of the abstract interpreter.
#pragma once
#include "expr.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <memory>
#include <set>

static const int64_t INF = INT64_MAX / 4;
struct Iv { int64_t lo = -INF, hi = INF; bool top() const { return lo <= -INF && hi >= INF; } };

enum VK : uint8_t { VU, VI, VP, VX, VF, VA };  // undef, int, ptr, unknown, function, aggregate
struct Val {
    VK k = VU;
    int obj = 0;
    EId e = -1;
    const llvm::Function *f = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    bool same(const Val &o) const {
        if (k != o.k) return false;
        switch (k) {
            case VI: return e == o.e;
            case VP: return obj == o.obj && e == o.e;
            case VF: return f == o.f;
            case VA: { if (agg->size() != o.agg->size()) return false; for (size_t i = 0; i < agg->size(); i++) if (!(*agg)[i].same((*o.agg)[i])) return false; return true; }
            default: return true;
        }
    }
};
struct Cell { Val v; Val init; int size = 0; bool dirty = false; };

enum OK : uint8_t { O_STACK, O_HEAP, O_INPUT, O_GLOBAL };
struct CopyRec { EId dst; int src; EId srcOff; char role; };
struct Obj {
    int id = 0;
    OK kind = O_HEAP;
    bool alive = true;
    bool isConst = false;    // reached only through a read-only argument
    bool bulk = false;       // written through unknown offsets: unknown cells hold unknown numbers
    bool data = false;       // element storage of a container: contents are numbers, not tracked
    bool absorbed = false;   // ownership handed to a directory summary
    bool owned = true;       // the analysed code is responsible for it (false: caller's buffers)
    bool root = false;       // reachable from the caller
    bool view = false;       // a caller buffer (for frozen views)
    int fam = 0;             // 1 ordinary, 2 aligned, 0 unknown
    EId size = -1;
    const llvm::DIType *di = nullptr;      // type for lazily loaded members (structs)
    const llvm::DIType *elem = nullptr;    // element type when this is an array of pointers/structs
    std::string site;        // what it is, for messages
    std::map<EId, Cell> cells;
    std::vector<std::pair<int64_t, int64_t>> zero;
    // container
    EId tag = -1;            // recorded kind for a container taken from a bitmap
    int stype = 0;           // kind by how it was built (1..4)
    int sharedBy = 0;        // the shared wrapper through which it is reached
    // shared wrapper
    int rc = -1, holds = 0;
    bool gaveUp = false;
    // directory
    bool dir = false;
    bool leafG = false;      // the leaves of a 64-bit bitmap: the recorded kinds of its containers
    bool frozenView = false; // leaves inside a caller's buffer
    int owner = 0; EId ownerOff = -1;
    bool wfC = false, wfT = false, wfK = false;
    bool pending = false, moved = false, walked = false;
    bool borrowed = false;   // lists containers of a read-only bitmap without owning them
    bool inDir = false;      // owned by a slot that is no longer tracked
    int excess = 0;
    int lazyFrom = 0; EId lazyDelta = -1;  // typecodes copied from another directory
    std::vector<CopyRec> copies;
    std::vector<std::pair<EId, EId>> mvC, mvT, mvK;
    int gen = 0;
    const llvm::DICompositeType *outT = nullptr;   // plain structure the function has to fill
    int pin = 0;             // part of the input of the function being summarised (position)
};
struct Frame {
    const llvm::Function *fn = nullptr;
    const llvm::CallBase *site = nullptr;
    std::vector<std::pair<int, Val>> env;
    std::vector<int> stack;
};
struct State {
    std::vector<Frame> fr;
    std::map<int, std::shared_ptr<Obj>> heap;
    std::map<EId, Iv> facts;
    std::map<EId, unsigned> dom;  // finite-domain syms: bitmask of values 0..31
    Val ret;
    std::vector<Val> wit;  // finite-domain unknowns of a summarised function's input
    int cb = 0;       // 0 no callback yet, 1 last said continue, 2 said stop
    bool faulted = false;
    bool dead = false;
    std::map<std::string, int> extra;  // misc typestate
};
