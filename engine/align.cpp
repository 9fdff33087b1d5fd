// align: memory accesses that demand more alignment than their memory promises.
// Vector loads and stores compiled to aligned instructions fault on memory that
// is not aligned; containers may lie anywhere (views over a caller's buffer,
// frozen bitmaps, ordinary allocations), so only locals, constants and blocks
// requested with that alignment may be accessed that way.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
std::string fname(const Function *F);
std::string loc(const Instruction *I);
void finding(const std::string &rule, const std::string &fn, const std::string &where, const std::string &msg, const std::string &stack = "");
void stat(const std::string &k, long v);
void note(const std::string &k, const std::string &v);
namespace {
const uint64_t MIN = 16;
struct Al {
    Module &M; const DataLayout &DL;
    struct Need { uint64_t a; std::string where; };
    std::map<const Argument *, Need> need; bool changed = false;
    std::map<std::string, std::string> out; long n = 0, unk = 0, own = 0;
    Al(Module &m) : M(m), DL(m.getDataLayout()) {}
    // is v a multiple of a, as far as its form shows?
    bool multiple(const Value *v, uint64_t a, int d = 0) {
        if (a <= 1) return true;
        if (d > 8) return false;
        if (auto *c = dyn_cast<ConstantInt>(v)) return c->getValue().getLoBits(63).getZExtValue() % a == 0;
        if (auto *e = dyn_cast<CastInst>(v)) return (isa<ZExtInst>(e) || isa<SExtInst>(e)) && multiple(e->getOperand(0), a, d + 1);
        if (auto *p = dyn_cast<PHINode>(v)) { if (!busy.insert(p).second) return true; bool ok = true; for (auto &u : p->incoming_values()) if (ok) ok = multiple(u, a, d + 1); busy.erase(p); return ok; }
        if (auto *b = dyn_cast<BinaryOperator>(v)) {
            auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
            if (b->getOpcode() == Instruction::And && c && c->getZExtValue() % a == 0) return true;
            if (b->getOpcode() == Instruction::Shl && c && c->getZExtValue() < 32 && ((uint64_t)1 << c->getZExtValue()) % a == 0) return true;
            if (b->getOpcode() == Instruction::Mul && (multiple(b->getOperand(0), a, d + 1) || multiple(b->getOperand(1), a, d + 1))) return true;
            if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub || b->getOpcode() == Instruction::Or) return multiple(b->getOperand(0), a, d + 1) && multiple(b->getOperand(1), a, d + 1);
        }
        return false;
    }
    std::set<const Value *> busy;
    static uint64_t gcd(uint64_t x, uint64_t y) { while (y) { uint64_t t = x % y; x = y; y = t; } return x; }
    // pointer p must be a multiple of a
    void demand(const Value *p, uint64_t a, const Instruction *I, const std::string &where, std::set<const Value *> &seen) {
        for (;;) {
            if (auto *g = dyn_cast<GEPOperator>(p)) {
                for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
                    if (auto *st = it.getStructTypeOrNull()) { uint64_t o = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); if (o % a) return bad(I, where, a, "at an offset that is no multiple of it"); continue; }
                    uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                    uint64_t r = a / gcd(a, sz ? sz : a);
                    if (!multiple(it.getOperand(), r)) return bad(I, where, a, "at an offset that need not be a multiple of it");
                }
                p = g->getPointerOperand();
            } else if (auto *c = dyn_cast<BitCastOperator>(p)) p = c->getOperand(0);
            else break;
        }
        if (!seen.insert(p).second) return;
        if (auto *x = dyn_cast<PHINode>(p)) { for (auto &u : x->incoming_values()) demand(u, a, I, where, seen); return; }
        if (auto *s = dyn_cast<SelectInst>(p)) { demand(s->getTrueValue(), a, I, where, seen); demand(s->getFalseValue(), a, I, where, seen); return; }
        if (auto *al = dyn_cast<AllocaInst>(p)) { own++; if (al->getAlign().value() < a) bad(I, where, a, "in a local variable aligned to " + std::to_string(al->getAlign().value())); return; }
        if (auto *g = dyn_cast<GlobalVariable>(p)) { own++; uint64_t h = g->getAlign() ? g->getAlign()->value() : DL.getABITypeAlign(g->getValueType()).value(); if (h < a) bad(I, where, a, "in a variable aligned to " + std::to_string(h)); return; }
        if (auto *x = dyn_cast<Argument>(p)) {
            if (x->hasByValAttr() || x->hasStructRetAttr()) return;
            auto &q = need[x]; if (q.a < a) { q.a = a; q.where = where; changed = true; }
            return;
        }
        if (auto *c = dyn_cast<CallBase>(p)) {
            auto *f = c->getCalledFunction();
            if (f && (f->getName() == "roaring_aligned_malloc" || f->getName() == "aligned_alloc")) { if (multiple(c->getArgOperand(0), a)) return; }
            return bad(I, where, a, "in memory from " + (f ? fname(f) : std::string("a call")) + ", which does not promise it");
        }
        if (auto *l = dyn_cast<LoadInst>(p)) {
            const Value *b = l->getPointerOperand(); while (auto *g = dyn_cast<GEPOperator>(b)) b = g->getPointerOperand();
            if (isa<AllocaInst>(b)) { unk++; return; }
            return bad(I, where, a, "through a pointer kept in a structure, whose block may lie anywhere");
        }
        unk++;
    }
    void bad(const Instruction *I, const std::string &where, uint64_t a, const std::string &why) {
        out.emplace(where.empty() ? loc(I) + "\t" + fname(I->getFunction()) : where, "the access demands an alignment of " + std::to_string(a) + " " + why + (where.empty() || where.substr(0, where.find('\t')) == loc(I) ? "" : " (pointer handed over at " + loc(I) + ")"));
    }
    int go(const std::set<std::string> &pub) {
        for (int r = 0; r < 50; r++) {
            changed = false; out.clear(); n = unk = own = 0;
            for (auto &F : M) for (auto &I : instructions(F)) {
                auto site = [&](const Value *p, uint64_t a) { if (a < MIN) return; n++; std::set<const Value *> seen; demand(p, a, &I, loc(&I) + "\t" + fname(&F), seen); };
                if (auto *l = dyn_cast<LoadInst>(&I)) site(l->getPointerOperand(), l->getAlign().value());
                else if (auto *s = dyn_cast<StoreInst>(&I)) site(s->getPointerOperand(), s->getAlign().value());
                else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { site(m->getRawDest(), m->getDestAlign() ? m->getDestAlign()->value() : 1); if (auto *t = dyn_cast<MemTransferInst>(m)) site(t->getRawSource(), t->getSourceAlign() ? t->getSourceAlign()->value() : 1); }
                else if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = c->getCalledFunction()) for (unsigned k = 0; k < c->arg_size() && k < f->arg_size(); k++) { auto it = need.find(f->getArg(k)); if (it != need.end()) { Need q = it->second; std::set<const Value *> seen; demand(c->getArgOperand(k), q.a, &I, q.where, seen); } }
            }
            if (!changed) break;
        }
        // what the user passes promises nothing; nor do functions called through pointers
        for (auto &q : need) { auto *F = q.first->getParent(); if (!F->hasLocalLinkage() && pub.count(F->getName().str())) out.emplace(q.second.where, "the access demands an alignment of " + std::to_string(q.second.a) + " of memory the caller of " + fname(F) + " passes"); else if (F->hasAddressTaken()) out.emplace(q.second.where, "the access demands an alignment of " + std::to_string(q.second.a) + " of what is passed through a function pointer"); }
        for (auto &kv : out) { auto t = kv.first.find('\t'); finding("ALIGN", kv.first.substr(t + 1), kv.first.substr(0, t), kv.second); }
        long fn = 0; for (auto &F : M) if (!F.isDeclaration()) fn++;
        stat("functions", fn); stat("aligned_accesses", n); stat("own_memory", own); stat("parameters_with_demand", need.size()); stat("not_followed", unk);
        return 0;
    }
};
} // namespace
int cmdAlign(Module &M, const std::set<std::string> &pub) { Al a(M); return a.go(pub); }
