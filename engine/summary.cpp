// Function summaries: a callee that only works on containers and plain
// buffers is analysed once per input shape, on the part of the heap it can
// reach, and the result is reused at every call whose input is covered.
#include "engine.h"
#include <llvm/IR/IntrinsicInst.h>
#include <algorithm>

static bool bitmapLike(const DIType *t) {
    std::string n = t ? t->getName().str() : "";
    return n == "roaring_bitmap_s" || n == "roaring_array_s" || n == "roaring64_bitmap_s" || n == "roaring_uint32_iterator_s" || n == "roaring64_iterator_s" ||
           n == "roaring_bulk_context_s" || n == "roaring64_bulk_context_s" || n == "roaring_container_iterator_s";
}
bool Engine::summarise(State &s, const CallBase *cb, const Function *F, const std::vector<Val> &args, std::vector<State> &outs) {
    if (noSums || active.count(F)) return false;
    if (!wide.empty()) for (auto &a : cb->args()) if (wide.count(a)) return false;
    if (F->size() == 1) { bool calls = false; for (auto &I : F->front()) if (isa<CallBase>(I) && !isa<IntrinsicInst>(I)) calls = true; if (!calls) return false; }
    // what the call can reach
    std::vector<int> order;
    std::map<int, int> pos;
    std::vector<EId> symOrder;
    std::set<EId> symSeen;
    bool ok = true;
    std::function<void(int)> addO = [&](int o) {
        if (!o || pos.count(o)) return;
        const Obj *q = get(s, o);
        if (!q) return;
        pos[o] = (int)order.size() + 1; order.push_back(o);
    };
    auto addE = [&](EId e) { if (e >= 0) X.syms(e, [&](EId x) { if (X.n[x].op == E_ADDR) addO((int)X.n[x].c); else if (symSeen.insert(x).second) symOrder.push_back(x); }); };
    std::function<void(const Val &)> addV = [&](const Val &v) {
        if (v.k == VP) { addO(v.obj); addE(v.e); }
        if (v.k == VI) addE(v.e);
        if (v.k == VA) for (auto &x : *v.agg) addV(x);
    };
    for (auto &a : args) { addV(a); if (a.k == VF) ok = false; }
    for (size_t i = 0; i < order.size() && ok; i++) {
        const Obj *o = get(s, order[i]);
        if (o->dir || (o->di && bitmapLike(o->di)) || order.size() > 40) { ok = false; break; }
        addE(o->tag); addE(o->size); addE(o->ownerOff);
        addO(o->sharedBy); addO(o->lazyFrom); addO(o->owner);
        for (auto &c : o->copies) { addE(c.dst); addE(c.srcOff); addO(c.src); }
        if (!o->alive) continue;
        for (auto &c : o->cells) { addE(c.first); addV(c.second.v); addV(c.second.init); }
    }
    if (!ok) return false;
    State L;
    for (int id : order) { L.heap[id] = s.heap[id]; Obj &m = mut(L, id); m.pin = pos[id]; m.root = false; }
    L.cb = s.cb; L.faulted = s.faulted; L.extra = s.extra;
    Frame f; f.fn = F; f.site = nullptr;
    const FnInfo &ci = info(F);
    unsigned k = 0;
    for (auto &a : F->args()) { if (k < args.size()) f.env.push_back({ci.id.at(&a), args[k]}); k++; }
    L.fr.push_back(f);
    for (auto &q : s.facts) { bool in = true; X.syms(q.first, [&](EId x) { if (!symSeen.count(x)) in = false; }); if (in) L.facts.insert(q); }
    for (EId x : symOrder) { auto d = s.dom.find(x); if (d != s.dom.end()) { L.dom.insert(*d); L.wit.push_back(vI(x)); } }
    Canon cL = canon(L);
    std::string zk = cL.key;   // a container known to be empty is kept apart
    for (size_t i = 0; i < order.size(); i++) { const Obj *o = get(s, order[i]); if (o->alive && o->kind == O_HEAP && o->stype >= 1 && o->stype <= 3) { auto c = o->cells.find(X.cst(0)); int64_t v; if (c != o->cells.end() && c->second.v.k == VI && X.isC(c->second.v.e, &v) && v == 0) zk += "z" + std::to_string(i); } }
    auto key = std::make_pair(F, zk);
    auto it = sums.find(key);
    std::unordered_map<EId, EId> sub;
    bool have = false;
    if (it != sums.end()) {
        if (it->second.busy) return false;
        State J = it->second.in;
        if (!join(J, it->second.cin, L, cL, true, &sub)) have = true;
        else {
            Canon cj = canon(J);
            if (cj.key == cL.key) { it->second.in = J; it->second.cin = std::move(cj); }
            else { it->second.in = L; it->second.cin = cL; }
        }
    } else { Summary sm; sm.in = L; sm.cin = cL; it = sums.emplace(key, std::move(sm)).first; }
    if (!have) {
        nSumRun++;
        it->second.busy = true;
        active.insert(F);
        std::string st;
        for (size_t i = 0; i < s.fr.size(); i++) st += (i ? " > " : "") + fname(s.fr[i].fn) + "@" + (i + 1 < s.fr.size() ? loc(s.fr[i + 1].site) : loc(cb));
        callerStack.push_back(st);
        auto rs = exec(F, it->second.in);
        if (!budget.hit) rs = mergeStates(std::move(rs), cb);
        callerStack.pop_back();
        active.erase(F);
        it->second.busy = false;
        if (budget.hit) return true;
        if (rs.size() == 1) gc(rs[0], cb);
        it->second.outs = std::move(rs);
        State J = it->second.in;
        sub.clear();
        if (join(J, it->second.cin, L, cL, true, &sub)) {   // cannot happen unless the join lost a link: analyse this call on its own
            if (getenv("SUMDBG")) fprintf(stderr, "summary of %s does not cover its own input\n", fname(F).c_str());
            return false;
        }
    } else nSumHit++;
    Canon cin = it->second.cin;
    for (auto &O : it->second.outs) {
        State t = s;
        if (applySummary(t, O, cin, cL, L, sub)) outs.push_back(std::move(t));
    }
    return true;
}
bool Engine::applySummary(State &s, const State &O, const Canon &cin, const Canon &cact, const State &L, std::unordered_map<EId, EId> sub) {
    std::map<int, int> om;
    for (size_t i = 0; i < cin.order.size() && i < cact.order.size(); i++) om[cin.order[i]] = cact.order[i];
    std::set<int> globals;
    for (auto &h : O.heap) if (h.second->kind == O_GLOBAL) om[h.first] = h.first;
    auto fO = [&](int o) -> int { if (!o) return 0; auto i = om.find(o); if (i != om.end()) return i->second; return om[o] = nextObj++; };
    // members loaded inside that the caller had loaded before are the same unknowns
    for (auto &h : O.heap) {
        auto i = om.find(h.first);
        if (i == om.end() || h.second->kind == O_GLOBAL || !h.second->alive) continue;
        const Obj *ao = get(s, i->second);
        if (!ao || !ao->alive) continue;
        for (auto &c : h.second->cells) {
            if (c.second.dirty || c.second.v.k != VI || X.n[c.second.v.e].op != E_SYM || sub.count(c.second.v.e) || !X.isC(c.first)) continue;
            auto j = ao->cells.find(c.first);
            if (j != ao->cells.end() && j->second.v.k == VI && j->second.size == c.second.size) sub[c.second.v.e] = j->second.v.e;
        }
    }
    std::unordered_map<EId, EId> memo;
    std::function<EId(EId)> leaf = [&](EId x) -> EId {
        if (X.n[x].op == E_ADDR) return X.addr(fO((int)X.n[x].c));
        auto i = sub.find(x);
        if (i != sub.end()) return i->second;
        EId g = X.fresh(X.symName[X.n[x].c]);
        sub[x] = g;
        return g;
    };
    auto fE = [&](EId e) -> EId { return e < 0 ? e : mapE(e, leaf, memo); };
    std::function<Val(const Val &)> fV = [&](const Val &v) -> Val {
        Val r = v;
        if (v.k == VP) { r.obj = fO(v.obj); r.e = fE(v.e); }
        if (v.k == VI) r.e = fE(v.e);
        if (v.k == VA) { r.agg = std::make_shared<std::vector<Val>>(); for (auto &x : *v.agg) r.agg->push_back(fV(x)); }
        return r;
    };
    for (auto &h : O.heap) {
        if (h.second->kind == O_GLOBAL && !h.second->pin) { if (!s.heap.count(h.first)) s.heap[h.first] = h.second; continue; }
        const Obj &q = *h.second;
        auto n = std::make_shared<Obj>(q);
        n->id = fO(h.first);
        const Obj *ao = get(s, n->id);
        n->pin = ao ? ao->pin : 0;
        n->root = ao ? ao->root : q.root;
        n->tag = fE(q.tag); n->ownerOff = fE(q.ownerOff); n->size = fE(q.size); n->lazyDelta = fE(q.lazyDelta);
        n->sharedBy = fO(q.sharedBy); n->owner = fO(q.owner); n->lazyFrom = fO(q.lazyFrom);
        n->cells.clear();
        for (auto &c : q.cells) { Cell x = c.second; x.v = fV(x.v); x.init = fV(x.init); n->cells[fE(c.first)] = x; }
        // members the callee did not look at are as they were
        if (ao && ao->alive && q.alive && n->kind == O_INPUT && !n->data) for (auto &c : ao->cells) if (!n->cells.count(c.first) && !c.second.dirty && X.isC(c.first)) n->cells[c.first] = c.second;
        for (auto &c : n->copies) { c.dst = fE(c.dst); c.srcOff = fE(c.srcOff); c.src = fO(c.src); }
        for (auto *l : {&n->mvC, &n->mvT, &n->mvK}) for (auto &p : *l) { p.first = fE(p.first); p.second = fE(p.second); }
        s.heap[n->id] = n;
    }
    s.cb = O.cb; s.faulted = O.faulted; s.extra = O.extra;
    s.ret = fV(O.ret);
    std::vector<std::pair<EId, int64_t>> fix;
    for (auto &d : O.dom) {
        EId e = fE(d.first);
        int64_t v;
        if (X.isC(e, &v)) { if (v < 0 || v > 31 || !(d.second >> v & 1)) return false; continue; }
        if (X.n[e].op != E_SYM) continue;
        auto i = s.dom.find(e);
        if (i == s.dom.end()) s.dom[e] = d.second;
        else { unsigned m = i->second & d.second; if (!m) return false; i->second = m; }
    }
    for (auto &q : O.facts) {
        EId e = fE(q.first);
        int64_t v;
        if (X.isC(e, &v)) { if (v < q.second.lo || v > q.second.hi) return false; continue; }
        if (q.second.lo > -INF && !bound(s, e, false, q.second.lo)) return false;
        if (q.second.hi < INF && !bound(s, e, true, q.second.hi)) return false;
    }
    for (size_t i = 0; i < O.wit.size() && i < L.wit.size(); i++) {
        int64_t v;
        if (O.wit[i].k != VI || !X.isC(O.wit[i].e, &v)) continue;
        EId a = L.wit[i].e;
        if (X.n[a].op != E_SYM) continue;
        auto d = s.dom.find(a);
        if (d != s.dom.end() && !(v >= 0 && v < 32 && (d->second >> v & 1))) return false;
        substConst(s, a, v);
    }
    return true;
}
