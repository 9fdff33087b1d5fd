#include "engine.h"
#include <algorithm>

void Engine::gc(State &s, const Instruction *I, bool leaks) {
    std::set<int> seen;
    std::vector<int> w;
    std::unordered_map<EId, char> em;
    std::set<EId> live;
    std::function<void(EId)> noteE = [&](EId e) {
        if (e < 0 || em.count(e)) return;
        em[e] = 1;
        X.syms(e, [&](EId x) { if (X.n[x].op == E_ADDR) w.push_back((int)X.n[x].c); else live.insert(x); });
    };
    std::function<void(const Val &)> note = [&](const Val &v) {
        if (v.k == VP) { if (v.obj) w.push_back(v.obj); noteE(v.e); }
        if (v.k == VI) noteE(v.e);
        if (v.k == VA) for (auto &x : *v.agg) note(x);
    };
    for (auto &f : s.fr) for (auto &p : f.env) note(p.second);
    note(s.ret);
    for (auto &x : s.wit) note(x);
    for (auto &h : s.heap) if (h.second->root || h.second->pin) w.push_back(h.first);
    while (!w.empty()) {
        int id = w.back(); w.pop_back();
        if (!seen.insert(id).second) continue;
        const Obj *o = get(s, id);
        if (!o) continue;
        noteE(o->tag); noteE(o->ownerOff); noteE(o->size); noteE(o->lazyDelta);
        if (o->sharedBy) w.push_back(o->sharedBy);
        if (o->lazyFrom) w.push_back(o->lazyFrom);
        for (auto &c : o->copies) { noteE(c.dst); noteE(c.srcOff); }
        for (auto *l : {&o->mvC, &o->mvT, &o->mvK}) for (auto &p : *l) { noteE(p.first); noteE(p.second); }
        if (!o->alive) continue;
        for (auto &c : o->cells) { noteE(c.first); note(c.second.v); note(c.second.init); }
    }
    std::vector<int> dead;
    for (auto &h : s.heap) if (!seen.count(h.first)) dead.push_back(h.first);
    // objects only reachable from other leaked objects are reported through their root
    std::set<int> sub;
    for (int id : dead) { const Obj *o = get(s, id); if (o->alive) for (auto &c : o->cells) if (c.second.v.k == VP && c.second.v.obj != id) sub.insert(c.second.v.obj); }
    for (int id : dead) {
        const Obj *o = get(s, id);
        if (leaks && o->alive && (o->kind == O_HEAP || o->kind == O_INPUT) && o->owned && !o->absorbed && !o->isConst && !o->gaveUp && !o->inDir && !sub.count(id)) {
            bool rep = true;
            if (o->sharedBy) { const Obj *wr = get(s, o->sharedBy); if (!wr || wr->alive) rep = false; }
            if (o->kind == O_INPUT && !(o->di || o->tag >= 0 || o->dir || o->bulk)) rep = false;
            if (o->leafG) {   // a tree nothing was ever put in holds no storage; a frozen one lies in the caller's buffer
                bool some = o->wfT;
                for (auto &c : o->cells) if (c.second.size == 1) some = true;
                if (!some || o->frozenView || (o->kind == O_INPUT && entryFlags.count("frozen"))) rep = false;
            }
            if (rep) report(s, "LEAK", I, "storage becomes unreachable without being released (" + o->site + ")", o->site);
        }
    }
    for (int id : dead) s.heap.erase(id);
    for (auto i = s.facts.begin(); i != s.facts.end();) {
        bool ok = !i->second.top();
        if (ok) X.syms(i->first, [&](EId x) { if (X.n[x].op == E_SYM && !live.count(x)) ok = false; });
        if (ok) ++i; else i = s.facts.erase(i);
    }
    for (auto i = s.dom.begin(); i != s.dom.end();) if (live.count(i->first)) ++i; else i = s.dom.erase(i);
}

static bool plainBuffer(const Obj &o) { if (o.kind == O_INPUT && o.bulk && !o.owned && !o.di) return true; return !o.di && o.tag < 0 && !o.stype && !o.dir && o.kind != O_STACK; }
static bool ignoredCell(const Obj &o, const Cell &c) {  // numbers in lazily loaded storage do not distinguish shapes
    return o.kind == O_INPUT && !o.dir && c.v.k == VI && c.size > 1;
}
Engine::Canon Engine::canon(State &s) {
    Canon C;
    std::string &k = C.key;
    std::unordered_map<EId, int> posOf;   // number-valued variables, by value
    std::unordered_map<EId, std::string> symNo;   // named by the variable they occur in, so that growing sums elsewhere do not matter
    int newNo = 0;
    int pos = 0;
    for (auto &f : s.fr) std::sort(f.env.begin(), f.env.end(), [](auto &a, auto &b) { return a.first < b.first; });
    auto isNarrow = [&](const Frame &f, int id) { Type *t = info(f.fn).val[id]->getType(); return t->isIntegerTy() && t->getIntegerBitWidth() <= 8; };
    // object numbering
    std::vector<int> q;
    auto numObj = [&](int o) -> int {
        if (!o) return 0;
        auto i = C.num.find(o);
        if (i != C.num.end()) return i->second;
        int n = (int)C.order.size() + 1;
        C.num[o] = n; C.order.push_back(o);
        return n;
    };
    auto I2 = [&](EId e) { posOf.emplace(e, pos); int rank = 0; X.syms(e, [&](EId x) { symNo.emplace(x, "p" + std::to_string(pos) + "." + std::to_string(rank++)); }); pos++; };
    std::function<std::string(EId)> ex = [&](EId e) -> std::string {
        const ENode n = X.n[e];
        if (n.op == E_SYM) { auto i = symNo.find(e); if (i == symNo.end()) i = symNo.emplace(e, "u" + std::to_string(newNo++)).first; return i->second; }
        if (n.op == E_ADDR) return "a" + std::to_string(numObj((int)n.c));
        std::string r = std::to_string(n.op) + "(" + std::to_string(n.op == E_LIN ? n.c : 0);
        if (n.op == E_LIN) {
            std::vector<std::string> t;
            for (auto &p : n.t) t.push_back(std::to_string(p.second) + ex(p.first));
            std::sort(t.begin(), t.end());
            for (auto &x : t) r += "," + x;
        } else { if (n.a >= 0) r += ex(n.a); if (n.b >= 0) r += "," + ex(n.b); }
        return r + ")";
    };
    std::function<void(const Val &, bool)> putV = [&](const Val &v, bool narrow) {
        switch (v.k) {
            case VU: k += 'U'; break;
            case VX: k += 'X'; break;
            case VF: k += 'F'; k += std::to_string((long)v.f); break;
            case VI: {
                int64_t c;
                if (narrow && X.isC(v.e, &c)) k += "c" + std::to_string(c);
                else k += 'I';
                I2(v.e);
                break; }
            case VP: {
                int64_t c;
                k += 'P'; k += std::to_string(numObj(v.obj));
                const Obj *o = get(s, v.obj);
                if (v.obj && o && !plainBuffer(*o) && X.isC(v.e, &c)) k += "+" + std::to_string(c);
                else if (v.obj && o && plainBuffer(*o) && X.isC(v.e, &c) && c == 0 && o->kind == O_HEAP && false) k += "+0";
                else k += "~";
                break; }
            case VA: k += '{'; for (auto &x : *v.agg) putV(x, true); k += '}'; break;
        }
    };
    for (auto &f : s.fr) {
        k += "F" + std::to_string((long)f.fn) + ":" + std::to_string((long)f.site) + "[";
        for (auto &p : f.env) { k += std::to_string(p.first) + "="; putV(p.second, isNarrow(f, p.first)); k += ";"; }
        k += "]";
    }
    k += "R"; putV(s.ret, true);
    for (auto &x : s.wit) { k += 'w'; putV(x, true); }
    k += "cb" + std::to_string(s.cb) + (s.faulted ? "f" : "");
    for (auto &e : s.extra) k += e.first + "=" + std::to_string(e.second);
    { std::vector<std::pair<int, int>> pins; for (auto &h : s.heap) if (h.second->pin) pins.push_back({h.second->pin, h.first}); std::sort(pins.begin(), pins.end()); for (auto &p : pins) numObj(p.second); }
    for (auto &h : s.heap) if (h.second->root) numObj(h.first);   // created once at entry: ids agree between states
    // first pass: reach through constant cells to number the variables
    for (size_t i = 0; i < C.order.size(); i++) {
        const Obj *o = get(s, C.order[i]);
        if (!o || !o->alive) continue;
        for (auto &c : o->cells) {
            int64_t z;
            if (!X.isC(c.first, &z)) continue;
        }
        std::vector<std::pair<int64_t, const Cell *>> cc;
        for (auto &c : o->cells) { int64_t z; if (X.isC(c.first, &z)) cc.push_back({z, &c.second}); }
        std::sort(cc.begin(), cc.end());
        for (auto &c : cc) { if (c.second->v.k == VP) numObj(c.second->v.obj); if (c.second->v.k == VI && !ignoredCell(*o, *c.second)) I2(c.second->v.e); }
    }
    // second pass: everything
    for (size_t i = 0; i < C.order.size(); i++) {
        const Obj *o = get(s, C.order[i]);
        k += "\n#" + std::to_string(i + 1);
        if (!o) { k += "gone"; continue; }
        k += ":" + std::to_string(o->kind) + (o->alive ? "" : "D") + (o->isConst ? "c" : "") + (o->bulk ? "b" : "") + (o->data ? "B" : "") + (o->absorbed ? "a" : "") + (o->owned ? "" : "u") + (o->root ? "r" : "") + (o->pin ? "n" : "") + (o->inDir ? "i" : "") + std::to_string(o->fam) + "t" + std::to_string(o->stype);
        if (o->kind == O_INPUT || o->kind == O_GLOBAL) k += "@" + std::to_string((long)o->di);
        if (!o->alive) { k += "|" + o->site; continue; }
        int64_t z;
        if (o->tag >= 0) k += X.isC(o->tag, &z) ? "k" + std::to_string(z) : std::string("k?");
        if (o->sharedBy) k += "S" + std::to_string(numObj(o->sharedBy));
        if (o->stype == 4 || (o->tag >= 0 && X.isC(o->tag, &z) && z == 4)) k += "rc" + std::to_string(o->rc) + "h" + std::to_string(o->holds) + (o->gaveUp ? "g" : "");
        if (o->dir) k += "d" + std::to_string(numObj(o->owner)) + (o->wfC ? "C" : "") + (o->wfT ? "T" : "") + (o->wfK ? "K" : "") + (o->leafG ? "G" : "") + (o->pending ? "p" : "") + (o->walked ? "W" : "") + (o->moved ? "m" : "") + (o->borrowed ? "b" : "") + "x" + std::to_string(o->excess) + "l" + std::to_string(numObj(o->lazyFrom));
        if (!o->dir && !o->copies.empty()) for (auto &c : o->copies) k += std::string("y") + c.role + std::to_string(numObj(c.src));
        k += "v" + std::to_string(o->mvC.size()) + std::to_string(o->mvT.size());
        for (auto &zr : o->zero) k += "z" + std::to_string(zr.first) + "-" + std::to_string(zr.second);
        EId bc = -1, bk, bt = -1; int oc = 0, ot = 0;
        if (o->dir) dirBases(s, *o, bc, bk, bt, oc, ot);
        std::vector<CellName> names;
        for (auto &c : o->cells) {
            if (ignoredCell(*o, c.second) && X.isC(c.first)) continue;
            std::string nm; EId ix = -1, bs = -1; int w = 0;
            if (o->dir && c.second.size == 8 && oc == o->id) { EId qx; if (divLin(X.sub(c.first, bc), 8, qx)) { qx = canonIdx(qx); ix = qx; bs = bc; w = 8; auto p = posOf.find(qx); nm = "C" + (p != posOf.end() ? "v" + std::to_string(p->second) : ex(qx)); } }
            if (o->dir && c.second.size == 1 && ot == o->id) { EId qx = canonIdx(X.sub(c.first, bt)); ix = qx; bs = bt; w = 1; auto p = posOf.find(qx); nm = "T" + (p != posOf.end() ? "v" + std::to_string(p->second) : ex(qx)); }
            if (nm.empty()) {
                if (X.isC(c.first, &z)) { char buf[32]; snprintf(buf, sizeof buf, "%08ld", (long)z); nm = buf; }
                else nm = "~" + ex(c.first);
            }
            names.push_back({nm, c.first, ix, bs, w});
        }
        std::sort(names.begin(), names.end());
        for (auto &n : names) {
            const Cell &c = o->cells.at(n.off);
            k += "," + n.nm + (o->dir ? (c.dirty ? "!" : "") : ":" + std::to_string(c.size)) + "=";
            putV(c.v, c.size == 1);
            if (o->dir) { k += "/"; putV(c.init, c.size == 1); }
        }
        C.cellNames[C.order[i]] = names;
    }
    return C;
}
static Iv hull(Iv a, Iv b) { return Iv{std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }

static int64_t wlo(int64_t v) { return v >= 1 ? 1 : v >= 0 ? 0 : v >= -1 ? -1 : -INF; }
static int64_t whi(int64_t v) { for (int64_t t : {-1ll, 0ll, 1ll, 65535ll, 65536ll, 2147483647ll, 4294967296ll}) if (v <= t) return t; return INF; }
bool Engine::join(State &a, const Canon &ca, const State &b, const Canon &cb, bool widen, std::unordered_map<EId, EId> *sub) {
    // pass 1: collect pairs and test inclusion of b in a
    std::vector<std::pair<EId, EId>> pairs;
    bool structural = false;
    typedef std::function<EId(EId, EId)> Fn;
    auto zipV = [&](auto &&self, Val &x, const Val &y, const Fn &f) -> void {
        if ((x.k == VI || x.k == VP) && y.k == x.k) { x.e = f(x.e, y.e); }
        else if (x.k == VA && y.k == VA && x.agg->size() == y.agg->size()) {
            auto n = std::make_shared<std::vector<Val>>(*x.agg);
            for (size_t i = 0; i < n->size(); i++) self(self, (*n)[i], (*y.agg)[i], f);
            x.agg = n;
        }
    };
    auto zip = [&](State &A, bool write, const Fn &f) {
        for (size_t i = 0; i < A.fr.size(); i++)
            for (size_t j = 0; j < A.fr[i].env.size() && j < b.fr[i].env.size(); j++) {
                Val v = A.fr[i].env[j].second;
                zipV(zipV, v, b.fr[i].env[j].second, f);
                if (write) A.fr[i].env[j].second = v;
            }
        for (size_t i = 0; i < A.wit.size() && i < b.wit.size(); i++) { Val v = A.wit[i]; zipV(zipV, v, b.wit[i], f); if (write) A.wit[i] = v; }
        { Val v = A.ret; zipV(zipV, v, b.ret, f); if (write) A.ret = v; }
        for (size_t i = 0; i < ca.order.size() && i < cb.order.size(); i++) {
            const Obj *oa = get(A, ca.order[i]), *ob = get(b, cb.order[i]);
            if (!oa || !ob || !oa->alive || !ob->alive) continue;
            Obj n = *oa;
            auto fe = [&](EId x, EId y) -> EId { return x < 0 || y < 0 ? x : f(x, y); };
            n.tag = fe(oa->tag, ob->tag);
            n.ownerOff = fe(oa->ownerOff, ob->ownerOff);
            if (oa->size >= 0) n.size = ob->size >= 0 ? f(oa->size, ob->size) : oa->size;
            n.lazyDelta = fe(oa->lazyDelta, ob->lazyDelta);
            for (size_t c = 0; c < n.copies.size() && c < ob->copies.size(); c++) { n.copies[c].dst = f(oa->copies[c].dst, ob->copies[c].dst); n.copies[c].srcOff = f(oa->copies[c].srcOff, ob->copies[c].srcOff); }
            auto zl = [&](std::vector<std::pair<EId, EId>> &l, const std::vector<std::pair<EId, EId>> &m) { for (size_t c = 0; c < l.size() && c < m.size(); c++) { l[c].first = f(l[c].first, m[c].first); l[c].second = f(l[c].second, m[c].second); } };
            zl(n.mvC, ob->mvC); zl(n.mvT, ob->mvT); zl(n.mvK, ob->mvK);
            std::map<EId, Cell> nc;
            auto na = ca.cellNames.find(ca.order[i]); auto nb = cb.cellNames.find(cb.order[i]);
            std::set<EId> doneA, doneB;
            if (na != ca.cellNames.end() && nb != cb.cellNames.end())
                for (size_t c = 0; c < na->second.size() && c < nb->second.size(); c++) {
                    EId xo = na->second[c].off, yo = nb->second[c].off;
                    const CellName &ka = na->second[c], &kb = nb->second[c];
                    doneA.insert(xo); doneB.insert(yo);
                    auto xa = oa->cells.find(xo); auto yb = ob->cells.find(yo);
                    if (xa == oa->cells.end() || yb == ob->cells.end()) continue;
                    Cell x = xa->second;
                    zipV(zipV, x.v, yb->second.v, f);
                    zipV(zipV, x.init, yb->second.init, f);
                    x.dirty |= yb->second.dirty;
                    if (ka.w && ka.w == kb.w) nc[X.add(f(ka.base, kb.base), X.scale(f(ka.idx, kb.idx), ka.w))] = x;
                    else nc[f(xo, yo)] = x;
                }
            for (auto &c : oa->cells) {
                if (doneA.count(c.first)) continue;
                auto y = ob->cells.find(c.first);
                if (y == ob->cells.end()) {
                    if (!c.second.dirty) { structural = true; continue; }
                    Cell x = c.second;
                    if (x.v.k == VI) { EId g = f(x.v.e, -2); if (g != x.v.e) x.v = vI(g); }
                    nc[c.first] = x;
                } else if (y->second.v.k == VI && c.second.v.k == VI) {
                    Cell x = c.second;
                    x.v.e = f(x.v.e, y->second.v.e);
                    if (!x.dirty && y->second.dirty) { x.dirty = true; structural = true; }
                    nc[c.first] = x;
                } else { Cell x = c.second; x.v = y->second.size > 8 ? vX() : (write ? freshI("mix") : x.v); if (!(c.second.v.k == VI && X.n[c.second.v.e].op == E_SYM)) structural = true; nc[c.first] = x; }
            }
            for (auto &c : ob->cells) if (!doneB.count(c.first) && !oa->cells.count(c.first) && c.second.dirty && c.second.v.k == VI) {
                structural = true;
                Cell x = c.second; if (write) x.v = freshI("mix"); x.init = Val();
                nc[c.first] = x;
            }
            if (write) { n.cells = nc; mut(A, ca.order[i]) = n; }
        }
    };
    zip(a, false, [&](EId x, EId y) { pairs.push_back({x, y}); return x; });
    std::set<EId> liveA;   // unknowns that still occur somewhere
    for (auto &p : pairs) X.syms(p.first, [&](EId x) { liveA.insert(x); });
    if (!structural) {
        std::unordered_map<EId, EId> sg, memo;
        bool ok = true;
        for (auto &p : pairs) if (X.n[p.first].op == E_SYM) {
            if (p.second == -2) continue;
            auto i = sg.find(p.first);
            if (i == sg.end()) sg[p.first] = p.second; else if (i->second != p.second) { ok = false; break; }
        }
        for (bool more = ok, guess = false, p0 = false; more;) {   // unknowns that only occur inside combinations
            more = false;
            for (auto &p : pairs) {
                if (p.second < 0 || X.n[p.first].op != E_LIN) continue;
                EId un = -1; int64_t uk = 0; int cnt = 0; bool opaque = false;
                std::map<EId, int64_t> lm; int64_t lc = 0;
                X.lin(p.second, 1, lm, lc);
                lc -= X.n[p.first].c;
                for (auto &t : X.n[p.first].t) {
                    if (X.n[t.first].op == E_SYM && !sg.count(t.first)) { cnt++; un = t.first; uk = t.second; continue; }
                    if (X.n[t.first].op != E_SYM) {
                        bool open = false;
                        X.syms(t.first, [&](EId x) { if (X.n[x].op == E_SYM && !sg.count(x) && !b.facts.count(x) && !lm.count(t.first)) open = true; });
                        if (open) { opaque = true; break; }
                        std::unordered_map<EId, EId> tmp;
                        X.lin(mapE(t.first, [&](EId x) { auto i = sg.find(x); return i == sg.end() ? x : i->second; }, tmp), -t.second, lm, lc);
                        continue;
                    }
                    X.lin(sg[t.first], -t.second, lm, lc);
                }
                if (opaque || !cnt) continue;
                if (cnt > 1) {
                    if (!guess) continue;   // several at once: try the pairing by factor (verified below)
                    bool all = true;
                    for (auto &t : X.n[p.first].t) if (X.n[t.first].op == E_SYM && !sg.count(t.first)) {
                        bool hit = false;
                        for (auto &l : lm) if (l.second == t.second && X.n[l.first].op == E_SYM) { sg[t.first] = l.first; l.second = 0; hit = true; break; }
                        if (!hit) { all = false; break; }
                    }
                    more = all; guess = false;
                    if (!all) { ok = false; p0 = true; }
                    break;
                }
                EId q;
                if (!divLin(X.mkLin(lm, lc), uk, q)) continue;
                sg[un] = q; more = true;
            }
            if (p0) break;
            if (!more && !guess) { guess = more = true; }
            else if (more) guess = false;
        }
        auto leaf = [&](EId x) -> EId {
            if (X.n[x].op == E_ADDR) { auto i = ca.num.find((int)X.n[x].c); if (i != ca.num.end() && i->second <= (int)cb.order.size()) return X.addr(cb.order[i->second - 1]); return x; }
            auto i = sg.find(x); return i == sg.end() ? x : i->second; };
        if (ok) for (auto &p : pairs) {
            if (p.second == -2) { if (X.n[p.first].op != E_SYM) { ok = false; break; } continue; }
            if (X.n[p.first].op == E_SYM) continue;
            if (mapE(p.first, leaf, memo) != p.second) { ok = false; break; }
        }
        if (ok) for (auto &f : a.facts) {
            if (f.second.top()) continue;
            bool gone = false; X.syms(f.first, [&](EId x) { if (X.n[x].op == E_SYM && !liveA.count(x)) gone = true; });
            if (gone) continue;
            Iv r = range(b, mapE(f.first, leaf, memo));
            if (r.lo < f.second.lo || r.hi > f.second.hi) { ok = false; break; }
        }
        if (ok) for (auto &d : a.dom) {
            if (!liveA.count(d.first)) continue;
            EId y = mapE(d.first, leaf, memo);
            int64_t v;
            if (X.isC(y, &v)) { if (v < 0 || v > 31 || !(d.second >> v & 1)) { ok = false; break; } }
            else { auto i = b.dom.find(y); if (i == b.dom.end() || (i->second & ~d.second)) { ok = false; break; } }
        }
        if (ok) { if (sub) *sub = sg; return false; }
    }
    // join
    std::map<std::pair<EId, EId>, EId> memo;
    std::unordered_map<EId, EId> sA, sB;  // a-sym -> joined sym, joined sym -> b expr
    std::map<EId, Iv> nf;
    std::map<EId, unsigned> nd;
    std::unordered_map<EId, EId> dummy;
    std::function<EId(EId, EId)> f = [&](EId x, EId y) -> EId {
        if (x == y) return x;
        if (y >= 0 && X.n[x].op == E_ADDR && X.n[y].op == E_ADDR) { auto i = ca.num.find((int)X.n[x].c), j = cb.num.find((int)X.n[y].c); if (i != ca.num.end() && j != cb.num.end() && i->second == j->second) return x; }
        auto k = std::make_pair(x, y);
        auto i = memo.find(k);
        if (i != memo.end()) return i->second;
        if (y >= 0) {  // the same combination of different unknowns stays a combination
            const ENode p = X.n[x], q = X.n[y];
            if (p.op == E_LIN && q.op == E_LIN && p.c == q.c && p.t.size() == q.t.size() && !p.t.empty()) {
                auto a = p.t, b = q.t;
                std::vector<std::pair<std::pair<EId, EId>, int64_t>> m;
                for (auto u = a.begin(); u != a.end();) { auto v = std::find(b.begin(), b.end(), *u); if (v != b.end()) { m.push_back({{u->first, u->first}, u->second}); b.erase(v); u = a.erase(u); } else ++u; }
                bool ok = true;
                for (auto &u : a) {
                    // prefer a pair already known to correspond
                    auto v = b.end();
                    for (auto w = b.begin(); w != b.end(); ++w) if (w->second == u.second && memo.count({u.first, w->first})) { v = w; break; }
                    if (v == b.end()) for (auto w = b.begin(); w != b.end(); ++w) if (w->second == u.second) { v = w; break; }
                    if (v == b.end()) { ok = false; break; }
                    m.push_back({{u.first, v->first}, u.second}); b.erase(v);
                }
                if (ok) {
                    std::map<EId, int64_t> lm; int64_t lc = p.c;
                    for (auto &e : m) X.lin(f(e.first.first, e.first.second), e.second, lm, lc);
                    return memo[k] = X.mkLin(lm, lc);
                }
            }
        }
        EId g = X.fresh(X.n[x].op == E_SYM ? X.symName[X.n[x].c] : "j");
        memo[k] = g;
        if (X.n[x].op == E_SYM && !sA.count(x)) sA[x] = g;
        if (y >= 0) {
            sB[g] = y;
            auto mask = [&](const State &st, EId e) -> unsigned { int64_t v; if (X.isC(e, &v)) return v >= 0 && v < 32 ? 1u << v : 0; auto d = st.dom.find(e); return d == st.dom.end() ? 0 : d->second; };
            unsigned mx = mask(a, x), my = mask(b, y);
            if (mx && my && (a.dom.count(x) || b.dom.count(y))) nd[g] = mx | my;
            Iv ra = range(a, x), rb = range(b, y), h = hull(ra, rb);
            if (widen && X.n[x].op == E_SYM) { if (rb.lo < ra.lo) h.lo = wlo(rb.lo); if (rb.hi > ra.hi) h.hi = whi(rb.hi); }
            if (!h.top()) nf[g] = h;
        }
        return g;
    };
    State old = a;
    zip(a, true, f);
    auto leafA = [&](EId x) -> EId { auto i = sA.find(x); return i == sA.end() ? x : i->second; };
    auto leafB = [&](EId x) -> EId {
        if (X.n[x].op == E_ADDR) { auto i = ca.num.find((int)X.n[x].c); if (i != ca.num.end() && i->second <= (int)cb.order.size()) return X.addr(cb.order[i->second - 1]); return x; }
        auto i = sB.find(x); return i == sB.end() ? x : i->second; };
    std::unordered_map<EId, EId> mA, mB;
    for (auto &q : old.facts) {
        EId e = mapE(q.first, leafA, mA);
        Iv rb = range(b, mapE(e, leafB, mB));
        Iv h = hull(q.second, rb);
        if (widen) { if (rb.lo < q.second.lo) h.lo = wlo(rb.lo); if (rb.hi > q.second.hi) h.hi = whi(rb.hi); }
        if (h.top()) continue;
        const ENode n = X.n[e];
        if (n.op == E_LIN && (n.c != 0 || n.t.empty())) continue;
        auto i = nf.find(e);
        if (i == nf.end()) nf[e] = h; else { i->second.lo = std::max(i->second.lo, h.lo); i->second.hi = std::min(i->second.hi, h.hi); }
    }
    // order relations that hold on both sides, between quantities that were joined
    {
        struct Q { EId g, x, y; };
        std::vector<Q> qs;
        for (auto &m : memo) if (m.first.second >= 0 && X.n[m.second].op == E_SYM && !nd.count(m.second)) qs.push_back({m.second, m.first.first, m.first.second});
        size_t ng = qs.size();
        std::set<EId> shared;
        for (auto &q : old.facts) { const ENode &n = X.n[q.first]; if (n.op == E_SYM && !sA.count(q.first) && b.facts.count(q.first)) shared.insert(q.first); }
        for (EId e : shared) qs.push_back({e, e, e});
        if (ng && ng <= 16 && qs.size() <= 40)
            for (size_t i = 0; i < ng; i++) for (size_t j = i + 1; j < qs.size(); j++) {
                EId d = X.sub(qs[i].g, qs[j].g);
                const ENode dn = X.n[d];
                if (dn.op != E_LIN || dn.c != 0 || dn.t.size() != 2) continue;
                Iv ra = range(old, X.sub(qs[i].x, qs[j].x)), rb = range(b, X.sub(qs[i].y, qs[j].y)), h = hull(ra, rb);
                if (!(ra.lo == rb.lo && ra.hi == rb.hi && ra.lo == ra.hi)) { h.lo = wlo(h.lo); h.hi = h.hi <= -1 ? -1 : h.hi <= 0 ? 0 : h.hi <= 1 ? 1 : INF; }
                if (h.top()) continue;
                auto iv = [&](const Q &q) -> Iv { auto k = nf.find(q.g); return k == nf.end() ? Iv() : k->second; };
                Iv u = iv(qs[i]), v = iv(qs[j]);
                Iv known; known.lo = (u.lo <= -INF || v.hi >= INF) ? -INF : u.lo - v.hi; known.hi = (u.hi >= INF || v.lo <= -INF) ? INF : u.hi - v.lo;
                if (known.lo >= h.lo && known.hi <= h.hi) continue;
                if (dn.t[0].second < 0) { d = X.scale(d, -1); std::swap(h.lo, h.hi); h.lo = h.lo >= INF ? -INF : -h.lo; h.hi = h.hi <= -INF ? INF : -h.hi; }
                auto k = nf.find(d);
                if (k == nf.end()) nf[d] = h; else { k->second.lo = std::max(k->second.lo, h.lo); k->second.hi = std::min(k->second.hi, h.hi); }
            }
    }
    for (auto &d : old.dom) if (!sA.count(d.first) && liveA.count(d.first)) {
        auto i = b.dom.find(d.first);
        unsigned m = d.second | (i == b.dom.end() ? 0 : i->second);
        nd[d.first] = m;
    }
    a.facts = nf; a.dom = nd;
    return true;
}
std::vector<State> Engine::mergeStates(std::vector<State> v, const Instruction *I) {
    if (v.size() <= 1) return v;
    std::vector<State> out;
    std::vector<Canon> cs;
    std::map<std::string, int> idx;
    for (auto &s : v) {
        gc(s, I);
        fillNull(s);
        Canon c = canon(s);
        auto it = idx.find(c.key);
        if (it == idx.end()) { idx[c.key] = (int)out.size(); out.push_back(std::move(s)); cs.push_back(std::move(c)); }
        else {
            nMerges++;
            int i = it->second;
            State J = out[i];
            if (join(J, cs[i], s, c, false)) {
                Canon cj = canon(J);
                if (cj.key == it->first) { out[i] = std::move(J); cs[i] = std::move(cj); }
                else out.push_back(std::move(s)), cs.push_back(std::move(c));   // would become another shape: keep both
            }
        }
    }
    return out;
}
