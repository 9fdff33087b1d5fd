// 64-bit bitmaps: the tree from keys to leaves is replaced by its contract.
// The leaves of a bitmap live in one ghost object G per bitmap; a leaf pointer
// is G plus the index of the container it names, and G's contents record the
// container's kind (0: no such leaf). Operations that may move leaves (insert,
// shrink) replace G, so that leaf pointers kept across them are recognised.
#include "engine.h"

int Engine::artLeaf(State &s, const Val &a, const Instruction *I) {
    if (a.k != VP || !a.obj || !structs.count("art_s")) return 0;
    const Obj *o = get(s, a.obj);
    if (!o) return 0;
    if (!o->alive) { access(s, a, false, I, "use"); return 0; }
    EId off = X.add(a.e, X.cst(memberOffset(structs["art_s"], "nodes")));
    auto i = o->cells.find(off);
    if (i != o->cells.end()) return i->second.v.k == VP ? i->second.v.obj : 0;
    if (o->kind != O_INPUT) return 0;
    int id = newObj(s, O_INPUT, "leaves of " + o->site);
    o = get(s, a.obj);
    Obj &g = mut(s, id);
    g.isConst = o->isConst; g.owned = o->owned; g.dir = g.leafG = true; g.wfT = g.wfK = true;
    g.owner = a.obj; g.ownerOff = X.sub(a.e, X.cst(artOff()));
    Cell c; c.v = c.init = vP(id, X.cst(0)); c.size = 8;
    mut(s, a.obj).cells[off] = c;
    return id;
}
int64_t Engine::artOff() {
    auto r = structs.find("roaring64_bitmap_s");
    return r == structs.end() ? 0 : std::max<int64_t>(0, memberOffset(r->second, "art"));
}
// the leaves move: pointers to them are no longer valid
int Engine::artMove(State &s, int g) {
    const Obj *o = get(s, g);
    if (!o || !o->alive) return g;
    int id = newObj(s, o->kind, o->site);
    o = get(s, g);
    Obj &n = mut(s, id);
    Obj keep = *o; keep.id = id; keep.pin = 0;
    n = keep;
    const Obj *w = get(s, o->owner);
    if (w && w->alive) for (auto &c : w->cells) if (c.second.v.k == VP && c.second.v.obj == g) { Obj &wm = mut(s, w->id); Cell &x = wm.cells[c.first]; x.v.obj = id; x.dirty = true; break; }
    Obj &d = mut(s, g);
    d.alive = false; d.cells.clear(); d.dir = false; d.leafG = true; d.site = "leaf of " + w->site + " before it was modified"; d.root = false; d.pin = 0;
    return id;
}
// this path is the one on which the bitmap has no entries at all
void Engine::artEmpty(State &s, int g) {
    const Obj *o = get(s, g);
    if (!o || !o->cells.empty()) return;
    int w = o->owner; EId base = o->ownerOff;
    Obj &m = mut(s, g);
    m.wfT = false;
    EId off = X.add(base, X.cst(memberOffset(structs["roaring64_bitmap_s"], "containers")));
    const Obj *wo = get(s, w);
    if (!wo || !wo->alive) return;
    int64_t co;
    if (!wo->cells.count(off) && wo->kind == O_INPUT && X.isC(off, &co)) lazyMember(s, w, co, 8, true);
    wo = get(s, w);
    auto i = wo->cells.find(off);
    if (i != wo->cells.end() && i->second.v.k == VP && i->second.v.obj) { const Obj *d = get(s, i->second.v.obj); if (d && d->alive && d->cells.empty()) mut(s, d->id).wfC = false; }
}
std::vector<Val> Engine::artPlaces(State &s, int g, bool &mayBeNone) {
    std::vector<Val> r;
    mayBeNone = true;
    const Obj *o = get(s, g);
    if (!o || !o->alive) return r;
    if (o->wfT) { Val f = freshI("leaf"); bound(s, f.e, false, 0); r.push_back(vP(g, f.e)); return r; }
    for (auto &c : o->cells) { int64_t z; if (c.second.size == 1 && !(c.second.v.k == VI && X.isC(c.second.v.e, &z) && z == 0)) r.push_back(vP(g, c.first)); }
    return r;
}
void Engine::artFill(State &s, const Val &it, const Val &art, const Val &v, const Instruction *I) {
    auto *t = structs["art_iterator_s"];
    auto put = [&](const char *m, int64_t d, const Val &x, int sz) { store(s, vP(it.obj, X.add(it.e, X.cst(memberOffset(t, m) + d))), x, sz, I); };
    put("key", 0, freshData(s, 4), 4); put("key", 4, freshData(s, 2), 2);
    put("value", 0, v, 8);
    if (art.k != VU) put("art", 0, art, 8);
    put("depth", 0, freshData(s, 1), 1); put("frame", 0, freshData(s, 1), 1);
}
// the leaf an erase by key is about
bool Engine::artVictim(State &s, int g, EId &idx) {
    const Obj *o = get(s, g);
    EId c, k, t; int oc, ot;
    std::set<EId> held;
    for (auto &f : s.fr) for (auto &p : f.env) if (p.second.k == VP && p.second.obj == g) held.insert(canonIdx(p.second.e));
    for (auto &h : s.heap) if (h.second->alive && (h.second->kind == O_STACK || h.second->root)) for (auto &x : h.second->cells) if (x.second.v.k == VP && x.second.v.obj == g && !(h.first == o->owner)) held.insert(canonIdx(x.second.v.e));
    if (dirBases(s, *o, c, k, t, oc, ot) && oc) {
        const Obj *d = get(s, oc);
        std::vector<EId> gone;
        for (auto &x : d->cells) {
            EId q;
            if (x.second.size != 8 || x.second.v.k != VP || !divLin(X.sub(x.first, c), 8, q)) continue;
            const Obj *b = x.second.v.obj ? get(s, x.second.v.obj) : nullptr;
            auto tc = get(s, g)->cells.find(q);
            int64_t z;
            if (tc != get(s, g)->cells.end() && tc->second.v.k == VI && X.isC(tc->second.v.e, &z) && z == 0) continue;
            if (!b || !b->alive) gone.push_back(q);
        }
        if (gone.size() > 1) { std::vector<EId> n; for (EId q : gone) if (held.count(canonIdx(q))) n.push_back(q); if (!n.empty()) gone = n; }
        if (!gone.empty()) { idx = gone[0]; return true; }
    }
    for (EId q : held) {   // a leaf already erased is not erased again
        auto tc = o->cells.find(q);
        int64_t z;
        if (tc != o->cells.end() && tc->second.v.k == VI && X.isC(tc->second.v.e, &z) && z == 0) continue;
        idx = q; return true;
    }
    return false;
}
Val Engine::leafValue(State &s, int g, EId idx, const Instruction *I) {
    Val t = dirLoad(s, g, idx, 1, false, I);
    if (t.k != VI) return freshI("leafval");
    return vI(X.add(X.scale(idx, 256), t.e));
}
void Engine::leafStore(State &s, int g, EId idx, const Val &v, const Instruction *I) {
    const Obj *o = get(s, g);
    if (o->isConst) { report(s, "CONSTW", I, "leaf of a read-only argument is modified", o->site); return; }
    auto put = [&](EId at, const Val &x) { Obj &m = mut(s, g); Cell &c = m.cells[at]; c.v = x; c.size = 1; c.dirty = true; };
    if (v.k == VU) { report(s, "UNINIT", I, "uninitialised leaf stored", o->site); return; }
    if (v.k != VI) { mut(s, g).cells.erase(idx); return; }
    dirLoad(s, g, idx, 1, false, I);     // remember what was there
    EId tc = simp(s, E_AND, v.e, X.cst(255)), at = canonIdx(simp(s, E_SHR, v.e, X.cst(8)));
    if (at != idx) put(idx, vC(0));
    put(at, vI(tc));
}
void Engine::artErased(State &s, int g, EId idx, const Val &out, const Instruction *I) {
    idx = canonIdx(idx);
    if (get(s, g)->isConst) report(s, "CONSTW", I, "entry of a read-only argument is removed", get(s, g)->site);
    Val old = leafValue(s, g, idx, I);
    if (out.k == VP && out.obj) store(s, out, old, 8, I);
    Obj &m = mut(s, g);
    Cell &c = m.cells[idx];
    c.v = vC(0); c.size = 1; c.dirty = true;
}
bool Engine::artCall(State s, const CallBase *cb, const std::string &nm, const std::vector<Val> &args, std::vector<State> &outs) {
    if (nm.compare(0, 4, "art_") || nm == "art_compare_keys") return false;
    auto ret = [&](State &st, const Val &v) { if (!cb->getType()->isVoidTy()) setv(st, cb, v); if (!st.dead) outs.push_back(std::move(st)); };
    auto fresh = [&](State &st) { Type *t = cb->getType(); return t->isIntegerTy(1) ? vI(domSym(st, "r", 3)) : t->isIntegerTy() ? freshI("r") : vX(); };
    auto *it = structs["art_iterator_s"];
    visitedFns.insert(nm);
    auto splits = [&](State st, int g, bool first, const std::function<void(State &, const Val &)> &f) {
        bool none; auto ps = artPlaces(st, g, none);
        for (auto &p : ps) { State t = st; f(t, p); }
        if (none) { if (first && g) artEmpty(st, g); f(st, vNull()); }
    };
    auto iterG = [&](State &st, const Val &p, Val &art) -> int {
        art = load(st, vP(p.obj, X.add(p.e, X.cst(memberOffset(it, "art")))), 8, true, cb);
        return artLeaf(st, art, cb);
    };
    if (nm == "art_init_cleared") {
        if (!access(s, args[0], true, cb, "write")) { ret(s, Val()); return true; }
        int id = newObj(s, O_HEAP, "leaves of " + get(s, args[0].obj)->site);
        Obj &g = mut(s, id);
        g.dir = g.leafG = true; g.wfK = true; g.owner = args[0].obj; g.ownerOff = X.sub(args[0].e, X.cst(artOff()));
        EId off = X.add(args[0].e, X.cst(memberOffset(structs["art_s"], "nodes")));
        Cell c; c.v = vP(id, X.cst(0)); c.size = 8; c.dirty = true;
        store(s, vP(args[0].obj, X.add(args[0].e, X.cst(memberOffset(structs["art_s"], "root")))), freshI("root"), 8, cb);
        mut(s, args[0].obj).cells[off] = c;
        ret(s, Val()); return true;
    }
    if (nm == "art_find") {
        int g = artLeaf(s, args[0], cb);
        splits(s, g, false, [&](State &t, const Val &p) { ret(t, p); });
        return true;
    }
    if (nm == "art_init_iterator" || nm == "art_lower_bound" || nm == "art_upper_bound") {
        int g = artLeaf(s, args[1], cb);
        splits(s, g, nm == "art_init_iterator", [&](State &t, const Val &p) { artFill(t, args[0], args[1], p, cb); ret(t, Val()); });
        return true;
    }
    if (nm == "art_iterator_next" || nm == "art_iterator_prev" || nm == "art_iterator_move" || nm == "art_iterator_lower_bound") {
        Val art; int g = iterG(s, args[0], art);
        splits(s, g, false, [&](State &t, const Val &p) { artFill(t, args[0], Val(), p, cb); ret(t, vC(p.obj != 0)); });
        return true;
    }
    if (nm == "art_insert" || nm == "art_iterator_insert") {
        Val art = args[0]; int g;
        bool iter = nm == "art_iterator_insert";
        if (iter) g = iterG(s, args[0], art); else g = artLeaf(s, args[0], cb);
        if (!g) { ret(s, fresh(s)); return true; }
        if (get(s, g)->isConst) report(s, "CONSTW", cb, "entry is added to a read-only argument", get(s, g)->site);
        g = artMove(s, g);
        Val p = vX();
        if (args[2].k == VI) {
            EId tc = simp(s, E_AND, args[2].e, X.cst(255)), at = canonIdx(simp(s, E_SHR, args[2].e, X.cst(8)));
            Cell c; c.v = vI(tc); c.size = 1; c.dirty = true;
            mut(s, g).cells[at] = c;
            p = vP(g, at);
        }
        if (iter) { artFill(s, args[0], Val(), p, cb); ret(s, Val()); }
        else ret(s, p);
        return true;
    }
    if (nm == "art_erase") {
        int g = artLeaf(s, args[0], cb);
        if (!g) { ret(s, vC(0)); return true; }
        EId idx;
        if (artVictim(s, g, idx)) { artErased(s, g, idx, args[2], cb); ret(s, vC(1)); return true; }
        splits(s, g, false, [&](State &t, const Val &p) { if (p.obj) artErased(t, g, p.e, args[2], cb); ret(t, vC(p.obj != 0)); });
        return true;
    }
    if (nm == "art_iterator_erase") {
        Val art; int g = iterG(s, args[0], art);
        Val cur = load(s, vP(args[0].obj, X.add(args[0].e, X.cst(memberOffset(it, "value")))), 8, true, cb);
        if (cur.k == VP && !cur.obj) { ret(s, vC(0)); return true; }
        if (g && cur.k == VP && cur.obj == g) artErased(s, g, cur.e, args[1], cb);
        else if (cur.k == VP && cur.obj) access(s, cur, false, cb, "erase");
        splits(s, g, false, [&](State &t, const Val &p) { artFill(t, args[0], Val(), p, cb); ret(t, vC(1)); });
        return true;
    }
    if (nm == "art_free") {
        int g = artLeaf(s, args[0], cb);
        const Obj *o = g ? get(s, g) : nullptr;
        if (o) {
            nFrees++; siteFree.insert(cb);
            if (!o->alive) report(s, "DFREE", cb, "leaves freed twice (" + o->site + ")", o->site);
            if (o->isConst) report(s, "CONSTW", cb, "leaves of a read-only argument are freed", o->site);
            if ((o->kind == O_INPUT && entryFlags.count("frozen")) || o->frozenView) report(s, "BADFREE", cb, "the tree of a view lies in the caller's buffer and is freed", o->site);
            foldDirs(s, false, cb);
            Obj &m = mut(s, g); m.alive = false; m.cells.clear(); m.dir = false;
        }
        ret(s, Val()); return true;
    }
    if (nm == "art_shrink_to_fit") { int g = artLeaf(s, args[0], cb); if (g) { if (get(s, g)->isConst) report(s, "CONSTW", cb, "leaves of a read-only argument are moved", get(s, g)->site); artMove(s, g); } Val r = freshI("r"); bound(s, r.e, false, 0); ret(s, r); return true; }
    if (nm == "art_frozen_view") {
        State t = s; ret(t, vC(0));
        int g = artLeaf(s, args[2], cb);
        if (g) { Obj &m = mut(s, g); m.wfT = true; m.frozenView = true; }
        Val r = freshI("artsize"); bound(s, r.e, false, 1);
        ret(s, r); return true;
    }
    if (nm == "art_is_empty" || nm == "art_is_shrunken" || nm == "art_size_in_bytes" || nm == "art_internal_validate" || nm == "art_printf" || nm == "art_serialize") {
        artLeaf(s, args[0], cb);
        if (nm == "art_serialize") access(s, args[1], true, cb, "write");
        ret(s, fresh(s)); return true;
    }
    return false;
}
