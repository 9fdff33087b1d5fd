#include "engine.h"
#include <llvm/IR/Operator.h>
#include <algorithm>

static const unsigned ANYKIND = 0x1e, PLAIN = 0x0e;  // {1,2,3,4}, {1,2,3}

Val Engine::freshData(State &s, int size) {
    Val v = freshI("data");
    if (size <= 4) { bound(s, v.e, false, 0); bound(s, v.e, true, (1ll << (8 * size)) - 1); }
    return v;
}
int Engine::newObj(State &s, OK kind, const std::string &site) {
    auto o = std::make_shared<Obj>();
    o->id = nextObj++;
    o->kind = kind;
    o->site = site;
    s.heap[o->id] = o;
    return o->id;
}
Obj &Engine::mut(State &s, int id) {
    auto &p = s.heap[id];
    if (!p) { p = std::make_shared<Obj>(); p->id = id; p->alive = false; }
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
const Obj *Engine::get(const State &s, int id) {
    auto i = s.heap.find(id);
    return i == s.heap.end() ? nullptr : i->second.get();
}
int Engine::inputObj(State &s, const DIType *t, bool isConst, const std::string &site, const Obj *parent) {
    int id = newObj(s, O_INPUT, site);
    Obj &o = mut(s, id);
    bool c = isConst;
    const DIType *b = strip(t, &c);
    o.isConst = c || (parent && parent->isConst);
    if (parent) o.owned = parent->owned || true;
    if (auto *ct = dyn_cast_or_null<DICompositeType>(b)) { if (!ct->isForwardDecl()) o.di = ct; else if (structs.count(ct->getName().str())) o.di = structs[ct->getName().str()]; }
    else { o.elem = b; o.bulk = true; }
    return id;
}
static int stag(Exprs &X, const Obj *o) {
    int64_t v;
    if (o->tag >= 0) return X.isC(o->tag, &v) ? (int)v : -1;
    return o->stype;
}
static bool dataField(const std::string &st, const std::string &nm) {
    return (st == "bitset_container_s" && nm == "words") || (st == "array_container_s" && nm == "array") || (st == "run_container_s" && nm == "runs") || (st == "bitset_s" && nm == "array");
}
void Engine::markData(State &s, int id) {
    const Obj *o = get(s, id);
    if (!o || !o->alive || o->data || o->kind == O_STACK || o->kind == O_GLOBAL) return;
    Obj &m = mut(s, id);
    m.data = m.bulk = true; m.di = nullptr; m.elem = nullptr;
    m.zero.clear();
    for (auto i = m.cells.begin(); i != m.cells.end();) if (i->second.v.k == VI || i->second.v.k == VU) i = m.cells.erase(i); else ++i;
}
int Engine::tagOf(State &s, int id) { auto *o = get(s, id); return o ? stag(X, o) : 0; }

// 0 usable, 1 unknown contents, 2 path ends
bool Engine::access(State &s, const Val &p, bool write, const Instruction *I, const char *what) {
    if (p.k == VU) { report(s, "UNINIT", I, std::string("uninitialised pointer used to ") + (write ? "write" : "read")); return false; }
    if (p.k != VP) return false;
    if (p.obj == 0) { if (faultMode && s.faulted) report(s, "NULLDEREF", I, std::string("null pointer used to ") + (write ? "write" : "read")); s.dead = true; return false; }
    const Obj *o = get(s, p.obj);
    if (!o) return false;
    if (!o->alive) { report(s, "UAF", I, std::string(write ? "write to" : "read of") + " freed storage (" + o->site + ")", o->site); return false; }
    if (o->gaveUp) report(s, "REFRACE", I, "shared container touched after giving up the hold on it (" + o->site + ")", o->site);
    if (o->sharedBy) {
        const Obj *w = get(s, o->sharedBy);
        if (w && w->alive && w->gaveUp) report(s, "REFRACE", I, "payload of a shared container touched after giving up the hold on it (" + o->site + ")", o->site);
        if (write && w && w->alive && w->rc != 1 && w->rc != 0 && !(w->rc < 0 && w->holds == 0 && w->kind == O_HEAP))
            report(s, "SHAREDW", I, "container shared with another bitmap is modified in place (" + o->site + ")", o->site);
    }
    if (write) {
        if (o->isConst && !o->dir) report(s, "CONSTW", I, "storage of a read-only argument is modified (" + o->site + ")", o->site);
        if (o->kind == O_GLOBAL) report(s, "GLOBALW", I, "process-wide variable " + o->site + " is modified", o->site);
    }
    return true;
}
EId Engine::canonIdx(EId e) {
    const ENode n = X.n[e];
    if (n.op == E_AND) { int64_t m; if (X.isC(n.b, &m) && m == 65535) return canonIdx(n.a); return e; }
    if (n.op == E_LIN) {
        bool any = false;
        std::map<EId, int64_t> m; int64_t c = n.c;
        for (auto &p : n.t) { EId q = canonIdx(p.first); if (q != p.first) any = true; X.lin(q, p.second, m, c); }
        if (any) return X.mkLin(m, c);
    }
    return e;
}
static const char *DIRSTRUCTS[] = {"roaring_array_s", "roaring64_bitmap_s"};
bool Engine::dirBases(State &s, const Obj &d, EId &c, EId &k, EId &t, int &objC, int &objT) {
    c = k = t = -1; objC = objT = 0;
    const Obj *w = get(s, d.owner);
    if (!w || !w->alive) return false;
    for (auto *sn : DIRSTRUCTS) {
        auto st = structs.find(sn);
        if (st == structs.end()) continue;
        auto cellAt = [&](const char *m) -> const Val * {
            int64_t o = memberOffset(st->second, m);
            if (o < 0) return nullptr;
            auto i = w->cells.find(X.add(d.ownerOff, X.cst(o)));
            return i == w->cells.end() || i->second.v.k != VP || !i->second.v.obj ? nullptr : &i->second.v;
        };
        const Val *vc = cellAt("containers"), *vk = cellAt("keys"), *vt = cellAt("typecodes");
        if (useArt && structs.count("art_s") && st->second == structs["roaring64_bitmap_s"]) {
            auto i = w->cells.find(X.add(d.ownerOff, X.cst(artOff() + memberOffset(structs["art_s"], "nodes"))));
            if (i != w->cells.end() && i->second.v.k == VP && i->second.v.obj) vt = &i->second.v;
        }
        if (vc && (vc->obj == d.id || (vt && vt->obj == d.id))) {
            c = vc->e; objC = vc->obj;
            if (vk) k = vk->e;
            if (vt) { t = vt->e; objT = vt->obj; }
            return true;
        }
    }
    return false;
}
static std::string tcName(int t) { const char *n[] = {"?", "bitset", "array", "run", "shared"}; return t >= 0 && t <= 4 ? n[t] : "?"; }

// raw bytes: no element type, or one of one byte
static bool byteElem(const DIType *t) { auto *b = dyn_cast_or_null<DIBasicType>(t); return !t || (b && b->getSizeInBits() <= 8); }
Val Engine::dirLoad(State &s, int obj, EId off, int size, bool isPtr, const Instruction *I) {
    const Obj *d = get(s, obj);
    auto ci = d->cells.find(off);
    if (ci != d->cells.end() && ci->second.size == size) return ci->second.v;
    EId c, k, t; int oc, ot;
    if (d->leafG) {   // kind recorded in a leaf
        Cell x; x.v = x.init = vI(domSym(s, "kind", kindMask)); x.size = 1;
        mut(s, obj).cells[off] = x;
        return x.v;
    }
    if (!dirBases(s, *d, c, k, t, oc, ot)) return isPtr ? vX() : freshI("elem");
    if (isPtr) {
        EId idx;
        if (oc != obj || !divLin(X.sub(off, c), 8, idx)) return vX();
        bool leafs = ot && get(s, ot)->leafG;
        Val tc = vX();
        if (leafs) {   // which slots are in use is known from the leaves only
            const Obj *g = get(s, ot);
            auto j = g->cells.find(canonIdx(idx));
            if (j == g->cells.end()) { return vX(); }
            int64_t z;
            tc = j->second.v.k == VI && X.isC(j->second.v.e, &z) && z == 0 ? j->second.init : j->second.v;
            if (tc.k != VI) return vX();
        }
        if (!d->wfC) { if (!leafs) report(s, "UNINIT", I, "container slot read before anything was stored there"); return vX(); }
        if (ot && !leafs) tc = dirLoad(s, ot, X.add(t, idx), 1, false, I);
        d = get(s, obj);
        int id = newObj(s, O_INPUT, "container of " + d->site);
        Obj &o = mut(s, id);
        o.isConst = d->isConst || d->borrowed; o.owned = d->kind != O_INPUT || d->owned; o.frozenView = d->kind == O_INPUT && entryFlags.count("frozen"); o.holds = 1;
        o.tag = tc.k == VI ? tc.e : domSym(s, "kind", kindMask);
        Cell x; x.v = x.init = vP(id, X.cst(0)); x.size = 8;
        mut(s, obj).cells[off] = x;
        return x.v;
    }
    if (size == 1 && ot == obj) {
        EId idx = X.sub(off, t);
        const Obj *dc = get(s, oc);
        if (dc) {
            auto j = dc->cells.find(X.add(c, X.scale(idx, 8)));
            if (j != dc->cells.end()) {
                const Val &in = j->second.init.k == VP ? j->second.init : j->second.v;
                (void)in;
                if (j->second.init.k == VP && j->second.init.obj) {
                    const Obj *o = get(s, j->second.init.obj);
                    if (o && o->tag >= 0) { Cell x; x.v = x.init = vI(o->tag); x.size = 1; mut(s, obj).cells[off] = x; return x.v; }
                }
            }
        }
        if (d->lazyFrom) {
            const Obj *sd = get(s, d->lazyFrom);
            if (sd && sd->alive) {
                Val v = dirLoad(s, d->lazyFrom, X.add(off, d->lazyDelta), 1, false, I);
                Cell x; x.v = x.init = v; x.size = 1; mut(s, obj).cells[off] = x;
                return v;
            }
        }
        if (!d->wfT && d->kind == O_INPUT) { Val b = freshI("byte"); bound(s, b.e, false, 0); bound(s, b.e, true, 255); return b; }   // the caller's bytes
        if (!d->wfT) { report(s, "UNINIT", I, "container kind read before it was recorded"); return vX(); }
        Cell x; x.v = x.init = vI(domSym(s, "kind", kindMask)); x.size = 1;
        mut(s, obj).cells[off] = x;
        return x.v;
    }
    return freshI("key");
}
Val Engine::lazyMember(State &s, int obj, int64_t off, int size, bool isPtr) {
    const Obj *o = get(s, obj);
    const DIType *st = o->di;
    int tag = stag(X, o);
    static const char *tn[] = {"", "bitset_container_s", "array_container_s", "run_container_s", "shared_container_s"};
    if (o->tag >= 0) {
        if (tag < 1 || tag > 4) return isPtr ? vX() : freshI("field");
        auto i = structs.find(tn[tag]);
        if (i == structs.end()) return isPtr ? vX() : freshI("field");
        st = i->second;
    }
    Cell x; x.size = size;
    if (useArt && st && structName(st) == "roaring64_iterator_s") {   // an iterator is at an entry of its bitmap, or past the ends
        auto *it = structs["roaring64_iterator_s"];
        int64_t ao = memberOffset(it, "art_it"), vo = ao + memberOffset(structs["art_iterator_s"], "value"), to = ao + memberOffset(structs["art_iterator_s"], "art");
        bool none = entryFlags.count("itnull") && entryFlags["itnull"];
        if (off == vo || off == to) {
            int64_t ro = memberOffset(it, "r");
            if (!o->cells.count(X.cst(ro))) lazyMember(s, obj, ro, 8, true);
            Val r = get(s, obj)->cells.at(X.cst(ro)).v;
            if (off == to) x.v = vP(r.obj, X.add(r.e, X.cst(artOff())));
            else if (none) x.v = vNull();
            else { int g = artLeaf(s, vP(r.obj, X.add(r.e, X.cst(artOff()))), nullptr); Val ix = freshI("leaf"); bound(s, ix.e, false, 0); x.v = vP(g, ix.e); }
            x.init = x.v;
            mut(s, obj).cells[X.cst(off)] = x;
            return x.v;
        }
        if (off == memberOffset(it, "has_value") && entryFlags.count("itnull")) { x.v = x.init = vC(!none); mut(s, obj).cells[X.cst(off)] = x; return x.v; }
    }
    if (!st) {
        if (isPtr && o->elem) {  // array of pointers
            bool c = false;
            const DIType *pt = pointee(o->elem, &c);
            if (!pt) return vX();
            int id = inputObj(s, pt, c, "element of " + o->site, nullptr);
            mut(s, id).isConst = c || false;
            mut(s, id).root = true;
            x.v = x.init = vP(id, X.cst(0));
            mut(s, obj).cells[X.cst(off)] = x;
            return x.v;
        }
        return isPtr ? vX() : freshI("data");
    }
    std::string nm; const DICompositeType *ow = nullptr; int64_t rel = 0;
    const DIType *mt = memberAt(st, off, &nm, &ow, nullptr, &rel);
    std::string on = ow ? ow->getName().str() : "";
    if (!isPtr) {
        if (size > 8) return vX();
        if (tag == 4 && nm == "typecode") x.v = vI(domSym(s, "kind", PLAIN));
        else if (nm == "flags" && size == 1 && entryFlags.count("flags")) x.v = vI(domSym(s, "flags", entryFlags["flags"]));
        else if (nm == "typecode" && size == 1) x.v = vI(domSym(s, "kind", on == "roaring_bulk_context_s" ? kindMask : PLAIN));
        else {
            x.v = freshI(nm.empty() ? "field" : nm);
            auto *b = dyn_cast_or_null<DIBasicType>(strip(mt));
            if (b && (b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_boolean || b->getEncoding() == dwarf::DW_ATE_unsigned_char)) bound(s, x.v.e, false, 0);
            if (b && b->getEncoding() == dwarf::DW_ATE_boolean) { x.v = vI(domSym(s, nm, 3)); }
            if (on == "roaring_array_s") { bound(s, x.v.e, false, 0); if (nm == "size") bound(s, x.v.e, true, 65536); }
            // what every container satisfies on entry: used <= allocated
            if ((on == "array_container_s" || on == "run_container_s") && (nm == "capacity" || nm == "cardinality" || nm == "n_runs")) {
                const char *a = on == "array_container_s" ? "cardinality" : "n_runs";
                x.init = x.v; mut(s, obj).cells[X.cst(off)] = x;
                std::string other = nm == "capacity" ? a : "capacity";
                int64_t oo = off - memberOffset(ow, nm) + memberOffset(ow, other);
                // ... and no container of a bitmap is empty
                bool stored = get(s, obj)->owned || get(s, obj)->sharedBy;
                bound(s, x.v.e, false, stored ? 1 : 0);
                if (!get(s, obj)->cells.count(X.cst(oo))) {
                    Cell y; y.size = 4; y.v = y.init = freshI(other); bound(s, y.v.e, false, stored ? 1 : 0);
                    mut(s, obj).cells[X.cst(oo)] = y;
                    EId used = nm == "capacity" ? y.v.e : x.v.e, cap = nm == "capacity" ? x.v.e : y.v.e;
                    bound(s, X.sub(used, cap), true, 0);
                }
                return x.v;
            }
            // a bitset's count is known, except in bitmaps left by the lazy operations
            if (on == "bitset_container_s" && nm == "cardinality" && (get(s, obj)->owned || get(s, obj)->sharedBy)) { bound(s, x.v.e, false, lazyBits ? -1 : 1); bound(s, x.v.e, true, 65536); }
            if (nm == "capacity" || nm == "allocation_size" || nm == "n_runs") bound(s, x.v.e, false, 0);
        }
        x.init = x.v;
        mut(s, obj).cells[X.cst(off)] = x;
        return x.v;
    }
    // pointer members
    bool isDirStruct = on == "roaring_array_s" || on == "roaring64_bitmap_s";
    if (isDirStruct && (nm == "containers" || nm == "keys" || nm == "typecodes")) {
        int64_t base = off - memberOffset(ow, nm);
        int id = newObj(s, O_INPUT, o->site + " directory");
        Obj &d = mut(s, id);
        bool view = entryFlags.count("frozen");
        if (view && on == "roaring_array_s") d.owned = false;   // part of one block
        d.isConst = o->isConst; d.dir = true; d.owner = obj; d.ownerOff = X.cst(base); d.wfC = d.wfT = d.wfK = true;
        EId cap = X.fresh("cap"); bound(s, cap, false, 0);
        EId offs[3] = {X.cst(0), X.scale(cap, 8), X.scale(cap, 10)};
        const char *ns[3] = {"containers", "keys", "typecodes"};
        for (int i = 0; i < 3; i++) {
            int64_t mo = memberOffset(ow, ns[i]);
            if (mo < 0) continue;
            EId key = X.cst(base + mo);
            if (get(s, obj)->cells.count(key)) continue;
            Cell y; y.size = 8; y.v = y.init = vP(id, offs[i]);
            mut(s, obj).cells[key] = y;
        }
        return get(s, obj)->cells.at(X.cst(off)).v;
    }
    if (nm == "container" && on == "shared_container_s") {
        int64_t to = memberOffset(ow, "typecode");
        const Obj *oo = get(s, obj);
        Val tc;
        auto j = oo->cells.find(X.cst(to));
        tc = j == oo->cells.end() ? lazyMember(s, obj, to, 1, false) : j->second.v;
        int id = newObj(s, O_INPUT, "payload of shared " + oo->site);
        Obj &n = mut(s, id);
        n.isConst = get(s, obj)->isConst; n.tag = tc.k == VI ? tc.e : domSym(s, "kind", PLAIN); n.sharedBy = obj;
        x.v = x.init = vP(id, X.cst(0));
        mut(s, obj).cells[X.cst(off)] = x;
        return x.v;
    }
    if (nm == "container" && on == "roaring_uint32_iterator_s") {
        int64_t to = memberOffset(ow, "typecode");
        const Obj *oo = get(s, obj);
        auto j = oo->cells.find(X.cst(to));
        Val tc = j == oo->cells.end() ? lazyMember(s, obj, to, 1, false) : j->second.v;
        int id = newObj(s, O_INPUT, "container under the iterator");
        Obj &n = mut(s, id);
        n.isConst = true; n.tag = tc.k == VI ? tc.e : domSym(s, "kind", PLAIN); n.owned = false;
        x.v = x.init = vP(id, X.cst(0));
        mut(s, obj).cells[X.cst(off)] = x;
        return x.v;
    }
    bool c = false;
    const DIType *pt = pointee(mt, &c);
    const Obj *oo = get(s, obj);
    std::string site = oo->site + "." + nm;
    bool oConst = oo->isConst; int sb = oo->tag >= 0 ? oo->sharedBy : 0;
    int id = inputObj(s, pt, c, site, nullptr);
    Obj &n = mut(s, id);
    n.isConst = c || oConst;
    n.owned = oo->owned && !oo->frozenView;   // what a view's containers refer to lies in the caller's buffer
    n.sharedBy = sb;
    if (n.elem && !pointee(n.elem)) n.elem = nullptr;
    if (dataField(on, nm)) { n.data = n.bulk = true; n.di = nullptr; n.elem = nullptr; }
    x.v = x.init = vP(id, X.cst(0));
    mut(s, obj).cells[X.cst(off)] = x;
    return x.v;
}
Val Engine::load(State &s, const Val &p, int size, bool isPtr, const Instruction *I) {
    nLoads++; siteLoad.insert(I);
    if (!access(s, p, false, I, "read")) return isPtr || size > 8 ? vX() : freshI("unk");
    const Obj *o = get(s, p.obj);
    if (o->data) return isPtr || size > 8 ? vX() : freshData(s, size);
    if (o->leafG) return isPtr || size != 8 ? vX() : leafValue(s, p.obj, canonIdx(p.e), I);
    EId off = o->dir ? canonIdx(p.e) : p.e;
    auto ci = o->cells.find(off);
    int64_t co;
    bool cOff = X.isC(off, &co);
    if (ci != o->cells.end()) {
        if (ci->second.size == size) {
            const Val &v = ci->second.v;
            if (isPtr) {
                if (v.k == VI) { // integer holding an address
                    int64_t z; if (X.isC(v.e, &z) && z == 0) return vNull();
                    const ENode n = X.n[v.e];
                    if (n.op == E_ADDR) return vP((int)n.c, X.cst(0));
                    return vX();
                }
                if (v.k == VP && v.obj == 0 && !(faultMode && s.faulted) && fillNullAt(s, p.obj)) return get(s, p.obj)->cells.at(off).v;
                return v;
            }
            if (v.k == VP) return v.obj == 0 ? vC(0) : vI(X.add(X.addr(v.obj), v.e));
            if (v.k == VX || v.k == VF || v.k == VA) return size > 8 ? vX() : freshI("unk");
            return v;
        }
        return isPtr || size > 8 ? vX() : freshI("part");
    }
    if (o->kind == O_GLOBAL) return isPtr ? vX() : size > 8 ? vX() : freshI("tbl");
    if (o->dir) return dirLoad(s, p.obj, off, size, isPtr, I);
    if (size > 8) return vX();
    if (o->kind == O_INPUT) {
        if (cOff && (o->di || o->tag >= 0)) return lazyMember(s, p.obj, co, size, isPtr);
        if (isPtr && o->elem && pointee(o->elem)) {
            bool c = false;
            const DIType *pt = pointee(o->elem, &c);
            int id = inputObj(s, pt, c, "element of " + o->site, nullptr);
            mut(s, id).root = true;
            Cell x; x.size = size; x.v = x.init = vP(id, X.cst(0));
            mut(s, p.obj).cells[off] = x;
            return x.v;
        }
        if (!isPtr && o->isConst && byteElem(o->elem) && !o->di && o->tag < 0) {   // read twice, same answer
            Cell x; x.size = size; x.v = x.init = freshI("data");
            mut(s, p.obj).cells[off] = x;
            return x.v;
        }
        return isPtr ? vX() : freshI("data");
    }
    if (!cOff || o->bulk) return isPtr ? vX() : freshI("data");
    for (auto &z : o->zero) if (co >= z.first && co + size <= z.second) return isPtr ? vNull() : vC(0);
    for (auto &z : o->zero) if (co < z.second && co + size > z.first) return isPtr ? vX() : freshI("part");
    for (auto &c : o->cells) { int64_t q; if (X.isC(c.first, &q) && q < co + size && co < q + c.second.size) return isPtr ? vX() : freshI("part"); }
    return vU();
}
void Engine::store(State &s, const Val &p, const Val &v, int size, const Instruction *I) {
    nStores++; siteStore.insert(I);
    if (!access(s, p, true, I, "write")) return;
    const Obj *o = get(s, p.obj);
    if (o->data) { if (v.k == VU) report(s, "UNINIT", I, "uninitialised value stored into container contents", o->site); return; }
    if (o->leafG) { leafStore(s, p.obj, canonIdx(p.e), v, I); return; }
    EId off = o->dir ? canonIdx(p.e) : p.e;
    int64_t co;
    bool cOff = X.isC(off, &co);
    if (o->dir) {
        bool ptr = size == 8, tcw = size == 1;
        if (!ptr && !tcw) return;
        // materialise what was there, so that replaced containers are tracked
        if (!o->cells.count(off)) {
            EId c, k, t; int oc, ot;
            if (dirBases(s, *o, c, k, t, oc, ot)) { /* old value stays unknown */ }
        }
        Obj &m = mut(s, p.obj);
        auto &cell = m.cells[off];
        cell.v = v; cell.size = size; cell.dirty = true;
        return;
    }
    if (!cOff) {
        if (v.k == VP || v.k == VX || v.k == VF) {
            Obj &m = mut(s, p.obj);
            auto &c = m.cells[off]; c.v = v; c.size = size; c.dirty = true;
            return;
        }
        if (o->bulk && o->cells.empty()) return;
        Obj &m = mut(s, p.obj);
        if (m.kind == O_INPUT && !m.di && m.tag < 0) { return; }
        if (!m.di && m.tag < 0 && !m.stype) m.bulk = true;
        for (auto i = m.cells.begin(); i != m.cells.end();) {
            int64_t dd;
            bool k = X.isC(X.sub(i->first, off), &dd);
            bool hit = k ? (dd > -i->second.size && dd < size) : (i->second.v.k == VI);
            if (hit && !k) { Iv r = range(s, X.sub(i->first, off)); if (r.hi <= -i->second.size || r.lo >= size) hit = false; }
            if (hit) i = m.cells.erase(i); else ++i;
        }
        if (size <= 8) { auto &c = m.cells[off]; c.v = v; c.size = size; c.dirty = true; }
        return;
    }
    Obj &m = mut(s, p.obj);
    // shared counter / payload link
    if ((m.stype == 4 || stag(X, &m) == 4) && v.k == VP && v.obj) {
        const Obj *q = get(s, v.obj);
        if (q && q->alive && (q->tag >= 0 || q->stype)) mut(s, v.obj).sharedBy = p.obj;
    }
    std::vector<std::pair<int64_t, Cell>> rest;
    for (auto i = m.cells.begin(); i != m.cells.end();) {
        int64_t q;
        if (X.isC(i->first, &q) && q < co + size && co < q + i->second.size) {
            Cell old = i->second;
            i = m.cells.erase(i);
            if (old.v.k == VU) continue;
            auto part = [&](int64_t a, int64_t b) { if (a < b) { Cell c; c.v = b - a <= 8 ? freshI("part") : vX(); c.size = (int)(b - a); c.dirty = true; rest.push_back({a, c}); } };
            part(q, co); part(co + size, q + old.size);
        } else ++i;
    }
    for (auto &r : rest) m.cells[X.cst(r.first)] = r.second;
    if (size > 8) { m.cells.erase(off); if (!m.di && m.tag < 0 && !m.stype) m.bulk = true; else { auto &c = m.cells[off]; c.v = vX(); c.size = size; c.dirty = true; } return; }
    auto &c = m.cells[off];
    if (m.bulk && !m.di && v.k == VI && m.kind != O_STACK) { m.cells.erase(off); return; }
    c.v = v; c.size = size; c.dirty = true;
}
Val Engine::alloc(State &s, const Val &n, int fam, const Instruction *I) {
    nAllocs++; siteAlloc.insert(I);
    std::string st = "allocated in ";
    std::string f = I ? fname(I->getFunction()) : "?";
    // name the first caller that is not an allocation wrapper
    st += f;
    int id = newObj(s, O_HEAP, st);
    Obj &o = mut(s, id);
    o.fam = fam;
    if (n.k == VI) o.size = n.e;
    return vP(id, X.cst(0));
}
void Engine::freeObj(State &s, const Val &p, int fam, const Instruction *I) {
    nFrees++; siteFree.insert(I);
    if (p.k == VU) { report(s, "UNINIT", I, "uninitialised pointer is freed"); return; }
    if (p.k == VX) {   // containers reached by walking a directory by index
        std::vector<int> w;
        for (auto &h : s.heap) if (h.second->dir && h.second->alive && !h.second->walked && get(s, h.second->owner) && get(s, h.second->owner)->kind == O_HEAP) w.push_back(h.first);
        if (useArt) for (int i : w) mut(s, i).walked = true;
    }
    if (p.k != VP || p.obj == 0) return;
    const Obj *o = get(s, p.obj);
    if (!o) return;
    int64_t off;
    if (o->kind != O_HEAP && o->kind != O_INPUT) { report(s, "BADFREE", I, "storage that was not allocated is freed (" + o->site + ")", o->site); return; }
    if (!o->alive) { report(s, "DFREE", I, "storage freed twice (" + o->site + ")", o->site); return; }
    if (X.isC(p.e, &off) ? off != 0 : true) { if (X.isC(p.e, &off)) report(s, "BADFREE", I, "pointer into the middle of an allocation is freed (" + o->site + ")", o->site); else report(s, "BADFREE", I, "pointer into an allocation, not its start, is freed (" + o->site + ")", o->site); return; }
    if (o->gaveUp) report(s, "REFRACE", I, "shared container freed after giving up the hold on it", o->site);
    if (o->sharedBy) {
        const Obj *w = get(s, o->sharedBy);
        if (w && w->alive && w->rc != 0 && w->rc != 1 && !(w->rc < 0 && w->holds == 0 && w->kind == O_HEAP)) report(s, w->gaveUp ? "REFRACE" : "SHAREDW", I, "payload of a container shared with another bitmap is freed (" + o->site + ")", o->site);
    }
    int tg = stag(X, o);
    if (tg == 4 && !(o->rc == 0 || (o->rc == 1 && o->holds <= 1) || (o->rc < 0 && o->holds == 0))) report(s, "REFOVER", I, "shared wrapper freed although other holders may remain (" + o->site + ")", o->site);
    if (o->isConst) report(s, "CONSTW", I, "storage of a read-only argument is freed (" + o->site + ")", o->site);
    if (!o->owned) report(s, "BADFREE", I, "storage owned by the caller is freed (" + o->site + ")", o->site);
    if (o->fam && fam && o->fam != fam) report(s, "FAMILY", I, "storage from the " + std::string(o->fam == 2 ? "aligned" : "ordinary") + " allocator released with the other one (" + o->site + ")", o->site);
    if (o->kind == O_INPUT && (o->di || o->tag >= 0) && !entryFlags.count("frozen")) {
        // members that own storage must have been released or moved
        const DIType *st = o->di;
        static const char *tn[] = {"", "bitset_container_s", "array_container_s", "run_container_s", "shared_container_s"};
        if (o->tag >= 0) { st = tg >= 1 && tg <= 4 && structs.count(tn[tg]) ? structs[tn[tg]] : nullptr; if (tg < 1) report(s, "TYPE", I, "container freed without regard to its kind (" + o->site + ")", o->site); }
        std::vector<std::pair<const DICompositeType *, int64_t>> work;
        if (auto *c = dyn_cast_or_null<DICompositeType>(st)) work.push_back({c, 0});
        while (!work.empty()) {
            auto [c, base] = work.back(); work.pop_back();
            for (auto *e : c->getElements()) {
                auto *m = dyn_cast<DIDerivedType>(e);
                if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
                int64_t mo = base + (int64_t)m->getOffsetInBits() / 8;
                const DIType *mt = strip(m->getBaseType());
                if (useArt && c->getName() == "art_s" && m->getName() == "nodes" && !o->cells.count(X.cst(mo))) report(s, "LEAK", I, "bitmap freed while its tree is never released (" + o->site + ")", o->site + "art");
                if (auto *mc = dyn_cast_or_null<DICompositeType>(mt)) { if (mc->getTag() == dwarf::DW_TAG_structure_type) work.push_back({mc, mo}); continue; }
                std::string sn = c->getName().str(), mn = m->getName().str();
                bool own = (sn == "bitset_container_s" && mn == "words") || (sn == "array_container_s" && mn == "array") || (sn == "run_container_s" && mn == "runs") ||
                           (sn == "shared_container_s" && mn == "container") || (sn == "roaring_array_s" && mn == "containers") || (sn == "bitset_s" && mn == "array") || (sn == "roaring64_bitmap_s" && mn == "containers");
                if (!own) continue;
                if (!o->cells.count(X.cst(mo))) report(s, "LEAK", I, "storage freed while the memory its member '" + mn + "' points to is never released (" + o->site + ")", o->site + mn);
            }
        }
    }
    if (o->dir && o->wfC && !o->moved && !o->pending && !o->walked && !o->borrowed) {
        EId c, k, t; int oc, ot;
        bool zeroSize = false;
        const Obj *w = get(s, o->owner);
        if (w) for (auto *sn : DIRSTRUCTS) if (structs.count(sn)) {
            int64_t so = memberOffset(structs[sn], "size");
            if (so < 0) so = memberOffset(structs[sn], "capacity");
            if (so < 0) continue;
            auto i = w->cells.find(X.add(o->ownerOff, X.cst(so)));
            if (i != w->cells.end() && i->second.v.k == VI) { Iv r = range(s, i->second.v.e); if (r.hi <= 0) zeroSize = true; }
        }
        (void)c; (void)k; (void)t; (void)oc; (void)ot;
        bool dirs32 = w != nullptr;
        bool known = false;
        for (auto &cell : o->cells) if (cell.second.size == 8) known = true;
        if (!zeroSize && !known && dirs32 && !entryFlags.count("noelems")) report(s, "LEAK", I, "container directory freed while the containers in it are never released (" + o->site + ")", o->site);
    }
    Obj &m = mut(s, p.obj);
    m.alive = false;
    m.cells.clear();
    m.copies.clear();
    // kinds copied from a block that is gone are now simply part of the new block
    std::vector<int> from;
    for (auto &h : s.heap) if (h.second->lazyFrom == p.obj) from.push_back(h.first);
    for (int id : from) { Obj &d = mut(s, id); d.lazyFrom = 0; d.lazyDelta = -1; d.wfT = true; }
}
// A pointer is stored into a directory field: remember which bitmap owns the block.
void Engine::fieldRole(State &s, const Instruction *I, const Value *ptrOp, const Val &pv, const Val &v) {
    if (pv.k != VP || !pv.obj) return;
    auto *g = dyn_cast<GEPOperator>(ptrOp);
    if (!g) return;
    std::string n = baseStruct(g->getSourceElementType());
    if (n.empty()) return;
    bool isDir = false;
    for (auto *d : DIRSTRUCTS) if (n == d) isDir = true;
    if (!structs.count(n)) return;
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(DL, off)) return;
    int64_t fo = off.getSExtValue();
    std::string nm;
    if (!isDir) {
        memberAt(structs[n], fo, &nm, nullptr);
        if (v.k == VP && v.obj && dataField(n, nm)) markData(s, v.obj);
        return;
    }
    memberAt(structs[n], fo, &nm, nullptr);
    EId base = X.sub(pv.e, X.cst(fo));
    if (nm == "size") {
        // shrinking: stale slots beyond the new size are gone
        const Obj *w = get(s, pv.obj);
        if (!w) return;
        int64_t co = memberOffset(structs[n], "containers");
        auto i = w->cells.find(X.add(base, X.cst(co)));
        if (i == w->cells.end() || i->second.v.k != VP || !i->second.v.obj) return;
        int did = i->second.v.obj;
        const Obj *d = get(s, did);
        if (!d || !d->dir) return;
        auto old = w->cells.find(pv.e);
        if (v.k == VI && old != w->cells.end() && old->second.v.k == VI) {
            int64_t df;
            if (X.isC(X.sub(v.e, old->second.v.e), &df) && df > 0) return;
        }
        EId cb, kb, tb; int ocb, otb;
        std::set<EId> gone;
        if (v.k == VI && dirBases(s, *get(s, did), cb, kb, tb, ocb, otb) && ocb == did) for (auto &cell : get(s, did)->cells) {
            // a stale copy of a slot that was moved down
            EId q;
            if (cell.second.size != 8 || cell.second.v.k != VP || !cell.second.v.obj || !divLin(X.sub(cell.first, cb), 8, q)) continue;
            if (range(s, X.sub(q, v.e)).lo < 0) continue;
            for (auto &c2 : get(s, did)->cells) { EId q2; if (c2.first != cell.first && c2.second.size == 8 && c2.second.v.same(cell.second.v) && divLin(X.sub(c2.first, cb), 8, q2) && range(s, X.sub(q2, v.e)).hi < 0) { gone.insert(cell.first); if (otb == did) gone.insert(X.add(tb, q)); } }
        }
        Obj &m = mut(s, did);
        m.pending = false;
        for (EId g : gone) m.cells.erase(g);
        for (auto j = m.cells.begin(); j != m.cells.end();) {
            const Val &cv = j->second.v;
            const Obj *q = cv.k == VP && cv.obj ? get(s, cv.obj) : nullptr;
            if (j->second.size == 8 && q && (!q->alive || q->gaveUp)) {
                j = m.cells.erase(j);
            } else ++j;
        }
        int64_t z;
        if (v.k == VI && X.isC(v.e, &z) && z == 0) {
            m.moved = false;
            // what another bitmap lists by now belongs to that one
            for (auto j = m.cells.begin(); j != m.cells.end();) {
                bool other = false;
                if (j->second.size == 8 && j->second.v.k == VP && j->second.v.obj)
                    for (auto &h : s.heap) if (h.first != did && h.second->dir && h.second->alive) for (auto &x : h.second->cells) if (x.second.size == 8 && x.second.v.k == VP && x.second.v.obj == j->second.v.obj) other = true;
                if (other) j = m.cells.erase(j); else ++j;
            }
        }
        return;
    }
    if (nm != "containers" && nm != "keys" && nm != "typecodes") return;
    if (v.k != VP || !v.obj) return;
    const Obj *d0 = get(s, v.obj);
    if (!d0 || !d0->alive) return;
    if (v.obj == pv.obj || (!d0->owned && d0->bulk)) return;   // a frozen view: one block, or the caller's bytes
    Obj &d = mut(s, v.obj);
    d.dir = true; d.owner = pv.obj; d.ownerOff = base;
    for (auto &c : d.copies) {
        if (!(X.sub(c.dst, v.e) == X.cst(0)) && nm != "containers") { }
        if (c.role == 'C' && nm == "containers") d.wfC = true;
        if (c.role == 'K' && nm == "keys") d.wfK = true;
        if (c.role == 'T' && nm == "typecodes") { d.wfT = true; }
    }
}
void Engine::copyMem(State &s, const Val &d, const Val &src, const Val &n, bool isMove, const Instruction *I) {
    Iv rn; int64_t cn = -1;
    if (n.k == VI) { rn = range(s, n.e); X.isC(n.e, &cn); }
    if (rn.hi <= 0) return;
    bool okd = access(s, d, true, I, "copy"), oks = access(s, src, false, I, "copy");
    if (s.dead) return;
    if (!okd) return;
    const Obj *od = get(s, d.obj);
    if (!oks) { if (!od->dir) { Obj &m = mut(s, d.obj); if (!m.di && m.tag < 0 && !m.stype) { m.bulk = true; } } return; }
    const Obj *os = get(s, src.obj);
    if (od->data) return;
    auto role = [&](const Obj *o, EId off) -> char {
        EId c, k, t; int oc, ot;
        if (!dirBases(s, *o, c, k, t, oc, ot)) return '?';
        auto sz = [&](EId e) { const ENode x = X.n[e]; return x.op == E_LIN ? (int)x.t.size() : 1; };
        char best = '?'; int64_t bs = INF;
        auto tryb = [&](char r, EId b, int w) { EId df = X.sub(canonIdx(off), b), q; if (w > 1 && !divLin(df, w, q)) { const ENode x = X.n[df]; (void)x; return; } int64_t v = 0; if (X.isC(df, &v) && v < 0) return; const ENode xn = X.n[df]; int64_t z = (int64_t)sz(df) << 40; if (xn.op == E_LIN) z += std::min<int64_t>(xn.c < 0 ? (1ll << 39) - xn.c : xn.c, (1ll << 40) - 1); if (z < bs) { bs = z; best = r; } };
        if (c >= 0 && oc == o->id) tryb('C', c, 8);
        if (k >= 0) tryb('K', k, 2);
        if (t >= 0 && ot == o->id) tryb('T', t, 1);
        return best;
    };
    if (od->dir && os->dir && d.obj == src.obj) {
        char r = role(od, d.e);
        EId c, k, t; int oc, ot;
        if (!dirBases(s, *od, c, k, t, oc, ot)) return;
        EId bb = r == 'C' ? c : r == 'K' ? k : t;
        int w = r == 'C' ? 8 : r == 'K' ? 2 : 1;
        EId di, si;
        if (r == '?' || !divLin(X.sub(canonIdx(d.e), bb), w, di) || !divLin(X.sub(canonIdx(src.e), bb), w, si)) return;
        Obj &m = mut(s, d.obj);
        (r == 'C' ? m.mvC : r == 'K' ? m.mvK : m.mvT).push_back({di, si});
        if (r == 'C') {
            Iv dir = range(s, X.sub(di, si));
            bool up = dir.lo >= 0;
            // the slot at the destination is overwritten
            EId dOff = X.add(c, X.scale(di, 8));
            std::vector<EId> idxs;
            for (auto &cell : m.cells) { EId q; if (cell.second.size == 8 && divLin(X.sub(cell.first, c), 8, q)) idxs.push_back(q); }
            for (EId q : idxs) {
                EId co = X.add(c, X.scale(q, 8));
                if (!up && co == dOff) {
                    const Obj *o2 = get(s, d.obj);
                    const Val &cv = o2->cells.at(co).v;
                    const Obj *qq = cv.k == VP && cv.obj ? get(s, cv.obj) : nullptr;
                    (void)qq;
                    Obj &m2 = mut(s, d.obj);
                    m2.cells.erase(co);
                    if (ot == d.obj) m2.cells.erase(X.add(t, q));
                } else {
                    foldSlot(s, d.obj, q, I);
                }
            }
            Obj &m3 = mut(s, d.obj);
            if (!up) m3.pending = false;
        }
        return;
    }
    if (os->dir) {
        char r = role(os, src.e);
        int sid = src.obj;
        if (r == 'C') {  // slots holding an extra hold for this copy are done
            EId c, k, t; int oc, ot;
            if (dirBases(s, *os, c, k, t, oc, ot)) {
                std::vector<EId> fs;
                for (auto &cell : os->cells) {
                    EId q;
                    if (cell.second.size != 8 || cell.second.v.k != VP || !cell.second.v.obj || !divLin(X.sub(cell.first, c), 8, q)) continue;
                    const Obj *w = get(s, cell.second.v.obj);
                    if (!w || !w->alive || stag(X, w) != 4 || w->gaveUp) continue;
                    int hold = 0;
                    for (auto &h : s.heap) if (h.second->dir && h.second->alive) for (auto &x : h.second->cells) if (x.second.size == 8 && x.second.v.k == VP && x.second.v.obj == cell.second.v.obj) hold++;
                    if (hold == 1 && w->holds == 2) fs.push_back(q);
                }
                for (EId q : fs) foldSlot(s, sid, q, I);
                os = get(s, sid);
            }
        }
        Obj &m = mut(s, d.obj);
        if (m.owned || m.kind == O_STACK) m.copies.push_back({d.e, sid, src.e, r});   // the caller's own buffer never becomes a directory
        if (r == 'C') {
            Obj &sm = mut(s, sid);
            if (sm.excess > 0) sm.excess--;
            else sm.moved = true;
            // tracked slots move along
            EId delta = X.sub(d.e, src.e);
            for (auto &cell : get(s, sid)->cells) if (cell.second.size == 8) { Cell x = cell.second; x.dirty = true; mut(s, d.obj).cells[X.add(cell.first, delta)] = x; }
            if (get(s, d.obj)->dir) mut(s, d.obj).wfC = true;
        } else if (r == 'T') {
            EId delta = X.sub(src.e, d.e);
            { Obj &dm = mut(s, d.obj); EId c, k, t; int oc, ot;   // what the destination recorded before is overwritten
              if (dm.dir && dirBases(s, dm, c, k, t, oc, ot) && ot == dm.id && X.sub(d.e, t) == X.cst(0)) for (auto i = dm.cells.begin(); i != dm.cells.end();) if (i->second.size == 1) i = dm.cells.erase(i); else ++i; }
            for (auto &cell : get(s, sid)->cells) if (cell.second.size == 1) { Cell x = cell.second; x.dirty = true; mut(s, d.obj).cells[X.sub(cell.first, delta)] = x; }
            Obj &m2 = mut(s, d.obj);
            m2.lazyFrom = sid; m2.lazyDelta = delta;
            if (m2.dir) m2.wfT = true;
        } else if (r == 'K') { if (get(s, d.obj)->dir) mut(s, d.obj).wfK = true; }
        return;
    }
    if (od->dir) {
        char r = role(od, d.e);
        Obj &m = mut(s, d.obj);
        if (r == 'K') m.wfK = true;
        if (r == 'T') m.wfT = true;
        return;
    }
    int64_t so, dof;
    if ((cn == 1 || cn == 2 || cn == 4 || cn == 8) && X.isC(d.e, &dof) && os->bulk && !os->dir && !os->di && (!os->elem || isa<DIBasicType>(os->elem)) && os->tag < 0 && !get(s, d.obj)->dir) {   // one number
        Val v = load(s, src, (int)cn, false, I);
        if (v.k == VI) { store(s, d, v, (int)cn, I); return; }
    }
    if (cn > 0 && cn <= 512 && X.isC(src.e, &so) && X.isC(d.e, &dof)) {
        // structure copy
        if (os->kind == O_INPUT && (os->di || os->tag >= 0)) {
            const DIType *st = os->di;
            for (int64_t o = 0; o < cn; o++) {
                std::string nm; int64_t rel = 0;
                const DIType *mt = st ? memberAt(st, so + o, &nm, nullptr, nullptr, &rel) : nullptr;
                if (!mt || rel) continue;
                const DIType *b = strip(mt);
                int sz = b ? (int)(b->getSizeInBits() / 8) : 0;
                bool ptr = pointee(mt) || (b && isa<DIDerivedType>(b) && cast<DIDerivedType>(b)->getTag() == dwarf::DW_TAG_pointer_type);
                if (sz && !get(s, src.obj)->cells.count(X.cst(so + o))) lazyMember(s, src.obj, so + o, sz, ptr);
            }
        }
        auto so_ = s.heap[src.obj];
        Obj &m = mut(s, d.obj);
        for (auto i = m.cells.begin(); i != m.cells.end();) { int64_t q; if (X.isC(i->first, &q) && q >= dof && q < dof + cn) i = m.cells.erase(i); else ++i; }
        for (auto &c : so_->cells) {
            int64_t q;
            if (!X.isC(c.first, &q) || q < so || q >= so + cn) continue;
            Cell x = c.second; x.dirty = true;
            m.cells[X.cst(q - so + dof)] = x;
            if (x.v.k == VP && x.v.obj && x.v.obj != d.obj) {
                const Obj *t = get(s, x.v.obj);
                if (t && t->dir && t->owner == src.obj) { Obj &tm = mut(s, x.v.obj); tm.owner = d.obj; tm.ownerOff = X.add(tm.ownerOff, X.cst(dof - so)); }
            }
        }
        Obj &m2 = mut(s, d.obj);
        for (auto &z : so_->zero) { int64_t a = std::max(z.first, so), b = std::min(z.second, so + cn); if (a < b) m2.zero.push_back({a - so + dof, b - so + dof}); }
        if (so_->bulk || so_->kind == O_GLOBAL) { if (!m2.di && m2.tag < 0 && !m2.stype && m2.kind != O_STACK) m2.bulk = true; else if (so_->kind == O_GLOBAL || so_->bulk) for (int64_t o = 0; o < cn; ++o) { } if (m2.kind == O_STACK) m2.bulk = true; }
        return;
    }
    Obj &m = mut(s, d.obj);
    if (!m.di && m.tag < 0 && !m.stype) {
        m.bulk = true;
        for (auto i = m.cells.begin(); i != m.cells.end();) if (i->second.v.k == VI) i = m.cells.erase(i); else ++i;
    }
}
void Engine::zeroMem(State &s, const Val &d, const Val &byte, const Val &n, const Instruction *I) {
    int64_t b = -1, cn = -1, off;
    if (n.k == VI) { Iv r = range(s, n.e); X.isC(n.e, &cn); if (r.hi <= 0) return; }
    if (!access(s, d, true, I, "fill")) return;
    if (byte.k == VI) X.isC(byte.e, &b);
    const Obj *o = get(s, d.obj);
    if (o->data) return;
    if (o->dir) { // whole-role fills (frozen typecodes and the like)
        Obj &m = mut(s, d.obj); if (!useArt) m.wfT = true; return; }
    Obj &m = mut(s, d.obj);
    if (b == 0 && X.isC(d.e, &off) && (m.owned || !m.bulk)) {
        int64_t end = cn >= 0 ? off + cn : INF;
        for (auto i = m.cells.begin(); i != m.cells.end();) { int64_t q; if (X.isC(i->first, &q) && q >= off && q < end) i = m.cells.erase(i); else ++i; }
        if (m.kind == O_INPUT) {
            // lazily loaded storage has no default contents: record explicit zeros for members
            if (m.di) for (int64_t x = off; x < std::min<int64_t>(end, off + 512); x++) {
                std::string nm; int64_t rel = 0;
                const DIType *mt = memberAt(m.di, x, &nm, nullptr, nullptr, &rel);
                if (!mt || rel) continue;
                const DIType *bt = strip(mt);
                int sz = bt ? (int)(bt->getSizeInBits() / 8) : 0;
                bool ptr = bt && isa<DIDerivedType>(bt) && cast<DIDerivedType>(bt)->getTag() == dwarf::DW_TAG_pointer_type;
                Cell c; c.v = ptr ? vNull() : vC(0); c.size = sz; c.dirty = true;
                if (sz) m.cells[X.cst(x)] = c;
            }
        } else m.zero.push_back({off, end});
        return;
    }
    if (!m.di && m.tag < 0 && !m.stype) {
        m.bulk = true;
        for (auto i = m.cells.begin(); i != m.cells.end();) if (i->second.v.k == VI) i = m.cells.erase(i); else ++i;
    }
}
void Engine::absorb(State &s, int obj) {
    std::vector<int> w{obj};
    std::set<int> seen;
    while (!w.empty()) {
        int id = w.back(); w.pop_back();
        if (!id || !seen.insert(id).second) continue;
        const Obj *o = get(s, id);
        if (!o || o->kind == O_STACK || o->kind == O_GLOBAL) continue;
        if (!o->absorbed) mut(s, id).absorbed = true;
        for (auto &c : o->cells) if (c.second.v.k == VP) w.push_back(c.second.v.obj);
    }
}
// One slot of a container directory leaves the analysis: check that it is consistent.
void Engine::foldSlot(State &s, int did, EId idx, const Instruction *I) {
    const Obj *d = get(s, did);
    EId c, k, t; int oc, ot;
    if (!dirBases(s, *d, c, k, t, oc, ot)) return;
    EId co = X.add(c, X.scale(idx, 8)), to = t >= 0 ? X.add(t, idx) : -1;
    const Obj *dc = get(s, oc), *dt = ot ? get(s, ot) : nullptr;
    const Cell *cc = nullptr, *tc = nullptr;
    if (dc) { auto i = dc->cells.find(co); if (i != dc->cells.end()) cc = &i->second; }
    if (dt && to >= 0) { auto i = dt->cells.find(to); if (i != dt->cells.end()) tc = &i->second; }
    nSlotChecks++;
    std::string who = d->site;
    auto drop = [&]() {
        if (oc) mut(s, oc).cells.erase(co);
        if (ot && to >= 0) mut(s, ot).cells.erase(to);
    };
    bool dirty = (cc && cc->dirty) || (tc && tc->dirty);
    bool leafs = ot && dt && dt->leafG;
    int64_t tz0 = -1;
    bool tz = leafs && tc && tc->v.k == VI && X.isC(tc->v.e, &tz0) && tz0 == 0;
    if (leafs) {
        const Obj *b = cc && cc->v.k == VP && cc->v.obj ? get(s, cc->v.obj) : nullptr;
        if (cc && cc->v.k == VP && cc->v.obj == 0) {
            if (faultMode && s.faulted) { drop(); if (oc) mut(s, oc).pending = true; return; }
            if (tc && !tz) report(s, "DANGLING", I, "a key of " + who + " is kept although its container was taken out", who + "leaf");
            // nothing here ever looked at the container that the erased leaf led to
            if (tz && tc->dirty && tc->init.k == VI && cc->dirty && cc->init.k == Val().k && dc && dc->wfC) report(s, "LEAK", I, "a key of " + who + " is removed and its container is never released", who + "leaf");
            drop(); return;
        }
        if (tz && !cc) { if (tc->dirty && tc->init.k == VI && dc && dc->wfC) report(s, "LEAK", I, "a key of " + who + " is removed and its container is never released", who + "leaf"); drop(); return; }
        if (b && b->alive && !b->gaveUp && dirty) {
            int n = 0;
            for (auto &h : s.heap) if (h.second->dir && h.second->alive) for (auto &x : h.second->cells) if (x.second.size == 8 && x.second.v.k == VP && x.second.v.obj == cc->v.obj) n++;
            if (tz) { if (n <= 1) report(s, "LEAK", I, "a key of " + who + " is removed and its container is never released", who + "leaf"); drop(); return; }
            if (!tc && cc->dirty) { if (n <= 1) report(s, "LEAK", I, "a container is stored in " + who + " without any key that leads to it", who + "nokey"); drop(); return; }
        }
    }
    if (cc && cc->v.k == VP && cc->v.obj == 0) {
        // an allocation that failed: the directory must be cleared before anyone sees it
        if (faultMode && s.faulted) { drop(); if (oc) mut(s, oc).pending = true; return; }
        if (!d->pending) report(s, "TAGMISMATCH", I, "a null container is left in " + who, who + "null");
        drop(); return;
    }
    if (!cc || cc->v.k != VP) {
        if (tc && tc->dirty && !cc) {
            // kind changed without the container
            if (tc->init.k == VI && tc->v.k == VI && tc->v.e != tc->init.e) report(s, d->isConst ? "CONSTW" : "TAGMISMATCH", I, "recorded kind changed without changing the container in " + who, who);
        }
        drop(); return;
    }
    int oid = cc->v.obj;
    const Obj *o = get(s, oid);
    if (!o) { drop(); return; }
    if (!o->alive || o->gaveUp) {
        // behind the last slot in use nobody looks
        bool behind = false;
        const Obj *w = get(s, d->owner);
        if (w && !leafs) for (auto *sn : DIRSTRUCTS) if (structs.count(sn)) {
            int64_t so = memberOffset(structs[sn], "size");
            if (so < 0) continue;
            auto i = w->cells.find(X.add(d->ownerOff, X.cst(so)));
            if (i != w->cells.end() && i->second.v.k == VI && range(s, X.sub(idx, i->second.v.e)).lo >= 0) behind = true;
        }
        if (behind) { drop(); return; }
        drop(); Obj &m = mut(s, oc); m.pending = true; if (d->isConst) report(s, "CONSTW", I, "container of a read-only argument was released", who); return; }
    if (dirty) {
        nKindChecks++;
        // recorded kind
        EId want = o->tag >= 0 ? o->tag : o->stype ? X.cst(o->stype) : -1;
        Val have;
        bool haveKnown = false;
        if (tc) { have = tc->v; haveKnown = true; }
        else if (ot) {
            if (cc->init.k == VP && cc->init.obj) { const Obj *io = get(s, cc->init.obj); if (io && io->tag >= 0) { have = vI(io->tag); haveKnown = true; } }
            if (!haveKnown && dt && dt->lazyFrom) { const Obj *sd = get(s, dt->lazyFrom); if (sd && sd->alive) { have = dirLoad(s, dt->lazyFrom, X.add(to, dt->lazyDelta), 1, false, I); haveKnown = true; d = get(s, did); } }
        }
        o = get(s, oid);
        if (ot) {
            if (!haveKnown) report(s, "TAGMISMATCH", I, "a container is stored in " + who + " without recording its kind", who + "nokind");
            else if (have.k == VU) report(s, "UNINIT", I, "the recorded kind of a container stored in " + who + " is uninitialised", who);
            else if (have.k == VI && want >= 0 && have.e != want) {
                int64_t a, b;
                bool ca = X.isC(have.e, &a), cb = X.isC(want, &b);
                report(s, "TAGMISMATCH", I, "container recorded as " + (ca ? tcName((int)a) : std::string("unknown kind")) + " is really " + (cb ? tcName((int)b) : std::string("of unknown kind")) + " in " + who, who);
            }
        }
        if (leafs) {     // 64-bit operations never unwrap a shared container
            bool sh = o->stype == 4;
            int64_t k;
            if (!sh && want >= 0) { if (X.isC(want, &k)) sh = k == 4; else { auto dm = s.dom.find(want); sh = dm != s.dom.end() && (dm->second & 0x10); } }
            if (sh) report(s, "TAGMISMATCH", I, "a container that may be shared is stored in " + who, who + "shared64");
        }
        if (d->isConst && dirty) {
            // only allowed: the same container wrapped for sharing
            bool ok = false;
            if (cc->init.k == VP && cc->v.obj == cc->init.obj && (!tc || !tc->dirty || tc->v.same(tc->init))) ok = true;
            if (o->stype == 4) for (auto &x : o->cells) if (x.second.v.k == VP && cc->init.k == VP && x.second.v.obj == cc->init.obj) ok = true;
            if (!ok) report(s, "CONSTW", I, "container slot of a read-only argument is replaced", who);
        }
        if (!o->stype && o->tag < 0 && o->kind == O_HEAP) report(s, "TYPE", I, "storage that was never built as a container is stored in " + who, who);
        // every member of a freshly built container must be set
        if (o->kind == O_HEAP && o->stype >= 1 && o->stype <= 4 && !o->bulk) {
            static const char *tn[] = {"", "bitset_container_s", "array_container_s", "run_container_s", "shared_container_s"};
            auto st = structs.find(tn[o->stype]);
            if (st != structs.end()) for (auto *e : st->second->getElements()) {
                auto *m = dyn_cast<DIDerivedType>(e);
                if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
                int64_t mo = (int64_t)m->getOffsetInBits() / 8;
                auto j = o->cells.find(X.cst(mo));
                bool z = false;
                for (auto &zz : o->zero) if (mo >= zz.first && mo < zz.second) z = true;
                if (!z && (j == o->cells.end() || j->second.v.k == VU)) report(s, "UNINIT", I, "container stored in " + who + " with member '" + m->getName().str() + "' never set", who + m->getName().str());
            }
        }
    }
    // holders
    int here = 0, dirs = 0, otherDir = 0;
    bool shared = stag(X, o) == 4;
    for (auto &h : s.heap) if (h.second->dir && h.second->alive) {
        int n = 0;
        for (auto &x : h.second->cells) if (x.second.size == 8 && x.second.v.k == VP && x.second.v.obj == oid) n++;
        if (n) { dirs++; if (h.first == oc) here = n; else otherDir = h.first; }
    }
    if (shared && o->rc != 0) {
        int holders = dirs;
        if (o->holds < holders) report(s, "REFOVER", I, "a shared container is stored in one more bitmap than its count allows (" + o->site + ")", o->site);
        else if (o->holds > holders) {
            // an extra hold was taken: it must be consumed by a later bulk copy of the directory
            if (o->holds == holders + 1 && holders == 1) mut(s, oc).excess = 1;
            else report(s, "REFLEAK", I, "a hold on a shared container is taken but never stored (" + o->site + ")", o->site);
        }
        if (dirs > 1 && o->holds >= dirs) { // this holder leaves the analysis with its own hold
            mut(s, oid).holds = o->holds - 1;
        }
    } else if (!shared) {
        if (here > 1) { mut(s, oc).pending = true; mut(s, oid).inDir = true; }
        else if (otherDir) {
            // moved between bitmaps: the one that had it originally gives it up
            int giver = cc->dirty ? otherDir : oc;
            {   // between a 32-bit and a 64-bit bitmap containers only move towards the latter
                EId c2, k2, t2; int oc2, ot2; bool l2 = false;
                if (dirBases(s, *get(s, otherDir), c2, k2, t2, oc2, ot2) && ot2) { const Obj *q = get(s, ot2); l2 = q && q->leafG; }
                if (l2 != leafs) giver = leafs ? otherDir : oc;
            }
            const Obj *g = get(s, giver);
            if (g->isConst) mut(s, giver == oc ? otherDir : oc).borrowed = true;
            else mut(s, giver).moved = true;
        }
    }
    bool last = dirs <= 1 && here <= 1;
    drop();
    if (last) absorb(s, oid);
    Obj &m = mut(s, oc);
    m.wfC = true;
    if (ot) mut(s, ot).wfT = true;
}
// The slot can be forgotten without losing anything: its container is alive,
// recorded under its own kind and held exactly once.
bool Engine::slotClean(State &s, int did, EId idx) {
    const Obj *d = get(s, did);
    EId c, k, t; int oc, ot;
    if (!dirBases(s, *d, c, k, t, oc, ot)) return false;
    const Obj *dc = get(s, oc), *dt = ot ? get(s, ot) : nullptr;
    if (!dc) return false;
    for (auto &h : s.heap) if (h.second->alive && h.second->lazyFrom) return false;   // kinds are being copied as a block
    auto i = dc->cells.find(X.add(c, X.scale(idx, 8)));
    if (dt && dt->leafG) return false;
    if (i == dc->cells.end()) return dt && t >= 0 && dt->cells.count(X.add(t, idx)) && !dt->cells.at(X.add(t, idx)).dirty;
    if (i->second.v.k != VP || !i->second.v.obj) return false;
    int oid = i->second.v.obj;
    const Obj *o = get(s, oid);
    if (!o || !o->alive || o->gaveUp) return false;
    if (dt && t >= 0) {
        auto j = dt->cells.find(X.add(t, idx));
        if (j != dt->cells.end()) {
            EId want = o->tag >= 0 ? o->tag : o->stype ? X.cst(o->stype) : -1;
            if (j->second.v.k != VI || j->second.v.e != want) return false;
        } else if (i->second.dirty) return false;
    }
    int holders = 0;
    for (auto &h : s.heap) if (h.second->dir && h.second->alive) for (auto &x : h.second->cells) if (x.second.size == 8 && x.second.v.k == VP && x.second.v.obj == oid) holders++;
    if (stag(X, o) == 4) return o->rc == 0 || o->holds == holders;
    return holders == 1;
}
// A container without elements may have no element storage; treat it as if it had.
bool Engine::fillNullAt(State &s, int id0) {
    static const char *tn[] = {"", "bitset_container_s", "array_container_s", "run_container_s"};
    static const char *fn[] = {"", "words", "array", "runs"};
    const Obj *o = get(s, id0);
    if (!o || !o->alive || o->kind == O_STACK) return false;
    int t = stag(X, o);
    if (t < 1 || t > 3 || !structs.count(tn[t])) return false;
    EId off = X.cst(memberOffset(structs[tn[t]], fn[t]));
    auto i = o->cells.find(off);
    if (i == o->cells.end() || i->second.v.k != VP || i->second.v.obj != 0) return false;
    int id = newObj(s, O_HEAP, o->site + " elements");
    Obj &n = mut(s, id);
    o = get(s, id0);
    n.fam = t == 1 ? 2 : 1; n.data = n.bulk = true; n.absorbed = o->absorbed; n.sharedBy = o->sharedBy;
    mut(s, id0).cells[off].v = vP(id, X.cst(0));
    return true;
}
void Engine::fillNull(State &s) {
    if (faultMode && s.faulted) return;
    std::vector<int> ids;
    for (auto &h : s.heap) if (h.second->alive && h.second->kind != O_STACK) ids.push_back(h.first);
    for (int id : ids) fillNullAt(s, id);
}
void Engine::foldDirs(State &s, bool all, const Instruction *I) {
    bool any = false;
    std::vector<int> gone;
    // scratch buffers of no fixed size: their numbers are not followed around loops
    if (!all) {
        for (auto &h : s.heap) if (h.second->alive && h.second->gaveUp && !h.second->cells.empty()) gone.push_back(h.first);
        for (int g : gone) {
            std::vector<int> in;
            for (auto &c : get(s, g)->cells) if (c.second.v.k == VP && c.second.v.obj) if (const Obj *p = get(s, c.second.v.obj)) if (p->sharedBy == g) for (auto &x : p->cells) if (x.second.v.k == VP && x.second.v.obj && get(s, x.second.v.obj) && !get(s, x.second.v.obj)->sharedBy) in.push_back(x.second.v.obj);
            for (int q : in) mut(s, q).sharedBy = g;
            mut(s, g).cells.clear();
        }
        gone.clear();   // what a wrapper given up refers to is nobody's business any more
        std::vector<int> weak; std::vector<std::pair<int, std::vector<EId>>> arena;
        for (auto &h : s.heap) {
            const Obj &o = *h.second;
            if (!o.alive || o.kind != O_HEAP || o.di || o.tag >= 0 || o.stype || o.dir || o.data || o.outT || (o.cells.empty() && o.zero.empty())) continue;
            bool ptr = false, off = false;
            for (auto &c : o.cells) { if (c.second.v.k != VI && c.second.v.k != VU) { const Obj *t = c.second.v.k == VP && c.second.v.obj ? get(s, c.second.v.obj) : nullptr; if (!t || t->kind != O_INPUT || !t->isConst) ptr = true; } if (!X.isC(c.first)) off = true; }
            if (!ptr && !o.cells.empty() && (off || o.size < 0 || !X.isC(o.size))) weak.push_back(h.first);
            // an arena: structures laid out one after the other behind the first one
            if (ptr && o.size >= 0 && !X.isC(o.size)) {
                int64_t head = structs.count("roaring_bitmap_s") ? (int64_t)structs["roaring_bitmap_s"]->getSizeInBits() / 8 : 40, z;
                std::vector<EId> drop;
                bool self = false, own = false;
                for (auto &c : o.cells) {
                    bool first = X.isC(c.first, &z) && z < head;
                    const Obj *t = c.second.v.k == VP && c.second.v.obj ? get(s, c.second.v.obj) : nullptr;
                    if (first) { if (c.second.v.k == VP && c.second.v.obj == h.first) self = true; continue; }
                    if (t && t->id != h.first && t->owned) own = true;
                    drop.push_back(c.first);
                }
                if (self && !own && !drop.empty()) arena.push_back({h.first, drop});
            }
        }
        for (auto &h : s.heap) if (h.second->kind == O_INPUT && h.second->isConst && !h.second->dir && !h.second->di && byteElem(h.second->elem) && h.second->tag < 0 && h.second->alive && !h.second->cells.empty()) {
            bool num = true;
            for (auto &c : h.second->cells) if (c.second.v.k != VI || c.second.dirty) num = false;
            if (num) weak.push_back(h.first);
        }
        // entries of an array of read-only bitmaps that were looked at but not into
        if (cpp) {
            std::vector<std::pair<int, EId>> seen;
            for (auto &h : s.heap) if (h.second->kind == O_INPUT && !h.second->dir && !h.second->di && h.second->tag < 0 && h.second->alive) for (auto &c : h.second->cells) {
                const Obj *t = c.second.v.k == VP && c.second.v.obj && !c.second.dirty ? get(s, c.second.v.obj) : nullptr;
                if (t && t->kind == O_INPUT && t->isConst && t->alive && t->cells.empty()) seen.push_back({h.first, c.first});
            }
            for (auto &q : seen) { Obj &t = mut(s, get(s, q.first)->cells.at(q.second).v.obj); t.root = t.owned = false; mut(s, q.first).cells.erase(q.second); }
        }
        for (auto &w : arena) { Obj &m = mut(s, w.first); for (EId e : w.second) m.cells.erase(e); m.bulk = true; }
        for (int w : weak) { Obj &m = mut(s, w); m.cells.clear(); m.zero.clear(); m.bulk = true; }
    }
    for (auto &h : s.heap) if (h.second->dir && h.second->alive) { any = true; break; }
    if (!any) return;
    std::set<EId> live;
    std::set<int> refd;
    if (!all) {
        auto liveLeaf = [&](EId e) {   // a leaf value names a container
            const ENode n = X.n[e];
            if (n.op != E_LIN) return;
            bool any = false; for (auto &p : n.t) if (p.second % 256 == 0) any = true;
            if (any) live.insert(canonIdx(simp(s, E_SHR, e, X.cst(8))));
        };
        auto note = [&](const Val &v) {
            std::function<void(const Val &)> f = [&](const Val &x) {
                if (x.k == VI) { live.insert(canonIdx(x.e)); if (useArt) liveLeaf(x.e); }
                if (x.k == VP && x.obj) { refd.insert(x.obj); const Obj *g = useArt ? get(s, x.obj) : nullptr; if (g && g->leafG) live.insert(canonIdx(x.e)); }
                if (x.k == VA) for (auto &y : *x.agg) f(y);
            };
            f(v);
        };
        for (auto &f : s.fr) for (auto &p : f.env) note(p.second);
        note(s.ret);
        for (auto &h : s.heap) if (h.second->alive && !h.second->dir) {
            bool tree = false;   // the bookkeeping of a 64-bit bitmap does not name slots in use
            if (useArt) for (auto &c : h.second->cells) if (c.second.v.k == VP && c.second.v.obj) { const Obj *g = get(s, c.second.v.obj); if (g && g->leafG && g->owner == h.first) tree = true; }
            for (auto &c : h.second->cells) {
                if (tree && c.second.v.k == VI) continue;
                if (c.second.v.k == VI && !(h.second->kind == O_INPUT && !c.second.dirty && !h.second->root)) { live.insert(canonIdx(c.second.v.e)); if (useArt) liveLeaf(c.second.v.e); }
                if (c.second.v.k == VP && c.second.v.obj) {
                    const Obj *g = useArt ? get(s, c.second.v.obj) : nullptr;
                    if (g && g->leafG && !(h.first == g->owner)) live.insert(canonIdx(c.second.v.e));
                    // a member of a container does not keep a slot alive, except a wrapper not yet stored
                    refd.insert(c.second.v.obj);
                }
            }
        }
    }
    std::vector<std::pair<int, EId>> todo;
    for (auto &h : s.heap) {
        const Obj &d = *h.second;
        if (!d.dir || !d.alive) continue;
        EId c, k, t; int oc, ot;
        if (!dirBases(s, d, c, k, t, oc, ot)) continue;
        std::set<EId> idxs;
        for (auto &x : d.cells) {
            EId q;
            if (x.second.size == 8 && oc == d.id && divLin(X.sub(x.first, c), 8, q)) idxs.insert(q);
            if (x.second.size == 1 && ot == d.id) idxs.insert(X.sub(x.first, t));
        }
        for (EId q : idxs) {
            if (!all) {
                if (live.count(canonIdx(q)) && !slotClean(s, d.id, q)) continue;
                auto i = d.cells.find(X.add(c, X.scale(q, 8)));
                if (i != d.cells.end() && i->second.v.k == VP && refd.count(i->second.v.obj)) {
                    // still referenced from a local (a wrapper elsewhere may also refer to it)
                    continue;
                }
            }
            todo.push_back({d.id, q});
        }
    }
    std::stable_sort(todo.begin(), todo.end(), [&](auto &x, auto &y) { return (get(s, x.first)->lazyFrom != 0) > (get(s, y.first)->lazyFrom != 0); });
    for (auto &p : todo) { const Obj *d = get(s, p.first); if (d && d->alive) foldSlot(s, p.first, p.second, I); }
    for (auto &h : s.heap) {
        const Obj &d = *h.second;
        if (!d.dir || !d.alive) continue;
        if (d.mvC != d.mvT || d.mvC != d.mvK) {
            EId c, k, t; int oc, ot;
            if (dirBases(s, d, c, k, t, oc, ot) && ot == d.id) {
                auto sorted = [](std::vector<std::pair<EId, EId>> v) { std::sort(v.begin(), v.end()); return v; };
                if (sorted(d.mvC) != sorted(d.mvT)) report(s, "TAGMISMATCH", I, "containers of " + d.site + " are moved without moving their recorded kinds the same way", d.site + "mv");
                if (sorted(d.mvC) != sorted(d.mvK)) report(s, "TAGMISMATCH", I, "containers of " + d.site + " are moved without moving their keys the same way", d.site + "mvk");
            }
        }
        if (!d.mvC.empty() || !d.mvT.empty() || !d.mvK.empty()) { Obj &m = mut(s, d.id); m.mvC.clear(); m.mvT.clear(); m.mvK.clear(); }
    }
}
