#include "lin.h"
std::vector<Rng> symRng;
long nLP = 0, nOver = 0, nGiven = 0;

typedef _BitInt(512) W;             // second try, for the few questions whose numbers grow large
template <class T> static T gcdT(T a, T b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { T t = a % b; a = b; b = t; } return a; }
static I mulT(I a, I b) { return mulI(a, b); }
static W mulT(W a, W b) { const W h = (W)1 << 250; if (a > h || a < -h || b > h || b < -h) throw Overflow(); return a * b; }
static I chkT(I a) { return chk(a); }
static W chkT(W a) { const W h = (W)1 << 505; if (a > h || a < -h) throw Overflow(); return a; }
template <class T> struct QT { T n = 0, d = 1; };
template <class T> static QT<T> mk(T n, T d) { if (d < 0) n = -n, d = -d; T g = gcdT(n, d); if (g > 1) n /= g, d /= g; chkT(n); chkT(d); return {n, d}; }
template <class T> static QT<T> operator+(QT<T> a, QT<T> b) { if (a.d == 1 && b.d == 1) return {chkT(a.n + b.n), 1}; return mk<T>(chkT(mulT(a.n, b.d) + mulT(b.n, a.d)), mulT(a.d, b.d)); }
template <class T> static QT<T> operator-(QT<T> a) { return {-a.n, a.d}; }
template <class T> static QT<T> operator-(QT<T> a, QT<T> b) { return a + -b; }
template <class T> static QT<T> operator*(QT<T> a, QT<T> b) { T g1 = gcdT(a.n, b.d), g2 = gcdT(b.n, a.d); if (g1 > 1) a.n /= g1, b.d /= g1; if (g2 > 1) b.n /= g2, a.d /= g2; return mk<T>(mulT(a.n, b.n), mulT(a.d, b.d)); }
template <class T> static QT<T> operator/(QT<T> a, QT<T> b) { return a * mk<T>(b.d, b.n); }
template <class T> static bool operator<(QT<T> a, QT<T> b) { return mulT(a.n, b.d) < mulT(b.n, a.d); }
template <class T> static bool zero(QT<T> a) { return a.n == 0; }
typedef QT<I> Q;

int normCon(Con &c) {
    if (c.e.isC()) return (c.eq ? c.e.c == 0 : c.e.c >= 0) ? 1 : -1;
    I g = 0;
    for (auto &p : c.e.t) g = igcd(g, p.second);
    if (g > 1) {
        if (c.eq) { if (c.e.c % g) return -1; c.e.c /= g; }
        else { I q = c.e.c / g; if (c.e.c % g && c.e.c < 0) q--; c.e.c = q; }
        for (auto &p : c.e.t) p.second /= g;
    }
    if (c.eq && c.e.t[0].second < 0) { for (auto &p : c.e.t) p.second = -p.second; c.e.c = -c.e.c; }
    if (!c.eq) {                                    // implied by the symbols' types?
        I lo = c.e.c; bool ok = true;
        for (auto &p : c.e.t) { Rng &r = symRng[p.first]; I b = p.second > 0 ? r.lo : r.hi; if (iabs(b) > ((I)1 << 64) || iabs(p.second) > ((I)1 << 30)) { ok = false; break; } lo += b * p.second; }
        if (ok && lo >= 0) return 1;
    }
    return 0;
}

// general simplex: every constraint is a row with a bound, symbols have their type's bounds
template <class T> struct Simplex {
    typedef QT<T> Q;
    std::map<int, int> col;
    std::vector<std::vector<Q>> row;    // basic = sum row * nonbasic
    std::vector<int> basic, nonb;       // variable numbers
    struct V { bool hl = false, hh = false; Q lo, hi, val; };
    std::vector<V> v;
    bool solve() {
        for (long it = 0; it < 4000; it++) {
            int b = -1, bi = -1; bool low = false;
            for (size_t i = 0; i < basic.size(); i++) {
                V &x = v[basic[i]];
                bool l = x.hl && x.val < x.lo, h = x.hh && x.hi < x.val;
                if ((l || h) && (b < 0 || basic[i] < b)) b = basic[i], bi = i, low = l;
            }
            if (b < 0) return true;
            int n = -1, nj = -1;
            for (size_t j = 0; j < nonb.size(); j++) {
                Q a = row[bi][j];
                if (zero(a)) continue;
                V &y = v[nonb[j]];
                bool up = low == (a.n > 0);             // the direction the nonbasic has to move
                bool can = up ? (!y.hh || y.val < y.hi) : (!y.hl || y.lo < y.val);
                if (can && (n < 0 || nonb[j] < n)) n = nonb[j], nj = j;
            }
            if (n < 0) return false;
            Q target = low ? v[b].lo : v[b].hi;
            Q th = (target - v[b].val) / row[bi][nj];
            v[b].val = target;
            v[n].val = v[n].val + th;
            for (size_t i = 0; i < basic.size(); i++) if ((int)i != bi && !zero(row[i][nj])) v[basic[i]].val = v[basic[i]].val + row[i][nj] * th;
            // pivot
            Q p = row[bi][nj];
            std::vector<Q> &r = row[bi];
            for (size_t j = 0; j < nonb.size(); j++) r[j] = (int)j == nj ? mk<T>(p.d, p.n) : -(r[j] / p);
            for (size_t i = 0; i < basic.size(); i++) if ((int)i != bi && !zero(row[i][nj])) {
                Q f = row[i][nj];
                for (size_t j = 0; j < nonb.size(); j++) row[i][j] = (int)j == nj ? f * r[j] : zero(r[j]) ? row[i][j] : row[i][j] + f * r[j];
            }
            std::swap(basic[bi], nonb[nj]);
        }
        nGiven++;
        return true;
    }
};

template <class T> static bool feasibleT(const Cons &cs, const std::vector<Con> &extra) {
    typedef QT<T> Q;
    // the part connected with the extra constraints
    std::vector<const Con *> use;
    std::set<int> syms;
    for (auto &c : extra) { if (c.e.isC()) { if (!(c.eq ? c.e.c == 0 : c.e.c >= 0)) return false; continue; } use.push_back(&c); for (auto &p : c.e.t) syms.insert(p.first); }
    std::vector<const Con *> rest;
    for (auto &c : cs) rest.push_back(&c);
    if (extra.empty()) use = rest;
    else for (bool ch = true; ch;) {
        ch = false;
        for (auto &c : rest) {
            if (!c) continue;
            bool hit = false;
            for (auto &p : c->e.t) if (syms.count(p.first)) { hit = true; break; }
            if (!hit) continue;
            for (auto &p : c->e.t) syms.insert(p.first);
            use.push_back(c); c = nullptr; ch = true;
        }
    }
    if (use.empty()) return true;
    {
        Simplex<T> S;
        // equalities first: solve them away
        std::map<int, std::pair<std::map<int, Q>, Q>> sol;   // symbol = linear combination
        auto expand = [&](const Lin &e, std::map<int, Q> &t, Q &c) {
            c = {e.c, 1};
            for (auto &p : e.t) {
                auto it = sol.find(p.first);
                Q k{p.second, 1};
                if (it == sol.end()) { t[p.first] = t[p.first] + k; continue; }
                for (auto &q : it->second.first) t[q.first] = t[q.first] + k * q.second;
                c = c + k * it->second.second;
            }
            for (auto it = t.begin(); it != t.end();) if (zero(it->second)) it = t.erase(it); else ++it;
        };
        for (auto c : use) if (c->eq) {
            std::map<int, Q> t; Q k; expand(c->e, t, k);
            if (t.empty()) { if (!zero(k)) return false; continue; }
            int s = t.begin()->first; Q a = t.begin()->second;
            for (auto &p : t) if (iabs(p.second.n) == 1 && p.second.d == 1) { s = p.first; a = p.second; break; }
            t.erase(s);
            std::pair<std::map<int, Q>, Q> r; for (auto &p : t) r.first[p.first] = -(p.second / a); r.second = -(k / a);
            for (auto &o : sol) { auto it = o.second.first.find(s); if (it == o.second.first.end()) continue; Q f = it->second; o.second.first.erase(it); for (auto &p : r.first) { Q &x = o.second.first[p.first]; x = x + f * p.second; if (zero(x)) o.second.first.erase(p.first); } o.second.second = o.second.second + f * r.second; }
            sol[s] = r;
        }
        auto var = [&](int s) { auto it = S.col.find(s); if (it != S.col.end()) return it->second; int n = S.v.size(); S.v.emplace_back(); S.col[s] = n; Rng &r = symRng[s]; typename Simplex<T>::V &x = S.v[n]; x.hl = x.hh = true; x.lo = {r.lo, 1}; x.hi = {r.hi, 1}; x.val = r.lo > 0 ? x.lo : r.hi < 0 ? x.hi : Q{0, 1}; S.nonb.push_back(n); return n; };
        struct R { std::map<int, Q> t; Q k; bool eqRange; int s; };
        std::vector<R> rows;
        for (auto c : use) if (!c->eq) { R r; expand(c->e, r.t, r.k); r.eqRange = false; if (r.t.empty()) { if (r.k.n < 0) return false; continue; } rows.push_back(r); }
        for (auto &o : sol) { R r; r.t = o.second.first; r.k = o.second.second; r.eqRange = true; r.s = o.first; rows.push_back(r); }
        for (auto &r : rows) for (auto &p : r.t) var(p.first);
        size_t n = S.nonb.size();
        for (auto &r : rows) {
            if (r.t.empty()) { if (r.eqRange && (r.k < Q{symRng[r.s].lo, 1} || Q{symRng[r.s].hi, 1} < r.k)) return false; continue; }
            int b = S.v.size(); S.v.emplace_back();
            typename Simplex<T>::V &x = S.v[b];
            std::vector<Q> row(n);
            Q val{0, 1};
            for (auto &p : r.t) { int j = S.col[p.first]; row[j] = p.second; val = val + p.second * S.v[j].val; }
            S.v[b].val = val;
            if (r.eqRange) { x.hl = x.hh = true; x.lo = Q{symRng[r.s].lo, 1} - r.k; x.hi = Q{symRng[r.s].hi, 1} - r.k; }
            else { x.hl = true; x.lo = -r.k; }
            S.basic.push_back(b); S.row.push_back(row);
        }
        return S.solve();
    }
}
bool feasible(const Cons &cs, const std::vector<Con> &extra) {
    nLP++;
    try { return feasibleT<I>(cs, extra); } catch (Overflow &) {}
    try { return feasibleT<W>(cs, extra); } catch (Overflow &) { nOver++; return true; }
}
bool entails(const Cons &cs, const Lin &e) {
    Con c{e, false};
    int n = normCon(c);
    if (n) return n > 0;
    if (cs.count(c)) return true;
    try {
        Con neg{comb(e, -1, lc(1), -1), false};
        return !feasible(cs, {neg});
    } catch (Overflow &) { return false; }
}
bool entailsEq(const Cons &cs, const Lin &e) { if (e.isC()) return e.c == 0; return entails(cs, e) && entails(cs, mulc(e, -1)); }

static void put(Cons &cs, Con c) { if (normCon(c) == 1) return; cs.insert(c); }
void eliminate(Cons &cs, int s) {
    std::vector<Con> with;
    for (auto it = cs.begin(); it != cs.end();) if (it->e.coef(s)) { with.push_back(*it); it = cs.erase(it); } else ++it;
    if (with.empty()) return;
    try {
        const Con *eq = nullptr;
        for (auto &c : with) if (c.eq && (!eq || iabs(c.e.coef(s)) < iabs(eq->e.coef(s)))) eq = &c;
        if (eq) {
            I a = eq->e.coef(s);
            for (auto &c : with) if (&c != eq) { I b = c.e.coef(s); I g = igcd(a, b); Con r{comb(c.e, iabs(a) / g, eq->e, -(a > 0 ? b : -b) / g), c.eq}; put(cs, r); }
            // the range of the eliminated symbol
            Rng &r = symRng[s];
            Lin rest = comb(eq->e, 1, ls(s), -a);     // a*s + rest == 0
            if (iabs(r.lo) < ((I)1 << 62)) put(cs, {a > 0 ? comb(rest, -1, lc(1), mulI(-a, r.lo)) : comb(rest, 1, lc(1), mulI(a, r.lo)), false});
            if (iabs(r.hi) < ((I)1 << 62)) put(cs, {a > 0 ? comb(rest, 1, lc(1), mulI(a, r.hi)) : comb(rest, -1, lc(1), mulI(-a, r.hi)), false});
            return;
        }
        Rng &r = symRng[s];
        if (iabs(r.lo) < ((I)1 << 62)) with.push_back({comb(ls(s), 1, lc(1), -r.lo), false});
        if (iabs(r.hi) < ((I)1 << 62)) with.push_back({comb(ls(s), -1, lc(1), r.hi), false});
        std::vector<Con> P, N;
        for (auto &c : with) (c.e.coef(s) > 0 ? P : N).push_back(c);
        if (P.size() * N.size() > 150) return;
        // combinations with coefficients of their own making are left out: weaker, but it stays readable and small
        auto plain = [](const Con &c, const Con &p, const Con &n) {
            for (auto &x : c.e.t) { I k = iabs(x.second); if (!(k & (k - 1))) continue; bool had = false; for (auto *q : {&p, &n}) for (auto &y : q->e.t) if (iabs(y.second) == k) had = true; if (!had) return false; }
            return true;
        };
        for (auto &p : P) for (auto &n : N) { I a = p.e.coef(s), b = -n.e.coef(s), g = igcd(a, b); Con r{comb(p.e, b / g, n.e, a / g), false}; if (normCon(r) == 0 && plain(r, p, n)) cs.insert(r); }
    } catch (Overflow &) {}
}
// equalities that hold in both (intersection of the two row spaces)
static std::vector<Con> hull(const Cons &a, const Cons &b) {
    std::vector<Con> out;
    std::map<int, int> col; std::vector<int> sy;
    for (auto cs : {&a, &b}) for (auto &c : *cs) if (c.eq) for (auto &p : c.e.t) if (!col.count(p.first)) { col[p.first] = sy.size(); sy.push_back(p.first); }
    size_t n = sy.size() + 1;
    std::vector<std::vector<Q>> M;
    for (auto &c : a) if (c.eq) { std::vector<Q> r(2 * n); for (auto &p : c.e.t) r[col[p.first]] = r[n + col[p.first]] = {p.second, 1}; r[n - 1] = r[2 * n - 1] = {c.e.c, 1}; M.push_back(r); }
    for (auto &c : b) if (c.eq) { std::vector<Q> r(2 * n); for (auto &p : c.e.t) r[col[p.first]] = {p.second, 1}; r[n - 1] = {c.e.c, 1}; M.push_back(r); }
    if (M.empty()) return out;
    try {
        size_t r = 0;
        for (size_t c = 0; c < 2 * n && r < M.size(); c++) {
            size_t p = r; while (p < M.size() && zero(M[p][c])) p++;
            if (p == M.size()) continue;
            std::swap(M[p], M[r]);
            Q k = M[r][c]; for (auto &x : M[r]) if (!zero(x)) x = x / k;
            for (size_t i = 0; i < M.size(); i++) if (i != r && !zero(M[i][c])) { Q f = M[i][c]; for (size_t j = 0; j < 2 * n; j++) if (!zero(M[r][j])) M[i][j] = M[i][j] - f * M[r][j]; }
            r++;
        }
        for (auto &row : M) {
            bool left = false, any = false;
            for (size_t j = 0; j < n; j++) if (!zero(row[j])) left = true;
            if (left) continue;
            I l = 1;
            for (size_t j = n; j < 2 * n; j++) if (!zero(row[j])) { any = true; l = mulI(l / igcd(l, row[j].d), row[j].d); }
            if (!any) continue;
            Con c; c.eq = true;
            std::map<int, I> t;
            for (size_t j = 0; j + 1 < n; j++) if (!zero(row[n + j])) t[sy[j]] = mulI(row[n + j].n, l / row[n + j].d);
            c.e.c = mulI(row[2 * n - 1].n, l / row[2 * n - 1].d);
            for (auto &p : t) c.e.t.push_back(p);
            if (c.e.t.empty()) continue;
            if (normCon(c) == 0) out.push_back(c);
        }
    } catch (Overflow &) {}
    return out;
}
// of several constraints with the same terms only the tightest
void tidy(Cons &cs) {
    std::map<std::vector<std::pair<int, I>>, I> best;
    for (auto &c : cs) if (!c.eq) { auto it = best.find(c.e.t); if (it == best.end()) best[c.e.t] = c.e.c; else it->second = std::min(it->second, c.e.c); }
    for (auto it = cs.begin(); it != cs.end();) if (!it->eq && best[it->e.t] != it->e.c) it = cs.erase(it); else ++it;
}
// an inequality and its opposite are an equality
void pairUp(Cons &cs) {
    std::vector<Con> eq;
    for (auto &c : cs) if (!c.eq) { Con o{mulc(c.e, -1), false}; if (cs.count(o)) eq.push_back(c); }
    for (auto &c : eq) { cs.erase(c); Con e{c.e, true}; if (normCon(e) == 0) cs.insert(e); }
}
Cons joinCons(const Cons &a, const Cons &b, bool onlyA) {
    Cons r;
    bool diffEq = false;
    for (int side = 0; side < 2; side++) {
        const Cons &x = side ? b : a, &y = side ? a : b;
        for (auto &c : x) {
            if (y.count(c)) { r.insert(c); continue; }
            if (side && onlyA) continue;
            if (c.eq) diffEq = true;
            if (c.eq) {
                if (entailsEq(y, c.e)) { r.insert(c); continue; }
                Con h{c.e, false}, g{mulc(c.e, -1), false};
                if (normCon(h) == 0 && entails(y, h.e)) r.insert(h);
                if (normCon(g) == 0 && entails(y, g.e)) r.insert(g);
            } else if (entails(y, c.e)) r.insert(c);
        }
    }
    if (diffEq) for (auto &c : hull(a, b)) if (!r.count(c)) r.insert(c);
    tidy(r);
    return r;
}
