// Linear integer arithmetic for the bounds analysis: expressions, constraints,
// entailment (exact rational simplex), elimination, affine hulls.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef __int128 I;
typedef __int128 Num;
struct Overflow {};
static inline I iabs(I a) { return a < 0 ? -a : a; }
static inline I igcd(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
static const I BIG = (I)1 << 100;
static inline I chk(I a) { if (iabs(a) > BIG) throw Overflow(); return a; }
static inline I mulI(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return chk(r); }

struct Lin {                      // sum of coefficients times symbols, plus constant
    std::vector<std::pair<int, I>> t;
    I c = 0;
    bool operator<(const Lin &o) const { if (c != o.c) return c < o.c; return t < o.t; }
    bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
    bool isC() const { return t.empty(); }
    I coef(int s) const { auto it = std::lower_bound(t.begin(), t.end(), std::make_pair(s, -BIG)); return it != t.end() && it->first == s ? it->second : 0; }
};
static inline Lin lc(I c) { Lin l; l.c = c; return l; }
static inline Lin ls(int s) { Lin l; l.t.push_back({s, 1}); return l; }
static inline Lin comb(const Lin &a, I ka, const Lin &b, I kb) {
    Lin r; r.c = chk(mulI(a.c, ka) + mulI(b.c, kb));
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { if (ka) r.t.push_back({a.t[i].first, mulI(a.t[i].second, ka)}); i++; }
        else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { if (kb) r.t.push_back({b.t[j].first, mulI(b.t[j].second, kb)}); j++; }
        else { I v = chk(mulI(a.t[i].second, ka) + mulI(b.t[j].second, kb)); if (v) r.t.push_back({a.t[i].first, v}); i++; j++; }
    }
    return r;
}
static inline Lin add(const Lin &a, const Lin &b) { return comb(a, 1, b, 1); }
static inline Lin sub(const Lin &a, const Lin &b) { return comb(a, 1, b, -1); }
static inline Lin mulc(const Lin &a, I k) { return comb(a, k, lc(0), 0); }

struct Con { Lin e; bool eq = false; bool operator<(const Con &o) const { if (eq != o.eq) return eq < o.eq; return e < o.e; } bool operator==(const Con &o) const { return eq == o.eq && e == o.e; } };

struct Rng { I lo, hi; };
extern std::vector<Rng> symRng;
extern long nLP, nOver, nGiven;   // questions asked, given up on for large numbers, for length

// 1: trivially true, 0: keep, -1: false
int normCon(Con &c);
typedef std::set<Con> Cons;
bool feasible(const Cons &cs, const std::vector<Con> &extra);   // false only if certainly empty
bool entails(const Cons &cs, const Lin &e);                      // e >= 0 certainly
bool entailsEq(const Cons &cs, const Lin &e);
void eliminate(Cons &cs, int s);
void tidy(Cons &cs);
void pairUp(Cons &cs);
Cons joinCons(const Cons &a, const Cons &b, bool onlyA);
