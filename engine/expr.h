// Hash-consed integer expressions over unknowns, in a normal form that makes
// "the same quantity" syntactically equal: linear combinations + opaque nodes.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef int EId;
enum EOp : uint8_t { E_SYM, E_LIN, E_MUL, E_AND, E_OR, E_XOR, E_SHL, E_SHR, E_DIV, E_REM, E_LT, E_EQ, E_NOT, E_ADDR };

struct ENode {
    EOp op;
    int64_t c = 0;                            // LIN constant / SYM id / ADDR obj
    EId a = -1, b = -1;                       // opaque operands
    std::vector<std::pair<EId, int64_t>> t;   // LIN terms sorted by id
    bool operator==(const ENode &o) const { return op == o.op && c == o.c && a == o.a && b == o.b && t == o.t; }
};
struct EHash {
    size_t operator()(const ENode &n) const {
        size_t h = n.op * 1000003u + (size_t)n.c * 0x9e3779b97f4a7c15ull + n.a * 7919 + n.b * 104729;
        for (auto &p : n.t) h = (h * 31 + p.first) * 31 + (size_t)p.second;
        return h;
    }
};

struct Exprs {
    std::vector<ENode> n;
    std::unordered_map<ENode, EId, EHash> idx;
    std::vector<std::string> symName;
    EId mk(const ENode &e) {
        auto it = idx.find(e);
        if (it != idx.end()) return it->second;
        n.push_back(e);
        idx[e] = (EId)n.size() - 1;
        return (EId)n.size() - 1;
    }
    EId cst(int64_t v) { ENode e; e.op = E_LIN; e.c = v; return mk(e); }
    EId fresh(const std::string &nm) { ENode e; e.op = E_SYM; e.c = (int64_t)symName.size(); symName.push_back(nm); return mk(e); }
    EId addr(int obj) { ENode e; e.op = E_ADDR; e.c = obj; return mk(e); }
    bool isC(EId x, int64_t *v = nullptr) const { const ENode &e = n[x]; if (e.op == E_LIN && e.t.empty()) { if (v) *v = e.c; return true; } return false; }
    void lin(EId x, int64_t k, std::map<EId, int64_t> &m, int64_t &c) const {
        const ENode &e = n[x];
        if (e.op == E_LIN) { c += k * e.c; for (auto &p : e.t) m[p.first] += k * p.second; }
        else m[x] += k;
    }
    EId mkLin(std::map<EId, int64_t> &m, int64_t c) {
        ENode e; e.op = E_LIN; e.c = c;
        for (auto &p : m) if (p.second) e.t.push_back(p);
        if (c == 0 && e.t.size() == 1 && e.t[0].second == 1) return e.t[0].first;
        return mk(e);
    }
    EId lincomb(EId a, int64_t ka, EId b, int64_t kb, int64_t c0 = 0) {
        std::map<EId, int64_t> m; int64_t c = c0; lin(a, ka, m, c); if (b >= 0) lin(b, kb, m, c); return mkLin(m, c);
    }
    EId add(EId a, EId b) { return lincomb(a, 1, b, 1); }
    EId sub(EId a, EId b) { return lincomb(a, 1, b, -1); }
    EId scale(EId a, int64_t k) { return lincomb(a, k, -1, 0); }
    EId bin(EOp op, EId a, EId b) { ENode e; e.op = op; e.a = a; e.b = b; return mk(e); }
    EId mul(EId a, EId b) {
        int64_t v; if (isC(a, &v)) return scale(b, v); if (isC(b, &v)) return scale(a, v);
        if (a > b) std::swap(a, b); return bin(E_MUL, a, b);
    }
    bool isBool(EId x) const { EOp o = n[x].op; return o == E_LT || o == E_EQ || o == E_NOT; }
    EId notE(EId x) { int64_t v; if (isC(x, &v)) return cst(v == 0); if (n[x].op == E_NOT) return n[x].a; ENode e; e.op = E_NOT; e.a = x; return mk(e); }
    // d < 0
    EId lt0(EId d) { int64_t v; if (isC(d, &v)) return cst(v < 0); ENode e; e.op = E_LT; e.a = d; return mk(e); }
    // d == 0 (normalised sign)
    EId eq0(EId d) {
        int64_t v; if (isC(d, &v)) return cst(v == 0);
        if (isBool(d)) return notE(d);
        const ENode &e0 = n[d];
        if (e0.op == E_LIN && e0.t[0].second < 0) d = scale(d, -1);
        const ENode &e1 = n[d];
        if (e1.op == E_LIN && e1.t.size() == 1 && isBool(e1.t[0].first) && e1.t[0].second == 1) {
            if (e1.c == 0) return notE(e1.t[0].first);
            if (e1.c == -1) return e1.t[0].first;
            return cst(0);
        }
        ENode e; e.op = E_EQ; e.a = d; return mk(e);
    }
    template <class F> void syms(EId x, F f) const {
        const ENode &e = n[x];
        if (e.op == E_SYM || e.op == E_ADDR) { f(x); return; }
        for (auto &p : e.t) syms(p.first, f);
        if (e.a >= 0) syms(e.a, f);
        if (e.b >= 0) syms(e.b, f);
    }
    std::string str(EId x) const {
        const ENode &e = n[x];
        switch (e.op) {
            case E_SYM: return symName[e.c] + "#" + std::to_string(e.c);
            case E_ADDR: return "&o" + std::to_string(e.c);
            case E_LIN: {
                std::string s; for (auto &p : e.t) s += (s.empty() ? "" : "+") + (p.second == 1 ? "" : std::to_string(p.second) + "*") + str(p.first);
                if (e.c || s.empty()) s += (s.empty() ? "" : "+") + std::to_string(e.c); return s; }
            default: {
                static const char *nm[] = {"sym", "lin", "mul", "and", "or", "xor", "shl", "shr", "div", "rem", "lt0", "eq0", "not", "addr"};
                return std::string(nm[e.op]) + "(" + str(e.a) + (e.b >= 0 ? "," + str(e.b) : "") + ")"; }
        }
    }
};
