// psisym: hash-consed bit-vector expressions with rewriting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_NOT, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT
};

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
    Op op;
    uint8_t w;
    u32 id;
    u32 hash;
    const Expr *a, *b, *c;
    u128 k;             // constant / var index / extract low bit
    const VarSet* vars;
    mutable u64 evEpoch; mutable u128 evVal;
    mutable void* zbv; mutable void* zbool;
};
typedef const Expr* E;

static inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextTo(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ s) - s);
}

struct ExprPool {
    std::vector<E> table; size_t count = 0; u32 nextId = 1;
    std::unordered_map<u64, const VarSet*> unionCache;
    struct VSHash { size_t operator()(const std::vector<u32>& v) const { size_t h = v.size(); for (u32 x : v) h = h * 1000003 + x; return h; } };
    std::unordered_map<std::vector<u32>, const VarSet*, VSHash> vsets;
    const VarSet* emptyVS;
    u64 epoch = 1;
    const std::vector<u64>* model = nullptr;
    char* arena = nullptr; size_t arenaLeft = 0;

    ExprPool() { table.assign(1 << 16, nullptr); emptyVS = internVS({}); }

    const VarSet* internVS(const std::vector<u32>& v) {
        auto it = vsets.find(v);
        if (it != vsets.end()) return it->second;
        VarSet* s = new VarSet{v, (u32)vsets.size()};
        vsets.emplace(v, s);
        return s;
    }
    const VarSet* unite(const VarSet* x, const VarSet* y) {
        if (x == y || y->v.empty()) return x;
        if (x->v.empty()) return y;
        if (x->id > y->id) std::swap(x, y);
        u64 key = ((u64)x->id << 32) | y->id;
        auto it = unionCache.find(key);
        if (it != unionCache.end()) return it->second;
        std::vector<u32> r;
        std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
        const VarSet* s = internVS(r);
        unionCache.emplace(key, s);
        return s;
    }
    void grow() {
        std::vector<E> nt(table.size() * 2, nullptr);
        size_t m = nt.size() - 1;
        for (E e : table) if (e) { size_t i = e->hash & m; while (nt[i]) i = (i + 1) & m; nt[i] = e; }
        table.swap(nt);
    }
    E intern(Op op, unsigned w, E a, E b, E c, u128 k) {
        u32 h = (u32)op * 0x9E3779B1u + w * 0x85EBCA6Bu;
        auto mix = [&](u64 x) { h ^= (u32)(x ^ (x >> 32)); h *= 0xC2B2AE35u; h ^= h >> 15; };
        mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix((u64)k); mix((u64)(k >> 64));
        size_t m = table.size() - 1, i = h & m;
        while (E e = table[i]) {
            if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
            i = (i + 1) & m;
        }
        size_t need = (sizeof(Expr) + 15) & ~15ull;
        if (arenaLeft < need) { arena = (char*)aligned_alloc(16, 1 << 20); arenaLeft = 1 << 20; }
        Expr* e = (Expr*)arena; arena += need; arenaLeft -= need;
        e->op = op; e->w = w; e->id = nextId++; e->hash = h; e->a = a; e->b = b; e->c = c; e->k = k;
        e->evEpoch = 0; e->zbv = e->zbool = nullptr;
        if (op == O_VAR) e->vars = internVS({(u32)k});
        else {
            const VarSet* s = emptyVS;
            if (a) s = unite(s, a->vars);
            if (b) s = unite(s, b->vars);
            if (c) s = unite(s, c->vars);
            e->vars = s;
        }
        table[i] = e;
        if (++count * 2 > table.size()) grow();
        return e;
    }
    E cst(u128 v, unsigned w) { return intern(O_CONST, w, 0, 0, 0, v & maskOf(w)); }
    E var(u32 idx, unsigned w) { return intern(O_VAR, w, 0, 0, 0, (u128)idx | ((u128)w << 32)); }

    void setModel(const std::vector<u64>* m) { model = m; epoch++; }
    u128 eval(E e) {
        if (e->op == O_CONST) return e->k;
        if (e->evEpoch == epoch) return e->evVal;
        u128 r = 0;
        switch (e->op) {
        case O_VAR: { u32 i = (u32)e->k; r = i < model->size() ? (*model)[i] : 0; r &= maskOf(e->w); break; }
        case O_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
        default: r = apply(e->op, e->w, e->a, e->b, e->k, eval(e->a), e->b ? eval(e->b) : 0);
        }
        e->evEpoch = epoch; e->evVal = r;
        return r;
    }
    static u128 apply(Op op, unsigned w, E ea, E eb, u128 k, u128 x, u128 y) {
        unsigned aw = ea->w;
        u128 M = maskOf(w);
        switch (op) {
        case O_ADD: return (x + y) & M;
        case O_SUB: return (x - y) & M;
        case O_MUL: return (x * y) & M;
        case O_UDIV: return y ? (x / y) & M : M;
        case O_UREM: return y ? (x % y) & M : x;
        case O_SDIV: { if (!y) return (sextTo(x, w) < 0) ? 1 : M; if (y == M) return (0 - x) & M; return (u128)(sextTo(x, w) / sextTo(y, w)) & M; }
        case O_SREM: { if (!y) return x; if (y == M) return 0; return (u128)(sextTo(x, w) % sextTo(y, w)) & M; }
        case O_AND: return x & y;
        case O_OR: return x | y;
        case O_XOR: return x ^ y;
        case O_NOT: return ~x & M;
        case O_SHL: return y >= w ? 0 : (x << (unsigned)y) & M;
        case O_LSHR: return y >= w ? 0 : x >> (unsigned)y;
        case O_ASHR: { i128 s = sextTo(x, w); unsigned sh = y >= w ? w - 1 : (unsigned)y; return (u128)(s >> sh) & M; }
        case O_EQ: return x == y;
        case O_ULT: return x < y;
        case O_ULE: return x <= y;
        case O_SLT: return sextTo(x, aw) < sextTo(y, aw);
        case O_SLE: return sextTo(x, aw) <= sextTo(y, aw);
        case O_CONCAT: return (x << eb->w) | y;
        case O_EXTRACT: return (x >> (unsigned)k) & M;
        case O_ZEXT: return x;
        case O_SEXT: return (u128)sextTo(x, aw) & M;
        default: abort();
        }
    }

    // ---- smart constructors ----
    static bool isC(E e) { return e->op == O_CONST; }
    static bool isC(E e, u128 v) { return e->op == O_CONST && e->k == (v & maskOf(e->w)); }
    E T() { return cst(1, 1); }
    E F() { return cst(0, 1); }
    static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }

    E neg(E a) { return bin(O_SUB, cst(0, a->w), a); }
    E bnot(E a) {
        if (isC(a)) return cst(~a->k, a->w);
        if (a->op == O_NOT) return a->a;
        if (a->w == 1) {
            if (a->op == O_ULT) return bin(O_ULE, a->b, a->a);
            if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
            if (a->op == O_SLT) return bin(O_SLE, a->b, a->a);
            if (a->op == O_SLE) return bin(O_SLT, a->b, a->a);
        }
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bnot(a->b), bnot(a->c));
        return intern(O_NOT, a->w, a, 0, 0, 0);
    }
    E eq(E a, E b) { return bin(O_EQ, a, b); }
    E ne(E a, E b) { return bnot(bin(O_EQ, a, b)); }
    E land(E a, E b) { return bin(O_AND, a, b); }
    E lor(E a, E b) { return bin(O_OR, a, b); }

    // upper bound on active bits (known leading zeros)
    unsigned topBits(E e, int d = 0) {
        switch (e->op) {
        case O_CONST: { unsigned n = 0; u128 v = e->k; while (v) { n++; v >>= 1; } return n; }
        case O_ZEXT: return topBits(e->a, d + 1);
        case O_CONCAT: if (isC(e->a, 0)) return topBits(e->b, d + 1); return d > 4 ? e->w : topBits(e->a, d + 1) + e->b->w;
        case O_AND: if (d > 4) return e->w; return std::min(topBits(e->a, d + 1), topBits(e->b, d + 1));
        case O_OR: case O_XOR: if (d > 4) return e->w; return std::max(topBits(e->a, d + 1), topBits(e->b, d + 1));
        case O_ITE: if (d > 4) return e->w; return std::max(topBits(e->b, d + 1), topBits(e->c, d + 1));
        case O_LSHR: if (isC(e->b) && d <= 4) { unsigned t = topBits(e->a, d + 1); return e->b->k >= t ? 0 : t - (unsigned)e->b->k; } return e->w;
        case O_ADD: { if (d > 4) return e->w; unsigned t = std::max(topBits(e->a, d + 1), topBits(e->b, d + 1)) + 1; return t > e->w ? e->w : t; }
        case O_MUL: { if (d > 4) return e->w; unsigned t = topBits(e->a, d + 1) + topBits(e->b, d + 1); return t > e->w ? e->w : t; }
        case O_UREM: if (d > 4) return e->w; return isC(e->b) && e->b->k ? std::min(topBits(e->a, d + 1), topBits(e->b, d + 1)) : e->w;
        case O_UDIV: if (d > 4) return e->w; return isC(e->b) && e->b->k ? topBits(e->a, d + 1) : e->w;
        default: return e->w;
        }
    }

    E bin(Op op, E a, E b) {
        if (isC(a) && isC(b)) {
            unsigned w = (op == O_EQ || op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE) ? 1 : (op == O_CONCAT ? a->w + b->w : a->w);
            return cst(apply(op, w, a, b, 0, a->k, b->k), w);
        }
        if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
        unsigned w = a->w;
        switch (op) {
        case O_ADD:
            if (isC(b, 0)) return a;
            if (w == 1) return bin(O_XOR, a, b);
            if (isC(b)) {
                if (a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, cst(a->b->k + b->k, w));
                if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            } else {
                if (a->op == O_ADD && isC(a->b)) return bin(O_ADD, bin(O_ADD, a->a, b), a->b);
                if (b->op == O_ADD && isC(b->b)) return bin(O_ADD, bin(O_ADD, a, b->a), b->b);
            }
            break;
        case O_SUB:
            if (isC(b)) return bin(O_ADD, a, cst(0 - b->k, w));
            if (a == b) return cst(0, w);
            if (w == 1) return bin(O_XOR, a, b);
            if (a->op == O_ADD && a->a == b) return a->b;
            if (a->op == O_ADD && a->b == b) return a->a;
            if (a->op == O_ADD && isC(a->b)) return bin(O_ADD, bin(O_SUB, a->a, b), a->b);
            if (b->op == O_ADD && isC(b->b)) return bin(O_ADD, bin(O_SUB, a, b->a), cst(0 - b->b->k, w));
            break;
        case O_MUL:
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (w == 1) return bin(O_AND, a, b);
            if (isC(b)) {
                u128 k = b->k;
                if ((k & (k - 1)) == 0) { unsigned s = 0; while ((k >> s) != 1) s++; return bin(O_SHL, a, cst(s, w)); }
                if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            }
            break;
        case O_UDIV:
            if (isC(b, 1)) return a;
            if (isC(b) && b->k) {
                u128 k = b->k;
                if ((k & (k - 1)) == 0) { unsigned s = 0; while ((k >> s) != 1) s++; return bin(O_LSHR, a, cst(s, w)); }
                unsigned t = topBits(a);
                if (t < w) { unsigned nw = std::max(t, topBits(b)); if (nw == 0) nw = 1; if (nw < w) return zext(bin(O_UDIV, extract(a, 0, nw), extract(b, 0, nw)), w); }
            }
            break;
        case O_UREM:
            if (isC(b, 1)) return cst(0, w);
            if (isC(b) && b->k) {
                u128 k = b->k;
                if ((k & (k - 1)) == 0) return bin(O_AND, a, cst(k - 1, w));
                unsigned t = topBits(a);
                if (t < topBits(b)) return a;
                if (t < w) { unsigned nw = std::max(t, topBits(b)); if (nw < w) return zext(bin(O_UREM, extract(a, 0, nw), extract(b, 0, nw)), w); }
            }
            break;
        case O_AND:
            if (a == b) return a;
            if (isC(b, 0)) return b;
            if (isC(b, ~(u128)0)) return a;
            if (isC(b)) {
                if (a->op == O_AND && isC(a->b)) return bin(O_AND, a->a, cst(a->b->k & b->k, w));
                if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
                // low mask
                u128 k = b->k;
                if ((k & (k + 1)) == 0) { unsigned n = 0; while (k) { n++; k >>= 1; } return zext(extract(a, 0, n), w); }
                unsigned t = topBits(b);
                if (t < w) return zext(bin(O_AND, extract(a, 0, t), cst(b->k, t)), w);
            }
            if (w == 1) {
                if (a->op == O_NOT && a->a == b) return F();
                if (b->op == O_NOT && b->a == a) return F();
                if (a->op == O_AND && (a->a == b || a->b == b)) return a;
                if (b->op == O_AND && (b->a == a || b->b == a)) return b;
                // x==c1 && x==c2
                if (a->op == O_EQ && b->op == O_EQ && a->a == b->a && isC(a->b) && isC(b->b)) return F();
            }
            break;
        case O_OR:
            if (a == b) return a;
            if (isC(b, 0)) return a;
            if (isC(b, ~(u128)0)) return b;
            if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            if (w == 1) {
                if (a->op == O_NOT && a->a == b) return T();
                if (b->op == O_NOT && b->a == a) return T();
                if (a->op == O_OR && (a->a == b || a->b == b)) return a;
                if (b->op == O_OR && (b->a == a || b->b == a)) return b;
            } else {
                // disjoint pieces: (x << k) | zext(y)
                if (E r = orConcat(a, b)) return r;
                if (E r = orConcat(b, a)) return r;
            }
            break;
        case O_XOR:
            if (a == b) return cst(0, w);
            if (isC(b, 0)) return a;
            if (isC(b, ~(u128)0)) return bnot(a);
            if (isC(b)) {
                if (a->op == O_XOR && isC(a->b)) return bin(O_XOR, a->a, cst(a->b->k ^ b->k, w));
                if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            }
            if (w == 1) { return bnot(bin(O_EQ, a, b)); }
            break;
        case O_SHL:
            if (isC(b)) {
                if (b->k == 0) return a;
                if (b->k >= w) return cst(0, w);
                unsigned s = (unsigned)b->k;
                return bin(O_CONCAT, extract(a, 0, w - s), cst(0, s));
            }
            if (isC(a, 0)) return a;
            break;
        case O_LSHR:
            if (isC(b)) {
                if (b->k == 0) return a;
                if (b->k >= w) return cst(0, w);
                unsigned s = (unsigned)b->k;
                return zext(extract(a, s, w - s), w);
            }
            if (isC(a, 0)) return a;
            break;
        case O_ASHR:
            if (isC(b)) {
                if (b->k == 0) return a;
                unsigned s = b->k >= w ? w - 1 : (unsigned)b->k;
                if (s == 0) return a;
                return sext(extract(a, s, w - s), w);
            }
            break;
        case O_EQ:
            if (a == b) return T();
            if (w == 1) {
                if (isC(b, 1)) return a;
                if (isC(b, 0)) return bnot(a);
                if (a->op == O_NOT && a->a == b) return F();
                if (b->op == O_NOT && b->a == a) return F();
            }
            if (isC(b)) {
                switch (a->op) {
                case O_ZEXT: if (b->k > maskOf(a->a->w)) return F(); return bin(O_EQ, a->a, cst(b->k, a->a->w));
                case O_SEXT: { u128 t = b->k & maskOf(a->a->w); if (((u128)sextTo(t, a->a->w) & maskOf(w)) != b->k) return F(); return bin(O_EQ, a->a, cst(t, a->a->w)); }
                case O_CONCAT: { E lo = bin(O_EQ, a->b, cst(b->k, a->b->w)); E hi = bin(O_EQ, a->a, cst(b->k >> a->b->w, a->a->w)); return bin(O_AND, hi, lo); }
                case O_ADD: if (isC(a->b)) return bin(O_EQ, a->a, cst(b->k - a->b->k, w)); break;
                case O_SUB: if (isC(a->a)) return bin(O_EQ, a->b, cst(a->a->k - b->k, w)); if (isC(b, 0)) return bin(O_EQ, a->a, a->b); break;
                case O_XOR: if (isC(a->b)) return bin(O_EQ, a->a, cst(b->k ^ a->b->k, w)); if (isC(b, 0)) return bin(O_EQ, a->a, a->b); break;
                case O_NOT: return bin(O_EQ, a->a, cst(~b->k, w));
                case O_ITE:
                    if (isC(a->b) || isC(a->c)) {
                        E x = bin(O_EQ, a->b, b), y = bin(O_EQ, a->c, b);
                        if (isC(x) || isC(y)) return ite(a->a, x, y);
                    }
                    break;
                case O_OR: if (isC(b, 0)) return bin(O_AND, bin(O_EQ, a->a, b), bin(O_EQ, a->b, b)); break;
                default: break;
                }
            } else {
                if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
                if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
                if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b)) return bin(O_EQ, a->a, bin(O_ADD, b->a, cst(b->b->k - a->b->k, w)));
                if (a->op == O_ADD && (a->a == b)) return bin(O_EQ, a->b, cst(0, w));
                if (a->op == O_ADD && (a->b == b)) return bin(O_EQ, a->a, cst(0, w));
                if (b->op == O_ADD && (b->a == a)) return bin(O_EQ, b->b, cst(0, w));
                if (b->op == O_ADD && (b->b == a)) return bin(O_EQ, b->a, cst(0, w));
                if (a->op == O_CONCAT && b->op == O_CONCAT && a->a->w == b->a->w) return bin(O_AND, bin(O_EQ, a->a, b->a), bin(O_EQ, a->b, b->b));
            }
            break;
        case O_ULT:
            if (a == b) return F();
            if (isC(b, 0)) return F();
            if (isC(b, 1)) return bin(O_EQ, a, cst(0, w));
            if (isC(a, 0)) return bnot(bin(O_EQ, b, a));
            if (isC(a, ~(u128)0)) return F();
            if (E r = cmpNarrow(op, a, b)) return r;
            break;
        case O_ULE:
            if (a == b) return T();
            if (isC(a, 0)) return T();
            if (isC(b, 0)) return bin(O_EQ, a, b);
            if (isC(b, ~(u128)0)) return T();
            if (E r = cmpNarrow(op, a, b)) return r;
            break;
        case O_SLT: case O_SLE: {
            if (a == b) return op == O_SLE ? T() : F();
            // both non-negative -> unsigned
            if (topBits(a) < w && topBits(b) < w) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
            if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
            if (a->op == O_SEXT && isC(b)) {
                unsigned n = a->a->w; i128 v = sextTo(b->k, w), lo = sextTo((u128)1 << (n - 1), n), hi = (i128)maskOf(n - 1);
                if (v < lo) return F();
                if (v > hi) return T();
                return bin(op, a->a, cst((u128)v, n));
            }
            if (b->op == O_SEXT && isC(a)) {
                unsigned n = b->a->w; i128 v = sextTo(a->k, w), lo = sextTo((u128)1 << (n - 1), n), hi = (i128)maskOf(n - 1);
                if (v < lo) return T();
                if (v > hi) return F();
                return bin(op, cst((u128)v, n), b->a);
            }
            if (topBits(a) < w && isC(b) && (b->k >> (w - 1))) return F();
            if (topBits(b) < w && isC(a) && (a->k >> (w - 1))) return T();
            if (a->op == O_ITE && isC(a->b) && isC(a->c) && isC(b)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            break;
        }
        case O_CONCAT:
            if (isC(a, 0)) return zext(b, a->w + b->w);
            if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && (u32)a->k == (u32)b->k + b->w) return extract(a->a, (u32)b->k, a->w + b->w);
            // low-level reassociation: concat(concat(x, y), z) with y,z adjacent
            if (a->op == O_CONCAT && a->b->op == O_EXTRACT && b->op == O_EXTRACT && a->b->a == b->a && (u32)a->b->k == (u32)b->k + b->w)
                return bin(O_CONCAT, a->a, extract(b->a, (u32)b->k, a->b->w + b->w));
            if (isC(a) && b->op == O_CONCAT && isC(b->a)) return bin(O_CONCAT, bin(O_CONCAT, a, b->a), b->b);
            if (a->op == O_CONCAT && isC(a->b) && isC(b)) return bin(O_CONCAT, a->a, bin(O_CONCAT, a->b, b));
            if (a->op == O_ZEXT) return zext(bin(O_CONCAT, a->a, b), a->w + b->w);
            return intern(O_CONCAT, a->w + b->w, a, b, 0, 0);
        default: break;
        }
        bool cmp = op == O_EQ || op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE;
        return intern(op, cmp ? 1 : w, a, b, 0, 0);
    }
    E orConcat(E a, E b) {
        // a = concat(x, 0_n), b fits in n bits
        if (a->op == O_CONCAT && isC(a->b, 0)) {
            unsigned n = a->b->w;
            if (topBits(b) <= n) return bin(O_CONCAT, a->a, extract(b, 0, n));
        }
        if (a->op == O_ZEXT && a->a->op == O_CONCAT && isC(a->a->b, 0)) {
            unsigned n = a->a->b->w;
            if (topBits(b) <= n) return zext(bin(O_CONCAT, a->a->a, extract(b, 0, n)), a->w);
        }
        return nullptr;
    }
    E cmpNarrow(Op op, E a, E b) {
        unsigned w = a->w;
        if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        if (isC(a) && b->op == O_ITE && isC(b->b) && isC(b->c)) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
        unsigned ta = topBits(a), tb = topBits(b);
        if (isC(b) && b->k > maskOf(ta)) return T();
        if (isC(a) && a->k > maskOf(tb)) return F();
        unsigned n = std::max(ta, tb);
        if (n == 0) n = 1;
        if (n < w && (a->op == O_ZEXT || isC(a)) && (b->op == O_ZEXT || isC(b))) {
            unsigned m = std::max(a->op == O_ZEXT ? a->a->w : ta, b->op == O_ZEXT ? b->a->w : tb);
            if (m < w && m > 0) return bin(op, extract(a, 0, m), extract(b, 0, m));
        }
        return nullptr;
    }
    E rawExtract(E a, unsigned lo, unsigned n) { return lo == 0 && n == a->w ? a : intern(O_EXTRACT, n, a, 0, 0, lo); }
    E extract(E a, unsigned lo, unsigned n) {
        if (lo == 0 && n == a->w) return a;
        if (isC(a)) return cst(a->k >> lo, n);
        switch (a->op) {
        case O_EXTRACT: return extract(a->a, lo + (u32)a->k, n);
        case O_CONCAT:
            if (lo + n <= a->b->w) return extract(a->b, lo, n);
            if (lo >= a->b->w) return extract(a->a, lo - a->b->w, n);
            return bin(O_CONCAT, extract(a->a, 0, lo + n - a->b->w), extract(a->b, lo, a->b->w - lo));
        case O_ZEXT:
            if (lo >= a->a->w) return cst(0, n);
            if (lo + n <= a->a->w) return extract(a->a, lo, n);
            return zext(extract(a->a, lo, a->a->w - lo), n);
        case O_SEXT:
            if (lo + n <= a->a->w) return extract(a->a, lo, n);
            if (lo == 0) return sext(a->a, n);
            break;
        case O_ITE:
            if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, lo, n), extract(a->c, lo, n));
            break;
        case O_AND: case O_OR: case O_XOR:
            return bin(a->op, extract(a->a, lo, n), extract(a->b, lo, n));
        case O_NOT: return bnot(extract(a->a, lo, n));
        case O_ADD: case O_SUB: case O_MUL:
            if (lo == 0) return bin(a->op, extract(a->a, 0, n), extract(a->b, 0, n));
            break;
        default: break;
        }
        return intern(O_EXTRACT, n, a, 0, 0, lo);
    }
    E zext(E a, unsigned w) {
        if (w == a->w) return a;
        if (w < a->w) return extract(a, 0, w);
        if (isC(a)) return cst(a->k, w);
        if (a->op == O_ZEXT) return zext(a->a, w);
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
        return intern(O_ZEXT, w, a, 0, 0, 0);
    }
    E sext(E a, unsigned w) {
        if (w == a->w) return a;
        if (w < a->w) return extract(a, 0, w);
        if (isC(a)) return cst((u128)sextTo(a->k, a->w), w);
        if (a->op == O_SEXT) return sext(a->a, w);
        if (a->op == O_ZEXT) return zext(a->a, w);
        if (topBits(a) < a->w) return zext(a, w);
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return intern(O_SEXT, w, a, 0, 0, 0);
    }
    E ite(E c, E a, E b) {
        if (isC(c)) return c->k ? a : b;
        if (a == b) return a;
        if (c->op == O_NOT) return ite(c->a, b, a);
        if (a->w == 1) {
            if (isC(a, 1) && isC(b, 0)) return c;
            if (isC(a, 0) && isC(b, 1)) return bnot(c);
            if (isC(a, 1)) return bin(O_OR, c, b);
            if (isC(a, 0)) return bin(O_AND, bnot(c), b);
            if (isC(b, 1)) return bin(O_OR, bnot(c), a);
            if (isC(b, 0)) return bin(O_AND, c, a);
        }
        if (a->op == O_ITE && a->a == c) return ite(c, a->b, b);
        if (b->op == O_ITE && b->a == c) return ite(c, a, b->c);
        return intern(O_ITE, a->w, c, a, b, 0);
    }
};
