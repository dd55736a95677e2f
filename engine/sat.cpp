// Incremental SAT back end for pure bit-vector queries: terms are translated to gates once (structural
// hashing), path constraints become assumptions, learned clauses are kept between queries. Every "sat"
// answer is checked by evaluating the constraints under the model before it is used.
#include "sat.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>

namespace {
typedef int Lit; // 2*var + sign
inline Lit neg(Lit l) { return l ^ 1; }
inline int var(Lit l) { return l >> 1; }

struct Clause { float act; uint32_t learnt : 1, n : 31; Lit l[1]; };
struct Watch { uint32_t c; Lit blocker; };

struct Sat {
    std::vector<uint32_t> pool; // clause storage: [act bits][n<<1|learnt][lits...]
    std::vector<uint32_t> learnts;
    std::vector<std::vector<Watch>> watches;
    std::vector<int8_t> val;   // per literal: 0 unknown, 1 true, -1 false
    std::vector<int> level; std::vector<uint32_t> reason; // clause ref or ~0
    std::vector<int8_t> phase, seen;
    std::vector<double> act; double inc = 1;
    std::vector<Lit> trail; std::vector<int> lim; size_t qhead = 0;
    std::vector<int> heap, hpos;
    std::vector<uint32_t> cone; uint32_t stamp = 0;
    std::vector<std::pair<Lit, Lit>> fan; // gate inputs per variable (-1: input)
    std::vector<Lit> fan3;
    bool ok = true;
    uint64_t conflicts = 0, props = 0; size_t coneSize = 0;

    int newVar(Lit a = -1, Lit b = -1, Lit c = -1) {
        int v = (int) level.size();
        level.push_back(0); reason.push_back(~0u); phase.push_back(0); seen.push_back(0); act.push_back(0); hpos.push_back(-1); cone.push_back(0);
        val.push_back(0); val.push_back(0); watches.emplace_back(); watches.emplace_back(); fan.push_back({a, b}); fan3.push_back(c);
        return v;
    }
    Lit* lits(uint32_t c) { return (Lit*) &pool[c + 2]; }
    uint32_t size(uint32_t c) { return pool[c + 1] >> 1; }
    uint32_t alloc(const std::vector<Lit>& ls, bool learnt) {
        uint32_t c = (uint32_t) pool.size();
        pool.push_back(0); pool.push_back((uint32_t) ls.size() << 1 | learnt);
        for (Lit l : ls) pool.push_back((uint32_t) l);
        watches[neg(ls[0])].push_back({c, ls[1]}); watches[neg(ls[1])].push_back({c, ls[0]});
        return c;
    }
    void addClause(std::vector<Lit> ls) { // at level 0
        backtrack(0);
        std::sort(ls.begin(), ls.end());
        std::vector<Lit> o; Lit p = -2;
        for (Lit l : ls) { if (val[l] == 1 || l == neg(p)) return; if (val[l] != -1 && l != p) { o.push_back(l); p = l; } }
        if (o.empty()) { ok = false; return; }
        if (o.size() == 1) { enqueue(o[0], ~0u); if (propagate() != ~0u) ok = false; return; }
        alloc(o, false);
    }
    void enqueue(Lit l, uint32_t r) { val[l] = 1; val[neg(l)] = -1; level[var(l)] = (int) lim.size(); reason[var(l)] = r; trail.push_back(l); }
    uint32_t propagate() {
        while (qhead < trail.size()) {
            Lit p = trail[qhead++]; props++;
            auto& ws = watches[p];
            size_t i = 0, j = 0;
            while (i < ws.size()) {
                Watch w = ws[i];
                if (val[w.blocker] == 1) { ws[j++] = ws[i++]; continue; }
                Lit* L = lits(w.c); uint32_t n = size(w.c);
                Lit np = neg(p);
                if (L[0] == np) std::swap(L[0], L[1]);
                i++;
                if (L[0] != w.blocker && val[L[0]] == 1) { ws[j++] = {w.c, L[0]}; continue; }
                bool found = false;
                for (uint32_t k = 2; k < n; k++) if (val[L[k]] != -1) {
                    std::swap(L[1], L[k]); watches[neg(L[1])].push_back({w.c, L[0]}); found = true; break;
                }
                if (found) continue;
                ws[j++] = {w.c, L[0]};
                if (val[L[0]] == -1) { while (i < ws.size()) ws[j++] = ws[i++]; ws.resize(j); qhead = trail.size(); return w.c; }
                // gates outside the cone of the query follow from their inputs and are left unassigned
                if (lim.empty() || cone[var(L[0])] == stamp) enqueue(L[0], w.c);
            }
            ws.resize(j);
        }
        return ~0u;
    }
    // heap of decision variables
    bool lt(int a, int b) { return act[a] > act[b]; }
    void up(int i) { int x = heap[i]; while (i > 0) { int p = (i - 1) / 2; if (!lt(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
    void down(int i) { int x = heap[i]; for (;;) { int c = 2 * i + 1; if (c >= (int) heap.size()) break; if (c + 1 < (int) heap.size() && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
    void insert(int v) { if (hpos[v] >= 0 || cone[v] != stamp) return; heap.push_back(v); hpos[v] = (int) heap.size() - 1; up(hpos[v]); }
    int pop() { int v = heap[0]; int l = heap.back(); heap.pop_back(); hpos[v] = -1; if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return v; }
    void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
    void backtrack(int lv) {
        if ((int) lim.size() <= lv) return;
        for (size_t i = trail.size(); i-- > (size_t) lim[lv];) { Lit l = trail[i]; val[l] = val[neg(l)] = 0; phase[var(l)] = !(l & 1); insert(var(l)); }
        trail.resize(lim[lv]); lim.resize(lv); qhead = trail.size();
    }
    void analyze(uint32_t c, std::vector<Lit>& out, int& bt) {
        out.clear(); out.push_back(0);
        int cnt = 0; Lit p = -1; size_t idx = trail.size();
        std::vector<int> clear;
        do {
            Lit* L = lits(c); uint32_t n = size(c);
            if (pool[c + 1] & 1) { float a; memcpy(&a, &pool[c], 4); a += 1; memcpy(&pool[c], &a, 4); }
            for (uint32_t k = 0; k < n; k++) {
                Lit q = L[k];
                if (q == p || seen[var(q)] || level[var(q)] == 0) continue;
                seen[var(q)] = 1; clear.push_back(var(q)); bump(var(q));
                if (level[var(q)] >= (int) lim.size()) cnt++; else out.push_back(q);
            }
            while (!seen[var(trail[--idx])]);
            p = trail[idx]; c = reason[var(p)]; seen[var(p)] = 0; cnt--;
        } while (cnt > 0);
        out[0] = neg(p);
        // local minimisation
        size_t j = 1;
        for (size_t i = 1; i < out.size(); i++) {
            uint32_t r = reason[var(out[i])]; bool keep = r == ~0u;
            if (!keep) { Lit* L = lits(r); uint32_t n = size(r); for (uint32_t k = 0; k < n && !keep; k++) if (var(L[k]) != var(out[i]) && !seen[var(L[k])] && level[var(L[k])] > 0) keep = true; }
            if (keep) out[j++] = out[i];
        }
        out.resize(j);
        bt = 0; size_t m = 1;
        for (size_t i = 1; i < out.size(); i++) if (level[var(out[i])] > bt) { bt = level[var(out[i])]; m = i; }
        if (out.size() > 1) std::swap(out[1], out[m]);
        for (int v : clear) seen[v] = 0;
    }
    void reduce() {
        std::vector<std::pair<float, uint32_t>> s;
        for (uint32_t c : learnts) { float a; memcpy(&a, &pool[c], 4); s.push_back({a, c}); }
        std::sort(s.begin(), s.end());
        std::vector<uint32_t> keep; std::vector<bool> dummy;
        std::set<uint32_t> dead;
        for (size_t i = 0; i < s.size(); i++) {
            uint32_t c = s[i].second; bool locked = reason[var(lits(c)[0])] == c && val[lits(c)[0]] == 1;
            if (i < s.size() / 2 && size(c) > 2 && !locked) dead.insert(c); else { keep.push_back(c); float a = s[i].first * 0.5f; memcpy(&pool[c], &a, 4); }
        }
        for (auto& ws : watches) { size_t j = 0; for (auto& w : ws) if (!dead.count(w.c)) ws[j++] = w; ws.resize(j); }
        learnts = keep;
    }
    static double luby(double y, int x) { int size, seq; for (size = 1, seq = 0; size < x + 1; seq++, size = 2 * size + 1); while (size - 1 != x) { size = (size - 1) >> 1; seq--; x = x % size; } return pow(y, seq); }
    // 1 sat, 0 unsat, -1 unknown
    int solve(const std::vector<Lit>& assume, double secs) {
        stamp++; backtrack(0);
        if (!ok) { fprintf(stderr, "sat: inconsistent definitions\n"); abort(); }
        // the cone of influence of the assumptions
        stamp++; heap.clear(); std::fill(hpos.begin(), hpos.end(), -1);
        std::vector<int> todo; size_t total = 0;
        auto push = [&](Lit l) { if (l >= 0 && cone[var(l)] != stamp) { cone[var(l)] = stamp; todo.push_back(var(l)); } };
        for (Lit l : assume) push(l);
        while (!todo.empty()) { int v = todo.back(); todo.pop_back(); total++; push(fan[v].first); push(fan[v].second); push(fan3[v]); if (val[2 * v] == 0) insert(v); }
        coneSize = total;
        auto t0 = std::chrono::steady_clock::now();
        uint64_t c0 = conflicts; int restarts = 0; uint64_t budget = 100, used = 0; size_t maxLearnt = 4000 + total / 10;
        std::vector<Lit> learnt;
        for (;;) {
            uint32_t cf = propagate();
            if (cf != ~0u) {
                conflicts++; used++;
                if (lim.empty()) { fprintf(stderr, "sat: inconsistent definitions\n"); abort(); }
                int bt; analyze(cf, learnt, bt);
                backtrack(bt);
                if (learnt.size() == 1) { backtrack(0); if (val[learnt[0]] == -1) { fprintf(stderr, "sat: inconsistent definitions\n"); abort(); } if (!val[learnt[0]]) enqueue(learnt[0], ~0u); }
                else { uint32_t c = alloc(learnt, true); learnts.push_back(c); enqueue(learnt[0], c); float a = 1; memcpy(&pool[c], &a, 4); }
                inc *= 1 / 0.95;
                if ((conflicts & 127) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { backtrack(0); return -1; }
                continue;
            }
            if (used >= budget) { used = 0; budget = (uint64_t) (luby(2, ++restarts) * 100); backtrack(0); if (learnts.size() > maxLearnt) { reduce(); maxLearnt += 1000; } continue; }
            if (lim.size() < assume.size()) {
                Lit l = assume[lim.size()];
                if (val[l] == -1) return 0;
                lim.push_back((int) trail.size());
                if (!val[l]) enqueue(l, ~0u);
                continue;
            }
            Lit next = -1;
            while (!heap.empty()) { int v = pop(); if (val[2 * v] == 0) { next = 2 * v + !phase[v]; break; } }
            if (next < 0) return 1;
            lim.push_back((int) trail.size());
            enqueue(next, ~0u);
        }
        (void) c0;
    }
};

struct Blaster {
    Sat s;
    Lit T;
    std::unordered_map<uint64_t, Lit> ands, xors;
    std::unordered_map<N, std::vector<Lit>> cache;
    std::unordered_map<N, std::vector<N>> selects; // SELECT / UF applications below a term
    std::map<uint32_t, std::vector<Lit>> vars;
    bool unsupported = false;
    Blaster() { int v = s.newVar(); T = 2 * v; s.addClause({T}); }
    Lit F() { return neg(T); }
    Lit And(Lit a, Lit b) {
        if (a == F() || b == F() || a == neg(b)) return F();
        if (a == T || a == b) return b;
        if (b == T) return a;
        if (a > b) std::swap(a, b);
        uint64_t k = (uint64_t) a << 32 | (uint32_t) b;
        auto it = ands.find(k); if (it != ands.end()) return it->second;
        Lit r = 2 * s.newVar(a, b);
        s.addClause({neg(r), a}); s.addClause({neg(r), b}); s.addClause({r, neg(a), neg(b)});
        return ands[k] = r;
    }
    Lit Or(Lit a, Lit b) { return neg(And(neg(a), neg(b))); }
    Lit Xor(Lit a, Lit b) {
        if (a == F()) return b; if (b == F()) return a;
        if (a == T) return neg(b); if (b == T) return neg(a);
        if (a == b) return F(); if (a == neg(b)) return T;
        bool sgn = (a & 1) ^ (b & 1); a &= ~1; b &= ~1;
        if (a > b) std::swap(a, b);
        uint64_t k = (uint64_t) a << 32 | (uint32_t) b;
        auto it = xors.find(k); Lit r;
        if (it != xors.end()) r = it->second;
        else {
            r = 2 * s.newVar(a, b);
            s.addClause({neg(r), a, b}); s.addClause({neg(r), neg(a), neg(b)}); s.addClause({r, neg(a), b}); s.addClause({r, a, neg(b)});
            xors[k] = r;
        }
        return r ^ (sgn ? 1 : 0);
    }
    Lit Mux(Lit c, Lit a, Lit b) {
        if (c == T) return a; if (c == F()) return b; if (a == b) return a;
        if (a == T) return Or(c, b); if (a == F()) return And(neg(c), b);
        if (b == T) return Or(neg(c), a); if (b == F()) return And(c, a);
        if (a == neg(b)) return Xor(neg(c), a);
        return Or(And(c, a), And(neg(c), b));
    }
    typedef std::vector<Lit> V;
    V cst(u128 c, uint32_t w) { V r(w); for (uint32_t i = 0; i < w; i++) r[i] = (c >> i & 1) ? T : F(); return r; }
    V add(const V& a, const V& b, Lit cin) { V r(a.size()); Lit c = cin; for (size_t i = 0; i < a.size(); i++) { Lit x = Xor(a[i], b[i]); r[i] = Xor(x, c); if (i + 1 < a.size()) c = Or(And(a[i], b[i]), And(x, c)); } return r; }
    V inv(const V& a) { V r(a); for (auto& l : r) l = neg(l); return r; }
    V mux(Lit c, const V& a, const V& b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = Mux(c, a[i], b[i]); return r; }
    Lit ult(const V& a, const V& b) { Lit r = F(); for (size_t i = 0; i < a.size(); i++) r = Mux(Xor(a[i], b[i]), b[i], r); return r; }
    Lit eq(const V& a, const V& b) { Lit r = T; for (size_t i = 0; i < a.size(); i++) r = And(r, neg(Xor(a[i], b[i]))); return r; }
    V shift(const V& a, const V& sh, int kind) { // 0 left, 1 logical right, 2 arithmetic right
        V r = a; size_t w = a.size(); Lit fill = kind == 2 ? a[w - 1] : F(); Lit big = F();
        for (size_t b = 0; b < sh.size(); b++) {
            if (b >= 8 || ((size_t) 1 << b) >= w) { big = Or(big, sh[b]); continue; }
            size_t d = (size_t) 1 << b; V n(w);
            for (size_t i = 0; i < w; i++) { Lit from = kind == 0 ? (i >= d ? r[i - d] : F()) : (i + d < w ? r[i + d] : fill); n[i] = Mux(sh[b], from, r[i]); }
            r = n;
        }
        for (auto& l : r) l = Mux(big, fill, l);
        return r;
    }
    void divide(const V& a, const V& d, V& q, V& r) {
        size_t w = a.size(); V rem = cst(0, (uint32_t) w + 1), dd = d; dd.push_back(F()); q = V(w);
        for (size_t i = w; i-- > 0;) {
            V sh(w + 1); sh[0] = a[i]; for (size_t k = 1; k <= w; k++) sh[k] = rem[k - 1];
            Lit ge = neg(ult(sh, dd)); q[i] = ge;
            rem = mux(ge, add(sh, inv(dd), T), sh);
        }
        r = V(rem.begin(), rem.begin() + w);
    }
    V absv(const V& a) { return mux(a.back(), add(inv(a), cst(0, (uint32_t) a.size()), T), a); }
    V negv(const V& a) { return add(inv(a), cst(0, (uint32_t) a.size()), T); }
    V of(const Val& v) { if (!v.n) return cst(v.c, v.w); return node(v.n); }
    const V& node(N n) {
        auto it = cache.find(n); if (it != cache.end()) return it->second;
        // iterative over deep terms: translate children first
        std::vector<std::pair<N, size_t>> st; st.push_back({n, 0});
        while (!st.empty()) {
            N x = st.back().first; size_t& i = st.back().second;
            if (i < x->k.size()) { N c = x->k[i++].n; if (c && !cache.count(c)) st.push_back({c, 0}); continue; }
            st.pop_back();
            if (!cache.count(x)) { V r = build(x); cache[x] = r; }
        }
        return cache[n];
    }
    V build(N n) {
        auto k = [&](int i) { return of(n->k[i]); };
        switch (n->op) {
        case Op::VAR: { auto& v = vars[(uint32_t) n->aux]; if (v.empty()) for (uint32_t i = 0; i < n->w; i++) v.push_back(2 * s.newVar()); return v; }
        case Op::SELECT: { V v; for (uint32_t i = 0; i < n->w; i++) v.push_back(2 * s.newVar()); return v; }
        case Op::ADD: return add(k(0), k(1), F());
        case Op::SUB: return add(k(0), inv(k(1)), T);
        case Op::MUL: {
            V a = k(0), b = k(1); auto cnt = [&](const V& v) { size_t c = 0; for (Lit l : v) c += l != F(); return c; };
            if (cnt(a) < cnt(b)) std::swap(a, b);
            V r = cst(0, n->w);
            for (size_t i = 0; i < b.size(); i++) { if (b[i] == F()) continue; V t = cst(0, n->w); for (size_t j = 0; i + j < t.size(); j++) t[i + j] = And(a[j], b[i]); r = add(r, t, F()); }
            return r;
        }
        case Op::UDIV: { V q, r; divide(k(0), k(1), q, r); return q; }
        case Op::UREM: { V q, r; divide(k(0), k(1), q, r); return r; }
        case Op::SDIV: { V a = k(0), b = k(1), q, r; divide(absv(a), absv(b), q, r); return mux(Xor(a.back(), b.back()), negv(q), q); }
        case Op::SREM: { V a = k(0), b = k(1), q, r; divide(absv(a), absv(b), q, r); return mux(a.back(), negv(r), r); }
        case Op::AND: { V a = k(0), b = k(1); for (size_t i = 0; i < a.size(); i++) a[i] = And(a[i], b[i]); return a; }
        case Op::OR: { V a = k(0), b = k(1); for (size_t i = 0; i < a.size(); i++) a[i] = Or(a[i], b[i]); return a; }
        case Op::XOR: { V a = k(0), b = k(1); for (size_t i = 0; i < a.size(); i++) a[i] = Xor(a[i], b[i]); return a; }
        case Op::SHL: return shift(k(0), k(1), 0);
        case Op::LSHR: return shift(k(0), k(1), 1);
        case Op::ASHR: return shift(k(0), k(1), 2);
        case Op::CONCAT: { V hi = k(0), lo = k(1); for (size_t i = 2; i < n->k.size(); i++) unsupported = true; lo.insert(lo.end(), hi.begin(), hi.end()); return lo; }
        case Op::EXTRACT: { V a = k(0); return V(a.begin() + n->aux, a.begin() + n->aux + n->w); }
        case Op::ZEXT: { V a = k(0); a.resize(n->w, F()); return a; }
        case Op::SEXT: { V a = k(0); a.resize(n->w, a.back()); return a; }
        case Op::EQ: return {eq(k(0), k(1))};
        case Op::ULT: return {ult(k(0), k(1))};
        case Op::ULE: return {neg(ult(k(1), k(0)))};
        case Op::SLT: { V a = k(0), b = k(1); a.back() = neg(a.back()); b.back() = neg(b.back()); return {ult(a, b)}; }
        case Op::SLE: { V a = k(0), b = k(1); a.back() = neg(a.back()); b.back() = neg(b.back()); return {neg(ult(b, a))}; }
        case Op::ITE: { V c = k(0); return mux(c[0], k(1), k(2)); }
        default: unsupported = true; return cst(0, n->w);
        }
    }
};
Blaster* g_b = nullptr;
std::unordered_map<N, bool> g_supported;
bool supported(N n) {
    auto it = g_supported.find(n); if (it != g_supported.end()) return it->second;
    std::vector<std::pair<N, size_t>> st; st.push_back({n, 0});
    while (!st.empty()) {
        N x = st.back().first; size_t& i = st.back().second;
        if (i < x->k.size()) { N c = x->k[i++].n; if (c && !g_supported.count(c)) st.push_back({c, 0}); continue; }
        st.pop_back();
        bool ok = true;
        for (auto& c : x->k) if (c.n && !g_supported[c.n]) ok = false;
        switch (x->op) {
        case Op::VAR: case Op::ADD: case Op::SUB: case Op::AND: case Op::OR: case Op::XOR: case Op::SHL: case Op::LSHR: case Op::ASHR: case Op::EXTRACT: case Op::ZEXT: case Op::SEXT:
        case Op::EQ: case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE: case Op::ITE: break;
        case Op::CONCAT: if (x->k.size() != 2) ok = false; break;
        case Op::MUL: if (x->w > 16 && !x->k[0].isc() && !x->k[1].isc()) ok = false; break;
        case Op::UDIV: case Op::UREM: case Op::SDIV: case Op::SREM: if (!x->k[1].isc() && x->w > 16) ok = false; break;
        case Op::SELECT: if (g_vars[(uint32_t) x->aux].table) ok = false; break;
        default: ok = false;
        }
        g_supported[x] = ok;
    }
    return g_supported[n];
}
} // namespace

Res satCheck(const std::vector<Val>& pc, const Val& extra, double secs, Model* m) {
    for (auto& v : pc) if (v.n && !supported(v.n)) return Res::Unknown;
    if (extra.n && !supported(extra.n)) return Res::Unknown;
    if (g_b && (g_b->s.level.size() > 20000 + 5 * g_b->s.coneSize || g_b->s.pool.size() > 40000000)) { delete g_b; g_b = nullptr; }
    if (!g_b) g_b = new Blaster();
    Blaster& b = *g_b;
    b.s.stamp++; b.s.backtrack(0);
    std::vector<Lit> as; std::vector<N> sel; std::set<N> visited; std::vector<N> todo;
    auto add = [&](const Val& v) { as.push_back(b.of(v)[0]); if (v.n && visited.insert(v.n).second) todo.push_back(v.n); };
    for (auto& v : pc) add(v);
    add(extra);
    bool arrays = false;
    auto arr = [&](const Val& v) { if (v.n) for (uint32_t x : *v.n->vars) arrays |= g_vars[x].isArray; };
    for (auto& v : pc) arr(v); arr(extra);
    if (arrays) { // functional consistency of array reads
        while (!todo.empty()) { N n = todo.back(); todo.pop_back(); if (n->op == Op::SELECT) sel.push_back(n); for (auto& c : n->k) if (c.n && visited.insert(c.n).second) todo.push_back(c.n); }
        if (sel.size() > 60) return Res::Unknown;
        for (size_t i = 0; i < sel.size(); i++) for (size_t j = 0; j < i; j++) if (sel[i]->aux == sel[j]->aux && sel[i]->w == sel[j]->w) {
            Lit e = b.eq(b.of(sel[i]->k[0]), b.of(sel[j]->k[0]));
            if (e == b.F()) continue;
            as.push_back(b.Or(neg(e), b.eq(b.node(sel[i]), b.node(sel[j]))));
        }
    }
    if (b.unsupported) { delete g_b; g_b = nullptr; return Res::Unknown; }
    for (Lit l : as) if (l == b.F()) return Res::Unsat;
    int r = b.s.solve(as, secs);
    if (r == 0) return Res::Unsat;
    if (r < 0) return Res::Unknown;
    auto get = [&](const std::vector<Lit>& v) { u128 c = 0; for (size_t i = 0; i < v.size(); i++) if (b.s.val[v[i]] == 1) c |= (u128) 1 << i; return c; };
    Model mm;
    std::set<uint32_t> vs;
    auto coll = [&](const Val& v) { if (v.n) vs.insert(v.n->vars->begin(), v.n->vars->end()); };
    for (auto& v : pc) coll(v); coll(extra);
    for (uint32_t x : vs) if (!g_vars[x].isArray) { auto it = b.vars.find(x); if (it != b.vars.end()) mm.vars[x] = get(it->second); } else { mm.arrays[x]; mm.arrDefault[x] = 0; }
    for (N n : sel) mm.arrays[(uint32_t) n->aux][get(b.of(n->k[0]))] = get(b.node(n));
    b.s.stamp++; b.s.backtrack(0);
    std::unordered_map<N, u128> cache; u128 o;
    auto holds = [&](const Val& v) { return evalVal(v, mm, cache, o) && o; };
    for (auto& v : pc) if (!holds(v)) { fprintf(stderr, "sat: model rejected\n"); return Res::Unknown; }
    if (!holds(extra)) { fprintf(stderr, "sat: model rejected\n"); return Res::Unknown; }
    *m = mm;
    return Res::Sat;
}
