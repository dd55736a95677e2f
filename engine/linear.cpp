// Linear integer reasoning over bit-vector terms: an incomplete but fast refutation procedure tried before the SAT
// back end.  Terms are read as exact integers only where their bounds rule out wrap-around.
#include "expr.hpp"
#include <algorithm>
// constant + sum of coefficient * (non-negative opaque term)
struct Lin { i128 c = 0; std::map<N, i128> t; i128 lo = 0, hi = 0; };
static void bounds(Lin& l) {
    l.lo = l.hi = l.c;
    for (auto it = l.t.begin(); it != l.t.end();) {
        if (!it->second) { it = l.t.erase(it); continue; }
        i128 x = it->second * (i128) (~it->first->kz & maskw(it->first->w)); (x < 0 ? l.lo : l.hi) += x; ++it;
    }
}
static bool inRange(const Lin& l, unsigned w) { return l.lo >= 0 && l.hi <= (i128) maskw(w); }
// constraint: c + sum t <= 0
struct Ineq { i128 c; std::vector<std::pair<uint32_t, i128>> t; };
static i128 gcdi(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 x = a % b; a = b; b = x; } return a; }
static i128 ceilDiv(i128 a, i128 b) { return a >= 0 ? (a + b - 1) / b : -((-a) / b); }
static const i128 BIG = (i128) 1 << 110;
static bool tooBig(i128 x) { return x > BIG || x < -BIG; }
static bool normalise(Ineq& q) { // false: overflow
    i128 g = 0; for (auto& p : q.t) g = gcdi(g, p.second);
    if (g > 1) { for (auto& p : q.t) p.second /= g; q.c = ceilDiv(q.c, g); } // integers: c/g + sum <= 0, sum integral
    return true;
}
struct Refuter {
    std::map<N, uint32_t> ids; std::vector<N> names; std::vector<Ineq> cs; bool contradiction = false;
    uint32_t id(N n) { auto it = ids.find(n); if (it != ids.end()) return it->second; uint32_t i = (uint32_t) names.size(); ids[n] = i; names.push_back(n); return i; }
    void add(const Lin& a, const Lin& b, i128 k) { // a - b + k <= 0
        std::map<uint32_t, i128> t; for (auto& p : a.t) t[id(p.first)] += p.second; for (auto& p : b.t) t[id(p.first)] -= p.second;
        Ineq q; q.c = a.c - b.c + k; for (auto& p : t) if (p.second) q.t.push_back(p);
        if (q.t.empty()) { if (q.c > 0) contradiction = true; return; }
        normalise(q); cs.push_back(q);
    }
    bool quick = false; // bounds only
    std::map<N, std::pair<bool, Lin>> memo;
    // a linear form congruent to v modulo 2^w
    void modular(const Val& v, Lin& r, int depth = 0) {
        r = Lin();
        if (v.isc()) { r.c = (i128) v.c; if (v.c >> (v.w - 1)) r.c -= (i128) 1 << v.w; bounds(r); return; }
        N n = v.n; Lin a, b;
        auto norm = [&](Lin& l) { i128 m = (i128) 1 << v.w; auto f = [&](i128 x) { x %= m; if (x < 0) x += m; if (x >= m / 2) x -= m; return x; }; l.c = f(l.c); for (auto& p : l.t) p.second = f(p.second); bounds(l); };
        if (depth < 60) switch (n->op) {
        case Op::ADD: case Op::SUB: { modular(n->k[0], a, depth + 1); modular(n->k[1], b, depth + 1); i128 sg = n->op == Op::ADD ? 1 : -1; r = a; r.c += sg * b.c; for (auto& p : b.t) r.t[p.first] += sg * p.second; norm(r); return; }
        case Op::MUL: if (n->k[1].isc()) { i128 k = (i128) n->k[1].c; if (n->k[1].c >> (v.w - 1)) k -= (i128) 1 << v.w; if (k > -(1 << 30) && k < (1 << 30)) { modular(n->k[0], r, depth + 1); r.c *= k; for (auto& p : r.t) p.second *= k; norm(r); return; } } break;
        case Op::SHL: if (n->k[1].isc() && n->k[1].c < 30) { i128 k = (i128) 1 << (unsigned) n->k[1].c; modular(n->k[0], r, depth + 1); r.c *= k; for (auto& p : r.t) p.second *= k; norm(r); return; } break;
        case Op::EXTRACT: if (n->aux == 0 && n->k[0].w <= 64) { modular(n->k[0], r, depth + 1); norm(r); return; } break;
        default: break;
        }
        exact(v, r, depth + 1);
    }
    bool proves(const Lin& l, unsigned w) { // 0 <= l < 2^w follows from the facts
        if (quick || cs.size() > 60) return false;
        if (l.lo < 0) { Lin z; Refuter q = *this; q.add(l, z, 1); if (!q.refute({})) return false; }
        if (l.hi > (i128) maskw(w)) { Lin z; z.c = (i128) maskw(w); Refuter q = *this; q.add(z, l, 1); if (!q.refute({})) return false; }
        return true;
    }
    // the exact value of v as a linear form; v itself becomes an opaque term where wrap-around cannot be excluded
    void exact(const Val& v, Lin& r, int depth = 0) {
        r = Lin();
        if (v.isc()) { r.c = r.lo = r.hi = (i128) v.c; return; }
        N n = v.n; auto it = memo.find(n); if (it != memo.end()) { r = it->second.second; return; }
        Lin a, b; bool ok = false;
        auto div = [&](Lin& l, unsigned sh) { i128 k = (i128) 1 << sh; if (l.c % k) return false; for (auto& p : l.t) if (p.second % k) return false; l.c /= k; for (auto& p : l.t) p.second /= k; bounds(l); return true; };
        if (depth < 60) switch (n->op) {
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::SHL: {
            if (n->op == Op::MUL && !n->k[1].isc()) break;
            if (n->op == Op::SHL && !(n->k[1].isc() && n->k[1].c < 30)) break;
            if (n->op == Op::MUL) { i128 k = (i128) n->k[1].c; if (n->k[1].c >> (v.w - 1)) k -= (i128) 1 << v.w; if (k <= -(1 << 30) || k >= (1 << 30)) break; }
            modular(v, r, depth + 1); ok = inRange(r, v.w);
            for (int sh = -1; !ok && sh <= 1; sh += 2) { Lin x = r; x.c += sh * ((i128) 1 << v.w); bounds(x); if (inRange(x, v.w)) { r = x; ok = true; } }
            if (!ok && proves(r, v.w)) ok = true;
            break; }
        case Op::LSHR: if (n->k[1].isc() && n->k[1].c < 30) { exact(n->k[0], r, depth + 1); ok = div(r, (unsigned) n->k[1].c); } break;
        case Op::ZEXT: exact(n->k[0], r, depth + 1); ok = true; break;
        case Op::EXTRACT: if (n->k[0].w <= 64) { exact(n->k[0], r, depth + 1); ok = (n->aux == 0 || div(r, (unsigned) n->aux)) && (inRange(r, v.w) || proves(r, v.w)); } break;
        case Op::CONCAT: if (n->k[1].w < 30) { exact(n->k[0], a, depth + 1); exact(n->k[1], b, depth + 1); i128 k = (i128) 1 << n->k[1].w; r = a; r.c = r.c * k + b.c; for (auto& p : r.t) p.second *= k; for (auto& p : b.t) r.t[p.first] += p.second; bounds(r); ok = inRange(r, v.w); } break;
        default: break;
        }
        if (!ok) { r = Lin(); r.t[n] = 1; bounds(r); }
        memo[n] = {true, r};
    }
    // adds the consequences of a fact
    void fact(const Val& v, bool neg = false) {
        if (v.isc()) return;
        N n = v.n;
        if (n->op == Op::XOR && n->w == 1 && n->k[1].isc()) return fact(n->k[0], neg ^ (n->k[1].c != 0));
        if (n->op == Op::AND && n->w == 1 && !neg) { fact(n->k[0]); fact(n->k[1]); return; }
        if (n->op == Op::OR && n->w == 1 && neg) { fact(n->k[0], true); fact(n->k[1], true); return; }
        if ((n->op != Op::ULT && n->op != Op::ULE && n->op != Op::EQ) || n->k[0].w > 64 || n->k[0].w < 2) return;
        Lin a, b; exact(n->k[0], a); exact(n->k[1], b);
        if (n->op == Op::EQ) { if (!neg) { add(a, b, 0); add(b, a, 0); } return; }
        if (n->op == Op::ULT) { if (!neg) add(a, b, 1); else add(b, a, 0); }
        else { if (!neg) add(a, b, 0); else add(b, a, 1); }
    }
    // Fourier-Motzkin elimination with integer tightening; true when the constraints are contradictory
    bool refute(const std::vector<Ineq>& extra) {
        if (contradiction) return true;
        std::map<std::vector<std::pair<uint32_t, i128>>, i128> set;
        bool bad = false;
        auto put = [&](const Ineq& q) { if (q.t.empty()) { if (q.c > 0) bad = true; return; } auto it = set.find(q.t); if (it == set.end()) set[q.t] = q.c; else it->second = std::max(it->second, q.c); };
        for (auto& q : cs) put(q); for (auto& q : extra) put(q);
        for (uint32_t i = 0; i < names.size(); i++) { put({0, {{i, -1}}}); i128 m = (i128) (~names[i]->kz & maskw(names[i]->w)); put({-m, {{i, 1}}}); }
        size_t vars = names.size();
        for (size_t round = 0; round < vars && !bad; round++) {
            // the variable with the fewest combinations
            std::map<uint32_t, std::pair<size_t, size_t>> cnt;
            for (auto& q : set) for (auto& p : q.first) (p.second > 0 ? cnt[p.first].first : cnt[p.first].second)++;
            if (cnt.empty()) break;
            uint32_t best = 0; size_t cost = SIZE_MAX;
            for (auto& c : cnt) { size_t k = c.second.first * c.second.second; if (k < cost) { cost = k; best = c.first; } }
            if (cost > 3000) return false;
            std::vector<Ineq> up, lo; std::map<std::vector<std::pair<uint32_t, i128>>, i128> rest;
            for (auto& q : set) { i128 k = 0; for (auto& p : q.first) if (p.first == best) k = p.second; if (!k) rest[q.first] = q.second; else (k > 0 ? up : lo).push_back({q.second, q.first}); }
            set.swap(rest);
            for (auto& a : up) for (auto& b : lo) {
                i128 ka = 0, kb = 0; for (auto& p : a.t) if (p.first == best) ka = p.second; for (auto& p : b.t) if (p.first == best) kb = -p.second;
                i128 g = gcdi(ka, kb), fa = kb / g, fb = ka / g;
                if (fa > ((i128) 1 << 40) || fb > ((i128) 1 << 40)) continue; // dropping a consequence is sound
                std::map<uint32_t, i128> t; bool over = false;
                for (auto& p : a.t) { if (tooBig(p.second) || tooBig(p.second * fa)) over = true; t[p.first] += p.second * fa; }
                for (auto& p : b.t) { if (tooBig(p.second) || tooBig(p.second * fb)) over = true; t[p.first] += p.second * fb; }
                if (over || a.c > ((i128) 1 << 80) || a.c < -((i128) 1 << 80) || b.c > ((i128) 1 << 80) || b.c < -((i128) 1 << 80)) continue;
                Ineq q; q.c = a.c * fa + b.c * fb; for (auto& p : t) if (p.second) q.t.push_back(p);
                normalise(q); put(q);
                if (bad) return true;
                if (set.size() > 4000) return false;
            }
        }
        return bad;
    }
};
// true when the facts and the extra constraint cannot hold together
bool linearUnsat(const std::vector<Val>& facts, const Val& extra) {
    if (facts.size() > 200) return false;
    // only inequalities between linear terms can be refuted
    N n = extra.n; bool neg = false; if (!n) return false;
    while (n && n->op == Op::XOR && n->w == 1 && n->k[1].isc()) { neg ^= n->k[1].c != 0; n = n->k[0].n; }
    if (!n || (n->op != Op::ULT && n->op != Op::ULE && n->op != Op::EQ) || n->k[0].w > 64 || n->k[0].w < 2) return false;
    Refuter r; for (auto& f : facts) r.fact(f);
    Lin a, b; r.exact(n->k[0], a); r.exact(n->k[1], b);
    if (n->op == Op::EQ && neg) { // a < b and b < a must both be impossible
        Refuter s = r; r.add(a, b, 1); if (!r.refute({})) return false; s.add(b, a, 1); return s.refute({});
    }
    r.fact(extra);
    if (r.names.size() > 40) return false;
    return r.refute({});
}
int linearEq(const Val& e) {
    if (e.isc() || e.n->op != Op::EQ || e.n->k[0].w > 64 || e.n->k[0].w < 8) return -1;
    Refuter r; r.quick = true; Lin a, b; r.exact(e.n->k[0], a); r.exact(e.n->k[1], b);
    a.c -= b.c; for (auto& p : b.t) a.t[p.first] -= p.second;
    bounds(a);
    if (a.t.empty()) return a.c == 0;
    return a.lo > 0 || a.hi < 0 ? 0 : -1;
}
