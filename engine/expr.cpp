#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;
static const std::vector<uint32_t> g_noVars;

namespace {
uint64_t hmix(uint64_t a, uint64_t b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    return a * 0xff51afd7ed558ccdull;
}
uint64_t hval(const Val& v) {
    if (v.n) return hmix(v.n->id, 0x1234567);
    return hmix(hmix((uint64_t) v.c, (uint64_t)(v.c >> 64)), v.w);
}
struct NHash { size_t operator()(const Node* n) const { return n->hash; } };
struct NEq {
    bool operator()(const Node* a, const Node* b) const {
        if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->k.size() != b->k.size()) return false;
        for (size_t i = 0; i < a->k.size(); i++)
            if (!same(a->k[i], b->k[i])) return false;
        return true;
    }
};
std::unordered_map<const Node*, bool, NHash, NEq>* g_table;
uint32_t g_nextId = 1;

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (auto x : v) h = hmix(h, x); return h; } };
const std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v) {
    static std::unordered_map<std::vector<uint32_t>, bool, VecHash> tab;
    auto it = tab.emplace(std::move(v), true).first;
    return &it->first;
}
u128 kz(const Val& v) { return v.n ? v.n->kz : (~v.c & maskw(v.w)); }
u128 ko(const Val& v) { return v.n ? v.n->ko : v.c; }
u128 umaxv(const Val& v) { return ~kz(v) & maskw(v.w); }
u128 uminv(const Val& v) { return ko(v); }

void knownBits(Node* n) {
    u128 M = maskw(n->w);
    u128 z = 0, o = 0;
    auto& k = n->k;
    switch (n->op) {
    case Op::AND: z = kz(k[0]) | kz(k[1]); o = ko(k[0]) & ko(k[1]); break;
    case Op::OR: z = kz(k[0]) & kz(k[1]); o = ko(k[0]) | ko(k[1]); break;
    case Op::XOR: z = (kz(k[0]) & kz(k[1])) | (ko(k[0]) & ko(k[1]));
        o = (kz(k[0]) & ko(k[1])) | (ko(k[0]) & kz(k[1])); break;
    case Op::SHL: if (k[1].isc() && k[1].c < n->w) { unsigned s = k[1].u(); z = ((kz(k[0]) << s) & M) | maskw(s); o = (ko(k[0]) << s) & M; } break;
    case Op::LSHR: if (k[1].isc() && k[1].c < n->w) { unsigned s = k[1].u(); z = (kz(k[0]) >> s) | (M & ~(M >> s)); o = ko(k[0]) >> s; } break;
    case Op::CONCAT: { unsigned lw = k[1].w; z = (kz(k[0]) << lw) | kz(k[1]); o = (ko(k[0]) << lw) | ko(k[1]); break; }
    case Op::EXTRACT: z = (kz(k[0]) >> n->aux) & M; o = (ko(k[0]) >> n->aux) & M; break;
    case Op::ZEXT: z = kz(k[0]) | (M & ~maskw(k[0].w)); o = ko(k[0]); break;
    case Op::SEXT: { u128 sb = (u128) 1 << (k[0].w - 1); u128 hi = M & ~maskw(k[0].w);
        z = kz(k[0]); o = ko(k[0]); if (z & sb) z |= hi; if (o & sb) o |= hi; break; }
    case Op::ITE: z = kz(k[1]) & kz(k[2]); o = ko(k[1]) & ko(k[2]); break;
    case Op::ADD: case Op::SUB: case Op::MUL: {
        // trailing known zeros
        auto tz = [&](const Val& v) { unsigned t = 0; u128 q = kz(v); while (t < v.w && (q & 1)) { q >>= 1; t++; } return t; };
        unsigned a = tz(k[0]), b = tz(k[1]);
        if (n->op == Op::MUL) { unsigned t = std::min<unsigned>(n->w, a + b); z = maskw(t); 
            // leading zeros
            unsigned la = 0, lb = 0; for (int i = n->w - 1; i >= 0 && ((kz(k[0]) >> i) & 1); i--) la++;
            for (int i = n->w - 1; i >= 0 && ((kz(k[1]) >> i) & 1); i--) lb++;
            if (la + lb > n->w) { unsigned lead = la + lb - n->w; z |= M & ~maskw(n->w - lead); } }
        else {
            unsigned t = std::min(a, b); z = maskw(t);
            if (n->op == Op::ADD) {
                // one operand has known low bits that don't carry
                if (k[1].isc() && t < n->w) { unsigned t0 = a; u128 lowc = k[1].c & maskw(t0); z |= maskw(t0) & ~lowc; o |= lowc & maskw(t0); }
                unsigned la = 0, lb = 0; for (int i = n->w - 1; i >= 0 && ((kz(k[0]) >> i) & 1); i--) la++;
                for (int i = n->w - 1; i >= 0 && ((kz(k[1]) >> i) & 1); i--) lb++;
                unsigned l = std::min(la, lb); if (l > 1) z |= M & ~maskw(n->w - (l - 1));
            }
        }
        break; }
    case Op::UDIV: { unsigned la = 0; for (int i = n->w - 1; i >= 0 && ((kz(k[0]) >> i) & 1); i--) la++; if (k[1].isc() && k[1].c) z = M & ~maskw(n->w - la); break; }
    case Op::UREM: if (k[1].isc() && k[1].c) { unsigned b = 0; u128 c = k[1].c; while (c) { b++; c >>= 1; } z = M & ~maskw(b); } break;
    default: break;
    }
    n->kz = z & M; n->ko = o & M;
}

Val mk(Op op, std::vector<Val> k, uint32_t w, uint64_t aux = 0) {
    if (!g_table) g_table = new std::unordered_map<const Node*, bool, NHash, NEq>();
    Node t;
    t.op = op; t.w = w; t.aux = aux; t.k = std::move(k);
    uint64_t h = hmix((uint64_t) op * 131 + w, aux);
    for (auto& v : t.k) h = hmix(h, hval(v));
    t.hash = h;
    auto it = g_table->find(&t);
    if (it != g_table->end()) {
        const Node* r = it->first;
        if (w <= 128 && (r->kz | r->ko) == maskw(w)) return C(r->ko, w);
        return fromN(r);
    }
    Node* n = new Node(std::move(t));
    n->id = g_nextId++;
    // variable set
    const std::vector<uint32_t>* cur = &g_noVars;
    bool single = false;
    uint32_t own = 0;
    if (op == Op::VAR || op == Op::SELECT) { single = true; own = (uint32_t) aux; }
    std::vector<uint32_t> acc;
    bool accUsed = false;
    for (auto& v : n->k) {
        if (!v.n) continue;
        n->hasfp |= v.n->hasfp; n->hasmul |= v.n->hasmul; n->hasuf |= v.n->hasuf;
        const std::vector<uint32_t>* o = v.n->vars;
        if (o == cur || o->empty()) continue;
        if (cur->empty()) { cur = o; continue; }
        acc.clear();
        std::set_union(cur->begin(), cur->end(), o->begin(), o->end(), std::back_inserter(acc));
        if (acc.size() == cur->size()) continue;
        std::vector<uint32_t> cp = acc;
        cur = internVars(std::move(cp));
        (void) accUsed;
    }
    if (single && !std::binary_search(cur->begin(), cur->end(), own)) {
        std::vector<uint32_t> cp = *cur;
        cp.insert(std::lower_bound(cp.begin(), cp.end(), own), own);
        cur = internVars(std::move(cp));
    }
    if (op == Op::SELECT && g_vars[aux].table) {
        // table roots: dependencies of the table contents
        for (auto& v : *g_vars[aux].table) if (v.n && !v.n->vars->empty()) {
            std::vector<uint32_t> a2;
            std::set_union(cur->begin(), cur->end(), v.n->vars->begin(), v.n->vars->end(), std::back_inserter(a2));
            if (a2.size() != cur->size()) cur = internVars(std::move(a2));
        }
    }
    n->vars = cur;
    if (op >= Op::FADD && op <= Op::FRTI) n->hasfp = true;
    if (op == Op::MUL && (!n->k[1].isc() || n->k[1].c > 0xffff)) n->hasmul = true;
    if ((op == Op::UDIV || op == Op::SDIV || op == Op::UREM || op == Op::SREM) && !n->k[1].isc()) n->hasmul = true;
    if (op == Op::UF || op == Op::SELECT) n->hasuf = true;
    if (w <= 128) knownBits(n);
    g_table->emplace(n, true);
    if (w <= 128 && (n->kz | n->ko) == maskw(w)) return C(n->ko, w);
    return fromN(n);
}

bool foldBin(Op op, u128 a, u128 b, uint32_t w, u128& r) {
    u128 M = maskw(w);
    switch (op) {
    case Op::ADD: r = a + b; break;
    case Op::SUB: r = a - b; break;
    case Op::MUL: r = a * b; break;
    case Op::UDIV: r = b ? a / b : M; break;
    case Op::UREM: r = b ? a % b : a; break;
    case Op::SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) r = x >= 0 ? M : 1; else if (y == -1) r = (u128) 0 - (u128) x; else r = (u128)(x / y); break; }
    case Op::SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) r = a; else if (y == -1) r = 0; else r = (u128)(x % y); break; }
    case Op::AND: r = a & b; break;
    case Op::OR: r = a | b; break;
    case Op::XOR: r = a ^ b; break;
    case Op::SHL: r = b >= w ? 0 : a << (unsigned) b; break;
    case Op::LSHR: r = b >= w ? 0 : (a & M) >> (unsigned) b; break;
    case Op::ASHR: { i128 x = sx(a, w); r = b >= w ? (x < 0 ? M : 0) : (u128)(x >> (unsigned) b); break; }
    case Op::EQ: r = a == b; return true;
    case Op::ULT: r = a < b; return true;
    case Op::ULE: r = a <= b; return true;
    case Op::SLT: r = sx(a, w) < sx(b, w); return true;
    case Op::SLE: r = sx(a, w) <= sx(b, w); return true;
    default: return false;
    }
    r &= M;
    return true;
}
bool isCmp(Op op) { return op == Op::EQ || op == Op::ULT || op == Op::ULE || op == Op::SLT || op == Op::SLE; }
bool isop(const Val& v, Op op) { return v.n && v.n->op == op; }
// splits v into base + const
void splitAdd(const Val& v, Val& base, u128& c) {
    if (isop(v, Op::ADD) && v.n->k[1].isc()) { base = v.n->k[0]; c = v.n->k[1].c; }
    else { base = v; c = 0; }
}
int log2c(u128 c) { if (!c || (c & (c - 1))) return -1; int i = 0; while (!(c & 1)) { c >>= 1; i++; } return i; }
} // namespace

Val mkVar(const std::string& name, uint32_t w) {
    VarInfo vi; vi.name = name; vi.w = w;
    g_vars.push_back(vi);
    return mk(Op::VAR, {}, w, g_vars.size() - 1);
}
uint32_t mkArrayRoot(const std::string& name, uint32_t elemW, std::shared_ptr<std::vector<Val>> table) {
    VarInfo vi; vi.name = name; vi.w = elemW; vi.isArray = true; vi.elemW = elemW; vi.table = table;
    g_vars.push_back(vi);
    return g_vars.size() - 1;
}
Val mkUF(const std::string& name, const std::vector<Val>& args, uint32_t w) {
    size_t i = 0;
    std::string key = name;
    for (; i < g_ufs.size(); i++) if (g_ufs[i] == key) break;
    if (i == g_ufs.size()) g_ufs.push_back(key);
    return mk(Op::UF, args, w, i);
}
Val mkAgg(const std::vector<Val>& kids) {
    Node* n = new Node();
    n->op = Op::AGG; n->w = 0xffff; n->id = g_nextId++; n->aux = 0; n->k = kids; n->hash = n->id; n->vars = &g_noVars;
    Val v; v.n = n; v.w = 0xffff; return v;
}

Val mkNot(const Val& a) {
    if (a.isc()) return C(~a.c, a.w);
    if (a.w == 1) {
        N n = a.n;
        switch (n->op) {
        case Op::ULT: return mkBin(Op::ULE, n->k[1], n->k[0]);
        case Op::ULE: return mkBin(Op::ULT, n->k[1], n->k[0]);
        case Op::SLT: return mkBin(Op::SLE, n->k[1], n->k[0]);
        case Op::SLE: return mkBin(Op::SLT, n->k[1], n->k[0]);
        case Op::ITE: if (n->k[1].isc() || n->k[2].isc()) return mkIte(n->k[0], mkNot(n->k[1]), mkNot(n->k[2])); break;
        default: break;
        }
    }
    return mkBin(Op::XOR, a, C(maskw(a.w), a.w));
}

Val mkIte(const Val& c, const Val& a, const Val& b) {
    if (c.isc()) return c.c ? a : b;
    if (same(a, b)) return a;
    if (isop(a, Op::AGG) || isop(b, Op::AGG)) {
        std::vector<Val> k;
        for (size_t i = 0; i < a.n->k.size(); i++) k.push_back(mkIte(c, a.n->k[i], b.n->k[i]));
        return mkAgg(k);
    }
    if (isop(c, Op::XOR) && c.w == 1 && c.n->k[1].isc()) return mkIte(c.n->k[0], b, a);
    if (a.w == 1) {
        if (a.isc() && b.isc()) return a.c ? c : mkNot(c);
        if (a.isc()) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b.isc()) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (isop(a, Op::ITE) && same(a.n->k[0], c)) return mkIte(c, a.n->k[1], b);
    if (isop(b, Op::ITE) && same(b.n->k[0], c)) return mkIte(c, a, b.n->k[2]);
    return mk(Op::ITE, {c, a, b}, a.w);
}

Val mkExtract(const Val& a, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == a.w) return a;
    if (a.isc()) return C(a.c >> lo, w);
    N n = a.n;
    switch (n->op) {
    case Op::EXTRACT: return mkExtract(n->k[0], n->aux + lo, w);
    case Op::CONCAT: {
        uint32_t lw = n->k[1].w;
        if (lo >= lw) return mkExtract(n->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(n->k[1], lo, w);
        return mkConcat(mkExtract(n->k[0], 0, lo + w - lw), mkExtract(n->k[1], lo, lw - lo));
    }
    case Op::ZEXT: {
        uint32_t iw = n->k[0].w;
        if (lo >= iw) return C(0, w);
        if (lo + w <= iw) return mkExtract(n->k[0], lo, w);
        return mkZext(mkExtract(n->k[0], lo, iw - lo), w);
    }
    case Op::SEXT: {
        uint32_t iw = n->k[0].w;
        if (lo + w <= iw) return mkExtract(n->k[0], lo, w);
        if (lo == 0) return mkSext(n->k[0], w);
        break;
    }
    case Op::ITE:
        if (n->k[1].isc() || n->k[2].isc() )
            return mkIte(n->k[0], mkExtract(n->k[1], lo, w), mkExtract(n->k[2], lo, w));
        break;
    case Op::AND: case Op::OR: case Op::XOR:
        if (n->k[1].isc()) return mkBin(n->op, mkExtract(n->k[0], lo, w), mkExtract(n->k[1], lo, w));
        return mkBin(n->op, mkExtract(n->k[0], lo, w), mkExtract(n->k[1], lo, w));
    case Op::SHL:
        if (n->k[1].isc() && n->k[1].c < a.w) {
            uint32_t s = n->k[1].u();
            if (lo >= s) return mkExtract(n->k[0], lo - s, w);
            if (lo + w <= s) return C(0, w);
            return mkConcat(mkExtract(n->k[0], 0, lo + w - s), C(0, s - lo));
        }
        break;
    case Op::LSHR:
        if (n->k[1].isc() && n->k[1].c < a.w) {
            uint32_t s = n->k[1].u();
            if (lo + s + w <= a.w) return mkExtract(n->k[0], lo + s, w);
            if (lo + s >= a.w) return C(0, w);
            return mkZext(mkExtract(n->k[0], lo + s, a.w - lo - s), w);
        }
        break;
    case Op::ADD: case Op::SUB: case Op::MUL:
        if (n->op == Op::MUL && n->w >= 64 && !n->k[1].isc() && !n->k[0].isc()) break;
        if (lo == 0) return mkBin(n->op, mkExtract(n->k[0], 0, w), mkExtract(n->k[1], 0, w));
        break;
    default: break;
    }
    return mk(Op::EXTRACT, {a}, w, lo);
}

Val mkConcat(const Val& hi, const Val& lo) {
    uint32_t w = hi.w + lo.w;
    if (hi.isc() && lo.isc()) return C((hi.c << lo.w) | lo.c, w);
    if (isop(hi, Op::EXTRACT) && isop(lo, Op::EXTRACT) && same(hi.n->k[0], lo.n->k[0])
        && hi.n->aux == lo.n->aux + lo.w)
        return mkExtract(hi.n->k[0], lo.n->aux, w);
    if (hi.isc() && hi.c == 0) return mkZext(lo, w);
    if (isop(hi, Op::EXTRACT) && hi.n->aux >= lo.w && same(mkExtract(hi.n->k[0], (uint32_t) hi.n->aux - lo.w, lo.w), lo))
        return mkExtract(hi.n->k[0], (uint32_t) hi.n->aux - lo.w, w);
    // hi is extract of X adjacent to lo == extract/trunc of the same; lo may itself be a full value
    if (isop(lo, Op::CONCAT) && isop(hi, Op::EXTRACT) && isop(lo.n->k[0], Op::EXTRACT)
        && same(hi.n->k[0], lo.n->k[0].n->k[0]) && hi.n->aux == lo.n->k[0].n->aux + lo.n->k[0].w)
        return mkConcat(mkExtract(hi.n->k[0], lo.n->k[0].n->aux, hi.w + lo.n->k[0].w), lo.n->k[1]);
    // (concat (zext-high-part) ...) : hi is zero-extended extract adjacent to lo
    if (isop(hi, Op::ZEXT)) {
        Val in = hi.n->k[0];
        return mkZext(mkConcat(in, lo), w);
    }
    if (isop(hi, Op::CONCAT) && !isop(hi.n->k[0], Op::CONCAT) && hi.n->k[0].isc() == false && false) {}
    return mk(Op::CONCAT, {hi, lo}, w);
}

Val mkZext(const Val& a, uint32_t w) {
    if (w == a.w) return a;
    if (a.isc()) return C(a.c, w);
    if (isop(a, Op::ZEXT)) return mkZext(a.n->k[0], w);
    if (isop(a, Op::ITE) && (a.n->k[1].isc() && a.n->k[2].isc()))
        return mkIte(a.n->k[0], mkZext(a.n->k[1], w), mkZext(a.n->k[2], w));
    return mk(Op::ZEXT, {a}, w);
}
Val mkSext(const Val& a, uint32_t w) {
    if (w == a.w) return a;
    if (a.isc()) return C((u128) sx(a.c, a.w), w);
    if (isop(a, Op::SEXT)) return mkSext(a.n->k[0], w);
    if (isop(a, Op::ZEXT)) return mkZext(a.n->k[0], w);
    if ((a.n->kz >> (a.w - 1)) & 1) return mkZext(a, w);
    if (isop(a, Op::ITE) && (a.n->k[1].isc() && a.n->k[2].isc()))
        return mkIte(a.n->k[0], mkSext(a.n->k[1], w), mkSext(a.n->k[2], w));
    return mk(Op::SEXT, {a}, w);
}

Val mkBin(Op op, const Val& a0, const Val& b0) {
    Val a = a0, b = b0;
    uint32_t w = a.w;
    uint32_t rw = isCmp(op) ? 1 : w;
    if (a.w != b.w) { fprintf(stderr, "internal: width mismatch %u %u op %d\n", a.w, b.w, (int) op); abort(); }
    if (a.isc() && b.isc()) { u128 r; if (foldBin(op, a.c, b.c, w, r)) return C(r, rw); }
    u128 M = maskw(w);
    // x - y * (x / y) is the remainder (for every x and y, including 0)
    if (op == Op::SUB && isop(b, Op::MUL))
        for (int i = 0; i < 2; i++) {
            const Val &y = b.n->k[i], &q = b.n->k[1 - i];
            if ((isop(q, Op::SDIV) || isop(q, Op::UDIV)) && same(q.n->k[0], a) && same(q.n->k[1], y))
                return mkBin(isop(q, Op::SDIV) ? Op::SREM : Op::UREM, a, y);
        }
    // remainders of widened operands are computed in the narrow width (x rem 0 = x in every width)
    if ((op == Op::SREM || op == Op::UREM) && w > 8) {
        Op ext = op == Op::SREM ? Op::SEXT : Op::ZEXT;
        auto narrow = [&](const Val& v) -> unsigned {
            if (v.isc()) { for (unsigned n = 8; n < w; n *= 2) if (op == Op::SREM ? (u128) sx(v.c & maskw(n), n) == (u128) sx(v.c, w) : v.c == (v.c & maskw(n))) return n; return w; }
            return isop(v, ext) ? v.n->k[0].w : w;
        };
        unsigned n = std::max(narrow(a), narrow(b));
        if (n < w) {
            Val r = mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
            return op == Op::SREM ? mkSext(r, w) : mkZext(r, w);
        }
    }
    bool comm = op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR || op == Op::EQ;
    if (comm) {
        if (a.isc()) std::swap(a, b);
        else if (!b.isc() && a.n->id > b.n->id) std::swap(a, b);
    }
    // push constants through ite-of-constants
    if (b.isc() && isop(a, Op::ITE) && a.n->k[1].isc() && a.n->k[2].isc())
        return mkIte(a.n->k[0], mkBin(op, a.n->k[1], b), mkBin(op, a.n->k[2], b));
    if (a.isc() && isop(b, Op::ITE) && b.n->k[1].isc() && b.n->k[2].isc())
        return mkIte(b.n->k[0], mkBin(op, a, b.n->k[1]), mkBin(op, a, b.n->k[2]));
    if (isop(a, Op::ITE) && isop(b, Op::ITE) && same(a.n->k[0], b.n->k[0]))
        return mkIte(a.n->k[0], mkBin(op, a.n->k[1], b.n->k[1]), mkBin(op, a.n->k[2], b.n->k[2]));
    if ((op == Op::ADD || op == Op::OR || op == Op::XOR) && !a.isc() && !b.isc()) { // disjoint parts: a concatenation
        for (int t = 0; t < 2; t++) {
            const Val &x = t ? b : a, &y = t ? a : b;
            if (isop(x, Op::SHL) && x.n->k[1].isc() && x.n->k[1].c < w && x.n->k[1].c > 0) {
                uint32_t sh = x.n->k[1].u();
                if ((y.n->kz | maskw(sh)) == maskw(w)) return mkConcat(mkExtract(x, sh, w - sh), mkExtract(y, 0, sh));
            }
        }
    }
    switch (op) {
    case Op::ADD:
        if (b.isc()) {
            if (b.c == 0) return a;
            if (isop(a, Op::ADD) && a.n->k[1].isc()) return mkBin(Op::ADD, a.n->k[0], C(a.n->k[1].c + b.c, w));
        } else {
            // pull constants outwards
            if (isop(a, Op::ADD) && a.n->k[1].isc()) return mkBin(Op::ADD, mkBin(Op::ADD, a.n->k[0], b), a.n->k[1]);
            if (isop(b, Op::ADD) && b.n->k[1].isc()) return mkBin(Op::ADD, mkBin(Op::ADD, a, b.n->k[0]), b.n->k[1]);
            if (isop(a, Op::SUB) && same(a.n->k[1], b)) return a.n->k[0];
            if (isop(b, Op::SUB) && same(b.n->k[1], a)) return b.n->k[0];
        }
        break;
    case Op::SUB:
        if (b.isc()) return mkBin(Op::ADD, a, C((u128) 0 - b.c, w));
        if (same(a, b)) return C(0, w);
        {
            Val x, y; u128 cx, cy;
            splitAdd(a, x, cx); splitAdd(b, y, cy);
            if (same(x, y)) return C(cx - cy, w);
            if (cx || cy) return mkBin(Op::ADD, mkBin(Op::SUB, x, y), C(cx - cy, w));
            if (isop(a, Op::ADD)) {
                if (same(a.n->k[0], b)) return a.n->k[1];
                if (same(a.n->k[1], b)) return a.n->k[0];
            }
            if (isop(b, Op::ADD)) {
                if (same(b.n->k[0], a)) return mkBin(Op::SUB, C(0, w), b.n->k[1]);
                if (same(b.n->k[1], a)) return mkBin(Op::SUB, C(0, w), b.n->k[0]);
            }
            if (isop(b, Op::SUB) && same(b.n->k[0], a)) return b.n->k[1];
        }
        break;
    case Op::MUL:
        if (b.isc()) {
            if (b.c == 0) return C(0, w);
            if (b.c == 1) return a;
            int l = log2c(b.c);
            if (l > 0) return mkBin(Op::SHL, a, C(l, w));
        } else if (w == 64) return mkExtract(mkBin(Op::MUL, mkSext(a, 128), mkSext(b, 128)), 0, 64); // one form for narrow and wide products
        break;
    case Op::UDIV:
        if (b.isc()) { if (b.c == 1) return a; int l = log2c(b.c); if (l > 0) return mkBin(Op::LSHR, a, C(l, w)); }
        break;
    case Op::UREM:
        if (b.isc()) { if (b.c == 1) return C(0, w); int l = log2c(b.c); if (l > 0) return mkBin(Op::AND, a, C(b.c - 1, w)); 
            if (b.c && umaxv(a) < b.c) return a; }
        break;
    case Op::SDIV: if (b.isc() && b.c == 1) return a; 
        if ((kz(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return mkBin(Op::UDIV, a, b); break;
    case Op::SREM: if ((kz(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return mkBin(Op::UREM, a, b); break;
    case Op::AND:
        if (same(a, b)) return a;
        if (b.isc()) {
            if (b.c == 0) return b;
            if (b.c == M) return a;
            if ((~b.c & M & ~kz(a)) == 0) return a; // clears only known zeros
            if (isop(a, Op::AND) && a.n->k[1].isc()) return mkBin(Op::AND, a.n->k[0], C(a.n->k[1].c & b.c, w));
            if (isop(a, Op::OR) && a.n->k[1].isc())
                return mkBin(Op::OR, mkBin(Op::AND, a.n->k[0], b), C(a.n->k[1].c & b.c, w));
            // adding a constant whose low bits vanish ... (x + c) & lowmask handled by known bits
            if (isop(a, Op::ADD) && a.n->k[1].isc()) {
                // (base + c) & ~lowmask where base has those low bits zero: keep only high part of c
                u128 low = ~b.c & M;
                if ((low & (low + 1)) == 0) {
                    u128 lz = kz(a.n->k[0]);
                    if ((lz & low) == low) {
                        u128 cc = a.n->k[1].c & ~low & M;
                        return mkBin(Op::ADD, a.n->k[0], C(cc, w));
                    }
                }
            }
        } else if (w == 1) {
            if (isop(a, Op::XOR) && a.n->k[1].isc() && same(a.n->k[0], b)) return C(0, 1);
            if (isop(b, Op::XOR) && b.n->k[1].isc() && same(b.n->k[0], a)) return C(0, 1);
        }
        break;
    case Op::OR:
        if (same(a, b)) return a;
        if (b.isc()) {
            if (b.c == 0) return a;
            if (b.c == M) return b;
            if ((b.c & ~ko(a)) == 0) return a;
            if (isop(a, Op::OR) && a.n->k[1].isc()) return mkBin(Op::OR, a.n->k[0], C(a.n->k[1].c | b.c, w));
        } else if (w == 1) {
            if (isop(a, Op::XOR) && a.n->k[1].isc() && same(a.n->k[0], b)) return C(1, 1);
            if (isop(b, Op::XOR) && b.n->k[1].isc() && same(b.n->k[0], a)) return C(1, 1);
        } else {
            // disjoint zext/shl combos become concat:  zext(lo) | (zext(hi) << k)
            for (int s = 0; s < 2; s++) {
                const Val& p = s ? b : a; const Val& q = s ? a : b;
                if (isop(p, Op::SHL) && p.n->k[1].isc()) {
                    uint32_t sh = p.n->k[1].u();
                    if (sh < w && (kz(q) | maskw(sh)) == M && sh > 0)
                        return mkConcat(mkExtract(p.n->k[0], 0, w - sh), mkExtract(q, 0, sh));
                }
                if (isop(p, Op::CONCAT) && p.n->k[1].isc() && p.n->k[1].c == 0 && (kz(q) | maskw(p.n->k[1].w)) == M)
                    return mkConcat(p.n->k[0], mkExtract(q, 0, p.n->k[1].w));
            }
        }
        break;
    case Op::XOR:
        if (same(a, b)) return C(0, w);
        if (b.isc()) {
            if (b.c == 0) return a;
            if (isop(a, Op::XOR) && a.n->k[1].isc()) return mkBin(Op::XOR, a.n->k[0], C(a.n->k[1].c ^ b.c, w));
            if (w == 1 && b.c == 1 && a.n->op != Op::XOR) {
                switch (a.n->op) { case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE: return mkNot(a); default: break; }
            }
        }
        break;
    case Op::SHL:
        if (b.isc()) {
            if (b.c == 0) return a;
            if (b.c >= w) return C(0, w);
            if (isop(a, Op::SHL) && a.n->k[1].isc()) return mkBin(Op::SHL, a.n->k[0], C(a.n->k[1].c + b.c, w));
            if (isop(a, Op::LSHR) && a.n->k[1].isc() && a.n->k[1].c == b.c)
                return mkBin(Op::AND, a.n->k[0], C(M & ~maskw(b.u()), w));
            if (isop(a, Op::ADD) && a.n->k[1].isc())
                return mkBin(Op::ADD, mkBin(Op::SHL, a.n->k[0], b), C(a.n->k[1].c << b.u(), w));
        }
        break;
    case Op::LSHR:
        if (b.isc()) {
            if (b.c == 0) return a;
            if (b.c >= w) return C(0, w);
            return mkZext(mkExtract(a, b.u(), w - b.u()), w);
        }
        break;
    case Op::ASHR:
        if (b.isc()) {
            if (b.c == 0) return a;
            u128 s = b.c >= w ? w - 1 : b.c;
            return mkSext(mkExtract(a, (uint32_t) s, w - (uint32_t) s), w);
        }
        if ((kz(a) >> (w - 1)) & 1) return mkBin(Op::LSHR, a, b);
        break;
    case Op::EQ:
        if (same(a, b)) return B(true);
        if ((kz(a) & ko(b)) || (ko(a) & kz(b))) return B(false);
        if (w == 1) {
            if (b.isc()) return b.c ? a : mkNot(a);
        }
        if (b.isc()) {
            N n = a.n;
            switch (n->op) {
            case Op::ADD: if (n->k[1].isc()) return mkEq(n->k[0], C(b.c - n->k[1].c, w)); break;
            case Op::XOR: if (n->k[1].isc()) return mkEq(n->k[0], C(b.c ^ n->k[1].c, w)); break;
            case Op::SUB: if (b.c == 0) return mkEq(n->k[0], n->k[1]); break;
            case Op::ZEXT: return (b.c & ~maskw(n->k[0].w)) ? B(false) : mkEq(n->k[0], C(b.c, n->k[0].w));
            case Op::SEXT: { Val t = C(b.c, n->k[0].w); return ((u128) sx(t.c, t.w) & M) == b.c ? mkEq(n->k[0], t) : B(false); }
            case Op::CONCAT:
                return mkAnd(mkEq(n->k[0], C(b.c >> n->k[1].w, n->k[0].w)), mkEq(n->k[1], C(b.c, n->k[1].w)));
            case Op::SHL:
                if (n->k[1].isc() && n->k[1].c < w) {
                    uint32_t s = n->k[1].u();
                    if (b.c & maskw(s)) return B(false);
                    return mkEq(mkExtract(n->k[0], 0, w - s), C(b.c >> s, w - s));
                }
                break;
            case Op::ITE: {
                bool k1 = n->k[1].isc(), k2 = n->k[2].isc();
                if (k1 || k2) {
                    if (k1 && n->k[1].c != b.c) return mkAnd(mkNot(n->k[0]), mkEq(n->k[2], b));
                    if (k2 && n->k[2].c != b.c) return mkAnd(n->k[0], mkEq(n->k[1], b));
                    if (k1) return mkOr(n->k[0], mkEq(n->k[2], b));
                    if (k2) return mkOr(mkNot(n->k[0]), mkEq(n->k[1], b));
                }
                break;
            }
            default: break;
            }
        } else {
            Val x, y; u128 cx, cy;
            splitAdd(a, x, cx); splitAdd(b, y, cy);
            if (same(x, y)) return B(cx == cy);
            if (cx && cy) return mkEq(mkAdd(x, C(cx - cy, w)), y);
            if (isop(a, Op::ZEXT) && isop(b, Op::ZEXT) && a.n->k[0].w == b.n->k[0].w) return mkEq(a.n->k[0], b.n->k[0]);
            if (isop(a, Op::SEXT) && isop(b, Op::SEXT) && a.n->k[0].w == b.n->k[0].w) return mkEq(a.n->k[0], b.n->k[0]);
            if (isop(a, Op::CONCAT) && isop(b, Op::CONCAT) && a.n->k[0].w == b.n->k[0].w)
                return mkAnd(mkEq(a.n->k[0], b.n->k[0]), mkEq(a.n->k[1], b.n->k[1]));
        }
        break;
    case Op::ULT:
        if (same(a, b)) return B(false);
        if (b.isc() && b.c == 0) return B(false);
        if (umaxv(a) < uminv(b)) return B(true);
        if (uminv(a) >= umaxv(b)) return B(false);
        if (b.isc() && b.c == 1) return mkEq(a, C(0, w));
        if (a.isc() && a.c == M) return B(false);
        if (w == 1) return mkAnd(mkNot(a), b);
        if (isop(a, Op::ZEXT) && isop(b, Op::ZEXT) && a.n->k[0].w == b.n->k[0].w) return mkUlt(a.n->k[0], b.n->k[0]);
        if (isop(a, Op::ZEXT) && b.isc() && b.c <= maskw(a.n->k[0].w)) return mkUlt(a.n->k[0], C(b.c, a.n->k[0].w));
        if (isop(b, Op::ZEXT) && a.isc() && a.c <= maskw(b.n->k[0].w)) return mkUlt(C(a.c, b.n->k[0].w), b.n->k[0]);
        break;
    case Op::ULE:
        if (same(a, b)) return B(true);
        if (a.isc() && a.c == 0) return B(true);
        if (b.isc() && b.c == M) return B(true);
        if (umaxv(a) <= uminv(b)) return B(true);
        if (uminv(a) > umaxv(b)) return B(false);
        if (b.isc() && b.c == 0) return mkEq(a, b);
        if (w == 1) return mkOr(mkNot(a), b);
        if (b.isc()) return mkUlt(a, C(b.c + 1, w));
        if (isop(a, Op::ZEXT) && isop(b, Op::ZEXT) && a.n->k[0].w == b.n->k[0].w) return mkUle(a.n->k[0], b.n->k[0]);
        if (isop(b, Op::ZEXT) && a.isc() && a.c <= maskw(b.n->k[0].w)) return mkUle(C(a.c, b.n->k[0].w), b.n->k[0]);
        break;
    case Op::SLT:
        if (same(a, b)) return B(false);
        if ((kz(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return mkUlt(a, b);
        if ((ko(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return B(true);
        if ((kz(a) >> (w - 1) & 1) && (ko(b) >> (w - 1) & 1)) return B(false);
        if (isop(a, Op::SEXT) && isop(b, Op::SEXT) && a.n->k[0].w == b.n->k[0].w) return mkBin(Op::SLT, a.n->k[0], b.n->k[0]);
        if (isop(a, Op::SEXT) && b.isc()) { Val t = C(b.c, a.n->k[0].w); if (((u128) sx(t.c, t.w) & M) == b.c) return mkBin(Op::SLT, a.n->k[0], t); }
        break;
    case Op::SLE:
        if (same(a, b)) return B(true);
        if ((kz(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return mkUle(a, b);
        if ((ko(a) >> (w - 1) & 1) && (kz(b) >> (w - 1) & 1)) return B(true);
        if ((kz(a) >> (w - 1) & 1) && (ko(b) >> (w - 1) & 1)) return B(false);
        if (b.isc() && sx(b.c, w) != sx(M >> 1, w)) return mkBin(Op::SLT, a, C(b.c + 1, w));
        if (isop(a, Op::SEXT) && isop(b, Op::SEXT) && a.n->k[0].w == b.n->k[0].w) return mkBin(Op::SLE, a.n->k[0], b.n->k[0]);
        break;
    default: break;
    }
    return mk(op, {a, b}, rw);
}

Val mkSelectRoot(uint32_t root, const Val& idx) {
    auto& vi = g_vars[root];
    if (vi.table && idx.isc()) {
        if (idx.c < vi.table->size()) return (*vi.table)[(size_t) idx.c];
        return C(0, vi.elemW);
    }
    return mk(Op::SELECT, {idx}, vi.elemW, root);
}

ArrP arrRoot(uint32_t root, uint32_t elemW) { auto a = std::make_shared<Arr>(); a->kind = Arr::Root; a->root = root; a->elemW = elemW; return a; }
ArrP arrConst(const Val& v) { auto a = std::make_shared<Arr>(); a->kind = Arr::ConstA; a->val = v; a->elemW = v.w; return a; }
ArrP arrStore(const ArrP& b, const Val& idx, const Val& v) {
    if (b->kind == Arr::Store && same(b->idx, idx)) return arrStore(b->base, idx, v);
    auto a = std::make_shared<Arr>(); a->kind = Arr::Store; a->elemW = b->elemW; a->base = b; a->idx = idx; a->val = v; return a;
}
ArrP arrCopy(const ArrP& dst, const Val& dOff, const ArrP& src, const Val& sOff, const Val& len) {
    if (len.isc() && len.c == 0) return dst;
    auto a = std::make_shared<Arr>(); a->kind = Arr::Copy; a->elemW = dst->elemW; a->base = dst; a->src = src; a->dstOff = dOff; a->srcOff = sOff; a->len = len; return a;
}
Val arrSelect(const ArrP& a0, const Val& idx, const std::function<bool(const Val&)>& impossible) {
    ArrP a = a0;
    std::vector<std::pair<Val, Val>> conds;
    Val res;
    for (;;) {
        if (a->kind == Arr::Root) { res = mkSelectRoot(a->root, idx); break; }
        if (a->kind == Arr::ConstA) { res = a->val; break; }
        if (a->kind == Arr::Store) {
            Val e = mkEq(a->idx, idx);
            if (e.isc()) { if (e.c) { res = a->val; break; } }
            else if (!impossible || !impossible(e)) {
                if (impossible && impossible(mkNot(e))) { res = a->val; break; }
                conds.push_back({e, a->val});
            }
            a = a->base;
            continue;
        }
        // Copy: dstOff <= idx < dstOff + len
        Val rel = mkSub(idx, a->dstOff);
        Val in = mkUlt(rel, a->len);
        if (in.isc()) { 
            if (in.c) { res = arrSelect(a->src, mkAdd(rel, a->srcOff), impossible); break; }
        } else if (impossible && impossible(in)) {
        } else if (impossible && impossible(mkNot(in))) { res = arrSelect(a->src, mkAdd(rel, a->srcOff), impossible); break; 
        } else conds.push_back({in, arrSelect(a->src, mkAdd(rel, a->srcOff))});
        a = a->base;
    }
    for (size_t i = conds.size(); i-- > 0;) res = mkIte(conds[i].first, conds[i].second, res);
    return res;
}

// ------------------------------------------------------------------ floating point
static double asD(const Val& v) { if (v.w == 64) { uint64_t x = v.u(); double d; memcpy(&d, &x, 8); return d; } uint32_t x = (uint32_t) v.u(); float f; memcpy(&f, &x, 4); return f; }
static Val fromD(double d, uint32_t w) { if (w == 64) { uint64_t x; memcpy(&x, &d, 8); return C(x, 64); } float f = (float) d; uint32_t x; memcpy(&x, &f, 4); return C(x, 32); }
static bool foldFp(Op op, const std::vector<Val>& k, uint32_t w, uint64_t aux, Val& r) {
    for (auto& v : k) if (!v.isc()) return false;
    switch (op) {
    case Op::FADD: r = w == 64 ? fromD(asD(k[0]) + asD(k[1]), 64) : fromD((float) asD(k[0]) + (float) asD(k[1]), 32); return true;
    case Op::FSUB: r = w == 64 ? fromD(asD(k[0]) - asD(k[1]), 64) : fromD((float) asD(k[0]) - (float) asD(k[1]), 32); return true;
    case Op::FMUL: r = w == 64 ? fromD(asD(k[0]) * asD(k[1]), 64) : fromD((float) asD(k[0]) * (float) asD(k[1]), 32); return true;
    case Op::FDIV: r = w == 64 ? fromD(asD(k[0]) / asD(k[1]), 64) : fromD((float) asD(k[0]) / (float) asD(k[1]), 32); return true;
    case Op::FSQRT: r = fromD(w == 64 ? std::sqrt(asD(k[0])) : sqrtf((float) asD(k[0])), w); return true;
    case Op::FRTI: { double d = asD(k[0]); d = aux == 0 ? std::nearbyint(d) : aux == 1 ? std::floor(d) : aux == 2 ? std::ceil(d) : std::trunc(d); r = fromD(d, w); return true; }
    case Op::FOEQ: r = B(asD(k[0]) == asD(k[1])); return true;
    case Op::FOLT: r = B(asD(k[0]) < asD(k[1])); return true;
    case Op::FOLE: r = B(asD(k[0]) <= asD(k[1])); return true;
    case Op::FUNO: r = B(std::isnan(asD(k[0])) || std::isnan(asD(k[1]))); return true;
    case Op::FPEXT: r = fromD(asD(k[0]), 64); return true;
    case Op::FPTRUNC: r = fromD((float) asD(k[0]), 32); return true;
    case Op::SITOFP: if (k[0].w > 64) return false; r = w == 64 ? fromD((double) (int64_t) sx(k[0].c, k[0].w), 64) : fromD((float) (int64_t) sx(k[0].c, k[0].w), 32); return true;
    case Op::UITOFP: if (k[0].w > 64) return false; r = w == 64 ? fromD((double) k[0].u(), 64) : fromD((float) k[0].u(), 32); return true;
    case Op::FPTOSI: { double d = asD(k[0]); if (std::isnan(d) || w > 64) return false; double t = std::trunc(d); double lim = std::ldexp(1.0, w - 1); if (t < -lim || t >= lim) return false; r = C((u128)(i128)(int64_t) t, w); return true; }
    case Op::FPTOUI: { double d = asD(k[0]); if (std::isnan(d) || w > 64) return false; double t = std::trunc(d); if (t < 0 || t >= std::ldexp(1.0, w)) return false; r = C((uint64_t) t, w); return true; }
    default: return false;
    }
}
Val mkFp(Op op, const std::vector<Val>& k, uint32_t w, uint64_t aux) {
    Val r;
    if (foldFp(op, k, w, aux, r)) return r;
    return mk(op, k, w, aux);
}

// ------------------------------------------------------------------ evaluation
bool evalVal(const Val& v, const Model& m, std::unordered_map<N, u128>& cache, u128& out) {
    if (!v.n) { out = v.c; return true; }
    auto it = cache.find(v.n);
    if (it != cache.end()) { out = it->second; return true; }
    N n = v.n;
    u128 r = 0;
    switch (n->op) {
    case Op::VAR: { auto f = m.vars.find(n->aux); r = f == m.vars.end() ? 0 : f->second; break; }
    case Op::SELECT: {
        u128 i; if (!evalVal(n->k[0], m, cache, i)) return false;
        if (g_vars[n->aux].table) {
            auto& t = *g_vars[n->aux].table;
            if (i < t.size()) { if (!evalVal(t[(size_t) i], m, cache, r)) return false; } else r = 0;
            break;
        }
        auto f = m.arrays.find(n->aux);
        bool ok = false;
        if (f != m.arrays.end()) { auto g = f->second.find(i); if (g != f->second.end()) { r = g->second; ok = true; } }
        if (!ok) { auto d = m.arrDefault.find(n->aux); r = d == m.arrDefault.end() ? 0 : d->second; }
        break;
    }
    case Op::ITE: { u128 c; if (!evalVal(n->k[0], m, cache, c)) return false; if (!evalVal(n->k[c ? 1 : 2], m, cache, r)) return false; break; }
    case Op::EXTRACT: { u128 a; if (!evalVal(n->k[0], m, cache, a)) return false; r = (a >> n->aux) & maskw(n->w); break; }
    case Op::CONCAT: { u128 a, b; if (!evalVal(n->k[0], m, cache, a) || !evalVal(n->k[1], m, cache, b)) return false; r = (a << n->k[1].w) | b; break; }
    case Op::ZEXT: if (!evalVal(n->k[0], m, cache, r)) return false; break;
    case Op::SEXT: { u128 a; if (!evalVal(n->k[0], m, cache, a)) return false; r = (u128) sx(a, n->k[0].w) & maskw(n->w); break; }
    case Op::UF: case Op::AGG: return false;
    default: {
        std::vector<Val> cs;
        for (auto& x : n->k) { u128 t; if (!evalVal(x, m, cache, t)) return false; cs.push_back(C(t, x.w)); }
        if (n->op >= Op::FADD && n->op <= Op::FRTI) {
            Val q; if (!foldFp(n->op, cs, n->w, n->aux, q)) return false; r = q.c;
        } else if (!foldBin(n->op, cs[0].c, cs[1].c, cs[0].w, r)) return false;
    }
    }
    cache[n] = r;
    out = r;
    return true;
}

std::string valStr(const Val& v, int d) {
    if (!v.n) { char b[64]; if (v.c >> 64) snprintf(b, 64, "0x%lx%016lx", (unsigned long) (uint64_t) (v.c >> 64), (unsigned long) v.u()); else snprintf(b, 64, "0x%lx", (unsigned long) v.u()); return b; }
    static const char* nm[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "zext", "sext", "==", "<u", "<=u", "<s", "<=s", "ite", "select", "uf", "fadd", "fsub", "fmul", "fdiv", "foeq", "folt", "fole", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "fsqrt", "frti", "agg"};
    N n = v.n;
    if (n->op == Op::VAR) return g_vars[n->aux].name;
    if (d <= 0) return "...";
    std::string s = "(" + std::string(nm[(int) n->op]);
    if (n->op == Op::SELECT) s += ":" + g_vars[n->aux].name;
    if (n->op == Op::UF) s += ":" + g_ufs[n->aux];
    if (n->op == Op::EXTRACT) s += ":" + std::to_string(n->aux) + "+" + std::to_string(n->w);
    for (auto& k : n->k) s += " " + valStr(k, d - 1);
    return s + ")";
}
