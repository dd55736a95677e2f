#include "expr.hpp"
#include "sat.hpp"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>

SolverStats g_solver;
namespace {
struct Tr {
    z3::context c;
    std::unordered_map<N, Z3_ast> bv, fp; // owned refs
    std::unordered_map<uint32_t, Z3_func_decl> fds;
    std::unordered_map<uint32_t, Z3_ast> vs;
    bool abs; // nonlinear and floating point operations become unconstrained results
    explicit Tr(bool a) : abs(a) {}
    std::unordered_map<N, Z3_ast> opaque;
    // abstraction of an expensive operator: an uninterpreted function of its operands
    z3::expr ufop(const std::string& name, unsigned w, const std::vector<Val>& k) {
        z3::sort_vector dom(c); z3::expr_vector as(c);
        std::string nm = "o_" + name + "_" + std::to_string(w);
        for (auto& x : k) { dom.push_back(c.bv_sort(x.w)); as.push_back(tbv(x)); nm += "_" + std::to_string(x.w); }
        z3::func_decl f = c.function(nm.c_str(), dom, c.bv_sort(w));
        return f(as);
    }
    z3::expr op(N n) {
        switch (n->op) {
        case Op::FOLT: case Op::FOEQ: case Op::FOLE: case Op::FUNO: { // relation of the two operands, seen from both sides
            z3::expr p = ufop("cmp", 2, {n->k[0], n->k[1]}), q = ufop("cmp", 2, {n->k[1], n->k[0]});
            auto is = [&](unsigned a, unsigned b) { return p == c.bv_val(a, 2) && q == c.bv_val(b, 2); };
            if (n->op == Op::FOLT) return fromBool(is(0, 2));
            if (n->op == Op::FOEQ) return fromBool(is(1, 1));
            if (n->op == Op::FOLE) return fromBool(is(0, 2) || is(1, 1));
            return fromBool(is(3, 3));
        }
        default: return ufop(std::to_string((int) n->op) + "_" + std::to_string(n->aux), n->w, n->k);
        }
    }
    z3::sort fpsort(uint32_t w) { return w == 64 ? c.fpa_sort<64>() : c.fpa_sort<32>(); }
    z3::expr num(u128 v, uint32_t w) {
        if (w <= 64) return c.bv_val((uint64_t) v, w);
        return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t) v, 64));
    }
    z3::expr boolOf(const Val& v) { return tbv(v) == c.bv_val(1, 1); }
    z3::expr fromBool(const z3::expr& b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
    z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr rtz() { return z3::expr(c, Z3_mk_fpa_rtz(c)); }
    z3::func_decl root(uint32_t id) {
        auto it = fds.find(id);
        if (it != fds.end()) return z3::func_decl(c, it->second);
        z3::sort d = c.bv_sort(64), r = c.bv_sort(g_vars[id].elemW);
        z3::func_decl f = c.function(("a" + std::to_string(id)).c_str(), d, r);
        Z3_inc_ref(c, Z3_func_decl_to_ast(c, f));
        fds[id] = f;
        return f;
    }
    static bool opaqueOp(N n) {
        switch (n->op) {
        case Op::MUL: return n->w > 8 && !n->k[1].isc() && !n->k[0].isc();
        case Op::UDIV: case Op::SDIV: case Op::UREM: case Op::SREM: return n->w > 8 && !n->k[1].isc();
        case Op::FOEQ: case Op::FOLT: case Op::FOLE: case Op::FUNO: case Op::FPTOSI: case Op::FPTOUI: case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV:
        case Op::FSQRT: case Op::FRTI: case Op::FPEXT: case Op::FPTRUNC: case Op::SITOFP: case Op::UITOFP: return true;
        default: return false;
        }
    }
    z3::expr tfp(const Val& v) {
        if (v.n) {
            auto it = fp.find(v.n);
            if (it != fp.end()) return z3::expr(c, it->second);
            N n = v.n;
            z3::expr r(c);
            bool have = true;
            switch (n->op) {
            case Op::FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rne(), tfp(n->k[0]), tfp(n->k[1]))); break;
            case Op::FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rne(), tfp(n->k[0]), tfp(n->k[1]))); break;
            case Op::FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rne(), tfp(n->k[0]), tfp(n->k[1]))); break;
            case Op::FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rne(), tfp(n->k[0]), tfp(n->k[1]))); break;
            case Op::FSQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), tfp(n->k[0]))); break;
            case Op::FRTI: {
                Z3_ast m = n->aux == 0 ? Z3_mk_fpa_rne(c) : n->aux == 1 ? Z3_mk_fpa_rtn(c) : n->aux == 2 ? Z3_mk_fpa_rtp(c) : Z3_mk_fpa_rtz(c);
                z3::expr mm(c, m);
                r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, mm, tfp(n->k[0]))); break; }
            case Op::FPEXT: case Op::FPTRUNC: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), tfp(n->k[0]), fpsort(n->w))); break;
            case Op::SITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), tbv(n->k[0]), fpsort(n->w))); break;
            case Op::UITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), tbv(n->k[0]), fpsort(n->w))); break;
            case Op::ITE: 
                if (n->hasfp) { r = z3::ite(boolOf(n->k[0]), tfp(n->k[1]), tfp(n->k[2])); break; }
                have = false; break;
            default: have = false;
            }
            if (!have) r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, tbv(v), fpsort(v.w)));
            Z3_inc_ref(c, r);
            fp[n] = r;
            return r;
        }
        return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, num(v.c, v.w), fpsort(v.w)));
    }
    z3::expr tbv(const Val& v) {
        if (!v.n) return num(v.c, v.w);
        auto it = bv.find(v.n);
        if (it != bv.end()) return z3::expr(c, it->second);
        N n = v.n;
        z3::expr r(c);
        auto A = [&](int i) { return tbv(n->k[i]); };
        if (abs && opaqueOp(n)) { r = op(n); Z3_inc_ref(c, r); bv[n] = r; return r; }
        switch (n->op) {
        case Op::VAR: r = c.bv_const(("v" + std::to_string(n->aux)).c_str(), n->w); break;
        case Op::ADD: r = A(0) + A(1); break;
        case Op::SUB: r = A(0) - A(1); break;
        case Op::MUL: r = A(0) * A(1); break;
        case Op::UDIV: r = z3::udiv(A(0), A(1)); break;
        case Op::SDIV: r = A(0) / A(1); break;
        case Op::UREM: r = z3::urem(A(0), A(1)); break;
        case Op::SREM: r = z3::srem(A(0), A(1)); break;
        case Op::AND: r = A(0) & A(1); break;
        case Op::OR: r = A(0) | A(1); break;
        case Op::XOR: r = (n->k[1].isc() && n->k[1].c == maskw(n->w)) ? ~A(0) : (A(0) ^ A(1)); break;
        case Op::SHL: r = z3::shl(A(0), A(1)); break;
        case Op::LSHR: r = z3::lshr(A(0), A(1)); break;
        case Op::ASHR: r = z3::ashr(A(0), A(1)); break;
        case Op::CONCAT: r = z3::concat(A(0), A(1)); break;
        case Op::EXTRACT: r = A(0).extract(n->aux + n->w - 1, n->aux); break;
        case Op::ZEXT: r = z3::zext(A(0), n->w - n->k[0].w); break;
        case Op::SEXT: r = z3::sext(A(0), n->w - n->k[0].w); break;
        case Op::EQ: r = fromBool(A(0) == A(1)); break;
        case Op::ULT: r = fromBool(z3::ult(A(0), A(1))); break;
        case Op::ULE: r = fromBool(z3::ule(A(0), A(1))); break;
        case Op::SLT: r = fromBool(A(0) < A(1)); break;
        case Op::SLE: r = fromBool(A(0) <= A(1)); break;
        case Op::ITE: r = z3::ite(boolOf(n->k[0]), A(1), A(2)); break;
        case Op::SELECT: r = root(n->aux)(z3::zext(A(0), 64 - n->k[0].w)); break;
        case Op::UF: {
            z3::sort_vector dom(c); z3::expr_vector as(c);
            for (auto& x : n->k) { dom.push_back(c.bv_sort(x.w)); as.push_back(tbv(x)); }
            z3::func_decl f = c.function(("uf_" + g_ufs[n->aux] + "_" + std::to_string(n->w)).c_str(), dom, c.bv_sort(n->w));
            r = f(as); break; }
        case Op::FOEQ: r = fromBool(z3::expr(c, Z3_mk_fpa_eq(c, tfp(n->k[0]), tfp(n->k[1])))); break;
        case Op::FOLT: r = fromBool(z3::expr(c, Z3_mk_fpa_lt(c, tfp(n->k[0]), tfp(n->k[1])))); break;
        case Op::FOLE: r = fromBool(z3::expr(c, Z3_mk_fpa_leq(c, tfp(n->k[0]), tfp(n->k[1])))); break;
        case Op::FUNO: r = fromBool(z3::expr(c, Z3_mk_fpa_is_nan(c, tfp(n->k[0]))) || z3::expr(c, Z3_mk_fpa_is_nan(c, tfp(n->k[1])))); break;
        case Op::FPTOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz(), tfp(n->k[0]), n->w)); break;
        case Op::FPTOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, rtz(), tfp(n->k[0]), n->w)); break;
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FSQRT: case Op::FRTI: case Op::FPEXT: case Op::FPTRUNC:
        case Op::SITOFP: case Op::UITOFP:
            r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, tfp(v))); break;
        default: fprintf(stderr, "solver: unsupported op %d\n", (int) n->op); abort();
        }
        Z3_inc_ref(c, r);
        bv[n] = r;
        return r;
    }
    // Boolean assertions get a direct boolean translation for readability / speed.
    z3::expr tb(const Val& v) {
        if (!v.n) return c.bool_val(v.c != 0);
        N n = v.n;
        switch (n->op) {
        case Op::EQ: return tbv(n->k[0]) == tbv(n->k[1]);
        case Op::ULT: return z3::ult(tbv(n->k[0]), tbv(n->k[1]));
        case Op::ULE: return z3::ule(tbv(n->k[0]), tbv(n->k[1]));
        case Op::SLT: return tbv(n->k[0]) < tbv(n->k[1]);
        case Op::SLE: return tbv(n->k[0]) <= tbv(n->k[1]);
        case Op::AND: return tb(n->k[0]) && tb(n->k[1]);
        case Op::OR: return tb(n->k[0]) || tb(n->k[1]);
        case Op::XOR: if (n->k[1].isc() && n->k[1].c) return !tb(n->k[0]); return tb(n->k[0]) != tb(n->k[1]);
        default: return boolOf(v);
        }
    }
};
static Tr* g_abs = nullptr;
Tr* T(bool abs = false) { static Tr* t = new Tr(false); if (abs) { if (!g_abs) g_abs = new Tr(true); return g_abs; } return t; }

// asserts the table contents of table roots occurring in the constraints
void addTables(z3::solver& s, const std::set<uint32_t>& roots, bool abs = false) {
    for (uint32_t r : roots) {
        auto& vi = g_vars[r];
        if (!vi.isArray || !vi.table) continue;
        z3::func_decl f = T(abs)->root(r);
        for (size_t i = 0; i < vi.table->size(); i++)
            s.add(f(T(abs)->c.bv_val((uint64_t) i, 64)) == T(abs)->tbv((*vi.table)[i]));
    }
}

u128 sampleValue(uint32_t w, u128 hint) {
    static uint64_t g = 88172645463325252ull;
    auto rnd = [&] { g ^= g << 13; g ^= g >> 7; g ^= g << 17; return g * 0x2545F4914F6CDD1Dull; };
    u128 v;
    switch (rnd() % 8) {
    case 0: v = hint; break;
    case 1: v = rnd() % 17; break;
    case 2: v = (u128) 0 - rnd() % 17; break;
    case 3: v = ((u128) 1 << (rnd() % w)) + rnd() % 3 - 1; break;
    case 4: v = (u128) 0 - (((u128) 1 << (rnd() % w)) + rnd() % 3 - 1); break;
    case 5: v = rnd() >> (rnd() % 64); break;
    case 6: { static const double ds[] = {0.0, 1.0, -1.0, 0.5, 1.5, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, 3.25, 4611686018427387904.0, -4611686018427387904.0}; double d = rnd() % 3 == 0 ? (double) (int64_t) (rnd() >> (rnd() % 64)) : ds[rnd() % 13]; uint64_t b; memcpy(&b, &d, 8); v = b; break; }
    default: v = (u128) 0 - (rnd() >> (rnd() % 64));
    }
    return v & maskw(w);
}
struct CacheEntry { Res r; std::shared_ptr<Model> m; };
std::unordered_map<std::string, CacheEntry> g_cache;

void slice(const std::vector<Val>& pc, const Val& extra, std::vector<Val>& out) {
    std::vector<bool> used(pc.size(), false);
    std::vector<uint32_t> vars = extra.n ? *extra.n->vars : std::vector<uint32_t>();
    std::set<uint32_t> vs(vars.begin(), vars.end());
    bool ch = true;
    if (extra.isc()) { out = pc; return; }
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i] || !pc[i].n) continue;
            bool hit = false;
            for (uint32_t x : *pc[i].n->vars) if (vs.count(x)) { hit = true; break; }
            if (pc[i].n->vars->empty()) hit = true;
            if (hit) {
                used[i] = true; ch = true;
                vs.insert(pc[i].n->vars->begin(), pc[i].n->vars->end());
            }
        }
    }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}

u128 numeral(const z3::expr& e) {
    if (!e.is_numeral()) return 0;
    std::string s = Z3_get_numeral_binary_string(e.ctx(), e);
    u128 v = 0;
    for (char ch : s) v = (v << 1) | (ch == '1');
    return v;
}
void extractModel(z3::model& zm, Model* m) {
    for (unsigned i = 0; i < zm.num_consts(); i++) {
        z3::func_decl d = zm.get_const_decl(i);
        std::string nm = d.name().str();
        if (nm[0] != 'v') continue;
        uint32_t id = strtoul(nm.c_str() + 1, nullptr, 10);
        z3::expr e = zm.get_const_interp(d);
        m->vars[id] = numeral(e);
    }
    for (unsigned i = 0; i < zm.num_funcs(); i++) {
        z3::func_decl d = zm.get_func_decl(i);
        std::string nm = d.name().str();
        if (nm[0] != 'a') continue;
        uint32_t id = strtoul(nm.c_str() + 1, nullptr, 10);
        z3::func_interp fi = zm.get_func_interp(d);
        auto& mp = m->arrays[id];
        for (unsigned j = 0; j < fi.num_entries(); j++) {
            z3::func_entry e = fi.entry(j);
            mp[numeral(e.arg(0))] = numeral(e.value());
        }
        m->arrDefault[id] = numeral(fi.else_value());
    }
}

int runTool(const std::vector<std::string>& argv, const std::string& file, unsigned timeoutMs, std::string& out) {
    int fd[2];
    if (pipe(fd)) return -1;
    pid_t p = fork();
    if (p == 0) {
        dup2(fd[1], 1);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
        close(fd[0]); close(fd[1]);
        std::vector<char*> a;
        for (auto& s : argv) a.push_back((char*) s.c_str());
        a.push_back((char*) file.c_str());
        a.push_back(nullptr);
        alarm(timeoutMs / 1000 + 5);
        execvp(a[0], a.data());
        _exit(127);
    }
    close(fd[1]);
    char buf[256]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    return st;
}
} // namespace

void solverDumpSmt2(const std::vector<Val>& pc, const Val& extra, const std::string& path) {
    z3::solver s(T()->c);
    std::set<uint32_t> roots;
    std::vector<Val> sl;
    slice(pc, extra, sl);
    for (auto& v : sl) { s.add(T()->tb(v)); if (v.n) roots.insert(v.n->vars->begin(), v.n->vars->end()); }
    s.add(T()->tb(extra)); if (extra.n) roots.insert(extra.n->vars->begin(), extra.n->vars->end());
    addTables(s, roots);
    std::ofstream o(path);
    o << "(set-logic ALL)\n" << s.to_smt2();
}

// Proves a == b by congruence: equal operators whose differing operands are provably equal.
static bool congruent(const std::vector<Val>& pc, const Val& a, const Val& b, std::map<std::pair<N, N>, bool>& memo, int& budget) {
    if (same(a, b)) return true;
    if (a.w != b.w || (!a.n && !b.n)) return false;
    auto key = std::make_pair(a.n, b.n);
    if (a.n && b.n) { auto it = memo.find(key); if (it != memo.end()) return it->second; }
    bool ok = false;
    if (a.n && b.n && a.n->op == b.n->op && a.n->aux == b.n->aux && a.n->k.size() == b.n->k.size() && !a.n->k.empty() && a.n->op != Op::SELECT) {
        ok = true;
        for (size_t i = 0; i < a.n->k.size() && ok; i++) ok = congruent(pc, a.n->k[i], b.n->k[i], memo, budget);
    }
    bool mul = (a.n && a.n->hasmul) || (b.n && b.n->hasmul);
    if (!ok && !mul && budget > 0) {
        budget--;
        ok = solverCheck(pc, mkNot(mkEq(a, b)), 2000, nullptr, false) == Res::Unsat;
    }
    if (a.n && b.n) memo[key] = ok;
    return ok;
}

Res solverCheck(const std::vector<Val>& pc, const Val& extra, unsigned timeoutMs, Model* model, bool portfolio) {
    auto t0 = std::chrono::steady_clock::now();
    if (extra.isc() && extra.c == 0) return Res::Unsat;
    g_solver.queries++;
    std::vector<Val> sl;
    slice(pc, extra, sl);
    std::vector<uint32_t> ids;
    for (auto& v : sl) if (v.n) ids.push_back(v.n->id); else if (!v.c) return Res::Unsat;
    std::sort(ids.begin(), ids.end());
    ids.push_back(extra.n ? extra.n->id : 0);
    std::string key((char*) ids.data(), ids.size() * 4);
    auto it = g_cache.find(key);
    if (it != g_cache.end() && (it->second.r != Res::Unknown)) {
        g_solver.cacheHits++;
        if (it->second.r == Res::Sat && model) *model = *it->second.m;
        return it->second.r;
    }
    Res r = Res::Unknown;
    auto m = std::make_shared<Model>();
    bool hasfp = extra.n && extra.n->hasfp;
    if (!hasfp && !(extra.n && extra.n->hasmul) && linearUnsat(sl, extra)) {
        r = Res::Unsat; g_solver.linear++;
        static const char* xc = getenv("VK_XCHECK");
        if (xc) {
            z3::solver s(T()->c); z3::params p(T()->c); p.set("timeout", 20000u); s.set(p);
            for (auto& v : sl) s.add(T()->tb(v));
            s.add(T()->tb(extra));
            if (s.check() == z3::sat) { fprintf(stderr, "XCHECK mismatch: linear\n"); abort(); }
        }
    }
    bool hard = hasfp || (extra.n && extra.n->hasmul);
    for (auto& v : sl) { hasfp |= v.n && v.n->hasfp; hard |= v.n && (v.n->hasfp || v.n->hasmul); }
    if (hard && r == Res::Unknown) try {
        Tr* t = T(true);
        z3::solver s(t->c);
        z3::params p(t->c); p.set("timeout", std::min(timeoutMs, 5000u)); s.set(p);
        std::set<uint32_t> roots;
        for (auto& v : sl) { s.add(t->tb(v)); if (v.n) roots.insert(v.n->vars->begin(), v.n->vars->end()); }
        s.add(t->tb(extra)); if (extra.n) roots.insert(extra.n->vars->begin(), extra.n->vars->end());
        addTables(s, roots, true);
        auto cr = s.check();
        if (cr == z3::unsat) r = Res::Unsat;
        else if (cr == z3::sat) { // the candidate may satisfy the exact constraints as well
            Model am; z3::model zm = s.get_model(); extractModel(zm, &am);
            std::unordered_map<N, u128> cache; bool ok = true; u128 o;
            for (auto& v : sl) if (!evalVal(v, am, cache, o) || !o) { ok = false; break; }
            if (ok && (!evalVal(extra, am, cache, o) || !o)) ok = false;
            if (ok) { r = Res::Sat; *m = am; }
            else { // sample concrete values
                std::set<uint32_t> vs; bool arrays = false;
                auto coll = [&](const Val& v) { if (v.n) for (uint32_t x : *v.n->vars) { if (g_vars[x].isArray) arrays |= !g_vars[x].table; else vs.insert(x); } };
                for (auto& v : sl) coll(v); coll(extra);
                if (!arrays && vs.size() <= 12) {
                    std::vector<Val> all(sl.begin(), sl.end()); all.push_back(extra);
                    std::reverse(all.begin(), all.end());
                    auto st0 = std::chrono::steady_clock::now();
                    for (int it = 0; it < 4000 && !ok; it++) {
                        if ((it & 63) == 63 && std::chrono::duration<double>(std::chrono::steady_clock::now() - st0).count() > 0.15) break;
                        Model tm;
                        for (uint32_t x : vs) tm.vars[x] = sampleValue(g_vars[x].w, am.vars.count(x) ? am.vars[x] : 0);
                        cache.clear(); ok = true;
                        for (auto& v : all) if (!evalVal(v, tm, cache, o)) { ok = false; it = 1 << 20; break; } else if (!o) { ok = false; break; }
                        if (ok) { r = Res::Sat; *m = tm; }
                    }
                }
            }
        }
    } catch (z3::exception& e) { }
    if (r == Res::Unknown && portfolio && extra.n && extra.n->hasmul && extra.n->op == Op::XOR && extra.n->w == 1 && extra.n->k[1].isc() && extra.n->k[0].n && extra.n->k[0].n->op == Op::EQ) {
        std::map<std::pair<N, N>, bool> memo; int budget = 24;
        if (congruent(pc, extra.n->k[0].n->k[0], extra.n->k[0].n->k[1], memo, budget)) r = Res::Unsat;
    }
    if (r == Res::Unknown && !hasfp) {
        Model sm;
        r = satCheck(sl, extra, portfolio ? std::min(timeoutMs, 20000u) / 1000.0 : timeoutMs / 1000.0, &sm);
        if (r == Res::Sat) *m = sm;
        if (r != Res::Unknown) g_solver.sat_backend++;
        static const char* xc = getenv("VK_XCHECK");
        if (xc && r != Res::Unknown) { // development: every answer is compared with z3
            z3::solver s(T()->c);
            z3::params p(T()->c); p.set("timeout", 20000u); s.set(p);
            std::set<uint32_t> roots;
            for (auto& v : sl) s.add(T()->tb(v));
            s.add(T()->tb(extra));
            auto cr = s.check();
            if ((cr == z3::sat && r == Res::Unsat) || (cr == z3::unsat && r == Res::Sat)) { fprintf(stderr, "XCHECK mismatch: sat backend %d z3 %d\n", (int) r, (int) cr); abort(); }
        }
    }
    if (hard && !portfolio) timeoutMs = std::min(timeoutMs, 1200u);
    if (r == Res::Unknown) try {
        z3::solver s = hasfp ? z3::tactic(T()->c, "qffp").mk_solver() : z3::solver(T()->c);
        z3::params p(T()->c);
        p.set("timeout", portfolio ? std::min(timeoutMs, 8000u) : timeoutMs);
        s.set(p);
        std::set<uint32_t> roots;
        for (auto& v : sl) { s.add(T()->tb(v)); if (v.n) roots.insert(v.n->vars->begin(), v.n->vars->end()); }
        s.add(T()->tb(extra)); if (extra.n) roots.insert(extra.n->vars->begin(), extra.n->vars->end());
        addTables(s, roots);
        auto cr = s.check();
        if (cr == z3::sat) { r = Res::Sat; z3::model zm = s.get_model(); extractModel(zm, m.get()); }
        else if (cr == z3::unsat) r = Res::Unsat;
        else if (portfolio) {
            std::string f = "/tmp/vkq." + std::to_string(getpid()) + ".smt2";
            { std::ofstream o(f); o << "(set-logic ALL)\n" << s.to_smt2(); }
            std::string out;
            std::string lim = std::to_string(timeoutMs);
            runTool({"cvc5", "--fp-exp", "--tlimit=" + lim}, f, timeoutMs, out);
            g_solver.cvc5++;
            if (out.substr(0, 5) == "unsat") r = Res::Unsat;
            else if (out.substr(0, 3) == "sat") r = Res::Unknown; // no model: treat as not discharged
            if (r == Res::Unknown && out.substr(0, 3) != "sat") {
                out.clear();
                runTool({"z3-new", "-T:" + std::to_string(timeoutMs / 1000 + 1)}, f, timeoutMs, out);
                g_solver.z3cli++;
                if (out.substr(0, 5) == "unsat") r = Res::Unsat;
            }
            if (r == Res::Unknown) { // last try for a model: plain solver with full budget
                z3::params p2(T()->c); p2.set("timeout", timeoutMs);
                z3::solver s2(T()->c); s2.set(p2);
                z3::expr_vector ev = s.assertions(); for (unsigned q = 0; q < ev.size(); q++) s2.add(ev[q]);
                auto c2 = s2.check();
                if (c2 == z3::sat) { r = Res::Sat; z3::model zm = s2.get_model(); extractModel(zm, m.get()); }
                else if (c2 == z3::unsat) r = Res::Unsat;
            }
            unlink(f.c_str());
        }
    } catch (z3::exception& e) {
        fprintf(stderr, "z3 exception: %s\n", e.msg());
        r = Res::Unknown;
    }
    g_cache[key] = {r, m};
    if (r == Res::Sat) { g_solver.sat++; if (model) *model = *m; }
    else if (r == Res::Unsat) g_solver.unsat++;
    else g_solver.unknown++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_solver.seconds += dt;
    static const char* slow = getenv("VK_SLOW");
    if (slow && dt > atof(slow)) {
        fprintf(stderr, "SLOW %.2f -> %d\n", dt, (int) r);
        for (auto& v : sl) fprintf(stderr, "   pc %s\n", valStr(v, 9).c_str());
        fprintf(stderr, "   ?? %s\n", valStr(extra, 9).c_str());
    }
    return r;
}
