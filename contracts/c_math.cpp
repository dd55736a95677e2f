// Contracts of the run-time arithmetic of the tiro language (src/vm/math.cpp and what it calls).
#include "vm_harness.hpp"
#include <cmath>
using namespace vk;
extern "C" vk_replacement vk_replacements_math[];
vk_replacement vk_replacements_math[] = { VK_VM_REPLACEMENTS };

// "The result is exact or an exception": common postcondition of all integer operators.
static void ensure_exact(Fallible<Number> r, __int128 exact) {
    if (fits64(exact)) {
        vk_assert(r.has_value(), "representable result is returned, not an exception");
        Number n = r.value();
        vk_assert(n.is<Integer>(), "integer operands give an integer");
        vk_assert(n.convert_int() == (i64) exact, "result is the mathematically exact one");
        vk_cover("value");
    } else {
        vk_assert(r.has_exception(), "unrepresentable result raises instead of wrapping");
        vk_cover("overflow");
    }
}
static void ensure_value(Fallible<Number> r, i64 exact) { ensure_exact(r, exact); }
static void ensure_exception(Fallible<Number> r) {
    vk_assert(r.has_exception(), "an undefined integer operation raises");
    vk_cover("exception");
}
// Representation independence of integers, used as a lemma by the arithmetic contracts.
static void lemma_value(Value v, i64 expected) { vk_rewrite((u64) v.must_cast<Integer>().value(), (u64) expected, "an integer value decodes to what was stored"); }

#define BINARY(id, fn, expr)                                                                        \
    VK_CONTRACT(id, "P01", "proof", "tiro::vm::" #fn, "for all 64 bit a, b: exact or exception") {   \
        World w;                                                                                    \
        i64 a = vk_i64("a"), b = vk_i64("b");                                                       \
        Local va = w.sc.local(w.integer(a)), vb = w.sc.local(w.integer(b));                         \
        lemma_value(*va, a); lemma_value(*vb, b);                                                   \
        __int128 A = a, B = b;                                                                      \
        (void) A; (void) B;                                                                         \
        ensure_exact(fn(w.ctx, va, vb), (expr));                                                    \
    }
// vk-covers: math_add value, overflow
// vk-covers: math_sub value, overflow
// vk-covers: math_mul value, overflow
BINARY(math_add, vm::add, A + B)
BINARY(math_sub, vm::sub, A - B)
BINARY(math_mul, vm::mul, A * B)

// vk-covers: math_div value, exception
VK_CONTRACT(math_div, "P01", "proof", "tiro::vm::div", "truncated quotient, or an exception when undefined or unrepresentable") {
    World w;
    i64 a = vk_i64("a"), b = vk_i64("b");
    Local va = w.sc.local(w.integer(a)), vb = w.sc.local(w.integer(b));
    lemma_value(*va, a); lemma_value(*vb, b);
    auto r = vm::div(w.ctx, va, vb);
    if (b == 0 || (a == INT64_MIN && b == -1)) ensure_exception(r);
    else ensure_value(r, a / b);
}
// vk-covers: math_mod value, exception
VK_CONTRACT(math_mod, "P01", "proof", "tiro::vm::mod", "remainder of the truncated division, or an exception when undefined") {
    World w;
    i64 a = vk_i64("a"), b = vk_i64("b");
    Local va = w.sc.local(w.integer(a)), vb = w.sc.local(w.integer(b));
    lemma_value(*va, a); lemma_value(*vb, b);
    auto r = vm::mod(w.ctx, va, vb);
    if (b == 0) ensure_exception(r);
    else if (a == INT64_MIN && b == -1) { // remainder 0 is representable; raising is accepted, a wrong value is not
        if (r.has_value()) ensure_value(r, 0);
    } else ensure_value(r, a % b);
}
// vk-covers: math_neg value, overflow
VK_CONTRACT(math_neg, "P01", "proof", "tiro::vm::unary_minus", "exact negation or exception") {
    World w;
    i64 a = vk_i64("a");
    Local va = w.sc.local(w.integer(a));
    ensure_exact(vm::unary_minus(w.ctx, va), -(__int128) a);
}
// vk-covers: math_plus value
VK_CONTRACT(math_plus, "P01", "proof", "tiro::vm::unary_plus", "identity on numbers") {
    World w;
    i64 a = vk_i64("a");
    Local va = w.sc.local(w.integer(a));
    ensure_value(vm::unary_plus(w.ctx, va), a);
}
VK_CONTRACT(math_not, "P01", "proof", "tiro::vm::bitwise_not", "~a for all 64 bit a") {
    World w;
    i64 a = vk_i64("a");
    Local va = w.sc.local(w.integer(a));
    auto r = vm::bitwise_not(w.ctx, va);
    vk_assert(r.has_value(), "defined for every integer");
    vk_assert(r.value().value() == ~a, "complement of every bit");
}

// ---------------------------------------------------------------- powers
// Ghost exponents: inside pow every number that checked_mul sees is a power base^e of the base.  The
// contract of checked_mul (product if representable, failure otherwise) then says that base^(e1+e2) is
// produced exactly when |base^(e1+e2)| fits, i.e. when base lies in [lo_e, hi_e].
namespace {
struct GhostPower { i64 value; unsigned exp; };
GhostPower g_powers[160];
unsigned g_power_count = 0;
i64 g_base = 0;
bool g_ghost = false;
// largest and smallest base whose e-th power fits into 64 bits
struct Roots {
    i64 hi[64] = {}, lo[64] = {};
    static constexpr bool fits(i64 b, unsigned e) {
        __int128 p = 1;
        for (unsigned i = 0; i < e; i++) { p *= b; if (p > (__int128) INT64_MAX || p < (__int128) INT64_MIN) return false; }
        return true;
    }
    constexpr Roots() {
        for (unsigned e = 1; e < 64; e++) {
            i64 l = 1, h = e == 1 ? INT64_MAX : 3037000500;
            while (l < h) { i64 m = l + (h - l) / 2 + ((h - l) & 1); if (fits(m, e)) l = m; else h = m - 1; }
            hi[e] = l;
            l = e == 1 ? INT64_MIN : -3037000500; h = -1;
            while (l < h) { i64 m = l / 2 + h / 2 - ((l & 1) + (h & 1) == -2 ? 1 : 0); if (m >= h) m = h - 1; if (fits(m, e)) h = m; else l = m + 1; }
            lo[e] = h;
        }
    }
};
constexpr Roots g_roots;
static_assert(g_roots.hi[1] == INT64_MAX && g_roots.lo[1] == INT64_MIN && g_roots.hi[2] == 3037000499 && g_roots.lo[2] == -3037000499 && g_roots.hi[3] == 2097151 && g_roots.lo[3] == -2097152 && g_roots.hi[63] == 1 && g_roots.lo[63] == -2);
i64 root_hi(unsigned e) { return g_roots.hi[e]; }
i64 root_lo(unsigned e) { return g_roots.lo[e]; }
unsigned exponent_of(i64 v) {
    // the most recent symbolic twin is identified by identity of the term: values are fresh per power
    for (unsigned i = g_power_count; i-- > 0;) if (vk_same((u64) g_powers[i].value, (u64) v)) return g_powers[i].exp;
    return ~0u;
}
bool vk_stub_checked_mul(i64 a, i64 b, i64& out) {
    if (!g_ghost) return !__builtin_mul_overflow(a, b, &out);
    unsigned ea = exponent_of(a), eb = exponent_of(b);
    if (ea == ~0u || eb == ~0u) return !__builtin_mul_overflow(a, b, &out);
    unsigned e = ea + eb;
    if (e == 0) { out = 1; return true; }
    bool fits = e <= 63 ? vk_and(g_base <= root_hi(e), g_base >= root_lo(e)) : false; // |base| >= 2
    if (!fits) return false;
    if (e == 1) { out = g_base; return true; }
    i64 v = vk_i64("power");
    g_powers[g_power_count++] = {v, e};
    out = v;
    return true;
}
}
extern "C" vk_replacement vk_replacements_pow[];
vk_replacement vk_replacements_pow[] = { { "~_ZN4tiro11checked_mulIl~S2_S2_RS2_", (void*) vk_stub_checked_mul } };

// vk-covers: math_pow value, overflow, exp 63
VK_CONTRACT(math_pow, "P01", "proof", "tiro::vm::pow; callee contract: checked_mul", "for |a| >= 2 and every exponent: a**b exactly or an exception") {
    World w;
    i64 a = vk_i64("a"), b = vk_i64("b");
    vk_assume(vk_or(a >= 2, a <= -2));
    Local va = w.sc.local(w.integer(a)), vb = w.sc.local(w.integer(b));
    lemma_value(*va, a); lemma_value(*vb, b);
    g_ghost = true; g_base = a; g_power_count = 0;
    g_powers[g_power_count++] = {1, 0};
    g_powers[g_power_count++] = {a, 1};
    auto r = vm::pow(w.ctx, va, vb);
    g_ghost = false;
    if (b < 0) { ensure_value(r, 0); return; } // |a**b| < 1 truncates to zero
    if (b > 63) { ensure_exception(r); return; }
    unsigned e = (unsigned) vk_concretize((u64) b);
    bool fits = e == 0 || vk_and(a <= root_hi(e), a >= root_lo(e));
    if (!fits) { vk_assert(r.has_exception(), "unrepresentable power raises instead of wrapping"); vk_cover("overflow"); return; }
    vk_assert(r.has_value(), "representable power is returned, not an exception");
    if (e == 63) vk_cover("exp 63");
    i64 got = r.value().convert_int();
    bool ok = false;
    for (unsigned i = 0; i < g_power_count; i++) if (g_powers[i].exp == e && !ok) ok = got == g_powers[i].value;
    if (!vk_symbolic()) { __int128 p = 1; for (unsigned i = 0; i < e; i++) p *= a; ok = p == got; }
    vk_assert(ok, "result is base**exponent");
    vk_cover("value");
}
// vk-covers: math_pow_unit value, exception
VK_CONTRACT(math_pow_unit, "P01", "proof", "tiro::vm::pow", "bases 0, 1, -1 and every negative or small exponent") {
    World w;
    i64 a = (i64) vk_choice("a+1", 0, 2) - 1, b = vk_i64("b");
    vk_assume(b < 32);
    Local va = w.sc.local(w.integer(a)), vb = w.sc.local(w.integer(b));
    lemma_value(*vb, b);
    auto r = vm::pow(w.ctx, va, vb);
    if (a == 0) {
        if (b < 0) ensure_exception(r);
        else ensure_value(r, b == 0);
    } else if (a == 1) ensure_value(r, 1);
    else ensure_value(r, (b & 1) ? -1 : 1);
}

// ---------------------------------------------------------------- floats and mixed operands
static void ensure_float(Fallible<Number> r, f64 expected) {
    vk_assert(r.has_value(), "float arithmetic never raises");
    Number n = r.value();
    vk_assert(n.is<Float>(), "an operand of float type makes the result a float");
    f64 got = n.convert_float();
    u64 x, y; memcpy(&x, &got, 8); memcpy(&y, &expected, 8);
    vk_assert(vk_or(x == y, vk_and(got != got, expected != expected)), "IEEE 754 result of the converted operands");
    vk_cover("float");
}
#define FLOATOP(id, fn, expr)                                                                        \
    VK_CONTRACT(id, "P01", "proof", "tiro::vm::" #fn, "float and mixed operands") {                   \
        World w;                                                                                     \
        u64 mode = vk_choice("mode", 0, 2);                                                          \
        i64 i = vk_i64("i"); f64 x = vk_f64("x"), y = vk_f64("y");                                   \
        Local va = w.sc.local(mode == 1 ? w.integer(i) : w.flt(x));                                   \
        Local vb = w.sc.local(mode == 2 ? w.integer(i) : w.flt(y));                                   \
        if (mode == 1) lemma_value(*va, i);                                                          \
        if (mode == 2) lemma_value(*vb, i);                                                          \
        f64 A = mode == 1 ? (f64) i : x, B = mode == 2 ? (f64) i : y;                                \
        ensure_float(fn(w.ctx, va, vb), (expr));                                                     \
    }
// vk-covers: math_fadd float
// vk-covers: math_fsub float
// vk-covers: math_fmul float
// vk-covers: math_fdiv float
// vk-covers: math_fmod float
// vk-covers: math_fpow float
FLOATOP(math_fadd, vm::add, A + B)
FLOATOP(math_fsub, vm::sub, A - B)
FLOATOP(math_fmul, vm::mul, A * B)
FLOATOP(math_fdiv, vm::div, A / B)
FLOATOP(math_fmod, vm::mod, std::fmod(A, B))
FLOATOP(math_fpow, vm::pow, std::pow(A, B))
VK_CONTRACT(math_fneg, "P01", "proof", "tiro::vm::unary_minus, tiro::vm::unary_plus", "float negation and identity") {
    World w;
    f64 x = vk_f64("x");
    Local v = w.sc.local(w.flt(x));
    ensure_float(vm::unary_minus(w.ctx, v), -x);
    ensure_float(vm::unary_plus(w.ctx, v), x);
}
// vk-covers: math_types rejected
VK_CONTRACT(math_types, "P01", "proof", "tiro::vm::add, sub, mul, div, mod, pow, unary_plus, unary_minus, bitwise_not", "operands that are not numbers raise, they are never interpreted as numbers") {
    World w;
    Scope sc(w.ctx);
    u64 kind = vk_choice("kind", 0, 4);
    Local other = sc.local(kind == 0 ? Value::null() : kind == 1 ? Value(w.ctx.get_true()) : kind == 2 ? Value(String::make(w.ctx, "1")) : kind == 3 ? Value(w.ctx.get_symbol("a")) : Value(Tuple::make(w.ctx, 2)));
    Local num = sc.local(vk_choice("float", 0, 1) ? w.flt(vk_f64("x")) : w.integer(vk_i64("i")));
    bool left = vk_choice("left", 0, 1);
    Handle<Value> a = left ? Handle<Value>(other) : Handle<Value>(num), b = left ? Handle<Value>(num) : Handle<Value>(other);
    switch (vk_choice("op", 0, 8)) {
    case 0: ensure_exception(vm::add(w.ctx, a, b)); break;
    case 1: ensure_exception(vm::sub(w.ctx, a, b)); break;
    case 2: ensure_exception(vm::mul(w.ctx, a, b)); break;
    case 3: ensure_exception(vm::div(w.ctx, a, b)); break;
    case 4: ensure_exception(vm::mod(w.ctx, a, b)); break;
    case 5: ensure_exception(vm::pow(w.ctx, a, b)); break;
    case 6: ensure_exception(vm::unary_plus(w.ctx, other)); break;
    case 7: ensure_exception(vm::unary_minus(w.ctx, other)); break;
    default: vk_assert(vm::bitwise_not(w.ctx, other).has_exception(), "~ of a non-integer raises");
    }
    vk_cover("rejected");
}
