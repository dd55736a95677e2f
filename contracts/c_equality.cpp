// Contracts of equality, hashing and ordering of run time values (src/vm/objects/value.cpp, src/vm/hash.cpp,
// src/vm/math.cpp: compare).
#include "vm_harness.hpp"
#include <cmath>
using namespace vk;
extern "C" vk_replacement vk_replacements_eq[];
vk_replacement vk_replacements_eq[] = { VK_VM_REPLACEMENTS };

enum Kind { KSmall, KBig, KFloat, KNull, KTrue, KFalse, KUndef, KString, KSlice, KSymbol, KTuple, KLast = KTuple };
struct V { u64 kind; i64 i = 0; f64 f = 0; u64 text = 0; Value v = Value::null(); };
static const char* const texts[] = {"", "a", "b", "ab"};
static V any(World& w, u64 k, const char* ni, const char* nf, const char* nt) {
    V r; r.kind = k;
    switch (k) {
    case KSmall: { r.i = vk_i64(ni); vk_assume(vk_and(r.i >= SmallInteger::min, r.i <= SmallInteger::max)); r.v = SmallInteger::make(r.i); vk_rewrite((u64) r.v.must_cast<SmallInteger>().value(), (u64) r.i, "a small integer decodes to what was stored"); break; }
    case KBig: r.i = vk_i64(ni); r.v = w.heap_integer(r.i); break;
    case KFloat: r.f = vk_f64(nf); r.v = w.flt(r.f); break;
    case KNull: r.v = Value::null(); break;
    case KTrue: r.v = w.ctx.get_true(); break;
    case KFalse: r.v = w.ctx.get_false(); break;
    case KUndef: r.v = w.ctx.get_undefined(); break;
    case KString: r.text = vk_choice(nt, 0, 3); r.v = String::make(w.ctx, texts[r.text]); break;
    case KSlice: {
        r.text = vk_choice(nt, 0, 3);
        Scope sc(w.ctx);
        Local s = sc.local(String::make(w.ctx, r.text == 0 ? "x" : r.text == 1 ? "xax" : r.text == 2 ? "xbx" : "xabx"));
        r.v = StringSlice::make(w.ctx, s, 1, r.text == 0 ? 0 : r.text == 3 ? 2 : 1);
        break;
    }
    case KSymbol: r.text = vk_choice(nt, 0, 3); r.v = w.ctx.get_symbol(texts[r.text]); break;
    default: r.v = Tuple::make(w.ctx, 1);
    }
    return r;
}
static bool is_int(u64 k) { return k <= KBig; }
static bool is_text(u64 k) { return k == KString || k == KSlice; }
// mathematical equality of an integer and a float: the float is the exact value i
static bool exact_eq(i64 i, f64 f) {
    // |f| < 2^63 and the nearest double of i is f and f converts back to i
    bool in = vk_and(f >= -0x1p63, f < 0x1p63);
    if (!in) return false;
    return (i64) f == i && (f64) (i64) f == f;
}
static bool oracle_equal(const V& a, const V& b) {
    if (is_int(a.kind) && is_int(b.kind)) return a.i == b.i;
    if (is_int(a.kind) && b.kind == KFloat) return exact_eq(a.i, b.f);
    if (a.kind == KFloat && is_int(b.kind)) return exact_eq(b.i, a.f);
    if (a.kind == KFloat && b.kind == KFloat) return a.f == b.f;
    if (is_text(a.kind) && is_text(b.kind)) return a.text == b.text;
    if (a.kind == KSymbol && b.kind == KSymbol) return a.text == b.text;
    if (a.kind != b.kind) return false;
    return a.kind != KTuple; // two different tuples: reference semantics
}
// vk-covers: equal_spec equal, different
VK_CONTRACT(equal_spec, "P03", "proof", "tiro::vm::equal, String::equal, StringSlice::equal, Symbol::equal", "equality is the mathematical one for numbers in every representation, by content for strings and symbols, by identity otherwise, and symmetric") {
    World w;
    V a = any(w, vk_choice("kind a", 0, KLast), "a", "x", "s"); Local va = w.sc.local(a.v);
    V b = any(w, vk_choice("kind b", 0, KLast), "b", "y", "t"); Local vb = w.sc.local(b.v);
    bool r = vm::equal(*va, *vb);
    if (r) vk_cover("equal"); else vk_cover("different");
    vk_assert(r == oracle_equal(a, b), "values are equal exactly when they denote the same value");
    vk_assert(vm::equal(*vb, *va) == r, "equality is symmetric");
    vk_assert(vm::equal(*va, *va) == (a.kind != KFloat || a.f == a.f), "equality is reflexive except for NaN");
}
// vk-covers: hash_spec equal
VK_CONTRACT(hash_spec, "P03", "proof", "tiro::vm::hash, integer_hash, float_hash, String::hash, StringSlice::hash; equal", "equal values have equal hashes") {
    World w;
    V a = any(w, vk_choice("kind a", 0, KLast), "a", "x", "s"); Local va = w.sc.local(a.v);
    V b = any(w, vk_choice("kind b", 0, KLast), "b", "y", "t"); Local vb = w.sc.local(b.v);
    if (!vm::equal(*va, *vb)) return;
    vk_cover("equal");
    // equality of two integers or floats is an equation the hash computation is rewritten with
    if (is_int(a.kind) && is_int(b.kind)) vk_rewrite((u64) a.i, (u64) b.i, "equal integers are the same number");
    else if (is_int(a.kind) && b.kind == KFloat) vk_rewrite((u64) a.i, (u64) (i64) b.f, "a float that equals an integer converts to it");
    else if (a.kind == KFloat && is_int(b.kind)) vk_rewrite((u64) (i64) a.f, (u64) b.i, "a float that equals an integer converts to it");
    else if (a.kind == KFloat && a.f == 0) { vk_rewrite((u64) (i64) a.f, 0, "zero converts to zero"); vk_rewrite((u64) (i64) b.f, 0, "zero converts to zero"); }
    else if (a.kind == KFloat) { u64 x, y; memcpy(&x, &a.f, 8); memcpy(&y, &b.f, 8); vk_rewrite(x, y, "equal floats other than zero have the same bits"); }
    vk_assert(vm::hash(*va) == vm::hash(*vb), "equal values have equal hashes");
    vk_assert(vm::hash(*va) == vm::hash(*va), "hash is a function of the value");
}
// vk-covers: compare_spec numbers, null, undefined
VK_CONTRACT(compare_spec, "P03", "proof", "tiro::vm::compare", "numbers: exact order for integers, IEEE order otherwise; null below everything; anything else raises") {
    World w;
    u64 ka = vk_choice("kind a", 0, KLast), kb = vk_choice("kind b", 0, KLast);
    vk_assume(vk_and(ka != KUndef, kb != KUndef)); // not a value programs can get hold of
    V a = any(w, ka, "a", "x", "s"); Local va = w.sc.local(a.v);
    V b = any(w, kb, "b", "y", "t"); Local vb = w.sc.local(b.v);
    auto r = vm::compare(w.ctx, va, vb);
    bool na = a.kind <= KFloat, nb = b.kind <= KFloat;
    if (a.kind == KNull || b.kind == KNull) {
        vk_cover("null");
        vk_assert(r.has_value(), "null is comparable with everything");
        vk_assert(r.value() == (a.kind == b.kind ? 0 : a.kind == KNull ? -1 : 1), "null is smaller than any other value");
        return;
    }
    if (!na || !nb) { vk_cover("undefined"); vk_assert(r.has_exception(), "values without an order raise"); return; }
    vk_cover("numbers");
    vk_assert(r.has_value(), "numbers are comparable");
    int c = r.value();
    vk_assert(vk_and(c >= -1, c <= 1), "result is -1, 0 or 1");
    if (is_int(a.kind) && is_int(b.kind)) {
        vk_assert(vk_and((c < 0) == (a.i < b.i), (c > 0) == (a.i > b.i)), "integers are ordered exactly");
    } else {
        f64 x = a.kind == KFloat ? a.f : (f64) a.i, y = b.kind == KFloat ? b.f : (f64) b.i;
        vk_assert(vk_and((c < 0) == (x < y), (c > 0) == (x > y)), "floats are ordered as IEEE 754 prescribes");
    }
}
// vk-covers: compare_swap numbers
VK_CONTRACT(compare_swap, "P03", "proof", "tiro::vm::compare, tiro::vm::equal", "the order is antisymmetric and agrees with equality for numbers of the same kind") {
    World w;
    V a = any(w, vk_choice("kind a", 0, KFloat), "a", "x", "s"); Local va = w.sc.local(a.v);
    V b = any(w, vk_choice("kind b", 0, KFloat), "b", "y", "t"); Local vb = w.sc.local(b.v);
    auto r = vm::compare(w.ctx, va, vb); auto q = vm::compare(w.ctx, vb, va);
    vk_assert(vk_and(r.has_value(), q.has_value()), "numbers are comparable");
    vk_assert(r.value() == -q.value(), "swapping the operands reverses the order");
    bool eq = vm::equal(*va, *vb);
    if (eq) vk_assert(r.value() == 0, "equal numbers are neither smaller nor greater");
    if (is_int(a.kind) && is_int(b.kind) && r.value() == 0) vk_assert(eq, "integers that compare 0 are equal");
    vk_cover("numbers");
}
// vk-covers: float_hash_zero nan
VK_CONTRACT(float_hash_zero, "P03", "proof", "tiro::vm::float_hash", "0.0 and -0.0 hash alike; all NaN hash alike") {
    f64 x = vk_f64("x"), y = vk_f64("y");
    vk_assume(vk_and(x != x, y != y));
    vk_cover("nan");
    vk_assert(float_hash(x) == float_hash(y), "one hash for every NaN");
    vk_assert(float_hash(0.0) == float_hash(-0.0), "one hash for both zeros");
}
VK_CONTRACT(small_int, "P03", "proof", "tiro::vm::Context::get_integer, SmallInteger::make, HeapInteger::make, Integer::value", "an integer value is what was stored, whatever its representation") {
    World w;
    i64 i = vk_i64("i");
    Value v = w.integer(i);
    vk_assert(v.is<Integer>(), "integer");
    vk_assert(v.must_cast<Integer>().value() == i, "value");
    vk_assert((v.type() == vm::ValueType::SmallInteger) == (i >= SmallInteger::min && i <= SmallInteger::max), "small integers are never boxed, large ones always");
    Value h = w.heap_integer(i);
    vk_assert(h.must_cast<Integer>().value() == i, "boxed value");
    auto u = h.must_cast<Integer>().try_extract_size();
    vk_assert(u.has_value() == (i >= 0), "a size is extracted exactly from non-negative integers");
    if (u) vk_assert(*u == (u64) i, "size");
}
