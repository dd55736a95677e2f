// Contracts of compile time evaluation (src/compiler/ir_gen/const_eval.cpp): a folded constant is the value
// the run time (src/vm/math.cpp, equality and truth of src/vm) computes for the same operands.
// vk-link: core compiler
#include "vm_harness.hpp"
#include "compiler/ir_gen/const_eval.hpp"
#include "compiler/ir/value.hpp"
#include "bytecode/module.hpp"
#include <cmath>
using namespace vk;
using ir::Constant;
using ir::ConstantType;
using ir::BinaryOpType;
using ir::UnaryOpType;
extern "C" vk_replacement vk_replacements_fold[];
vk_replacement vk_replacements_fold[] = { VK_VM_REPLACEMENTS };

static u64 bits(f64 d) { u64 b; memcpy(&b, &d, 8); return b; }
// "the folded constant c and the run time value v are indistinguishable"
static void same_value(World& w, const Constant& c, Value v) {
    switch (c.type()) {
    case ConstantType::Integer:
        vk_assert(v.is<Integer>(), "folded and run time results have the same type");
        vk_assert(v.must_cast<Integer>().value() == c.as_integer().value, "folded integer equals the run time result");
        return;
    case ConstantType::Float: {
        vk_assert(v.is<Float>(), "folded and run time results have the same type");
        f64 a = v.must_cast<Float>().value(), b = c.as_float().value;
        vk_assert(vk_or(bits(a) == bits(b), vk_and(a != a, b != b)), "folded float equals the run time result");
        return;
    }
    case ConstantType::True: vk_assert(v.same(w.ctx.get_true()), "folded true is true at run time"); return;
    case ConstantType::False: vk_assert(v.same(w.ctx.get_false()), "folded false is false at run time"); return;
    case ConstantType::Null: vk_assert(v.is_null(), "folded null is null at run time"); return;
    default: vk_fail("no operator folds to a string or symbol");
    }
}
struct Operand { Constant c; Value v; };
enum Kind { KInt, KFloat, KNull, KTrue, KFalse, KString, KSymbol };
static Operand operand(World& w, u64 kind, const char* ni, const char* nf, const char* ns) {
    switch (kind) {
    case KInt: { i64 i = vk_i64(ni); Value v = w.integer(i); vk_rewrite((u64) v.must_cast<Integer>().value(), (u64) i, "an integer value decodes to what was stored"); return {Constant::make_integer(i), v}; }
    case KFloat: { f64 d = vk_f64(nf); return {Constant::make_float(ir::FloatConstant(d)), w.flt(d)}; }
    case KTrue: return {Constant::make_true(), w.ctx.get_true()};
    case KFalse: return {Constant::make_false(), w.ctx.get_false()};
    case KNull: return {Constant::make_null(), Value::null()};
    case KString: { u64 s = vk_choice(ns, 1, 2); return {Constant::make_string(InternedString((u32) s)), String::make(w.ctx, s == 1 ? "a" : "b")}; }
    default: { u64 s = vk_choice(ns, 1, 2); return {Constant::make_symbol(InternedString((u32) s)), w.ctx.get_symbol(s == 1 ? "a" : "b")}; }
    }
}
#define ARITH(id, op, fn)                                                                                              \
    VK_CONTRACT(id, "P02", "proof", "tiro::ir::eval_binary_operation; tiro::vm::" #fn, "folding of " #op " agrees with run time for all numbers") { \
        World w;                                                                                                       \
        u64 ka = vk_choice("kind a", KInt, KNull), kb = vk_choice("kind b", KInt, KFloat);                             \
        Operand a = operand(w, ka, "a", "x", "s"); Local va = w.sc.local(a.v);                                         \
        Operand b = operand(w, kb, "b", "y", "t"); Local vb = w.sc.local(b.v);                                         \
        auto folded = ir::eval_binary_operation(BinaryOpType::op, a.c, b.c);                                           \
        auto r = vm::fn(w.ctx, va, vb);                                                                                \
        if (folded.is_value()) {                                                                                       \
            vk_assert(r.has_value(), "what is folded does not raise at run time");                                     \
            vk_cover("folded");                                                                                        \
            same_value(w, folded.value(), r.value());                                                                  \
        } else {                                                                                                       \
            vk_assert(r.has_exception(), "what folding reports as an error raises at run time");                       \
            vk_cover("error");                                                                                         \
        }                                                                                                              \
    }
// vk-covers: fold_add folded, error
// vk-covers: fold_sub folded, error
// vk-covers: fold_mul folded, error
// vk-covers: fold_div folded, error
// vk-covers: fold_mod folded, error
ARITH(fold_add, Plus, add)
ARITH(fold_sub, Minus, sub)
ARITH(fold_mul, Multiply, mul)
ARITH(fold_div, Divide, div)
ARITH(fold_mod, Modulus, mod)

// vk-covers: fold_unary folded, error
VK_CONTRACT(fold_unary, "P02", "proof", "tiro::ir::eval_unary_operation", "folding of unary + - ~ ! agrees with run time for every constant") {
    World w;
    u64 k = vk_choice("kind", KInt, KSymbol);
    Operand a = operand(w, k, "a", "x", "s"); Local va = w.sc.local(a.v);
    u64 op = vk_choice("op", 0, 3);
    if (op == 3) {
        auto folded = ir::eval_unary_operation(UnaryOpType::LogicalNot, a.c);
        vk_assert(folded.is_value(), "! is defined for every value");
        same_value(w, folded.value(), w.ctx.get_boolean(!w.ctx.is_truthy(va)));
        return;
    }
    auto folded = ir::eval_unary_operation(op == 0 ? UnaryOpType::Plus : op == 1 ? UnaryOpType::Minus : UnaryOpType::BitwiseNot, a.c);
    Value rv = Value::null(); bool ok;
    if (op == 2) { auto r = vm::bitwise_not(w.ctx, va); ok = r.has_value(); if (ok) rv = r.value(); }
    else { auto r = op == 0 ? vm::unary_plus(w.ctx, va) : vm::unary_minus(w.ctx, va); ok = r.has_value(); if (ok) rv = r.value(); }
    vk_assert(folded.is_value() == ok, "folding succeeds exactly when the run time operation does");
    if (ok) { vk_cover("folded"); same_value(w, folded.value(), rv); } else vk_cover("error");
}

// vk-covers: fold_equal equal, different
VK_CONTRACT(fold_equal, "P02", "proof", "tiro::ir::eval_binary_operation; tiro::vm::equal", "folding of == and != agrees with run time for every pair of constants") {
    World w;
    u64 ka = vk_choice("kind a", KInt, KSymbol), kb = vk_choice("kind b", KInt, KSymbol);
    Operand a = operand(w, ka, "a", "x", "s"); Local va = w.sc.local(a.v);
    Operand b = operand(w, kb, "b", "y", "t"); Local vb = w.sc.local(b.v);
    auto eq = ir::eval_binary_operation(BinaryOpType::Equals, a.c, b.c);
    auto ne = ir::eval_binary_operation(BinaryOpType::NotEquals, a.c, b.c);
    vk_assert(vk_and(eq.is_value(), ne.is_value()), "equality is defined for all values");
    bool r = vm::equal(*va, *vb);
    if (r) vk_cover("equal"); else vk_cover("different");
    same_value(w, eq.value(), w.ctx.get_boolean(r));
    same_value(w, ne.value(), w.ctx.get_boolean(!r));
}

// vk-covers: fold_compare folded, error
VK_CONTRACT(fold_compare, "P02", "proof", "tiro::ir::eval_binary_operation; tiro::vm::compare", "folding of < <= > >= agrees with run time for all numbers; anything else is not folded") {
    World w;
    u64 ka = vk_choice("kind a", KInt, KSymbol), kb = vk_choice("kind b", KInt, KSymbol);
    vk_assume(vk_or(ka <= KFloat, kb == KNull));
    Operand a = operand(w, ka, "a", "x", "s"); Local va = w.sc.local(a.v);
    Operand b = operand(w, kb, "b", "y", "t"); Local vb = w.sc.local(b.v);
    u64 op = vk_choice("op", 0, 3);
    auto folded = ir::eval_binary_operation(op == 0 ? BinaryOpType::Less : op == 1 ? BinaryOpType::LessEquals : op == 2 ? BinaryOpType::Greater : BinaryOpType::GreaterEquals, a.c, b.c);
    if (folded.is_error()) { vk_assert(vk_or(ka > KFloat, kb > KFloat), "comparisons of numbers are defined"); vk_cover("error"); return; }
    auto r = vm::compare(w.ctx, va, vb);
    vk_assert(r.has_value(), "what is folded does not raise at run time");
    int c = r.value();
    vk_cover("folded");
    same_value(w, folded.value(), w.ctx.get_boolean(op == 0 ? c < 0 : op == 1 ? c <= 0 : op == 2 ? c > 0 : c >= 0));
}

VK_CONTRACT(fold_bits, "P02", "proof", "tiro::ir::eval_binary_operation", "bit operations and shifts of constants: bitwise results, errors for negative or too large shifts") {
    i64 a = vk_i64("a"), b = vk_i64("b");
    Constant ca = Constant::make_integer(a), cb = Constant::make_integer(b);
    u64 op = vk_choice("op", 0, 4);
    auto r = ir::eval_binary_operation(op == 0 ? BinaryOpType::BitwiseAnd : op == 1 ? BinaryOpType::BitwiseOr : op == 2 ? BinaryOpType::BitwiseXor : op == 3 ? BinaryOpType::LeftShift : BinaryOpType::RightShift, ca, cb);
    if (op >= 3 && (b < 0 || b > 63)) { vk_assert(r.is_error(), "a shift by a negative amount or by 64 and more is not folded"); return; }
    vk_assert(r.is_value(), "defined");
    vk_assert(r.value().type() == ConstantType::Integer, "integer");
    i64 v = r.value().as_integer().value;
    i64 e = op == 0 ? (a & b) : op == 1 ? (a | b) : op == 2 ? (a ^ b) : op == 3 ? (i64) ((u64) a << b) : v;
    vk_assert(v == e, "bitwise result");
}

// Two constants the compiler may merge (it keeps one instance per equal constant) are indistinguishable.
// vk-covers: const_merge merged, distinct
VK_CONTRACT(const_merge, "P02", "proof", "tiro::ir::operator==(Constant); tiro::operator==(BytecodeMember)", "constants that compare equal, and may hence be merged, are the same value at run time") {
    u64 ka = vk_choice("kind a", KInt, KSymbol), kb = vk_choice("kind b", KInt, KSymbol);
    i64 i = vk_i64("i"), j = vk_i64("j"); f64 x = vk_f64("x"), y = vk_f64("y"); u32 s = vk_u32("s"), t = vk_u32("t");
    vk_assume(vk_and(s != 0, t != 0)); vk_assume(vk_and(s != ~0u, t != ~0u));
    auto mk = [](u64 k, i64 i, f64 x, u32 s) {
        return k == KInt ? Constant::make_integer(i) : k == KFloat ? Constant::make_float(ir::FloatConstant(x)) : k == KNull ? Constant::make_null() : k == KTrue ? Constant::make_true() : k == KFalse ? Constant::make_false() : k == KString ? Constant::make_string(InternedString(s)) : Constant::make_symbol(InternedString(s));
    };
    Constant a = mk(ka, i, x, s), b = mk(kb, j, y, t);
    bool eq = a == b;
    vk_assert((a != b) == !eq, "!= is the negation of ==");
    if (ka != kb) { vk_assert(!eq, "constants of different kinds are never merged"); return; }
    if (eq) {
        vk_cover("merged");
        if (ka == KInt) vk_assert(i == j, "merged integers are the same");
        if (ka == KFloat) vk_assert(vk_or(vk_or(bits(x) == bits(y), vk_and(x != x, y != y)), vk_and(x == 0, y == 0)), "merged floats are the same (the sign of zero is kept apart where constants are reused, see member_merge)");
        if (ka >= KString) vk_assert(s == t, "merged strings are the same");
    } else vk_cover("distinct");
}
// vk-covers: member_merge merged, distinct
VK_CONTRACT(member_merge, "P02", "proof", "tiro::operator==(BytecodeMember)", "module constants that compare equal, and may hence be merged, are the same value at run time") {
    u64 ka = vk_choice("kind a", 0, 3), kb = vk_choice("kind b", 0, 3);
    i64 i = vk_i64("i"), j = vk_i64("j"); f64 x = vk_f64("x"), y = vk_f64("y"); u32 s = vk_u32("s"), t = vk_u32("t");
    auto mk = [](u64 k, i64 i, f64 x, u32 s) {
        return k == 0 ? BytecodeMember::make_integer(i) : k == 1 ? BytecodeMember::make_float(x) : k == 2 ? BytecodeMember::make_string(InternedString(s)) : BytecodeMember::make_symbol(BytecodeMemberId(s));
    };
    BytecodeMember a = mk(ka, i, x, s), b = mk(kb, j, y, t);
    bool eq = a == b;
    vk_assert((a != b) == !eq, "!= is the negation of ==");
    if (ka != kb) { vk_assert(!eq, "constants of different kinds are never merged"); return; }
    if (eq) {
        vk_cover("merged");
        if (ka == 0) vk_assert(i == j, "merged integers are the same");
        if (ka == 1) vk_assert(bits(x) == bits(y), "merged floats are the same (0.0 and -0.0 are not)");
        if (ka >= 2) vk_assert(s == t, "merged references are the same");
    } else vk_cover("distinct");
}
