// Contracts of the bytecode interpreter: the effect of every instruction, for every register assignment.
// Callees of the interpreter loop (operators, containers, calls) are represented by their contracts: each records
// its operands and yields an arbitrary result or an exception; P01, P03, P05 and P13 decide those contracts.
// vk-link: core
// vk-native: contracts
// vk-opts: * --fork-select --alias-query
#include "vm_harness.hpp"
#include "bytecode/op.hpp"
#include <vector>
using namespace vk;

namespace {
enum Fn { NONE, ADD, SUB, MUL, DIV, MOD, POW, UPLUS, UMINUS, BITNOT, COMPARE, EQUAL, LDIDX, STIDX, LDMEM, STMEM, LDMETH, ITER, NEXT, MKARRAY, MKTUPLE, MKSET, MKREC, MKCLOSURE, MKENV, FMT, FMTRESULT, CALL, CALLM, RET, UNWIND, GETM, SETM, SETPC, MKBUILDER, ASSERTFAIL, GROW, MKMAP, MAPSET };
bool g_on, g_real, g_env; int g_n; struct Rec { Fn fn; u64 a[4]; } g_call[24];
u64 g_result; bool g_raise; u64 g_exc; i32 g_int; bool g_bool; u64 g_member;
void rec(Fn f, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0) { vk_assert(g_n < 24, "bounded number of calls"); g_call[g_n++] = {f, {a, b, c, d}}; }
Value val(u64 raw) { Value v; memcpy(&v, &raw, 8); return v; }
template<typename T> Fallible<T> outcome() { if (g_raise) return Exception(val(g_exc)); return T(val(g_result)); }
Fallible<void> outcome_void() { if (g_raise) return Exception(val(g_exc)); return {}; }
#define BIN(name, ID) static Fallible<Number> vk_stub_##name(Context& c, Handle<Value> a, Handle<Value> b) { if (!g_on) return tiro::vm::name(c, a, b); rec(ID, a->raw(), b->raw()); return outcome<Number>(); }
BIN(add, ADD) BIN(sub, SUB) BIN(mul, MUL) BIN(div, DIV) BIN(mod, MOD) BIN(pow, POW)
static Fallible<Number> vk_stub_uplus(Context&, Handle<Value> a) { rec(UPLUS, a->raw()); return outcome<Number>(); }
static Fallible<Number> vk_stub_uminus(Context&, Handle<Value> a) { rec(UMINUS, a->raw()); return outcome<Number>(); }
static Fallible<Integer> vk_stub_bnot(Context&, Handle<Value> a) { rec(BITNOT, a->raw()); return outcome<Integer>(); }
static Fallible<int> vk_stub_compare(Context&, Handle<Value> a, Handle<Value> b) { rec(COMPARE, a->raw(), b->raw()); if (g_raise) return Exception(val(g_exc)); return (int) g_int; }
static bool vk_stub_equal(Value a, Value b) { if (!g_on) return equal(a, b); rec(EQUAL, a.raw(), b.raw()); return g_bool; }
static Fallible<Value> vk_stub_ldidx(TypeSystem*, Context&, Handle<Value> o, Handle<Value> i) { rec(LDIDX, o->raw(), i->raw()); return outcome<Value>(); }
static Fallible<void> vk_stub_stidx(TypeSystem*, Context&, Handle<Value> o, Handle<Value> i, Handle<Value> v) { rec(STIDX, o->raw(), i->raw(), v->raw()); return outcome_void(); }
static Fallible<Value> vk_stub_ldmem(TypeSystem*, Context&, Handle<Value> o, Handle<Symbol> m) { rec(LDMEM, o->raw(), m->raw()); return outcome<Value>(); }
static Fallible<void> vk_stub_stmem(TypeSystem*, Context&, Handle<Value> o, Handle<Symbol> m, Handle<Value> v) { rec(STMEM, o->raw(), m->raw(), v->raw()); return outcome_void(); }
static Fallible<Value> vk_stub_ldmeth(TypeSystem*, Context&, Handle<Value> o, Handle<Symbol> m) { rec(LDMETH, o->raw(), m->raw()); return outcome<Value>(); }
static Fallible<Value> vk_stub_iter(TypeSystem*, Context&, Handle<Value> o) { rec(ITER, o->raw()); return outcome<Value>(); }
static Fallible<std::optional<Value>> vk_stub_next(TypeSystem*, Context&, Handle<Value> o) { rec(NEXT, o->raw()); if (g_raise) return Exception(val(g_exc)); if (g_bool) return std::optional<Value>(val(g_result)); return std::optional<Value>(); }
static Array vk_stub_array(Context& c, HandleSpan<Value> s) { if (!g_on) return Array::make(c, s); rec(MKARRAY, (u64) s.raw_slots().data(), s.size()); return Array(val(g_result)); }
static Tuple vk_stub_tuple(Context& c, HandleSpan<Value> s) { if (!g_on) return Tuple::make(c, s); rec(MKTUPLE, (u64) s.raw_slots().data(), s.size()); return Tuple(val(g_result)); }
static Fallible<Set> vk_stub_set(Context& c, HandleSpan<Value> s) { if (!g_on) return Set::make(c, s); rec(MKSET, (u64) s.raw_slots().data(), s.size()); return outcome<Set>(); }
static Record vk_stub_record(Context& c, Handle<RecordSchema> s) { if (!g_on) return Record::make(c, s); rec(MKREC, s->raw()); return Record(val(g_result)); }
static CodeFunction vk_stub_closure(Context& c, Handle<CodeFunctionTemplate> t, MaybeHandle<Environment> e) { if (!g_on) return CodeFunction::make(c, t, e); rec(MKCLOSURE, t->raw(), e ? e.handle()->raw() : 0); return CodeFunction(val(g_result)); }
static Environment vk_stub_env(Context& c, size_t n, MaybeHandle<Environment> p) { if (!g_on) return Environment::make(c, n, p); rec(MKENV, n, p ? p.handle()->raw() : 0); return Environment(val(g_result)); }
static StringBuilder vk_stub_builder(Context& c) { if (!g_on) return StringBuilder::make(c); rec(MKBUILDER); return StringBuilder(val(g_result)); }
static void vk_stub_fmt(Context& c, Handle<StringBuilder> b, Handle<Value> v) { if (!g_on) return to_string(c, b, v); rec(FMT, b->raw(), v->raw()); }
static String vk_stub_fmtresult(StringBuilder* b, Context& c) { if (!g_on) return b->to_string(c); rec(FMTRESULT, b->raw()); return String(val(g_result)); }
static void vk_stub_call(Interpreter*, Handle<Coroutine> c, Handle<Value> f, u32 n) { rec(CALL, f->raw(), n, c->raw()); }
static void vk_stub_callm(Interpreter*, Handle<Coroutine> c, Handle<Value> f, u32 n) { rec(CALLM, f->raw(), n, c->raw()); }
static void vk_stub_return(Interpreter*, Handle<Coroutine> c, Value v) { rec(RET, v.raw(), c->raw()); }
static void vk_stub_unwind(Interpreter*, Handle<Coroutine> c, Exception e) { rec(UNWIND, e.raw(), c->raw()); }
static Value vk_stub_getm(BytecodeInterpreter* b, u32 i) { if (g_real) return b->get_member(i); rec(GETM, i); return val(g_member); }
static void vk_stub_setm(BytecodeInterpreter* b, u32 i, Value v) { if (g_real) return b->set_member(i, v); rec(SETM, i, v.raw()); }
static void vk_stub_setpc(BytecodeInterpreter* b, u32 i) { if (g_real) return b->set_pc(i); rec(SETPC, i); }
static Exception vk_stub_afail(Context&, Handle<String> e, MaybeHandle<String> m) { rec(ASSERTFAIL, e->raw(), m ? m.handle()->raw() : 0); return Exception(val(g_exc)); }
static Fallible<HashTable> vk_stub_mkmap(Context& c, size_t n) { if (!g_on) return HashTable::make(c, n); rec(MKMAP, n); return outcome<HashTable>(); }
static Fallible<bool> vk_stub_mapset(HashTable* t, Context& c, Handle<Value> k, Handle<Value> v) { if (!g_on) return t->set(c, k, v); rec(MAPSET, t->raw(), k->raw(), v->raw()); return true; }
// Contract of CoroutineStack::grow (P13 stack_history decides it): a stack of the given size with the same content.
CoroutineStack (*g_grow)(CoroutineStack old, u32 size);
static CoroutineStack vk_stub_grow(Context& c, Handle<CoroutineStack> old, u32 size) { if (!g_grow) return CoroutineStack::grow(c, old, size); rec(GROW, old->raw(), size); return g_grow(*old, size); }
}
extern "C" vk_replacement vk_replacements_interp[];
vk_replacement vk_replacements_interp[] = { VK_VM_REPLACEMENTS,
    { "tiro::vm::add(", (void*) vk_stub_add }, { "tiro::vm::sub(", (void*) vk_stub_sub }, { "tiro::vm::mul(", (void*) vk_stub_mul }, { "tiro::vm::div(", (void*) vk_stub_div }, { "tiro::vm::mod(", (void*) vk_stub_mod }, { "tiro::vm::pow(", (void*) vk_stub_pow },
    { "tiro::vm::unary_plus(", (void*) vk_stub_uplus }, { "tiro::vm::unary_minus(", (void*) vk_stub_uminus }, { "tiro::vm::bitwise_not(", (void*) vk_stub_bnot }, { "tiro::vm::compare(", (void*) vk_stub_compare }, { "tiro::vm::equal(tiro::vm::Value, tiro::vm::Value)", (void*) vk_stub_equal },
    { "tiro::vm::TypeSystem::load_index(", (void*) vk_stub_ldidx }, { "tiro::vm::TypeSystem::store_index(", (void*) vk_stub_stidx }, { "tiro::vm::TypeSystem::load_member(", (void*) vk_stub_ldmem }, { "tiro::vm::TypeSystem::store_member(", (void*) vk_stub_stmem },
    { "tiro::vm::TypeSystem::load_method(", (void*) vk_stub_ldmeth }, { "tiro::vm::TypeSystem::iterator(", (void*) vk_stub_iter }, { "tiro::vm::TypeSystem::iterator_next(", (void*) vk_stub_next },
    { "tiro::vm::Array::make(tiro::vm::Context&, tiro::vm::HandleSpan<tiro::vm::Value>)", (void*) vk_stub_array }, { "tiro::vm::Tuple::make(tiro::vm::Context&, tiro::vm::HandleSpan<tiro::vm::Value>)", (void*) vk_stub_tuple }, { "tiro::vm::Set::make(tiro::vm::Context&, tiro::vm::HandleSpan<tiro::vm::Value>)", (void*) vk_stub_set },
    { "tiro::vm::Record::make(tiro::vm::Context&, tiro::vm::Handle<tiro::vm::RecordSchema>)", (void*) vk_stub_record }, { "tiro::vm::CodeFunction::make(", (void*) vk_stub_closure }, { "tiro::vm::Environment::make(", (void*) vk_stub_env },
    { "tiro::vm::StringBuilder::make(tiro::vm::Context&)", (void*) vk_stub_builder }, { "tiro::vm::to_string(tiro::vm::Context&, tiro::vm::Handle<tiro::vm::StringBuilder>, tiro::vm::Handle<tiro::vm::Value>)", (void*) vk_stub_fmt }, { "tiro::vm::StringBuilder::to_string(tiro::vm::Context&)", (void*) vk_stub_fmtresult },
    { "tiro::vm::Interpreter::call_function(", (void*) vk_stub_call }, { "tiro::vm::Interpreter::call_method(", (void*) vk_stub_callm }, { "tiro::vm::Interpreter::return_function(", (void*) vk_stub_return }, { "tiro::vm::Interpreter::unwind(", (void*) vk_stub_unwind },
    { "tiro::vm::BytecodeInterpreter::get_member(", (void*) vk_stub_getm }, { "tiro::vm::BytecodeInterpreter::set_member(", (void*) vk_stub_setm }, { "tiro::vm::BytecodeInterpreter::set_pc(", (void*) vk_stub_setpc },
    { "tiro::vm::assertion_failed_exception(", (void*) vk_stub_afail }, { "tiro::vm::CoroutineStack::grow(", (void*) vk_stub_grow }, { "tiro::vm::HashTable::make(tiro::vm::Context&, unsigned long)", (void*) vk_stub_mkmap }, { "tiro::vm::HashTable::set(", (void*) vk_stub_mapset } };

namespace {
using Op = BytecodeOp;
// A coroutine whose stack holds one function frame with any number of arguments, locals and temporary values, all
// of arbitrary content, and whose code is one instruction followed by "return local 0".
struct Machine : World {
    Local<String> name; Local<Module> module; Local<CodeFunctionTemplate> tmpl; Local<Coroutine> coro;
    u64 argc, locals, nvals, room, frame, at, cells; u64* data; CoroutineStack::Layout* d; CodeFrame* f;
    byte code[64]; u32 n = 0; u64 keep, kept; std::vector<u64> written; bool threw = false; u64 top0 = 0; u64 pc_cell;
    static constexpr u64 fs = sizeof(CodeFrame) / 8;
    Local<Module> mkmod() { Local m = sc.local(Tuple::make(ctx, 0)); Local e = sc.local(HashTable::make(ctx)); return sc.local(Module::make(ctx, name, m, e)); }
    u64 dim(const char* nm, unsigned bits, u64 small) { u64 v = vk_nondet(nm, bits); return vk_symbolic() ? v : v % small; }
    Machine() : name(sc.local(String::make(ctx, "Test"))), module(mkmod()), tmpl(sc.local(CodeFunctionTemplate::make(ctx, name, module, 0, 0, {}, Span<const byte>(code, 64)))), coro(mkcoro()) {
        g_on = false; g_n = 0; g_raise = false;
        argc = dim("arguments", 21, 5); locals = dim("locals", 21, 6); nvals = dim("values", 21, 5); room = dim("room", 21, 4);
        vk_assume(locals >= 1);
        frame = argc; at = frame + fs + locals + nvals; cells = at + room;
        Local real = sc.local(CoroutineStack::make(ctx, CoroutineStack::initial_size));
        u64* blk = (u64*) vk_array("stack", cells + sizeof(CoroutineStack::Layout) / 8, 8);
        memcpy(blk, real->layout(), sizeof(CoroutineStack::Layout));
        d = (CoroutineStack::Layout*) blk; data = (u64*) d->data;
        d->end = (byte*) (data + cells); d->top = (byte*) (data + at); f = (CodeFrame*) (data + frame); d->top_frame = f;
        CoroutineFrameParams p; p.argc = (u32) argc; p.locals = (u32) locals; new (f) CodeFrame(*tmpl, Nullable<Environment>(), p);
        pc_cell = frame + fs - 1;
        coro->stack(CoroutineStack(HeapValue(d))); coro->state(CoroutineState::Running);
        if (!vk_symbolic()) for (u64 i = 0; i < locals; i++) if (i + 1 < locals) data[frame + fs + i] = SmallInteger::make((i64) i + 100).raw();
    }
    Local<Coroutine> mkcoro() { Local st = sc.local(CoroutineStack::make(ctx, CoroutineStack::initial_size)); Local fn = sc.local(); return sc.local(Coroutine::make(ctx, name, fn, {}, st)); }
    void op(Op o) { code[n++] = (byte) o; }
    void u32_(u32 v) { for (int i = 3; i >= 0; i--) code[n++] = (byte) (v >> (8 * i)); }
    void u64_(u64 v) { u32_((u32) (v >> 32)); u32_((u32) v); }
    // a register operand: any local; yields its cell
    u64 r(const char* nm) { u64 v = dim(nm, 21, locals); vk_assume(v < locals); u32_((u32) v); return frame + fs + v; }
    u32 num(const char* nm) { u32 v = vk_u32(nm); u32_(v); return v; }
    // an index into a container of three elements: every valid one, or any invalid one
    u32 index() { u64 c = vk_choice("index case", 0, 3); if (c < 3) { u32_((u32) c); return (u32) c; } u32 v = vk_u32("index"); if (!vk_symbolic() && v < 3) v += 3; vk_assume(v >= 3); u32_(v); return v; }
    void set(u64 cell, Value v) { data[cell] = v.raw(); }
    void write(u64 cell) { written.push_back(cell); }
    // runs the instruction
    void go() {
        u32 len = n; op(Op::Return); u32_(0); vk_assert(n <= 64, "code buffer");
        memcpy((void*) tmpl->code().data(), code, n); f->pc = tmpl->code().data();
        keep = dim("other cell", 24, cells); vk_assume(keep < cells && keep != pc_cell); kept = data[keep]; top0 = (u64) d->top; n = len;
        BytecodeInterpreter bi(ctx, ctx.interpreter(), ctx.interpreter().regs_, *coro, TIRO_NN(f));
        g_on = true;
        try { bi.run(); } catch (const Error&) { threw = true; }
        g_on = false;
        bool in = false; for (u64 c : written) in = vk_or(in, keep == c);
        vk_assert(vk_or(in, data[keep] == kept), "no other register, argument, value or frame field changes");
        vk_assert(!threw, "executing an instruction does not fail");
        vk_assert(bi.regs_.slots_used_ == 0, "temporary registers are released");
    }
    u64 get(u64 cell) { return data[cell]; }
    // the instruction completed: `calls` callees were used, and execution continued with the next instruction
    void done(int calls, i64 stack_delta = 0) {
        vk_assert(g_n == calls + 1 && g_call[calls].fn == RET && g_call[calls].a[1] == coro->raw(), "execution continues with the next instruction");
        vk_assert(g_call[calls].a[0] == get(frame + fs), "the value of a register is returned");
        vk_assert(f->pc == tmpl->code().data() + n + 5, "the whole instruction was consumed");
        vk_assert((u64) d->top == top0 + 8 * stack_delta, "the number of values on the stack");
    }
    void raised(int calls, u64 ex = 0) {
        vk_assert(g_n == calls + 1 && g_call[calls].fn == UNWIND && g_call[calls].a[1] == coro->raw(), "the exception is raised");
        if (ex) vk_assert(g_call[calls].a[0] == ex, "the exception is the callee's");
        vk_assert((u64) d->top == top0, "the stack is unchanged");
    }
    void call(int i, Fn fn, u64 a = 0, u64 b = 0, u64 c = 0) { vk_assert(i < g_n && g_call[i].fn == fn, "the operation is the instruction's"); vk_assert(g_call[i].a[0] == a && g_call[i].a[1] == b && g_call[i].a[2] == c, "its operands are the instruction's"); }
    // callees yield any number, or an exception
    void any_outcome() { g_result = SmallInteger::make((i64) vk_range("result", 0, 1000)).raw(); prep_raise(); }
    void prep_raise() { Local m = sc.local(String::make(ctx, "boom")); g_exc = Exception::make(ctx, m).raw(); g_raise = vk_choice("raises", 0, 1) == 1; }
};
}
// Register, constant, parameter and module variable instructions.
VK_CONTRACT(interp_moves, "P12", "proof", "BytecodeInterpreter::run: LoadNull, LoadFalse, LoadTrue, LoadInt, LoadFloat, LoadParam, StoreParam, LoadModule, StoreModule, LoadClosure, Copy, Swap; read_op, read_local, read_u32, read_i64, read_f64", "the target gets the operand and nothing else changes, for every register assignment, frame size and content") {
    Machine m; u64 t, s; u64 k = vk_choice("instruction", 0, 11);
    switch (k) {
    case 0: m.op(Op::LoadNull); t = m.r("target"); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == 0, "null"); break;
    case 1: m.op(Op::LoadFalse); t = m.r("target"); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == m.ctx.get_false().raw(), "false"); break;
    case 2: m.op(Op::LoadTrue); t = m.r("target"); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == m.ctx.get_true().raw(), "true"); break;
    case 3: { i64 v = vk_i64("integer"); m.op(Op::LoadInt); m.u64_((u64) v); t = m.r("target"); m.write(t); m.go(); m.done(0); Value x = val(m.get(t)); vk_assert(x.is<Integer>() && x.must_cast<Integer>().value() == v, "the integer constant"); break; }
    case 4: { u64 v = vk_u64("float"); m.op(Op::LoadFloat); m.u64_(v); t = m.r("target"); m.write(t); m.go(); m.done(0); Value x = val(m.get(t)); double y = x.must_cast<Float>().value(); u64 b; memcpy(&b, &y, 8); vk_assert(b == v, "the float constant"); break; }
    case 5: { m.op(Op::LoadParam); u64 i = m.dim("param", 21, 5); vk_assume(i < m.argc); m.u32_((u32) i); t = m.r("target"); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == m.get(m.frame - m.argc + i), "the parameter"); break; }
    case 6: { m.op(Op::StoreParam); s = m.r("source"); u64 i = m.dim("param", 21, 5); vk_assume(i < m.argc); m.u32_((u32) i); t = m.frame - m.argc + i; m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == m.get(s), "the parameter is set"); break; }
    case 7: { m.op(Op::LoadModule); u32 i = m.num("member"); t = m.r("target"); g_member = SmallInteger::make(77).raw(); m.write(t); m.go(); m.done(1); m.call(0, GETM, i); vk_assert(m.get(t) == g_member, "the module variable"); break; }
    case 8: { m.op(Op::StoreModule); s = m.r("source"); u32 i = m.num("member"); u64 v = m.get(s); m.go(); m.done(1); m.call(0, SETM, i, v); break; }
    case 9: { Local e = m.sc.local(Environment::make(m.ctx, 1, {})); m.f->closure = *e; m.op(Op::LoadClosure); t = m.r("target"); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == e->raw(), "the closure"); break; }
    case 10: { m.op(Op::Copy); s = m.r("source"); t = m.r("target"); u64 v = m.get(s); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == v, "the source"); break; }
    case 11: { m.op(Op::Swap); s = m.r("a"); t = m.r("b"); u64 v = m.get(s), x = m.get(t); m.write(s); m.write(t); m.go(); m.done(0); vk_assert(m.get(t) == v && m.get(s) == x, "the values are exchanged"); break; }
    }
}
static void binop(Op o, Fn fn) {
    Machine m; m.op(o); u64 a = m.r("lhs"), b = m.r("rhs"), t = m.r("target"); u64 va = m.get(a), vb = m.get(b); m.any_outcome(); if (!g_raise) m.write(t); m.go(); m.call(0, fn, va, vb);
    if (g_raise) m.raised(1, g_exc); else { m.done(1); vk_assert(m.get(t) == g_result, "the result is stored"); }
}
static void unop(Op o, Fn fn) {
    Machine m; m.op(o); u64 a = m.r("value"), t = m.r("target"); u64 va = m.get(a); m.any_outcome(); if (!g_raise) m.write(t); m.go(); m.call(0, fn, va);
    if (g_raise) m.raised(1, g_exc); else { m.done(1); vk_assert(m.get(t) == g_result, "the result is stored"); }
}
VK_CONTRACT(interp_arith, "P12", "proof", "BytecodeInterpreter::run: Add, Sub, Mul, Div, Mod, Pow, UAdd, UNeg, BNot", "the operator is applied to the operands in order; its result is stored or its exception raised; nothing else changes") {
    switch (vk_choice("instruction", 0, 8)) {
    case 0: binop(Op::Add, ADD); break; case 1: binop(Op::Sub, SUB); break; case 2: binop(Op::Mul, MUL); break; case 3: binop(Op::Div, DIV); break; case 4: binop(Op::Mod, MOD); break; case 5: binop(Op::Pow, POW); break;
    case 6: unop(Op::UAdd, UPLUS); break; case 7: unop(Op::UNeg, UMINUS); break; case 8: unop(Op::BNot, BITNOT); break;
    }
}
VK_CONTRACT(interp_compare, "P12", "proof", "BytecodeInterpreter::run: Gt, Gte, Lt, Lte, Eq, NEq, LNot; Context::get_boolean, is_truthy", "the comparison of the operands in order decides the boolean that is stored; nothing else changes") {
    Machine m; u64 k = vk_choice("instruction", 0, 6); static const Op ops[] = {Op::Gt, Op::Gte, Op::Lt, Op::Lte, Op::Eq, Op::NEq, Op::LNot};
    m.op(ops[k]); u64 a = m.r("lhs"), b = 0; if (k < 6) b = m.r("rhs"); u64 t = m.r("target");
    u64 va = m.get(a), vb = k < 6 ? m.get(b) : 0;
    if (k < 4) m.any_outcome();
    g_int = (i32) vk_u32("comparison"); g_bool = vk_bool("equal");
    if (!g_raise) m.write(t);
    m.go();
    bool want = false;
    switch (k) { case 0: want = g_int > 0; break; case 1: want = g_int >= 0; break; case 2: want = g_int < 0; break; case 3: want = g_int <= 0; break; case 4: want = g_bool; break; case 5: want = !g_bool; break; default: want = vk_or(va == 0, va == m.ctx.get_false().raw()); }
    if (k < 6) m.call(0, k < 4 ? COMPARE : EQUAL, va, vb);
    if (g_raise) m.raised(1, g_exc);
    else { m.done(k < 6 ? 1 : 0); vk_assert(m.get(t) == vk_ite64(want, m.ctx.get_true().raw(), m.ctx.get_false().raw()), "the boolean is stored"); }
}
VK_CONTRACT(interp_access, "P12", "proof", "BytecodeInterpreter::run: LoadIndex, StoreIndex, LoadMember, StoreMember, LoadMethod, Iterator, IteratorNext", "the object, name, index and value operands reach the type system in their roles; its result is stored or its exception raised; nothing else changes") {
    Machine m; u64 k = vk_choice("instruction", 0, 6); m.any_outcome(); g_member = m.ctx.get_symbol("name").raw();
    switch (k) {
    case 0: { m.op(Op::LoadIndex); u64 a = m.r("array"), i = m.r("index"), t = m.r("target"); u64 va = m.get(a), vi = m.get(i); if (!g_raise) m.write(t); m.go(); m.call(0, LDIDX, va, vi); if (g_raise) m.raised(1, g_exc); else { m.done(1); vk_assert(m.get(t) == g_result, "the element is stored"); } break; }
    case 1: { m.op(Op::StoreIndex); u64 s = m.r("source"), a = m.r("array"), i = m.r("index"); u64 vs = m.get(s), va = m.get(a), vi = m.get(i); m.go(); m.call(0, STIDX, va, vi, vs); if (g_raise) m.raised(1, g_exc); else m.done(1); break; }
    case 2: { m.op(Op::LoadMember); u64 o = m.r("object"); u32 nm = m.num("name"); u64 t = m.r("target"); u64 vo = m.get(o); if (!g_raise) m.write(t); m.go(); m.call(0, GETM, nm); m.call(1, LDMEM, vo, g_member); if (g_raise) m.raised(2, g_exc); else { m.done(2); vk_assert(m.get(t) == g_result, "the member is stored"); } break; }
    case 3: { m.op(Op::StoreMember); u64 s = m.r("source"), o = m.r("object"); u32 nm = m.num("name"); u64 vs = m.get(s), vo = m.get(o); m.go(); m.call(0, GETM, nm); m.call(1, STMEM, vo, g_member, vs); if (g_raise) m.raised(2, g_exc); else m.done(2); break; }
    case 4: {
        bool is_method = vk_choice("method", 0, 1) == 1; Local fn = m.sc.local<Value>(m.ctx.get_symbol("f"));
        if (is_method) { auto meth = Method::make(m.ctx, fn); g_result = meth.raw(); }
        m.op(Op::LoadMethod); u64 o = m.r("object"); u32 nm = m.num("name"); u64 th = m.r("this"), t = m.r("method"); vk_assume(th != t); u64 vo = m.get(o); if (!g_raise) { m.write(th); m.write(t); }
        m.go(); m.call(0, GETM, nm); m.call(1, LDMETH, vo, g_member);
        if (g_raise) m.raised(2, g_exc); else { m.done(2); vk_assert(m.get(th) == (is_method ? vo : 0), "the instance of a method call, null otherwise"); vk_assert(m.get(t) == (is_method ? fn->raw() : g_result), "the function to call"); }
        break; }
    case 5: { m.op(Op::Iterator); u64 c = m.r("container"), t = m.r("target"); u64 vc = m.get(c); if (!g_raise) m.write(t); m.go(); m.call(0, ITER, vc); if (g_raise) m.raised(1, g_exc); else { m.done(1); vk_assert(m.get(t) == g_result, "the iterator is stored"); } break; }
    case 6: { g_bool = vk_bool("more"); m.op(Op::IteratorNext); u64 i = m.r("iterator"), v = m.r("valid"), t = m.r("value"); vk_assume(v != t); u64 vi = m.get(i); if (!g_raise) { m.write(v); m.write(t); } m.go(); m.call(0, NEXT, vi);
        if (g_raise) m.raised(1, g_exc); else { m.done(1); vk_assert(m.get(v) == vk_ite64(g_bool, m.ctx.get_true().raw(), m.ctx.get_false().raw()), "whether there is an element"); vk_assert(m.get(t) == vk_ite64(g_bool, g_result, 0), "the element or null"); }
        break; }
    }
}
VK_CONTRACT(interp_stack, "P12", "proof", "BytecodeInterpreter::run: Push, Pop, PopTo, Array, Tuple, Set; push_stack, reserve_stack", "values are pushed and popped in order; a container consumes exactly the topmost values; nothing else changes") {
    Machine m; u64 k = vk_choice("instruction", 0, 5);
    switch (k) {
    case 0: { vk_assume(m.room >= 1); m.op(Op::Push); u64 s = m.r("value"); u64 v = m.get(s); m.write(m.at); m.go(); m.done(0, 1); vk_assert(m.get(m.at) == v, "the value is on top"); break; }
    case 1: m.op(Op::Pop); m.go(); if (m.nvals) m.done(0, -1); else m.raised(0); break;
    case 2: { m.op(Op::PopTo); u64 t = m.r("target"); bool any = m.nvals != 0; u64 v = m.get(m.at - 1); if (any) m.write(t); m.go(); if (any) { m.done(0, -1); vk_assert(m.get(t) == v, "the topmost value"); } else m.raised(0); break; }
    default: {
        m.op(k == 3 ? Op::Array : k == 4 ? Op::Tuple : Op::Set); u64 n = m.dim("count", 21, 5); vk_assume(n <= m.nvals); m.u32_((u32) n); u64 t = m.r("target");
        Local arr = m.sc.local(Array::make(m.ctx, 0)); Local tup = m.sc.local(Tuple::make(m.ctx, 0)); Local set = m.sc.local(Set::make(m.ctx));
        if (k == 5) m.prep_raise(); 
        g_result = k == 3 ? arr->raw() : k == 4 ? tup->raw() : set->raw();
        if (!g_raise) m.write(t); m.go();
        m.call(0, k == 3 ? MKARRAY : k == 4 ? MKTUPLE : MKSET, (u64) (m.data + m.at - n), n);
        if (g_raise) m.raised(1, g_exc); else { m.done(1, -(i64) n); vk_assert(m.get(t) == g_result, "the container is stored"); }
    } }
}
VK_CONTRACT(interp_jumps, "P12", "proof", "BytecodeInterpreter::run: Jmp, JmpTrue, JmpFalse, JmpNull, JmpNotNull, Call, CallMethod, Return", "control continues at the target exactly if the condition holds; calls and returns pass their operands; no register changes") {
    Machine m; u64 k = vk_choice("instruction", 0, 7); u64 v = 0;
    if (k < 5) {
        static const Op ops[] = {Op::Jmp, Op::JmpTrue, Op::JmpFalse, Op::JmpNull, Op::JmpNotNull};
        m.op(ops[k]); if (k) v = m.get(m.r("condition")); u32 t = m.num("target");
        bool falsy = vk_or(v == 0, v == m.ctx.get_false().raw()), null = v == 0; bool jump = k == 0 || (k == 1 ? !falsy : k == 2 ? falsy : k == 3 ? null : !null);
        m.go();
        vk_assert(jump == (g_n == 2 && g_call[0].fn == SETPC), "the jump is taken exactly if the condition holds");
        if (jump) { m.call(0, SETPC, t); m.done(1); } else m.done(0);
    } else if (k < 7) {
        m.op(k == 5 ? Op::Call : Op::CallMethod); u64 f = m.r("function"); u32 n = m.num("count"); u64 vf = m.get(f);
        m.go(); vk_assert(g_n == 1, "execution of this frame stops"); m.call(0, k == 5 ? CALL : CALLM, vf, n, m.coro->raw()); vk_assert(m.f->pc == m.tmpl->code().data() + m.n && (u64) m.d->top == m.top0, "it resumes after the call");
    } else {
        m.op(Op::Return); u64 s = m.r("value"); u64 vs = m.get(s); m.go(); vk_assert(g_n == 1, "execution of this frame stops"); m.call(0, RET, vs, m.coro->raw());
    }
}
// vk-covers: interp_typed ok, wrong type
VK_CONTRACT(interp_typed, "P12", "proof", "BytecodeInterpreter::run: LoadTupleMember, StoreTupleMember, Env, Closure, Record, Formatter, AppendFormat, FormatResult, AssertFail, Rethrow", "operands of the wrong type raise and change nothing; otherwise the result is stored and nothing else changes") {
    Machine m; u64 k = vk_choice("instruction", 0, 9); u64 ty = vk_choice("operand type", 0, 5);
    Local str = m.sc.local(String::make(m.ctx, "text")); Local tup = m.sc.local(Tuple::make(m.ctx, 3)); Local env = m.sc.local(Environment::make(m.ctx, 1, {})); Local sb = m.sc.local(StringBuilder::make(m.ctx));
    for (u64 i = 0; i < 3; i++) tup->unchecked_set(i, SmallInteger::make(40 + (i64) i));
    Value operand = ty == 0 ? Value::null() : ty == 1 ? Value(SmallInteger::make(5)) : ty == 2 ? Value(*str) : ty == 3 ? Value(*tup) : ty == 4 ? Value(*env) : Value(*sb);
    Local empty = m.sc.local(Tuple::make(m.ctx, 0)); Local keys = m.sc.local(Array::make(m.ctx, 0)); Local schema = m.sc.local(RecordSchema::make(m.ctx, keys));
    Local rec = m.sc.local(Record::make(m.ctx, schema)); Local fun = m.sc.local(CodeFunction::make(m.ctx, m.tmpl, {})); Local out_env = m.sc.local(Environment::make(m.ctx, 1, {})); Local out_sb = m.sc.local(StringBuilder::make(m.ctx));
    auto wrong = [&] { m.raised(0); vk_cover("wrong type"); };
    auto fresh = [&](u64 x) { g_result = x; };
    switch (k) {
    case 0: { m.op(Op::LoadTupleMember); u64 o = m.r("tuple"); u32 i = m.index(); u64 t = m.r("target"); m.set(o, operand); bool ok = ty == 3 && i < 3; if (ok) m.write(t); m.go(); if (!ok) wrong(); else { m.done(0); vk_assert(val(m.get(t)).must_cast<SmallInteger>().value() == 40 + (i64) i, "the element"); vk_cover("ok"); } break; }
    case 1: { m.op(Op::StoreTupleMember); u64 s = m.r("source"), o = m.r("tuple"); u32 i = m.index(); m.set(o, operand); u64 vs = m.get(s); bool ok = ty == 3 && i < 3; m.go(); if (!ok) wrong(); else m.done(0);
        for (u32 j = 0; j < 3; j++) vk_assert(tup->unchecked_get(j).raw() == vk_ite64(vk_and(ok, i == j), vs, SmallInteger::make(40 + (i64) j).raw()), "exactly the selected element is set"); break; }
    case 2: { m.op(Op::Env); u64 p = m.r("parent"); u32 n = m.num("size"); u64 t = m.r("target"); m.set(p, operand); fresh(out_env->raw()); bool ok = ty == 0 || ty == 4; if (ok) m.write(t); m.go(); if (!ok) wrong(); else { m.call(0, MKENV, n, ty == 0 ? 0 : env->raw()); m.done(1); vk_assert(m.get(t) == g_result, "the environment is stored"); } break; }
    case 3: { m.op(Op::Closure); u32 i = m.num("template"); u64 e = m.r("env"), t = m.r("target"); m.set(e, operand); g_member = m.tmpl->raw(); fresh(fun->raw()); bool ok = ty == 0 || ty == 4; if (ok) m.write(t); m.go(); m.call(0, GETM, i); if (!ok) m.raised(1); else { m.call(1, MKCLOSURE, m.tmpl->raw(), ty == 0 ? 0 : env->raw()); m.done(2); vk_assert(m.get(t) == g_result, "the function is stored"); } break; }
    case 4: { m.op(Op::Record); u32 i = m.num("schema"); u64 t = m.r("target"); g_member = schema->raw(); fresh(rec->raw()); m.write(t); m.go(); m.call(0, GETM, i); m.call(1, MKREC, schema->raw()); m.done(2); vk_assert(m.get(t) == g_result, "the record is stored"); break; }
    case 5: { m.op(Op::Formatter); u64 t = m.r("target"); fresh(out_sb->raw()); m.write(t); m.go(); m.call(0, MKBUILDER); m.done(1); vk_assert(m.get(t) == g_result, "the formatter is stored"); break; }
    case 6: { m.op(Op::AppendFormat); u64 v = m.r("value"), b = m.r("formatter"); m.set(b, operand); u64 vv = m.get(v); m.go(); if (ty != 5) wrong(); else { m.call(0, FMT, sb->raw(), vv); m.done(1); } break; }
    case 7: { m.op(Op::FormatResult); u64 b = m.r("formatter"), t = m.r("target"); m.set(b, operand); fresh(str->raw()); if (ty == 5) m.write(t); m.go(); if (ty != 5) wrong(); else { m.call(0, FMTRESULT, sb->raw()); m.done(1); vk_assert(m.get(t) == g_result, "the text is stored"); } break; }
    case 8: { m.op(Op::AssertFail); u64 e = m.r("expr"), s = m.r("message"); m.set(e, *str); m.set(s, operand);  m.prep_raise(); vk_assume(e != s); m.go(); if (ty == 0 || ty == 2) { m.call(0, ASSERTFAIL, str->raw(), ty == 0 ? 0 : str->raw()); m.raised(1, g_exc); vk_cover("ok"); } else wrong(); break; }
    case 9: { Local msg = m.sc.local(String::make(m.ctx, "boom")); Exception ex = Exception::make(m.ctx, msg); m.f->flags = FRAME_UNWINDING; m.f->current_exception = ex; m.op(Op::Rethrow); m.go(); m.raised(0, ex.raw()); break; }
    }
}

// vk-covers: interp_growth grown, enough, overflow
static Machine* g_m; static u64 g_new;
static CoroutineStack grown(CoroutineStack old, u32 size) {
    u64 hd = sizeof(CoroutineStack::Layout) / 8, cells = size / 8 - hd; vk_assert(size % 8 == 0, "stack sizes are whole cells");
    u64* blk = (u64*) vk_array("grown stack", cells + hd, 8); memcpy(blk, old.layout(), sizeof(CoroutineStack::Layout));
    auto* d = (CoroutineStack::Layout*) blk; u64* data = (u64*) d->data; d->end = (byte*) (data + cells); d->top = (byte*) (data + g_m->at);
    CoroutineFrameParams p; p.argc = (u32) g_m->argc; p.locals = (u32) g_m->locals; d->top_frame = new (data + g_m->frame) CodeFrame(*g_m->tmpl, Nullable<Environment>(), p);
    return CoroutineStack(HeapValue(d));
}
VK_CONTRACT(interp_growth, "P13", "proof", "BytecodeInterpreter::reserve_stack, reserve_values, grow_stack_impl, CoroutineStack::value_capacity_remaining", "for every stack and every demand: afterwards the demand fits, the stack is doubled as often as needed and not more, and a demand beyond the maximum size is an error that keeps the stack") {
    Machine m; g_m = &m; u64 hd = sizeof(CoroutineStack::Layout); u64 size = m.cells * 8 + hd;
    u32 need = (u32) vk_nondet("needed values", 22); if (!vk_symbolic() && vk_choice("small", 0, 1)) need %= 64;
    g_real = false; g_on = false; g_n = 0; g_grow = grown; g_raise = false; bool threw = false;
    vk_assume(size <= CoroutineStack::max_size);
    BytecodeInterpreter bi(m.ctx, m.ctx.interpreter(), m.ctx.interpreter().regs_, *m.coro, TIRO_NN(m.f));
    CoroutineStack old = m.coro->stack().value();
    try { bi.reserve_stack(need); } catch (const Error& e) { threw = true; }
    g_grow = nullptr;
    CoroutineStack cur = m.coro->stack().value();
    u64 k = (u64) g_n; // number of times the stack grew
    for (u64 i = 0; i < k; i++) vk_assert(g_call[i].fn == GROW && g_call[i].a[1] == size << (i + 1), "the size doubles");
    auto room = [&](u64 times) { return ((size << times) - hd) / 8 - m.at; };
    if (threw) { vk_assert(cur.raw() == old.raw(), "an overflow keeps the stack"); vk_assert((size << (k + 1)) > CoroutineStack::max_size && room(k) < need, "only demands beyond the maximum size overflow"); vk_cover("overflow"); return; }
    vk_assert(cur.value_capacity_remaining() >= need, "the demand fits");
    vk_assert(k == 0 || room(k - 1) < need, "the stack grows no more than needed");
    vk_assert((size << k) <= CoroutineStack::max_size || k == 0, "the maximum size is respected");
    vk_assert(cur.stack_used() == m.at * 8, "the content is kept");
    vk_assert(bi.stack_.raw() == cur.raw() && (CoroutineFrame*) bi.frame_ == cur.top_frame(), "the interpreter uses the current stack");
    if (k) vk_cover("grown"); else { vk_assert(cur.raw() == old.raw(), "the stack is kept"); vk_cover("enough"); }
}
VK_CONTRACT(interp_members, "P12", "proof", "BytecodeInterpreter::get_member, set_member, set_pc, pc_in_bounds", "the selected module variable of the executing function is read and written and no other; a jump continues at the offset; for every module size and code size") {
    Machine m; g_real = true; u64 n = m.dim("members", 16, 6), i = m.dim("index", 16, 6), j = m.dim("other", 16, 6); vk_assume(i < n && j < n && i != j);
    Local real = m.sc.local(Tuple::make(m.ctx, 1)); u64* blk = (u64*) vk_array("members", n + 3, 8); memcpy(blk, real->layout(), sizeof(Tuple::Layout));
    u64 hd = (u64) real->layout()->fixed_slot(0) - (u64) real->layout(); vk_assert(hd % 8 == 0 && hd <= 24, "tuple layout"); 
    auto* l = (Tuple::Layout*) blk; vk_assert((u64) l->fixed_slots_begin() == (u64) blk + hd, "elements follow the header");
    l->capacity_ = n;
    m.module->layout()->write_static_slot(Module::MembersSlot, Tuple(HeapValue(l)));
    BytecodeInterpreter bi(m.ctx, m.ctx.interpreter(), m.ctx.interpreter().regs_, *m.coro, TIRO_NN(m.f));
    u64* e = blk + hd / 8; u64 keep = e[j];
    Value x = vk_choice("value", 0, 1) ? Value(SmallInteger::make(7)) : Value::null(); e[i] = x.raw();
    vk_assert(bi.get_member((u32) i).raw() == x.raw() && e[j] == keep && e[i] == x.raw(), "the selected variable is read");
    bi.set_member((u32) i, *m.name); vk_assert(e[i] == m.name->raw() && e[j] == keep, "exactly the selected variable is written");
    u32 size = vk_u32("code size"), off = vk_u32("offset"); vk_assume(off < size); m.tmpl->code().layout()->capacity_ = size;
    bi.set_pc(off); vk_assert(m.f->pc == m.tmpl->code().data() + off, "execution continues at the offset");
    g_real = false;
}
// vk-covers: interp_environments loaded, stored, undefined, too large, too many levels, wrong type
VK_CONTRACT(interp_environments, "P12", "bounded: chains of at most three environments with at most two variables", "BytecodeInterpreter::run: LoadEnv, StoreEnv; Environment::parent, get, set, size, make", "exactly the variable of the environment that many levels up is read or written; a wrong operand, an unset variable, too many levels or a too large index raise and change nothing") {
    Machine m; bool store = vk_choice("store", 0, 1) == 1; bool typed = vk_choice("environment operand", 0, 1) == 1;
    static const u32 sizes[3] = {2, 1, 2}; u64 depth = typed ? vk_choice("depth", 1, 3) : 1; u64 unset = vk_choice("unset", 0, 1);
    Local<Environment> env[3] = {m.sc.local(Environment::make(m.ctx, sizes[0], {})), m.sc.local(Environment::make(m.ctx, sizes[1], {})), m.sc.local(Environment::make(m.ctx, sizes[2], {}))};
    // the innermost is env[0]; links are rebuilt for the chosen depth
    for (u64 i = 0; i < 3; i++) { for (u32 j = 0; j < sizes[i]; j++) if (!unset) env[i]->set(j, SmallInteger::make((i64) (10 * i + j))); if (i + 1 < depth) env[i]->layout()->write_static_slot(Environment::ParentSlot, *env[i + 1]); }
    m.op(store ? Op::StoreEnv : Op::LoadEnv); u64 x = 0, t = 0; if (store) x = m.r("source"); u64 e = m.r("env");
    u64 lc = vk_choice("level case", 0, 3); u32 level = (u32) lc; if (lc == 3) { level = vk_u32("level"); if (!vk_symbolic() && level < 3) level += 3; vk_assume(level >= 3); }
    m.u32_(level); u32 idx = m.index(); if (!store) t = m.r("target");
    Value vx = SmallInteger::make(99);
    m.set(e, typed ? Value(*env[0]) : Value(*m.name)); if (store) { vk_assume(x != e); m.set(x, vx); }
    bool ok = typed && level < depth && idx < sizes[level < 3 ? level : 0]; if (!store && unset) ok = false;
    if (ok && !store) m.write(t);
    u64 before = m.ctx.get_undefined().raw();
    m.go();
    for (u64 i = 0; i < 3; i++) for (u32 j = 0; j < sizes[i]; j++) { u64 want = unset ? before : SmallInteger::make((i64) (10 * i + j)).raw(); if (ok && store && i == level && j == idx) want = vx.raw(); vk_assert(env[i]->get(j).raw() == want, "exactly the selected variable changes"); }
    if (!ok) { m.raised(0); vk_cover(!typed ? "wrong type" : level >= depth ? "too many levels" : idx >= sizes[level] ? "too large" : "undefined"); return; }
    m.done(0); if (store) vk_cover("stored"); else { vk_assert(m.get(t) == SmallInteger::make((i64) (10 * level + idx)).raw(), "the selected variable"); vk_cover("loaded"); }
}
VK_CONTRACT(interp_map, "P12", "bounded: at most 6 pairs", "BytecodeInterpreter::run: Map", "a map receives exactly the topmost pairs in order; nothing else changes") {
    Machine m; u64 pairs = vk_choice("pairs", 0, 6); u64 n = 2 * pairs; vk_assume(n <= m.nvals);
    Local map = m.sc.local(HashTable::make(m.ctx)); g_result = map->raw(); if (!vk_symbolic() && n > m.nvals) vk_end();
    m.op(Op::Map); m.u32_((u32) n); u64 t = m.r("target"); m.prep_raise(); if (!g_raise) m.write(t); m.go();
    m.call(0, MKMAP, n);
    if (g_raise) { m.raised(1, g_exc); return; }
    m.done(1 + (int) pairs, -(i64) n); vk_assert(m.get(t) == g_result, "the map is stored");
    for (u64 i = 0; i < pairs; i++) { u64 k = m.at - n + 2 * i; vk_assert(g_call[1 + i].fn == MAPSET && g_call[1 + i].a[0] == map->raw() && g_call[1 + i].a[1] == m.get(k) && g_call[1 + i].a[2] == m.get(k + 1), "every pair is inserted in order"); }
}
