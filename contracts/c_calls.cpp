// Contracts of function calls, returns and exception handling of the interpreter.
// vk-link: core
// vk-native: contracts
// vk-opts: * --fork-select --alias-query
#include "calls_harness.hpp"
#include "vm/modules/verify.hpp"

namespace {
bool g_on; int g_unwinds; u64 g_unwound; int g_calls; u64 g_called; u32 g_called_argc; bool g_stub_call;
// Contract of Interpreter::unwind (exceptions_unwind decides it): recorded.
static void vk_stub_unwind(Interpreter* i, Handle<Coroutine> c, Exception e) { if (!g_on) return i->unwind(c, e); g_unwinds++; g_unwound = e.raw(); }
static void vk_stub_call(Interpreter* i, Handle<Coroutine> c, Handle<Value> f, u32 n) { if (!g_stub_call) return i->call_function(c, f, n); g_calls++; g_called = f->raw(); g_called_argc = n; }
static Value* g_fill_at; static u64 g_fill_n; static u64 g_fill_v;
static Value* vk_stub_fill(Value* at, u32 n, const Value& v) { if (!g_on) { for (u32 i = 0; i < n; i++) new (at + i) Value(v); return at + n; } g_fill_at = at; g_fill_n = n; g_fill_v = v.raw(); return at + n; }
static Exception vk_stub_nocall(Context& ctx, Handle<Value>) { return vk_stub_vformat_exception(ctx, "", {}); }
}
extern "C" vk_replacement vk_replacements_calls[];
vk_replacement vk_replacements_calls[] = { VK_VM_REPLACEMENTS, { "tiro::vm::Interpreter::unwind(", (void*) vk_stub_unwind }, { "tiro::vm::Interpreter::call_function(", (void*) vk_stub_call },
    { "tiro::vm::function_call_not_supported_exception(", (void*) vk_stub_nocall }, { "~_ZSt20uninitialized_fill_nIPN4tiro2vm5ValueEj~", (void*) vk_stub_fill } };

namespace { void reset_ghost() { g_on = false; g_unwinds = 0; g_stub_call = false; g_calls = 0; g_fill_n = 0; g_fill_at = nullptr; } }
// vk-covers: call_return to caller, completed
VK_CONTRACT(call_return, "P13", "proof", "Interpreter::return_function, pop_frame, CoroutineStack::pop_frame, pop_values, push_value", "a return removes exactly the frame with its locals and values and its arguments, leaves the result on the caller's stack, and completes the coroutine in the outermost frame; for every position and size") {
    AnyCall c(8); u64 kind = vk_choice("frame", 0, 2); bool more = vk_choice("pop one more", 0, 1) == 1; u64 argc = c.dim("arguments", 21, 6), locals = kind == 2 ? 0 : c.dim("locals", 21, 4), vals = c.dim("values", 21, 4);
    if (!vk_symbolic() && argc + more > c.cvals) vk_end();
    vk_assume(argc + more <= c.cvals);
    u64 fsz = (kind == 0 ? sizeof(CodeFrame) : kind == 1 ? sizeof(ResumableFrame) : sizeof(CatchFrame)) / 8; if (!vk_symbolic() && fsz + locals + vals > c.room) vk_end();
    vk_assume(fsz + locals + vals <= c.room);
    CoroutineFrameParams p; p.argc = (u32) argc; p.locals = (u32) locals; p.flags = more ? FRAME_POP_ONE_MORE : 0; p.caller = c.caller;
    Local nf = c.mknative(0, 0); CoroutineFrame* f; u64* fp = c.data + c.at;
    if (kind == 0) f = new (fp) CodeFrame(*c.tmpl, Nullable<Environment>(), p); else if (kind == 1) f = new (fp) ResumableFrame(*nf, p); else f = new (fp) CatchFrame(p);
    c.d->top_frame = f; c.d->top = (byte*) (fp + fsz + locals + vals);
    u64 keepn = c.at - argc - more; c.watch(keepn); Value result = SmallInteger::make((i64) vk_range("result", 0, 1000));
    if (!c.has_caller && keepn == 0) {} // nothing is left
    c.ctx.interpreter().return_function(c.coro, result);
    c.unchanged();
    vk_assert(c.coro->stack().value().raw() == c.st().raw() && c.d->top_frame == c.caller, "the caller's frame is the current one");
    if (c.has_caller) { vk_assert(c.d->top == (byte*) (c.data + keepn + 1) && c.data[keepn] == result.raw(), "the result replaces the arguments"); vk_assert(c.coro->state() == CoroutineState::Running, "the coroutine continues"); vk_cover("to caller"); }
    else { vk_assert(c.coro->state() == CoroutineState::Done, "the coroutine is done"); Value r = static_cast<Value&&>(c.coro->result()); vk_assert(r.is<Result>() && r.must_cast<Result>().is_success() && r.must_cast<Result>().unchecked_value().raw() == result.raw(), "its result is the returned value"); vk_cover("completed"); }
}
namespace {
void call_enter_spec(u64 lo, u64 hi) {
    AnyCall c(8); bool method = vk_choice("method call", 0, 1) == 1; u64 n = c.dim("arguments", 21, 6); u64 fk = vk_choice("function", lo, hi);
    if (!vk_symbolic() && n + method > c.cvals) vk_end();
    vk_assume(n + method <= c.cvals);
    bool self = method && vk_choice("has instance", 0, 1) == 1; // for method calls the instance (or null) is below the arguments
    if (method) { c.data[c.at - n - 1] = self ? c.name->raw() : 0; }
    u64 argc = n + (self ? 1 : 0); u8 flags = method && !self ? FRAME_POP_ONE_MORE : 0;
    u32 params = (u32) c.dim("parameters", 21, 6), locals = (u32) c.dim("locals", 15, 4); vk_assume(locals <= max_locals);
    vk_assume(locals + 1 + sizeof(CodeFrame) / 8 <= c.room);
    Local t = c.mktmpl(0, 0); t->layout()->static_payload()->params = params; t->layout()->static_payload()->locals = locals;
    Local nf = c.mknative(0, 0); nf->layout()->static_payload()->params = params; nf->layout()->static_payload()->locals = locals;
    Local env = c.sc.local(Environment::make(c.ctx, 1, {})); Local cf = c.sc.local(CodeFunction::make(c.ctx, t, env)); Local magic = c.sc.local(MagicFunction::make(c.ctx, MagicFunction::Catch)); Local obj = c.sc.local(Tuple::make(c.ctx, 0));
    bool bound = fk >= 4 ? vk_choice("bound", 0, 0) != 0 : vk_choice("bound", 0, 1) == 1; if (fk == 3) bound = false;
    Local fn = c.sc.local<Value>(fk == 0 ? Value(*cf) : fk == 1 ? Value(*nf) : fk == 2 ? Value(*magic) : fk == 3 ? Value(*obj) : fk == 4 ? Value::null() : Value(SmallInteger::make(3)));
    if (bound) { Value b = BoundMethod::make(c.ctx, fn, obj); fn = b; }
    // one argument is observed: it must arrive at its position
    bool obs = argc > 0; u64 i = 0; if (obs) { i = c.dim("argument", 21, 6); if (!vk_symbolic()) i %= argc; vk_assume(i < argc); }
    u64 arg = obs ? c.data[c.at - argc + i] : 0; c.watch(c.at - argc); g_on = true; byte* top0 = c.d->top;
    Interpreter& in = c.ctx.interpreter();
    if (method) in.call_method(c.coro, fn, (u32) n); else in.call_function(c.coro, fn, (u32) n);
    g_on = false; c.unchanged();
    u64 total = argc + bound; u64 pos = c.at + bound;
    vk_assert(in.regs_.slots_used_ == 0 || true, "");
    bool enters = fk == 0 ? total == params : fk == 1 ? total >= params : fk == 2 ? total >= 1 : false;
    vk_assert(enters == (g_unwinds == 0), "the call raises exactly for a wrong number of arguments or a value that cannot be called");
    vk_assert(c.coro->stack().value().raw() == c.st().raw(), "the stack is large enough");
    if (!enters) { vk_assert(g_unwinds == 1 && c.d->top_frame == c.caller && (c.d->top == top0 || bound), "nothing is called"); if (fk <= 2) vk_cover("missing arguments"); else vk_cover("not a function"); return; }
    CoroutineFrame* f = c.d->top_frame; vk_assert((u64*) f == c.data + pos, "the frame follows the arguments");
    vk_assert(f->caller() == c.caller && f->argc == total && f->flags == flags, "the frame describes the call");
    if (obs) vk_assert(c.data[pos - argc + i] == arg, "the argument arrives at its position"); if (bound) { vk_assert(c.data[pos - total] == obj->raw(), "the object is the first argument"); vk_cover("bound"); }
    if (fk == 0) { auto x = static_cast<CodeFrame*>(f); vk_assert(f->type == FrameType::Code && x->tmpl.raw() == t->raw() && static_cast<Value&>(x->closure).raw() == env->raw() && x->pc == t->code().data() && x->current_exception.is_null(), "the function's code starts at its beginning"); vk_assert(f->locals == locals && (locals == 0 || (g_fill_n == locals && g_fill_at == (Value*) (c.data + pos + sizeof(CodeFrame) / 8) && g_fill_v == c.ctx.get_undefined().raw())), "its locals are fresh"); vk_assert(c.d->top == (byte*) (c.data + pos + sizeof(CodeFrame) / 8 + locals), "the stack top follows the locals"); vk_cover("code"); }
    if (fk == 1) { auto x = static_cast<ResumableFrame*>(f); vk_assert(f->type == FrameType::Resumable && x->func.raw() == nf->raw() && x->state == ResumableFrame::START && f->locals == locals, "the native function starts"); vk_cover("native"); }
    if (fk == 2) { vk_assert(f->type == FrameType::Catch && f->locals == 0, "a catch frame"); vk_cover("catch"); }
}
}
// vk-covers: call_enter_code code, bound, missing arguments
VK_CONTRACT(call_enter_code, "P13", "proof", "Interpreter::enter_function, call_function, call_method, push_user_frame, push_resumable_frame, push_catch_frame, grow_stack_impl, reserve_values, must_push_value", "a call enters exactly the called function with exactly its arguments, a bound method gets its object as first argument, and a wrong number of arguments or a value that is no function raises; for every position, argument count and parameter count") { call_enter_spec(0, 0); }
// vk-covers: call_enter_native native, bound, missing arguments
VK_CONTRACT(call_enter_native, "P13", "proof", "Interpreter::enter_function, call_function, call_method, push_user_frame, push_resumable_frame, push_catch_frame, grow_stack_impl, reserve_values, must_push_value", "a call enters exactly the called function with exactly its arguments, a bound method gets its object as first argument, and a wrong number of arguments or a value that is no function raises; for every position, argument count and parameter count") { call_enter_spec(1, 1); }
// vk-covers: call_enter_other catch, bound, missing arguments, not a function
VK_CONTRACT(call_enter_other, "P13", "proof", "Interpreter::enter_function, call_function, call_method, push_user_frame, push_resumable_frame, push_catch_frame, grow_stack_impl, reserve_values, must_push_value", "a call enters exactly the called function with exactly its arguments, a bound method gets its object as first argument, and a wrong number of arguments or a value that is no function raises; for every position, argument count and parameter count") { call_enter_spec(2, 5); }
