// Contracts of exception handling: handler lookup, entering a handler, unwinding, catching.
// vk-link: core
// vk-native: contracts
// vk-opts: * --fork-select --alias-query
#include "calls_harness.hpp"

namespace {
using Entry = HandlerTable::Entry;
bool g_find; const Entry* g_entry; u64 g_find_pc; int g_finds; bool g_record; int g_returns; u64 g_returned; int g_calls; u64 g_called, g_called_argc;
int g_unwinds; u64 g_unwound;
// Contract of HandlerTable::find_entry (handlers_lookup decides it): some entry of the table, or none.
static const Entry* vk_stub_find(HandlerTable* t, u32 pc) { if (!g_find) return t->find_entry(pc); g_finds++; g_find_pc = pc; return g_entry; }
static void vk_stub_return(Interpreter* i, Handle<Coroutine> c, Value v) { if (!g_record) return i->return_function(c, v); g_returns++; g_returned = v.raw(); }
static void vk_stub_call(Interpreter* i, Handle<Coroutine> c, Handle<Value> f, u32 n) { if (!g_record) return i->call_function(c, f, n); g_calls++; g_called = f->raw(); g_called_argc = n; }
void reset_ghost() { g_find = false; g_entry = nullptr; g_finds = 0; g_record = false; g_returns = 0; g_calls = 0; g_unwinds = 0; }
}
extern "C" vk_replacement vk_replacements_exceptions[];
vk_replacement vk_replacements_exceptions[] = { VK_VM_REPLACEMENTS, { "tiro::vm::HandlerTable::find_entry(", (void*) vk_stub_find }, { "tiro::vm::Interpreter::return_function(", (void*) vk_stub_return }, { "tiro::vm::Interpreter::call_function(", (void*) vk_stub_call } };

// vk-covers: handlers_lookup handler, none
VK_CONTRACT(handlers_lookup, "P15", "bounded: all tables of up to 8 protected regions, all region bounds and positions", "HandlerTable::find_entry, HandlerTable::make", "the handler of the region containing the position is found, and none is found outside all regions") {
    Base w; u64 n = vk_choice("regions", 0, 8); std::vector<Entry> es; u64 last = 0;
    for (u64 i = 0; i < n; i++) { Entry e; e.from = vk_range32("from", 0, 1u << 30); e.to = vk_range32("to", 0, 1u << 30); e.target = vk_u32("target"); vk_assume(vk_and(e.from >= last, e.to > e.from)); last = e.to; es.push_back(e); }
    Local t = w.sc.local(HandlerTable::make(w.ctx, Span<const Entry>(es.data(), es.size())));
    u32 pc = vk_u32("position"); const Entry* r = t->find_entry(pc); vk_assert(t->size() == n, "all regions are kept");
    if (!r) { for (u64 i = 0; i < n; i++) vk_assert(!vk_and(es[i].from <= pc, pc < es[i].to), "a position without handler lies in no region"); vk_cover("none"); return; }
    u64 i = vk_concretize((u64) (r - t->data())); vk_assert(i < n, "an entry of the table");
    vk_assert(vk_and(es[i].from <= pc, pc < es[i].to), "the region contains the position"); vk_assert(vk_and(vk_and(r->from == es[i].from, r->to == es[i].to), r->target == es[i].target), "the region is as specified"); vk_cover("handler");
}
// vk-covers: exception_enter handled, unhandled, secondary, rethrown
VK_CONTRACT(exception_enter, "P15", "proof", "BytecodeInterpreter::handle_exception, Exception::add_secondary, Interpreter::unwind_into", "an exception at any position continues at the target of the handler of exactly that position, keeping the first exception in flight and recording later ones; a frame without handler is left alone") {
    AnyCall c(16); Entry e; e.from = vk_u32("from"); e.to = vk_u32("to"); e.target = vk_u32("target");
    u64 size = vk_range("code size", 1, 0xfffffffe), off = vk_range("next instruction", 0, 0xfffffffe); vk_assume(vk_and(off <= size, e.target < size));
    if (!vk_symbolic()) { e.target %= 8; off %= 9; size = 8; }
    bool table = vk_choice("has handlers", 0, 1) == 1; std::vector<Entry> es; if (table) es.push_back(e);
    Local t = c.mktmpl(0, 0, es); t->code().layout()->capacity_ = size;
    if (table) t->handlers().value().layout()->buffer_begin()[0] = e;
    bool found = table && vk_choice("handler found", 0, 1) == 1; g_entry = found ? t->handlers().value().data() : nullptr;
    bool unwinding = vk_choice("in flight", 0, 1) == 1; Local first = c.mkexc(); Local ex = c.mkexc(); bool same = unwinding && vk_choice("same exception", 0, 1) == 1; if (same) ex = *first;
    u64 olds = unwinding ? vk_choice("earlier secondary exceptions", 0, 2) : 0; std::vector<u64> expect; for (u64 i = 0; i < olds; i++) { Local s = c.mkexc(); first->add_secondary(c.ctx, s); expect.push_back(s->raw()); }
    CoroutineFrameParams p; p.caller = c.caller; p.flags = (u8) (vk_choice("flags", 0, 1) * FRAME_POP_ONE_MORE); CodeFrame* f = new (c.data + c.at) CodeFrame(*t, Nullable<Environment>(), p);
    f->pc = t->code().data() + off; const byte* pc0 = f->pc; if (unwinding) { f->flags |= FRAME_UNWINDING; f->current_exception = *first; }
    c.d->top_frame = f; c.d->top = (byte*) (c.data + c.at + sizeof(CodeFrame) / 8); byte* top0 = c.d->top; c.watch(c.at);
    u64 raised = ex->raw(); g_find = true; bool r = c.ctx.interpreter().unwind_into(c.coro, TIRO_NN((CoroutineFrame*) f), ex.mut()); g_find = false; c.unchanged();
    u64 primary = unwinding ? first->raw() : raised;
    vk_assert(r == found, "the exception is handled exactly if its position has a handler"); vk_assert(ex->raw() == primary, "the first exception stays in flight");
    if (table) vk_assert(g_finds == 1 && g_find_pc == (off ? off - 1 : 0), "the handler is that of the instruction that raised"); 
    if (found) { vk_assert(f->pc == t->code().data() + e.target, "execution continues at the handler"); vk_assert((f->flags & FRAME_UNWINDING) && f->current_exception.raw() == primary, "the exception is being handled"); vk_cover("handled"); }
    else { vk_assert(f->pc == pc0 && !!(f->flags & FRAME_UNWINDING) == unwinding, "an unhandled exception leaves the frame alone"); vk_cover("unhandled"); }
    vk_assert(c.d->top == top0 && c.d->top_frame == f, "the stack is unchanged"); vk_assert((f->flags & FRAME_POP_ONE_MORE) == p.flags, "the frame still describes its call");
    if (unwinding && !same) expect.push_back(raised);
    auto sec = first->secondary(); u64 have = sec.is_null() ? 0 : sec.value().size(); vk_assert(have == expect.size(), "exactly the exceptions raised while handling another one are recorded");
    for (u64 i = 0; i < have; i++) vk_assert(sec.value().unchecked_get(i).raw() == expect[i], "in the order in which they occurred");
    if (same) vk_cover("rethrown"); else if (unwinding) vk_cover("secondary");
}
// vk-covers: exception_unwind handled by code, caught, uncaught
VK_CONTRACT(exception_unwind, "P15", "bounded: all stacks of up to 4 frames of every kind, with and without handlers and arguments", "Interpreter::unwind, unwind_into, pop_frame, BytecodeInterpreter::handle_exception", "an exception reaches the innermost frame that handles it, all frames above are left with their arguments, and without one the coroutine completes with the exception") {
    Base w; Entry e; e.from = 0; e.to = 8; e.target = 5; Entry e2 = e; e2.from = 4; Local handler = w.mktmpl(0, 0, {e}); Local late = w.mktmpl(0, 0, {e2}); Local plain = w.mktmpl(0, 0); Local nf = w.mknative(0, 0); Local coro = w.mkcoro(); Local st = w.sc.local(coro->stack().value());
    coro->state(CoroutineState::Running); u64 n = vk_choice("frames", 0, 4); struct F { u64 kind; CoroutineFrame* f; u32 base; }; std::vector<F> fs; i64 handled = -1;
    for (u64 i = 0; i < n; i++) {
        u64 kind = vk_choice("kind", 0, 4), args = i == 0 ? 0 : vk_choice("arguments", 0, 2); u32 base = st->top_frame() ? st->top_value_count() : 0; bool more = args == 2;
        for (u64 k = 0; k < args; k++) st->push_value(SmallInteger::make((i64) k + 7));
        u32 argc = (u32) args - more; u8 fl = more ? FRAME_POP_ONE_MORE : 0;
        if (kind <= 2) { Local t = w.sc.local(kind == 0 ? *plain : kind == 1 ? *handler : *late); st->push_user_frame(*t, Nullable<Environment>(), fl); auto f = static_cast<CodeFrame*>(st->top_frame()); f->argc = argc; f->pc = t->code().data() + 3; }
        else if (kind == 3) st->push_resumable_frame(*nf, argc, fl); else { st->push_catch_frame(argc, fl); st->top_frame()->flags |= FRAME_CATCH_STARTED; }
        fs.push_back({kind, st->top_frame(), base}); if (kind == 1 || kind == 4) handled = (i64) i;
        st->push_value(SmallInteger::make((i64) i)); // one temporary value per frame
    }
    Local ex = w.mkexc(); w.ctx.interpreter().unwind(coro, *ex); vk_assert(w.ctx.interpreter().regs_.slots_used_ <= 2, "");
    if (handled < 0) { vk_assert(st->top_frame() == nullptr && coro->state() == CoroutineState::Done, "an uncaught exception completes the coroutine"); Value r = static_cast<Value&&>(coro->result()); vk_assert(r.is<Result>() && r.must_cast<Result>().is_error() && r.must_cast<Result>().unchecked_error().raw() == ex->raw(), "its result is the exception"); vk_cover("uncaught"); return; }
    vk_assert(coro->state() == CoroutineState::Running, "the coroutine continues"); CoroutineFrame* f = fs[(size_t) handled].f; vk_assert(st->top_frame() == f, "the innermost frame that handles the exception continues");
    bool top = (u64) handled + 1 == n; u32 vals = top ? 1 : fs[(size_t) handled + 1].base; vk_assert(st->top_value_count() == vals && (vals == 0 || st->top_value()->raw() == SmallInteger::make(handled).raw()), "exactly the arguments of the frames above are removed");
    if (f->type == FrameType::Code) { auto x = static_cast<CodeFrame*>(f); vk_assert(x->pc == x->tmpl.code().data() + 5 && (x->flags & FRAME_UNWINDING) && x->current_exception.raw() == ex->raw(), "at its handler"); vk_cover("handled by code"); }
    else { auto x = static_cast<CatchFrame*>(f); vk_assert((x->flags & FRAME_UNWINDING) && static_cast<Value&>(x->exception).raw() == ex->raw(), "the catch frame has the exception"); vk_cover("caught"); }
    for (i64 i = 0; i < handled; i++) vk_assert(!(fs[(size_t) i].f->flags & FRAME_UNWINDING), "outer frames are not affected");
}
// vk-covers: exception_catch start, caught, returned
VK_CONTRACT(exception_catch, "P15", "proof", "Interpreter::run_frame(CatchFrame)", "a catch frame calls its first argument once without arguments, then returns a success result with the returned value, or an error result with exactly the exception it caught; for any number of arguments and any stack position") {
    AnyCall c(16); u64 argc = c.dim("arguments", 21, 6); if (!vk_symbolic() && (argc == 0 || argc > c.cvals)) vk_end(); vk_assume(vk_and(argc >= 1, argc <= c.cvals));
    CoroutineFrameParams p; p.caller = c.caller; p.argc = (u32) argc; CatchFrame* f = new (c.data + c.at) CatchFrame(p); c.d->top_frame = f; u64 fs = sizeof(CatchFrame) / 8; c.d->top = (byte*) (c.data + c.at + fs);
    u64 k = vk_choice("phase", 0, 2); Local ex = c.mkexc(); Value v = SmallInteger::make((i64) vk_range("value", 0, 1000)); u64 arg = c.data[c.at - argc];
    if (k >= 1) f->flags |= FRAME_CATCH_STARTED;
    if (k == 1) { f->flags |= FRAME_UNWINDING; f->exception = *ex; }
    if (k == 2) { c.data[c.at + fs] = v.raw(); c.d->top += 8; }
    c.watch(c.at); byte* top0 = c.d->top; g_record = true; c.ctx.interpreter().run_frame(c.coro, TIRO_NN(f)); g_record = false; c.unchanged();
    vk_assert(c.d->top == top0 && c.d->top_frame == f, "the stack is left to the call or return");
    if (k == 0) { vk_assert(g_calls == 1 && g_returns == 0 && g_called == arg && g_called_argc == 0, "the function is called without arguments"); vk_assert(f->flags & FRAME_CATCH_STARTED, "once"); vk_cover("start"); return; }
    vk_assert(g_calls == 0 && g_returns == 1, "the catch frame returns"); Value rv(Value::null()); memcpy(&rv, &g_returned, 8); vk_assert(rv.is<Result>(), "a result"); Result r = rv.must_cast<Result>();
    if (k == 1) { vk_assert(r.is_error() && r.unchecked_error().raw() == ex->raw(), "the caught exception"); vk_cover("caught"); } else { vk_assert(r.is_success() && r.unchecked_value().raw() == v.raw(), "the returned value"); vk_cover("returned"); }
}
