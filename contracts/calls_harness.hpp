// Coroutines in arbitrary positions: shared by the contracts of calls (P13), exceptions (P15) and scheduling (P14).
#pragma once
#include "vm_harness.hpp"
#include "vm/interpreter.hpp"
#include <vector>
using namespace vk;
namespace { void reset_ghost(); }
namespace {
struct Base : World {
    Local<String> name; Local<Module> module; byte code[8] = {};
    Base() : name(sc.local(String::make(ctx, "Test"))), module(mkmod()) { reset_ghost(); }
    Local<Module> mkmod() { Local m = sc.local(Tuple::make(ctx, 0)); Local e = sc.local(HashTable::make(ctx)); return sc.local(Module::make(ctx, name, m, e)); }
    Local<Coroutine> mkcoro() { Local st = sc.local(CoroutineStack::make(ctx, CoroutineStack::initial_size)); Local fn = sc.local(); return sc.local(Coroutine::make(ctx, name, fn, {}, st)); }
    Local<CodeFunctionTemplate> mktmpl(u32 params, u32 locals, std::vector<HandlerTable::Entry> h = {}) { return sc.local(CodeFunctionTemplate::make(ctx, name, module, params, locals, Span<const HandlerTable::Entry>(h.data(), h.size()), Span<const byte>(code, 8))); }
    Local<NativeFunction> mknative(u32 params, u32 locals) { return sc.local(NativeFunction::resumable([](ResumableFrameContext&) {}, locals).name(name).params(params).make(ctx)); }
    Local<Exception> mkexc() { Local m = sc.local(String::make(ctx, "boom")); return sc.local(Exception::make(ctx, m)); }
    u64 dim(const char* nm, unsigned bits, u64 small) { u64 v = vk_nondet(nm, bits); return vk_symbolic() ? v : v % small; }
};
// Calls a method of a builtin type with the given arguments the way the interpreter does. Returns false if it panics.
inline bool call_method(Base& w, ValueType type, const char* method, const std::vector<Value>& args, Local<Value>& result) {
    Scope sc(w.ctx); Local list = sc.local(Array::make(w.ctx, 8)); for (auto a : args) { Local x = sc.local(a); list->append(w.ctx, x).must("room"); }
    Local st = sc.local(CoroutineStack::make(w.ctx, CoroutineStack::initial_size)); Local fn0 = sc.local(); Local coro = sc.local(Coroutine::make(w.ctx, w.name, fn0, {}, st)); Local name = sc.local(w.ctx.get_symbol(method));
    Local ty = sc.local(w.ctx.types().type_of(type)); auto mem = ty->find_member(name); vk_assert(mem.has_value(), "the method exists"); Local fn = sc.local(*mem); Local nf = sc.local(fn->is<Method>() ? fn.must_cast<Method>()->function() : *fn); Local native = sc.local(nf.must_cast<NativeFunction>());
    for (size_t i = 0; i < args.size(); i++) vk_assert(st->push_value(list->checked_get(i)), "room"); vk_assert(native->params() <= args.size(), "the number of parameters"); vk_assert(st->push_resumable_frame(*native, (u32) args.size(), 0), "room"); auto frame = static_cast<ResumableFrame*>(st->top_frame());
    Local r1 = sc.local<Value>(); Local r2 = sc.local<Value>(); ResumableFrameContinuation cont({r1.mut(), r2.mut()}); ResumableFrameContext rfc(w.ctx, coro, TIRO_NN(frame), cont); native->function().invoke(rfc);
    bool raised = cont.action() == ResumableFrameContinuation::PANIC; vk_assert(raised || cont.action() == ResumableFrameContinuation::RETURN, "it returns or panics"); result.set(raised ? *r1 : *cont.ret_data().value); return !raised;
}
// A coroutine in any position: any number of values at the bottom, a calling frame (or none) with any number of
// locals and values, all of arbitrary content.
struct AnyCall : Base {
    Local<CodeFunctionTemplate> tmpl; Local<Coroutine> coro;
    bool has_caller; u64 bottom, clocals = 0, cvals, at, room, cells; u64* blk; u64* data; CoroutineStack::Layout* d; CoroutineFrame* caller = nullptr;
    static constexpr u64 fs = sizeof(CodeFrame) / 8; u64 keep = 0, kept = 0;
    AnyCall(u64 min_room = 0) : tmpl(mktmpl(0, 0)), coro(mkcoro()) {
        has_caller = vk_choice("caller", 0, 1) == 1; bottom = has_caller ? dim("bottom", 21, 3) : 0; if (has_caller) clocals = dim("caller locals", 21, 4); cvals = dim("caller values", 21, 6);
        room = dim("room", 21, 40); if (!vk_symbolic() && room < min_room) room += min_room; vk_assume(room >= min_room);
        at = bottom + (has_caller ? fs + clocals : 0) + cvals; cells = at + room;
        Local real = sc.local(CoroutineStack::make(ctx, CoroutineStack::initial_size));
        blk = (u64*) vk_array("stack", cells + sizeof(CoroutineStack::Layout) / 8, 8); memcpy(blk, real->layout(), sizeof(CoroutineStack::Layout));
        d = (CoroutineStack::Layout*) blk; data = (u64*) d->data; d->end = (byte*) (data + cells); d->top = (byte*) (data + at); d->top_frame = nullptr;
        if (has_caller) { CoroutineFrameParams p; p.locals = (u32) clocals; caller = new (data + bottom) CodeFrame(*tmpl, Nullable<Environment>(), p); d->top_frame = caller; }
        coro->stack(CoroutineStack(HeapValue(d))); coro->state(CoroutineState::Running);
    }
    CoroutineStack st() { return CoroutineStack(HeapValue(d)); }
    void watch(u64 limit) { keep = dim("other cell", 24, cells); vk_assume(keep < limit); kept = data[keep]; }
    void unchanged() { vk_assert(data[keep] == kept, "nothing else on the stack changes"); }
};
}
