// Contracts of coroutine stacks: frames, arguments, locals and values.
// vk-link: core
// vk-native: contracts
// vk-opts: * --fork-select --alias-query
#include "vm_harness.hpp"
#include "vm/modules/verify.hpp"
#include <vector>
using namespace vk;

// Contract of std::uninitialized_fill_n on values (standard library, trusted): recorded, then performed for small counts.
static Value* g_fill_at; static u64 g_fill_n; static u64 g_fill_v; static bool g_fill_used;
static bool g_record;
static Value* vk_stub_fill(Value* at, u32 n, const Value& v) {
    if (!g_record) { for (u32 i = 0; i < n; i++) new (at + i) Value(v); return at + n; }
    g_fill_used = true; g_fill_at = at; g_fill_n = n; g_fill_v = v.raw(); return at + n;
}
extern "C" vk_replacement vk_replacements_stack[];
vk_replacement vk_replacements_stack[] = { VK_VM_REPLACEMENTS, { "~_ZSt20uninitialized_fill_nIPN4tiro2vm5ValueEj~", (void*) vk_stub_fill } };

namespace {
struct StackWorld : World {
    CoroutineStack mk(u32 n) { return CoroutineStack::make(ctx, n); }
    Local<String> name, name2; Local<Module> module;
    StackWorld() : name(sc.local(String::make(ctx, "Test"))), name2(sc.local(String::make(ctx, "Other"))), module(mkmod()) {}
    Local<Module> mkmod() { Local members = sc.local(Tuple::make(ctx, 0)); Local exported = sc.local(HashTable::make(ctx)); return sc.local(Module::make(ctx, name, members, exported)); }
    CodeFunctionTemplate tmpl(u32 params, u32 locals, bool other = false) { return CodeFunctionTemplate::make(ctx, other ? name2 : name, module, params, locals, {}, {}); }
    NativeFunction native(u32 params, u32 locals) { return NativeFunction::resumable([](ResumableFrameContext&) {}, locals).name(name2).params(params).make(ctx); }
};
// What a call frame should contain.
struct GFrame { FrameType type; u32 argc; u8 flags; u64 callee; u64 closure; size_t base; std::vector<u64> cells; }; // cells: locals followed by values
struct Ghost {
    u64 undef, null; std::vector<u64> bottom; std::vector<GFrame> frames; std::vector<u32> locals;
    std::vector<u64>& values() { return frames.empty() ? bottom : frames.back().cells; }
    u32 nlocals() { return frames.empty() ? 0 : locals.back(); }
    u32 count() { return (u32) values().size() - nlocals(); }
    size_t used() { size_t s = bottom.size() * 8; for (auto& f : frames) s += fsize(f.type) + f.cells.size() * 8; return s; }
    static size_t fsize(FrameType t) { return t == FrameType::Code ? sizeof(CodeFrame) : t == FrameType::Resumable ? sizeof(ResumableFrame) : sizeof(CatchFrame); }
};
struct Collect {
    std::vector<u64>& out;
    void operator()(Span<Value> s) { for (Value& v : s) out.push_back(v.raw()); }
    template<typename T> void operator()(T& v) { static_assert(sizeof(T) == 8); out.push_back(static_cast<Value&>(v).raw()); }
};
u64 cell(Value* v) { return v->raw(); }
// Everything observable of the stack agrees with the ghost state.
void check(CoroutineStack s, Ghost& g, size_t capacity, bool with_trace) {
    vk_assert(s.stack_size() == capacity && s.stack_used() == g.used() && s.stack_available() == capacity - g.used(), "used and available bytes");
    vk_assert(s.value_capacity_remaining() == (capacity - g.used()) / 8, "remaining capacity");
    vk_assert(s.top_value_count() == g.count(), "number of values of the current frame");
    auto& v = g.values();
    for (u32 i = 0; i < g.count(); i++) vk_assert(cell(s.top_value(i)) == v[v.size() - 1 - i], "values are the ones pushed, topmost first");
    if (g.count()) vk_assert(s.top_value() == s.top_value(0), "top value");
    for (u32 n = 0; n <= g.count(); n++) { auto span = s.top_values(n); vk_assert(span.size() == n, "top_values size"); if (n) vk_assert(span.data() == s.top_value(n - 1), "top_values start"); }
    CoroutineFrame* f = s.top_frame();
    for (size_t k = g.frames.size(); k-- > 0;) {
        vk_assert(f != nullptr, "the frame is linked");
        auto& e = g.frames[k];
        vk_assert(f->type == e.type && f->argc == e.argc && f->flags == e.flags && f->locals == g.locals[k], "the frame describes the call");
        vk_assert(frame_size(f) == Ghost::fsize(e.type), "frame size");
        vk_assert(s.offset_to_frame(s.frame_to_offset(f)) == f, "offsets identify frames");
        if (e.type == FrameType::Code) { auto c = static_cast<CodeFrame*>(f); vk_assert(c->tmpl.raw() == e.callee && static_cast<Value&>(c->closure).raw() == e.closure && c->current_exception.is_null(), "the code frame refers to the called function"); vk_assert(c->pc == c->tmpl.code().data(), "execution starts at the first instruction"); }
        if (e.type == FrameType::Resumable) { auto c = static_cast<ResumableFrame*>(f); vk_assert(c->func.raw() == e.callee && c->state == ResumableFrame::START, "the resumable frame refers to the called function"); }
        if (e.type == FrameType::Catch) vk_assert(static_cast<CatchFrame*>(f)->exception.is_null(), "a catch frame starts without exception");
        auto loc = CoroutineStack::locals(TIRO_NN(f)); vk_assert(loc.size() == g.locals[k], "number of locals");
        for (u32 i = 0; i < g.locals[k]; i++) { vk_assert(CoroutineStack::local(TIRO_NN(f), i) == loc.data() + i, "local address"); vk_assert(loc[i].raw() == e.cells[i], "locals keep their value"); }
        auto& below = k ? g.frames[k - 1].cells : g.bottom;
        auto a = CoroutineStack::args(TIRO_NN(f)); vk_assert(a.size() == e.argc, "number of arguments");
        for (u32 i = 0; i < e.argc; i++) { vk_assert(CoroutineStack::arg(TIRO_NN(f), i) == a.data() + i, "argument address"); vk_assert(a[i].raw() == below[below.size() - e.argc + i], "arguments are the topmost values of the caller"); }
        f = f->caller();
    }
    vk_assert(f == nullptr, "there are no other frames");
    if (!with_trace) return;
    std::vector<u64> seen, want; s.trace(Collect{seen});
    want.push_back(g.undef);
    for (size_t k = g.frames.size(); k-- > 0;) {
        auto& e = g.frames[k];
        for (u64 x : e.cells) want.push_back(x);
        if (e.type == FrameType::Code) { want.push_back(e.callee); want.push_back(e.closure); want.push_back(g.null); }
        if (e.type == FrameType::Resumable) want.push_back(e.callee);
        if (e.type == FrameType::Catch) want.push_back(g.null);
    }
    for (u64 x : g.bottom) want.push_back(x);
    vk_assert(seen.size() == want.size(), "the collector visits every live slot once");
    for (size_t i = 0; i < want.size(); i++) vk_assert(seen[i] == want[i], "the collector visits exactly the live values");
}
}

static void history(u32 prefill, u32 depth) {
    StackWorld w; Local st = w.sc.local(w.mk(CoroutineStack::initial_size)); Local t0 = w.sc.local(w.tmpl(0, 2)); Local t1 = w.sc.local(w.tmpl(2, 1, true)); Local nf = w.sc.local(w.native(1, 2));
    Local env = w.sc.local(Environment::make(w.ctx, 1, {}));
    Ghost g; g.undef = w.ctx.get_undefined().raw(); g.null = Value::null().raw();
    size_t cap = CoroutineStack::initial_size - sizeof(CoroutineStack::Layout); u32 counter = 1;
    vk_assert(!st->top_frame(), "a new stack has no frames");
    for (u32 i = 0; i < prefill; i++) { Value v = SmallInteger::make(counter++); vk_assert(st->push_value(v), "there is room"); g.values().push_back(v.raw()); }
    check(*st, g, cap, true);
    for (u32 step = 0; step < depth; step++) {
        u64 op = vk_choice("operation", 0, 7); size_t before = g.used();
        switch (op) {
        case 0: { Value v = SmallInteger::make(counter++); bool ok = st->push_value(v); vk_assert(ok == (before + 8 <= cap), "a value is refused exactly if the stack is full"); if (ok) g.values().push_back(v.raw()); break; }
        case 1: if (!g.count()) vk_end(); st->pop_value(); g.values().pop_back(); break;
        case 2: if (g.count() < 2) vk_end(); st->pop_values(2); g.values().pop_back(); g.values().pop_back(); break;
        case 3: { bool two = g.count() >= 2; auto t = two ? *t1 : *t0; u32 p = two ? 2 : 0, l = two ? 1 : 2; u8 fl = two ? FRAME_POP_ONE_MORE : 0;
            Nullable<Environment> c; if (two) c = *env;
            bool ok = st->push_user_frame(t, c, fl); vk_assert(ok == (before + sizeof(CodeFrame) + l * 8 <= cap), "a frame is refused exactly if it does not fit");
            if (ok) { g.frames.push_back({FrameType::Code, p, fl, t.raw(), static_cast<Value&>(c).raw(), before, std::vector<u64>(l, g.undef)}); g.locals.push_back(l); }
            break; }
        case 4: { if (!g.count()) vk_end(); u32 argc = g.count() >= 3 ? 3 : 1; bool ok = st->push_resumable_frame(*nf, argc, 0); vk_assert(ok == (before + sizeof(ResumableFrame) + 16 <= cap), "a frame is refused exactly if it does not fit");
            if (ok) { g.frames.push_back({FrameType::Resumable, argc, 0, nf->raw(), 0, before, std::vector<u64>(2, g.null)}); g.locals.push_back(2); }
            break; }
        case 5: { if (!g.count()) vk_end(); bool ok = st->push_catch_frame(1, FRAME_POP_ONE_MORE); vk_assert(ok == (before + sizeof(CatchFrame) <= cap), "a frame is refused exactly if it does not fit");
            if (ok) { g.frames.push_back({FrameType::Catch, 1, FRAME_POP_ONE_MORE, 0, 0, before, {}}); g.locals.push_back(0); }
            break; }
        case 6: if (g.frames.empty()) vk_end(); st->pop_frame(); g.frames.pop_back(); g.locals.pop_back(); break;
        case 7: { if (g.locals.empty() || !g.nlocals()) vk_end(); u32 i = g.nlocals() - 1; Value v = SmallInteger::make(counter++); *CoroutineStack::local(TIRO_NN(st->top_frame()), i) = v; g.values()[i] = v.raw(); break; }
        }
        check(*st, g, cap, step + 1 == depth);
    }
    // growing copies everything and leaves the old stack alone
    Local big = w.sc.local(CoroutineStack::grow(w.ctx, st, 1024));
    check(*st, g, cap, false); check(*big, g, 1024 - sizeof(CoroutineStack::Layout), true);
    size_t n = 0; std::vector<u64> names;
    CoroutineStack::walk(w.ctx, big, [&](Handle<String> s) { n++; auto& f = g.frames[g.frames.size() - n]; vk_assert(s->view() == (f.type == FrameType::Catch ? std::string_view("<catch panic>") : f.type == FrameType::Resumable ? std::string_view("Other") : f.argc ? std::string_view("Other") : std::string_view("Test")), "walking yields the names of the called functions"); });
    vk_assert(n == g.frames.size(), "walking visits every frame once");
}
VK_CONTRACT(stack_history, "P13", "bounded: all histories of 5 operations on an empty stack", "CoroutineStack::make, grow, push_user_frame, push_resumable_frame, push_catch_frame, pop_frame, top_frame, arg, args, local, locals, push_value, pop_value, pop_values, top_value, top_values, top_value_count, walk, trace, frame_to_offset, offset_to_frame", "frames, arguments, locals and values are the ones of a call stack; the collector visits exactly the live slots; growing copies everything") { history(2, 5); }
VK_CONTRACT(stack_history_full, "P13", "bounded: all histories of 4 operations on a nearly full stack", "CoroutineStack::push_user_frame, push_resumable_frame, push_catch_frame, push_value, allocate_frame, push_frame", "a full stack refuses frames and values and stays as it was") { history(47 + (u32) vk_choice("free", 0, 12), 3); }

// A stack of any size in any position: the whole stack object lives in an unbounded symbolic array of cells.
// The position is either at the bottom (no frame) or in a frame with any number of locals and values.
static u64 any21(const char* n) { return vk_nondet(n, 21); } // the largest stack has fewer than 2^21 cells
struct AnyStack {
    u64 cells, at, nvals, locals, frame; u64* blk; u64* data; CoroutineStack::Layout* d; bool nested; CoroutineFrame* f = nullptr;
    AnyStack(StackWorld& w, Handle<CoroutineStack> real) {
        cells = any21("cells"); vk_assume(cells >= 8); if (!vk_symbolic()) cells = 8 + cells % 100;
        nested = vk_choice("nested", 0, 1) == 1;
        u64 fs = sizeof(CatchFrame) / 8;
        nvals = any21("values");
        locals = 0; frame = 0;
        if (nested) { frame = any21("frame"); locals = vk_nondet("frame locals", 14); }
        if (!vk_symbolic()) { locals %= 4; if (nested) frame %= cells - 4; u64 rest = cells - (nested ? frame + fs : 0); locals = nested ? locals % (rest + 1) : 0; nvals %= rest - locals + 1; }
        at = nested ? frame + fs + locals + nvals : nvals;
        vk_assume(at <= cells);
        blk = (u64*) vk_array("stack", cells + sizeof(CoroutineStack::Layout) / 8, 8);
        memcpy(blk, real->layout(), sizeof(CoroutineStack::Layout));
        d = (CoroutineStack::Layout*) blk; data = (u64*) d->data;
        d->end = (byte*) (data + cells); d->top = (byte*) (data + at); d->top_frame = nullptr;
        if (nested) { CoroutineFrameParams p; p.locals = (u32) locals; f = (CoroutineFrame*) (data + frame); new (f) CatchFrame(p); d->top_frame = f; }
    }
    CoroutineStack get() { return CoroutineStack(HeapValue(d)); }
};
static_assert(sizeof(CoroutineStack::Layout) % 8 == 0);
// vk-covers: stack_push_frame fits, full, locals
VK_CONTRACT(stack_push_frame, "P13", "proof", "CoroutineStack::push_frame, push_user_frame, push_resumable_frame, push_catch_frame, allocate_frame, CoroutineFrame, pop_frame, args, locals", "for every stack position and every number of arguments and locals: the frame follows the values, its arguments and locals are adjacent to it, and it is refused exactly if it does not fit") {
    StackWorld w; Local real = w.sc.local(w.mk(CoroutineStack::initial_size)); AnyStack s(w, real); auto* d = s.d;
    u64 kind = vk_choice("kind", 0, 2);
    u32 locals = kind == 2 ? 0 : (u32) vk_nondet("locals", 15), argc = (u32) any21("argc"); u8 flags = vk_u8("flags");
    if (!vk_symbolic()) { locals %= 16; argc = (u32) (argc % (s.nvals + 1)); }
    vk_assume(argc <= s.nvals); vk_assume(locals <= max_locals);
    Local t = w.sc.local(w.tmpl(0, 0)); Local nf = w.sc.local(w.native(0, 0));
    t->layout()->static_payload()->locals = locals; t->layout()->static_payload()->params = argc; nf->layout()->static_payload()->locals = locals; nf->layout()->static_payload()->params = 0;
    g_fill_used = false; g_record = true; bool ok = false; u64 size = 0; byte* top = d->top; u64 room = (s.cells - s.at) * 8;
    auto st = s.get();
    if (kind == 0) { ok = st.push_user_frame(*t, Nullable<Environment>(), flags); size = sizeof(CodeFrame); }
    if (kind == 1) { ok = st.push_resumable_frame(*nf, argc, flags); size = sizeof(ResumableFrame); }
    if (kind == 2) { ok = st.push_catch_frame(argc, flags); size = sizeof(CatchFrame); }
    vk_assert(ok == (size + 8 * (u64) locals <= room), "refused exactly if it does not fit");
    if (!ok) { vk_assert(d->top == top && d->top_frame == s.f && !g_fill_used, "a refused frame changes nothing"); vk_cover("full"); }
    else {
        CoroutineFrame* f = st.top_frame();
        vk_assert((byte*) f == top && d->top == top + size + 8 * (u64) locals, "the frame follows the values");
        vk_assert(f->flags == flags && f->argc == argc && f->locals == locals && f->type == (FrameType) kind, "the frame describes the call");
        vk_assert(f->caller() == s.f, "the frame is linked to its caller");
        vk_assert((byte*) CoroutineStack::locals_begin(TIRO_NN(f)) == top + size && (byte*) CoroutineStack::locals_end(TIRO_NN(f)) == d->top, "the locals follow the frame");
        vk_assert((byte*) CoroutineStack::args_end(TIRO_NN(f)) == top && CoroutineStack::args_begin(TIRO_NN(f)) == (Value*) top - argc, "the arguments precede the frame");
        vk_assert((byte*) st.values_begin(f) == d->top && st.top_value_count() == 0, "the values follow the locals");
        if (locals > 0) { vk_assert(g_fill_used && (byte*) g_fill_at == top + size && g_fill_n == locals && g_fill_v == (kind == 0 ? w.ctx.get_undefined().raw() : Value::null().raw()), "every local is initialised"); vk_cover("locals"); }
        st.pop_frame();
        vk_assert(d->top == top && d->top_frame == s.f && st.top_value_count() == s.nvals, "popping the frame restores the caller");
        vk_cover("fits");
    }
}
// vk-covers: stack_push_value fits, full
VK_CONTRACT(stack_push_value, "P13", "proof", "CoroutineStack::push_value, pop_value, top_value, top_value_count, value_capacity_remaining", "for every stack position: a value is stored on top, nothing else changes, and a full stack refuses it") {
    StackWorld w; Local real = w.sc.local(w.mk(CoroutineStack::initial_size)); AnyStack s(w, real); auto* d = s.d; auto st = s.get();
    vk_assert(st.value_capacity_remaining() == s.cells - s.at && st.top_value_count() == s.nvals, "remaining capacity");
    u64 other = any21("other"); if (!vk_symbolic()) other %= s.cells;
    vk_assume(other < s.cells && other != s.at); u64 kept = s.data[other];
    Value v = SmallInteger::make((i64) vk_range("value", 0, 1000));
    bool ok = st.push_value(v);
    vk_assert(ok == (s.at < s.cells), "refused exactly if the stack is full");
    vk_assert(s.data[other] == kept, "no other value changes");
    if (!ok) { vk_assert(d->top == (byte*) (s.data + s.at), "a refused value changes nothing"); vk_cover("full"); }
    else {
        vk_assert(d->top == (byte*) (s.data + s.at + 1) && s.data[s.at] == v.raw() && st.top_value()->raw() == v.raw() && st.top_value_count() == s.nvals + 1, "the value is on top");
        vk_cover("fits");
        st.pop_value();
        vk_assert(d->top == (byte*) (s.data + s.at) && st.top_value_count() == s.nvals, "popping it restores the stack");
    }
}
VK_CONTRACT(stack_args_locals, "P13", "proof", "CoroutineStack::arg, local, args, locals", "the i-th argument and local are where the frame layout puts them, for all counts and indices") {
    StackWorld w; Local real = w.sc.local(w.mk(CoroutineStack::initial_size)); AnyStack s(w, real);
    u64 i = any21("index"); if (!vk_symbolic()) i %= 8;
    if (!s.nested) vk_end();
    u64 argc = any21("argc"); if (!vk_symbolic()) argc %= s.frame + 1;
    vk_assume(argc <= s.frame); s.f->argc = (u32) argc;
    auto a = CoroutineStack::args(TIRO_NN(s.f)), l = CoroutineStack::locals(TIRO_NN(s.f));
    vk_assert((u64*) a.data() == s.data + s.frame - argc && a.size() == argc && (u64*) l.data() == s.data + s.frame + sizeof(CatchFrame) / 8 && l.size() == s.locals, "arguments end and locals begin at the frame");
    if (i < argc) vk_assert((u64*) CoroutineStack::arg(TIRO_NN(s.f), (u32) i) == s.data + s.frame - argc + i, "argument address");
    if (i < s.locals) vk_assert((u64*) CoroutineStack::local(TIRO_NN(s.f), (u32) i) == s.data + s.frame + sizeof(CatchFrame) / 8 + i, "local address");
}
VK_CONTRACT(stack_values, "P13", "proof", "CoroutineStack::top_value, top_values", "the i-th value is where the frame layout puts it, for all counts and indices") {
    StackWorld w; Local real = w.sc.local(w.mk(CoroutineStack::initial_size)); AnyStack s(w, real); auto st = s.get();
    u64 i = any21("index"); if (!vk_symbolic()) i %= 8;
    if (i >= s.nvals) vk_end();
    u64* want = s.data + s.at - 1 - i;
    vk_assert((u64*) st.top_value((u32) i) == want, "value address");
    auto t = st.top_values((u32) i + 1); vk_assert(t.size() == i + 1 && (u64*) t.data() == want, "top values");
}
VK_CONTRACT(stack_pop_values, "P13", "proof", "CoroutineStack::pop_values, top_value_count", "popping removes exactly the topmost values, for all counts") {
    StackWorld w; Local real = w.sc.local(w.mk(CoroutineStack::initial_size)); AnyStack s(w, real); auto* d = s.d; auto st = s.get();
    u64 i = any21("index"); if (!vk_symbolic()) i %= 8;
    if (i > s.nvals) vk_end();
    u64* want = s.data + s.at - i; st.pop_values((u32) i); vk_assert((u64*) d->top == want && st.top_value_count() == s.nvals - i, "exactly the topmost values are removed");
}
