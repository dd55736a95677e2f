// Contracts of the scheduler: ready queue, resume tokens, the run loop, resumable and asynchronous native functions.
// vk-link: core
// vk-native: contracts
// vk-opts: * --fork-select --alias-query
#include "calls_harness.hpp"
#include "vm/modules/verify.hpp"
#include "vm/builtins/modules.hpp"
#include <deque>

namespace {
bool g_on; int g_unwinds; u64 g_unwound; int g_calls; u64 g_called; u32 g_called_argc; int g_returns; u64 g_returned;
static void vk_stub_unwind(Interpreter* i, Handle<Coroutine> c, Exception e) { if (!g_on) return i->unwind(c, e); g_unwinds++; g_unwound = e.raw(); }
static void vk_stub_call(Interpreter* i, Handle<Coroutine> c, Handle<Value> f, u32 n) { if (!g_on) return i->call_function(c, f, n); g_calls++; g_called = f->raw(); g_called_argc = n; }
static void vk_stub_return(Interpreter* i, Handle<Coroutine> c, Value v) { if (!g_on) return i->return_function(c, v); g_returns++; g_returned = v.raw(); }
// Contract of Interpreter::run (sched_run decides it): the coroutine runs until it is Ready again, Waiting or Done.
struct Driver { virtual void run(Handle<Coroutine> c) = 0; }; Driver* g_driver;
struct Frames { virtual void frame(Handle<Coroutine> c, CoroutineFrame* f) = 0; }; Frames* g_frames;
static void vk_stub_run(Interpreter* i, Handle<Coroutine> c) { if (!g_driver) return i->run(c); g_driver->run(c); }
static void vk_stub_code(Interpreter* i, Handle<Coroutine> c, NotNull<CodeFrame*> f) { if (!g_frames) return i->run_frame(c, f); g_frames->frame(c, f.get()); }
static void vk_stub_resumable(Interpreter* i, Handle<Coroutine> c, NotNull<ResumableFrame*> f) { if (!g_frames) return i->run_frame(c, f); g_frames->frame(c, f.get()); }
static void vk_stub_catch(Interpreter* i, Handle<Coroutine> c, NotNull<CatchFrame*> f) { if (!g_frames) return i->run_frame(c, f); g_frames->frame(c, f.get()); }
}
extern "C" vk_replacement vk_replacements_sched[];
vk_replacement vk_replacements_sched[] = { VK_VM_REPLACEMENTS, { "tiro::vm::Interpreter::unwind(", (void*) vk_stub_unwind }, { "tiro::vm::Interpreter::call_function(", (void*) vk_stub_call }, { "tiro::vm::Interpreter::return_function(", (void*) vk_stub_return },
    { "tiro::vm::Interpreter::run(", (void*) vk_stub_run },
    { "tiro::vm::Interpreter::run_frame(tiro::vm::Handle<tiro::vm::Coroutine>, tiro::NotNull<tiro::vm::CodeFrame*>)", (void*) vk_stub_code },
    { "tiro::vm::Interpreter::run_frame(tiro::vm::Handle<tiro::vm::Coroutine>, tiro::NotNull<tiro::vm::ResumableFrame*>)", (void*) vk_stub_resumable },
    { "tiro::vm::Interpreter::run_frame(tiro::vm::Handle<tiro::vm::Coroutine>, tiro::NotNull<tiro::vm::CatchFrame*>)", (void*) vk_stub_catch } };
namespace { void reset_ghost() { g_on = false; g_unwinds = g_calls = g_returns = 0; g_driver = nullptr; g_frames = nullptr; }
bool throws(FunctionRef<void()> f) { try { f(); } catch (const Error&) { return true; } return false; }
const CoroutineState all_states[] = {CoroutineState::New, CoroutineState::Started, CoroutineState::Ready, CoroutineState::Running, CoroutineState::Waiting, CoroutineState::Done};
// every slot of a coroutine that scheduling has no business with
struct Snap { u64 name, fn, args, stack, result, cb, token, next; CoroutineState state;
    static u64 raw(const Value& v) { return v.raw(); }
    Snap(Coroutine c) : name(c.name().raw()), fn(c.function().raw()), args(raw(c.arguments())), stack(raw(c.stack())), result(raw(c.result())), cb(raw(c.native_callback())), token(raw(c.current_token())), next(raw(c.next_ready())), state(c.state()) {}
    bool rest(const Snap& o) const { return name == o.name && fn == o.fn && args == o.args && stack == o.stack && result == o.result && cb == o.cb; }
    bool same(const Snap& o) const { return rest(o) && token == o.token && next == o.next && state == o.state; } };
}
// vk-covers: queue_step scheduled, dequeued, empty
VK_CONTRACT(queue_step, "P14", "proof", "Context::schedule_coroutine, dequeue_coroutine, has_ready", "scheduling appends exactly one coroutine behind the last one, dequeuing removes exactly the first one, and no other coroutine changes; for a queue of any length (one step touches the first, second and last element only)") {
    Base w; Local a = w.mkcoro(); Local b = w.mkcoro(); Local l = w.mkcoro(); Local x = w.mkcoro(); auto first = w.ctx.roots_.get_first_ready(); auto last = w.ctx.roots_.get_last_ready();
    u64 len = vk_choice("queue length (3: or more)", 0, 3); Coroutine none(*a);
    if (len == 1) { first.set(a); last.set(a); } else if (len == 2) { first.set(a); a->next_ready(*l); last.set(l); } else if (len == 3) { first.set(a); a->next_ready(*b); b->next_ready(*l); last.set(l); } // between b and l any number of others
    for (Coroutine c : {*a, *b, *l, *x}) c.state(CoroutineState::Ready);
    if (vk_choice("state", 0, 1)) x->state(CoroutineState::Started);
    Snap sa(*a), sb(*b), sl(*l), sx(*x); auto rf = [&] { return Snap::raw(*first); }; auto rl = [&] { return Snap::raw(*last); }; u64 f0 = rf(), l0 = rl();
    vk_assert(w.ctx.has_ready() == (len > 0), "the queue is not empty exactly if something is ready");
    if (vk_choice("operation", 0, 1) == 0) {
        w.ctx.schedule_coroutine(x); vk_assert(Snap(*x).same(sx), "the scheduled coroutine is the last one"); vk_assert(rl() == x->raw() && rf() == (len ? f0 : x->raw()), "it is the last of the queue");
        if (len) { Handle<Coroutine> old = len == 1 ? Handle<Coroutine>(a) : Handle<Coroutine>(l); vk_assert(Snap::raw(old->next_ready()) == x->raw(), "it follows the old last one"); old->next_ready({}); }
        vk_assert(Snap(*a).same(sa) && Snap(*b).same(sb) && Snap(*l).same(sl), "nothing else changes"); vk_cover("scheduled"); return;
    }
    Local<Nullable<Coroutine>> got = w.sc.local(w.ctx.dequeue_coroutine()); u64 gr = Snap::raw(*got);
    if (!len) { vk_assert(gr == 0 && rf() == 0 && rl() == 0, "nothing to run"); vk_cover("empty"); }
    else { vk_assert(gr == a->raw(), "the first one runs"); vk_assert(Snap::raw(a->next_ready()) == 0, "it is not linked"); vk_assert(rf() == (len == 1 ? 0 : len == 2 ? l->raw() : b->raw()) && rl() == (len == 1 ? 0 : l0), "the second one is the first"); Snap na(*a); vk_assert(na.rest(sa) && na.token == sa.token && na.state == sa.state, "nothing else changes"); vk_cover("dequeued"); }
    vk_assert(Snap(*b).same(sb) && Snap(*l).same(sl) && Snap(*x).same(sx), "nothing else changes");
}
// vk-covers: sched_start started, refused
VK_CONTRACT(sched_start, "P14", "proof", "Context::start, make_coroutine, Interpreter::make_coroutine, Coroutine::make, Coroutine::schedule", "a new coroutine is started and queued exactly once with its function and arguments; one in any other state is refused unchanged; a running coroutine that gives up control is queued as ready") {
    Base w; Local fn = w.sc.local<Value>(*w.name); Local args = w.sc.local(Tuple::make(w.ctx, 2)); Local coro = w.sc.local(w.ctx.make_coroutine(fn, args));
    Snap s0(*coro); vk_assert(s0.state == CoroutineState::New && s0.fn == fn->raw() && s0.args == args->raw() && s0.stack != 0 && s0.token == 0 && s0.next == 0 && s0.result == 0 && s0.cb == 0, "a fresh coroutine");
    CoroutineState st = all_states[vk_choice("state", 0, 5)]; coro->state(st); Snap s(*coro);
    bool err = throws([&] { w.ctx.start(coro); }); vk_assert(err == (st != CoroutineState::New), "only a new coroutine can be started"); Snap n(*coro);
    if (err) { vk_assert(n.same(s) && !w.ctx.has_ready(), "and nothing changes"); vk_cover("refused");
        if (st == CoroutineState::Running) { Coroutine::schedule(w.ctx, coro); Snap m(*coro); vk_assert(m.rest(s) && m.state == CoroutineState::Ready && m.token == 0 && m.next == 0 && Snap::raw(w.ctx.dequeue_coroutine()) == coro->raw() && !w.ctx.has_ready(), "a running coroutine is queued once"); } return; }
    vk_assert(n.rest(s) && n.state == CoroutineState::Started && n.next == 0, "it is started"); vk_assert(Snap::raw(w.ctx.dequeue_coroutine()) == coro->raw() && !w.ctx.has_ready(), "and queued once"); vk_cover("started");
}
// vk-covers: token_resume resumed, refused, cached, stale
VK_CONTRACT(token_resume, "P14", "proof", "CoroutineToken::resume, valid, coroutine, make, Coroutine::create_token, reset_token, current_token, Context::resume_coroutine", "a token resumes its coroutine exactly if it is the coroutine's current token and the coroutine waits; afterwards the coroutine is ready, queued once, and neither this nor any other old token resumes it again; otherwise nothing changes") {
    Base w; Local coro = w.mkcoro(); Local other = w.mkcoro(); other->state(CoroutineState::Waiting); Local ot = w.sc.local(Coroutine::create_token(w.ctx, other));
    CoroutineState st = all_states[vk_choice("state", 0, 5)]; u64 kind = vk_choice("token", 0, 2); Local t = w.sc.local(Coroutine::create_token(w.ctx, coro));
    vk_assert(t->valid() && t->coroutine().raw() == coro->raw() && Coroutine::create_token(w.ctx, coro).raw() == t->raw(), "the token is cached"); vk_cover("cached");
    Local cur = w.sc.local(*t); if (kind >= 1) { coro->reset_token(); vk_assert(!t->valid(), "a reset token is invalid"); } // 1: no current token
    if (kind == 2) { cur = Coroutine::create_token(w.ctx, coro); vk_assert(cur->valid() && !t->valid() && cur->raw() != t->raw(), "a new token"); vk_cover("stale"); }
    coro->state(st); Snap s(*coro), so(*other); bool r = CoroutineToken::resume(w.ctx, t);
    vk_assert(r == (kind == 0 && st == CoroutineState::Waiting), "resumed exactly if the token is current and the coroutine waits"); Snap n(*coro); vk_assert(Snap(*other).same(so) && ot->valid(), "no other coroutine changes");
    if (!r) { vk_assert(n.same(s) && !w.ctx.has_ready(), "nothing changes"); vk_cover("refused"); return; }
    vk_assert(n.rest(s) && n.state == CoroutineState::Ready && n.token == 0 && n.next == 0, "the coroutine is ready"); vk_assert(!CoroutineToken::resume(w.ctx, t) && !t->valid(), "the token is used up");
    vk_assert(Snap::raw(w.ctx.dequeue_coroutine()) == coro->raw() && !w.ctx.has_ready(), "queued once"); coro->state(CoroutineState::Waiting); vk_assert(!CoroutineToken::resume(w.ctx, t), "an old token does not resume a later wait"); vk_cover("resumed");
}
namespace {
struct Cb final : CoroutineCallback { int id; static int done_count[4]; static CoroutineState at[4];
    explicit Cb(int i) : id(i) {}
    void done(Context&, Handle<Coroutine> c) override { done_count[id]++; at[id] = c->state(); }
    void move(void* d, size_t) noexcept override { new (d) Cb(id); }
    size_t size() override { return sizeof(Cb); } size_t align() override { return alignof(Cb); } };
int Cb::done_count[4]; CoroutineState Cb::at[4];
struct LoopDriver : Driver {
    Base& w; std::vector<Handle<Coroutine>> cs; std::vector<MutHandle<Nullable<CoroutineToken>>> tok; std::deque<int> queue; std::vector<int> st; int runs = 0, limit; // st: 0 new 1 queued 3 waiting 4 done
    LoopDriver(Base& b, int n, int lim) : w(b), limit(lim) { for (int i = 0; i < n; i++) { Local c = w.mkcoro(); cs.push_back(c); Local t = w.sc.local<Nullable<CoroutineToken>>(); tok.push_back(t.mut()); st.push_back(0); } }
    int at(Coroutine c) { for (size_t i = 0; i < cs.size(); i++) if (cs[i]->raw() == c.raw()) return (int) i; return -1; }
    void start(int i) { w.ctx.start(cs[(size_t) i]); queue.push_back(i); st[(size_t) i] = 1; }
    void wake(int i) { bool ok = CoroutineToken::resume(w.ctx, tok[(size_t) i].must_cast<CoroutineToken>()); vk_assert(ok == (st[(size_t) i] == 3), "a token wakes exactly a waiting coroutine"); if (ok) { queue.push_back(i); st[(size_t) i] = 1; } }
    void run(Handle<Coroutine> c) override {
        Scope sc(w.ctx); int i = at(*c); vk_assert(i >= 0 && !queue.empty() && queue.front() == i, "coroutines run in the order in which they became ready"); queue.pop_front(); vk_assert(st[(size_t) i] == 1 && is_runnable(c->state()), "each once per wake-up"); vk_assert(w.ctx.running_, "");
        c->state(CoroutineState::Running); int n = (int) cs.size(); u64 act = runs++ < limit ? vk_choice("action", 0, 1 + (u64) n) : 0; u64 out = runs <= limit ? vk_choice("outcome", 0, 2) : 2; Local t = sc.local(Coroutine::create_token(w.ctx, c)); tok[(size_t) i].set(*t); st[(size_t) i] = 2;
        if (act == 1) { for (int k = 0; k < n; k++) if (st[(size_t) k] == 0) { start(k); break; } }
        if (act >= 2) { int k = (int) act - 2; if (tok[(size_t) k]->has_value()) wake(k); }
        if (out == 0) { Coroutine::schedule(w.ctx, c); queue.push_back(i); st[(size_t) i] = 1; vk_cover("rescheduled"); }
        else if (out == 1) { c->state(CoroutineState::Waiting); st[(size_t) i] = 3; }
        else { Local v = sc.local(); c->result(Result::make_success(w.ctx, v)); c->state(CoroutineState::Done); st[(size_t) i] = 4; }
    }
};
}
// vk-covers: run_ready rescheduled, woken, completed
VK_CONTRACT(run_ready, "P14", "bounded: three coroutines, every behaviour of the first 3 runs", "Context::run_ready, execute_callbacks, set_callback, start, resume_coroutine, schedule_coroutine, dequeue_coroutine, CoroutineToken::resume, Coroutine::schedule", "coroutines run in the order in which they became ready, once per wake-up, until none is ready; the callback of a coroutine is called exactly once, when it is done, and its tokens are then invalid") {
    Base w; LoopDriver d(w, 3, 3); for (int i = 0; i < 4; i++) Cb::done_count[i] = 0;
    for (int i = 0; i < 2; i++) { Cb other(3); if (i) w.ctx.set_callback(d.cs[(size_t) i], other); Cb cb(i); w.ctx.set_callback(d.cs[(size_t) i], cb); }
    d.start(0); if (vk_choice("two", 0, 1)) d.start(1);
    d.limit = 3; g_driver = &d; w.ctx.run_ready();
    auto check = [&] { vk_assert(d.queue.empty() && !w.ctx.has_ready() && !w.ctx.running_, "nothing is left to run"); for (int i = 0; i < 3; i++) { bool done = d.st[(size_t) i] == 4; vk_assert(done == (d.cs[(size_t) i]->state() == CoroutineState::Done), ""); vk_assert(Cb::done_count[i] == (done && i < 2), "the callback is called exactly once at completion"); if (done && i < 2) vk_assert(Cb::at[i] == CoroutineState::Done, "after it"); if (done) { vk_assert(d.cs[(size_t) i]->current_token().is_null(), "no token resumes a completed coroutine"); vk_cover("completed"); } } vk_assert(Cb::done_count[3] == 0, "a replaced callback is not called"); };
    check();
    for (int i = 0; i < 3; i++) if (d.st[(size_t) i] == 3) { d.wake(i); vk_cover("woken"); }
    w.ctx.run_ready(); check();
}
namespace { struct NestDriver : Driver { Context& ctx; bool refused = false, fail; NestDriver(Context& c, bool f) : ctx(c), fail(f) {}
    void run(Handle<Coroutine> c) override { refused = throws([&] { ctx.run_ready(); }); vk_assert(ctx.running_, "the outer call still runs"); if (fail) TIRO_ERROR("x"); c->state(CoroutineState::Waiting); }
}; }
// vk-covers: run_ready_nested refused, failed
VK_CONTRACT(run_ready_nested, "P14", "proof", "Context::run_ready", "a nested call is refused, and the context can run again after a failure; a coroutine that completed while it was queued is not run") {
    Base w; Local done = w.mkcoro(); Local coro = w.mkcoro(); w.ctx.start(done); done->state(CoroutineState::Done); w.ctx.start(coro); bool fail = vk_choice("fails", 0, 1) == 1; NestDriver d(w.ctx, fail); g_driver = &d;
    bool err = throws([&] { w.ctx.run_ready(); }); vk_assert(d.refused, "a nested call is refused"); vk_assert(err == fail && !w.ctx.running_ && !w.ctx.has_ready(), "the context can run again"); vk_cover("refused"); if (fail) vk_cover("failed");
}
namespace { struct FrameDriver : Frames { std::vector<std::pair<CoroutineState, CoroutineFrame*>> log; std::vector<CoroutineState> next; Base& w; bool fail = false; CoroutineStack other; explicit FrameDriver(Base& b, CoroutineStack o) : w(b), other(o) {}
    void frame(Handle<Coroutine> c, CoroutineFrame* f) override { log.push_back({c->state(), f}); vk_assert(Snap::raw(w.ctx.interpreter().current_coroutine()) == c->raw(), "the coroutine is the current one"); if (fail) TIRO_ERROR("x"); CoroutineState s = next[log.size() - 1]; if (s == CoroutineState::Done) { Local v = w.sc.local(); c->result(Result::make_success(w.ctx, v)); } c->state(s); if (log.size() == 1) c->stack(other); } }; }
// vk-covers: sched_run started, resumed, done, failed
VK_CONTRACT(sched_run, "P14", "bounded: up to 3 steps and 3 arguments", "Interpreter::run, run_until_block, push_function_args, reserve_values, current_coroutine", "running a started coroutine calls its function once with its arguments in order; then the topmost frame runs until the coroutine is ready, waits or is done; a completed coroutine gives up its stack; afterwards nothing is current") {
    Base w; Local coro = w.mkcoro(); Interpreter& in = w.ctx.interpreter(); Local st = w.sc.local(coro->stack().value()); Local st2 = w.sc.local(CoroutineStack::make(w.ctx, CoroutineStack::initial_size)); Local nf = w.mknative(0, 0); Local t = w.mktmpl(0, 0); bool fresh = vk_choice("state", 0, 1) == 0; u64 n = fresh ? vk_choice("arguments", 0, 4) : 0;
    auto push = [&](Local<CoroutineStack>& s, u64 k) { if (k == 0) s->push_user_frame(*t, Nullable<Environment>(), 0); else if (k == 1) s->push_resumable_frame(*nf, 0, 0); else s->push_catch_frame(0, 0); };
    u64 k1 = vk_choice("frame", 0, 2); push(st, k1); push(st2, 0);
    Local fn = w.sc.local<Value>(*w.name); coro->layout()->write_static_slot(Coroutine::FunctionSlot, fn);
    if (fresh && n < 4) { Local tup = w.sc.local(Tuple::make(w.ctx, n)); for (u64 i = 0; i < n; i++) tup->unchecked_set(i, SmallInteger::make(70 + (i64) i)); coro->layout()->write_static_slot(Coroutine::ArgumentsSlot, tup); }
    coro->state(fresh ? CoroutineState::Started : CoroutineState::Ready); FrameDriver d(w, *st2); d.fail = vk_choice("fails", 0, 1) == 1;
    u64 steps = d.fail ? 1 : vk_choice("steps", 1, 3), last = vk_choice("ends", 0, 2); for (u64 i = 0; i < steps; i++) d.next.push_back(i + 1 < steps ? CoroutineState::Running : last == 0 ? CoroutineState::Ready : last == 1 ? CoroutineState::Waiting : CoroutineState::Done);
    CoroutineFrame* f1 = st->top_frame(); CoroutineFrame* f2 = st2->top_frame(); u32 v0 = st->top_value_count(); g_frames = &d; g_on = true; bool err = throws([&] { in.run(coro); }); g_on = false;
    vk_assert(err == d.fail, ""); vk_assert(!in.running_ && in.current_coroutine().is_null() && in.regs_.slots_used_ == 0, "nothing is current"); if (err) vk_cover("failed");
    if (fresh) { vk_assert(g_calls == 1 && g_called == fn->raw() && g_called_argc == (n == 4 ? 0 : n) && st->top_value_count() == v0 + g_called_argc, "its function is called with its arguments"); for (u32 i = 0; i < g_called_argc; i++) vk_assert(st->top_value(g_called_argc - 1 - i)->raw() == SmallInteger::make(70 + (i64) i).raw(), "in order"); vk_cover("started"); } else { vk_assert(g_calls == 0 && st->top_value_count() == v0, "it continues where it left"); vk_cover("resumed"); }
    vk_assert(d.log.size() == (d.fail ? 1 : steps), "frames run while the coroutine runs"); for (size_t i = 0; i < d.log.size(); i++) vk_assert(d.log[i].first == CoroutineState::Running && d.log[i].second == (i == 0 ? f1 : f2), "the topmost frame of its current stack");
    if (!err) { vk_assert(coro->state() == d.next[steps - 1], ""); if (last == 2) { vk_assert(coro->stack().is_null(), "a completed coroutine has no stack"); vk_cover("done"); } else vk_assert(Snap::raw(coro->stack()) == st2->raw(), ""); }
}

namespace {
// What the native function does in its single invocation.
int g_act, g_invoked; u64 g_v; Function* g_fn; Nullable<Tuple>* g_args; u64 g_inv_ret; int g_state; ResumableFrameContext* g_ctx; bool g_read_ret; Coroutine* g_coro; u64 g_loc; bool g_tok; u64 g_token;
void native(ResumableFrameContext& f) {
    g_invoked++; g_state = f.state(); if (g_read_ret) g_inv_ret = f.invoke_return().raw(); Value v(Value::null()); memcpy(&v, &g_v, 8);
    if (g_tok) g_token = f.resume_token().raw();
    switch (g_act) { case 0: f.set_state(5); break; case 1: f.return_value(v); break; case 2: f.panic(static_cast<Exception>(v)); break; case 3: f.invoke(9, *g_fn, *g_args); break; case 4: f.yield(11); break; case 5: Coroutine::schedule(f.ctx(), f.coro()); f.set_state(6); break; }
}
}
// vk-covers: frame_resumable none, return, panic, invoke, yield, dispatched, end
VK_CONTRACT(frame_resumable, "P14", "proof", "Interpreter::run_frame(ResumableFrame), ResumableFrameContext, ResumableFrameContinuation, push_function_args", "a resumable native function is invoked exactly once per step with its own state; then its frame holds no values, and exactly the requested action happens: return, panic, call with the given arguments, wait, or nothing; a finished one is left without being invoked; for every position, every number of values") {
    AnyCall c(24); u64 locals = c.dim("locals", 15, 3), argc = c.dim("arguments", 21, 3); u64 vals = vk_choice("values", 0, 1); if (!vk_symbolic() && argc > c.cvals) vk_end(); vk_assume(argc <= c.cvals); constexpr u64 fs = sizeof(ResumableFrame) / 8; vk_assume(fs + locals + vals + 4 <= c.room); if (!vk_symbolic() && fs + locals + vals + 4 > c.room) vk_end();
    Local nf = c.sc.local(NativeFunction::resumable([](ResumableFrameContext& f) { native(f); }, 0).name(c.name).params(0).make(c.ctx)); CoroutineFrameParams p; p.caller = c.caller; p.argc = (u32) argc; p.locals = (u32) locals; ResumableFrame* f = new (c.data + c.at) ResumableFrame(*nf, p); f->state = (int) vk_choice("state", 0, 2) - 1; int s0 = f->state; c.d->top_frame = f; u64 base = c.at + fs + locals; c.d->top = (byte*) (c.data + base + vals); u64 ret = SmallInteger::make((i64) vk_range("returned", 0, 1000)).raw(); if (vals) c.data[base] = ret;
    Local ex = c.mkexc(); Local<Function> fn = c.sc.local<Function>(*nf); g_act = (int) vk_choice("action", 0, 5); u64 n = g_act == 3 ? vk_choice("call arguments", 0, 4) : 4; Local<Nullable<Tuple>> args = c.sc.local<Nullable<Tuple>>(); if (n < 4) args = Tuple::make(c.ctx, n); for (u64 i = 0; i < n && n < 4; i++) args->value().unchecked_set(i, SmallInteger::make(70 + (i64) i)); if (n == 4) n = 0;
    g_v = g_act == 2 ? ex->raw() : SmallInteger::make((i64) vk_range("value", 0, 1000)).raw(); Function fnv(*fn); Nullable<Tuple> av(*args); g_fn = &fnv; g_args = &av; g_invoked = 0; g_read_ret = true; g_tok = g_act >= 4; c.watch(c.at); Interpreter& in = c.ctx.interpreter();
    g_on = true; in.run_frame(c.coro, TIRO_NN(f)); g_on = false; c.unchanged(); vk_assert(c.d->top_frame == f && in.regs_.slots_used_ == 0, "the frame is the topmost one");
    if (s0 == ResumableFrame::END) { vk_assert(g_invoked == 0 && g_returns == 1 && g_returned == 0 && g_unwinds == 0 && g_calls == 0 && c.coro->state() == CoroutineState::Running, "a finished function returns"); vk_cover("end"); return; }
    vk_assert(g_invoked == 1 && g_state == s0, "invoked once in its state"); vk_assert(g_inv_ret == (vals ? ret : 0), "it sees the value its callee returned"); if (g_tok) vk_assert((g_act == 5) == c.coro->current_token().is_null() && (g_act == 5 || g_token == Snap::raw(c.coro->current_token())), "its token is the coroutine's");
    u64 pushed = g_act == 3 ? n : 0; vk_assert(c.d->top == (byte*) (c.data + base + pushed), "no values are left"); vk_assert(g_returns == (g_act == 1) && g_unwinds == (g_act == 2) && g_calls == (g_act == 3), "exactly the requested action");
    vk_assert(c.coro->state() == (g_act == 4 ? CoroutineState::Waiting : g_act == 5 ? CoroutineState::Ready : CoroutineState::Running), ""); int want[] = {5, -1, -1, 9, 11, 6}; vk_assert(f->state == want[g_act], "and state");
    if (g_act == 0) vk_cover("none"); if (g_act == 1) { vk_assert(g_returned == g_v, "the value"); vk_cover("return"); } if (g_act == 2) { vk_assert(g_unwound == g_v, "the exception"); vk_cover("panic"); } if (g_act == 4) vk_cover("yield"); if (g_act == 5) vk_cover("dispatched");
    if (g_act == 3) { vk_assert(g_called == fn->raw() && g_called_argc == n, "the function with its arguments"); for (u64 i = 0; i < n; i++) vk_assert(c.data[base + i] == SmallInteger::make(70 + (i64) i).raw(), "in order"); vk_cover("invoke"); }
}
namespace { u64 g_async_v; int g_async_act; AsyncResumeToken* g_async_tok; alignas(AsyncResumeToken) char g_tok_buf[sizeof(AsyncResumeToken)];
void async_fn(AsyncFrameContext& f) { Value v(Value::null()); memcpy(&v, &g_async_v, 8); switch (g_async_act) { case 1: f.return_value(v); break; case 2: f.panic(static_cast<Exception>(v)); break; case 3: g_async_tok = new (g_tok_buf) AsyncResumeToken(f.resume_token()); f.yield(); break; } } }
// vk-covers: frame_async sync, resumed value, resumed panic, refused
VK_CONTRACT(frame_async, "P14", "proof", "NativeFunction::AsyncAdapter, AsyncFrameContext, AsyncResumeToken, UnownedAsyncResumeToken::complete, get_frame", "an asynchronous function returns, panics or waits; completing its token wakes the coroutine once with exactly the value or exception; completing before it waits, or a second time, is an error that changes nothing") {
    Base w; Local coro = w.mkcoro(); Local st = w.sc.local(coro->stack().value()); Local nf = w.sc.local(NativeFunction::async([](AsyncFrameContext& f) { async_fn(f); }).name(w.name).params(0).make(w.ctx)); st->push_resumable_frame(*nf, 0, 0); auto f = static_cast<ResumableFrame*>(st->top_frame()); Local ex = w.mkexc(); Local v = w.sc.local(); Interpreter& in = w.ctx.interpreter(); coro->state(CoroutineState::Running); in.current_ = *coro;
    g_async_act = (int) vk_choice("action", 0, 3); g_async_v = g_async_act == 2 ? ex->raw() : SmallInteger::make((i64) vk_range("value", 0, 1000)).raw(); g_on = true; in.run_frame(coro, TIRO_NN(f));
    if (g_async_act < 3) { vk_assert(coro->state() == CoroutineState::Running && f->state == ResumableFrame::END && g_returns == (g_async_act < 2) && g_unwinds == (g_async_act == 2), "completes at once"); if (g_async_act == 2) vk_assert(g_unwound == g_async_v, ""); else vk_assert(g_returned == (g_async_act == 0 ? 0 : g_async_v), "with its value"); vk_cover("sync"); return; }
    vk_assert(coro->state() == CoroutineState::Waiting && g_returns == 0 && g_unwinds == 0, "it waits"); bool panic = vk_choice("panic", 0, 1) == 1; v = SmallInteger::make(77); auto complete = [&] { return throws([&] { if (panic) g_async_tok->panic(*ex); else g_async_tok->return_value(*v); }); };
    auto l0 = [&] { return CoroutineStack::local(NotNull<ResumableFrame*>(TIRO_NN(f)), 0)->raw(); }; auto l1 = [&] { return CoroutineStack::local(NotNull<ResumableFrame*>(TIRO_NN(f)), 1)->raw(); }; Snap s(*coro); vk_assert(complete() && Snap(*coro).same(s) && l0() == 0 && l1() == 0 && !w.ctx.has_ready(), "too early"); vk_cover("refused");
    in.current_ = Null(); if (vk_choice("stale", 0, 1)) { coro->reset_token(); Snap z(*coro); vk_assert(complete() && Snap(*coro).same(z) && l0() == 0 && l1() == 0 && !w.ctx.has_ready(), "an old token is refused"); g_async_tok->~AsyncResumeToken(); return; }
    vk_assert(!complete() && coro->state() == CoroutineState::Ready && coro->current_token().is_null(), "it wakes"); vk_assert(l0() == (panic ? 0 : v->raw()) && l1() == (panic ? ex->raw() : 0), "with the result"); Snap z(*coro); vk_assert(complete() && Snap(*coro).same(z), "a second completion is refused"); vk_assert(Snap::raw(w.ctx.dequeue_coroutine()) == coro->raw() && !w.ctx.has_ready(), "queued once");
    coro->state(CoroutineState::Running); in.current_ = *coro; in.run_frame(coro, TIRO_NN(f)); g_on = false; vk_assert(g_returns == !panic && g_unwinds == panic, "it continues"); if (panic) { vk_assert(g_unwound == ex->raw(), "with the exception"); vk_cover("resumed panic"); } else { vk_assert(g_returned == v->raw(), "with the value"); vk_cover("resumed value"); } g_async_tok->~AsyncResumeToken(); in.current_ = Null();
}
// vk-covers: sched_std launch, dispatch, yield, token, current
VK_CONTRACT(sched_std, "P14", "bounded: up to 3 arguments", "std.launch, std.dispatch, std.yield_coroutine, std.coroutine_token, std.current_coroutine, Interpreter::run_frame(ResumableFrame)", "launching starts and queues one new coroutine with the given function and arguments; dispatch queues the running coroutine behind all others; yield waits for the token; the token and the coroutine are the running one's") {
    Base w; Local m = w.sc.local(create_std_module(w.ctx)); const char* names[] = {"launch", "dispatch", "yield_coroutine", "coroutine_token", "current_coroutine"}; u64 k = vk_choice("function", 0, 4);
    Local sym = w.sc.local(w.ctx.get_symbol(names[k])); auto found = m->find_exported(*sym); vk_assert(found.has_value(), "exported"); Local nf = w.sc.local(found->must_cast<NativeFunction>());
    Local coro = w.mkcoro(); Local other = w.mkcoro(); w.ctx.start(other); Local st = w.sc.local(coro->stack().value()); u64 n = k == 0 ? vk_choice("arguments", 1, 4) : 0; for (u64 i = 0; i < n; i++) st->push_value(SmallInteger::make(70 + (i64) i));
    coro->state(CoroutineState::Running); w.ctx.interpreter().current_ = *coro; vk_assert(nf->params() == (k == 0), "parameters"); st->push_resumable_frame(*nf, (u32) n, 0); auto f = static_cast<ResumableFrame*>(st->top_frame()); Snap s(*coro); g_on = true; w.ctx.interpreter().run_frame(coro, TIRO_NN(f)); g_on = false; Snap z(*coro); vk_assert(g_calls == 0 && g_unwinds == 0 && z.rest(s), "");
    vk_assert(Snap::raw(w.ctx.dequeue_coroutine()) == other->raw(), "coroutines that are ready stay in front"); Local<Nullable<Coroutine>> q = w.sc.local(w.ctx.dequeue_coroutine()); vk_assert(!w.ctx.has_ready(), "");
    if (k == 1) { vk_assert(Snap::raw(*q) == coro->raw() && z.state == CoroutineState::Ready && z.token == 0 && f->state == ResumableFrame::END && g_returns == 1 && g_returned == 0, "queued"); vk_cover("dispatch"); return; }
    if (k == 2) { vk_assert(q->is_null() && z.state == CoroutineState::Waiting && z.token == s.token && f->state == ResumableFrame::END && g_returns == 1 && g_returned == 0, "waiting"); vk_cover("yield"); return; }
    vk_assert(g_returns == 1 && z.state == CoroutineState::Running && f->state == ResumableFrame::END, "returns");
    if (k == 3) { vk_assert(q->is_null() && g_returned == z.token && z.token != 0 && coro->current_token().value().valid(), "a valid token"); vk_cover("token"); return; }
    if (k == 4) { vk_assert(q->is_null() && g_returned == coro->raw() && z.token == 0, "itself"); vk_cover("current"); return; }
    vk_assert(!q->is_null() && Snap::raw(*q) == g_returned && g_returned != coro->raw(), "a new coroutine"); Coroutine c = q->value(); Snap y(c); vk_assert(y.state == CoroutineState::Started && y.fn == SmallInteger::make(70).raw() && y.token == 0 && y.next == 0 && y.stack != 0 && y.stack != s.stack, "with the function"); Tuple t = c.arguments().value(); vk_assert(t.size() == n - 1, "and the arguments"); for (u64 i = 1; i < n; i++) vk_assert(t.unchecked_get(i - 1).raw() == SmallInteger::make(70 + (i64) i).raw(), "in order"); vk_cover("launch");
}
