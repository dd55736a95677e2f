// Contracts of the C API: native functions, their call frames, resume tokens, completion callbacks.
// vk-link: core api
// vk-native: contracts
#include "api_harness.hpp"
namespace {
Api* g_a; int g_op, g_calls, g_ran; tiro_handle_t g_f; std::function<void(void*)>* g_body; tiro_async_token_t g_token;
tiro_string_t str(const char* s) { return {s, strlen(s)}; }
void run_body(tiro_vm_t vm, void* frame) { vk_assert(vm == &g_a->vm, "its vm"); g_ran++; (*g_body)(frame); }
void sync_fn(tiro_vm_t vm, tiro_sync_frame_t f) { run_body(vm, f); }
void async_fn(tiro_vm_t vm, tiro_async_frame_t f) { run_body(vm, f); }
void resumable_fn(tiro_vm_t vm, tiro_resumable_frame_t f) { run_body(vm, f); }
// A started coroutine that calls a new native function (0 sync, 1 async, 2 resumable) with two arguments.
tiro_handle_t start(Api& a, int kind, std::function<void(void*)>& body, int args = TUP, int closure = ARR) {
    g_a = &a; g_body = &body; g_ran = 0; tiro_error_t e = nullptr; auto c = tiro_global_new(&a.vm, &e); auto old = *a.slot[COUNT]; (void) old;
    if (kind == 0) tiro_make_sync_function(&a.vm, a.h[STR], sync_fn, 2, a.H(closure), c, &e); else if (kind == 1) tiro_make_async_function(&a.vm, a.h[STR], async_fn, 2, a.H(closure), c, &e); else { tiro_resumable_frame_desc_t d{}; d.name = a.h[STR]; d.arg_count = 2; d.local_count = 3; d.closure = a.H(closure); d.func = resumable_fn; tiro_make_resumable_function(&a.vm, &d, c, &e); }
    vk_assert(!e && tiro_value_kind(&a.vm, c) == TIRO_KIND_FUNCTION, "a function"); tiro_make_coroutine(&a.vm, c, a.H(args), c, &e); tiro_coroutine_start(&a.vm, c, &e); vk_assert(!e, "started"); return c;
}
bool success(Api& a, tiro_handle_t c, u64 want) { if (!tiro_coroutine_completed(&a.vm, c)) return false; auto r = get_valid_slot(to_internal(c))->must_cast<Coroutine>().result(); return r && r.value().is_success() && bits(r.value().unchecked_value()) == want; }
bool panicked(Api& a, tiro_handle_t c, const char* text) { if (!tiro_coroutine_completed(&a.vm, c)) return false; auto r = get_valid_slot(to_internal(c))->must_cast<Coroutine>().result(); return r && r.value().is_error() && r.value().unchecked_error().is<Exception>() && (!text || r.value().unchecked_error().must_cast<Exception>().message().view() == text); }
}
// vk-covers: api_make_functions misuse, success
VK_CONTRACT(api_make_functions, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors; all argument and local counts", "tiro_make_sync_function, tiro_make_async_function, tiro_make_resumable_function", "every misuse is reported with a fitting error and changes nothing; a valid call makes a function with that name, closure and number of parameters") {
    Api a; int f = (int) vk_choice("kind", 0, 2); auto vm = a.pick_vm(); a.errors(); int k = a.in("name", STR), cl = (int) vk_choice("closure", -1, 1); cl = cl < 0 ? -1 : cl ? ARR : NUL; bool null = vk_choice("null function", 0, 1); u64 argc = vk_nondet("arguments", 64), locals = 0; if (null) a.misuse(TIRO_ERROR_BAD_ARG); if (argc > 1024) a.misuse(TIRO_ERROR_BAD_ARG); bool nodesc = false;
    if (f == 2) { nodesc = vk_choice("null description", 0, 1); if (nodesc) a.misuse(TIRO_ERROR_BAD_ARG); locals = vk_nondet("locals", 64); if (locals > 1 << 14) a.misuse(TIRO_ERROR_BAD_ARG); } auto r = a.pick_out(); std::function<void(void*)> body = [](void*) {}; g_body = &body; g_a = &a;
    if (f == 0) tiro_make_sync_function(vm, a.H(k), null ? nullptr : sync_fn, argc, a.H(cl), r, a.ep()); else if (f == 1) tiro_make_async_function(vm, a.H(k), null ? nullptr : async_fn, argc, a.H(cl), r, a.ep()); else { tiro_resumable_frame_desc_t d{a.H(k), argc, locals, a.H(cl), null ? nullptr : resumable_fn}; tiro_make_resumable_function(vm, nodesc ? nullptr : &d, r, a.ep()); }
    a.done([&] { vk_assert(a.result().is<NativeFunction>() && tiro_value_kind(vm, a.out) == TIRO_KIND_FUNCTION, "a function"); auto n = a.result().must_cast<NativeFunction>(); vk_assert(n.params() == argc, "of that many parameters"); vk_assert(n.name().view() == "nm", "of that name"); vk_assert(bits(n.closure()) == (cl < 0 ? bits(Value::null()) : a.was[cl]), "with that closure"); if (f == 2) vk_assert(n.locals() == locals, "with that many locals"); });
}
// ------------------------------------------------------------------ call frames
// vk-covers: api_frames misuse, success
VK_CONTRACT(api_frames, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors; all indices", "tiro_sync_frame_*, tiro_async_frame_*, tiro_resumable_frame_* (arg_count, arg, closure, return_value, panic_msg, local_count, local, set_local, state, set_state, invoke_return)", "inside a running native function: every misuse of its frame is reported with a fitting error and changes nothing; arguments, closure, locals and state are those of the call; the value returned (or null) or the panic is the outcome of the coroutine") {
    Api a; int kind = (int) vk_choice("kind", 0, 2), op = (int) vk_choice("operation", 0, kind == 2 ? 9 : 4); a.errors(); u64 want = bits(Value::null()); const char* text = nullptr; bool panic = false;
    std::function<void(void*)> body = [&](void* frame) {
        if (g_ran > 1) { if (kind == 2) tiro_resumable_frame_return_value((tiro_resumable_frame_t) frame, a.h[NUL], nullptr); return; } a.snapshot(); vk_assert((kind == 0 ? tiro_sync_frame_arg_count((tiro_sync_frame_t) frame) : kind == 1 ? tiro_async_frame_arg_count((tiro_async_frame_t) frame) : tiro_resumable_frame_arg_count((tiro_resumable_frame_t) frame)) == 2, "its arguments"); void* fr = frame; if (vk_choice("null frame", 0, 1)) { fr = nullptr; a.misuse(TIRO_ERROR_BAD_ARG); }
        auto sf = (tiro_sync_frame_t) fr; auto af = (tiro_async_frame_t) fr; auto rf = (tiro_resumable_frame_t) fr;
        switch (op) {
        case 0: { u64 i = vk_nondet("index", 64); if (i >= 2) a.misuse(fr ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_ERROR_BAD_ARG); else i = vk_concretize(i); auto r = a.pick_out(); if (kind == 0) tiro_sync_frame_arg(sf, i, r, a.ep()); else if (kind == 1) tiro_async_frame_arg(af, i, r, a.ep()); else tiro_resumable_frame_arg(rf, i, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[3 + i], "the argument"); }); break; }
        case 1: { auto r = a.pick_out(); if (kind == 0) tiro_sync_frame_closure(sf, r, a.ep()); else if (kind == 1) tiro_async_frame_closure(af, r, a.ep()); else tiro_resumable_frame_closure(rf, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.was[ARR], "the closure"); }); break; }
        case 2: { int k = a.any("value"); if (kind == 0) tiro_sync_frame_return_value(sf, a.H(k), a.ep()); else if (kind == 1) tiro_async_frame_return_value(af, a.H(k), a.ep()); else tiro_resumable_frame_return_value(rf, a.H(k), a.ep()); a.done([&] { want = a.was[k]; if (kind == 2) vk_assert(tiro_resumable_frame_state(rf) == TIRO_RESUMABLE_STATE_END, "the end state"); }); break; }
        case 3: { int k = (int) vk_choice("text", 0, 2); if (k == 2) a.misuse(TIRO_ERROR_BAD_ARG); auto s = k == 0 ? str("boom") : k == 1 ? str("") : tiro_string_t{nullptr, 4}; if (kind == 0) tiro_sync_frame_panic_msg(sf, s, a.ep()); else if (kind == 1) tiro_async_frame_panic_msg(af, s, a.ep()); else tiro_resumable_frame_panic_msg(rf, s, a.ep()); a.done([&] { panic = true; text = k ? "" : "boom"; if (kind == 2) vk_assert(tiro_resumable_frame_state(rf) == TIRO_RESUMABLE_STATE_END, "the end state"); }); break; }
        case 4: { vk_assert((kind == 0 ? tiro_sync_frame_arg_count(sf) : kind == 1 ? tiro_async_frame_arg_count(af) : tiro_resumable_frame_arg_count(rf)) == (fr ? 2 : 0), "its arguments"); if (kind == 2) { vk_assert(tiro_resumable_frame_local_count(rf) == (fr ? 3 : 0), "its locals"); vk_assert(tiro_resumable_frame_state(rf) == 0, "the first state"); } a.unchanged(); if (a.mode == 2) tiro_error_free(a.preset); break; }
        case 5: { u64 i = vk_nondet("index", 64); if (i >= 3) a.misuse(fr ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_ERROR_BAD_ARG); else i = vk_concretize(i); auto r = a.pick_out(); tiro_resumable_frame_local(rf, i, r, a.ep()); a.done([&] { vk_assert(a.result().is_null(), "initially null"); }); break; }
        case 6: { u64 i = vk_nondet("index", 64); if (i >= 3) a.misuse(fr ? TIRO_ERROR_OUT_OF_BOUNDS : TIRO_ERROR_BAD_ARG); else i = vk_concretize(i); int k = a.few("value"); tiro_resumable_frame_set_local(rf, i, a.H(k), a.ep()); bool ok = a.bad.empty(); a.done([&] {}); for (u64 j = 0; j < 3; j++) { tiro_resumable_frame_local((tiro_resumable_frame_t) frame, j, a.out, nullptr); vk_assert(bits(a.result()) == (ok && i == j ? a.was[k] : bits(Value::null())), "exactly that local is set"); } break; }
        case 7: { int s = (int) vk_nondet("state", 32); tiro_resumable_frame_set_state(rf, s, a.ep()); bool ok = a.bad.empty(); a.done([&] { vk_assert(tiro_resumable_frame_state(rf) == s, "the state"); }); if (!ok) vk_assert(tiro_resumable_frame_state((tiro_resumable_frame_t) frame) == 0, "the state is kept"); break; }
        case 8: { auto r = a.pick_out(); tiro_resumable_frame_invoke_return(rf, r, a.ep()); a.done([&] { vk_assert(a.result().is_null(), "nothing was called yet"); }); break; }
        case 9: { vk_assert(tiro_resumable_frame_state(rf) == 0 && tiro_resumable_frame_local_count(nullptr) == 0, "the first state"); if (a.mode == 2) tiro_error_free(a.preset); break; }
        }
        if (kind == 2 && op != 2 && op != 3) tiro_resumable_frame_set_state((tiro_resumable_frame_t) frame, TIRO_RESUMABLE_STATE_END, nullptr);
    };
    auto c = start(a, kind, body); tiro_error_t e = nullptr; tiro_vm_run_ready(&a.vm, &e); vk_assert(!e && g_ran >= 1, "the function ran"); if (panic) vk_assert(panicked(a, c, text), "the coroutine panics with the message"); else vk_assert(success(a, c, want), "the coroutine returns the value, or null"); tiro_global_free(c);
}
// vk-covers: api_arity called, refused
VK_CONTRACT(api_arity, "P16", "bounded: 0 to 4 arguments", "tiro_make_coroutine, tiro_coroutine_start, tiro_vm_run_ready, tiro_make_sync_function, tiro_make_async_function, tiro_make_resumable_function", "a native function is called, with all arguments, exactly when there is one for each of its parameters, otherwise the coroutine panics") {
    Api a; int kind = (int) vk_choice("kind", 0, 2), n = (int) vk_choice("arguments", -1, 4); if (n >= 0) *a.slot[TUP] = Tuple::make(a.ctx, (size_t) n); int argc = -1; std::function<void(void*)> body = [&](void* f) { argc = (int) (kind == 0 ? tiro_sync_frame_arg_count((tiro_sync_frame_t) f) : kind == 1 ? tiro_async_frame_arg_count((tiro_async_frame_t) f) : tiro_resumable_frame_arg_count((tiro_resumable_frame_t) f)); if (kind == 2) tiro_resumable_frame_return_value((tiro_resumable_frame_t) f, a.h[ARR], nullptr); };
    auto c = start(a, kind, body, n < 0 ? -1 : TUP); tiro_error_t e = nullptr; tiro_vm_run_ready(&a.vm, &e); vk_assert(!e, "no error"); if (n >= 2) { vk_assert(argc == n, "with these arguments"); vk_assert(success(a, c, kind == 2 ? a.was[ARR] : bits(Value::null())) && g_ran >= 1, "it is called"); vk_cover("called"); } else { vk_assert(g_ran == 0 && panicked(a, c, nullptr), "it is not called"); vk_cover("refused"); } tiro_global_free(c);
}
// ------------------------------------------------------------------ calls made by resumable functions
// vk-covers: api_invoke misuse, success, panic
VK_CONTRACT(api_invoke, "P16", "bounded: one object of each of 32 kinds as function and as arguments, null handles, null and pending errors; all states", "tiro_resumable_frame_invoke, tiro_resumable_frame_invoke_return, tiro_resumable_frame_state, tiro_resumable_frame_local", "the arguments of a call are a tuple, null or NULL and nothing else; a valid call runs the function with them, then the caller again in the state asked for, with its locals, and the value returned; a panic of the function ends the caller") {
    Api a; a.errors(); int next = (int) vk_nondet("next state", 32); vk_assume(next != TIRO_RESUMABLE_STATE_END); int q = (int) vk_choice("arguments", -1, COUNT - 1), outcome = 0, called = 0; bool with = q == TUP; int k = -1; tiro_error_t e = nullptr; static int s_outcome; static Api* s_a; static int s_argc, s_called; static u64 s_arg; s_a = &a; s_called = 0; s_outcome = 0; auto callee = [](tiro_vm_t, tiro_sync_frame_t f) { s_called++; s_argc = (int) tiro_sync_frame_arg_count(f); if (s_argc) { auto g = tiro_global_new(&s_a->vm, nullptr); tiro_sync_frame_arg(f, 1, g, nullptr); s_arg = bits(*get_valid_slot(to_internal(g))); tiro_global_free(g); } if (s_outcome == 0) tiro_sync_frame_return_value(f, s_a->h[MAP], nullptr); else tiro_sync_frame_panic_msg(f, {"inner", 5}, nullptr); };
    tiro_make_sync_function(&a.vm, a.h[STR], callee, with ? 2 : 0, nullptr, a.h[NATFN], &e); vk_assert(!e, "a function"); bool done = false;
    std::function<void(void*)> body = [&](void* frame) { auto f = (tiro_resumable_frame_t) frame; int s = tiro_resumable_frame_state(f);
        if (g_ran == 1) { vk_assert(s == 0, "the first state"); tiro_resumable_frame_set_local(f, 1, a.h[SET], nullptr); a.snapshot(); auto fr = f; if (vk_choice("null frame", 0, 1)) { fr = nullptr; a.misuse(TIRO_ERROR_BAD_ARG); } k = a.in("function", NATFN, CODEFN, BOUND, MAGIC); if (q >= 0 && q != NUL && q != TUP) a.misuse(TIRO_ERROR_BAD_TYPE); tiro_resumable_frame_invoke(fr, next, a.H(k), a.H(q), a.ep()); bool ok = a.bad.empty(); a.done([&] { vk_assert(tiro_resumable_frame_state(f) == next, "the state asked for"); }); if (!ok || k != NATFN) { if (!ok) vk_assert(tiro_resumable_frame_state(f) == 0, "the state is kept"); tiro_resumable_frame_return_value(f, a.h[BUF], nullptr); return; } s_outcome = outcome = (int) vk_choice("outcome", 0, 1); done = true; }
        else if (g_ran == 2 && done) { vk_assert(outcome == 0 && s_called == 1, "after the call"); vk_assert(s == next, "in the state asked for"); tiro_error_t e = nullptr; tiro_resumable_frame_invoke_return(f, a.out, &e); vk_assert(!e && bits(a.result()) == a.was[MAP], "the value returned"); tiro_resumable_frame_local(f, 1, a.out, &e); vk_assert(!e && bits(a.result()) == a.was[SET], "its locals"); vk_assert(tiro_resumable_frame_arg_count(f) == 2, "its arguments"); tiro_resumable_frame_return_value(f, a.h[KEYS], &e); vk_assert(!e, "ok"); } };
    auto c = start(a, 2, body); tiro_vm_run_ready(&a.vm, &e); called = s_called; vk_assert(!e, "no error"); if (!done) { vk_assert(success(a, c, a.was[BUF]) && called == 0, "a refused call is not made"); } else { vk_assert(called == 1, "called once"); vk_assert(s_argc == (with ? 2 : 0), "with that many arguments"); if (with) vk_assert(s_arg == a.content[4], "with these arguments"); if (outcome == 0) vk_assert(success(a, c, a.was[KEYS]), "the caller returns"); else { vk_assert(panicked(a, c, "inner"), "the caller ends with the panic"); vk_cover("panic"); } } tiro_global_free(c);
}
// ------------------------------------------------------------------ resume tokens
// vk-covers: api_tokens misuse, success, early, stale
VK_CONTRACT(api_tokens, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors", "tiro_async_frame_token, tiro_async_frame_yield, tiro_async_token_return_value, tiro_async_token_panic_msg, tiro_async_token_free", "a yielded call is resumed once, by its token, with the value or the panic given; use of a token before the yield, or a second time, is an error that changes nothing; freed tokens do not matter") {
    Api a; int op = (int) vk_choice("operation", 0, 1); bool early = vk_choice("use before the yield", 0, 1), freed = vk_choice("freed at once", 0, 1); g_token = nullptr; tiro_error_t e = nullptr;
    std::function<void(void*)> body = [&](void* frame) { if (g_ran > 1) return; auto f = (tiro_async_frame_t) frame; tiro_error_t e = nullptr; vk_assert(!tiro_async_frame_token(nullptr, &e) && tiro_error_errc(e) == TIRO_ERROR_BAD_ARG, "no frame"); tiro_error_free(e); e = nullptr; tiro_async_frame_yield(nullptr, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_BAD_ARG, "no frame"); tiro_error_free(e); e = nullptr; g_token = tiro_async_frame_token(f, &e); vk_assert(g_token && !e, "a token"); if (early) { a.snapshot(); tiro_async_token_return_value(g_token, a.h[ARR], &e); vk_assert(e != nullptr, "too early"); tiro_error_free(e); e = nullptr; a.unchanged(); vk_cover("early"); } tiro_async_frame_yield(f, &e); vk_assert(!e, "yields"); };
    auto c = start(a, 1, body); tiro_vm_run_ready(&a.vm, &e); vk_assert(!e && g_ran == 1 && tiro_coroutine_started(&a.vm, c) && !tiro_coroutine_completed(&a.vm, c) && !tiro_vm_has_ready(&a.vm), "it waits"); tiro_vm_run_ready(&a.vm, &e); vk_assert(!e && !tiro_coroutine_completed(&a.vm, c), "and is not resumed on its own"); a.snapshot();
    a.errors(); auto t = g_token; if (vk_choice("null token", 0, 1)) { t = nullptr; a.misuse(TIRO_ERROR_BAD_ARG); } u64 want = 0;
    if (op == 0) { int k = a.any("value"); tiro_async_token_return_value(t, a.H(k), a.ep()); if (k >= 0) want = a.was[k]; } else { bool bad = vk_choice("null text", 0, 1); if (bad) a.misuse(TIRO_ERROR_BAD_ARG); tiro_async_token_panic_msg(t, bad ? tiro_string_t{nullptr, 2} : str("late"), a.ep()); }
    bool ok = a.bad.empty(); a.done([&] { vk_assert(tiro_vm_has_ready(&a.vm) && !tiro_coroutine_completed(&a.vm, c), "it is ready"); }); if (!ok) { tiro_async_token_return_value(g_token, a.h[SET], &e); vk_assert(!e, "a refused call does not use up the token"); want = a.was[SET]; op = 0; }
    if (freed) { tiro_async_token_free(g_token); tiro_async_token_free(nullptr); } else { tiro_async_token_return_value(g_token, a.h[KEYS], &e); vk_assert(e != nullptr, "a second time"); tiro_error_free(e); e = nullptr; vk_cover("stale"); }
    tiro_vm_run_ready(&a.vm, &e); vk_assert(!e && (op == 0 ? success(a, c, want) : panicked(a, c, "late")), "the call ends with the value or the panic given");
    if (!freed) { tiro_async_token_panic_msg(g_token, str("again"), &e); vk_assert(e != nullptr, "after completion"); tiro_error_free(e); e = nullptr; vk_assert(!tiro_vm_has_ready(&a.vm), "nothing is resumed"); if (vk_choice("freed at the end", 0, 1)) tiro_async_token_free(g_token); } tiro_global_free(c);
}
// ------------------------------------------------------------------ completion callbacks
namespace {
struct Reg { int called = 0, cleaned = 0, which = 0; }; Reg g_regs[6]; int g_regc; tiro_handle_t g_coros[2]; Api* g_ca;
void reg_done(tiro_vm_t vm, tiro_handle_t h, void* p) { auto r = (Reg*) p; vk_assert(r->cleaned <= 0, "the callback runs before its cleanup function"); vk_assert(g_ca && vm == &g_ca->vm && bits(*get_valid_slot(to_internal(h))) == bits(*get_valid_slot(to_internal(g_coros[r->which]))), "with its coroutine"); vk_assert(tiro_coroutine_completed(vm, h), "completed"); r->called++; }
void reg_clean(void* p) { ((Reg*) p)->cleaned++; }
}
// vk-covers: api_callbacks completed, replaced, shutdown, collected
VK_CONTRACT(api_callbacks, "P16", "bounded: all histories of 4 operations (register, start, run, resume, drop, collect) on 2 coroutines, then destruction of the vm", "tiro_coroutine_set_callback, Context::set_callback, Context::execute_callbacks, Context::run_ready, tiro_vm_free, Heap::~Heap (finalizers)", "the callback registered last runs exactly once, in run_ready, if the coroutine completes; every cleanup function runs exactly once, after its callback, at the latest when the vm is destroyed") {
    for (auto& r : g_regs) r = Reg(); g_regc = 0; int last[2] = {-1, -1}; bool started[2] = {}, completed[2] = {}, dropped[2] = {}; int waiting = 1;
    { Api a; g_ca = &a; tiro_error_t e = nullptr; static Api* s_a; static tiro_async_token_t s_token; s_a = &a; s_token = nullptr; auto f = tiro_global_new(&a.vm, &e);
        tiro_make_sync_function(&a.vm, a.h[STR], [](tiro_vm_t, tiro_sync_frame_t) {}, 0, nullptr, f, &e); g_coros[0] = tiro_global_new(&a.vm, &e); tiro_make_coroutine(&a.vm, f, nullptr, g_coros[0], &e);
        tiro_make_async_function(&a.vm, a.h[STR], [](tiro_vm_t, tiro_async_frame_t f) { s_token = tiro_async_frame_token(f, nullptr); tiro_async_frame_yield(f, nullptr); }, 0, nullptr, f, &e); g_coros[1] = tiro_global_new(&a.vm, &e); tiro_make_coroutine(&a.vm, f, nullptr, g_coros[1], &e); vk_assert(!e, "coroutines"); bool ready[2] = {}, resumed = false;
        for (int step = 0; step < 4; step++) { int op = (int) vk_choice("operation", 0, 5), i = op == 0 || op == 1 || op == 4 ? (int) vk_choice("coroutine", 0, 1) : 0; if (dropped[i] && op != 2 && op != 3 && op != 5) continue;
            switch (op) {
            case 0: { auto r = &g_regs[g_regc]; r->which = i; if (last[i] >= 0) vk_cover("replaced"); tiro_coroutine_set_callback(&a.vm, g_coros[i], reg_done, vk_choice("cleanup", 0, 1) ? reg_clean : (r->cleaned = -1, nullptr), r, &e); vk_assert(!e, "registered"); last[i] = g_regc++; break; }
            case 1: { tiro_coroutine_start(&a.vm, g_coros[i], &e); vk_assert(!!e == started[i], "starts once"); tiro_error_free(e); e = nullptr; if (!started[i]) { started[i] = ready[i] = true; } break; }
            case 2: { int before[6]; for (int j = 0; j < 6; j++) before[j] = g_regs[j].called; tiro_vm_run_ready(&a.vm, &e); vk_assert(!e, "ran"); bool now[2] = {ready[0], ready[1] && resumed}; ready[0] = false; if (ready[1]) { if (resumed) waiting = 0; ready[1] = false; } for (int j = 0; j < 2; j++) if (now[j] && !completed[j]) { completed[j] = true; vk_cover("completed"); } for (int j = 0; j < g_regc; j++) { bool mine = now[g_regs[j].which] && last[g_regs[j].which] == j; vk_assert(g_regs[j].called == before[j] + mine, "exactly the callback registered last of a coroutine that completes is run"); if (mine && g_regs[j].cleaned >= 0) vk_assert(g_regs[j].cleaned == 1, "its cleanup function is run directly after it"); } break; }
            case 3: { if (started[1] && s_token && !resumed) { tiro_async_token_return_value(s_token, a.h[ARR], &e); vk_assert(!e, "resumed"); resumed = ready[1] = true; } break; }
            case 4: { tiro_global_free(g_coros[i]); dropped[i] = true; g_coros[i] = tiro_global_new(&a.vm, &e); auto keep = g_coros[i]; (void) keep; if (started[i] && !completed[i]) { step = 4; } break; }
            case 5: { a.ctx.heap().collector().collect(GcReason::Forced); for (int j = 0; j < 2; j++) if (dropped[j] && last[j] >= 0 && g_regs[last[j]].cleaned > 0) vk_cover("collected"); break; }
            }
            for (int j = 0; j < g_regc; j++) { vk_assert(g_regs[j].cleaned <= 1 && g_regs[j].called <= 1, "at most once"); if (last[g_regs[j].which] == j && !completed[g_regs[j].which] && !dropped[g_regs[j].which]) vk_assert(g_regs[j].cleaned <= 0, "not cleaned up while it may still run"); }
        }
        g_ca = nullptr;
    }
    (void) waiting; for (int j = 0; j < g_regc; j++) { if (g_regs[j].cleaned >= 0) { vk_assert(g_regs[j].cleaned == 1, "every cleanup function is run exactly once"); if (!g_regs[j].called) vk_cover("shutdown"); } vk_assert(g_regs[j].called <= 1, "no callback runs twice"); }
}
