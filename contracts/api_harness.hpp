// Shared by the contracts of the C API: one object of every kind, choice of arguments, judgement of calls.
#pragma once
#include "vm_harness.hpp"
#include "api/internal.hpp"
#include "tiro/functions.h"
#include "bytecode/module.hpp"
#include "vm/modules/registry.hpp"
#include "vm/interpreter.hpp"
#include <vector>
#include <string>
using namespace vk;
using namespace tiro::api;
namespace {
// Contract of the text formatting functions: any text.
std::string vk_stub_format(fmt::string_view, fmt::format_args) { return "x"; }
void vk_stub_stream(StringFormatStream* s, std::string_view, fmt::format_args) { s->buffer_ += "x"; }
void vk_stub_builder_vformat(StringBuilder* b, Context& ctx, std::string_view, fmt::format_args) { b->append(ctx, "x"); }
// Contract of allocation: the n-th one fails, with an error or with the exception of the C++ runtime.
long g_countdown = -1; int g_failure = 0; bool g_hit = false;
std::tuple<void*, ChunkType> vk_stub_allocate(Heap* h, size_t n) { if (g_countdown >= 0 && g_countdown-- == 0) { g_hit = true; if (g_failure == 0) throw Error(TIRO_ERROR_ALLOC, ""); throw std::bad_alloc(); } return h->allocate(n); }
}
extern "C" vk_replacement vk_replacements_api[];
vk_replacement vk_replacements_api[] = { VK_VM_REPLACEMENTS, { "~_ZN3fmt2v97vformatB~", (void*) vk_stub_format }, { "tiro::StringFormatStream::do_vformat(", (void*) vk_stub_stream }, { "tiro::vm::StringBuilder::vformat(", (void*) vk_stub_builder_vformat },
    { "tiro::vm::Heap::allocate(", (void*) vk_stub_allocate }, { "~_ZN4absl7debian313hash_internal15MixingHashState4hashISt17basic_string_view~", (void*) +[](const void*) -> size_t { return 0; } } };
namespace {
// One object of every kind; internal kinds last.
enum K { NUL, BOOL, SMALL, HEAPINT, FLT, STR, BUF, TUP, REC, SCHEMA, CODEFN, BOUND, MAGIC, NATFN, ARR, KEYS, OKRES, ERRRES, EXC, CORO, DONE, MOD, TYPE, NATOBJ, SYM, SET, MAP, SLICE, BUILDER, METHOD, ENV, ITER, COUNT };
const tiro_kind_t kind_of[] = {TIRO_KIND_NULL, TIRO_KIND_BOOLEAN, TIRO_KIND_INTEGER, TIRO_KIND_INTEGER, TIRO_KIND_FLOAT, TIRO_KIND_STRING, TIRO_KIND_BUFFER, TIRO_KIND_TUPLE, TIRO_KIND_RECORD, TIRO_KIND_RECORD_SCHEMA, TIRO_KIND_FUNCTION, TIRO_KIND_FUNCTION, TIRO_KIND_FUNCTION, TIRO_KIND_FUNCTION, TIRO_KIND_ARRAY, TIRO_KIND_ARRAY, TIRO_KIND_RESULT, TIRO_KIND_RESULT, TIRO_KIND_EXCEPTION, TIRO_KIND_COROUTINE, TIRO_KIND_COROUTINE, TIRO_KIND_MODULE, TIRO_KIND_TYPE, TIRO_KIND_NATIVE, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL, TIRO_KIND_INTERNAL};
tiro_native_type_t g_type{{"t", 1}, 8, nullptr};
int g_called, g_cleaned; void on_done(tiro_vm_t, tiro_handle_t, void*) { g_called++; } void on_cleanup(void* p) { vk_assert(p == &g_cleaned, "its user data"); g_cleaned++; }
u64 bits(Value v) { u64 r; memcpy(&r, (void*) &v, 8); return r; }
struct Small : ContextSettings { Small() { page_size_bytes = 1 << 16; } };
struct Api {
    tiro_vm vm; Context& ctx; vm::Scope sc; tiro_handle_t h[COUNT], out; Value* slot[COUNT + 1]; u64 was[COUNT + 1], content[9];
    tiro_error_t err = nullptr, preset = nullptr; int mode = 0; std::vector<tiro_errc_t> bad; bool neutral = false; tiro_vm_t v; tiro_handle_t r = nullptr;
    Api() : vm(&g_type, Small()), ctx(vm.ctx), sc(ctx) {
        g_countdown = -1; g_hit = false; g_called = g_cleaned = 0;
        Local name = sc.local(String::make(ctx, "nm")); Local one = sc.local(ctx.get_integer(41)); Local name2 = sc.local(String::make(ctx, "b")); Local tup = sc.local(Tuple::make(ctx, {name, one})); Local arr = sc.local(Array::make(ctx)); arr->append(ctx, one).must("x"); arr->append(ctx, tup).must("x"); Local keys = sc.local(Array::make(ctx)); keys->append(ctx, name).must("x"); keys->append(ctx, name2).must("x");
        Local sym = sc.local(ctx.get_symbol(name)); Local syms = sc.local(Array::make(ctx)); syms->append(ctx, sym).must("x"); Local schema = sc.local(vm::RecordSchema::make(ctx, syms)); Local rec = sc.local(vm::Record::make(ctx, schema)); rec->set(*sym, *one); Local tbl = sc.local(HashTable::make(ctx)); Local idx = sc.local(ctx.get_integer(1)); tbl->set(ctx, sym, idx).must("x"); Local mod = sc.local(vm::Module::make(ctx, name, tup, tbl)); mod->initialized(true);
        byte code[8] = {}; Local tmpl = sc.local(CodeFunctionTemplate::make(ctx, name, mod, 0, 0, {}, Span<const byte>(code, 8))); Local env = sc.local(vm::Environment::make(ctx, 1, {})); Local fn = sc.local(CodeFunction::make(ctx, tmpl, {})); Local nat = sc.local(NativeFunction::resumable([](ResumableFrameContext& f) { f.return_value(Value::null()); }, 1).name(name).make(ctx));
        Local msg = sc.local(String::make(ctx, "m")); Local exc = sc.local(Exception::make(ctx, msg)); Local exc2 = sc.local(Exception::make(ctx, name)); Local ok = sc.local(Result::make_success(ctx, arr)); Local er = sc.local(Result::make_error(ctx, exc2)); Local coro = sc.local(ctx.make_coroutine(nat, {})); Local done = sc.local(ctx.make_coroutine(nat, {})); done->state(CoroutineState::Done); done->result(*ok); Local set = sc.local(Set::make(ctx)); Local b = sc.local(StringBuilder::make(ctx));
        auto put = [&](int k, Value x) { Local l = sc.local(x); slot[k] = get_valid_slot(l); h[k] = reinterpret_cast<tiro_handle_t>(slot[k]); };
        put(NUL, Value::null()); put(BOOL, ctx.get_boolean(true)); put(SMALL, *one); put(HEAPINT, HeapInteger::make(ctx, (i64) 1 << 62)); put(FLT, Float::make(ctx, 2.75)); put(STR, *name); put(BUF, Buffer::make(ctx, 5, 7)); put(TUP, *tup); put(REC, *rec); put(SCHEMA, *schema); put(CODEFN, *fn); put(BOUND, BoundMethod::make(ctx, nat, arr)); put(MAGIC, MagicFunction::make(ctx, MagicFunction::Catch)); put(NATFN, *nat); put(ARR, *arr); put(KEYS, *keys); put(OKRES, *ok); put(ERRRES, *er); put(EXC, *exc); put(CORO, *coro); put(DONE, *done); put(MOD, *mod); put(TYPE, ctx.types().type_of(PublicType::Array)); put(NATOBJ, NativeObject::make(ctx, &g_type, 24));
        put(SYM, *sym); put(SET, *set); put(MAP, *tbl); put(SLICE, name->slice(ctx, 0, 1)); put(BUILDER, *b); put(METHOD, Method::make(ctx, nat)); put(ENV, *env); put(ITER, ArrayIterator::make(ctx, arr)); put(COUNT, SmallInteger::make(-77)); out = reinterpret_cast<tiro_handle_t>(slot[COUNT]); v = &vm; snapshot();
    }
    template<typename T> T get(int k) { return slot[k]->must_cast<T>(); }
    Value result() { return *slot[COUNT]; }
    // the observable state of all objects
    void state(u64* c) { auto a = get<Array>(ARR); auto t = get<Tuple>(TUP); auto q = get<Array>(KEYS); c[0] = a.size(); c[1] = a.size() > 0 ? bits(a.checked_get(0)) : 0; c[2] = a.size() > 1 ? bits(a.checked_get(1)) : 0; c[3] = bits(t.checked_get(0)); c[4] = bits(t.checked_get(1)); auto x = get<vm::Record>(REC).get(get<vm::Symbol>(SYM)); c[5] = x ? bits(*x) : 0; c[6] = (u64) get<Coroutine>(CORO).state() + 256 * (u64) get<Coroutine>(DONE).state() + 65536 * ctx.has_ready(); c[7] = q.size(); auto cb = get<Coroutine>(CORO).native_callback(); c[8] = cb ? bits(cb.value()) : 0; }
    void snapshot() { for (int i = 0; i <= COUNT; i++) was[i] = bits(*slot[i]); state(content); }
    void unchanged(bool objects = true) { for (int i = 0; i <= COUNT; i++) vk_assert(bits(*slot[i]) == was[i], "no handle changes"); u64 c[9]; state(c); if (objects) for (int i = 0; i < 9; i++) vk_assert(c[i] == content[i], "no object changes"); }
    // ---- choosing arguments
    void misuse(tiro_errc_t c) { bad.push_back(c); neutral = true; }
    void errors() { mode = (int) vk_choice("error argument", 0, 2); if (mode == 2) { report_error(&preset, {}, TIRO_ERROR_BAD_KEY); err = preset; } }
    tiro_error_t* ep() { return mode == 1 ? nullptr : &err; }
    tiro_vm_t pick_vm() { if (vk_choice("vm", 0, 1) == 0) { misuse(TIRO_ERROR_BAD_ARG); return nullptr; } return &vm; }
    int in(const char* n, int a, int b = -1, int c = -1, int d = -1) { int k = (int) vk_choice(n, 0, COUNT); if (k == COUNT) { misuse(TIRO_ERROR_BAD_ARG); return -1; } if (k != a && k != b && k != c && k != d) misuse(TIRO_ERROR_BAD_TYPE); return k; }
    int any(const char* n) { int k = (int) vk_choice(n, 0, COUNT); if (k == COUNT) { misuse(TIRO_ERROR_BAD_ARG); return -1; } return k; }
    int few(const char* n) { static const int ks[] = {-1, NUL, STR, ARR}; int k = ks[vk_choice(n, 0, 3)]; if (k < 0) misuse(TIRO_ERROR_BAD_ARG); return k; }
    tiro_handle_t H(int k) { return k < 0 ? nullptr : h[k]; }
    tiro_handle_t pick_out() { if (vk_choice("result handle", 0, 1) == 0) { misuse(TIRO_ERROR_BAD_ARG); return nullptr; } return out; }
    // ---- judging: every misuse is reported with a code that describes it, and nothing changes
    template<typename F> void done(F&& post) {
        if (mode == 0) { if (bad.empty()) vk_assert(err == nullptr, "a valid call succeeds"); else { vk_assert(err != nullptr, "a misuse is reported"); tiro_errc_t c = tiro_error_errc(err); bool ok = false; for (auto b : bad) ok |= b == c; vk_assert(ok, "with the error it is"); vk_assert(tiro_error_details(err) && tiro_error_message(err) && tiro_error_name(err), "error texts"); tiro_error_free(err); vk_cover("misuse"); } }
        if (mode == 2) { vk_assert(err == preset && tiro_error_errc(err) == TIRO_ERROR_BAD_KEY, "an earlier error is kept"); tiro_error_free(preset); }
        if (bad.empty()) { post(); vk_cover("success"); } else unchanged();
    }
};
}
