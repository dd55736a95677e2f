// Whole programs: the source is compiled by the real compiler, loaded by the real loader and executed by the real interpreter.
#pragma once
#include "vm_harness.hpp"
#include "compiler/compiler.hpp"
#include "bytecode/module.hpp"
#include "vm/modules/load.hpp"
#include "vm/modules/registry.hpp"
#include "vm/builtins/modules.hpp"
#include "vm/interpreter.hpp"
#include <vector>
#include <string>
#include <initializer_list>
using namespace vk;
namespace {
std::string vk_stub_format(fmt::string_view, fmt::format_args) { return "x"; }
size_t vk_stub_text_hash(const void*) { return 0; }
#define VK_PROG_REPLACEMENTS VK_VM_REPLACEMENTS, { "~_ZN3fmt2v97vformatB~", (void*) vk_stub_format }, { "~_ZN4absl7debian313hash_internal15MixingHashState4hashISt17basic_string_view~", (void*) vk_stub_text_hash }
struct SmallHeap : ContextSettings { SmallHeap() { page_size_bytes = 1 << 16; } };
inline std::unique_ptr<BytecodeModule> compile(const char* name, const std::string& src) { Compiler c(name); c.add_file("f", src); auto r = c.run(); if (!r.success || !r.module) for (auto& m : c.diag().messages()) vk_print(m.text.c_str(), m.range.range().begin()); return r.success ? std::move(r.module) : nullptr; }
struct Prog {
    Context ctx{SmallHeap()}; vm::Scope sc{ctx}; Local<vm::Value> result = sc.local(); bool panicked = false;
    void add(const BytecodeModule& m) { vm::Scope in(ctx); Local x = in.local(load_module(ctx, m)); vk_assert(ctx.modules().add_module(ctx, x), "the module is new"); }
    void add(const char* src, const char* name = "m") { auto m = compile(name, src); vk_assert(m != nullptr, "the program compiles"); add(*m); }
    void add_std() { vm::Scope in(ctx); Local x = in.local(create_std_module(ctx)); vk_assert(ctx.modules().add_module(ctx, x), "the module is new"); }
    Value find(const char* fn, const char* name = "m") { vm::Scope in(ctx); Local n = in.local(vm::String::make(ctx, name)); auto f = ctx.modules().get_module(ctx, n); vk_assert(f.has_value(), "the module is found"); Local m = in.local(*f); Local s = in.local(ctx.get_symbol(fn)); auto e = m->find_exported(*s); vk_assert(e.has_value(), "the function is exported"); return *e; }
    // Calls an exported function until its coroutine is done. Leaves its result in `result`; false if it panics.
    bool call(const char* fn, std::initializer_list<vm::Value> args = {}) {
        vm::Scope in(ctx); Local f = in.local(find(fn)); Local t = in.local(vm::Tuple::make(ctx, args.size())); size_t i = 0; for (auto a : args) t->unchecked_set(i++, a);
        Local co = in.local(ctx.make_coroutine(f, args.size() ? MaybeHandle<vm::Tuple>(t) : MaybeHandle<vm::Tuple>())); ctx.start(co); ctx.run_ready();
        vk_assert(co->state() == CoroutineState::Done && co->result().has_value(), "the program ends"); auto r = co->result().value(); panicked = r.is_error(); result.set(panicked ? r.unchecked_error() : r.unchecked_value()); return !panicked;
    }
    bool is_int(i64 v) { return !panicked && result->is<vm::Integer>() && result.must_cast<vm::Integer>()->value() == v; }
    bool is_true() { return !panicked && result->is<vm::Boolean>() && result.must_cast<vm::Boolean>()->value(); }
    bool is_text(std::string_view v) { return !panicked && result->is<vm::String>() && result.must_cast<vm::String>()->view() == v; }
};
struct Src : Prog {
    u64 n = 0; i64 v[8] = {};
    // An integer argument: any value of a range around zero.
    Value arg(int i, i64 range = 1000) { const char* names[] = {"a", "b", "c", "d", "e", "f", "g", "h"}; v[i] = (i64) vk_range(names[i], 0, 2 * (u64) range) - range; return SmallInteger::make(v[i]); }
    void is(i64 x) { if (panicked) vk_print("panicked", n); vk_assert(!panicked, "no exception is raised"); vk_assert(result->is<vm::Integer>(), "an integer"); vk_assert(result.must_cast<vm::Integer>()->value() == x, "the value the source prescribes"); }
    void is(std::initializer_list<i64> x) { if (panicked) vk_print("panicked", n); vk_assert(!panicked && result->is<vm::Tuple>() && result.must_cast<vm::Tuple>()->size() == x.size(), "a tuple"); size_t i = 0; bool all = true; for (i64 y : x) { auto e = result.must_cast<vm::Tuple>()->checked_get(i++); vk_assert(e.is<vm::Integer>(), "an integer"); all = vk_and(all, e.must_cast<vm::Integer>().value() == y); } vk_assert(all, "the values the source prescribes"); }
    void text(std::string_view x) { vk_assert(is_text(x), "the text the source prescribes"); }
    void yes() { vk_assert(is_true(), "what the source prescribes"); }
    void raises() { vk_assert(panicked, "an exception is raised"); }
    Value part(size_t i) { vk_assert(!panicked && result->is<vm::Tuple>() && i < result.must_cast<vm::Tuple>()->size(), "a tuple"); return result.must_cast<vm::Tuple>()->checked_get(i); }
    Value pick(int i) { return vk_choice("flag", 0, 1) ? (v[i] = 1, ctx.get_boolean(true)) : (v[i] = 0, ctx.get_boolean(false)); }
};
}
