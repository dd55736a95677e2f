// Common part of the contracts over vm objects: a real Context, symbolic values, exact oracles.
#pragma once
#include "vk.h"
#include "stubs.hpp"
#include "vm/context.hpp"
#include "vm/math.hpp"
#include "vm/hash.hpp"
#include "vm/objects/all.hpp"
#include "vm/handles/scope.hpp"
#include "vm/heap/heap.hpp"
#include <new>

namespace vk {
using namespace tiro;
using namespace tiro::vm;

// Contract of vformat_exception_impl: allocates and returns an Exception (the text is not modelled).
inline Exception vk_stub_vformat_exception(Context& ctx, std::string_view, fmt::format_args) {
    Scope sc(ctx);
    Local m = sc.local(String::make(ctx, "x"));
    return Exception::make(ctx, m);
}
inline String vk_stub_string_vformat(Context& ctx, std::string_view, fmt::format_args) { return String::make(ctx, "x"); }
#define VK_VM_REPLACEMENTS VK_BASE_REPLACEMENTS, \
    { "tiro::vm::vformat_exception_impl(", (void*) vk::vk_stub_vformat_exception }, \
    { "tiro::vm::String::vformat(", (void*) vk::vk_stub_string_vformat }

struct World {
    Context ctx;
    Scope sc;
    World() : ctx(), sc(ctx) {}
    // every representation an integer value can have
    Value integer(i64 v) { return ctx.get_integer(v); }
    Value heap_integer(i64 v) { return HeapInteger::make(ctx, v); }
    Value flt(f64 v) { return Float::make(ctx, v); }
};

inline bool fits64(__int128 v) { return v >= (__int128) INT64_MIN && v <= (__int128) INT64_MAX; }
}
