// Contracts of error-reporting functions, substituted at their call sites during verification
// (the callee's contract instead of its body).  Each states only what callers rely on.
#pragma once
#include "vk.h"
#include "common/error.hpp"
#include "common/assert.hpp"
#include <string_view>
#include "fmt/format.h"

namespace vk_stubs {
// contract of tiro::detail::throw_error_impl: never returns, always throws tiro::Error.
[[noreturn]] inline void vk_stub_throw_error(const tiro::SourceLocation&, tiro_errc_t code, const char*, fmt::format_args) {
    throw tiro::Error(code, "");
}
// contract of the assertion failure functions: reaching them is a failed obligation.
[[noreturn]] inline void vk_stub_assert_fail(const tiro::SourceLocation&, const char*, const char*) { vk_fail("implementation assertion (TIRO_CHECK / TIRO_DEBUG_ASSERT)"); }
[[noreturn]] inline void vk_stub_unreachable(const tiro::SourceLocation&, const char*) { vk_fail("TIRO_UNREACHABLE / TIRO_NOT_IMPLEMENTED reached"); }
}
#define VK_BASE_REPLACEMENTS \
    { "tiro::detail::throw_error_impl(", (void*) vk_stubs::vk_stub_throw_error }, \
    { "tiro::detail::assert_fail(", (void*) vk_stubs::vk_stub_assert_fail }, \
    { "tiro::detail::unreachable(", (void*) vk_stubs::vk_stub_unreachable }
