// Contracts of the C API: the handle of the result may also be one of the arguments.
// vk-link: core api
// vk-native: contracts
#include "api_harness.hpp"
// vk-covers: api_aliasing success, refused
VK_CONTRACT(api_aliasing, "P16", "bounded: one object of each of 32 kinds for each argument; fixed second arguments", "tiro_value_type, tiro_value_to_string, tiro_value_copy, tiro_tuple_get, tiro_array_get, tiro_make_record_schema, tiro_make_record, tiro_record_keys, tiro_record_get, tiro_make_success, tiro_make_error, tiro_result_value, tiro_result_error, tiro_exception_message, tiro_exception_trace, tiro_make_coroutine, tiro_coroutine_result, tiro_module_get_export, tiro_type_name", "if the handle of the result is also an argument, the outcome is the same as with a separate handle, and no other handle changes") {
    Api a; int f = (int) vk_choice("function", 0, 18), k = (int) vk_choice("argument", 0, COUNT - 1), other = -1; auto v = &a.vm; auto H = [&](int i) { return a.h[i]; };
    if (f == 8) other = STR; if (f == 15) other = TUP;
    const bool second = other >= 0 && vk_choice("result is the second argument", 0, 1);
    auto call = [&](tiro_handle_t r) {
        tiro_error_t e = nullptr;
        switch (f) {
        case 0: tiro_value_type(v, H(k), r, &e); break; case 1: tiro_value_to_string(v, H(k), r, &e); break; case 2: tiro_value_copy(v, H(k), r, &e); break; case 3: tiro_tuple_get(v, H(k), 1, r, &e); break; case 4: tiro_array_get(v, H(k), 0, r, &e); break; case 5: tiro_array_get(v, H(k), 1, r, &e); break;
        case 6: tiro_make_record_schema(v, H(k), r, &e); break; case 7: tiro_make_record(v, H(k), r, &e); break; case 8: tiro_record_get(v, H(k), H(other), r, &e); break; case 9: tiro_record_keys(v, H(k), r, &e); break; case 10: tiro_make_success(v, H(k), r, &e); break; case 11: tiro_make_error(v, H(k), r, &e); break;
        case 12: tiro_result_value(v, H(k), r, &e); break; case 13: tiro_result_error(v, H(k), r, &e); break; case 14: tiro_exception_message(v, H(k), r, &e); break; case 15: tiro_make_coroutine(v, H(k), H(other), r, &e); break; case 16: tiro_coroutine_result(v, H(k), r, &e); break; case 17: tiro_type_name(v, H(k), r, &e); break; case 18: tiro_module_get_export(v, H(k), {"nm", 2}, r, &e); break;
        }
        auto c = tiro_error_errc(e); tiro_error_free(e); return c;
    };
    a.snapshot(); auto c1 = call(a.out); Value want = a.result(); Local keep = a.sc.local(want); *a.slot[COUNT] = SmallInteger::make(-77); a.unchanged(false);
    const int to = second ? other : k; auto c2 = call(a.h[to]); Value got = *a.slot[to]; vk_assert(c1 == c2, "the same error, or none"); *a.slot[to] = Value::null(); a.was[to] = bits(Value::null()); if (c2 != TIRO_OK) { vk_cover("refused"); } else vk_cover("success");
    for (int i = 0; i < COUNT; i++) vk_assert(bits(*a.slot[i]) == a.was[i], "the other handles stay as they were");
    if (c2 != TIRO_OK) return; if (bits(got) == bits(want)) return; vk_assert(got.type() == want.type(), "a result of the same type");
    if (got.is<vm::String>()) vk_assert(got.must_cast<vm::String>().view() == want.must_cast<vm::String>().view(), "the same text");
    if (got.is<Array>()) { auto x = got.must_cast<Array>(), y = want.must_cast<Array>(); vk_assert(x.size() == y.size(), "the same size"); for (size_t i = 0; i < x.size(); i++) vk_assert(bits(x.checked_get(i)) == bits(y.checked_get(i)), "the same elements"); }
    if (got.is<Result>()) { auto x = got.must_cast<Result>(), y = want.must_cast<Result>(); vk_assert(x.is_success() == y.is_success() && bits(x.is_success() ? x.unchecked_value() : x.unchecked_error()) == bits(y.is_success() ? y.unchecked_value() : y.unchecked_error()), "the same result"); }
    if (got.is<Coroutine>()) vk_assert(bits(got.must_cast<Coroutine>().function()) == bits(want.must_cast<Coroutine>().function()), "the same function");
}
