// Contracts of the C API: objects and the virtual machine (objects.cpp, vm.cpp, error.cpp, internal.hpp).
// vk-link: core api
// vk-native: contracts
#include "api_harness.hpp"
// ------------------------------------------------------------------ the boundary
// vk-covers: api_boundary error, alloc, internal, value
VK_CONTRACT(api_boundary, "P16", "proof", "entry_point (both), report_caught_exception, report_error, report_static_error, tiro_error_errc, tiro_error_name, tiro_error_message, tiro_error_details, tiro_error_free", "whatever exception the wrapped operation throws: no exception leaves the function, the default value is returned, the error is set exactly if one was requested and none is pending, with the code of the exception (every code); otherwise the value is returned and no error is set") {
    int mode = (int) vk_choice("error argument", 0, 2), what = (int) vk_choice("exception", 0, 4), ret = (int) vk_choice("returns a value", 0, 1); i32 code = (i32) vk_nondet("code", 32); i64 value = (i64) vk_nondet("value", 64), def = (i64) vk_nondet("default", 64); tiro_error_t err = nullptr, preset = nullptr; if (mode == 2) { report_error(&preset, {}, TIRO_ERROR_BAD_KEY); err = preset; } auto ep = mode == 1 ? nullptr : &err; bool ran = false;
    auto fn = [&]() -> i64 { ran = true; if (what == 1) throw Error((tiro_errc_t) code, "e"); if (what == 2) throw std::bad_alloc(); if (what == 3) throw std::runtime_error("r"); if (what == 4) throw 7; return value; };
    i64 got = def; if (ret) got = entry_point(ep, def, fn); else entry_point(ep, [&] { fn(); }); vk_assert(ran, "the operation is run"); vk_assert(!ret || got == (what ? def : value), "the value, or the default");
    if (mode == 2) vk_assert(err == preset, "an earlier error is kept"); else if (mode == 1) vk_assert(err == nullptr, "nothing to report to"); else if (what == 0) { vk_assert(err == nullptr, "no error"); vk_cover("value"); } else { vk_assert(err != nullptr, "an error"); tiro_errc_t want = what == 1 ? (tiro_errc_t) code : what == 2 ? TIRO_ERROR_ALLOC : TIRO_ERROR_INTERNAL; vk_assert(tiro_error_errc(err) == want, "the code of the exception"); vk_assert(tiro_error_details(err) != nullptr, "details"); tiro_error_free(err); if (what == 1) vk_cover("error"); if (what == 2) vk_cover("alloc"); if (what > 2) vk_cover("internal"); }
    if (preset) { vk_assert(tiro_error_errc(preset) == TIRO_ERROR_BAD_KEY, "unchanged"); tiro_error_free(preset); } vk_assert(tiro_error_errc(nullptr) == TIRO_OK && tiro_error_details(nullptr), "no error is OK"); tiro_error_free(nullptr); vk_assert(tiro_errc_name((tiro_errc_t) code) && tiro_errc_message((tiro_errc_t) code), "every code has a name");
}
// ------------------------------------------------------------------ values
// vk-covers: api_values misuse, success
VK_CONTRACT(api_values, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors; all numbers and flags", "tiro_value_kind, tiro_value_same, tiro_value_type, tiro_value_to_string, tiro_value_copy, tiro_kind_type, tiro_make_null, tiro_make_boolean, tiro_boolean_value, tiro_make_integer, tiro_integer_value, tiro_make_float, tiro_float_value, tiro_make_string, tiro_string_value, tiro_string_cstr", "every misuse is reported with a fitting error (or a neutral value) and changes nothing; every valid call succeeds with the result its description states") {
    Api a; int f = (int) vk_choice("function", 0, 15); auto vm = a.pick_vm(); if (f != 0 && f != 1 && f != 6 && f != 8 && f != 10 && f != 12) a.errors();
    switch (f) {
    case 0: { int k = a.any("value"); auto r = tiro_value_kind(vm, a.H(k)); vk_assert(r == (a.neutral ? TIRO_KIND_INVALID : kind_of[k]), "its kind"); a.unchanged(); break; }
    case 1: { int k = a.any("value"), l = a.few("other"); vk_assert(tiro_value_same(vm, a.H(k), a.H(l)) == (k < 0 ? l < 0 : l >= 0 && a.was[k] == a.was[l]), "the same object"); a.unchanged(); break; }
    case 2: { int k = a.any("value"); auto r = a.pick_out(); tiro_value_type(vm, a.H(k), r, a.ep()); if (k >= 0 && kind_of[k] == TIRO_KIND_INTERNAL) { if (a.mode == 0) { tiro_error_free(a.err); } return; } a.done([&] { Value t = a.ctx.types().type_of(Handle<Value>(a.slot[k])); vk_assert(bits(a.result()) == bits(t), "its type"); }); break; }
    case 3: { int k = a.any("value"); auto r = a.pick_out(); tiro_value_to_string(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<String>(), "a string"); if (k == STR) vk_assert(a.result().must_cast<String>().view() == "nm", "its text"); if (k == NUL) vk_assert(a.result().must_cast<String>().view() == "null", "its text"); }); break; }
    case 4: { int k = a.any("value"); auto r = a.pick_out(); tiro_value_copy(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.was[k], "the value"); }); break; }
    case 5: { u32 kind = (u32) vk_nondet("kind", 32); bool known = kind <= TIRO_KIND_NATIVE; if (!known) a.misuse(TIRO_ERROR_BAD_ARG); else kind = (u32) vk_concretize(kind); auto r = a.pick_out(); tiro_kind_type(vm, (tiro_kind_t) kind, r, a.ep()); a.done([&] { vk_assert(a.result().is<vm::Type>(), "a type"); for (int k = 0; k < COUNT; k++) if (kind_of[k] == (tiro_kind_t) kind) vk_assert(bits(a.result()) == bits(a.ctx.types().type_of(Handle<Value>(a.slot[k]))), "the type of its values"); }); break; }
    case 6: { auto r = a.pick_out(); tiro_make_null(vm, r); if (a.neutral) a.unchanged(); else vk_assert(a.result().is_null(), "null"); break; }
    case 7: { bool b = vk_choice("flag", 0, 1); auto r = a.pick_out(); tiro_make_boolean(vm, b, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == bits(a.ctx.get_boolean(b)), "the boolean"); }); break; }
    case 8: { int k = a.any("value"); bool r = tiro_boolean_value(vm, a.H(k)); vk_assert(r == (!a.neutral && k != NUL), "everything but null and false is true"); if (vm) { *a.slot[BOOL] = a.ctx.get_boolean(false); vk_assert(!tiro_boolean_value(vm, a.h[BOOL]), "false"); } break; }
    case 9: { i64 n = (i64) vk_nondet("number", 64); auto r = a.pick_out(); tiro_make_integer(vm, n, r, a.ep()); a.done([&] { auto x = Integer::try_extract(a.result()); vk_assert(x && *x == n, "the integer"); vk_assert(tiro_integer_value(vm, a.out) == n, "and back"); }); break; }
    case 10: { int k = a.any("value"); i64 r = tiro_integer_value(vm, a.H(k)); vk_assert(r == (a.neutral ? 0 : k == SMALL ? 41 : k == HEAPINT ? (i64) 1 << 62 : k == FLT ? 2 : 0), "the number"); a.unchanged(); break; }
    case 11: { f64 n = vk_f64("number"); auto r = a.pick_out(); tiro_make_float(vm, n, r, a.ep()); a.done([&] { vk_assert(a.result().is<Float>(), "a float"); f64 x = a.result().must_cast<Float>().value(), y = tiro_float_value(vm, a.out); u64 p, q, s; memcpy(&p, &x, 8); memcpy(&q, &n, 8); memcpy(&s, &y, 8); vk_assert((p == q && s == q) || (n != n && x != x && y != y), "of that value"); }); break; }
    case 12: { int k = a.any("value"); f64 r = tiro_float_value(vm, a.H(k)); vk_assert(r == (a.neutral ? 0 : k == SMALL ? 41 : k == HEAPINT ? (f64) ((i64) 1 << 62) : k == FLT ? 2.75 : 0), "the number"); a.unchanged(); break; }
    case 13: { u64 n = vk_choice("length", 0, 4); char b[4]; vk_bytes(b, n, "text"); bool null = vk_choice("null text", 0, 1); if (null && n) a.misuse(TIRO_ERROR_BAD_ARG); auto r = a.pick_out(); tiro_make_string(vm, {null ? nullptr : b, n}, r, a.ep()); a.done([&] { vk_assert(a.result().is<String>() && a.result().must_cast<String>().size() == n, "a string"); bool eq = true; for (u64 i = 0; i < n; i++) eq = vk_and(eq, a.result().must_cast<String>().data()[i] == b[i]); vk_assert(eq, "with that text"); }); break; }
    case 14: { int k = a.in("value", STR); tiro_string_t s{"q", 77}; bool null = vk_choice("null result", 0, 1); if (null) a.misuse(TIRO_ERROR_BAD_ARG); tiro_string_value(vm, a.H(k), null ? nullptr : &s, a.ep()); bool ok = a.bad.empty(); a.done([&] { vk_assert(to_internal(s) == "nm", "its text"); }); if (!ok) vk_assert(s.length == 77 && *s.data == 'q', "the result is not written"); a.unchanged(); break; }
    case 15: { int k = a.in("value", STR); char dummy, *s = &dummy; bool null = vk_choice("null result", 0, 1); if (null) a.misuse(TIRO_ERROR_BAD_ARG); tiro_string_cstr(vm, a.H(k), null ? nullptr : &s, a.ep()); bool ok = a.bad.empty(); a.done([&] { vk_assert(s != &dummy && s[0] == 'n' && s[1] == 'm' && s[2] == 0, "its text"); free(s); }); if (!ok) vk_assert(s == &dummy, "the result is not written"); a.unchanged(); break; }
    }
}
// ------------------------------------------------------------------ containers
// vk-covers: api_containers misuse, success
VK_CONTRACT(api_containers, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors; all indices", "tiro_make_buffer, tiro_buffer_is_pinned, tiro_buffer_size, tiro_buffer_data, tiro_make_tuple, tiro_tuple_size, tiro_tuple_get, tiro_tuple_set, tiro_make_array, tiro_array_size, tiro_array_get, tiro_array_set, tiro_array_push, tiro_array_pop, tiro_array_clear", "every misuse is reported with a fitting error (or a neutral value) and changes nothing; every valid call succeeds with the result its description states") {
    Api a; int f = (int) vk_choice("function", 0, 14); auto vm = a.pick_vm(); if (!(f >= 1 && f <= 3) && f != 5 && f != 9) a.errors(); static const u64 sizes[] = {0, 1, 7, 100, 1u << 20, 1ull << 40, 1ull << 61, ~0ull >> 1, ~0ull - 7, ~0ull};
    auto size = [&](u64 limit) { u64 n = sizes[vk_choice("size", 0, 9)]; if (n > limit) a.misuse(TIRO_ERROR_ALLOC); return n; };
    switch (f) {
    case 0: { u64 n = size(1u << 20); auto r = a.pick_out(); tiro_make_buffer(vm, n, r, a.ep()); a.done([&] { vk_assert(a.result().is<Buffer>() && a.result().must_cast<Buffer>().size() == n && tiro_buffer_size(vm, a.out) == n, "a buffer of that size"); auto p = tiro_buffer_data(vm, a.out); for (u64 i = 0; i < n; i += i < 200 ? 1 : n / 7) vk_assert(p[i] == 0, "of zeros"); }); break; }
    case 1: { int k = a.in("buffer", BUF); vk_assert(tiro_buffer_is_pinned(vm, a.H(k)) == !a.neutral, "pinned"); a.unchanged(); break; }
    case 2: { int k = a.in("buffer", BUF); vk_assert(tiro_buffer_size(vm, a.H(k)) == (a.neutral ? 0 : 5), "its size"); a.unchanged(); break; }
    case 3: { int k = a.in("buffer", BUF); auto p = tiro_buffer_data(vm, a.H(k)); vk_assert(a.neutral ? p == nullptr : p == (unsigned char*) a.get<Buffer>(BUF).data() && p[4] == 7, "its bytes"); a.unchanged(); break; }
    case 4: { u64 n = size(1u << 20); auto r = a.pick_out(); tiro_make_tuple(vm, n, r, a.ep()); a.done([&] { vk_assert(a.result().is<Tuple>() && a.result().must_cast<Tuple>().size() == n && tiro_tuple_size(vm, a.out) == n, "a tuple of that size"); for (u64 i = 0; i < n; i += i < 200 ? 1 : n / 7) vk_assert(a.result().must_cast<Tuple>().checked_get(i).is_null(), "of nulls"); }); break; }
    case 5: { int k = a.in("tuple", TUP); vk_assert(tiro_tuple_size(vm, a.H(k)) == (a.neutral ? 0 : 2), "its size"); a.unchanged(); break; }
    case 6: { int k = a.in("tuple", TUP); u64 i = vk_nondet("index", 64); if (k == TUP) { if (i >= 2) a.misuse(TIRO_ERROR_OUT_OF_BOUNDS); else i = vk_concretize(i); } auto r = a.pick_out(); tiro_tuple_get(vm, a.H(k), i, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[3 + i], "the element"); }); break; }
    case 7: { int k = a.in("tuple", TUP); u64 i = vk_nondet("index", 64); if (k == TUP) { if (i >= 2) a.misuse(TIRO_ERROR_OUT_OF_BOUNDS); else i = vk_concretize(i); } int x = a.few("value"); tiro_tuple_set(vm, a.H(k), i, a.H(x), a.ep()); a.done([&] { vk_assert(bits(a.get<Tuple>(TUP).checked_get(i)) == a.was[x], "the value is stored"); vk_assert(bits(a.get<Tuple>(TUP).checked_get(1 - i)) == a.content[4 - i], "the other elements are kept"); }); break; }
    case 8: { u64 n = size(1u << 20); auto r = a.pick_out(); tiro_make_array(vm, n, r, a.ep()); a.done([&] { vk_assert(a.result().is<Array>() && a.result().must_cast<Array>().size() == 0 && a.result().must_cast<Array>().capacity() >= n, "an empty array with room"); }); break; }
    case 9: { int k = a.in("array", ARR, KEYS); vk_assert(tiro_array_size(vm, a.H(k)) == (a.neutral ? 0 : 2), "its size"); a.unchanged(); break; }
    case 10: { int k = a.in("array", ARR); if (k == KEYS) return; u64 i = vk_nondet("index", 64); if (k == ARR) { if (i >= 2) a.misuse(TIRO_ERROR_OUT_OF_BOUNDS); else i = vk_concretize(i); } auto r = a.pick_out(); tiro_array_get(vm, a.H(k), i, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[1 + i], "the element"); }); break; }
    case 11: { int k = a.in("array", ARR); if (k == KEYS) return; u64 i = vk_nondet("index", 64); if (k == ARR) { if (i >= 2) a.misuse(TIRO_ERROR_OUT_OF_BOUNDS); else i = vk_concretize(i); } int x = a.few("value"); tiro_array_set(vm, a.H(k), i, a.H(x), a.ep()); a.done([&] { vk_assert(bits(a.get<Array>(ARR).checked_get(i)) == a.was[x] && a.get<Array>(ARR).size() == 2, "the value is stored"); vk_assert(bits(a.get<Array>(ARR).checked_get(1 - i)) == a.content[2 - i], "the other elements are kept"); }); break; }
    case 12: { int k = a.in("array", ARR); if (k == KEYS) return; int x = a.few("value"); tiro_array_push(vm, a.H(k), a.H(x), a.ep()); a.done([&] { auto t = a.get<Array>(ARR); vk_assert(t.size() == 3 && bits(t.checked_get(2)) == a.was[x] && bits(t.checked_get(0)) == a.content[1] && bits(t.checked_get(1)) == a.content[2], "the value is appended"); }); break; }
    case 13: { int k = a.in("array", ARR); if (k == KEYS) return; u64 n = vk_choice("removed before", 0, 2); for (u64 i = 0; i < n; i++) a.get<Array>(ARR).remove_last(); if (n == 2 && k == ARR) a.misuse(TIRO_ERROR_OUT_OF_BOUNDS); a.snapshot(); tiro_array_pop(vm, a.H(k), a.ep()); a.done([&] { auto t = a.get<Array>(ARR); vk_assert(t.size() == 1 - n && (n || bits(t.checked_get(0)) == a.content[1]), "the last element is removed"); }); break; }
    case 14: { int k = a.in("array", ARR); if (k == KEYS) return; tiro_array_clear(vm, a.H(k), a.ep()); a.done([&] { vk_assert(a.get<Array>(ARR).size() == 0, "empty"); }); break; }
    }
}
// ------------------------------------------------------------------ records, results, exceptions, coroutines
// vk-covers: api_objects misuse, success
VK_CONTRACT(api_objects, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors", "tiro_make_record_schema, tiro_make_record, tiro_record_keys, tiro_record_get, tiro_record_set, tiro_make_success, tiro_make_error, tiro_result_is_success, tiro_result_is_error, tiro_result_value, tiro_result_error, tiro_exception_message, tiro_exception_trace, tiro_make_coroutine, tiro_coroutine_started, tiro_coroutine_completed, tiro_coroutine_result, tiro_coroutine_set_callback, tiro_coroutine_start", "every misuse is reported with a fitting error (or a neutral value) and changes nothing, except that the cleanup function of a refused callback is run, once; every valid call succeeds with the result its description states") {
    Api a; int f = (int) vk_choice("function", 0, 18); auto vm = a.pick_vm(); if (f != 7 && f != 8 && f != 14 && f != 15) a.errors(); auto sym = [&](const char* s) { return a.ctx.get_symbol(std::string_view(s)); };
    switch (f) {
    case 0: { int k = a.in("keys", KEYS, ARR); if (k == ARR) a.misuse(TIRO_ERROR_BAD_TYPE); auto r = a.pick_out(); tiro_make_record_schema(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<vm::RecordSchema>() && a.result().must_cast<vm::RecordSchema>().size() == 2, "a schema of these keys"); vk_assert(a.result().must_cast<vm::RecordSchema>().index_of(sym("b")).has_value() && a.result().must_cast<vm::RecordSchema>().index_of(sym("nm")).has_value(), "with its keys"); }); break; }
    case 1: { int k = a.in("schema", SCHEMA); auto r = a.pick_out(); tiro_make_record(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<vm::Record>() && a.result().must_cast<vm::Record>().get(a.get<vm::Symbol>(SYM)).value_or(SmallInteger::make(1)).is_null(), "a record of nulls"); }); break; }
    case 2: { int k = a.in("record", REC); auto r = a.pick_out(); tiro_record_keys(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<Array>() && a.result().must_cast<Array>().size() == 1 && a.result().must_cast<Array>().checked_get(0).is<String>() && a.result().must_cast<Array>().checked_get(0).must_cast<String>().view() == "nm", "its keys"); }); break; }
    case 3: { int k = a.in("record", REC), q = a.in("key", STR); if (k == REC && q == STR && vk_choice("unknown key", 0, 1)) { *a.slot[STR] = String::make(a.ctx, "zz"); a.snapshot(); a.misuse(TIRO_ERROR_BAD_KEY); } auto r = a.pick_out(); tiro_record_get(vm, a.H(k), a.H(q), r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[5], "its value"); }); break; }
    case 4: { int k = a.in("record", REC), q = a.in("key", STR); if (k == REC && q == STR && vk_choice("unknown key", 0, 1)) { *a.slot[STR] = String::make(a.ctx, "zz"); a.snapshot(); a.misuse(TIRO_ERROR_BAD_KEY); } int x = a.few("value"); tiro_record_set(vm, a.H(k), a.H(q), a.H(x), a.ep()); a.done([&] { vk_assert(bits(*a.get<vm::Record>(REC).get(a.get<vm::Symbol>(SYM))) == a.was[x], "the value is stored"); }); break; }
    case 5: { int k = a.any("value"); auto r = a.pick_out(); tiro_make_success(vm, a.H(k), r, a.ep()); a.done([&] { auto x = a.result().must_cast<Result>(); vk_assert(x.is_success() && bits(x.unchecked_value()) == a.was[k], "a success"); }); break; }
    case 6: { int k = a.any("value"); auto r = a.pick_out(); tiro_make_error(vm, a.H(k), r, a.ep()); a.done([&] { auto x = a.result().must_cast<Result>(); vk_assert(x.is_error() && bits(x.unchecked_error()) == a.was[k], "an error"); }); break; }
    case 7: { int k = a.any("result"); vk_assert(tiro_result_is_success(vm, a.H(k)) == (!a.neutral && k == OKRES), "success"); a.unchanged(); break; }
    case 8: { int k = a.any("result"); vk_assert(tiro_result_is_error(vm, a.H(k)) == (!a.neutral && k == ERRRES), "error"); a.unchanged(); break; }
    case 9: { int k = a.in("result", OKRES, ERRRES); if (k == ERRRES) a.misuse(TIRO_ERROR_BAD_STATE); auto r = a.pick_out(); tiro_result_value(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.was[ARR], "its value"); }); break; }
    case 10: { int k = a.in("result", OKRES, ERRRES); if (k == OKRES) a.misuse(TIRO_ERROR_BAD_STATE); auto r = a.pick_out(); tiro_result_error(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<Exception>() && a.result().must_cast<Exception>().message().view() == "nm", "its error"); }); break; }
    case 11: { int k = a.in("exception", EXC); auto r = a.pick_out(); tiro_exception_message(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<String>() && a.result().must_cast<String>().view() == "m", "its message"); }); break; }
    case 12: { int k = a.in("exception", EXC); auto r = a.pick_out(); tiro_exception_trace(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is_null(), "no stack traces by default"); }); break; }
    case 13: { int k = a.in("function", CODEFN, BOUND, MAGIC, NATFN); int q = (int) vk_choice("arguments", 0, COUNT); if (q == COUNT) q = -1; else if (q != NUL && q != TUP) a.misuse(TIRO_ERROR_BAD_TYPE); auto r = a.pick_out(); tiro_make_coroutine(vm, a.H(k), a.H(q), r, a.ep()); a.done([&] { auto c = a.result().must_cast<Coroutine>(); vk_assert(c.state() == CoroutineState::New && bits(c.function()) == a.was[k] && (q == TUP ? c.arguments().has_value() && bits(c.arguments().value()) == a.was[TUP] : !c.arguments().has_value()) && !tiro_coroutine_started(vm, a.out), "a coroutine that was not started"); }); break; }
    case 14: { int k = a.in("coroutine", CORO, DONE); vk_assert(tiro_coroutine_started(vm, a.H(k)) == (!a.neutral && k == DONE), "started"); a.unchanged(); break; }
    case 15: { int k = a.in("coroutine", CORO, DONE); vk_assert(tiro_coroutine_completed(vm, a.H(k)) == (!a.neutral && k == DONE), "completed"); a.unchanged(); break; }
    case 16: { int k = a.in("coroutine", CORO, DONE); if (k == CORO) a.misuse(TIRO_ERROR_BAD_STATE); auto r = a.pick_out(); tiro_coroutine_result(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.was[OKRES], "its result"); }); break; }
    case 17: { int k = a.in("coroutine", CORO, DONE); bool cb = vk_choice("callback", 0, 1), cl = vk_choice("cleanup", 0, 1); if (!cb) a.misuse(TIRO_ERROR_BAD_ARG); tiro_coroutine_set_callback(vm, a.H(k), cb ? on_done : nullptr, cl ? on_cleanup : nullptr, &g_cleaned, a.ep()); bool ok = a.bad.empty(); a.done([&] { vk_assert(a.get<Coroutine>(k).native_callback().has_value(), "the callback is stored"); }); vk_assert(g_called == 0 && g_cleaned == (!ok && cl), "the cleanup function of a refused callback is run, once"); break; }
    case 18: { int k = a.in("coroutine", CORO, DONE); if (k == DONE) a.misuse(TIRO_ERROR_BAD_STATE); tiro_coroutine_start(vm, a.H(k), a.ep()); a.done([&] { vk_assert(tiro_coroutine_started(vm, a.h[CORO]) && tiro_vm_has_ready(vm), "it is ready"); tiro_error_t e = nullptr; tiro_coroutine_start(vm, a.h[CORO], &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_BAD_STATE, "it can be started once"); tiro_error_free(e); }); break; }
    }
}
