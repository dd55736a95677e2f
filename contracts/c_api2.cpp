// Contracts of the C API: modules, native objects, the virtual machine, native functions, memory exhaustion.
// vk-link: core api
// vk-native: contracts
#include "api_harness.hpp"
// ------------------------------------------------------------------ modules, types, native objects, globals
// vk-covers: api_modules misuse, success
VK_CONTRACT(api_modules, "P16", "bounded: one object of each of 32 kinds, null handles, null and pending errors, listed sizes and alignments", "tiro_make_module, tiro_module_get_export, tiro_type_name, tiro_make_native, tiro_native_type_descriptor, tiro_native_data, tiro_native_size, tiro_vm_load_module, tiro_vm_get_export, tiro_vm_run_ready, tiro_vm_has_ready, tiro_global_new, tiro_global_free, tiro_global_get_vm, tiro_vm_userdata", "every misuse is reported with a fitting error (or a neutral value) and changes nothing; every valid call succeeds with the result its description states") {
    Api a; int f = (int) vk_choice("function", 0, 13); auto vm = a.pick_vm(); if (f != 4 && f != 5 && f != 6 && f != 10 && f != 13) a.errors(); auto str = [](const char* s) -> tiro_string_t { return {s, strlen(s)}; };
    auto name = [&](const char* n, const char* good) -> tiro_string_t { int k = (int) vk_choice(n, 0, 2); if (k) a.misuse(TIRO_ERROR_BAD_ARG); return k == 0 ? str(good) : k == 1 ? tiro_string_t{nullptr, 3} : tiro_string_t{"", 0}; };
    switch (f) {
    case 0: { auto nm = name("name", "mod"); u64 n = vk_choice("members", 0, 3); bool null = n == 3; if (null) { n = 2; a.misuse(TIRO_ERROR_BAD_ARG); } tiro_module_member_t m[2]; int x[2]; static const char* const names[] = {"p", "q"}; for (u64 i = 0; i < n && !null; i++) { m[i].name = name("member", names[i]); x[i] = i == 0 ? a.few("value") : ARR; m[i].value = a.H(x[i]); } auto r = a.pick_out(); tiro_make_module(vm, nm, null ? nullptr : m, n, r, a.ep());
        a.done([&] { vk_assert(a.result().is<vm::Module>(), "a module"); for (u64 i = 0; i < n; i++) { auto s = a.ctx.get_symbol(std::string_view(names[i])); auto v = a.result().must_cast<vm::Module>().find_exported(s); vk_assert(v && bits(*v) == a.was[x[i]], "that exports the values under their names"); } auto zz = a.ctx.get_symbol(std::string_view("zz")); vk_assert(!a.result().must_cast<vm::Module>().find_exported(zz), "and nothing else"); tiro_error_t e = nullptr; tiro_vm_load_module(&a.vm, a.out, &e); vk_assert(!e, "it can be loaded"); Value old = a.result(); if (n) { tiro_vm_get_export(&a.vm, str("mod"), str("p"), a.out, &e); vk_assert(!e && bits(a.result()) == a.was[x[0]], "its exports are found by module name"); } *a.slot[COUNT] = old; tiro_vm_load_module(&a.vm, a.out, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_MODULE_EXISTS, "and it cannot be loaded twice"); tiro_error_free(e); }); break; }
    case 1: { int k = a.in("module", MOD); auto nm = name("name", "nm"); bool unknown = a.bad.empty() && vk_choice("unknown name", 0, 1); if (unknown) { nm = str("nm "); a.misuse(TIRO_ERROR_EXPORT_NOT_FOUND); } auto r = a.pick_out(); tiro_module_get_export(vm, a.H(k), nm, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[4], "the exported value"); }); break; }
    case 2: { int k = a.in("type", TYPE); auto r = a.pick_out(); tiro_type_name(vm, a.H(k), r, a.ep()); a.done([&] { vk_assert(a.result().is<String>() && a.result().must_cast<String>().view() == "Array", "its name"); }); break; }
    case 3: { static const u64 sizes[] = {0, 1, 24, 1000, 1u << 17, 1ull << 40, 1ull << 62, ~0ull}, aligns[] = {0, 1, 2, 3, 4, 8, 12, 16, 1ull << 40, ~0ull}; static tiro_native_type_t ty; int t = (int) vk_choice("type descriptor", 0, 3); u64 align = aligns[vk_choice("alignment", 0, 9)], n = sizes[vk_choice("size", 0, 7)]; ty = tiro_native_type_t{{t == 2 ? nullptr : "t", 1}, align, nullptr}; if (t == 1 || t == 2 || n == 0) a.misuse(TIRO_ERROR_BAD_ARG); if (t != 1 && (align == 0 || (align & (align - 1)))) a.misuse(TIRO_ERROR_BAD_ARG); if (t != 1 && align > NativeObject::max_alignment) a.misuse(TIRO_ERROR_ALLOC); if (n > 1u << 17) a.misuse(TIRO_ERROR_ALLOC);
        auto r = a.pick_out(); tiro_make_native(vm, t == 1 ? nullptr : &ty, n, r, a.ep()); a.done([&] { vk_assert(tiro_native_size(vm, a.out) == n && tiro_native_type_descriptor(vm, a.out) == &ty, "a native object of that size and type"); auto p = (unsigned char*) tiro_native_data(vm, a.out); vk_assert(p && (u64) p % align == 0, "aligned"); for (u64 i = 0; i < n; i += i < 200 ? 1 : n / 7) p[i] = 9; p[n - 1] = 9; }); break; }
    case 4: { int k = a.in("object", NATOBJ); vk_assert(tiro_native_type_descriptor(vm, a.H(k)) == (a.neutral ? nullptr : &g_type), "its type"); a.unchanged(); break; }
    case 5: { int k = a.in("object", NATOBJ); vk_assert(tiro_native_data(vm, a.H(k)) == (a.neutral ? nullptr : a.get<NativeObject>(NATOBJ).data()), "its data"); a.unchanged(); break; }
    case 6: { int k = a.in("object", NATOBJ); vk_assert(tiro_native_size(vm, a.H(k)) == (a.neutral ? 0 : 24), "its size"); a.unchanged(); break; }
    case 7: { int k = a.in("module", MOD); bool again = a.bad.empty() && vk_choice("loaded before", 0, 1); if (again) { tiro_vm_load_module(&a.vm, a.h[MOD], nullptr); a.misuse(TIRO_ERROR_MODULE_EXISTS); } tiro_vm_load_module(vm, a.H(k), a.ep()); a.done([&] { auto m = a.ctx.modules().get_module(a.ctx, Handle<String>::from_raw_slot(a.slot[STR])); vk_assert(m && bits(*m) == a.was[MOD], "the module is found by its name"); }); break; }
    case 8: { auto nm = name("module", "nm"), ex = name("export", "nm"); tiro_vm_load_module(&a.vm, a.h[MOD], nullptr); if (a.bad.empty()) switch (vk_choice("unknown", 0, 2)) { case 1: nm = str("n"); a.misuse(TIRO_ERROR_MODULE_NOT_FOUND); break; case 2: ex = str("m"); a.misuse(TIRO_ERROR_EXPORT_NOT_FOUND); break; } auto r = a.pick_out(); tiro_vm_get_export(vm, nm, ex, r, a.ep()); a.done([&] { vk_assert(bits(a.result()) == a.content[4], "the exported value"); }); break; }
    case 9: { bool start = vk_choice("started", 0, 1); if (start) { tiro_coroutine_start(&a.vm, a.h[CORO], nullptr); a.snapshot(); } tiro_vm_run_ready(vm, a.ep()); a.done([&] { vk_assert(!a.ctx.has_ready(), "no coroutine is ready afterwards"); }); break; }
    case 10: { bool start = vk_choice("started", 0, 1); if (start) tiro_coroutine_start(&a.vm, a.h[CORO], nullptr); vk_assert(tiro_vm_has_ready(vm) == (vm && start), "whether a coroutine is ready"); break; }
    case 11: { auto g = tiro_global_new(vm, a.ep()); if (!vm) vk_assert(!g, "none"); a.done([&] { vk_assert(g && get_valid_slot(to_internal(g))->is_null() && tiro_global_get_vm(g) == &a.vm, "a null handle of this vm"); tiro_error_t e = nullptr; auto q = tiro_global_new(&a.vm, &e); vk_assert(!e && q && q != g, "another one"); tiro_value_copy(&a.vm, a.h[ARR], g, &e); vk_assert(!e && bits(*get_valid_slot(to_internal(g))) == a.was[ARR] && get_valid_slot(to_internal(q))->is_null(), "they are independent"); tiro_global_free(g); vk_assert(tiro_global_get_vm(q) == &a.vm, "the other one is kept"); auto p = tiro_global_new(&a.vm, &e); vk_assert(p && p != q && get_valid_slot(to_internal(p))->is_null(), "a new one is null"); tiro_global_free(p); tiro_global_free(q); }); tiro_global_free(nullptr); vk_assert(!tiro_global_get_vm(nullptr), "none"); break; }
    case 12: { int k = (int) vk_choice("module", 0, 2); tiro_module m(nullptr); tiro_vm_load_bytecode(vm, k == 0 ? nullptr : &m, a.ep()); a.misuse(TIRO_ERROR_BAD_ARG); a.done([&] {}); break; }
    case 13: { a.vm.external_userdata = &a; vk_assert(tiro_vm_userdata(vm) == (vm ? &a : nullptr), "the user data"); vk_assert(tiro_vm_page_size(vm) == (vm ? 1 << 16 : 0), "the page size"); vk_assert(tiro_vm_max_heap_size(vm) == (vm ? a.ctx.heap().max_size() : 0), "the heap limit"); break; }
    }
}
// ------------------------------------------------------------------ creation and destruction of a virtual machine
namespace { std::string g_printed; void* g_print_data; void on_print(tiro_string_t s, void* p) { g_printed += std::string(s.data, s.length); g_print_data = p; } }
// vk-covers: api_vm bad, good, limit
VK_CONTRACT(api_vm, "P16", "bounded: listed page sizes and heap limits", "tiro_vm_new, tiro_vm_free, tiro_vm_settings_init, tiro_vm_page_size, tiro_vm_max_heap_size, tiro_vm_userdata, tiro_vm_load_std, tiro_vm_load_bytecode, tiro_vm_get_export", "a vm is created exactly for a valid page size, with the settings given, otherwise the call reports BAD_ARG (or ALLOC) and returns NULL; modules can be loaded once; printing goes to the callback") {
    g_countdown = -1; g_hit = false; static const u64 pages[] = {0, 1 << 16, 1 << 17, 1 << 24, 1, 65535, 65537, (1 << 16) + 4096, (1 << 24) + 1, 1 << 25, 1ull << 63, ~0ull}, limits[] = {0, 1, 1 << 20, ~0ull}; int p = (int) vk_choice("page size", -1, 11), l = 0, mode = (int) vk_choice("error argument", 0, 1); if (p == 1) l = (int) vk_choice("limit", 0, 3);
    tiro_vm_settings_t s; memset(&s, 7, sizeof s); tiro_vm_settings_init(&s); tiro_vm_settings_init(nullptr); vk_assert(!s.page_size && !s.max_heap_size && !s.userdata && !s.print_stdout && !s.enable_panic_stack_trace, "defaults"); int data = 0; s.userdata = &data; s.print_stdout = on_print; if (p >= 0) { s.page_size = pages[p]; s.max_heap_size = limits[l]; }
    tiro_error_t e = nullptr; auto vm = tiro_vm_new(p < 0 ? nullptr : &s, mode ? nullptr : &e); if (p >= 4) { vk_assert(!vm, "no vm"); if (!mode) vk_assert(tiro_error_errc(e) == TIRO_ERROR_BAD_ARG, "the page size is refused"); tiro_error_free(e); vk_cover("bad"); return; }
    if (l == 1) { if (!vm) { vk_assert(mode || tiro_error_errc(e) == TIRO_ERROR_ALLOC, "the limit is too small"); tiro_error_free(e); vk_cover("limit"); return; } }
    vk_assert(vm && !e, "a vm"); vk_cover("good"); if (l == 1) { tiro_vm_free(vm); return; } vk_assert(tiro_vm_userdata(vm) == (p < 0 ? nullptr : &data), "its user data"); if (p > 0) vk_assert(tiro_vm_page_size(vm) == pages[p], "its page size"); else vk_assert(tiro_vm_page_size(vm) >= 1 << 16, "a default page size"); if (l) vk_assert(tiro_vm_max_heap_size(vm) == limits[l], "its limit"); else vk_assert(tiro_vm_max_heap_size(vm) > 0, "a default limit");
    tiro_vm_free(vm); tiro_vm_free(nullptr);
}
// vk-covers: api_loading std, bytecode
VK_CONTRACT(api_loading, "P16", "bounded: the standard library and a small module", "tiro_vm_load_std, tiro_vm_load_bytecode, tiro_module_free, tiro_vm_get_export, std.print", "the standard library and modules are found by name once loaded; loading again is refused; printing goes to the callback") {
    g_countdown = -1; g_hit = false; tiro_vm_settings_t s; tiro_vm_settings_init(&s); int data = 0; s.userdata = &data; s.print_stdout = on_print; s.page_size = 1 << 16; tiro_error_t e = nullptr; auto vm = tiro_vm_new(&s, &e); vk_assert(vm && !e, "a vm"); auto g = tiro_global_new(vm, &e); auto str = [](const char* s) -> tiro_string_t { return {s, strlen(s)}; };
    if (vk_choice("which", 0, 1) == 0) {
        tiro_vm_get_export(vm, str("std"), str("print"), g, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_MODULE_NOT_FOUND, "not loaded yet"); tiro_error_free(e); e = nullptr; tiro_vm_load_std(vm, &e); vk_assert(!e, "loaded"); tiro_vm_get_export(vm, str("std"), str("print"), g, &e); vk_assert(!e && tiro_value_kind(vm, g) == TIRO_KIND_FUNCTION, "a function"); tiro_vm_get_export(vm, str("std"), str("nothing"), g, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_EXPORT_NOT_FOUND, "not a member"); tiro_error_free(e); e = nullptr; tiro_vm_load_std(vm, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_MODULE_EXISTS, "once"); tiro_error_free(e); e = nullptr;
        auto t = tiro_global_new(vm, &e), c = tiro_global_new(vm, &e); tiro_make_string(vm, str("hey"), c, &e); tiro_make_tuple(vm, 1, t, &e); tiro_tuple_set(vm, t, 0, c, &e); tiro_make_coroutine(vm, g, t, c, &e); tiro_coroutine_start(vm, c, &e); g_printed.clear(); tiro_vm_run_ready(vm, &e); vk_assert(!e && tiro_coroutine_completed(vm, c), "it ran"); vk_assert(g_printed == "hey\n" && g_print_data == &data, "the text is given to the callback"); vk_cover("std");
    } else {
        auto mod = std::make_unique<BytecodeModule>(); mod->name(mod->strings().insert("m")); auto five = mod->members().push_back(BytecodeMember::Integer{5}); auto tx = mod->members().push_back(BytecodeMember::String{mod->strings().insert("five")}); auto nm = mod->members().push_back(BytecodeMember::Symbol{tx}); mod->add_export(nm, five); struct tiro_module m(std::move(mod));
        tiro_vm_load_bytecode(vm, &m, &e); vk_assert(!e, "loaded"); tiro_vm_get_export(vm, str("m"), str("five"), g, &e); vk_assert(!e && tiro_integer_value(vm, g) == 5, "its export"); tiro_vm_load_bytecode(vm, &m, &e); vk_assert(tiro_error_errc(e) == TIRO_ERROR_MODULE_EXISTS, "once"); tiro_error_free(e); vk_cover("bytecode");
    }
    tiro_vm_free(vm);
}
// ------------------------------------------------------------------ running out of memory
// vk-covers: api_out_of_memory failed, enough
VK_CONTRACT(api_out_of_memory, "P16", "bounded: the first 8 allocations of each call; an error or an exception of the C++ runtime", "all functions of objects.h, vm.h and functions.h that allocate", "when an allocation fails the call reports ALLOC, leaves every handle and every object as it was, runs the cleanup function of a refused callback once, and the same call succeeds when memory is available again") {
    Api a; auto vm = &a.vm; int f = (int) vk_choice("function", 0, 22); auto str = [](const char* s) -> tiro_string_t { return {s, strlen(s)}; }; int members = 0; auto fill = [&] { while (a.get<Array>(ARR).size() < a.get<Array>(ARR).capacity()) tiro_array_push(vm, a.h[ARR], a.h[NUL], nullptr); };
    if (f == 8) fill(); if (f == 16) { tiro_coroutine_set_callback(vm, a.h[CORO], on_done, nullptr, nullptr, nullptr); vk_assert(a.get<Coroutine>(CORO).native_callback().has_value(), "an earlier callback"); } if (f == 10) *a.slot[STR] = String::make(a.ctx, "fresh name"); a.snapshot();
    auto call = [&](tiro_error_t* e) {
        tiro_module_member_t m[2] = {{str("one"), a.h[ARR]}, {str("two"), a.h[TUP]}}; tiro_resumable_frame_desc_t d{}; d.name = a.h[STR]; d.arg_count = 1; d.local_count = 2; d.closure = a.h[ARR]; d.func = [](tiro_vm_t, tiro_resumable_frame_t) {};
        switch (f) {
        case 0: tiro_value_to_string(vm, a.h[SMALL], a.out, e); break;
        case 1: tiro_make_integer(vm, (i64) 1 << 62, a.out, e); break;
        case 2: tiro_make_float(vm, 1.5, a.out, e); break;
        case 3: tiro_make_string(vm, str("text"), a.out, e); break;
        case 4: tiro_make_buffer(vm, 100, a.out, e); break;
        case 5: tiro_make_buffer(vm, 1u << 17, a.out, e); break;
        case 6: tiro_make_tuple(vm, 3, a.out, e); break;
        case 7: tiro_make_array(vm, 3, a.out, e); break;
        case 8: tiro_array_push(vm, a.h[ARR], a.h[NUL], e); break;
        case 9: tiro_make_record_schema(vm, a.h[KEYS], a.out, e); break;
        case 10: tiro_record_get(vm, a.h[REC], a.h[STR], a.out, e); break;
        case 11: tiro_make_record(vm, a.h[SCHEMA], a.out, e); break;
        case 12: tiro_record_keys(vm, a.h[REC], a.out, e); break;
        case 13: tiro_make_success(vm, a.h[ARR], a.out, e); break;
        case 14: tiro_make_error(vm, a.h[ARR], a.out, e); break;
        case 15: tiro_make_coroutine(vm, a.h[NATFN], a.h[TUP], a.out, e); break;
        case 16: tiro_coroutine_set_callback(vm, a.h[CORO], on_done, on_cleanup, &g_cleaned, e); break;
        case 17: tiro_make_module(vm, str("mod"), m, 2, a.out, e); break;
        case 18: tiro_module_get_export(vm, a.h[MOD], str("fresh"), a.out, e); break;
        case 19: tiro_make_native(vm, &g_type, 40, a.out, e); break;
        case 20: tiro_vm_load_module(vm, a.h[MOD], e); break;
        case 21: tiro_make_sync_function(vm, a.h[STR], [](tiro_vm_t, tiro_sync_frame_t) {}, 1, a.h[ARR], a.out, e); break;
        case 22: tiro_make_resumable_function(vm, &d, a.out, e); break;
        }
    };
    (void) members; bool expect_error = f == 10 || f == 18; g_failure = (int) vk_choice("failure", 0, 1); g_countdown = (int) vk_choice("allocation", 0, 7); tiro_error_t e = nullptr; bool want = vk_choice("error argument", 0, 1); call(want ? &e : nullptr); bool hit = g_hit; g_countdown = -1;
    if (!hit) { vk_cover("enough"); if (want && !expect_error) vk_assert(!e, "a valid call succeeds"); if (want && expect_error) vk_assert(tiro_error_errc(e) == (f == 10 ? TIRO_ERROR_BAD_KEY : TIRO_ERROR_EXPORT_NOT_FOUND), "the misuse is reported"); tiro_error_free(e); return; }
    vk_cover("failed"); if (want) vk_assert(e && tiro_error_errc(e) == TIRO_ERROR_ALLOC, "ALLOC is reported"); tiro_error_free(e); e = nullptr; a.unchanged(); vk_assert(g_called == 0 && g_cleaned == (f == 16), "the cleanup function of a refused callback is run, once"); if (f == 20) vk_assert(!a.ctx.modules().get_module(a.ctx, Handle<String>::from_raw_slot(a.slot[STR])), "the module is not loaded");
    call(&e); if (expect_error) vk_assert(tiro_error_errc(e) == (f == 10 ? TIRO_ERROR_BAD_KEY : TIRO_ERROR_EXPORT_NOT_FOUND), "the vm works as before"); else vk_assert(!e, "the vm works as before"); tiro_error_free(e);
}
