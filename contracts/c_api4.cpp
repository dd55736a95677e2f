// Contracts of the C API: the compiler.
// vk-link: compiler api core
// vk-native: contracts
#include "vm_harness.hpp"
#include "api/internal.hpp"
#include <vector>
#include <string>
using namespace vk; using namespace tiro::api;
namespace {
std::string vk_stub_format(fmt::string_view, fmt::format_args) { return "x"; }
void vk_stub_stream(StringFormatStream* s, std::string_view, fmt::format_args) { s->buffer_ += "x"; }
// Contract of Compiler::run: any result (with or without module and attachments), any messages, or an exception.
int g_runs, g_what, g_msgs; bool g_success, g_module, g_att[4], g_keep[4]; BytecodeModule* g_made; const char* const texts[] = {"first", "second"};
CompilerResult vk_stub_run(Compiler* c) {
    g_runs++; g_keep[0] = c->options_.keep_cst; g_keep[1] = c->options_.keep_ast; g_keep[2] = c->options_.keep_ir; g_keep[3] = c->options_.keep_bytecode; vk_assert(c->options_.parse && c->options_.analyze && c->options_.compile, "everything is compiled"); g_what = (int) vk_choice("run", 0, 4); g_msgs = (int) vk_choice("messages", 0, 2);
    for (int i = 0; i < g_msgs; i++) { AbsoluteSourceRange r; if (i == 0) for (auto id : c->sources_.ids()) { r = AbsoluteSourceRange(id, SourceRange(2, 3)); break; } c->diag_.report(i == 0 ? Diagnostics::Error : Diagnostics::Warning, r, texts[i]); }
    if (g_what == 3) throw Error(TIRO_ERROR_BAD_ARG, "x"); if (g_what == 4) throw std::bad_alloc();
    CompilerResult res; g_success = res.success = g_what != 0; g_module = g_what == 2; if (g_module) { res.module = std::make_unique<BytecodeModule>(); g_made = res.module.get(); } if (g_keep[0]) res.cst = "C"; if (g_keep[1]) res.ast = "A"; if (g_keep[2] && g_success) res.ir = "I"; if (g_keep[3] && g_module) res.bytecode = "B"; g_att[0] = g_keep[0]; g_att[1] = g_keep[1]; g_att[2] = g_keep[2] && g_success; g_att[3] = g_keep[3] && g_module; return res;
}
int g_stop, g_seen; tiro_compiler_t g_comp;
bool on_message(const tiro_compiler_message_t* m, void* p) { vk_assert(p == &g_seen, "its user data"); vk_assert(g_seen < g_msgs, "a message of the compiler"); vk_assert(std::string(m->text.data, m->text.length) == texts[g_seen], "its text, in order"); vk_assert(m->severity == (g_seen == 0 ? TIRO_SEVERITY_ERROR : TIRO_SEVERITY_WARNING), "its severity"); if (g_seen == 0 && m->line) vk_assert(m->line == 2 && m->column == 1 && std::string(m->file.data, m->file.length) == "f1", "its position"); else vk_assert(m->line == 0 && m->column == 0 && m->file.length == 0, "no position"); return g_seen++ != g_stop; }
}
extern "C" vk_replacement vk_replacements_api4[];
vk_replacement vk_replacements_api4[] = { VK_VM_REPLACEMENTS, { "~_ZN3fmt2v97vformatB~", (void*) vk_stub_format }, { "tiro::StringFormatStream::do_vformat(", (void*) vk_stub_stream }, { "tiro::Compiler::run(", (void*) vk_stub_run }, { "~_ZN4absl7debian313hash_internal15MixingHashState4hashISt17basic_string_view~", (void*) +[](const void*) -> size_t { return 0; } } };
// vk-covers: api_compiler refused, compiled, failed, stopped
VK_CONTRACT(api_compiler, "P16", "bounded: up to 2 files, 2 messages and all orders of calls listed; Compiler::run may return anything", "tiro_compiler_new, tiro_compiler_free, tiro_compiler_add_file, tiro_compiler_set_message_callback, tiro_compiler_request_attachment, tiro_compiler_run, tiro_compiler_has_module, tiro_compiler_take_module, tiro_compiler_get_attachment, tiro_module_free, tiro_severity_str", "a misuse (null, empty name, wrong order, unknown attachment, running twice) is reported and changes nothing; messages are given to the callback in order; run succeeds exactly if the compiler does and the callback accepts every message; a module is available exactly after a successful run, once; an attachment exactly if requested and made") {
    g_runs = g_seen = g_msgs = 0; g_stop = -1; g_made = nullptr; g_module = false; for (auto& x : g_att) x = false; tiro_error_t e = nullptr; auto str = [](const char* s) -> tiro_string_t { return {s, strlen(s)}; }; auto expect = [&](tiro_errc_t c) { vk_assert(tiro_error_errc(e) == c, "the error it is, or none"); if (c != TIRO_OK) vk_cover("refused"); tiro_error_free(e); e = nullptr; };
    int nm = (int) vk_choice("module name", 0, 2); auto c = tiro_compiler_new(nm == 0 ? str("mod") : nm == 1 ? str("") : tiro_string_t{nullptr, 2}, &e); if (nm) { vk_assert(!c, "no compiler"); expect(TIRO_ERROR_BAD_ARG); return; } vk_assert(c && !e, "a compiler");
    tiro_compiler_free(nullptr); tiro_module_free(nullptr); vk_assert(!tiro_compiler_has_module(nullptr) && !tiro_compiler_has_module(c), "no module yet"); tiro_module_t m = nullptr; tiro_compiler_take_module(c, &m, &e); expect(TIRO_ERROR_BAD_STATE); char* s = nullptr; tiro_compiler_get_attachment(c, TIRO_ATTACHMENT_CST, &s, &e); expect(TIRO_ERROR_BAD_STATE); vk_assert(!m && !s, "nothing is written");
    int files = (int) vk_choice("files", 0, 3); bool dup = files == 3; if (dup) files = 2; for (int i = 0; i < files; i++) { tiro_compiler_add_file(c, str(i == 0 || dup ? "f1" : "f2"), str("a\nb\nc"), &e); expect(TIRO_OK); } switch (vk_choice("bad file", 0, 4)) { case 1: tiro_compiler_add_file(nullptr, str("f"), str(""), &e); expect(TIRO_ERROR_BAD_ARG); break; case 2: tiro_compiler_add_file(c, {nullptr, 1}, str(""), &e); expect(TIRO_ERROR_BAD_ARG); break; case 3: tiro_compiler_add_file(c, str("f"), {nullptr, 1}, &e); expect(TIRO_ERROR_BAD_ARG); break; case 4: tiro_compiler_add_file(c, str(""), str("x"), &e); expect(TIRO_ERROR_BAD_ARG); break; } vk_assert(c->files.size() == (size_t) files, "exactly the valid files are added");
    tiro_compiler_set_message_callback(nullptr, on_message, &g_seen, &e); expect(TIRO_ERROR_BAD_ARG); tiro_compiler_set_message_callback(c, on_message, &g_seen, &e); expect(TIRO_OK); g_stop = (int) vk_choice("refused message", -1, 1); int att = (int) vk_choice("attachment", 0, 5); tiro_compiler_request_attachment(nullptr, TIRO_ATTACHMENT_CST, &e); expect(TIRO_ERROR_BAD_ARG); tiro_compiler_request_attachment(c, (tiro_attachment_t) att, &e); expect(att >= 1 && att <= 4 ? TIRO_OK : TIRO_ERROR_BAD_ARG);
    tiro_compiler_run(nullptr, &e); expect(TIRO_ERROR_BAD_ARG); vk_assert(g_runs == 0, "not run yet"); bool pass = vk_choice("error argument", 0, 1); tiro_compiler_run(c, pass ? &e : nullptr); bool finished = !dup && g_what <= 2, stopped = finished && g_stop >= 0 && g_stop < g_msgs, good = finished && !stopped && g_success; vk_assert(g_runs == !dup, "the compiler is run once"); if (!dup) for (int i = 0; i < 4; i++) vk_assert(g_keep[i] == (att == i + 1), "exactly the attachments requested");
    if (pass) expect(dup ? TIRO_ERROR_BAD_ARG : g_what == 3 ? TIRO_ERROR_BAD_ARG : g_what == 4 ? TIRO_ERROR_ALLOC : stopped ? TIRO_ERROR_BAD_STATE : g_success ? TIRO_OK : TIRO_ERROR_BAD_SOURCE); vk_assert(g_seen == (!finished ? 0 : stopped ? g_stop + 1 : g_msgs), "messages are given in order until one is refused"); vk_cover(good ? "compiled" : "failed"); if (stopped) vk_cover("stopped");
    tiro_compiler_run(c, &e); expect(TIRO_ERROR_BAD_STATE); tiro_compiler_add_file(c, str("late"), str(""), &e); expect(TIRO_ERROR_BAD_STATE); tiro_compiler_request_attachment(c, TIRO_ATTACHMENT_CST, &e); expect(TIRO_ERROR_BAD_STATE); vk_assert(g_runs == !dup, "not run again");
    vk_assert(tiro_compiler_has_module(c) == (good && g_module), "a module exactly after a successful run"); tiro_compiler_take_module(c, nullptr, &e); expect(TIRO_ERROR_BAD_ARG); tiro_compiler_take_module(nullptr, &m, &e); expect(TIRO_ERROR_BAD_ARG); vk_assert(tiro_compiler_has_module(c) == (good && g_module), "it is kept"); tiro_compiler_take_module(c, &m, &e); if (good && g_module) { expect(TIRO_OK); vk_assert(m && m->mod.get() == g_made, "the module"); tiro_module_free(m); m = nullptr; vk_assert(!tiro_compiler_has_module(c), "it can be taken once"); tiro_compiler_take_module(c, &m, &e); expect(TIRO_ERROR_BAD_STATE); vk_assert(!m, "nothing is written"); } else { expect(TIRO_ERROR_BAD_STATE); vk_assert(!m, "nothing is written"); }
    for (int i = 0; i <= 5; i++) { s = nullptr; tiro_compiler_get_attachment(c, (tiro_attachment_t) i, &s, &e); bool known = i >= 1 && i <= 4; if (finished && known && g_att[i - 1]) { expect(TIRO_OK); vk_assert(s && s[0] == "CAIB"[i - 1] && s[1] == 0, "the attachment"); free(s); } else { expect(finished && !known ? TIRO_ERROR_BAD_ARG : TIRO_ERROR_BAD_STATE); vk_assert(!s, "nothing is written"); } } tiro_compiler_get_attachment(c, TIRO_ATTACHMENT_CST, nullptr, &e); expect(TIRO_ERROR_BAD_ARG); tiro_compiler_get_attachment(nullptr, TIRO_ATTACHMENT_CST, &s, &e); expect(TIRO_ERROR_BAD_ARG); tiro_compiler_free(c);
    vk_assert(tiro_severity_str((tiro_severity_t) vk_choice("severity", 0, 3)) != nullptr, "a text");
}
