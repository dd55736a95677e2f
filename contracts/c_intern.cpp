// Contracts of interned strings and symbols.
// vk-link: core
// vk-native: contracts
#include "vm_harness.hpp"
#include "vm/root_set.ipp"
#include <vector>
using namespace vk;
namespace {
bool g_on; u64 g_finds, g_sets, g_key, g_setkey, g_setval, g_existing_key, g_existing_val; bool g_found;
// Contract of the table (P04): a lookup yields the entry of an equal key or nothing, an insertion adds an entry.
static std::optional<std::pair<Value, Value>> vk_stub_find(HashTable* t, Value k) { if (!g_on) return t->find(k); g_finds++; g_key = k.raw(); if (!g_found) return {}; Value a(Value::null()), b(Value::null()); memcpy(&a, &g_existing_key, 8); memcpy(&b, &g_existing_val, 8); return std::pair(a, b); }
static Fallible<bool> vk_stub_set(HashTable* t, Context& ctx, Handle<Value> k, Handle<Value> v) { if (!g_on) return t->set(ctx, k, v); g_sets++; g_setkey = k->raw(); g_setval = v->raw(); return true; }
bool g_hash; u64 g_h1, g_h2; char g_t1[4]; u64 g_n1;
// Contract of str_hash: a function of the text.
static size_t vk_stub_hash(String* s) { if (!g_hash) return s->hash(); std::string_view v = s->view(); if (v.size() != g_n1) return g_h2; bool eq = true; for (u64 i = 0; i < g_n1; i++) eq = vk_and(eq, v[i] == g_t1[i]); if (eq) return g_h1; return g_h2; }
}
extern "C" vk_replacement vk_replacements_intern[];
vk_replacement vk_replacements_intern[] = { VK_VM_REPLACEMENTS, { "tiro::vm::HashTable::find(", (void*) vk_stub_find }, { "tiro::vm::HashTable::set(", (void*) vk_stub_set }, { "tiro::vm::String::hash(", (void*) vk_stub_hash } };
namespace { void reset() { g_on = g_hash = false; g_finds = g_sets = 0; } }
// vk-covers: intern_step found, inserted, already
VK_CONTRACT(intern_step, "P20", "proof", "Context::get_interned_string, get_symbol, intern_impl, Symbol::make, Symbol::name, String::interned", "an interned string is returned as it is; otherwise the entry of an equal text is returned if there is one, and else the string becomes the entry together with a new symbol of that name; nothing else is stored; for every text and every table contents") {
    reset(); World w; u64 n = vk_choice("length", 0, 2); char b[4]; vk_bytes(b, n, "text"); Local s = w.sc.local(String::make(w.ctx, std::string_view(b, n))); Local e = w.sc.local(String::make(w.ctx, "other")); e->interned(true); Local es = w.sc.local(Symbol::make(w.ctx, e)); Local mine = w.sc.local(Symbol::make(w.ctx, s));
    u64 state = vk_choice("state", 0, 2); bool sym = vk_choice("symbol", 0, 1) == 1; g_existing_key = e->raw(); g_existing_val = es->raw(); g_found = state == 1; if (state == 2) { s->interned(true); g_found = true; g_existing_key = s->raw(); g_existing_val = mine->raw(); }
    size_t h0 = s->hash(); g_on = true; Value r = sym ? Value(w.ctx.get_symbol(Handle<String>(s))) : Value(w.ctx.get_interned_string(Handle<String>(s))); g_on = false; vk_assert(s->hash() == h0, "the hash is kept");
    if (state == 2) { vk_assert(r.raw() == (sym ? mine->raw() : s->raw()) && g_sets == 0, "an interned string stands for itself"); vk_cover("already"); return; }
    vk_assert(g_finds == 1 && g_key == s->raw(), "the text is looked up");
    if (state == 1) { vk_assert(g_sets == 0 && r.raw() == (sym ? es->raw() : e->raw()) && !s->interned(), "the existing object"); vk_cover("found"); return; }
    vk_assert(g_sets == 1 && g_setkey == s->raw() && s->interned(), "the string becomes the entry"); Value sv(Value::null()); memcpy(&sv, &g_setval, 8); vk_assert(sv.is<Symbol>() && sv.must_cast<Symbol>().name().raw() == s->raw() && sv.raw() != mine->raw(), "with its symbol"); vk_assert(r.raw() == (sym ? g_setval : s->raw()), "which is returned"); vk_cover("inserted");
}
// vk-covers: intern_text equal, different
VK_CONTRACT(intern_text, "P20", "bounded: two texts of at most 2 bytes, all contents and all pairs of hashes below 12", "Context::get_interned_string, get_symbol, HashTable::find, set, String::equal", "two requests yield the identical object exactly if the texts are equal, whatever their hashes are") {
    reset(); World w; u64 n = vk_choice("length", 0, 2), m = vk_choice("second length", 0, 2); char a[4], b[4]; vk_bytes(a, n, "text"); vk_bytes(b, m, "second text"); g_n1 = n; for (u64 i = 0; i < n; i++) g_t1[i] = a[i]; g_h1 = vk_choice("hash", 0, 11); g_h2 = vk_choice("second hash", 0, 11); if (!vk_symbolic() && (g_h1 & 2)) g_h2 = g_h1;
    bool sym = vk_choice("symbol", 0, 1) == 1; Local s = w.sc.local(String::make(w.ctx, std::string_view(a, n))); Local t = w.sc.local(String::make(w.ctx, std::string_view(b, m))); bool eq = n == m; for (u64 i = 0; i < n && n == m; i++) eq = vk_and(eq, a[i] == b[i]);
    g_hash = true; Local x = w.sc.local<Value>(sym ? Value(w.ctx.get_symbol(Handle<String>(s))) : Value(w.ctx.get_interned_string(Handle<String>(s)))); Local y = w.sc.local<Value>(sym ? Value(w.ctx.get_symbol(Handle<String>(t))) : Value(w.ctx.get_interned_string(Handle<String>(t))));
    vk_assert((x->raw() == y->raw()) == eq, "identical exactly if the texts are equal"); Value z = sym ? Value(w.ctx.get_symbol(Handle<String>(s))) : Value(w.ctx.get_interned_string(Handle<String>(s))); vk_assert(z.raw() == x->raw(), "again"); g_hash = false; if (eq) vk_cover("equal"); else vk_cover("different");
}
namespace {
struct Ghost { World& w; std::vector<std::string> texts; std::vector<u64> str, sym; explicit Ghost(World& x) : w(x) {}
    void want(Value v, const std::string& t, bool symbol) { String s = symbol ? v.must_cast<Symbol>().name() : v.must_cast<String>(); vk_assert(s.view() == t && s.interned(), "its text"); size_t i = 0; while (i < texts.size() && texts[i] != t) i++; if (i == texts.size()) { texts.push_back(t); str.push_back(0); sym.push_back(0); } u64& slot = symbol ? sym[i] : str[i]; if (slot == 0) { for (size_t k = 0; k < texts.size(); k++) vk_assert((symbol ? sym[k] : str[k]) != v.raw(), "different texts yield different objects"); slot = v.raw(); } else { vk_assert(slot == v.raw(), "equal texts yield the identical object"); vk_cover("again"); } if (symbol) { if (str[i] == 0) str[i] = s.raw(); else vk_assert(str[i] == s.raw(), "the name of a symbol is the interned string"); } }
    void request(u64 op, const std::string& t) { Scope sc(w.ctx); if (op == 0) want(w.ctx.get_interned_string(std::string_view(t)), t, false); if (op == 1) want(w.ctx.get_symbol(std::string_view(t)), t, true); if (op == 2) { Local s = sc.local(String::make(w.ctx, t)); want(w.ctx.get_interned_string(Handle<String>(s)), t, false); } if (op == 3) { Local s = sc.local(String::make(w.ctx, t)); want(w.ctx.get_symbol(Handle<String>(s)), t, true); } }
};
}
// vk-covers: intern_history again
VK_CONTRACT(intern_history, "P20", "bounded: all histories of 4 requests for 3 texts", "Context::get_interned_string, get_symbol, intern_impl, HashTable::find, set, String::hash, String::equal", "every request for a text yields the identical string or symbol, different texts yield different ones, and the name of a symbol is the interned string") {
    reset(); World w; Ghost g(w); static const char* const t[] = {"", "a", "ab"}; for (int i = 0; i < 4; i++) { u64 op = vk_choice("request", 0, 3); g.request(op, t[vk_choice("text", 0, 2)]); }
}
// vk-covers: intern_growth again
VK_CONTRACT(intern_growth, "P20", "bounded: 300 texts", "Context::get_interned_string, get_symbol, intern_impl, HashTable::grow, set, find", "identity survives the growth of the table; the table is kept by the collector") {
    reset(); World w; Ghost g(w); u64 op = vk_choice("request", 0, 3), op2 = vk_choice("second request", 0, 3); static const u64 ns[] = {3, 6, 7, 13, 14, 27, 30, 60, 120, 300}; u64 n = ns[vk_choice("texts", 0, 9)]; char b[8];
    for (u64 i = 0; i < n; i++) { b[0] = (char) ('a' + i % 7); b[1] = (char) ('a' + i / 7 % 7); b[2] = (char) ('a' + i / 49); b[3] = 0; g.request(op, b); }
    for (u64 i = 0; i < n; i++) { b[0] = (char) ('a' + i % 7); b[1] = (char) ('a' + i / 7 % 7); b[2] = (char) ('a' + i / 49); b[3] = 0; g.request(op2, b); }
    struct Find { u64 want; int n = 0; void operator()(Value v) { n += v.raw() == want; } void operator()(Span<Value> s) { for (Value v : s) n += v.raw() == want; } } f; f.want = w.ctx.roots_.get_interned_strings()->raw(); w.ctx.roots_.trace(f); vk_assert(f.n == 1, "the table is a root");
}
