// Contracts of the users of the heap: every allocation may collect.
// vk-link: all
// vk-native: contracts
// vk-opts: * --path-steps 4000000000
#include "prog_harness.hpp"
namespace {
struct Fresh { u64 at, size; bool dead; }; std::vector<Fresh>* g_fresh = nullptr; Context* g_ctx = nullptr; bool g_armed = false; u64 g_collections = 0, g_dead = 0;
void mark_and_poison() {
    auto& h = g_ctx->heap(); auto& c = h.collector(); c.running_ = true; c.trace(g_ctx->roots_); c.running_ = false; g_collections++;
    for (auto& f : *g_fresh) { if (f.dead) continue; auto hd = (Header*) f.at; bool m; if (hd->large_object()) m = LargeObject::from_address(hd)->is_marked(); else { auto p = Page::from_address(hd, h.layout()); m = p->is_cell_marked(p->cell_index(hd)); } if (!m) { f.dead = true; g_dead++; bool lob = hd->large_object(); for (u64 i = 0; i < f.size; i += 8) *(u64*) (f.at + i) = 0x00dead00dead0000ull | (i == 0 && lob ? 1 : 0); } }
    for (auto p : h.pages_) { auto m = p->mark_bitmap_storage(); for (size_t i = 0; i < m.size(); i++) m[i] = 0; } for (auto l : h.lobs_) l->set_marked(false);
}
// Contract of allocation: a collection may happen before, and everything the roots do not reach is gone.
std::tuple<void*, ChunkType> vk_stub_allocate(Heap* h, size_t n) { if (g_armed) mark_and_poison(); auto r = h->allocate(n); if (g_armed) g_fresh->push_back({(u64) std::get<0>(r), n, false}); return r; }
void* vk_stub_memory(DefaultHeapAllocator* a, size_t size, size_t align) { void* p = a->allocate_aligned(size, align); if (p) memset(p, 0, size); return p; }
}
extern "C" vk_replacement vk_replacements_stress[];
vk_replacement vk_replacements_stress[] = { VK_PROG_REPLACEMENTS, { "tiro::vm::Heap::allocate(", (void*) vk_stub_allocate }, { "tiro::vm::DefaultHeapAllocator::allocate_aligned(", (void*) vk_stub_memory } };
namespace {
struct Stress : Prog { std::vector<Fresh> fresh; Stress() { g_ctx = &ctx; g_fresh = &fresh; g_collections = g_dead = 0; } ~Stress() { g_armed = false; }
    void arm() { g_armed = true; }
    // Runs the program with a possible collection at every allocation: it must still compute true.
    void run(const char* src, bool std = false) { if (std) add_std(); auto m = compile("m", src); vk_assert(m != nullptr, "the program compiles"); arm(); add(*m); bool ok = call("main"); g_armed = false; if (!is_true()) vk_print(ok ? "returned" : "panicked", ok ? (u64) result->type() : 0); vk_assert(is_true(), "the program computes what it computes without collections"); vk_assert(!vk_symbolic() || g_collections > 20, "it allocates"); }
};
}
// vk-opts: stress_arrays --time 400
VK_CONTRACT(stress_arrays, "P08", "bounded: programs with growing, nested and cleared arrays and tuples; every schedule of collections", "Array::append, Array::clear, ArrayIterator, ArrayStorage, Tuple", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
func fill(n) { const a = []; for var i = 0; i < n; i += 1 { a.append([i, (i, i + 1)]); } return a; }
export func main() {
  const a = fill(34); var sum = 0; for x in a { sum += x[0] + x[1].1; }
  const b = [[1, 2], (3, 4)]; b[0] = (5, [6]); b.append(b); const c = [fill(2), fill(1)]; c.clear(); c.append(fill(3));
  const t = ([7], (8, [9])); t.1[0] = [10];
  return sum == 1156 && a.size() == 34 && b.size() == 3 && b[0].1[0] == 6 && b[2][1].1 == 4 && c[0][2][1].1 == 3 && t.0[0] == 7 && t.1[0][0] == 10;
}
)PROG"); }
// vk-opts: stress_maps --time 400
VK_CONTRACT(stress_maps, "P08", "bounded: programs with maps that grow, shrink and are iterated, keyed by strings, floats, large integers and symbols; every schedule of collections", "HashTable::set, HashTable::remove, HashTable::clear, HashTableIterator, HashTableKeyIterator, HashTableValueIterator, HashTableKeyView, HashTableValueView", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
func big(i) { return 4611686018427387904 + i; }
export func main() {
  const m = map{"a": [1], 2.5: "x"}; for var i = 0; i < 24; i += 1 { m[big(i)] = [i]; m["k".slice(0, 1)] = (i,); }
  for var i = 0; i < 24; i += 3 { m.remove(big(i)); } m[#s] = map{"in": ["deep"]}; m[big(1)] = [100];
  var n = 0; var sum = 0; for (k, v) in m { n += 1; if (k == big(2)) { sum += v[0]; } } for k in m.keys() { if (k == 2.5) { sum += 1000; } } for v in m.values() { n += 1; }
  return m.size() == 20 && n == 40 && sum == 1002 && m["a"][0] == 1 && m[big(1)][0] == 100 && m.contains(#s) && !m.contains(big(3)) && m[#s]["in"][0] == "deep" && m["k".slice(0, 1)].0 == 23;
}
)PROG"); }
// vk-opts: stress_sets --time 400
VK_CONTRACT(stress_sets, "P08", "bounded: programs with sets of strings, tuples and numbers; every schedule of collections", "Set::insert, Set::remove, Set::clear, SetIterator", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
export func main() {
  const s = set{"a", 1, "a", 4611686018427387904, 4611686018427387904}; for var i = 0; i < 20; i += 1 { s.insert(i * 0.5); s.insert((i,)); }
  var first = true; for var i = 0; i < 20; i += 1 { first = first && !s.insert(i * 0.5); } s.remove(3); s.remove("a"); var n = 0; for x in s { n += 1; }
  const e = set{}; e.insert("only"); const kept = e.contains("only"); e.clear(); e.insert([1]);
  return first && n == s.size() && !s.contains("a") && !s.contains(3.0) && s.contains(4) && s.contains(4611686018427387904) && kept && e.size() == 1;
}
)PROG"); }
// vk-opts: stress_text --time 400
VK_CONTRACT(stress_text, "P08", "bounded: programs that build, slice, compare and iterate text; every schedule of collections", "String, StringSlice, StringBuilder, StringIterator, string interpolation, Context::get_symbol", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
import std;
export func main() {
  const a = "one"; const b = "two ${a} three ${a.slice_first(2)}"; const sb = std.new_string_builder(); for c in b { sb.append(c, "-"); } sb.append_byte(33); sb.append(b.slice_last(5), sb.to_string());
  const t = sb.to_string(); const sl = t.slice(2, 9).slice(1, 3); const m = map{sl.to_string(): 1, t: 2, #one: 3};
  sb.clear(); sb.append("x"); const syms = [#one, #two, #three]; var ok = true; for x in syms { ok = ok && (x == #one || x == #two || x == #three); }
  return b == "two one three on" && sl == "-o-" && t.size() == 33 + 5 + 33 && m["-o-"] == 1 && m[t] == 2 && m[#one] == 3 && sb.to_string() == "x" && t.contains("e-e") && ok;
}
)PROG", true); }
// vk-opts: stress_records --time 400
VK_CONTRACT(stress_records, "P08", "bounded: programs with records and nested literals; every schedule of collections", "Record, RecordSchema, RecordTemplate, Symbol, Tuple", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
import std;
func make(i) { return (id: i, tag: "t", sub: (pair: (i, [i]), none: null)); }
export func main() {
  const all = []; for var i = 0; i < 12; i += 1 { const r = make(i); r.tag = "n${r.tag}"; r.sub.pair.1[0] = (deep: i * 4611686018427387.0); all.append(r); }
  var ok = true; var i = 0; for r in all { ok = ok && r.id == i && r.tag == "nt" && r.sub.none == null && r.sub.pair.0 == i && r.sub.pair.1[0].deep == i * 4611686018427387.0; i += 1; }
  return ok && std.schema_of(all[0]) == std.schema_of(all[1]) && std.schema_of(all[0]) != std.schema_of((id: 1)) && std.type_of(all[0]) == std.Record && i == 12;
}
)PROG", true); }
// vk-opts: stress_closures --time 400
VK_CONTRACT(stress_closures, "P08", "bounded: programs with closures over variables of loops, bound methods, variadic calls and deep recursion; every schedule of collections", "Environment, Function, BoundMethod, Interpreter calls, CoroutineStack growth", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
func adder(n) { var total = n; return (add: func(x) { total = total + x; return total; }, get: func() = total); }
func deep(n, list) { if (n == 0) { return list; } const mine = [n]; const rest = deep(n - 1, list); rest.append(mine); return rest; }
export func main() {
  const fns = []; for var i = 0; i < 5; i += 1 { const box = [i]; const me = i; fns.append(func(k) { const up = box; return func() = up[0] * 100 + me * 10 + k; }); }
  var ok = true; var i = 0; for f in fns { const g = f(i + 1); ok = ok && g() == i * 110 + i + 1; i += 1; }
  const a = adder("".size()); a.add(4611686018427387904); a.add(2); const arr = []; const app = arr.append; app([1]); app([2]); const d = deep(40, []);
  return ok && a.get() == 4611686018427387906 && arr.size() == 2 && arr[1][0] == 2 && d.size() == 40 && d[0][0] == 1 && d[39][0] == 40;
}
)PROG"); }
// vk-opts: stress_panics --time 400
VK_CONTRACT(stress_panics, "P08", "bounded: programs that raise, catch, defer, unwind and rethrow; every schedule of collections", "Exception, Result, std.catch_panic, CatchFrame, deferred statements, secondary exceptions, StackTrace", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
import std;
func fails(n, log) { defer log.append("d${log[0]}"); if (n == 0) { std.panic("bottom ${log[0]}"); } const keep = [n]; fails(n - 1, log); return keep; }
func twice(log) { defer std.panic("second"); defer log.append("between"); std.panic("first"); }
export func main() {
  const log = ["l"]; const r = std.catch_panic(func() = fails(3, log)); const m = r.error().message(); const log2 = []; const q = std.catch_panic(func() { twice(log2); });
  const inner = std.catch_panic(func() { const i = std.catch_panic(func() { const o = null; o.x(); }); std.panic(i.error()); });
  const good = std.catch_panic(func() = [1, (2, "three")]); const idx = std.catch_panic(func() { const a = [1]; return a[5]; }); const div = std.catch_panic(func() = 1 / 0);
  const s = std.success([good.value()]); const e = std.error((m, q.error().message()));
  return r.is_error() && m == "bottom l" && log.size() == 5 && log[4] == "dl" && q.error().message() == "first" && log2[0] == "between" && inner.is_error() && good.is_success() && good.value()[1].1 == "three" && idx.is_error() && div.is_error() && s.value()[0][0] == 1 && e.error().1 == "first" && e.error().0 == m;
}
)PROG", true); }
// vk-opts: stress_coroutines --time 400
VK_CONTRACT(stress_coroutines, "P08", "bounded: programs with many coroutines that wait, wake each other and finish in turn; every schedule of collections", "Coroutine, CoroutineToken, Context::schedule_coroutine, Context::run_ready, std.launch, std.dispatch, std.yield_coroutine", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
import std;
export func main() {
  const log = []; const tokens = []; const workers = [];
  for var i = 0; i < 6; i += 1 { const me = [i]; workers.append(std.launch(func(name) { log.append((name, me[0])); tokens.append(std.coroutine_token()); std.yield_coroutine(); log.append(("again", me)); std.dispatch(); log.append([me, name]); return me; }, "w${"x"}")); }
  std.dispatch(); const first = log.size(); var woken = 0; for t in tokens { if (t.resume()) { woken += 1; } } const second = tokens[0].resume(); std.dispatch(); const after = log.size(); std.dispatch(); std.dispatch();
  return first == 6 && woken == 6 && !second && after == 12 && log.size() == 18 && log[3].0 == "wx" && log[3].1 == 3 && log[8].1[0] == 2 && log[17][0][0] == 5 && workers[4].name().size() > 0;
}
)PROG", true); }
// vk-opts: stress_numbers --time 400
VK_CONTRACT(stress_numbers, "P08", "bounded: programs with large integers, floats, buffers and types; every schedule of collections", "HeapInteger, Float, Buffer, math operators, std math functions, types", "whenever a collection happens, everything the program still uses is kept: the program computes the same as without collections") { Stress s; s.run(R"PROG(
import std;
func fib(n) { var a = 4611686018427387904 - 4611686018427387904, b = 1; for var i = 0; i < n; i += 1 { (a, b) = (b, a + b); } return a; }
export func main() {
  const f = fib(90); const list = []; for var i = 0; i < 12; i += 1 { list.append(f - i); list.append(f / 2.0 + i); } var sum = 0; var i = 0; for x in list { if (i % 2 == 0) { sum += f - x; } i += 1; }
  const b = std.new_buffer(40); for var i = 0; i < 40; i += 1 { b[i] = i * 5; } const neg = -f; const p = 3 ** 39; const n = ~f; const o = std.catch_panic(func() = f * f);
  return f == 2880067194370816120 && sum == 66 && b[39] == 195 && b.size() == 40 && neg + f == 0 && p == 4052555153018976267 && n == -1 - f && o.is_error() && list[3] == f / 2.0 + 1 && std.type_of(f) == std.Integer && std.type_of(1.5 * f) == std.Float && (f > list[2]) && std.floor(2.5) == 2.0;
}
)PROG", true); }
// vk-opts: stress_modules --time 400 --path-steps 4000000000
VK_CONTRACT(stress_modules, "P08", "bounded: the std module and three modules that import each other, with initializers, functions, records and constants; every schedule of collections", "load_module, ModuleRegistry::add_module, ModuleRegistry::get_module, ModuleRegistry::resolve_module, create_std_module, ModuleBuilder, Context::run_init, Context::get_interned_string", "whenever a collection happens while modules are made, loaded, linked and initialized, everything they contain is kept") {
    Stress s; auto base = compile("base", R"PROG(
export const table = map{"k": [1, 2], #sym: ("x",)}; export func get(k) = table[k]; const hidden = [7]; export const (p, q) = ([hidden[0]], "q${"r"}"); export func rec(v) = (b: v, a: hidden);
)PROG"); auto mid = compile("mid", R"PROG(
import base; import std as s; export const view = base.get("k"); export const kind = s.type_of(view); export const all = [base.rec("v"), base.p, base.q]; export func again() = s.catch_panic(func() = base.get(#sym));
)PROG"); auto top = compile("m", R"PROG(
import mid; import base; import std; const mine = mid.again();
export func main() { return mid.view[1] == 2 && mid.kind == std.Array && mid.all[0].a[0] == 7 && mid.all[0].b == "v" && mid.all[1][0] == 7 && mid.all[2] == "qr" && mine.value().0 == "x" && base.table.size() == 2; }
)PROG"); vk_assert(base && mid && top, "the programs compile");
    s.arm(); s.add(*top); s.add(*base); s.add_std(); s.add(*mid); s.call("main"); g_armed = false; vk_assert(s.is_true(), "every module is complete");
}
