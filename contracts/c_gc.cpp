// Contracts of the garbage collector: marking, references of every type of object, roots, whole collections, finalizers.
// vk-link: core
// vk-native: contracts
#include "vm_harness.hpp"
#include "vm/interpreter.hpp"
#include "vm/object_support/type_desc.hpp"
#include "vm/modules/registry.hpp"
#include "tiro/objects.h"
#include <algorithm>
#include <vector>
using namespace vk;
namespace {
enum { OFF, RECORD, PREMARK };
struct Ghost { int mode = OFF; bool own_roots = false; Value root; Collector* collector = nullptr; std::vector<u64>* marked = nullptr; std::vector<u64>* fresh = nullptr; bool bad = false; } g;
u64 raw(Value v) { u64 r; memcpy(&r, (void*) &v, 8); return r; }
// Contract of mark: the object is marked and scheduled for tracing once (gc_mark decides it): recorded.
void vk_stub_mark(Collector* c, Value v) { if (g.mode != RECORD) { c->mark(v); return; } if (!v.is_null() && v.is_heap_ptr()) g.marked->push_back(raw(v)); }
void vk_stub_roots(RootSet* r, void* tracer);
// All objects except the given ones are assumed to be reachable (and have been traced), so that a collection decides only about the given ones.
void premark(Heap& h) {
    for (auto p : h.pages_) { auto b = p->block_bitmap_storage(), m = p->mark_bitmap_storage(); for (size_t i = 0; i < b.size(); i++) m[i] |= b[i]; } for (auto l : h.lobs_) l->set_marked(true);
    for (u64 a : *g.fresh) { bool lob = false; for (auto l : h.lobs_) if ((u64) l->cell() == a) { l->set_marked(false); lob = true; } if (lob) continue; auto p = Page::from_address((void*) a, h.layout()); p->set_cell_marked(p->cell_index((void*) a), false); }
}
void vk_stub_collect(Collector* c, GcReason r) { if (g.mode == PREMARK) premark(c->heap_); c->collect(r); }
// Memory is returned with known contents, as it is searched for references.
void* vk_stub_memory(DefaultHeapAllocator* a, size_t size, size_t align) { void* p = a->allocate_aligned(size, align); if (p) memset(p, 0, size); return p; }
}
extern "C" vk_replacement vk_replacements_gc[];
vk_replacement vk_replacements_gc[] = { VK_VM_REPLACEMENTS, { "tiro::vm::Collector::mark(", (void*) vk_stub_mark }, { "~_ZN4tiro2vm7RootSet5traceIRNS0_9Collector6TracerEEEvOT_~", (void*) vk_stub_roots }, { "tiro::vm::DefaultHeapAllocator::allocate_aligned(", (void*) vk_stub_memory }, { "tiro::vm::Collector::collect(", (void*) vk_stub_collect } };
namespace {
extern "C" void trace_roots(RootSet*, void*) asm("_ZN4tiro2vm7RootSet5traceIRNS0_9Collector6TracerEEEvOT_");
void vk_stub_roots(RootSet* r, void* tracer) { if (g.own_roots) { g.collector->to_trace_.push_back(g.root); return; } trace_roots(r, tracer); }
struct Small : ContextSettings { Small() { page_size_bytes = 1 << 16; } };
struct GcWorld { Context ctx; Scope sc; GcWorld() : ctx(Small()), sc(ctx) { g = Ghost(); } };
bool is_object(Heap& h, u64 a) { if (a % 16 || !a) return false; u64 base = a & h.layout().page_mask(); for (auto p : h.pages_) if ((u64) p.get() == base) { if (a < base + h.layout().cells_offset || a >= base + h.layout().cells_offset + 16 * (u64) h.layout().cells_size) return false; return p->is_allocated_block_start(p->cell_index((void*) a)); } for (auto l : h.lobs_) if ((u64) l->cell() == a) return true; return false; }
// all words of the used storage (the code pointer of a native function is none) that refer to objects
void scan(Heap& h, void* from, u64 bytes, std::vector<u64>& out) { auto w = (u64*) from; for (u64 i = 0; i < bytes / 8; i++) if (is_object(h, w[i])) out.push_back(w[i]); }
void sort(std::vector<u64>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
u64 used_size(Value v) { if (v.is<NativeFunction>()) { auto l = v.must_cast<NativeFunction>().layout(); return (u64) ((char*) l->static_slot(0) - (char*) l) + 8 * l->static_slot_count(); } if (v.is<ArrayStorage>()) return sizeof(ArrayStorage::Layout) + 8 * v.must_cast<ArrayStorage>().size(); if (v.is<HashTableStorage>()) return sizeof(HashTableStorage::Layout) + sizeof(HashTableEntry) * v.must_cast<HashTableStorage>().size(); if (v.is<CoroutineStack>()) { auto d = v.must_cast<CoroutineStack>().layout(); return (u64) (d->top - (byte*) d); } return object_size(v); }
// the references of one object: those found in its storage and those visited by the collector
void check_object(Context& ctx, Value v) {
    Heap& h = ctx.heap(); std::vector<u64> want, got; u64 skip = v.is<CoroutineStack>() ? sizeof(CoroutineStack::Layout) : 8; scan(h, (char*) HeapValue(v).heap_ptr() + skip, used_size(v) - skip, want);
    g.mode = RECORD; g.own_roots = true; g.marked = &got; auto& c = h.collector(); g.root = v; g.collector = &c; c.running_ = true; c.trace(ctx.roots_); c.running_ = false; g.mode = OFF; g.own_roots = false;
    u64 type = (u64) HeapValue(v).heap_ptr()->type(); u64 un = raw(ctx.get_undefined()); auto drop = [&](std::vector<u64>& x) { sort(x); x.erase(std::remove(x.begin(), x.end(), un), x.end()); }; drop(want); drop(got); bool all = true, only = true; for (u64 x : want) if (!std::binary_search(got.begin(), got.end(), x)) all = false; for (u64 x : got) if (x != type && !std::binary_search(want.begin(), want.end(), x)) only = false;
    if (!all || !only) { vk_print("type", (u64) v.type()); for (u64 x : want) { Value y; memcpy((void*) &y, &x, 8); if (!std::binary_search(got.begin(), got.end(), x)) vk_print("missed", (u64) y.type()); } } vk_assert(all, "every reference of an object is visited"); vk_assert(only, "nothing else is visited"); vk_assert(is_object(h, type), "the type of an object is an object");
}
template<typename T> void fill_slots(T v, std::vector<Value>& markers) { auto l = v.layout(); size_t k = 0; for (size_t i = 0; i < l->static_slot_count(); i++) if (l->static_slot(i)->is_null() && k < markers.size()) *l->static_slot(i) = markers[k++]; }
}
// ------------------------------------------------------------------ marking
// vk-covers: gc_mark page, large, already, no object
VK_CONTRACT(gc_mark, "P08", "proof", "Collector::mark, Page::set_cell_marked, is_cell_marked, LargeObject::set_marked, is_marked, Page::from_address, LargeObject::from_address", "an object not seen before is marked and scheduled exactly once; marked objects, null and integers are ignored; no other object is affected") {
    GcWorld w; Heap& h = w.ctx.heap(); Local a = w.sc.local(Tuple::make(w.ctx, 2)); Local big = w.sc.local(Tuple::make(w.ctx, 4000)); Local b = w.sc.local(Tuple::make(w.ctx, 2)); auto& c = h.collector(); c.running_ = true; u64 k = vk_choice("value", 0, 3); bool was = vk_choice("already marked", 0, 1) == 1; Value v = k == 0 ? static_cast<Value>(*a) : k == 1 ? static_cast<Value>(*big) : k == 2 ? Value::null() : static_cast<Value>(SmallInteger::make(vk_range("integer", 0, 1 << 20)));
    auto page = Page::from_address(HeapValue(*a).heap_ptr(), h.layout()); auto lob = LargeObject::from_address(HeapValue(*big).heap_ptr()); vk_assert(h.pages_.contains(page) && h.lobs_.contains(lob), "pages and chunks of the heap"); u32 ia = page->cell_index(HeapValue(*a).heap_ptr()); if (was) { if (k == 0) page->set_cell_marked(ia, true); if (k == 1) lob->set_marked(true); }
    auto pb = Page::from_address(HeapValue(*b).heap_ptr(), h.layout()); u32 ib = pb->cell_index(HeapValue(*b).heap_ptr());
    c.mark(v); c.running_ = false; vk_assert(page->is_cell_marked(ia) == (k == 0) && lob->is_marked() == (k == 1) && !pb->is_cell_marked(ib), "exactly the object is marked"); if (k < 2 && !was) { vk_assert(c.to_trace_.size() == 1 && c.to_trace_[0].same(v), "scheduled once"); vk_cover(k ? "large" : "page"); } else { vk_assert(c.to_trace_.empty(), "not scheduled again"); vk_cover(k < 2 ? "already" : "no object"); } c.to_trace_.clear();
}
// ------------------------------------------------------------------ references
// vk-covers: gc_references all types
VK_CONTRACT(gc_references, "P08", "bounded: every object of a new context and one or more objects of each type with all references set", "Collector::trace, Collector::Tracer, trace_value, LayoutTraits::trace of all layouts, CoroutineStack::trace, HashTableEntry::trace", "tracing an object visits exactly the references in its storage, and its type") {
    GcWorld w; auto& ctx = w.ctx; auto& sc = w.sc; std::vector<Value> mk; for (int i = 0; i < 40; i++) { Local m = sc.local(HeapInteger::make(ctx, 1000 + i)); mk.push_back(*m); }
    Local name = sc.local(String::make(ctx, "n")); Local arr = sc.local(Array::make(ctx)); for (auto m : mk) { Local x = sc.local(m); arr->append(ctx, x).must("x"); } Local tup = sc.local(Tuple::make(ctx, {name, arr, sc.local(mk[0])})); Local tbl = sc.local(HashTable::make(ctx)); for (int i = 0; i < 5; i++) { Local k = sc.local(ctx.get_integer((i64) 1 << (55 + i))); Local v = sc.local(mk[(size_t) i]); tbl->set(ctx, k, v).must("x"); } { Local k = sc.local(ctx.get_integer((i64) 1 << 56)); tbl->remove(*k); }
    Local set = sc.local(Set::make(ctx)); set->insert(ctx, name).must("x"); Local sym = sc.local(ctx.get_symbol("sym")); Local keys = sc.local(Array::make(ctx)); keys->append(ctx, sym).must("x"); Local schema = sc.local(RecordSchema::make(ctx, keys)); Local rec = sc.local(Record::make(ctx, schema)); Local cons = sc.local(Undefined::make(ctx)); (void) cons;
    Local mem = sc.local(Tuple::make(ctx, {arr})); Local mod = sc.local(Module::make(ctx, name, mem, tbl)); byte code[40] = {}; HandlerTable::Entry he{0, 1, 2}; Local tmpl = sc.local(CodeFunctionTemplate::make(ctx, name, mod, 1, 2, Span<const HandlerTable::Entry>(&he, 1), Span<const byte>(code, 40))); Local env = sc.local(Environment::make(ctx, 3, {})); env->set(0, *arr); env->set(1, *name); env->set(2, *tup); Local env2 = sc.local(Environment::make(ctx, 1, env)); env2->set(0, mk[1]); Local fn = sc.local(CodeFunction::make(ctx, tmpl, env2));
    Local nat = sc.local(NativeFunction::resumable([](ResumableFrameContext&) {}, 1).name(name).params(1).closure(tup).make(ctx)); Local bound = sc.local(BoundMethod::make(ctx, nat, arr)); Local method = sc.local(Method::make(ctx, nat)); Local msg = sc.local(String::make(ctx, "m")); Local ex = sc.local(Exception::make(ctx, msg)); fill_slots(*ex, mk); Local res = sc.local(Result::make_success(ctx, arr)); Local res2 = sc.local(Result::make_error(ctx, tup)); Local imp = sc.local(UnresolvedImport::make(ctx, name));
    Local st = sc.local(CoroutineStack::make(ctx, CoroutineStack::initial_size)); Local args = sc.local(Tuple::make(ctx, {arr})); Local coro = sc.local(Coroutine::make(ctx, name, fn, args, st)); fill_slots(*coro, mk); Local tok = sc.local(CoroutineToken::make(ctx, coro));
    Local b = sc.local(StringBuilder::make(ctx)); b->append(ctx, "x"); Local sl = sc.local(StringSlice::make(ctx, name, 0, 1)); Local si = sc.local(StringIterator::make(ctx, name)); Local ai = sc.local(ArrayIterator::make(ctx, arr)); Local ti = sc.local(TupleIterator::make(ctx, tup)); Local hi = sc.local(HashTableIterator::make(ctx, tbl)); Local ki = sc.local(HashTableKeyIterator::make(ctx, tbl)); Local vi = sc.local(HashTableValueIterator::make(ctx, tbl)); Local kv = sc.local(HashTableKeyView::make(ctx, tbl)); Local vv = sc.local(HashTableValueView::make(ctx, tbl)); Local seti = sc.local(SetIterator::make(ctx, set)); Local buf = sc.local(Buffer::make(ctx, 100, 0)); Local np = sc.local(NativePointer::make(ctx, &w)); Local mf = sc.local(MagicFunction::make(ctx, MagicFunction::Catch)); Local fl = sc.local(Float::make(ctx, 2)); Local big = sc.local(Tuple::make(ctx, 3000)); big->checked_set(2999, *arr); big->checked_set(0, *tup);
    size_t next = 10; auto fresh = [&] { return mk[next++]; }; // every slot of the stack refers to an object of its own
    // frames of all types, in two orders, with arguments, local variables and values
    u64 order = vk_choice("frames", 0, 2); auto push = [&](Value v) { vk_assert(st->push_value(v), "room"); }; push(fresh());
    for (u64 i = 0; i < 3; i++) { push(fresh()); push(fresh()); u64 kind = (i + order) % 3; bool ok = kind == 0 ? st->push_user_frame(*tmpl, *env2, 0) : kind == 1 ? st->push_resumable_frame(*nat, 1, 0) : st->push_catch_frame(1, 0); vk_assert(ok, "room"); auto f = st->top_frame(); u64 size = kind == 0 ? sizeof(CodeFrame) : kind == 1 ? sizeof(ResumableFrame) : sizeof(CatchFrame); for (u32 k = 0; k < f->locals; k++) *(Value*) ((char*) f + size + 8 * k) = fresh(); if (kind == 2) static_cast<CatchFrame*>(f)->exception = *ex; if (kind == 0) static_cast<CodeFrame*>(f)->current_exception = *ex; push(fresh()); push(fresh()); }
    u64 seen[64] = {}, types = 0; Heap& h = ctx.heap(); std::vector<Value> all; for (auto p : h.pages_) for (u32 i = 0; i < h.layout().cells_size; i++) if (p->is_allocated_block_start(i)) { u64 a = (u64) p->cell(i); Value v; memcpy((void*) &v, &a, 8); all.push_back(v); } for (auto l : h.lobs_) { u64 a = (u64) l->cell(); Value v; memcpy((void*) &v, &a, 8); all.push_back(v); }
    for (auto v : all) { if (order && !v.is<CoroutineStack>()) continue; if (!seen[(u64) v.type() & 63]++) types++; check_object(ctx, v); } if (!order && types >= 40) vk_cover("all types"); if (!order) vk_print("types", types);
}
// ------------------------------------------------------------------ roots
VK_CONTRACT(gc_roots, "P08", "bounded: a context with all of its roots set", "RootSet::trace, TypeSystem::trace, ModuleRegistry::trace, Interpreter::trace, BytecodeInterpreter::trace, Registers::trace, RootedStack::trace, ExternalStorage::trace", "exactly the values stored in a context are roots: constants, the ready queue, interned strings, types, modules, the interpreter's registers and current coroutine, locals and externals") {
    alignas(GcWorld) char memory[sizeof(GcWorld)]; memset(memory, 0, sizeof(memory)); struct Owner { GcWorld* w; ~Owner() { w->~GcWorld(); } } owner{new (memory) GcWorld()}; auto& w = *owner.w; auto& ctx = w.ctx; auto& sc = w.sc; std::vector<Value> mk; { for (int i = 0; i < 12; i++) mk.push_back(HeapInteger::make(ctx, 2000 + i)); }
    Value cv; { Scope s2(ctx); Local name = s2.local(String::make(ctx, "n")); Local fn = s2.local(); Local st = s2.local(CoroutineStack::make(ctx, CoroutineStack::initial_size)); Local c = s2.local(Coroutine::make(ctx, name, fn, {}, st)); cv = *c; }
    Value lv = mk[0]; Local l = sc.local(mk[1]); auto e = ctx.externals().allocate(mk[2]); auto& in = ctx.interpreter(); auto& regs = in.regs_; u64 n = vk_choice("registers", 0, 16); std::vector<Value> used; for (u64 i = 0; i < n; i++) { auto m = regs.alloc(); m.set(mk[3 + i % 4]); } (void) lv;
    in.current_ = cv.must_cast<Coroutine>(); auto fr = ctx.roots_.get_first_ready(); fr.set(Nullable<Coroutine>(cv.must_cast<Coroutine>())); auto lr = ctx.roots_.get_last_ready(); lr.set(Nullable<Coroutine>(cv.must_cast<Coroutine>()));
    Heap& h = ctx.heap(); std::vector<u64> want, got; scan(h, &ctx.roots_, sizeof(RootSet), want); want.push_back(raw(mk[1])); want.push_back(raw(mk[2]));
    g.mode = RECORD; g.marked = &got; auto& c = h.collector(); c.running_ = true; c.trace(ctx.roots_); c.running_ = false; g.mode = OFF; regs.reset(); in.current_ = Nullable<Coroutine>(); fr.set(Nullable<Coroutine>()); lr.set(Nullable<Coroutine>()); ctx.externals().free(e);
    sort(want); sort(got); vk_assert(want.size() > 40, "types, constants, ..."); for (u64 x : want) vk_assert(std::binary_search(got.begin(), got.end(), x), "every stored value is a root"); for (u64 x : got) vk_assert(std::binary_search(want.begin(), want.end(), x), "nothing else is a root"); vk_assert(n == 0 || std::binary_search(got.begin(), got.end(), raw(mk[3])), "registers in use are roots"); vk_assert(n >= 2 || !std::binary_search(got.begin(), got.end(), raw(mk[4])), "registers not in use are none");
}
// ------------------------------------------------------------------ collections
namespace {
int g_final[4]; tiro_native_type_t g_type;
void on_final(void* data, size_t) { g_final[*(int*) data & 3]++; }
}
// vk-covers: gc_graph released, kept, large, finalized
VK_CONTRACT(gc_graph, "P08", "bounded: all graphs of 3 objects (2 and 1 references, one native object; one of them possibly large), all sets of roots, two collections", "Collector::collect, trace, mark, sweep, Heap::sweep, Page::sweep, invoke_finalizers, LargeObject::invoke_finalizer, finalize, NativeObject::finalize", "exactly the objects reachable from the roots are kept, unchanged and unmarked; the others are released, and the finalizer of a native object runs exactly once, when it is released") {
    GcWorld w; auto& ctx = w.ctx; Heap& h = ctx.heap(); for (int& f : g_final) f = 0; g_type.name = {"t", 1}; g_type.alignment = 8; g_type.finalizer = on_final; std::vector<u64> obj; g.fresh = &obj; bool large = vk_choice("large", 0, 1) == 1; const_cast<PageLayout&>(h.layout_).large_object_cells = 8;
    u64 e0 = vk_choice("reference", 0, 3), e1 = vk_choice("reference", 0, 3), e2 = vk_choice("reference", 0, 3), roots = vk_choice("roots", 0, 7); Value n[3]; { Scope s2(ctx); Local a = s2.local(Tuple::make(ctx, 2)); Local b = s2.local(Tuple::make(ctx, large ? 40 : 1)); Local c = s2.local(NativeObject::make(ctx, &g_type, large ? 300 : 8)); *(int*) c->data() = 2; n[0] = *a; n[1] = *b; n[2] = *c; auto pick = [&](u64 e) { return e ? n[e - 1] : Value::null(); }; a->checked_set(0, pick(e0)); a->checked_set(1, pick(e1)); b->checked_set(0, pick(e2)); }
    for (auto v : n) obj.push_back(raw(v)); bool alive[3] = {true, true, true}; Local r0 = w.sc.local<Value>(); Local r1 = w.sc.local<Value>(); auto ext = ctx.externals().allocate(Value::null()); if (roots & 1) r0.set(n[0]); if (roots & 2) r1.set(n[1]); if (roots & 4) ext.set(n[2]); u64 e[3][2] = {{e0, e1}, {e2, 0}, {0, 0}};
    for (int round = 0; round < 2; round++) {
        bool reach[3] = {(roots & 1) != 0, (roots & 2) != 0, (roots & 4) != 0}; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) if (reach[i]) for (u64 x : e[i]) if (x) reach[x - 1] = true;
        g.mode = PREMARK; h.collector().collect(GcReason::Forced); g.mode = OFF; vk_assert(!h.collector().running() && h.collector().to_trace_.empty(), "the collector is done");
        for (int i = 0; i < 3; i++) { bool lobs = false; for (auto l : h.lobs_) if ((u64) l->cell() == raw(n[i])) { lobs = true; vk_assert(!l->is_marked(), "unmarked"); } bool is = is_object(h, raw(n[i])); if (!alive[i]) continue; vk_assert(is == reach[i], "exactly the reachable objects are kept"); if (!is) { vk_cover("released"); obj.erase(std::find(obj.begin(), obj.end(), raw(n[i]))); alive[i] = false; continue; } vk_cover("kept"); if (lobs) vk_cover("large"); else { auto p = Page::from_address((void*) raw(n[i]), h.layout()); vk_assert(!p->is_cell_marked(p->cell_index((void*) raw(n[i]))), "unmarked"); } }
        auto is = [&](Value v, u64 x) { return x ? raw(v) == raw(n[x - 1]) : v.is_null(); }; if (alive[0]) { auto t = n[0].must_cast<Tuple>(); vk_assert(t.size() == 2 && is(t.checked_get(0), e0) && is(t.checked_get(1), e1), "unchanged"); } if (alive[1]) { auto t = n[1].must_cast<Tuple>(); vk_assert(t.size() == (large ? 40 : 1) && is(t.checked_get(0), e2), "unchanged"); } if (alive[2]) vk_assert(*(int*) n[2].must_cast<NativeObject>().data() == 2, "unchanged");
        vk_assert(g_final[2] == !alive[2] && g_final[0] + g_final[1] + g_final[3] == 0, "the finalizer runs once, when the object is released"); if (g_final[2]) vk_cover("finalized");
        if (round == 0) { r0.set(Value::null()); roots &= 6; }
    }
    ctx.externals().free(ext);
}
// vk-covers: gc_shutdown done
VK_CONTRACT(gc_shutdown, "P08", "bounded: native objects on the first, second and third page and in large chunks", "Heap::~Heap, Page::invoke_finalizers, LargeObject::invoke_finalizer, Page::destroy, LargeObject::destroy", "when a vm ends the finalizers of all native objects that were not released earlier run exactly once, before any memory is returned") {
    for (int& f : g_final) f = 0; g_type.name = {"t", 1}; g_type.alignment = 8; g_type.finalizer = on_final; u64 kinds = vk_choice("objects", 0, 7); bool early = vk_choice("collected", 0, 1) == 1;
    { GcWorld w; auto& ctx = w.ctx; Heap& h = ctx.heap(); Local keep = w.sc.local(Array::make(ctx)); auto native = [&](size_t size, int id) { Local o = w.sc.local(NativeObject::make(ctx, &g_type, size)); *(int*) o->data() = id; };
        if (kinds & 1) native(8, 0); for (u64 page = h.pages_.size(); h.pages_.size() == page;) { Local x = w.sc.local(Tuple::make(ctx, 500)); } if (kinds & 2) native(8, 1); if (kinds & 4) native(20000, 2);
        if (early) { Value v; { Scope s2(ctx); Local o = s2.local(NativeObject::make(ctx, &g_type, 8)); *(int*) o->data() = 3; v = *o; } std::vector<u64> obj{raw(v)}; g.fresh = &obj; g.mode = PREMARK; h.collector().collect(GcReason::Forced); g.mode = OFF; vk_assert(g_final[3] == 1, "released"); } }
    vk_assert(g_final[0] == (int) (kinds & 1) && g_final[1] == (int) (kinds >> 1 & 1) && g_final[2] == (int) (kinds >> 2 & 1) && g_final[3] == early, "every finalizer runs exactly once"); vk_cover("done");
}
