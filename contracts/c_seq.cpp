// Contracts of arrays, tuples, records and buffers, for every size: the object under test is laid out by
// hand over an unbounded symbolic memory block, with a header copied from a real object of the same type.
#include "vm_harness.hpp"
#include "vm/type_system.hpp"
using namespace vk;
extern "C" vk_replacement vk_replacements_seq[];
vk_replacement vk_replacements_seq[] = { VK_VM_REPLACEMENTS };

static u64 bits(Value v) { u64 b; memcpy(&b, &v, 8); return b; }
static Value of_bits(u64 b) { Value v = Value::null(); memcpy(&v, &b, 8); return v; }
// A value for a slot: natively a real value, symbolically any bit pattern of a small integer.
static Value any_slot(const char* n) { return SmallInteger::make((i64) (vk_u64(n) >> 3)); }

// An ArrayStorage with n of cap slots in use; mem[3 ..] are the slots.
struct Storage { ArrayStorage s; u64* mem; u64 n, cap; };
static constexpr u64 MAXN = (u64) 1 << 40;
static Storage any_storage(World& w, bool concrete_cap = false) {
    u64 cap = vk_range("capacity", 1, vk_symbolic() ? MAXN : 40);
    u64 n = vk_range("size", 0, vk_symbolic() ? MAXN : 40);
    vk_assume(n <= cap);
    u64* mem = (u64*) vk_array("slots", cap + 3, 8);
    ArrayStorage proto = ArrayStorage::make(w.ctx, 1);
    static_assert(sizeof(ArrayStorage::Layout) == 24);
    memcpy(mem, proto.layout(), 24);
    mem[1] = n; mem[2] = cap;
    if (!vk_symbolic()) for (u64 i = 0; i < cap; i++) mem[3 + i] = bits(SmallInteger::make((i64) i * 7));
    return {ArrayStorage(HeapValue(Value::from_heap((Header*) mem))), mem, n, cap};
}
static Array array_over(World& w, ArrayStorage s) {
    Array a = Array::make(w.ctx);
    a.set_storage(s);
    return a;
}
// An index operand: an integer in either representation, or something else.
static Value any_index(World& w, i64 i, bool& is_int) {
    u64 kind = vk_choice("index kind", 0, 4);
    is_int = kind <= 1;
    if (kind == 0) return w.integer(i);
    if (kind == 1) return w.heap_integer(i);
    if (kind == 2) return w.flt(1.0);
    if (kind == 3) return Value::null();
    return w.ctx.get_interned_string("1");
}

// vk-covers: array_load element, out of bounds, not an integer
VK_CONTRACT(array_load, "P05", "proof", "TypeSystem::load_index, check_index, Array::unchecked_get, ArrayStorageBase::get", "for every size and index: a[i] is the element at i or an exception; the array is unchanged") {
    World w;
    Storage s = any_storage(w);
    Local a = w.sc.local<Value>(array_over(w, s.s));
    i64 i = vk_i64("index"); bool is_int;
    Local idx = w.sc.local(any_index(w, i, is_int));
    bool ok = is_int && i >= 0 && (u64) i < s.n;
    u64 expect = ok ? s.mem[3 + (u64) i] : 0;
    auto r = w.ctx.types().load_index(w.ctx, a, idx);
    vk_assert(r.has_exception() == !ok, "reading raises exactly outside the bounds");
    if (ok) { vk_assert(bits(r.value()) == expect, "reading yields the element at the index"); vk_cover("element"); }
    else if (is_int) vk_cover("out of bounds"); else vk_cover("not an integer");
    vk_assert(s.mem[1] == s.n && s.mem[2] == s.cap, "reading changes nothing");
}
// vk-covers: array_store stored, refused
VK_CONTRACT(array_store, "P05", "proof", "TypeSystem::store_index, check_index, Array::unchecked_set, ArrayStorageBase::set", "for every size and index: a[i] = v changes exactly element i or raises and changes nothing") {
    World w;
    Storage s = any_storage(w);
    Local a = w.sc.local<Value>(array_over(w, s.s));
    i64 i = vk_i64("index"); bool is_int;
    Local idx = w.sc.local(any_index(w, i, is_int));
    Local v = w.sc.local(any_slot("value"));
    bool ok = is_int && i >= 0 && (u64) i < s.n;
    u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.cap && !(ok && j == (u64) i));
    u64 before = s.mem[3 + j];
    auto r = w.ctx.types().store_index(w.ctx, a, idx, v);
    vk_assert(r.has_exception() == !ok, "writing raises exactly outside the bounds");
    if (ok) { vk_assert(s.mem[3 + (u64) i] == bits(*v), "the element at the index is the value written"); vk_cover("stored"); } else vk_cover("refused");
    vk_assert(s.mem[3 + j] == before, "writing changes no other element");
    vk_assert(s.mem[1] == s.n && s.mem[2] == s.cap, "writing does not change the size");
}
// vk-covers: array_checked in, out
VK_CONTRACT(array_checked, "P05", "proof", "Array::checked_get, Array::checked_set, Array::size, Array::capacity, Array::values", "checked access fails exactly outside the bounds") {
    World w;
    Storage s = any_storage(w);
    Array a = array_over(w, s.s);
    u64 i = vk_u64("index");
    vk_assert(a.size() == s.n && a.capacity() == s.cap && a.values().size() == s.n, "size and capacity");
    vk_assert((u64*) a.data() == s.mem + 3, "the elements start at the first slot");
    bool ok = i < s.n, raised = false; u64 got = 0;
    try { got = bits(a.checked_get(i)); } catch (const tiro::Error&) { raised = true; }
    vk_assert(raised == !ok, "checked_get fails exactly outside the bounds");
    if (ok) { vk_assert(got == s.mem[3 + i], "checked_get yields the element"); vk_cover("in"); } else vk_cover("out");
    Value v = any_slot("value"); raised = false;
    u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.cap && j != i);
    u64 before = s.mem[3 + j];
    try { a.checked_set(i, v); } catch (const tiro::Error&) { raised = true; }
    vk_assert(raised == !ok, "checked_set fails exactly outside the bounds");
    if (ok) vk_assert(s.mem[3 + i] == bits(v), "checked_set stores the value");
    vk_assert(s.mem[3 + j] == before && s.mem[1] == s.n, "checked_set changes nothing else");
}
// vk-covers: array_append_fast appended
VK_CONTRACT(array_append_fast, "P05", "proof", "Array::append, Array::try_append, ArrayStorageBase::append, DynamicSlotsLayout::add_dynamic_slot", "appending to an array of any size with room adds exactly one element at the end") {
    World w;
    Storage s = any_storage(w);
    vk_assume(s.n < s.cap);
    Array a = array_over(w, s.s);
    Local la = w.sc.local(a);
    Local v = w.sc.local(any_slot("value"));
    u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.n);
    u64 before = s.mem[3 + j];
    auto r = la->append(w.ctx, v);
    vk_assert(!r.has_exception(), "appending succeeds");
    vk_assert(la->size() == s.n + 1, "the size grows by one");
    vk_assert(bits(la->unchecked_get(s.n)) == bits(*v), "the new element is the last");
    vk_assert(bits(la->unchecked_get(j)) == before, "all other elements are kept");
    vk_cover("appended");
}
// vk-covers: array_remove removed, empty
VK_CONTRACT(array_remove, "P05", "proof", "Array::remove_last, Array::clear", "remove_last drops exactly the last element; clear drops all") {
    World w;
    Storage s = any_storage(w);
    Array a = array_over(w, s.s);
    if (s.n > 0) {
        u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.n - 1);
        u64 before = s.mem[3 + j];
        a.remove_last();
        vk_assert(a.size() == s.n - 1 && a.capacity() == s.cap, "the size shrinks by one");
        vk_assert(bits(a.unchecked_get(j)) == before, "the other elements are kept");
        vk_cover("removed");
    } else vk_cover("empty");
    a.clear();
    vk_assert(a.size() == 0 && a.capacity() == s.cap, "clear empties the array");
}
// vk-covers: array_iter more, end
VK_CONTRACT(array_iter, "P05", "proof", "ArrayIterator::next", "an iterator at any position yields the element there and advances by one, or ends") {
    World w;
    Storage s = any_storage(w);
    Local a = w.sc.local(array_over(w, s.s));
    Local it = w.sc.local(ArrayIterator::make(w.ctx, a));
    vk_assert(it->layout()->static_payload()->index == 0, "iteration starts at the first element");
    u64 i = vk_range("position", 0, MAXN);
    it->layout()->static_payload()->index = i;
    auto r = it->next();
    vk_assert(r.has_value() == (i < s.n), "iteration ends after the last element");
    if (r) { vk_assert(bits(*r) == s.mem[3 + i], "iteration yields the element at its position"); vk_assert(it->layout()->static_payload()->index == i + 1, "iteration advances by one"); vk_cover("more"); } else vk_cover("end");
}
// vk-covers: array_next_capacity small, large
VK_CONTRACT(array_next_capacity, "P05", "proof", "Array::next_capacity, ceil_pow2_fast", "the next capacity is never below the required one") {
    u64 n = vk_u64("required");
    u64 c = Array::next_capacity(n);
    vk_assert(c >= n, "the capacity is at least the required one");
    if (n <= 8) vk_cover("small"); else vk_cover("large");
}
static void grow_contract(u64 lo, u64 hi) {
    World w;
    u64 n = vk_choice("size", lo, hi);
    Local a = w.sc.local(Array::make(w.ctx, n)); // full after n appends
    Local v = w.sc.local<Value>(Value::null());
    u64 e[80];
    for (u64 i = 0; i < n; i++) { v = any_slot("element"); e[i] = bits(*v); vk_assert(!a->append(w.ctx, v).has_exception(), "appending succeeds"); }
    vk_assert(a->size() == n && a->capacity() == n, "the array is full");
    for (u64 k = 0; k < 3; k++) {
        v = any_slot("new element"); e[n + k] = bits(*v);
        vk_assert(!a->append(w.ctx, v).has_exception(), "appending succeeds");
        vk_assert(a->size() == n + k + 1, "the size grows by one");
        vk_assert(a->capacity() >= a->size(), "there is room for all elements");
        for (u64 i = 0; i <= n + k; i++) vk_assert(bits(a->unchecked_get(i)) == e[i], "growing keeps every element");
    }
    a->remove_last(); 
    vk_assert(a->size() == n + 2, "the size shrinks by one");
    for (u64 i = 0; i < n + 2; i++) vk_assert(bits(a->unchecked_get(i)) == e[i], "removing keeps the other elements");
    Local it = w.sc.local(ArrayIterator::make(w.ctx, a));
    for (u64 i = 0; i < n + 2; i++) { auto r = it->next(); vk_assert(r && bits(*r) == e[i], "iteration visits every element in order"); }
    vk_assert(!it->next(), "iteration ends after the last element");
}
VK_CONTRACT(array_grow, "P05", "bounded: arrays of up to 40 elements when they grow", "Array::append, Array::try_append, Array::make, ArrayStorageBase::append_all, ArrayIterator::next", "growing keeps every element; all element values") { grow_contract(0, 40); }
VK_CONTRACT(array_grow_64, "P05", "bounded: arrays of 62 to 66 elements when they grow", "Array::append, Array::try_append, ArrayStorageBase::append_all", "growing keeps every element; all element values") { grow_contract(62, 66); }
static void span_values(World& w, LocalArray<Value>& l, u64* e, u64 n) { for (u64 i = 0; i < n; i++) { Value v = any_slot("element"); e[i] = bits(v); l[i].set(v); } }
VK_CONTRACT(seq_make, "P05", "bounded: up to 6 initial elements", "Array::make, Tuple::make", "arrays and tuples made from values hold exactly these values") {
    World w;
    u64 n = vk_choice("size", 0, 6), extra = vk_choice("extra", 0, 2);
    LocalArray<Value> l = w.sc.array<Value>(n, Value::null());
    u64 e[8];
    span_values(w, l, e, n);
    Local a = w.sc.local(Array::make(w.ctx, HandleSpan<Value>(l)));
    Local t = w.sc.local(Tuple::make(w.ctx, HandleSpan<Value>(l)));
    Local t2 = w.sc.local(Tuple::make(w.ctx, HandleSpan<Value>(l), n + extra));
    Local t3 = w.sc.local(Tuple::make(w.ctx, n));
    vk_assert(a->size() == n && t->size() == n && t2->size() == n + extra && t3->size() == n, "sizes");
    for (u64 i = 0; i < n; i++) {
        vk_assert(bits(a->unchecked_get(i)) == e[i] && bits(t->unchecked_get(i)) == e[i] && bits(t2->unchecked_get(i)) == e[i], "elements");
        vk_assert(t3->unchecked_get(i).is_null(), "elements start as null");
    }
    for (u64 i = n; i < n + extra; i++) vk_assert(t2->unchecked_get(i).is_null(), "additional elements are null");
}

// ---------------------------------------------------------------- tuples
struct Tup { Tuple t; u64* mem; u64 n; };
static Tup any_tuple(World& w) {
    u64 n = vk_range("size", 0, vk_symbolic() ? MAXN : 40);
    u64* mem = (u64*) vk_array("slots", n + 2, 8);
    Tuple proto = Tuple::make(w.ctx, 1);
    static_assert(sizeof(Tuple::Layout) == 16);
    memcpy(mem, proto.layout(), 16);
    mem[1] = n;
    if (!vk_symbolic()) for (u64 i = 0; i < n; i++) mem[2 + i] = bits(SmallInteger::make((i64) i * 7));
    return {Tuple(HeapValue(Value::from_heap((Header*) mem))), mem, n};
}
// vk-covers: tuple_access read, refused
VK_CONTRACT(tuple_access, "P05", "proof", "TypeSystem::load_index, TypeSystem::store_index, Tuple::unchecked_get, Tuple::unchecked_set, Tuple::size", "for every size and index: reading and writing a tuple element, or an exception and no change") {
    World w;
    Tup s = any_tuple(w);
    Local t = w.sc.local<Value>(s.t);
    i64 i = vk_i64("index"); bool is_int;
    Local idx = w.sc.local(any_index(w, i, is_int));
    Local v = w.sc.local(any_slot("value"));
    bool ok = is_int && i >= 0 && (u64) i < s.n;
    u64 expect = ok ? s.mem[2 + (u64) i] : 0;
    auto r = w.ctx.types().load_index(w.ctx, t, idx);
    vk_assert(r.has_exception() == !ok, "reading raises exactly outside the bounds");
    if (ok) { vk_assert(bits(r.value()) == expect, "reading yields the element at the index"); vk_cover("read"); } else vk_cover("refused");
    auto r2 = w.ctx.types().store_index(w.ctx, t, idx, v);
    vk_assert(r2.has_exception() == !ok, "writing raises exactly outside the bounds");
    if (ok) vk_assert(s.mem[2 + (u64) i] == bits(*v), "the element at the index is the value written");
    vk_assert(s.mem[1] == s.n && s.t.size() == s.n, "the size of a tuple never changes");
}
VK_CONTRACT(tuple_frame, "P05", "proof", "TypeSystem::store_index, Tuple::checked_get, Tuple::checked_set", "writing a tuple element changes no other element; checked access fails exactly outside the bounds") {
    World w;
    Tup s = any_tuple(w);
    u64 i = vk_u64("index");
    Value v = any_slot("value");
    u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.n && j != i);
    u64 before = s.mem[2 + j]; bool raised = false; u64 got = 0;
    u64 expect = i < s.n ? s.mem[2 + i] : 0;
    try { got = bits(s.t.checked_get(i)); } catch (const tiro::Error&) { raised = true; }
    vk_assert(raised == (i >= s.n) && (raised || got == expect), "checked_get yields the element or fails outside the bounds");
    raised = false;
    try { s.t.checked_set(i, v); } catch (const tiro::Error&) { raised = true; }
    vk_assert(raised == (i >= s.n), "checked_set fails exactly outside the bounds");
    if (i < s.n) vk_assert(s.mem[2 + i] == bits(v), "checked_set stores the value");
    vk_assert(s.mem[2 + j] == before && s.mem[1] == s.n, "no other element changes");
}
// vk-covers: tuple_iter more, end
VK_CONTRACT(tuple_iter, "P05", "proof", "TupleIterator::next", "an iterator at any position yields the element there and advances by one, or ends") {
    World w;
    Tup s = any_tuple(w);
    Local t = w.sc.local(s.t);
    Local it = w.sc.local(TupleIterator::make(w.ctx, t));
    u64 i = vk_range("position", 0, MAXN);
    vk_assert(it->layout()->static_payload()->index == 0, "iteration starts at the first element");
    it->layout()->static_payload()->index = i;
    auto r = it->next();
    vk_assert(r.has_value() == (i < s.n), "iteration ends after the last element");
    if (r) { vk_assert(bits(*r) == s.mem[2 + i] && it->layout()->static_payload()->index == i + 1, "iteration yields the element at its position and advances"); vk_cover("more"); } else vk_cover("end");
}
// ---------------------------------------------------------------- buffers
struct Buf { Buffer b; byte* data; u64 n; };
static Buf any_buffer(World& w) {
    u64 n = vk_range("size", 0, vk_symbolic() ? MAXN : 64);
    byte* mem = (byte*) vk_array("bytes", n + 16, 1);
    Buffer proto = Buffer::make(w.ctx, 1, byte(0));
    static_assert(sizeof(Buffer::Layout) == 16);
    memcpy(mem, proto.layout(), 16);
    memcpy(mem + 8, &n, 8);
    Buffer b(HeapValue(Value::from_heap((Header*) mem)));
    return {b, mem + 16, n};
}
// vk-covers: buffer_load read, refused
VK_CONTRACT(buffer_load, "P05", "proof", "TypeSystem::load_index, Buffer::get, Buffer::size, Buffer::data", "for every size and index: reading a byte of a buffer yields that byte as an integer in 0 .. 255, or an exception") {
    World w;
    Buf s = any_buffer(w);
    vk_assert(s.b.size() == s.n && s.b.data() == s.data && s.b.values().size() == s.n, "size and data");
    Local b = w.sc.local<Value>(s.b);
    i64 i = vk_i64("index"); bool is_int;
    Local idx = w.sc.local(any_index(w, i, is_int));
    bool ok = is_int && i >= 0 && (u64) i < s.n;
    byte expect = ok ? s.data[i] : 0;
    auto r = w.ctx.types().load_index(w.ctx, b, idx);
    vk_assert(r.has_exception() == !ok, "reading raises exactly outside the bounds");
    if (ok) { auto x = Integer::try_extract(r.value()); vk_assert(x.has_value() && *x == (i64) expect, "reading yields the byte at the index"); vk_cover("read"); } else vk_cover("refused");
}
// vk-covers: buffer_store stored, refused
VK_CONTRACT(buffer_store, "P05", "proof", "TypeSystem::store_index, Buffer::set", "for every size, index and value: writing a byte changes exactly that byte, or raises and changes nothing") {
    World w;
    Buf s = any_buffer(w);
    Local b = w.sc.local<Value>(s.b);
    i64 i = vk_i64("index"), x = vk_i64("value"); bool is_int, val_int;
    Local idx = w.sc.local(any_index(w, i, is_int));
    Local v = w.sc.local(any_index(w, x, val_int));
    bool ok = is_int && i >= 0 && (u64) i < s.n && val_int && x >= 0 && x <= 255;
    u64 j = vk_range("other", 0, MAXN); vk_assume(j < s.n && !(ok && j == (u64) i));
    byte before = s.data[j];
    auto r = w.ctx.types().store_index(w.ctx, b, idx, v);
    vk_assert(r.has_exception() == !ok, "writing raises exactly for a bad index or value");
    if (ok) { vk_assert(s.data[i] == (byte) x, "the byte at the index is the value written"); vk_cover("stored"); } else vk_cover("refused");
    vk_assert(s.data[j] == before && s.b.size() == s.n, "no other byte changes");
}
VK_CONTRACT(buffer_make, "P05", "bounded: up to 40 bytes", "Buffer::make", "a new buffer has the requested size and contents") {
    World w;
    u64 n = vk_choice("content", 0, 9), extra = vk_choice("extra", 0, 3) * 9;
    byte content[16]; for (u64 i = 0; i < n; i++) content[i] = vk_u8("byte");
    byte def = vk_u8("default");
    Local b = w.sc.local(Buffer::make(w.ctx, Span<const byte>(content, n), n + extra, def));
    Local c = w.sc.local(Buffer::make(w.ctx, n + extra, def));
    vk_assert(b->size() == n + extra && c->size() == n + extra, "size");
    for (u64 i = 0; i < n + extra; i++) { vk_assert(b->get(i) == (i < n ? content[i] : def), "initial contents"); vk_assert(c->get(i) == def, "default value"); }
}
// ---------------------------------------------------------------- records
static const char* const names[] = {"a", "bb", "name", "value", "x0", "x1", "x2", "x3", "x4", "long_property_name"};
// vk-covers: record_access found, missing
VK_CONTRACT(record_access, "P05", "bounded: records of up to 7 of 10 property names", "Record::make, Record::get, Record::set, Record::keys, RecordSchema::make, RecordSchema::index_of, TypeSystem::load_member, TypeSystem::store_member", "a property is read back as last written; writing one property changes no other; unknown names raise") {
    World w;
    u64 n = vk_choice("properties", 0, 7);
    Local keys = w.sc.local(Array::make(w.ctx));
    Local sym = w.sc.local<Value>(Value::null());
    for (u64 i = 0; i < n; i++) { sym = w.ctx.get_symbol(names[i]); keys->append(w.ctx, sym).must("append"); }
    Local rec = w.sc.local(Record::make(w.ctx, keys));
    Local schema = w.sc.local(rec->schema());
    Local other = w.sc.local(Record::make(w.ctx, schema)); // shares the schema, not the values
    Local v = w.sc.local<Value>(Value::null());
    u64 e[8];
    for (u64 i = 0; i < n; i++) {
        auto g = rec->get(w.ctx.get_symbol(names[i]));
        vk_assert(g && g->is_null(), "properties start as null");
        v = any_slot("value"); e[i] = bits(*v);
        vk_assert(rec->set(w.ctx.get_symbol(names[i]), *v), "writing a property succeeds");
    }
    u64 k = vk_choice("name", 0, 9);
    Local name = w.sc.local(w.ctx.get_symbol(names[k]));
    Local obj = w.sc.local<Value>(*rec);
    auto r = w.ctx.types().load_member(w.ctx, obj, name);
    vk_assert(r.has_exception() == (k >= n), "reading raises exactly for unknown names");
    if (k < n) { vk_assert(bits(r.value()) == e[k], "reading yields the value last written"); vk_cover("found"); } else vk_cover("missing");
    v = any_slot("new value");
    auto r2 = w.ctx.types().store_member(w.ctx, obj, name, v);
    vk_assert(r2.has_exception() == (k >= n), "writing raises exactly for unknown names");
    if (k < n) e[k] = bits(*v);
    for (u64 i = 0; i < n; i++) {
        auto g = rec->get(w.ctx.get_symbol(names[i]));
        vk_assert(g && bits(*g) == e[i], "writing changes exactly one property");
        auto o = other->get(w.ctx.get_symbol(names[i]));
        vk_assert(o && o->is_null(), "writing changes no other record");
    }
    Local ks = w.sc.local(Record::keys(w.ctx, rec));
    vk_assert(ks->size() == n, "keys yields every property");
    for (u64 i = 0; i < n; i++) vk_assert(ks->unchecked_get(i).same(w.ctx.get_symbol(names[i])), "keys are in declaration order");
}
