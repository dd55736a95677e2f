// Contracts of the hash table (src/vm/objects/hash_table.cpp).
//
// The representation invariant of a table is stated over the real index and entry arrays (check_valid).
// Each operation is run on a table in an arbitrary state that satisfies the invariant - any occupancy, any
// pattern of deleted entries, any hash values, any placement - and must re-establish the invariant and
// implement the map operation, so the result carries over to all operation histories at this table size.
#include "vm_harness.hpp"
#include <vector>
using namespace vk;
namespace {
constexpr u64 NB = 8, NE = 6; // index and entry capacity of the first table size
constexpr u64 MAXK = 640;
struct Keys { u64 h[MAXK]; i64 k[MAXK]; u64 n; } K; // hash and integer of each abstract key
}
// contract of vm::hash: some fixed value for every key (keys are pairwise different here)
static size_t stub_hash(Value v) {
    if (v.is<Symbol>()) return v.must_cast<Symbol>().name().hash();
    if (v.is<String>()) return v.must_cast<String>().hash(); // names interned by the context
    i64 k = v.must_cast<Integer>().value();
    if ((u64) k < K.n && K.k[k] == k) return K.h[k];
    for (u64 i = 0; i < K.n; i++) if (K.k[i] == k) return K.h[i];
    vk_fail("hash of a value that is no key");
}
extern "C" vk_replacement vk_replacements_table[];
vk_replacement vk_replacements_table[] = { VK_VM_REPLACEMENTS, { "tiro::vm::hash(", (void*) stub_hash } };

// Declares key i with an arbitrary hash. Natively the key is an integer whose real hash has the wanted low bits.
static void make_key(u64 i, u64 h) {
    if (vk_symbolic()) { K.k[i] = (i64) i; K.h[i] = h; }
    else {
        i64 k = (i64) i * 1000000;
        while ((vm::hash(SmallInteger::make(k)) & 63) != (h & 63)) k++;
        K.k[i] = k; K.h[i] = vm::hash(SmallInteger::make(k));
    }
    if (K.n <= i) K.n = i + 1;
}
static Value key(u64 i) { return SmallInteger::make(K.k[i]); }
static u64 mhash(u64 i) { u64 h = K.h[i]; return vk_ite64(h == (u64) -1, 0, h); }

struct Tab {
    HashTable t;
    explicit Tab(HashTable table) : t(table) {}
    u64 occ = 0;              // entries in use, including deleted ones
    u64 del[NE] = {}, pos[NE] = {};
    i64 val[NE] = {};
    u64 live = 0;
};
static HashTable::Layout* L(HashTable t) { return t.layout(); }
static u64 occupied(HashTable t) { auto e = t.get_entries(L(t)); return e.has_value() ? e.value().size() : 0; }
static HashTableEntry entry(HashTable t, u64 i) { return t.get_entries(L(t)).value().get(i); }
static u64 raw_hash(HashTable t, u64 i) { u64 h; const HashTableEntry& e = t.get_entries(L(t)).value().data()[i]; memcpy(&h, &e, 8); return h; }
static u8 bucket(HashTable t, u64 b) { return t.get_index(L(t)).value().values()[b]; }

// The representation invariant, checked on the memory of the table.
static bool valid(HashTable t) {
    u64 nb = L(t)->static_payload()->mask + 1, occ = occupied(t);
    bool ok = t.get_index(L(t)).value().size() == nb;
    ok = vk_and(ok, occ <= nb - nb / 4);
    u64 live = 0;
    u64 h[16], dead[16], refs[16];
    for (u64 i = 0; i < occ; i++) { h[i] = raw_hash(t, i); dead[i] = vk_ite64(h[i] == (u64) -1, 1, 0); live += 1 - dead[i]; refs[i] = 0; }
    u64 dist[16], used[16];
    for (u64 b = 0; b < nb; b++) {
        u64 x = bucket(t, b), hx = 0, known = 0;
        used[b] = vk_ite64(x != 0xff, 1, 0);
        for (u64 i = 0; i < occ; i++) {
            u64 hit = vk_ite64(x == i, 1, 0);
            hx = vk_ite64(hit, h[i], hx);
            known |= hit & (1 - dead[i]);
            refs[i] += hit;
        }
        ok = vk_and(ok, used[b] == known); // every used bucket refers to a live entry
        dist[b] = (b - hx) & (nb - 1);
    }
    for (u64 b = 0; b < nb; b++) { // probe runs have no gaps and are ordered by distance
        u64 p = (b + nb - 1) & (nb - 1);
        ok = vk_and(ok, vk_or(vk_or(used[b] == 0, dist[b] == 0), vk_and(used[p] == 1, dist[p] + 1 >= dist[b])));
    }
    for (u64 i = 0; i < occ; i++) ok = vk_and(ok, refs[i] == 1 - dead[i]); // every live entry is found in exactly one bucket
    ok = vk_and(ok, L(t)->static_payload()->size == live);
    return vk_and(ok, vk_or(live != 0, occ == 0));
}
// A table with occ entries in an arbitrary valid state; key i belongs to entry i.
static Tab any_table(World& w, u64 occ, bool holes = true) {
    Tab r(HashTable::make(w.ctx));
    r.occ = occ;
    Local rooted = w.sc.local(r.t);
    r.t.init_first(L(r.t), w.ctx);
    auto entries = r.t.get_entries(L(r.t)).value();
    for (u64 i = 0; i < occ; i++) {
        make_key(i, vk_nondet("hash", 6));
        r.del[i] = holes ? vk_choice("deleted", 0, 1) : 0;
        r.pos[i] = vk_range("bucket", 0, NB - 1);
        r.val[i] = (i64) vk_range("value", 0, 1 << 20);
        r.live += 1 - r.del[i];
        HashTableEntry e(HashTableEntry::Hash{0}, key(i), SmallInteger::make(r.val[i]));
        if (vk_symbolic()) {
            u64 raw[3]; memcpy(raw, &e, 24);
            u64 null; Value nv = Value::null(); memcpy(&null, &nv, 8);
            raw[0] = vk_ite64(r.del[i], (u64) -1, mhash(i));
            raw[1] = vk_ite64(r.del[i], null, raw[1]); raw[2] = vk_ite64(r.del[i], null, raw[2]);
            memcpy(&e, raw, 24);
        } else if (r.del[i]) e = HashTableEntry::make_deleted();
        else e = HashTableEntry(HashTableEntry::Hash{mhash(i)}, key(i), SmallInteger::make(r.val[i]));
        entries.append(e);
    }
    auto idx = r.t.get_index(L(r.t)).value().values();
    for (u64 b = 0; b < NB; b++) {
        u64 v = 0xff;
        for (u64 i = 0; i < occ; i++) v = vk_ite64(vk_and(r.del[i] == 0, r.pos[i] == b), i, v);
        idx[b] = (u8) v;
    }
    L(r.t)->static_payload()->size = r.live;
    L(r.t)->static_payload()->mask = NB - 1;
    vk_assume(valid(r.t));
    return r;
}
static bool val_is(Value v, i64 x) { u64 a, b; Value y = SmallInteger::make(x); memcpy(&a, &v, 8); memcpy(&b, &y, 8); return a == b; }
static bool key_is(Value v, u64 k) { u64 a, b; Value y = key(k); memcpy(&a, &v, 8); memcpy(&b, &y, 8); return a == b; }

static void find_contract(u64 occ, bool holes = true) {
    World w;
    Tab a = any_table(w, occ, holes);
    u64 k = vk_choice("key", 0, occ); // occ: a key that was never stored
    if (k == occ) make_key(k, vk_nondet("hash", 6));
    bool there = k < occ ? a.del[k] == 0 : false;
    if (there) vk_cover("present"); else vk_cover("absent");
    bool c = a.t.contains(key(k));
    vk_assert(c == there, "contains is true exactly for stored keys");
    auto g = a.t.get(key(k));
    vk_assert(g.has_value() == there, "get finds exactly the stored keys");
    if (g) vk_assert(val_is(*g, a.val[k]), "get returns the value stored for the key");
    auto f = a.t.find(key(k));
    vk_assert(f.has_value() == there, "find finds exactly the stored keys");
    if (f) { vk_assert(key_is(f->first, k), "find returns the stored key"); vk_assert(val_is(f->second, a.val[k]), "find returns the value stored for the key"); }
    vk_assert(a.t.size() == a.live, "size is the number of stored keys");
    vk_assert(a.t.empty() == (a.live == 0), "empty means no keys");
}
static void frame_except(const Tab& a, u64 k, const char* what) {
    HashTable t = a.t;
    for (u64 i = 0; i < a.occ; i++) {
        if (i == k || i >= occupied(t)) continue;
        const HashTableEntry& e = t.get_entries(L(t)).value().data()[i];
        vk_assert(raw_hash(t, i) == vk_ite64(a.del[i], (u64) -1, mhash(i)), what);
        vk_assert(vk_or(a.del[i] != 0, vk_and(key_is(e.key_, i), val_is(e.value_, a.val[i]))), what);
    }
}
static void set_contract(u64 occ, bool holes = true) {
    World w;
    Tab a = any_table(w, occ, holes);
    u64 k = vk_choice("key", 0, occ);
    if (k == occ) make_key(k, vk_nondet("hash", 6));
    bool there = k < occ ? a.del[k] == 0 : false;
    i64 v = (i64) vk_range("new value", 0, 1 << 20);
    Local lk = w.sc.local(key(k)); Local lv = w.sc.local<Value>(SmallInteger::make(v));
    auto r = a.t.set(w.ctx, lk, lv);
    vk_assert(r.has_value(), "set succeeds");
    if (r.value()) vk_cover("inserted"); else vk_cover("overwritten");
    vk_assert(r.value() == !there, "set reports whether the key is new");
    vk_assert(valid(a.t), "set preserves the table invariant");
    vk_assert(a.t.size() == a.live + (there ? 0 : 1), "the size grows by one for a new key only");
    u64 at = there ? k : occ;
    u64 moved = 0; // growing packs the entries; without holes nothing moves
    vk_assert(occupied(a.t) == (there ? occ : occ + 1) - moved, "a new key is appended after all entries");
    const HashTableEntry& e = a.t.get_entries(L(a.t)).value().data()[at];
    vk_assert(vk_and(key_is(e.key_, k), val_is(e.value_, v)), "the entry holds the key and the new value");
    vk_assert(raw_hash(a.t, at) == mhash(k), "the entry holds the hash of its key");
    frame_except(a, at, "set leaves all other entries unchanged");
}
static void remove_contract(u64 occ, bool holes = true) {
    World w;
    Tab a = any_table(w, occ, holes);
    u64 k = vk_choice("key", 0, occ);
    if (k == occ) make_key(k, vk_nondet("hash", 6));
    bool there = k < occ ? a.del[k] == 0 : false;
    u64 left = a.live - (there ? 1 : 0);
    bool r = a.t.remove(key(k));
    if (r) vk_cover("removed"); else vk_cover("absent");
    vk_assert(r == there, "remove reports whether the key was stored");
    vk_assert(a.t.size() == left, "the size shrinks by one if the key was stored");
    vk_assert(valid(a.t), "remove preserves the table invariant");
    // the live entries keep their order: entry number rank is the old live entry with that rank
    u64 rank = 0;
    u64 now = occupied(a.t);
    if (now == left) { // packed (or nothing deleted)
        for (u64 i = 0; i < occ; i++) {
            u64 gone = vk_ite64(vk_or(a.del[i] != 0, vk_and(there, i == k)), 1, 0);
            bool ok = gone != 0;
            for (u64 j = 0; j < now; j++) {
                const HashTableEntry& e = a.t.get_entries(L(a.t)).value().data()[j];
                ok = vk_or(ok, vk_and(rank == j, vk_and(raw_hash(a.t, j) == mhash(i), vk_and(key_is(e.key_, i), val_is(e.value_, a.val[i])))));
            }
            vk_assert(ok, "remaining entries keep their order and contents");
            rank += 1 - gone;
        }
        vk_assert(rank == now, "no other entries");
        vk_cover("packed");
    } else {
        frame_except(a, there ? k : occ, "remove leaves all other entries unchanged");
        vk_cover("hole");
    }
}

#define B8(n, extra) "bounded: index of 8 buckets, " #n " entries; any placement, hashes of 6 bits" extra
#define FIND(n) VK_CONTRACT(ht_find_##n, "P04", B8(n, ", any pattern of deleted entries"), "HashTable::contains, HashTable::get, HashTable::find, HashTable::find_impl, HashTable::size", "in every valid table a lookup finds exactly the stored keys") { find_contract(n); }
#define SET(n) VK_CONTRACT(ht_set_##n, "P04", B8(n, ", any pattern of deleted entries"), "HashTable::set, HashTable::set_impl, HashTable::ensure_free_capacity", "set preserves the invariant and is the map update") { set_contract(n); }
#define REMOVE(n) VK_CONTRACT(ht_remove_##n, "P04", B8(n, ", any pattern of deleted entries"), "HashTable::remove, HashTable::remove_impl, HashTable::remove_from_index, HashTable::compact, HashTable::rehash_index", "remove preserves the invariant and is the map deletion") { remove_contract(n); }
#define SETD(n) VK_CONTRACT(ht_setd_##n, "P04", B8(n, ", no deleted entries"), "HashTable::set, HashTable::set_impl, HashTable::grow, HashTable::grow_to_capacity, HashTable::rehash_index", "set preserves the invariant and is the map update, also when the table grows") { set_contract(n, false); }
#define REMOVED(n) VK_CONTRACT(ht_removed_##n, "P04", B8(n, ", no deleted entries"), "HashTable::remove, HashTable::remove_from_index", "remove preserves the invariant and is the map deletion") { remove_contract(n, false); }
// vk-opts: * --ite 16
FIND(0) FIND(2) FIND(4)
SET(0) SET(2) SET(3) SET(4) SETD(5)
REMOVE(1) REMOVE(2) REMOVE(3) REMOVE(4) REMOVED(5)

// ---------------------------------------------------------------- histories
// A map written down directly: the keys in insertion order with their values.
struct Ghost {
    u64 order[MAXK * 2]; u64 n = 0;
    i64 val[MAXK]; bool in[MAXK] = {};
    u64 size = 0;
    void set(u64 k, i64 v) { if (!in[k]) { in[k] = true; order[n++] = k; size++; } val[k] = v; }
    void remove(u64 k) {
        if (!in[k]) return;
        in[k] = false; size--;
        u64 j = 0;
        for (u64 i = 0; i < n; i++) if (order[i] != k) order[j++] = order[i];
        n = j;
    }
    void clear() { for (u64 i = 0; i < n; i++) in[order[i]] = false; n = size = 0; }
};
static u64 pattern_hash(u64 pattern, u64 i) {
    switch (pattern) {
    case 0: return i;                       // spread
    case 1: return 5;                       // all in one bucket
    case 2: return i * 8 + 7;               // wraps around at the end of the index
    case 3: return (i & 1) ? 7 : 0;         // two clusters at the seam
    case 4: return i * 0x9E3779B97F4A7C15u; // scattered
    default: return i == 0 ? (u64) -1 : i == 1 ? 0 : i / 2; // the reserved hash value
    }
}
static void pattern_key(u64 pattern, u64 i) {
    K.k[i] = (i64) i; K.h[i] = pattern_hash(pattern, i);
    if (K.n <= i) K.n = i + 1;
}
static u64 key_no(Value v) { return (u64) v.must_cast<Integer>().value(); }
static void check_map(World& w, Handle<HashTable> t, Ghost& g, u64 keys) {
    vk_assert(t->size() == g.size, "size is the number of distinct keys");
    vk_assert(t->empty() == (g.size == 0), "empty means no keys");
    for (u64 k = 0; k < keys; k++) {
        auto v = t->get(key(k));
        vk_assert(v.has_value() == g.in[k], "get finds exactly the stored keys");
        if (v) vk_assert(val_is(*v, g.val[k]), "get returns the most recent value");
        vk_assert(t->contains(key(k)) == g.in[k], "contains is true exactly for stored keys");
    }
    Scope sc(w.ctx);
    Local it = sc.local(t->make_iterator(w.ctx));
    Local kv = sc.local(HashTableKeyIterator::make(w.ctx, t));
    Local vv = sc.local(HashTableValueIterator::make(w.ctx, t));
    for (u64 i = 0; i < g.n; i++) {
        auto e = it->next(w.ctx);
        vk_assert(e.has_value(), "iteration visits every entry");
        Tuple tp = e->must_cast<Tuple>();
        vk_assert(key_is(tp.unchecked_get(0), g.order[i]), "iteration is in insertion order");
        vk_assert(val_is(tp.unchecked_get(1), g.val[g.order[i]]), "iteration yields the most recent values");
        auto k = kv->next(w.ctx); auto v = vv->next(w.ctx);
        vk_assert(k.has_value() && key_is(*k, g.order[i]), "key iteration is in insertion order");
        vk_assert(v.has_value() && val_is(*v, g.val[g.order[i]]), "value iteration is in insertion order");
    }
    vk_assert(!it->next(w.ctx).has_value() && !kv->next(w.ctx).has_value() && !vv->next(w.ctx).has_value(), "iteration ends after the last entry");
    u64 n = 0;
    t->for_each_unsafe([&](Value a, Value b) { vk_assert(n < g.n && key_is(a, g.order[n]) && val_is(b, g.val[g.order[n]]), "for_each visits every entry in order"); n++; });
    vk_assert(n == g.n, "for_each visits every entry");
}
static void do_set(World& w, Handle<HashTable> t, Ghost& g, u64 k, i64 v) {
    Scope sc(w.ctx);
    Local lk = sc.local(key(k)); Local lv = sc.local<Value>(SmallInteger::make(v));
    auto r = t->set(w.ctx, lk, lv);
    vk_assert(r.has_value() && r.value() == !g.in[k], "set reports whether the key is new");
    g.set(k, v);
}
static void do_remove(Handle<HashTable> t, Ghost& g, u64 k) {
    vk_assert(t->remove(key(k)) == g.in[k], "remove reports whether the key was stored");
    g.remove(k);
}
static void short_history(u64 steps, u64 keys, u64 patterns) {
    World w;
    Local t = w.sc.local(HashTable::make(w.ctx));
    static Ghost g;
    u64 p = vk_choice("hash pattern", 0, patterns - 1);
    for (u64 i = 0; i < keys; i++) pattern_key(p, i);
    for (u64 s = 0; s < steps; s++) {
        u64 op = vk_choice("operation", 0, 2 * keys);
        if (op < keys) do_set(w, t, g, op, (i64) s);
        else if (op < 2 * keys) do_remove(t, g, op - keys);
        else { t->clear(); g.clear(); }
    }
    check_map(w, t, g, keys);
}
VK_CONTRACT(ht_history, "P04", "bounded: every sequence of 4 operations (set, remove, clear) over 3 keys, 4 collision patterns", "HashTable::set, HashTable::remove, HashTable::clear, HashTable::get, HashTable::make_iterator, HashTable::iterator_next, HashTableIteratorBase::next", "the table is the map built by its history") { short_history(4, 3, 4); }
// Long histories across every resize of the table up to the two byte index.
static void long_history(u64 pattern, u64 n) {
    World w;
    Local t = w.sc.local(HashTable::make(w.ctx));
    static Ghost g;
    for (u64 i = 0; i < n; i++) pattern_key(pattern, i);
    for (u64 i = 0; i < n; i++) {
        do_set(w, t, g, i, (i64) i);
        if (i == 5 || i == 6 || i == 11 || i == 12 || i == 24 || i == 96 || i == 97 || i == 192 || i == 193) check_map(w, t, g, i + 2 < n ? i + 2 : n);
    }
    check_map(w, t, g, n);
    for (u64 i = 0; i < n; i += 3) do_remove(t, g, i);
    check_map(w, t, g, n);
    for (u64 i = 0; i < n; i += 6) do_set(w, t, g, i, (i64) (1000 + i)); // again, at the end
    for (u64 i = 1; i < n; i += 3) do_set(w, t, g, i, (i64) (2000 + i)); // overwrite
    check_map(w, t, g, n);
    for (u64 i = 0; i < n; i++) if (i % 16 != 5) do_remove(t, g, i);
    check_map(w, t, g, n);
    for (u64 i = n; i-- > n / 2;) do_set(w, t, g, i, (i64) i);
    check_map(w, t, g, n);
    t->clear(); g.clear();
    check_map(w, t, g, n);
    for (u64 i = 0; i < 9 && i < n; i++) do_set(w, t, g, i, (i64) i);
    check_map(w, t, g, n);
}
#define LONG(p, n) VK_CONTRACT(ht_long_##p, "P04", "bounded: one history of sets, overwrites, removals and clear over " #n " keys, collision pattern " #p, "HashTable::set, HashTable::remove, HashTable::clear, HashTable::grow, HashTable::compact, HashTable::recreate_index, HashTable::rehash_index", "the table is the map built by its history, across all resizes") { long_history(p, n); }
LONG(0, 420) LONG(1, 60) LONG(2, 100) LONG(3, 60) LONG(4, 420) LONG(5, 100)

// ---------------------------------------------------------------- sets
static void set_history(u64 pattern, u64 n) {
    World w;
    Local s = w.sc.local(Set::make(w.ctx));
    static Ghost g;
    for (u64 i = 0; i < n; i++) pattern_key(pattern, i);
    auto check = [&] {
        vk_assert(s->size() == g.size, "the size of a set is the number of its elements");
        for (u64 k = 0; k < n; k++) {
            vk_assert(s->contains(key(k)) == g.in[k], "contains is true exactly for elements");
            auto f = s->find(key(k));
            vk_assert(f.has_value() == g.in[k] && (!f || key_is(*f, k)), "find returns the element");
        }
        Scope sc(w.ctx);
        Local it = sc.local(SetIterator::make(w.ctx, s));
        for (u64 i = 0; i < g.n; i++) { auto e = it->next(w.ctx); vk_assert(e && key_is(*e, g.order[i]), "set iteration is in insertion order"); }
        vk_assert(!it->next(w.ctx), "set iteration ends after the last element");
    };
    auto insert = [&](u64 k) {
        Scope sc(w.ctx);
        Local v = sc.local(key(k));
        auto r = s->insert(w.ctx, v);
        vk_assert(r.has_value() && r.value() == !g.in[k], "insert reports whether the element is new");
        g.set(k, 0);
    };
    for (u64 i = 0; i < n; i++) insert(i);
    check();
    for (u64 i = 0; i < n; i += 2) { s->remove(key(i)); g.remove(i); insert((i * 7) % n); }
    check();
    s->clear(); g.clear();
    check();
    insert(1); insert(0); insert(1); s->remove(key(2)); check();
}
VK_CONTRACT(set_spread, "P04", "bounded: one history over 50 elements, spread hashes", "Set::insert, Set::remove, Set::contains, Set::find, Set::clear, SetIterator::next", "a set is the set built by its history") { set_history(4, 50); }
VK_CONTRACT(set_collide, "P04", "bounded: one history over 30 elements, colliding hashes", "Set::insert, Set::remove, Set::contains, Set::find, Set::clear, SetIterator::next", "a set is the set built by its history") { set_history(1, 30); }
// Creation with a requested capacity.
VK_CONTRACT(ht_make, "P04", "bounded: 30 requested capacities up to 300", "HashTable::make, index_capacity_for_entries_capacity, table_capacity_for_index_capacity", "a table made for n entries is an empty map with room for n entries") {
    World w;
    static const u64 caps[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 23, 24, 25, 47, 48, 49, 95, 96, 97, 191, 192, 193, 254, 255, 256, 257, 300};
    u64 n = caps[vk_choice("capacity", 0, 29)];
    auto r = HashTable::make(w.ctx, n);
    vk_assert(r.has_value(), "creation succeeds");
    Local t = w.sc.local(r.value());
    vk_assert(t->size() == 0 && t->occupied_entries() == 0, "the new table is empty");
    vk_assert(t->entry_capacity() >= n && (n == 0 || t->index_capacity() > t->entry_capacity()), "the new table has room");
    static Ghost g;
    for (u64 i = 0; i < 8; i++) pattern_key(0, i);
    do_set(w, t, g, 3, 1); do_set(w, t, g, 1, 2);
    check_map(w, t, g, 8);
}
