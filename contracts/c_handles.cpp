// Contracts of handles: the stack of local values, scopes, external handles, temporary registers of the interpreter.
// vk-link: core
// vk-opts: * --fork-select
#include "vm_harness.hpp"
#include "vm/root_set.ipp"
#include "vm/handles/external.hpp"
#include <vector>
using namespace vk;
extern "C" vk_replacement vk_replacements_handles[];
vk_replacement vk_replacements_handles[] = { VK_VM_REPLACEMENTS };
namespace {
using RS = RootedStack; constexpr u64 P = RS::slots_per_page;
RS::Page* mkpage() { return new (::operator new(RS::page_size)) RS::Page(); }
template<typename F> bool fails(F f) { try { f(); } catch (const Error&) { return true; } catch (const std::bad_alloc&) { return true; } return false; }
u64 small(const char* n, u64 lim) { u64 v = vk_nondet(n, 64); if (!vk_symbolic()) v %= lim + 1; vk_assume(v <= lim); return v; }
struct Seen { std::vector<u64> v; void operator()(Value x) { v.push_back(x.raw()); } void operator()(Span<Value> s) { for (Value x : s) v.push_back(x.raw()); } template<size_t N> void operator()(Value (&s)[N]) { for (Value x : s) v.push_back(x.raw()); } };
}
// vk-covers: stack_alloc same page, reused page, new page, refused
VK_CONTRACT(stack_alloc, "P09", "proof", "RootedStack::allocate_slots, allocate_from, new_page, allocate", "an allocation yields that many adjacent slots behind all slots in use, inside one page, and changes no slot in use; the limits of size and pages are reported and nothing changes; for every fill level of the pages and every size") {
    RS s; u64 pages = vk_choice("pages in use", 0, 2), spare = pages ? vk_choice("spare pages", 0, 1) : 0; RS::Page* p[3] = {}; u64 n = small("slots", 70), total = 0;
    for (u64 i = 0; i < pages + spare; i++) { p[i] = mkpage(); if (i) { p[i - 1]->next = p[i]; p[i]->prev = p[i - 1]; } }
    // inner pages may have any number of used slots; the current one too
    for (u64 i = 0; i < pages; i++) { p[i]->used = small("used", P); total += p[i]->used; } s.first_ = p[0]; s.current_ = pages ? p[pages - 1] : nullptr; s.used_slots_ = total; s.total_pages_ = vk_choice("page limit", 0, 1) ? 64 : pages + spare;
    u64 used = pages ? p[pages - 1]->used : 0, tp = s.total_pages_; Value* got = nullptr; bool one = vk_choice("single", 0, 1) == 1; if (one) n = 1;
    bool err = fails([&] { if (one) got = s.allocate(); else { Span<Value> r = s.allocate_slots(n); vk_assert(r.size() == n, "as many slots as requested"); got = r.data(); } });
    bool fits = pages > 0 && used + n <= P; RS::Page* c = s.current_; for (u64 i = 0; i + 1 < pages; i++) vk_assert(p[i]->next == p[i + 1] && p[i + 1]->prev == p[i], "the pages stay linked");
    if (err) { vk_assert(n > 64 || (!fits && !spare && tp >= 64), "only a limit is reported"); vk_assert(s.used_slots_ == total && c == (pages ? p[pages - 1] : nullptr) && s.total_pages_ == tp && (!pages || (c->used == used && c->next == p[pages])), "nothing changes"); vk_cover("refused"); s.first_ = p[0]; return; }
    vk_assert(n <= 64, "too large"); vk_assert(s.used_slots_ == total + n, "the slots are counted"); for (u64 i = 0; i + 1 < pages; i++) vk_assert(p[i]->used <= P, "");
    if (fits) { vk_assert(c == p[pages - 1] && got == &c->slots[used] && c->used == used + n && s.total_pages_ == tp, "behind the slots in use"); vk_cover("same page"); return; }
    vk_assert(!pages || p[pages - 1]->used == used, "the full page does not change"); vk_assert(got == &c->slots[0] && c->used == n && (!pages || (p[pages - 1]->next == c && c->prev == p[pages - 1])), "on the following page");
    if (spare) { vk_assert(c == p[pages] && s.total_pages_ == tp, "a spare page is used"); vk_cover("reused page"); } else { vk_assert(s.total_pages_ == tp + 1 && c->next == nullptr && s.first_ == (pages ? p[0] : c), "a new page"); vk_cover("new page"); }
}
// vk-covers: stack_dealloc one page, several pages
VK_CONTRACT(stack_dealloc, "P09", "bounded: at most 3 pages", "RootedStack::deallocate_slots, deallocate", "a deallocation releases exactly that many of the youngest slots; for every fill level and every number of slots") {
    RS s; u64 pages = vk_choice("pages in use", 1, 3); RS::Page* p[3] = {}; u64 total = 0, used[3] = {};
    for (u64 i = 0; i < pages; i++) { p[i] = mkpage(); if (i) { p[i - 1]->next = p[i]; p[i]->prev = p[i - 1]; } u64 u = small("used", P); vk_assume(u > 0 || i + 1 == pages); if (!vk_symbolic() && u == 0 && i + 1 != pages) u = 1; used[i] = p[i]->used = u; total += u; }
    s.first_ = p[0]; s.current_ = p[pages - 1]; s.used_slots_ = total; s.total_pages_ = pages; u64 n = small("slots", 3 * P); vk_assume(n <= total); if (!vk_symbolic() && n > total) n = total;
    bool one = vk_choice("single", 0, 1) == 1; if (one) { vk_assume(total >= 1); if (!vk_symbolic() && total == 0) vk_end(); n = 1; s.deallocate(); } else s.deallocate_slots(n);
    vk_assert(s.used_slots_ == total - n, "the slots are released"); u64 left = n; for (u64 i = pages; i-- > 0;) { u64 take = vk_ite64(left < used[i], left, used[i]); vk_assert(p[i]->used == used[i] - take, "the youngest ones"); left -= take; }
    u64 sum = 0; bool below = true; for (u64 i = 0; i < pages; i++) { sum += p[i]->used; if (p[i] == s.current_) below = false; else if (!below) vk_assert(p[i]->used == 0, "pages behind the current one are empty"); } vk_assert(!below && sum == total - n, ""); vk_assert(s.total_pages_ == pages && s.first_ == p[0], "pages are kept"); vk_cover(pages == 1 ? "one page" : "several pages");
}
namespace {
// nested scopes over a stack that starts with some slots in use
struct Hist { RS& s; std::vector<u64> ghost; i64 next = 1; u64 ops;
    Hist(RS& st, u64 n) : s(st), ops(n) {}
    void check() { Seen t; s.trace(t); vk_assert(t.v == ghost && s.used_slots() == ghost.size(), "exactly the values of the open scopes are roots, oldest first"); }
    void level(u64 depth) { u64 start = ghost.size(); { Scope sc(s);
        while (ops > 0) { ops--; u64 op = vk_choice("operation", 0, depth < 3 ? 5 : 4); if (op == 0) break;
            if (op == 1) { Local l = sc.local(SmallInteger::make(next)); ghost.push_back(l->raw()); vk_assert(l->raw() == SmallInteger::make(next).raw(), "the initial value"); next++; l = SmallInteger::make(next); ghost.back() = SmallInteger::make(next++).raw(); }
            if (op == 2) { Local l = sc.local(); vk_assert(l->is_null(), "null"); ghost.push_back(0); }
            if (op == 3) { LocalArray a = sc.array(64); for (size_t i = 0; i < 64; i++) { vk_assert(a[i]->is_null(), "null"); a[i].set(SmallInteger::make(next)); ghost.push_back(SmallInteger::make(next++).raw()); } vk_cover("array"); }
            if (op == 4) { vk_assert(fails([&] { (void) sc.array(65); }), "too large"); }
            if (op == 5) { level(depth + 1); vk_cover("nested"); }
            check(); } }
        ghost.resize(start); check(); }
};
}
// vk-covers: scope_nesting array, nested
VK_CONTRACT(scope_nesting, "P09", "bounded: all histories of 4 operations at up to 3 levels, on a fresh page and close to the end of the first and second page", "Scope, Scope::local, array, Local, LocalArray, RootedStack::trace", "the values of the open scopes, and only they, are roots with their current values; the end of a scope releases exactly its own; the storage of a local does not move") {
    static const u64 fill[] = {0, P - 65, P - 64, P - 1, P, 2 * P - 64}; u64 f = fill[vk_choice("initially used", 0, 5)]; RS s; Scope sc(s); Hist h(s, 4);
    for (u64 i = 0; i < f; i++) { Local l = sc.local(SmallInteger::make((i64) i + 1000)); h.ghost.push_back(l->raw()); }
    if (vk_choice("spare page", 0, 1)) { Scope x(s); for (int i = 0; i < 10; i++) (void) x.array(60); }
    h.level(0);
}
namespace { using ES = ExternalStorage; }
// vk-covers: external_history page, freed, reused
VK_CONTRACT(external_history, "P09", "bounded: all histories of 5 operations, with few handles and across a page boundary", "ExternalStorage::allocate, free, allocate_slot, free_slot, link_free_slot, pop_free_slot, trace, used_slots, from_external", "an external handle is a root with its current value from its allocation until it is freed, in its own slot; others are not affected, and a freed slot becomes available again once") {
    ES es; std::vector<std::pair<Value*, u64>> live; i64 next = 1; Context* none = nullptr; (void) none; static const u64 fills[] = {0, 1, ES::page_slots - 1, ES::page_slots, ES::page_slots + 2}; u64 f = fills[vk_choice("handles", 0, 4)];
    auto add = [&] { u64 total = es.total_slots(), fr = es.free_slots(); auto e = es.allocate(SmallInteger::make(next)); vk_assert(e->raw() == SmallInteger::make(next).raw(), "the initial value"); for (auto& l : live) if (l.first == get_valid_slot(e)) vk_assert(false, "a slot of its own"); e.set(SmallInteger::make(++next)); live.push_back({get_valid_slot(e), SmallInteger::make(next++).raw()}); if (fr) vk_assert(es.total_slots() == total && es.free_slots() == fr - 1, "a free slot is reused"); else vk_cover("page"); vk_assert(ES::from_external(e).get() == &es, "it knows its storage"); };
    for (u64 i = 0; i < f; i++) add();
    auto check = [&] { Seen t; es.trace(t); vk_assert(t.v.size() == live.size() && es.used_slots() == live.size(), "exactly the handles in use are roots"); std::vector<u64> want; for (auto& l : live) { vk_assert(l.first->raw() == l.second, "values are kept"); want.push_back(l.second); } u64 sum = 0, sum2 = 0, x = 0, x2 = 0; for (u64 v : t.v) { sum += v; x ^= v * v; } for (u64 v : want) { sum2 += v; x2 ^= v * v; } vk_assert(sum == sum2 && x == x2, "with their values"); };
    check();
    for (int i = 0; i < 5; i++) { u64 op = vk_choice("operation", 0, 4); if (op == 0) { add(); if (i) vk_cover("reused"); } else if (op <= 3) { u64 k = live.size(); if (k == 0) continue; size_t at = op == 1 ? 0 : op == 2 ? k - 1 : k / 2; es.free(External<Value>::from_raw_slot(live[at].first)); live.erase(live.begin() + (long) at); vk_cover("freed"); } else if (!live.empty()) { External<Value>::from_raw_slot(live[0].first).set(SmallInteger::make(++next)); live[0].second = SmallInteger::make(next).raw(); }
        if (f < 10 || i == 4) check(); }
}
// vk-covers: unique_external moved, released, assigned
VK_CONTRACT(unique_external, "P09", "proof", "UniqueExternal", "a unique handle frees its external exactly once when it ends, is reset or is assigned, and not after it was moved or released") {
    ES es; { UniqueExternal a(es.allocate(SmallInteger::make(1))); UniqueExternal b(es.allocate(SmallInteger::make(2))); Value* sa = get_valid_slot(a); vk_assert(es.used_slots() == 2 && a.valid() && &a.storage() == &es, "");
        u64 op = vk_choice("operation", 0, 5);
        if (op == 0) { UniqueExternal c(std::move(a)); vk_assert(!a.valid() && get_valid_slot(c) == sa && c->raw() == SmallInteger::make(1).raw() && es.used_slots() == 2, "moved"); vk_cover("moved"); }
        if (op == 1) { a = std::move(b); vk_assert(!b.valid() && a->raw() == SmallInteger::make(2).raw() && es.used_slots() == 1, "assigned"); vk_cover("assigned"); }
        if (op == 2) { auto& r = a; a = std::move(r); vk_assert(a.valid() && get_valid_slot(a) == sa && es.used_slots() == 2, "self"); }
        if (op == 3) { auto e = a.release(); vk_assert(!a.valid() && es.used_slots() == 2 && e->raw() == SmallInteger::make(1).raw(), "released"); es.free(e); vk_assert(es.used_slots() == 1, ""); vk_cover("released"); }
        if (op == 4) { a.reset(); vk_assert(!a.valid() && es.used_slots() == 1, "reset"); a.reset(); vk_assert(es.used_slots() == 1, "once"); }
        if (op == 5) { UniqueExternal<SmallInteger> d; vk_assert(!d.valid() && !d, "empty"); d = std::move(a); vk_assert(d.valid() && es.used_slots() == 2, ""); }
    } vk_assert(es.used_slots() == 0, "all are freed");
}
// vk-covers: registers_trace full
VK_CONTRACT(registers_trace, "P09", "proof", "Registers::alloc, alloc_slot, reset, trace", "temporary values of the interpreter are roots until they are reset; exceeding their number is reported") {
    Registers r; u64 n = vk_choice("registers", 0, 16); std::vector<Value*> at; for (u64 i = 0; i < n; i++) { auto h = r.alloc(SmallInteger::make((i64) i)); at.push_back(get_valid_slot(h)); for (u64 k = 0; k < i; k++) vk_assert(at[k] != at[i], "its own slot"); }
    Seen t; r.trace(t); vk_assert(t.v.size() == n, "all are roots"); for (u64 i = 0; i < n; i++) vk_assert(t.v[i] == SmallInteger::make((i64) i).raw() && at[i]->raw() == t.v[i], "with their values"); if (n == 16) { vk_assert(fails([&] { r.alloc(SmallInteger::make(9)); }), "no more"); vk_cover("full"); }
    r.reset(); Seen u; r.trace(u); vk_assert(u.v.empty(), "none is left"); auto h = r.alloc(SmallInteger::make(5)); Seen w; r.trace(w); vk_assert(w.v.size() == 1 && w.v[0] == h->raw(), "the first is free again");
}
namespace { struct Find { u64 want; int n = 0; void operator()(Value v) { n += v.raw() == want; } void operator()(Span<Value> s) { for (Value v : s) n += v.raw() == want; } template<typename T> void operator()(const std::array<T, 1>&) {} }; }
// vk-covers: roots_visited local, external, register, queue
VK_CONTRACT(roots_visited, "P09", "proof", "RootSet::trace, Interpreter::trace, BytecodeInterpreter::trace, Context::stack, externals", "the roots of a context include every local, external, register, queued coroutine and running coroutine, and a released one is no root") {
    World w; Value v = HeapInteger::make(w.ctx, 99); auto roots = [&] { Find f; f.want = v.raw(); w.ctx.roots_.trace(f); return f.n; }; vk_assert(roots() == 0, "not a root yet"); u64 k = vk_choice("handle", 0, 3);
    if (k == 0) { { Scope sc(w.ctx); Local l = sc.local(v); vk_assert(roots() == 1, "a local is a root"); } vk_assert(roots() == 0, "until its scope ends"); vk_cover("local"); }
    if (k == 1) { auto e = w.ctx.externals().allocate(v); vk_assert(roots() == 1, "an external is a root"); w.ctx.externals().free(e); vk_assert(roots() == 0, "until it is freed"); vk_cover("external"); }
    if (k == 2) { Interpreter& in = w.ctx.interpreter(); in.regs_.alloc(v); vk_assert(roots() == 1, "a register is a root"); in.regs_.reset(); vk_assert(roots() == 0, "until the reset"); vk_cover("register"); }
    if (k == 3) { Local st = w.sc.local(CoroutineStack::make(w.ctx, CoroutineStack::initial_size)); Local nm = w.sc.local(String::make(w.ctx, "x")); Local fn = w.sc.local(); Coroutine c = Coroutine::make(w.ctx, nm, fn, {}, st); v = c; vk_assert(roots() == 0, ""); w.ctx.roots_.get_first_ready().set(c); vk_assert(roots() == 1, "the first ready one"); w.ctx.roots_.get_last_ready().set(c); vk_assert(roots() == 2, "and the last"); w.ctx.interpreter().current_ = c; vk_assert(roots() == 3, "and the current"); w.ctx.interpreter().current_ = Null(); vk_cover("queue"); }
}
