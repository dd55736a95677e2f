// Contracts of the heap: page layout, size classes, free space, sweeping, allocation, accounting.
// vk-link: core
// vk-native: contracts
#include "vm_harness.hpp"
#include "vm/heap/allocator.hpp"
#include <limits>
#include <vector>
using namespace vk;
namespace {
// ---- ghost state of the replaced callees (used by heap_allocate, heap_history and page_sweep only)
struct Log { bool on = false; u64 lobs = 0, exacts = 0, collects = 0, pages = 0; u64 cells = 0; bool mixed = false, late = false; u64 ok_at = 0; bool lob_fails = false, page_fails = false; u64 threshold = 0; u64 given = 0; HeapStats base; bool record = false; std::vector<u64>* finalized = nullptr; void (*collect)(Heap&) = nullptr; } g;
const u64 ADDR = 0x70000000;
alignas(16) unsigned char g_lob[64];
void havoc(Heap& h) { h.stats_.allocated_bytes = vk_u64("allocated after"); h.stats_.free_bytes = vk_u64("free after"); h.stats_.allocated_objects = vk_u64("objects after"); g.base = h.stats_; }
// Contract of add_lob: a large object of that many cells, or an exception and no change.
NotNull<LargeObject*> vk_stub_add_lob(Heap* h, u32 cells) { if (!g.on) return h->add_lob(cells); g.lobs++; g.cells = cells; if (g.lob_fails) TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "x"); g.given++; return TIRO_NN(new (g_lob) LargeObject(*h, cells)); }
// Contract of allocate_exact: storage of that many cells, or null and no change.
Cell* vk_stub_exact(FreeSpace* f, u32 cells) { if (!g.on) return f->allocate_exact(cells); if (g.exacts && cells != g.cells) g.mixed = true; g.cells = cells; if (g.exacts++ == g.ok_at) { g.given++; return reinterpret_cast<Cell*>(ADDR); } return nullptr; }
// Contract of collect: counters and threshold are recomputed; everything not reachable becomes free.
void vk_stub_collect(Collector* c, GcReason r) { if (g.collect) { g.collect(c->heap_); return; } if (!g.on) { c->collect(r); return; } g.collects++; if (g.given) g.late = true; havoc(c->heap_); }
// Contract of add_page: more free space, or an exception and no change.
NotNull<Page*> vk_stub_add_page(Heap* h) { if (!g.on) return h->add_page(); g.pages++; if (g.page_fails) TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "x"); if (g.ok_at > g.exacts) g.ok_at = g.exacts; havoc(*h); return TIRO_NN(reinterpret_cast<Page*>(0x60000000)); }
void vk_stub_finalize(Value v) { if (!g.record) { finalize(v); return; } u64 a; memcpy(&a, (void*) &v, 8); if (g.finalized) g.finalized->push_back(a); }
struct TestAlloc final : HeapAllocator {
    u64 calls = 0, frees = 0, size = 0, align = 0, fsize = 0, falign = 0, live = 0, bytes = 0; void* block = nullptr; void* freed = nullptr; int mode = 0; bool fake = false; i64 fail_at = -1; bool throws = false;
    void* allocate_aligned(size_t s, size_t a) override { if (mode == 1 || fail_at == (i64) calls) { calls++; if (throws) throw std::bad_alloc(); return nullptr; } calls++; if (mode == 2) throw std::bad_alloc(); size = s; align = a; if (fake) return block; live++; bytes += s; return tiro::vm::allocate_aligned(s, a); }
    void free_aligned(void* p, size_t s, size_t a) override { frees++; fsize = s; falign = a; freed = p; if (!fake) { live--; bytes -= s; tiro::vm::deallocate_aligned(p, s, a); } }
};
PageLayout& lay(Heap& h) { return const_cast<PageLayout&>(h.layout_); }
u64 page_sizes(u64 lo = 16, u64 hi = 24) { return (u64) 1 << vk_choice("page size (log)", lo, hi); }
Page* mkpage(Heap& h, u32 cells) { lay(h).cells_size = cells; lay(h).bitmap_items = (cells + 127) / 128 * 4; return Page::allocate(h).get(); }
}
extern "C" vk_replacement vk_replacements_heap[];
vk_replacement vk_replacements_heap[] = { VK_VM_REPLACEMENTS, { "tiro::vm::Heap::add_lob(", (void*) vk_stub_add_lob }, { "tiro::vm::FreeSpace::allocate_exact(", (void*) vk_stub_exact }, { "tiro::vm::Collector::collect(", (void*) vk_stub_collect }, { "tiro::vm::Heap::add_page()", (void*) vk_stub_add_page }, { "tiro::vm::finalize(", (void*) vk_stub_finalize } };

// ------------------------------------------------------------------ layout of pages and large objects
// vk-covers: page_layout valid, refused
VK_CONTRACT(page_layout, "P07", "proof", "Page::compute_layout", "for every page size: refused exactly if it is no power of two in the allowed range; otherwise both bitmaps and all cells lie inside the page without overlap, are aligned, and there is a bit for every cell") {
    u64 size = vk_u64("page size"); PageLayout l; bool bad = false; try { l = Page::compute_layout(size); } catch (const Error& e) { bad = true; vk_assert(e.code() == TIRO_ERROR_BAD_ARG, "a bad argument"); }
    bool ok = size >= Page::min_size_bytes && size <= Page::max_size_bytes && (size & (size - 1)) == 0; vk_assert(bad == !ok, "refused exactly if the size is not allowed"); if (bad) { vk_cover("refused"); return; } vk_cover("valid");
    vk_assert(l.page_size == size && l.page_size_log < 32 && ((u64) 1 << l.page_size_log) == size && l.page_mask() == ~(size - 1), "the size and its mask");
    u64 bytes = (u64) l.bitmap_items * sizeof(Page::BitsetItem);
    vk_assert(l.block_bitmap_offset >= sizeof(Page) && l.block_bitmap_offset % 4 == 0 && l.mark_bitmap_offset >= l.block_bitmap_offset + bytes && l.mark_bitmap_offset % 4 == 0, "the bitmaps follow the header");
    vk_assert(l.cells_offset >= l.mark_bitmap_offset + bytes && l.cells_offset % cell_align == 0, "aligned cells follow the bitmaps");
    vk_assert(bytes * 8 >= l.cells_size && (u64) l.cells_offset + (u64) l.cells_size * cell_size <= size, "there is a bit for every cell, and every cell is inside the page");
    vk_assert(l.large_object_cells >= 1 && l.large_object_cells <= l.cells_size, "objects that are not large fit into a page");
}
VK_CONTRACT(page_address, "P07", "proof", "Page::from_address, Page::cell, Page::cell_index, Page::cells, block_bitmap_storage, mark_bitmap_storage, block_bitmap, mark_bitmap", "for every page size, cell and byte of a cell: the cell belongs to the page and has that index; every address of a page leads back to it") {
    TestAlloc al; Heap h(page_sizes(), al); Page* p = Page::allocate(h).get(); auto& l = h.layout(); u64 base = (u64) p; vk_assert(base % l.page_size == 0 && al.align == l.page_size && al.size == l.page_size && h.stats().total_bytes == l.page_size, "a page is aligned to its size");
    u32 i = vk_range32("cell", 0, l.cells_size - 1); u64 k = vk_range("byte", 0, 15), a = (u64) p->cell(i); vk_assert(a == base + l.cells_offset + (u64) i * 16 && a % 16 == 0, "the address of a cell"); vk_assert(p->cell_index((void*) (a + k)) == i, "the index of a cell");
    u64 x = base + vk_range("address", 0, l.page_size - 1); vk_assert(Page::from_address((void*) x, h).get() == p && Page::from_address((void*) x, h.layout()).get() == p, "an address leads to its page");
    vk_assert((u64) p->cells().data() == base + l.cells_offset && p->cells().size() == l.cells_size, "all cells"); vk_assert((u64) p->block_bitmap_storage().data() == base + l.block_bitmap_offset && p->block_bitmap_storage().size() == l.bitmap_items && (u64) p->mark_bitmap_storage().data() == base + l.mark_bitmap_offset && p->mark_bitmap_storage().size() == l.bitmap_items && p->block_bitmap().size() == l.cells_size && p->mark_bitmap().size() == l.cells_size, "the bitmaps");
    for (u32 k : {(u32) 0, (u32) 1, l.cells_size / 2, l.cells_size - 1}) vk_assert(!p->block_bitmap().test(k) && !p->mark_bitmap().test(k), "all bits of a new page are clear"); Page::destroy(TIRO_NN(p)); vk_assert(al.frees == 1 && (u64) al.freed == base && al.fsize == l.page_size && al.falign == l.page_size && h.stats().total_bytes == 0, "it is returned to the allocator");
}
// vk-covers: lob_address ok, failed
VK_CONTRACT(lob_address, "P07", "proof", "LargeObject::allocate, dynamic_size, destroy, cells, cell, from_address, Heap::allocate_raw, free_raw", "for every number of cells: the storage is large enough for the header and all cells, leads back to its chunk, and is returned with the same size and alignment") {
    alignas(16) static unsigned char mem[64]; TestAlloc al; al.fake = true; al.block = mem; Heap h(1 << 16, al); h.max_size_ = vk_u64("limit"); h.stats_.total_bytes = vk_u64("total"); vk_assume(h.stats_.total_bytes <= h.max_size_); u64 total = h.stats_.total_bytes; u32 n = vk_range32("cells", 1, 0xffffffff); al.mode = (int) vk_choice("allocator", 0, 2); LargeObject* o = nullptr;
    try { o = LargeObject::allocate(h, n).get(); } catch (const Error&) {} catch (const std::bad_alloc&) { vk_assert(al.mode == 2, "only the allocator"); }
    u64 need = sizeof(LargeObject) + (u64) n * 16; vk_assert(LargeObject::dynamic_size(n) == need, "the size of a chunk"); if (!o) { vk_assert(al.mode || need > h.max_size_ - total, "refused without reason"); vk_assert(h.stats_.total_bytes == total, "a refused request changes nothing"); vk_cover("failed"); return; }
    vk_assert(al.calls == 1 && al.size == need && al.align == 16 && (u64) o == (u64) mem && h.stats_.total_bytes == total + need && need <= h.max_size_ - total, "exactly the storage needed"); vk_assert((u64) o->cells().data() == (u64) mem + sizeof(LargeObject) && (u64) o->cell() % 16 == 0 && o->cells().size() == n && o->cells_count() == n && o->dynamic_size() == need && !o->is_marked() && !o->has_finalizer(), "the cells follow the header"); vk_assert(LargeObject::from_address(o->cell()).get() == o, "and lead back to it");
    LargeObject::destroy(TIRO_NN(o)); vk_assert(al.frees == 1 && al.freed == mem && al.fsize == need && al.falign == 16 && h.stats_.total_bytes == total, "it is returned to the allocator"); vk_cover("ok");
}
// vk-covers: heap_raw ok, limit, failed
VK_CONTRACT(heap_raw, "P07", "proof", "Heap::allocate_raw, free_raw", "for every size, limit and amount of memory in use: the allocator is asked exactly if the limit permits, and the total counts exactly the blocks handed out") {
    TestAlloc al; al.fake = true; al.block = &al; Heap h(1 << 16, al); u64 lim = vk_u64("limit"), total = vk_u64("total"), size = vk_u64("size"); vk_assume(total <= lim); h.max_size_ = lim; h.stats_.total_bytes = total; al.mode = (int) vk_choice("allocator", 0, 2); u64 align = (u64) 1 << vk_choice("alignment", 4, 6); void* r = nullptr; bool err = false;
    try { r = h.allocate_raw(size, align); } catch (const Error& e) { err = true; vk_assert(e.code() == TIRO_ERROR_ALLOC, "reported as out of memory"); } catch (const std::bad_alloc&) { err = true; }
    bool fits = size <= lim - total; vk_assert(al.calls == fits, "the allocator is asked exactly if the limit permits"); vk_assert(err == (!fits || al.mode != 0), "refused exactly if there is no memory");
    if (err) { vk_assert(h.stats_.total_bytes == total, "a refused request changes nothing"); if (fits) vk_cover("failed"); else vk_cover("limit"); return; }
    vk_assert(r == &al && al.size == size && al.align == align && h.stats_.total_bytes == total + size, "the block is counted"); h.free_raw(r, size, align); vk_assert(h.stats_.total_bytes == total && al.frees == 1 && al.fsize == size && al.falign == align && al.freed == r, "until it is freed"); vk_cover("ok");
}
// ------------------------------------------------------------------ size classes
VK_CONTRACT(size_classes, "P07", "proof", "FreeSpace::FreeSpace, class_index, class_size, class_count", "for every page size and every number of cells: the size class exists, its size is not larger, and the next class is larger; class sizes increase") {
    PageLayout l = Page::compute_layout(page_sizes()); FreeSpace f(l); u32 n = vk_range32("cells", 1, 0xffffffff), c = f.class_count(), i = f.class_index(n); vk_assert(i < c && f.lists_.size() == c, "the class exists"); vk_assert(f.class_size(i) <= n, "every block of a class has at least its size"); vk_assert(i + 1 == c || f.class_size(i + 1) > n, "and less than that of the next class");
    u32 k = vk_range32("class", 0, c - 1); vk_assert(f.class_index(f.class_size(k)) == k, "the size of a class belongs to it"); vk_assert(k + 1 == c || f.class_size(k) < f.class_size(k + 1), "sizes increase");
}
// ------------------------------------------------------------------ allocation
// vk-covers: heap_allocate small, large, page, collected, refused, too large
VK_CONTRACT(heap_allocate, "P07", "proof", "Heap::allocate (against the contracts of add_lob, allocate_exact, collect, add_page)", "for every request size, page layout and state of the counters: the storage comes from one source, which was asked for exactly the cells needed, never from before a collection; the counters grow by exactly the storage; a request that cannot be satisfied is reported and leaves the counters unchanged") {
    TestAlloc al; Heap h(1 << 16, al); lay(h).large_object_cells = vk_range32("large objects from", 1, 1 << 20); u64 n = vk_range("bytes", 1, UINT64_MAX); g = Log(); g.on = true; h.stats_.allocated_bytes = vk_u64("allocated"); h.stats_.free_bytes = vk_u64("free"); h.stats_.allocated_objects = vk_u64("objects"); h.collector_.next_threshold_ = vk_u64("threshold"); g.base = h.stats_; HeapStats initial = h.stats_;
    bool pages = vk_choice("has pages", 0, 1) == 1; if (pages) h.pages_.insert(TIRO_NN(reinterpret_cast<Page*>(0x50000000))); g.ok_at = vk_choice("failed attempts", 0, 3); g.lob_fails = g.page_fails = vk_choice("out of memory", 0, 1) == 1;
    void* r = nullptr; ChunkType t{}; bool err = false; int code = 0; try { auto [a, b] = h.allocate(n); r = a; t = b; } catch (const Error& e) { err = true; code = e.code(); }
    h.pages_.clear(); g.on = false; u64 cells = n / 16 + (n % 16 != 0); vk_assert(!g.late && !g.mixed, "storage is never taken before a collection");
    auto same = [](const HeapStats& a, const HeapStats& b) { return a.allocated_bytes == b.allocated_bytes && a.free_bytes == b.free_bytes && a.allocated_objects == b.allocated_objects && a.total_bytes == b.total_bytes; };
    if (cells > 0xffffffff) { vk_assert(err && code == TIRO_ERROR_ALLOC && g.given == 0, "too large"); vk_assert(same(h.stats_, g.base), "nothing is counted"); vk_cover("too large"); return; }
    if (g.lobs + g.exacts) vk_assert(g.cells == cells, "exactly the cells needed are requested");
    if (err) { vk_assert(g.given == 0 && g.lob_fails, "only reported if there is no memory"); vk_assert(same(h.stats_, g.base), "nothing is counted"); vk_cover("refused"); return; }
    vk_assert(g.given == 1, "one piece of storage"); if (g.collects) vk_cover("collected"); if (g.pages) vk_cover("page");
    bool large = cells >= h.layout().large_object_cells; vk_assert(t == (large ? ChunkType::LargeObject : ChunkType::Page) && g.lobs == large, "large objects get a chunk of their own");
    if (large) { vk_assert((u64) r == (u64) g_lob + sizeof(LargeObject), "the cells of the chunk"); vk_cover("large"); } else { vk_assert((u64) r == ADDR, "the storage found"); vk_cover("small"); }
    vk_assert(h.stats_.allocated_objects == g.base.allocated_objects + 1 && h.stats_.allocated_bytes == g.base.allocated_bytes + cells * 16 && h.stats_.free_bytes == g.base.free_bytes - (large ? 0 : cells * 16), "the storage is counted"); (void) initial;
}
namespace {
struct Block { u32 at, n; };
// the free lists hold exactly these blocks, each once, in the right class, and the bitmaps agree
void check_free(FreeSpace& f, Page* p, const std::vector<Block>& want) {
    u64 found = 0; std::vector<char> seen(want.size());
    for (u32 c = 0; c < f.lists_.size(); c++) for (FreeListEntry* e = f.lists_[c].head; e; e = e->next) {
        vk_assert(++found <= want.size(), "every free block is listed once"); u32 at = p->cell_index(e); bool ok = false; for (size_t i = 0; i < want.size(); i++) if (want[i].at == at && want[i].n == e->cells && !seen[i]) { seen[i] = 1; ok = true; }
        vk_assert(ok, "only free blocks are listed"); vk_assert(f.class_index((u32) e->cells) == c, "in the class of their size"); vk_assert(p->is_free_block_start(at), "and marked as free");
    }
    vk_assert(found == want.size(), "every free block is listed");
}
const u32 lens[] = {1, 2, 15, 16, 23, 24, 40};
}
// vk-covers: free_exact exact, split, none
VK_CONTRACT(free_exact, "P07", "bounded: up to 3 free blocks of 7 sizes, 14 request sizes", "FreeSpace::allocate_exact, allocate_chunk, insert_free_with_metadata, insert_free, first_fit, push, class_index, Page::set_allocated, set_free, get_block_extent", "a request is satisfied exactly if some free block is large enough, from the start of one such block; its rest stays free; all other blocks are unchanged") {
    static const u32 reqs[] = {1, 2, 3, 14, 15, 16, 17, 20, 23, 24, 28, 32, 33, 41}; TestAlloc al; Heap h(1 << 16, al); Page* p = mkpage(h, 256); FreeSpace& f = h.free_; std::vector<Block> free; u64 count = vk_choice("free blocks", 0, 3); u32 pos = (u32) vk_choice("first", 0, 1) * 31;
    for (u64 i = 0; i < count; i++) { u32 n = lens[vk_choice("size", 0, 6)]; f.insert_free_with_metadata(Span<Cell>(p->cell(pos), n)); free.push_back({pos, n}); pos += n; p->set_allocated(pos, 3); pos += 3; }
    check_free(f, p, free); bool chunk = vk_choice("chunk", 0, 1) == 1; u32 k = reqs[vk_choice("request", 0, 13)]; Cell* c; u32 got = k; if (chunk) { auto s = f.allocate_chunk(k); c = s.data(); got = (u32) s.size(); } else c = f.allocate_exact(k); bool fits = false; for (auto& b : free) if (b.n >= k) fits = true;
    vk_assert((c != nullptr && got > 0) == fits, "satisfied exactly if a block is large enough");
    if (fits) { u32 at = p->cell_index(c); bool ok = false; for (size_t i = 0; i < free.size(); i++) if (free[i].at == at) { vk_assert(free[i].n >= got && got >= k, "the block is large enough"); ok = true; vk_assert(p->is_allocated_block_start(at) && !p->is_cell_marked(at), "it is marked as allocated"); vk_assert(p->get_block_extent(at) == got, "with its size"); if (free[i].n == got) { free.erase(free.begin() + (long) i); vk_cover("exact"); } else { vk_assert(!chunk, "a chunk is a whole block"); free[i] = {at + k, free[i].n - k}; vk_cover("split"); } break; } vk_assert(ok, "storage is the start of a free block"); } else vk_cover("none");
    check_free(f, p, free); f.reset(); check_free(f, p, {}); Page::destroy(TIRO_NN(p));
}
// ------------------------------------------------------------------ sweeping a page
// vk-covers: page_sweep live, dead, merged, finalized, full
VK_CONTRACT(page_sweep, "P07,P08", "bounded: all block structures and marks in windows of 5 cells at the start, the end and the word boundaries of a page of 70 cells", "Page::sweep, invoke_finalizers, BitsetView (find_set, clear, test), FreeSpace::insert_free", "live blocks stay allocated and become unmarked, everything else becomes free as maximal blocks, each listed once; finalizers of dead objects run once and those of live ones do not run; the counts are exact") {
    const u32 N = 70, W = 5; static const u32 starts[] = {0, 30, 62, 65}; TestAlloc al; Heap h(1 << 16, al); Page* p = mkpage(h, N); u32 s0 = starts[vk_choice("window", 0, 3)];
    // before the window: one block, live, dead or free; each cell of the window: start of a live, dead or free block or extent of the previous block
    u8 kind[N]; u8 cur = 0; bool fin[N] = {}; if (s0) cur = (u8) (1 + vk_choice("before", 0, 2));
    for (u32 i = 0; i < N; i++) {
        u8 k = 0; if (i == 0 && s0) k = cur; else if (i >= s0 && i < s0 + W) k = (u8) vk_choice("cell", i == 0 ? 1 : 0, 3); else if (i == 0) k = 3; else if (i == s0 + W) k = (u8) vk_choice("after", 0, 1) * 3;
        kind[i] = k; if (k == 1 || k == 2) p->set_allocated(i, 1); if (k == 1) p->set_cell_marked(i, true); if (k == 3) p->set_free(i, 1); if ((k == 1 || k == 2) && (i & 1)) { p->mark_finalizer(i); fin[i] = true; }
    }
    std::vector<Block> free; u64 live = 0; bool on = false; for (u32 i = 0; i < N; i++) { if (kind[i] == 1) on = true; else if (kind[i] != 0) on = false; if (on) { live++; continue; } if (!free.empty() && free.back().at + free.back().n == i) { free.back().n++; if (kind[i]) vk_cover("merged"); } else free.push_back({i, 1}); }
    FreeSpace& f = h.free_; Page::SweepStats st; std::vector<u64> fz; g = Log(); g.record = true; g.finalized = &fz; p->sweep(st, f); g.record = false;
    vk_assert(st.allocated_cells == live && st.free_cells == N - live, "exact counts"); check_free(f, p, free); for (auto& b : free) vk_assert(p->get_block_extent(b.at) == b.n, "the size of a free block"); if (free.empty()) vk_cover("full");
    size_t nf = 0; for (u32 i = 0; i < N; i++) { if (kind[i] == 1) { vk_assert(p->is_allocated_block_start(i) && !p->is_cell_marked(i), "live blocks stay, unmarked"); vk_assert((p->finalizers_.count(i) != 0) == fin[i], "their finalizers are kept"); vk_cover("live"); } else { vk_assert(!p->is_allocated_block_start(i), "nothing else is allocated"); vk_assert(!p->finalizers_.count(i), "no finalizers for free cells"); if (kind[i] == 2) vk_cover("dead"); if (kind[i] == 2 && fin[i]) { nf++; u64 n = 0; for (u64 a : fz) n += a == (u64) p->cell(i); vk_assert(n == 1, "the finalizer of a dead object runs once"); vk_cover("finalized"); } } }
    vk_assert(fz.size() == nf, "no other finalizers run"); p->finalizers_.clear(); f.reset(); Page::destroy(TIRO_NN(p));
}
// ------------------------------------------------------------------ bit sets
// vk-covers: bits_find found, none
VK_CONTRACT(bits_find, "P07", "bounded: bit sets of up to 80 bits in words of 32 bits, all contents", "BitsetView::find_set, find_unset, test, count", "the first set or unset bit at or after a position, for all contents and positions; exact counts") {
    static const u64 sizes[] = {1, 31, 32, 33, 64, 80}; u64 n = sizes[vk_choice("bits", 0, 5)]; u32 w[3]; for (auto& x : w) x = vk_u32("word"); BitsetView<u32> b(Span<u32>(w, 3), n); u64 at = vk_choice("position", 0, n); bool unset = vk_choice("unset", 0, 1) == 1; u64 r = unset ? b.find_unset(at) : b.find_set(at);
    auto bit = [&](u64 i) { return (((w[i / 32] >> (i % 32)) & 1) != 0) != unset; }; u64 want = ~(u64) 0; for (u64 i = n; i-- > at;) want = vk_ite64(bit(i), i, want); vk_assert(r == want, "the first such bit"); if (r == ~(u64) 0) vk_cover("none"); else vk_cover("found");
}
VK_CONTRACT(bits_change, "P07", "bounded: bit sets of up to 80 bits in words of 32 bits, all contents", "BitsetView::set, clear, clear (range), count (range), test", "exactly the selected bits change, for all contents and ranges") {
    static const u64 sizes[] = {1, 32, 33, 80}; u64 n = sizes[vk_choice("bits", 0, 3)]; u32 w[3], o[3]; for (int i = 0; i < 3; i++) o[i] = w[i] = vk_u32("word"); BitsetView<u32> b(Span<u32>(w, 3), n); u64 op = vk_choice("operation", 0, 3);
    if (op == 0) { u64 i = vk_choice("bit", 0, n - 1); bool v = vk_bool("value"); vk_assert(b.test(i) == (((o[i / 32] >> (i % 32)) & 1) != 0), "test"); b.set(i, v); u32 m = (u32) 1 << (i % 32); vk_assert(w[i / 32] == (u32) vk_ite64(v, o[i / 32] | m, o[i / 32] & ~m), "exactly that bit"); for (u64 k = 0; k < 3; k++) if (k != i / 32) vk_assert(w[k] == o[k], "no other bit"); return; }
    static const u64 ps[] = {0, 1, 7, 31, 32, 33, 50, 63, 64, 65, 79, 80}; u64 a = ps[vk_choice("begin", 0, 11)], e = ps[vk_choice("end", 0, 11)]; if (a > e || e > n) vk_end();
    if (op == 1) { b.clear(a, e - a); for (u64 k = 0; k < 3; k++) { u32 m = 0; for (u64 i = a; i < e; i++) if (i / 32 == k) m |= (u32) 1 << (i % 32); vk_assert(w[k] == (o[k] & ~m), "exactly the selected bits are cleared"); } }
    else if (op == 2) { u64 c = 0; for (u64 k = 0; k < 3; k++) { u32 m = 0; for (u64 i = a; i < e; i++) if (i / 32 == k) m |= (u32) 1 << (i % 32); if (m) c += (u64) __builtin_popcount(w[k] & m); } vk_assert(b.count(a, e - a) == c, "the number of set bits"); }
    else { b.clear(); for (u64 k = 0; k * 32 < n; k++) vk_assert(w[k] == 0, "all bits are cleared"); }
}
// ------------------------------------------------------------------ histories of a heap
namespace {
struct Obj { u64 at, bytes; bool large; u8 tag; bool keep; };
std::vector<Obj>* g_objs;
void fill(Obj& o) { auto p = (unsigned char*) o.at; u64 n = (o.bytes + 15) / 16 * 16; p[0] = p[8] = p[n - 1] = o.tag; }
bool intact(const Obj& o) { auto p = (unsigned char*) o.at; u64 n = (o.bytes + 15) / 16 * 16; return p[0] == o.tag && p[8] == o.tag && p[n - 1] == o.tag; }
// a collection that reaches exactly the objects to keep
void collect_kept(Heap& h) { h.collector_.running_ = true; for (auto& o : *g_objs) if (o.keep) { if (o.large) LargeObject::from_address((void*) o.at)->set_marked(true); else { auto p = Page::from_address((void*) o.at, h.layout()); p->set_cell_marked(p->cell_index((void*) o.at), true); } } h.sweep(); h.collector_.running_ = false; std::vector<Obj> rest; for (auto& o : *g_objs) if (o.keep) rest.push_back(o); *g_objs = rest; }
}
// vk-covers: heap_history small, large, page, swept, refused
VK_CONTRACT(heap_history, "P07", "bounded: all histories of 4 operations, after 0 to 3 allocations: allocations of 6 sizes, collections that keep all, none, or every other object; pages of 24 cells; a limit of one page and a small object in half of them", "Heap::allocate, sweep, add_page, add_lob, destroy_lob, allocate_raw, free_raw, ~Heap, FreeSpace, Page, LargeObject", "storage of live objects is disjoint, aligned, inside a page or chunk of the heap and keeps its content; released storage is used again; the counters are exact; a refused request changes nothing") {
    TestAlloc al; g = Log(); std::vector<Obj> objs; g_objs = &objs; { Heap h(1 << 16, al); lay(h).cells_size = 24; lay(h).large_object_cells = 10; g.collect = collect_kept; bool lim = vk_choice("limit", 0, 1) == 1; if (lim) h.max_size_ = (1 << 16) + 200; h.collector_.next_threshold_ = ~(u64) 0; static const u64 sizes[] = {1, 16, 17, 144, 145, 160}; u8 tag = 1; for (u64 k = vk_choice("earlier", 0, 3); k-- > 0;) { u64 n = 16 * (2 + 2 * k); Obj o{(u64) std::get<0>(h.allocate(n)), n, false, tag++, true}; fill(o); objs.push_back(o); }
        for (int i = 0; i < 4; i++) {
            u64 op = vk_choice("operation", 0, 8); if (op >= 6) { for (size_t k = 0; k < objs.size(); k++) objs[k].keep = op == 6 || (op == 7 && k % 2); collect_kept(h); vk_cover("swept"); }
            else { for (auto& o : objs) o.keep = true; HeapStats was = h.stats_; u64 pages = h.pages_.size(); bool err = false; Obj o{0, sizes[op], false, tag++, true}; if (op == 3 || op == 2) o.bytes = sizes[op];
                try { auto [a, t] = h.allocate(o.bytes); o.at = (u64) a; o.large = t == ChunkType::LargeObject; } catch (const Error&) { err = true; }
                if (err) { vk_assert(lim, "only the limit refuses requests"); vk_assert(h.stats_.total_bytes == was.total_bytes && h.stats_.allocated_bytes == was.allocated_bytes && h.stats_.free_bytes == was.free_bytes && h.pages_.size() == pages, "a refused request changes nothing"); vk_cover("refused"); }
                else { u64 n = (o.bytes + 15) / 16 * 16; vk_assert(o.at % 16 == 0, "aligned"); if (o.large) { auto l = LargeObject::from_address((void*) o.at); vk_assert(h.lobs_.contains(l) && l->cells_count() * 16 >= o.bytes, "in a chunk of the heap that is large enough"); vk_cover("large"); } else { auto p = Page::from_address((void*) o.at, h.layout()); vk_assert(h.pages_.contains(p), "in a page of the heap"); vk_assert(o.at >= (u64) p->cells().data() && o.at + n <= (u64) p->cells().data() + 16 * p->cells().size(), "among its cells"); vk_cover("small"); if (h.pages_.size() > 1) vk_cover("page"); }
                    for (auto& x : objs) vk_assert(o.at + n <= x.at || x.at + (x.bytes + 15) / 16 * 16 <= o.at, "disjoint from all live objects"); fill(o); objs.push_back(o); } }
            u64 bytes = 0, in_pages = 0, large = 0; for (auto& o : objs) { vk_assert(intact(o), "the content of live objects is kept"); u64 n = (o.bytes + 15) / 16 * 16; bytes += n; if (o.large) large++; else in_pages += n; }
            vk_assert(h.stats_.allocated_bytes == bytes && h.lobs_.size() == large && h.stats_.free_bytes == h.pages_.size() * 384 - in_pages, "the counters are exact"); vk_assert(h.stats_.total_bytes == al.bytes && al.live == h.pages_.size() + large, "all memory is counted");
            u64 listed = 0; for (auto& l : h.free_.lists_) for (auto e = l.head; e; e = e->next) { listed += e->cells; for (auto& o : objs) vk_assert((u64) e + e->cells * 16 <= o.at || o.at + (o.bytes + 15) / 16 * 16 <= (u64) e, "free storage is disjoint from live objects"); } vk_assert(listed * 16 == h.stats_.free_bytes, "all free storage is available");
        } }
    g.collect = nullptr; vk_assert(al.live == 0 && al.bytes == 0, "a heap returns all of its memory");
}
// vk-covers: heap_faults failed, ok
VK_CONTRACT(heap_faults, "P07", "bounded: one failing request of the heap for memory at any of 4 positions, 4 allocations", "Heap::allocate, add_page, add_lob, allocate_raw, Page::allocate, LargeObject::allocate", "when the allocator has no memory the request is reported and the heap is unchanged and usable afterwards") {
    TestAlloc al; g = Log(); { Heap h(1 << 16, al); lay(h).cells_size = 40; lay(h).large_object_cells = 10; std::vector<Obj> none; g_objs = &none; al.fail_at = (i64) vk_choice("fails at", 0, 3); al.throws = vk_choice("throws", 0, 1) == 1;
        g.collect = [](Heap&) {};
        for (int i = 0; i < 4; i++) { u64 n = vk_choice("large", 0, 1) ? 640 : 144; HeapStats was = h.stats_; u64 pages = h.pages_.size(), lobs = h.lobs_.size(); bool err = false; try { h.allocate(n); } catch (const Error& e) { err = true; vk_assert(e.code() == TIRO_ERROR_ALLOC, "reported as out of memory"); } catch (const std::bad_alloc&) { err = true; } vk_assert(err == (al.fail_at >= 0 && (i64) al.calls == al.fail_at + 1), "reported exactly if memory was refused"); if (err) { al.fail_at = -1; vk_assert(h.stats_.total_bytes == was.total_bytes && h.stats_.allocated_bytes == was.allocated_bytes && h.stats_.free_bytes == was.free_bytes && h.stats_.allocated_objects == was.allocated_objects && h.pages_.size() == pages && h.lobs_.size() == lobs, "nothing changes"); vk_cover("failed"); } else vk_cover("ok"); } }
    g.collect = nullptr; vk_assert(al.live == 0, "a heap returns all of its memory");
}
// ------------------------------------------------------------------ objects
// vk-covers: object_size too large, fits
VK_CONTRACT(object_size, "P07", "proof", "safe_array_size, unsafe_array_size, LayoutTraits::dynamic_alloc_size", "the storage requested for an object with any number of elements covers the header and all elements exactly, or the request is refused because that is not representable") {
    u64 n = vk_u64("elements"); u64 k = vk_choice("layout", 0, 3); u64 r = 0; bool err = false; u64 inst = 0, el = 0;
    try { if (k == 0) { inst = sizeof(Tuple::Layout); el = sizeof(Value); r = LayoutTraits<Tuple::Layout>::dynamic_alloc_size(n); } else if (k == 1) { inst = sizeof(ArrayStorage::Layout); el = sizeof(Value); r = LayoutTraits<ArrayStorage::Layout>::dynamic_alloc_size(n); } else if (k == 2) { inst = sizeof(Buffer::Layout); el = 1; r = LayoutTraits<Buffer::Layout>::dynamic_alloc_size(n); } else { inst = sizeof(HashTableStorage::Layout); el = sizeof(HashTableEntry); r = LayoutTraits<HashTableStorage::Layout>::dynamic_alloc_size(n); } } catch (const Error&) { err = true; }
    u64 max = (UINT64_MAX - inst) / el; vk_assert(err == (n > max), "refused exactly if not representable"); if (err) vk_cover("too large"); else { vk_assert(r == inst + n * el, "exactly the header and the elements"); vk_cover("fits"); }
}
