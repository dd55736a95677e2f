// Contracts of arenas and string tables.
// vk-link: common
#include "vk.h"
#include "stubs.hpp"
#include "common/memory/arena.hpp"
#include "common/text/string_table.hpp"
#include <new>
#include <string>
#include <vector>
using namespace tiro;
extern "C" vk_replacement vk_replacements_memory[];
vk_replacement vk_replacements_memory[] = { VK_BASE_REPLACEMENTS };

static size_t any_align() { return (size_t) 1 << vk_choice("alignment", 0, 4); }

// vk-covers: arena_allocate fast, slow, fails
VK_CONTRACT(arena_allocate, "P19", "proof", "Arena::allocate, allocate_slow_path, allocate_block, round_block_size", "in every state of an arena and for every size and alignment: the storage is aligned, inside free space of the current block or in a new block, and the remaining free space is what follows it") {
    Arena a((size_t) 16 << 4 * vk_choice("block size", 0, 2));
    u64 n = vk_range("block", 0, (u64) 1 << 30), off = vk_range("position", 0, (u64) 1 << 30);
    vk_assume(off <= n);
    byte* blk = (byte*) vk_array("block", vk_symbolic() ? n : n & 0xffff, 1);
    if (!vk_symbolic()) { n &= 0xffff; off = n ? off % (n + 1) : 0; }
    a.current_ptr_ = blk + off; a.current_remaining_ = n - off;
    a.memory_used_ = vk_range("used", 0, (u64) 1 << 40); a.memory_total_ = vk_range("total", 0, (u64) 1 << 40);
    u64 used = a.memory_used_, total = a.memory_total_;
    Arena::Block* head = a.head_;
    u64 size = vk_range("size", 1, vk_symbolic() ? UINT64_MAX : (u64) 1 << 16); size_t align = any_align();
    if (vk_symbolic()) vk_assume(size <= (u64) 1 << 40 || size >= UINT64_MAX - 5); // sizes malloc can satisfy, and sizes whose rounding overflows
    void* p = nullptr; bool failed = false;
    try { p = a.allocate(size, align); } catch (const std::bad_alloc&) { failed = true; }
    if (failed) { vk_assert(size >= UINT64_MAX - 16383, "only unrepresentable sizes are refused"); vk_assert(a.memory_used_ == used && a.head_ == head, "a refused request changes nothing"); vk_cover("fails"); }
    else {
        u64 addr = (u64) p;
        vk_assert(p != nullptr && addr % align == 0, "storage is aligned");
        vk_assert(a.memory_used_ == used + size, "used bytes count the request");
        if (a.head_ == head) {
            vk_assert(addr >= (u64) blk + off && size <= n && addr - (u64) blk <= n - size, "storage lies in the free part of the block");
            vk_assert((u64) a.current_ptr_ == addr + size && a.current_remaining_ == n - (addr + size - (u64) blk), "the free part is what follows the storage");
            vk_assert(a.memory_total_ == total, "no memory was added");
            vk_cover("fast");
        } else {
            Arena::Block* b = a.head_;
            vk_assert(b->next_ == head, "the new block is linked in front of the others");
            vk_assert(addr >= (u64) b->data() && addr + size <= (u64) b + b->size_, "storage lies in the new block");
            vk_assert((u64) a.current_ptr_ == addr + size && (u64) a.current_ptr_ + a.current_remaining_ == (u64) b + b->size_, "the free part is what follows the storage");
            vk_assert(a.memory_total_ == total + b->size_ && (b->size_ & (a.min_block_size_ - 1)) == 0, "block accounting");
            ((byte*) p)[0] = 1; ((byte*) p)[size - 1] = 1;
            vk_cover("slow");
        }
    }
    if (a.head_) a.head_->next_ = nullptr; else a.current_ptr_ = nullptr;
}
VK_CONTRACT(arena_round, "P19", "proof", "Arena::round_block_size", "the least multiple of the block size that is not smaller, or bad_alloc if there is none") {
    u64 k = vk_choice("log", 4, 40); Arena a((size_t) 1 << k);
    u64 size = vk_range("size", 1, UINT64_MAX), r = 0; bool failed = false;
    try { r = a.round_block_size(size); } catch (const std::bad_alloc&) { failed = true; }
    u64 m = ((u64) 1 << k) - 1;
    vk_assert(failed == (size > ~m), "fails exactly if the result does not fit");
    if (!failed) vk_assert(r >= size && (r & m) == 0 && r - size <= m, "least multiple");
}
VK_CONTRACT(arena_history, "P19", "bounded: 4 allocations of any size up to 200 bytes (12 sizes) with any alignment, block size 64", "Arena::allocate, deallocate, Arena(Arena&&)", "all storage stays disjoint and keeps its contents until the arena is cleared") {
    static const u32 sizes[] = {1, 2, 3, 7, 8, 15, 16, 17, 47, 48, 49, 200};
    Arena a(64); byte* p[4]; u64 s[4]; u64 sum = 0;
    for (u64 i = 0; i < 4; i++) {
        s[i] = sizes[i < 3 ? vk_choice("size", 0, 11) : (s[0] + s[1]) % 12]; size_t al = i < 2 ? any_align() : (size_t) 1 << ((s[i] + i) % 5);
        p[i] = (byte*) a.allocate(s[i], al); sum += s[i];
        vk_assert((u64) p[i] % al == 0, "storage is aligned");
        memset(p[i], (int) (i + 1), s[i]);
        for (u64 j = 0; j < i; j++) vk_assert(p[i] + s[i] <= p[j] || p[j] + s[j] <= p[i], "storage is disjoint from all earlier storage");
        vk_assert(a.used_bytes() == sum && a.total_bytes() >= sum, "accounting");
    }
    Arena b(std::move(a));
    for (u64 i = 0; i < 4; i++) vk_assert(p[i][0] == i + 1 && p[i][s[i] - 1] == i + 1, "contents are kept, also when the arena is moved");
    vk_assert(a.used_bytes() == 0 && b.used_bytes() == sum, "moving transfers the storage");
    b.deallocate(); vk_assert(b.used_bytes() == 0 && b.total_bytes() == 0, "clearing releases everything");
    vk_assert(b.allocate(8) != nullptr && b.used_bytes() == 8, "a cleared arena can be used again");
}
// ------------------------------------------------------------------ string table
static const std::string_view texts[] = {std::string_view("", 0), std::string_view("a"), std::string_view("a\0", 2), std::string_view("a\0b", 3), std::string_view("b"), std::string_view("ab"), std::string_view("\xff\xfe", 2), std::string_view("a rather long identifier that does not fit any small buffer")};
VK_CONTRACT(table_sequences, "P19", "bounded: all sequences of 4 insertions of 8 texts", "StringTable::insert, find, value, value_or, dump, size, byte_size", "equal texts yield the same id, different texts different ids, and an id maps back to its text") {
    StringTable t; u32 id[8] = {}; size_t n = 0, bytes = 0;
    vk_assert(!t.find("a"), "a new table is empty");
    for (u64 i = 0; i < 4; i++) {
        u64 k = vk_choice("text", 0, 7);
        std::string copy(texts[k]); // the table must not keep the caller's storage
        InternedString s = t.insert(copy);
        copy.assign(copy.size(), 'X');
        vk_assert(s.valid() && (bool) s, "ids are valid");
        if (id[k]) vk_assert(s.value() == id[k], "the same text yields the same id");
        else { for (u64 j = 0; j < 8; j++) vk_assert(id[j] != s.value(), "a different text yields a different id"); id[k] = s.value(); n++; bytes += texts[k].size(); }
        vk_assert(t.size() == n && t.byte_size() == bytes, "accounting");
        for (u64 j = 0; j < 8; j++) {
            auto f = t.find(texts[j]);
            vk_assert(f.has_value() == (id[j] != 0) && (!f || f->value() == id[j]), "find yields the id of exactly the texts inserted");
            if (id[j]) vk_assert(t.value(InternedString(id[j])) == texts[j], "an id maps back to its text");
        }
    }
    vk_assert(t.value_or(InternedString(), "def") == "def" && t.value_or_empty(InternedString()) == "", "the invalid id has no text");
    bool raised = false; try { t.value(InternedString()); } catch (const Error&) { raised = true; }
    vk_assert(raised, "the value of an invalid id is an error");
}
VK_CONTRACT(table_long, "P19", "bounded: one history of 700 distinct texts", "StringTable::insert, find, value", "ids and texts stay stable while the table and its arena grow") {
    StringTable t; std::vector<u32> ids; std::vector<std::string_view> views; char buf[64];
    auto text = [&](u32 i) { size_t n = 0; for (u32 x = i * 2654435761u + 1; x; x /= 7) buf[n++] = (char) ('a' + x % 7); for (u32 k = 0; k < i % 40; k++) buf[n++] = '.'; return std::string_view(buf, n); };
    for (u32 i = 0; i < 700; i++) { auto s = t.insert(text(i)); ids.push_back(s.value()); views.push_back(t.value(s)); }
    vk_assert(t.size() == 700, "all texts are distinct");
    StringTable m(std::move(t));
    for (u32 i = 0; i < 700; i++) {
        auto x = text(i);
        vk_assert(m.insert(x).value() == ids[i], "the id is stable");
        vk_assert(m.value(InternedString(ids[i])) == x && views[i] == x, "the text is stable");
        for (u32 j = i + 1; j < i + 3 && j < 700; j++) vk_assert(ids[i] != ids[j], "ids are distinct");
    }
    vk_assert(m.size() == 700, "nothing was added");
}
VK_CONTRACT(table_overflow, "P19", "bounded: table states around the last id", "StringTable::insert", "ids are never reused: when all ids are taken the table refuses") {
    StringTable t; auto a = t.insert("a");
    t.next_index_ = UINT32_MAX - (u32) vk_choice("left", 0, 1);
    u64 refused = 0;
    for (u64 i = 0; i < 4; i++) { char c = (char) ('b' + i); try { auto s = t.insert(std::string_view(&c, 1)); vk_assert(s.valid() && s != a, "a fresh id"); } catch (const Error&) { refused++; } }
    vk_assert(refused >= 2 && t.value(a) == "a" && t.insert("a") == a, "the table refuses instead of reusing ids");
}
