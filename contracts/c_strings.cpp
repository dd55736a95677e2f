// Contracts of strings, slices, iterators and builders.
// vk-link: core
// vk-native: contracts
#include "calls_harness.hpp"
#include "vm/objects/native.hpp"
#include <string>
using namespace vk;
namespace {
bool g_buf; u64 g_buffers, g_size, g_content, g_def; u64 g_buffer;
// Contract of Buffer::make(content, size, default): a new buffer of that size starting with the content.
static Buffer vk_stub_buffer(Context& ctx, Span<const byte> content, size_t size, byte def) { if (!g_buf) return Buffer::make(ctx, content, size, def); g_buffers++; g_size = size; g_content = content.size(); g_def = (u64) def; Value v(Value::null()); memcpy((void*) &v, &g_buffer, 8); return v.must_cast<Buffer>(); }
static Buffer vk_stub_buffer2(Context& ctx, size_t size, byte def) { if (!g_buf) return Buffer::make(ctx, size, def); g_buffers++; g_size = size; g_content = 0; g_def = (u64) def; Value v(Value::null()); memcpy((void*) &v, &g_buffer, 8); return v.must_cast<Buffer>(); }
void reset_ghost() { g_buf = false; g_buffers = 0; }
}
extern "C" vk_replacement vk_replacements_strings[];
vk_replacement vk_replacements_strings[] = { VK_VM_REPLACEMENTS, { "tiro::vm::Buffer::make(tiro::vm::Context&, tiro::Span<std::byte const>, unsigned long, std::byte)", (void*) vk_stub_buffer }, { "tiro::vm::Buffer::make(tiro::vm::Context&, tiro::Span<unsigned char const>, unsigned long, unsigned char)", (void*) vk_stub_buffer }, { "tiro::vm::Buffer::make(tiro::vm::Context&, unsigned long, unsigned char)", (void*) vk_stub_buffer2 } };
namespace {
void set_size(String s, u64 n) { s.layout()->capacity_ = n; }
u64 umin(u64 a, u64 b) { return vk_ite64(a < b, a, b); }
bool same(std::string_view a, const char* b, u64 n) { bool r = a.size() == n; for (u64 i = 0; i < a.size() && i < n; i++) r = vk_and(r, a[i] == b[i]); return r; }
void chars(char* p, u64 n) { for (u64 i = 0; i < n; i++) p[i] = (char) vk_u8("byte"); }
struct Arg { Value v; bool is; i64 i; };
}
// ------------------------------------------------------------------ slices
// A string or a slice of one of any size, and every slice of it.
static void slice_spec(bool of_slice) {
    World w; Local s = w.sc.local(String::make(w.ctx, "abcdef")); u64 n = vk_range("string size", 0, (u64) 1 << 62); u64 base = 0, len = n;
    Local sl = w.sc.local(StringSlice::make(w.ctx, s, 0, 0)); set_size(*s, n);
    if (of_slice) { base = vk_u64("offset of the slice"); len = vk_u64("size of the slice"); vk_assume(vk_and(base <= n, len <= n - base)); sl->layout()->static_payload()->offset = base; sl->layout()->static_payload()->size = len; }
    u64 a = vk_u64("offset"), b = vk_u64("size"); u64 off, size; u64 op = vk_choice("operation", 0, 2); Local r = w.sc.local(*sl);
    if (op == 0) { r.set(of_slice ? sl->slice_first(w.ctx, b) : s->slice_first(w.ctx, b)); off = 0; size = umin(b, len); }
    else if (op == 1) { r.set(of_slice ? sl->slice_last(w.ctx, b) : s->slice_last(w.ctx, b)); size = umin(b, len); off = len - size; }
    else { r.set(of_slice ? sl->slice(w.ctx, a, b) : s->slice(w.ctx, a, b)); off = umin(a, len); size = umin(b, len - off); }
    vk_assert(r->original().same(*s), "a slice refers to the original string");
    vk_assert(r->offset() == base + off && r->size() == size, "it is exactly the selected range, limited to the text");
    vk_assert(r->offset() <= n && r->size() <= n - r->offset(), "it never reaches outside of the text");
    vk_assert(r->data() == s->data() + (base + off), "its bytes are those of the string");
    if (of_slice) vk_assert(sl->offset() == base && sl->size() == len, "the slice it was made from is unchanged");
    set_size(*s, 6);
}
VK_CONTRACT(string_slice, "P06", "proof", "String::slice, slice_first, slice_last, StringSlice::make(String), data, size, offset, original", "a slice of a string is exactly the selected range, clamped to the text, for all sizes, offsets and lengths") { slice_spec(false); }
VK_CONTRACT(slice_slice, "P06", "proof", "StringSlice::slice, slice_first, slice_last, StringSlice::make(StringSlice)", "a slice of a slice is exactly the selected range of that slice, clamped to it, for all sizes, offsets and lengths") { slice_spec(true); }
// ------------------------------------------------------------------ methods
// vk-covers: slice_methods refused, negative, slice
VK_CONTRACT(slice_methods, "P06", "proof", "string_slice_impl, string_slice_first_impl, string_slice_last_impl, string_slice_slice_impl, string_slice_slice_first_impl, string_slice_slice_last_impl, slice_arg, string_size_impl, string_slice_size_impl", "the methods pass integer arguments on exactly, treat negative ones as zero, and refuse everything else; for all integers and all sizes") {
    Base w; Local s = w.sc.local(String::make(w.ctx, "abcdef")); u64 n = vk_range("string size", 0, (u64) 1 << 62); bool of_slice = vk_choice("slice", 0, 1) == 1; u64 base = 0, len = n;
    Local sl = w.sc.local(StringSlice::make(w.ctx, s, 0, 0)); set_size(*s, n);
    if (of_slice) { base = vk_u64("offset of the slice"); len = vk_u64("size of the slice"); vk_assume(vk_and(base <= n, len <= n - base)); sl->layout()->static_payload()->offset = base; sl->layout()->static_payload()->size = len; }
    Local coro = w.mkcoro(); u64 op = vk_choice("method", 0, 3); const char* names[] = {"slice_first", "slice_last", "slice", "size"}; u32 argc = op == 3 ? 1 : op == 2 ? 3 : 2;
    Value self = of_slice ? static_cast<Value>(*sl) : static_cast<Value>(*s); Local recv = w.sc.local(self); Local name = w.sc.local(w.ctx.get_symbol(names[op]));
    Local ty = w.sc.local(w.ctx.types().type_of(of_slice ? ValueType::StringSlice : ValueType::String)); auto mem = ty->find_member(name); vk_assert(mem.has_value(), "the method exists"); Local fn = w.sc.local(*mem); Local nf = w.sc.local(fn->is<Method>() ? fn.must_cast<Method>()->function() : *fn);
    Local native = w.sc.local(nf.must_cast<NativeFunction>()); Local st = w.sc.local(coro->stack().value());
    i64 v[2] = {0, 0}; bool ok = true; vk_assert(st->push_value(*recv), "room");
    for (u32 i = 1; i < argc; i++) { u64 k = vk_choice("argument", 0, 2); Local x = w.sc.local<Value>(); v[i - 1] = vk_i64("integer"); if (k == 0) x.set(w.ctx.get_integer(v[i - 1])); else if (k == 1) x.set(HeapInteger::make(w.ctx, v[i - 1])); else { ok = false; x.set(Float::make(w.ctx, 1)); } vk_assert(st->push_value(*x), "room"); }
    vk_assert(native->params() == argc, "the number of parameters"); vk_assert(st->push_resumable_frame(*native, argc, 0), "room"); auto frame = static_cast<ResumableFrame*>(st->top_frame());
    Local r1 = w.sc.local<Value>(); Local r2 = w.sc.local<Value>(); ResumableFrameContinuation cont({r1.mut(), r2.mut()}); ResumableFrameContext rfc(w.ctx, coro, TIRO_NN(frame), cont);
    native->function().invoke(rfc);
    bool raised = cont.action() == ResumableFrameContinuation::PANIC; vk_assert(raised || cont.action() == ResumableFrameContinuation::RETURN, "it returns or panics"); Value ret = *r1;
    if (!raised) ret = *cont.ret_data().value;
    vk_assert(raised == !ok, "exactly arguments that are no integers are refused"); if (raised) { vk_cover("refused"); set_size(*s, 6); return; }
    if (op == 3) { vk_assert(Integer::try_extract(ret) == (i64) len, "the size is the size of the text"); set_size(*s, 6); return; }
    u64 a = v[0] < 0 ? 0 : v[0], b = v[1] < 0 ? 0 : v[1], off, size; if (v[0] < 0) vk_cover("negative");
    if (op == 0) { off = 0; size = umin(a, len); } else if (op == 1) { size = umin(a, len); off = len - size; } else { off = umin(a, len); size = umin(b, len - off); }
    vk_assert(ret.is<StringSlice>(), "a slice"); auto r = ret.must_cast<StringSlice>(); vk_assert(r.original().same(*s) && r.offset() == base + off && r.size() == size, "of exactly the selected range"); vk_cover("slice");
    set_size(*s, 6);
}
// ------------------------------------------------------------------ text of strings
VK_CONTRACT(string_text, "P06", "bounded: texts of up to 20 bytes and of 300 and 70000 bytes, all bytes, all slices of texts of up to 6 bytes", "String::make (text, StringBuilder, StringSlice), String::data, size, view, StringSlice::to_string, StringBuilder::to_string, StringLike::view", "the text of a string is exactly the bytes it was made from, and stays so when what it was made from changes") {
    World w; u64 ns[] = {0, 1, 2, 3, 6, 8, 15, 20, 300, 70000}; u64 n = ns[vk_choice("size", 0, 9)]; std::vector<char> t(n + 1); if (n <= 20) chars(t.data(), n); else for (u64 i = 0; i < n; i++) t[i] = (char) (i * 7 + i / 251);
    u64 how = vk_choice("made from", 0, 2); Local s = w.sc.local<String>(defer_init); std::vector<char> want(t.begin(), t.begin() + n);
    if (how == 0) { s.set(String::make(w.ctx, std::string_view(t.data(), n))); for (auto& c : t) c = 'X'; }
    else if (how == 1) { Local b = w.sc.local(StringBuilder::make(w.ctx)); b->append(w.ctx, std::string_view(t.data(), n)); s.set(vk_choice("by", 0, 1) ? b->to_string(w.ctx) : String::make(w.ctx, b)); b->clear(); b->append(w.ctx, "????????"); }
    else { Local o = w.sc.local(String::make(w.ctx, std::string_view(t.data(), n))); u64 a = 0, k = n; if (n <= 6) { a = vk_choice("offset", 0, n); k = vk_choice("length", 0, n - a); } Local sl = w.sc.local(StringSlice::make(w.ctx, o, a, k)); s.set(vk_choice("by", 0, 1) ? sl->to_string(w.ctx) : String::make(w.ctx, sl)); want.assign(t.begin() + a, t.begin() + a + k);
        StringLike like(*sl); vk_assert(same(like.view(), want.data(), k) && same(sl->view(), want.data(), k), "the text of a slice"); }
    vk_assert(same(s->view(), want.data(), want.size()) && s->size() == want.size() && s->data() == s->view().data(), "the text is exactly the bytes it was made from");
    StringLike like(*s); vk_assert(like.view() .data() == s->data(), "seen as a string or slice it is the same text");
    vk_assert(!s->interned(), "a new string is not interned");
}
VK_CONTRACT(string_equal, "P06", "bounded: texts of up to 3 bytes, all bytes, all combinations of strings and slices", "String::equal, StringSlice::equal, String::hash, StringSlice::hash, str_hash", "strings and slices are equal exactly if their texts are equal, and equal texts have equal hashes") {
    World w; char t[2][4]; u64 n[2]; Local v = w.sc.local<Value>(); Local u = w.sc.local<Value>(); size_t h[2];
    for (int i = 0; i < 2; i++) {
        n[i] = vk_choice("size", 0, 3); chars(t[i], n[i]); u64 kind = vk_choice("kind", 0, 1); u64 pad = kind ? vk_choice("offset", 0, 1) : 0; char all[8] = "zzzzz"; for (u64 k = 0; k < n[i]; k++) all[pad + k] = t[i][k];
        Local s = w.sc.local(String::make(w.ctx, std::string_view(all, n[i] + 2 * pad))); auto& d = i ? u : v;
        if (kind) { auto sl = StringSlice::make(w.ctx, s, pad, n[i]); d.set(sl); h[i] = sl.hash(); } else { d.set(*s); h[i] = s->hash(); vk_assert(s->hash() == h[i], "the hash does not change"); }
    }
    bool eq = n[0] == n[1]; for (u64 i = 0; eq && i < n[0]; i++) { if (t[0][i] != t[1][i]) eq = false; }
    auto e = [](Value a, Value b) { return a.is<String>() ? a.must_cast<String>().equal(b) : a.must_cast<StringSlice>().equal(b); };
    vk_assert(e(*v, *u) == eq && e(*u, *v) == eq, "equal exactly if the texts are equal"); if (eq) vk_assert(h[0] == h[1], "equal texts have equal hashes");
    vk_assert(!e(*v, Value::null()) && !e(*v, SmallInteger::make(3)), "text is not equal to anything else");
}
// vk-covers: string_contains found, missing, refused
VK_CONTRACT(string_contains, "P06", "bounded: texts of up to 5 bytes and searched texts of up to 3, all bytes, as strings, slices and builders", "string_contains_impl, string_slice_contains_impl, string_builder_contains_impl, require_string_like, str_contains", "a text contains another exactly if it occurs at some position; anything but text is refused") {
    Base w; char a[10], b[10]; u64 n = vk_choice("size", 0, 5), m = vk_choice("searched size", 0, 3); chars(a, n); chars(b, m); u64 k = vk_choice("text", 0, 2), l = vk_choice("searched text", 0, 2); if (k == 1) { for (u64 i = n; i-- > 0;) a[i + 1] = a[i]; a[0] = (char) vk_u8("byte before"); } if (l == 1) b[m] = (char) vk_u8("byte after");
    Local s = w.sc.local(String::make(w.ctx, {a, n + (k == 1)})); Local t = w.sc.local(String::make(w.ctx, {b, m + (l == 1)})); Local ss = w.sc.local(s->slice(w.ctx, k == 1, n)); Local tt = w.sc.local(t->slice(w.ctx, 0, m)); Local sb = w.sc.local(StringBuilder::make(w.ctx)); sb->append(w.ctx, s); Local r = w.sc.local<Value>();
    Value self = k == 0 ? static_cast<Value>(*s) : k == 1 ? static_cast<Value>(*ss) : static_cast<Value>(*sb); Value arg = l == 0 ? static_cast<Value>(*t) : l == 1 ? static_cast<Value>(*tt) : static_cast<Value>(w.ctx.get_boolean(true)); const char* p = a + (k == 1); bool ok = call_method(w, self.type(), "contains", {self, arg}, r);
    if (l == 2) { vk_assert(!ok, "only text can be searched for"); vk_cover("refused"); return; }
    bool want = false; for (u64 i = 0; i + m <= n; i++) { bool at = true; for (u64 j = 0; j < m; j++) at = vk_and(at, p[i + j] == b[j]); want = vk_or(want, at); }
    vk_assert(ok && r->is<Boolean>(), "a boolean"); bool got = r->must_cast<Boolean>().value(); vk_assert(got == want, "found exactly if it occurs"); if (got) vk_cover("found"); else vk_cover("missing");
}
// ------------------------------------------------------------------ iteration
// vk-covers: string_iterate end
VK_CONTRACT(string_iterate, "P06", "proof", "StringIterator::next, StringIterator::make", "one step yields exactly the byte at the position as a text of one byte and moves on by one; at the end nothing more; for all positions and ranges of a text of any size") {
    World w; char t[8] = "abcdefg"; chars(t, 7); Local s = w.sc.local(String::make(w.ctx, std::string_view(t, 7))); u64 off = vk_choice("offset", 0, 7), k = vk_choice("length", 0, 7 - off); bool sl = vk_choice("slice", 0, 1) == 1; Local slice = w.sc.local(StringSlice::make(w.ctx, s, off, k));
    Local it = w.sc.local(sl ? StringIterator::make(w.ctx, slice) : StringIterator::make(w.ctx, s)); u64 begin = sl ? off : 0, end = sl ? off + k : 7; auto p = it->layout()->static_payload();
    vk_assert(p->index == begin && p->end == end, "an iterator visits exactly the text"); u64 i = begin + vk_choice("position", 0, end - begin); p->index = i; u64 huge = 0; if (i >= end) { huge = vk_u64("beyond"); vk_assume(huge >= end); p->index = huge; }
    auto r = it->next(w.ctx); if (i >= end) { vk_assert(!r && it->layout()->static_payload()->index == huge, "nothing after the end"); vk_cover("end"); return; }
    vk_assert(r && r->is<String>() && same(r->must_cast<String>().view(), t + i, 1) && it->layout()->static_payload()->index == i + 1, "the byte at the position");
}
// ------------------------------------------------------------------ builders
// vk-covers: builder_reserve first, grown, fits, refused
VK_CONTRACT(builder_reserve, "P06", "proof", "StringBuilder::reserve_free, next_capacity, next_exponential_capacity, capacity, free", "room for an append is made exactly when needed, the new storage holds the old text and has room for the new one, and a text too large is refused without any change; for all sizes and capacities") {
    World w; reset_ghost(); Local b = w.sc.local(StringBuilder::make(w.ctx)); Local old = w.sc.local(Buffer::make(w.ctx, 16, 0)); Local fresh = w.sc.local(Buffer::make(w.ctx, 16, 0));
    bool has = vk_choice("has storage", 0, 1) == 1; u64 cap = 0, size = 0, n = vk_u64("bytes"); if (has) { cap = vk_range("capacity", 0, (u64) 1 << 62); size = vk_u64("size"); vk_assume(size <= cap); b->set_buffer(b->layout(), *old); old->layout()->capacity_ = cap; }
    b->layout()->static_payload()->size = size; Value fv = *fresh; memcpy(&g_buffer, (void*) &fv, 8); u64 need; bool over = __builtin_add_overflow(size, n, &need); u64 fresh_cap = vk_u64("new capacity"); fresh->layout()->capacity_ = fresh_cap; g_buf = true; byte* r = nullptr; bool threw = false;
    // the storage handed out has the size asked for (contract of Buffer::make); sizes above 2^62 cannot be allocated
    vk_assume(vk_or(over, need <= ((u64) 1 << 62))); u64 want = need; if (!vk_symbolic()) { want = 64; while (want < need && want < ((u64) 1 << 63)) want *= 2; fresh->layout()->capacity_ = want; }
    else vk_assume(vk_or(over, fresh_cap >= need));
    try { r = b->reserve_free(b->layout(), w.ctx, n); } catch (const Error&) { threw = true; } g_buf = false;
    old->layout()->capacity_ = 16; fresh->layout()->capacity_ = 16;
    vk_assert(threw == vk_and(over, n != 0), "refused exactly if the size is not representable");
    vk_assert(b->layout()->static_payload()->size == size, "the text is not changed"); auto now = b->get_buffer(b->layout());
    if (threw) { vk_assert(g_buffers == 0 && now.has_value() == has, "nothing is changed"); vk_cover("refused"); return; }
    if (n == 0) { vk_assert(g_buffers == 0, "nothing to do"); return; }
    if (has && need <= cap) { vk_assert(g_buffers == 0 && now.value().same(*old) && r == old->data() + size, "the room is there"); vk_cover("fits"); return; }
    vk_assert(g_buffers == 1 && g_size >= need && g_def == 0 && now.value().same(*fresh) && r == fresh->data() + size, "new storage with room for the text"); vk_assert(has ? g_content == cap : g_content == 0, "starting with the old content");
    if (has) vk_cover("grown"); else vk_cover("first");
}
VK_CONTRACT(builder_capacity, "P06", "proof", "StringBuilder::next_capacity, next_exponential_capacity, ceil_pow2_fast", "a capacity is at least what is required and less than twice as much, at least 64, for all sizes") {
    u64 n = vk_u64("required"); u64 c = StringBuilder::next_capacity(n); vk_assert(c >= n && c >= 64, "enough"); vk_assert(n <= 64 || n > ((u64) 1 << 63) || c / 2 < n, "not more than twice as much"); vk_assert(c == ~(u64) 0 || (c & (c - 1)) == 0, "a power of two");
}
// vk-covers: builder_append self, grown
VK_CONTRACT(builder_append, "P06", "bounded: earlier texts of 0 to 3, 60 to 64 and 128 bytes, appended texts of 0 to 3, 61 to 65 and 200 bytes, all bytes", "StringBuilder::append (text, String, StringBuilder, StringSlice), append_impl, reserve_free, Buffer::make, view, data, size", "after an append the text is the earlier text followed by exactly the appended one, and nothing else changes; a builder can be appended to itself") {
    World w; reset_ghost(); u64 olds[] = {0, 1, 3, 60, 63, 64, 128}, adds[] = {0, 1, 3, 61, 64, 65, 200}; u64 n = olds[vk_choice("earlier size", 0, 6)], m = adds[vk_choice("appended size", 0, 6)]; u64 kind = vk_choice("appended", 0, 4); bool pre = vk_choice("with capacity", 0, 1) == 1;
    static char t[256], a[256]; for (u64 i = 0; i < n; i++) t[i] = (char) (i * 3 + 1); for (u64 i = 0; i < m; i++) a[i] = (char) (i * 5 + 2); chars(t, n < 3 ? n : 3); chars(a, m < 3 ? m : 3); if (m > 3) chars(a + m - 1, 1);
    Local b = w.sc.local(pre ? StringBuilder::make(w.ctx, 64) : StringBuilder::make(w.ctx)); b->append(w.ctx, std::string_view(t, n)); u64 cap = b->capacity();
    if (kind == 0) b->append(w.ctx, std::string_view(a, m));
    else if (kind == 1) { Local s = w.sc.local(String::make(w.ctx, std::string_view(a, m))); b->append(w.ctx, s); vk_assert(same(s->view(), a, m), "what is appended is unchanged"); }
    else if (kind == 2) { Local o = w.sc.local(StringBuilder::make(w.ctx)); o->append(w.ctx, std::string_view(a, m)); b->append(w.ctx, o); vk_assert(same(o->view(), a, m), "what is appended is unchanged"); }
    else if (kind == 3) { std::string all = "<" + std::string(a, m) + ">"; Local s = w.sc.local(String::make(w.ctx, all)); Local sl = w.sc.local(StringSlice::make(w.ctx, s, 1, m)); b->append(w.ctx, sl); vk_assert(same(sl->view(), a, m), "what is appended is unchanged"); }
    else { b->append(w.ctx, b); m = n; for (u64 i = 0; i < n; i++) a[i] = t[i]; vk_cover("self"); }
    vk_assert(b->size() == n + m && b->capacity() >= b->size(), "the size is the sum of the sizes"); bool ok = true; auto v = b->view(); for (u64 i = 0; i < n; i++) ok = vk_and(ok, v[i] == t[i]); for (u64 i = 0; i < m; i++) ok = vk_and(ok, v[n + i] == a[i]); vk_assert(ok, "the earlier text followed by the appended one");
    if (b->capacity() > cap) vk_cover("grown"); else vk_assert(b->capacity() == cap, "storage is only replaced by larger storage");
}
VK_CONTRACT(builder_history, "P06", "bounded: all histories of 4 operations out of 7 on two builders", "StringBuilder::append, clear, to_string, append_impl, reserve_free, to_string(Context, StringBuilder, Value)", "the text of a builder is always the concatenation of what was appended since it was made or cleared, and texts taken from it stay as they were") {
    World w; reset_ghost(); Local b = w.sc.local(StringBuilder::make(w.ctx)); Local o = w.sc.local(StringBuilder::make(w.ctx)); Local taken = w.sc.local(String::make(w.ctx, "")); Local sym = w.sc.local(w.ctx.get_symbol("sy")); std::string gb, go, gt;
    Local yes = w.sc.local<Value>(w.ctx.get_boolean(true));
    for (int i = 0; i < 4; i++) {
        switch (vk_choice("operation", 0, 6)) {
        case 0: b->append(w.ctx, "abc"); gb += "abc"; break;
        case 1: b->append(w.ctx, b); gb += gb; break;
        case 2: b->clear(); gb.clear(); break;
        case 3: taken.set(b->to_string(w.ctx)); gt = gb; break;
        case 4: o->append(w.ctx, b); go += gb; break;
        case 5: { Local sl = w.sc.local(taken->slice_last(w.ctx, 2)); b->append(w.ctx, sl); gb += gt.size() > 2 ? gt.substr(gt.size() - 2) : gt; break; }
        default: to_string(w.ctx, b, sym); to_string(w.ctx, b, yes); gb += "#sytrue"; break;
        }
        vk_assert(b->view() == gb && o->view() == go && taken->view() == gt, "every text is the concatenation of what was appended");
    }
}
