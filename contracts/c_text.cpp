// Contracts of UTF-8 coding, code point iteration, character classes, literals and the lexer.
// vk-link: common compiler
#include "vk.h"
#include "stubs.hpp"
#include "common/text/unicode.hpp"
#include "common/text/code_point_range.hpp"
#include "compiler/syntax/lexer.hpp"
#include "compiler/syntax/grammar/literals.hpp"
#include <string>
#include <cstring>
using namespace tiro;
extern "C" vk_replacement vk_replacements_text[];
static std::string vk_stub_vformat(fmt::string_view, fmt::format_args) { return std::string(); } // contract: some message
vk_replacement vk_replacements_text[] = { VK_BASE_REPLACEMENTS, { "~_ZN3fmt2v97vformatB~", (void*) vk_stub_vformat } };

// ------------------------------------------------------------------ oracle: the table of well formed sequences (RFC 3629 / Unicode table 3-7)
struct Seq { u32 len; u32 cp; }; // len == 0: not well formed
static bool in(u32 x, u32 lo, u32 hi) { return x - lo <= hi - lo; }
static Seq oracle(const u8* p, u64 n) {
    u32 a = p[0];
    if (a < 0x80) return {1, a};
    if (in(a, 0xC2, 0xDF)) { if (n < 2 || !in(p[1], 0x80, 0xBF)) return {0, 0}; return {2, (a & 31u) << 6 | (p[1] & 63u)}; }
    if (in(a, 0xE0, 0xEF)) {
        if (n < 3) return {0, 0};
        u32 lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
        if (!in(p[1], lo, hi) || !in(p[2], 0x80, 0xBF)) return {0, 0};
        return {3, (a & 15u) << 12 | (p[1] & 63u) << 6 | (p[2] & 63u)};
    }
    if (in(a, 0xF0, 0xF4)) {
        if (n < 4) return {0, 0};
        u32 lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
        if (!in(p[1], lo, hi) || !in(p[2], 0x80, 0xBF) || !in(p[3], 0x80, 0xBF)) return {0, 0};
        return {4, (a & 7u) << 18 | (p[1] & 63u) << 12 | (p[2] & 63u) << 6 | (p[3] & 63u)};
    }
    return {0, 0};
}
static bool scalar(u32 cp) { return vk_and(cp <= 0x10FFFF, !vk_and(cp >= 0xD800, cp <= 0xDFFF)); }

// vk-covers: utf8_decode one, two, three, four, refused
VK_CONTRACT(utf8_decode, "P18", "proof", "decode_utf8", "at every position of every byte sequence: exactly the well formed sequences of the Unicode standard are accepted, with their code point and length; everything else is refused; nothing outside the text is read") {
    u64 n = vk_range("size", 1, 64);
    const u8* t = (const u8*) vk_array("text", n, 1);
    u64 pos = vk_range("pos", 0, 63); vk_assume(pos < n);
    const char* b = (const char*) t;
    CodePoint cp = 0; const char* next = nullptr; bool refused = false;
    try { std::tie(cp, next) = decode_utf8(b + pos, b + n); } catch (const Error&) { refused = true; }
    Seq o = oracle(t + pos, n - pos);
    vk_assert(refused == (o.len == 0), "exactly the well formed sequences are accepted");
    if (refused) { vk_cover("refused"); return; }
    vk_assert(cp == o.cp, "the code point of the sequence");
    vk_assert(next == b + pos + o.len, "the position after the sequence");
    switch (o.len) { case 1: vk_cover("one"); break; case 2: vk_cover("two"); break; case 3: vk_cover("three"); break; default: vk_cover("four"); }
}
VK_CONTRACT(utf8_decode_end, "P18", "proof", "decode_utf8", "at the end of the text there is no code point") {
    char c; auto [cp, next] = decode_utf8(&c, &c); vk_assert(cp == invalid_code_point && next == &c, "invalid code point at the end");
}
// vk-covers: utf8_encode valid, refused
VK_CONTRACT(utf8_encode, "P18", "proof", "append_utf8, try_append_utf8, to_string_utf8, decode_utf8", "every Unicode scalar value is encoded as its well formed sequence and decodes to itself; any other value is refused and nothing is appended") {
    u32 cp = vk_u32("code point"); std::string s("ab"), u("ab"); bool raised = false;
    bool ok = try_append_utf8(s, cp);
    vk_assert(ok == scalar(cp), "exactly the scalar values can be encoded");
    try { append_utf8(u, cp); } catch (const std::exception&) { raised = true; }
    vk_assert(raised == !ok, "append_utf8 raises exactly for the others");
    vk_assert(s[0] == 'a' && s[1] == 'b' && u[0] == 'a' && u[1] == 'b', "the text before is kept");
    if (!ok) { vk_assert(s.size() == 2 && u.size() == 2, "nothing is appended"); vk_cover("refused"); return; }
    vk_assert(s.size() > 2 && s.size() <= 6 && u.size() == s.size() && memcmp(u.data(), s.data(), s.size()) == 0, "both functions append the same");
    Seq o = oracle((const u8*) s.data() + 2, s.size() - 2);
    vk_assert(o.len == s.size() - 2 && o.cp == cp, "the sequence of the code point");
    std::string w = to_string_utf8(cp);
    vk_assert(w.size() == o.len && memcmp(w.data(), s.data() + 2, o.len) == 0, "to_string_utf8 yields the same sequence");
    auto [back, next] = decode_utf8(w.data(), w.data() + w.size());
    vk_assert(back == cp && next == w.data() + w.size(), "decoding yields the code point again");
    vk_cover("valid");
}
// vk-covers: utf8_validate ok, bad
VK_CONTRACT(utf8_validate, "P18", "bounded: all texts of up to 7 bytes", "validate_utf8, CodePointRange", "a text is valid exactly if it is a sequence of well formed sequences; the error offset is the start of the first that is not; iteration yields the code points and their positions") {
    u8 t[7]; u64 n = vk_choice("size", 0, 7); vk_bytes(t, n, "text");
    u8* copy = new u8[n]; memcpy(copy, t, n); // exact size: reading past the end is detected
    Utf8ValidationResult r = validate_utf8(std::string_view((const char*) copy, n));
    u64 i = 0, count = 0; u32 cps[7]; u64 at[8]; bool bad = false;
    while (i < n) { Seq o = oracle(t + i, n - i); if (!o.len) { bad = true; break; } at[count] = i; cps[count++] = o.cp; i += o.len; }
    vk_assert(r.ok == !bad, "valid exactly if well formed");
    if (bad) { vk_assert(r.error_offset == i, "offset of the first malformed sequence"); vk_cover("bad"); delete[] copy; return; }
    at[count] = n;
    CodePointRange range(std::string_view((const char*) copy, n)); u64 k = 0;
    while (!range.at_end()) {
        vk_assert(k < count && range.get() == cps[k] && range.pos() == at[k] && range.next_pos() == at[k + 1] && range.code_point_width() == at[k + 1] - at[k], "the code points in order");
        auto p = range.peek(); vk_assert(p.has_value() == (k + 1 < count) && (!p || *p == cps[k + 1]), "peek is the next code point");
        range.advance(); k++;
    }
    vk_assert(k == count && range.pos() == n, "all code points were seen");
    if (count) { u64 j = vk_choice("seek", 0, 7); if (j < count) { range.seek(at[j]); vk_assert(range.get() == cps[j] && range.pos() == at[j] && range.next_pos() == at[j + 1], "seek"); } }
    vk_cover("ok"); delete[] copy;
}

// ------------------------------------------------------------------ character classes
static bool scan(Span<const unicode_data::Interval<CodePoint>> s, u32 cp) { bool r = false; for (const auto& e : s) r = vk_or(r, vk_and(e.first <= cp, cp <= e.last)); return r; }
// vk-covers: class_lookup yes, no
VK_CONTRACT(class_lookup, "P18", "proof", "is_whitespace", "for every value: membership in the table of white space") {
    u32 cp = vk_u32("code point"); bool r = is_whitespace(cp);
    vk_assert(r == scan(unicode_data::is_whitespace, cp), "binary search agrees with the table");
    if (r) vk_cover("yes"); else vk_cover("no");
    vk_assert(!(cp > 0x10FFFF && r), "no value outside Unicode");
}
// The table entries and the gaps between them partition all 32 bit values: one case for each of them.
static u32 any_in_part(Span<const unicode_data::Interval<CodePoint>> t, bool& member) {
    u64 parts = 2 * t.size() + 1, hi = vk_choice("part / 32", 0, (parts - 1) / 32), lo = vk_choice("part % 32", 0, 31), i = hi * 32 + lo;
    if (i >= parts) vk_end();
    u64 first, last; member = i % 2 == 1;
    if (member) { first = t[i / 2].first; last = t[i / 2].last; }
    else { first = i == 0 ? 0 : (u64) t[i / 2 - 1].last + 1; last = i == parts - 1 ? (u64) UINT32_MAX : (u64) t[i / 2].first - 1; if (first > last) vk_end(); }
    return vk_range32("code point", (u32) first, (u32) last);
}
// vk-opts: class_start --fork-select
// vk-covers: class_start yes, no
VK_CONTRACT(class_start, "P18", "proof", "is_xid_start", "for every value: membership in the table") {
    bool m; u32 cp = any_in_part(unicode_data::is_xid_start, m);
    vk_assert(is_xid_start(cp) == m, "is_xid_start");
    if (m) vk_cover("yes"); else vk_cover("no");
}
// vk-opts: class_continue --fork-select
// vk-covers: class_continue yes, no
VK_CONTRACT(class_continue, "P18", "proof", "is_xid_continue", "for every value: membership in one of the tables") {
    bool m; u32 cp = any_in_part(unicode_data::is_xid_continue_without_start, m);
    bool s = is_xid_start(cp);
    vk_assert(is_xid_continue(cp) == (s || m), "is_xid_continue");
    if (m) vk_cover("yes"); else vk_cover("no");
}
VK_CONTRACT(class_tables, "P18", "proof", "unicode_data tables", "the tables are sorted, disjoint and inside Unicode, and exact for ASCII") {
    auto sorted = [](Span<const unicode_data::Interval<CodePoint>> t) { u64 last = 0; bool first = true; for (const auto& e : t) { vk_assert(e.first <= e.last && e.last <= 0x10FFFF && (first || e.first > last), "sorted and disjoint"); last = e.last; first = false; } };
    sorted(unicode_data::is_whitespace); sorted(unicode_data::is_xid_start); sorted(unicode_data::is_xid_continue_without_start);
    for (u32 c = 0; c < 128; c++) {
        bool letter = in(c, 'a', 'z') || in(c, 'A', 'Z'), digit = in(c, '0', '9');
        vk_assert(is_xid_start(c) == letter && is_xid_continue(c) == (letter || digit || c == '_') && is_whitespace(c) == (in(c, 9, 13) || c == ' '), "ASCII");
        vk_assert(is_identifier_start(c) == (letter || c == '_') && is_identifier_continue(c) == (letter || digit || c == '_'), "identifier characters");
    }
}

// ------------------------------------------------------------------ literals
static u32 g_errors;
static auto sink = [](std::string_view) { g_errors++; };
static int digit_of(u32 c, u32 base) { // -1: not a digit
    u32 v = vk_ite64(in(c, '0', '9'), c - '0', vk_ite64(in(c, 'a', 'f'), c - 'a' + 10, vk_ite64(in(c, 'A', 'F'), c - 'A' + 10, 99)));
    return v < base ? (int) v : -1;
}
struct Num { bool ok, big; unsigned __int128 v; bool base; bool zeros; };
static Num number(const u8* t, u64 n) {
    u32 base = 10; u64 i = 0; Num r = {true, false, 0, false, false};
    if (n >= 2 && t[0] == '0') { if (t[1] == 'x') base = 16; else if (t[1] == 'o') base = 8; else if (t[1] == 'b') base = 2; if (base != 10) { i = 2; r.base = true; } }
    u32 digits = 0; bool lead = false;
    for (; i < n; i++) {
        if (t[i] == '_') continue;
        int d = digit_of(t[i], base);
        if (d < 0) { r.ok = false; return r; }
        if (digits && lead && r.v == 0) r.zeros = true;
        if (d == 0 && !digits) lead = true;
        r.v = r.v * base + (u32) d; digits++;
        if (r.v > (unsigned __int128) INT64_MAX) { r.ok = false; r.big = true; return r; }
    }
    if (!digits) r.ok = false;
    return r;
}
static void check_number(const u8* t, u64 n) {
    std::string_view s((const char*) t, n); Num o = number(t, n);
    g_errors = 0; auto r = parse_integer_value(s, sink);
    vk_assert(r.has_value() == o.ok && (g_errors > 0) == !o.ok, "a number is accepted exactly if all its digits belong to its base and its value fits; otherwise an error is reported");
    if (r) vk_assert(*r >= 0 && (unsigned __int128) *r == o.v, "the value of the digits");
    g_errors = 0; auto f = parse_tuple_field(s, sink);
    bool ok = o.ok && !o.base && !o.zeros && o.v <= UINT32_MAX;
    vk_assert(f.has_value() == ok && (g_errors > 0) == !ok, "tuple fields are decimal numbers without leading zeroes that fit");
    if (f) vk_assert(*f == (u64) o.v, "the value of the tuple field");
}
VK_CONTRACT(literal_short, "P18", "bounded: all texts of up to 6 bytes", "parse_integer_value, parse_tuple_field, to_digit", "number literals denote the value of their digits or are refused") {
    u8 t[6]; u64 n = vk_choice("size", 0, 6); vk_bytes(t, n, "text"); check_number(t, n);
}
VK_CONTRACT(literal_limit, "P18", "bounded: up to 3 arbitrary bytes after prefixes around every limit", "parse_integer_value, parse_tuple_field", "literals near the limits of 63 and 32 bits are exact or refused") {
    static const char* pre[] = {"0x", "0b", "0o", "0x7fffffffffffff", "0x8000000000000", "0o7777777777777777777", "0o1000000000000000000", "0b11111111111111111111111111111111111111111111111111111111111111", "92233720368547758", "9223372036854775", "42949672", "4294967", "00", "0_", "1_000_000_000_000_000_0", "999999999999999999"};
    u64 i = vk_choice("prefix", 0, 15), k = vk_choice("bytes", 0, 3), a = strlen(pre[i]); u8 t[80]; memcpy(t, pre[i], a); vk_bytes(t + a, k, "text"); check_number(t, a + k);
}
VK_CONTRACT(to_digit_all, "P18", "proof", "to_digit", "for every value and base: the digit value or nothing") {
    static const u32 bases[] = {2, 8, 10, 16}; u32 b = bases[vk_choice("base", 0, 3)], c = vk_u32("char");
    auto d = to_digit(c, (int) b); int o = digit_of(c, b);
    vk_assert(d.has_value() == (o >= 0) && (!d || *d == o), "digit");
}
// expected result of a string literal; false: refused
static bool unescape(const u8* t, u64 n, std::string& out) {
    u64 i = 0; bool ok = true;
    auto put = [&](u32 cp) { if (cp < 0x80) out.push_back((char) cp); else if (cp < 0x800) { out.push_back((char) (0xC0 | cp >> 6)); out.push_back((char) (0x80 | (cp & 63))); }
        else if (cp < 0x10000) { out.push_back((char) (0xE0 | cp >> 12)); out.push_back((char) (0x80 | (cp >> 6 & 63))); out.push_back((char) (0x80 | (cp & 63))); }
        else { out.push_back((char) (0xF0 | cp >> 18)); out.push_back((char) (0x80 | (cp >> 12 & 63))); out.push_back((char) (0x80 | (cp >> 6 & 63))); out.push_back((char) (0x80 | (cp & 63))); } };
    while (i < n) {
        if (t[i] != '\\') { out.push_back((char) t[i++]); continue; }
        if (++i == n) return false;
        u8 c = t[i++];
        switch (c) {
        case 'n': out.push_back('\n'); break; case 'r': out.push_back('\r'); break; case 't': out.push_back('\t'); break;
        case '"': case '\'': case '\\': case '$': out.push_back((char) c); break;
        case 'x': { if (n - i < 2) return false; int a = digit_of(t[i], 16), b = digit_of(t[i + 1], 16); if (a < 0 || b < 0) return false; put((u32) (a * 16 + b)); i += 2; break; }
        case 'u': {
            if (i == n || t[i] != '{') return false;
            i++; u64 v = 0, d = 0;
            while (1) { if (i == n) return false; if (t[i] == '}') { i++; break; } int x = digit_of(t[i], 16); if (x < 0) return false; v = v * 16 + (u32) x; d++; i++; if (v > UINT32_MAX) return false; }
            if (!d || !scalar((u32) v)) return false;
            put((u32) v); break; }
        default: return false;
        }
    }
    return ok;
}
static bool ascii_or_valid(const u8* t, u64 n) { u64 i = 0; while (i < n) { Seq o = oracle(t + i, n - i); if (!o.len) return false; i += o.len; } return true; }
// vk-covers: literal_string accepted, refused
VK_CONTRACT(literal_string, "P18", "bounded: up to 3 arbitrary bytes in 15 contexts", "parse_string_literal, parse_ascii_hex, parse_unicode_hex", "string literals denote their text with escapes replaced, or are refused with an error") {
    static const char* ctx[][2] = {{"", ""}, {"\\", ""}, {"\\x", ""}, {"\\x4", "z"}, {"\\u", "}"}, {"\\u{", "}"}, {"\\u{D7F", "}x"}, {"\\u{DF", "}"}, {"\\u{10FF", "}"}, {"\\u{1000", "}"}, {"\\u{FFFFFFF", "}"}, {"\\u{0000000", "0}"}, {"a\\\\", "b"}, {"\\u{1000000", "41}"}, {"\\u{F00000000000", "41}"}};
    u64 i = vk_choice("context", 0, 14), k = vk_choice("bytes", 0, i < 2 ? 3 : 2), a = strlen(ctx[i][0]), z = strlen(ctx[i][1]), n = a + k + z; u8 t[32];
    memcpy(t, ctx[i][0], a); vk_bytes(t + a, k, "text"); memcpy(t + a + k, ctx[i][1], z);
    if (!ascii_or_valid(t, n)) return;
    std::string want, got; bool ok = unescape(t, n, want);
    g_errors = 0; bool r = parse_string_literal(std::string_view((const char*) t, n), got, sink);
    vk_assert(r == ok && (g_errors > 0) == !ok, "accepted exactly if every escape is well formed; otherwise an error is reported");
    if (!r) { vk_cover("refused"); return; }
    vk_assert(got.size() == want.size() && memcmp(got.data(), want.data(), want.size()) == 0, "the text of the literal");
    vk_cover("accepted");
}
VK_CONTRACT(literal_symbol, "P18", "bounded: all texts of up to 3 ASCII characters", "parse_symbol_name", "the name after # or an error") {
    u8 t[4]; u64 n = vk_choice("size", 0, 3); vk_bytes(t, n, "text"); for (u64 i = 0; i < n; i++) vk_assume(t[i] < 128);
    bool ok = n >= 2 && t[0] == '#' && vk_or(vk_or(in(t[1], 'a', 'z'), in(t[1], 'A', 'Z')), t[1] == '_');
    g_errors = 0; auto r = parse_symbol_name(std::string_view((const char*) t, n), sink);
    vk_assert(r.has_value() == ok && (g_errors > 0) == !ok, "accepted exactly if # is followed by an identifier");
    if (r) vk_assert(r->size() == n - 1 && (const u8*) r->data() == t + 1, "the name");
}
