// Contracts of the integer, bit and bitset helpers in src/common.
// vk-link: common
#include "vk.h"
#include "stubs.hpp"
#include "common/math.hpp"
#include "common/bitops.hpp"
#include "common/safe_int.hpp"
#include "common/adt/bitset.hpp"
#include "common/adt/span.hpp"
#include "common/memory/byte_order.hpp"
#include "common/memory/tagged_ptr.hpp"
using namespace tiro;
extern "C" vk_replacement vk_replacements_utils[];
vk_replacement vk_replacements_utils[] = { VK_BASE_REPLACEMENTS };
typedef __int128 i128;
typedef unsigned __int128 u128;

template<typename T> static T any(const char* n) { return (T) vk_nondet(n, sizeof(T) * 8); }
template<typename T> static bool fits(i128 v) { return v >= (i128) std::numeric_limits<T>::min() && v <= (i128) std::numeric_limits<T>::max(); }

// ------------------------------------------------------------------ checked arithmetic
template<typename T> static void addsub() {
    T a = any<T>("a"), b = any<T>("b"), out = 0;
    i128 s = (i128) a + (i128) b, d = (i128) a - (i128) b;
    bool ok = checked_add(a, b, out);
    vk_assert(ok == fits<T>(s), "addition succeeds exactly when the sum fits");
    if (ok) vk_assert((i128) out == s, "sum");
    T x = a; ok = checked_add(x, b);
    vk_assert(ok == fits<T>(s) && (!ok || (i128) x == s), "in place sum");
    ok = checked_sub(a, b, out);
    vk_assert(ok == fits<T>(d), "subtraction succeeds exactly when the difference fits");
    if (ok) vk_assert((i128) out == d, "difference");
    x = a; ok = checked_sub(x, b);
    vk_assert(ok == fits<T>(d) && (!ok || (i128) x == d), "in place difference");
}
VK_CONTRACT(u_addsub, "P17", "proof", "checked_add, checked_sub (8 integer types)", "overflow is reported exactly when the mathematical result does not fit; otherwise the result is exact") {
    switch (vk_choice("type", 0, 7)) {
    case 0: addsub<u8>(); break; case 1: addsub<u16>(); break; case 2: addsub<u32>(); break; case 3: addsub<u64>(); break;
    case 4: addsub<i8>(); break; case 5: addsub<i16>(); break; case 6: addsub<i32>(); break; default: addsub<i64>(); break;
    }
}
template<typename T> static void mul() {
    T a = any<T>("a"), b = any<T>("b"), out = 0;
    using D = std::conditional_t<std::is_signed_v<T>, std::conditional_t<sizeof(T) == 1, i16, std::conditional_t<sizeof(T) == 2, i32, i64>>,
        std::conditional_t<sizeof(T) == 1, u16, std::conditional_t<sizeof(T) == 2, u32, u64>>>; // wide enough for every product
    D s = (D) ((D) a * (D) b);
    bool fit = s >= (D) std::numeric_limits<T>::min() && s <= (D) std::numeric_limits<T>::max();
    bool ok = checked_mul(a, b, out);
    vk_assert(ok == fit, "multiplication succeeds exactly when the product fits");
    if (ok) vk_assert((D) out == s, "product");
    T x = a; ok = checked_mul(x, b);
    vk_assert(ok == fit && (!ok || (D) x == s), "in place product");
}
VK_CONTRACT(u_mul, "P17", "proof", "checked_mul (6 integer types; 64 bit: math_mul, u_mul_wide)", "overflow is reported exactly when the product does not fit; otherwise it is exact") {
    switch (vk_choice("type", 0, 5)) {
    case 0: mul<u8>(); break; case 1: mul<u16>(); break; case 2: mul<u32>(); break;
    case 3: mul<i8>(); break; case 4: mul<i16>(); break; default: mul<i32>(); break;
    }
}
VK_CONTRACT(u_mul_wide, "P17", "proof", "checked_mul (64 bit types)", "overflow is reported exactly when the product does not fit; otherwise it is exact") {
    if (vk_choice("type", 0, 1)) { u64 a = any<u64>("a"), b = any<u64>("b"), out = 0; u128 s = (u128) a * b; bool ok = checked_mul(a, b, out);
        vk_assert(ok == ((u64) (s >> 64) == 0), "multiplication succeeds exactly when the product fits"); vk_assert(!ok || out == (u64) s, "product"); }
    else { i64 a = any<i64>("a"), b = any<i64>("b"), out = 0; i128 s = (i128) a * b; bool ok = checked_mul(a, b, out);
        vk_assert(ok == fits<i64>(s), "multiplication succeeds exactly when the product fits"); vk_assert(!ok || (i128) out == s, "product"); }
}
template<typename T> static void divmod() {
    T a = any<T>("a"), b = any<T>("b"), q = 1, r = 1;
    bool fit = b != 0 && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == (T) -1);
    bool ok = checked_div(a, b, q), ok2 = checked_mod(a, b, r);
    vk_assert(ok == fit && ok2 == fit, "division succeeds exactly when the quotient exists and fits");
    if (ok) { vk_assert(q == (T) (a / b), "quotient"); vk_assert(r == (T) (a % b), "remainder"); }
    T x = a, y = a; ok = checked_div(x, b); ok2 = checked_mod(y, b);
    vk_assert(ok == fit && ok2 == fit && (!fit || (x == q && y == r)), "in place quotient and remainder");
}
VK_CONTRACT(u_div, "P17", "proof", "checked_div, checked_mod (8 integer types)", "division fails exactly for a zero divisor or an unrepresentable quotient; otherwise quotient and remainder are exact") {
    switch (vk_choice("type", 0, 7)) {
    case 0: divmod<u8>(); break; case 1: divmod<u16>(); break; case 2: divmod<u32>(); break; case 3: divmod<u64>(); break;
    case 4: divmod<i8>(); break; case 5: divmod<i16>(); break; case 6: divmod<i32>(); break; default: divmod<i64>(); break;
    }
}
template<typename To, typename From> static void cast1() {
    From v = any<From>("from"); bool raised = false; To r = 0;
    try { r = checked_cast<To>(v); } catch (const Error&) { raised = true; }
    vk_assert(raised == !fits<To>((i128) v), "the cast fails exactly when the value does not fit");
    if (!raised) vk_assert((i128) r == (i128) v, "the cast keeps the value");
}
template<typename From> static void cast_from() {
    switch (vk_choice("to", 0, 7)) {
    case 0: cast1<u8, From>(); break; case 1: cast1<u16, From>(); break; case 2: cast1<u32, From>(); break; case 3: cast1<u64, From>(); break;
    case 4: cast1<i8, From>(); break; case 5: cast1<i16, From>(); break; case 6: cast1<i32, From>(); break; default: cast1<i64, From>(); break;
    }
}
VK_CONTRACT(u_cast, "P17", "proof", "checked_cast (all pairs of 8 integer types)", "a cast keeps the value or fails, and fails exactly when the value does not fit") {
    switch (vk_choice("from type", 0, 7)) {
    case 0: cast_from<u8>(); break; case 1: cast_from<u16>(); break; case 2: cast_from<u32>(); break; case 3: cast_from<u64>(); break;
    case 4: cast_from<i8>(); break; case 5: cast_from<i16>(); break; case 6: cast_from<i32>(); break; default: cast_from<i64>(); break;
    }
}
// ------------------------------------------------------------------ rounding
template<typename T> static void ceil1() {
    T a = any<T>("a"), b = any<T>("b"); vk_assume(b > 0 && a >= 0);
    T r = (T) (a % b), q = (T) (a / b);
    vk_assert(ceil_div<T>(a, b) == (T) (q + (r != 0)), "ceil_div is the quotient rounded up");
    if constexpr (std::is_unsigned_v<T>) {
        if (r == 0) vk_assert(ceil<T>(a, b) == a, "a multiple stays as it is");
        else if (a <= (T) (std::numeric_limits<T>::max() - (b - r))) vk_assert(ceil<T>(a, b) == (T) (a + (b - r)), "ceil is the next multiple");
    }
}
VK_CONTRACT(u_ceil8, "P17", "proof", "ceil_div<u8>, ceil<u8>", "exact for all arguments") { u8 a = any<u8>("a"), b = any<u8>("b"); vk_assume(b != 0);
    u8 q = ceil_div<u8>(a, b); vk_assert((u32) q * b >= a && (q == 0 || (u32) (q - 1) * b < a), "ceil_div is the least quotient that covers the dividend");
    u32 m = (u32) q * b; if (m <= 255) vk_assert(ceil<u8>(a, b) == m, "ceil is the least multiple that is not smaller"); }
VK_CONTRACT(u_ceil, "P17", "proof", "ceil_div (u16, u32, u64, i32, i64), ceil (u16, u32, u64)", "exact for all arguments with a representable result") {
    switch (vk_choice("type", 0, 4)) { case 0: ceil1<u16>(); break; case 1: ceil1<u32>(); break; case 2: ceil1<u64>(); break; case 3: ceil1<i32>(); break; default: ceil1<i64>(); break; }
}
template<typename T> static void align1() {
    T a = any<T>("a"); u32 k = (u32) vk_choice("log", 0, sizeof(T) * 8 - 1); T b = (T) ((T) 1 << k);
    vk_assert(is_pow2(b), "powers of two are recognised");
    vk_assert(mod_pow2(a, b) == (T) (a % b), "mod_pow2 is the remainder");
    vk_assert(is_aligned(a, b) == (a % b == 0), "is_aligned tests divisibility");
    if ((u128) a + b - 1 <= (u128) std::numeric_limits<T>::max()) { T c = ceil(a, b); vk_assert(c >= a && c - a < b && c % b == 0, "ceil to a power of two"); }
}
VK_CONTRACT(u_align, "P17", "proof", "is_pow2, mod_pow2, is_aligned, ceil", "exact for every power of two and all arguments") {
    switch (vk_choice("type", 0, 3)) { case 0: align1<u8>(); break; case 1: align1<u16>(); break; case 2: align1<u32>(); break; default: align1<u64>(); break; }
}
template<typename T> static void pow1() {
    T v = any<T>("v");
    const u32 W = sizeof(T) * 8;
    bool one = false; for (u32 i = 0; i < W; i++) one = vk_or(one, v == (T) ((T) 1 << i));
    vk_assert(is_pow2(v) == one, "is_pow2 holds exactly for one set bit");
    vk_assert(type_bits<T>() == W && max_bit<T>() == W - 1 && max_pow2<T>() == (T) ((T) 1 << (W - 1)), "constants of the type");
    if (v != 0) { T l = log2(v); vk_assert(l < W && (v >> l) == 1, "log2 is the index of the highest set bit"); }
    if (v <= max_pow2<T>()) {
        T c = ceil_pow2(v);
        if (v == 0) vk_assert(c == 0, "ceil_pow2(0) is 0");
        else vk_assert(is_pow2(c) && c >= v && (T) (c >> 1) < v, "ceil_pow2 is the least power of two that is not smaller");
    }
}
template<typename T> static void fast1() {
    T v = any<T>("v");
    const u32 W = sizeof(T) * 8;
    if (v != 0) { T l = log2_fast(v); vk_assert(l < W && (v >> l) == 1, "log2_fast is the index of the highest set bit");
        vk_assert((u32) count_leading_zeroes(v) == W - 1 - (u32) l, "count_leading_zeroes"); }
    if (v <= max_pow2<T>()) {
        T c = ceil_pow2_fast(v);
        if (v == 0) vk_assert(c == 0, "ceil_pow2_fast(0) is 0");
        else vk_assert(is_pow2(c) && c >= v && (T) (c >> 1) < v, "ceil_pow2_fast is the least power of two that is not smaller");
    }
    u32 ones = 0; for (u32 i = 0; i < W; i++) ones += (u32) ((v >> i) & 1);
    vk_assert((u32) popcount(v) == ones, "popcount counts the set bits");
    int f = find_first_set(v);
    if (v == 0) vk_assert(f == 0, "no set bit");
    else vk_assert(f >= 1 && (u32) f <= W && ((v >> (f - 1)) & 1) && (T) (v & (T) (((T) 1 << (f - 1)) - 1)) == 0, "find_first_set is one plus the lowest set bit");
}
VK_CONTRACT(u_pow2, "P17", "proof", "is_pow2, type_bits, max_bit, max_pow2, log2, ceil_pow2 (u8 .. u64)", "exact on the whole domain") {
    switch (vk_choice("type", 0, 3)) { case 0: pow1<u8>(); break; case 1: pow1<u16>(); break; case 2: pow1<u32>(); break; default: pow1<u64>(); break; }
}
VK_CONTRACT(u_bits, "P17", "proof", "log2_fast, ceil_pow2_fast, popcount, find_first_set, count_leading_zeroes (u32, u64, unsigned long long)", "exact on the whole domain") {
    switch (vk_choice("type", 0, 2)) { case 0: fast1<u32>(); break; case 1: fast1<u64>(); break; default: fast1<unsigned long long>(); break; }
}
VK_CONTRACT(u_range, "P17", "proof", "range_in_bounds", "true exactly when [offset, offset + n) lies inside the size") {
    u64 s = any<u64>("size"), o = any<u64>("offset"), n = any<u64>("n");
    vk_assert(range_in_bounds(s, o, n) == ((u128) o + n <= (u128) s), "64 bit");
    u32 s2 = (u32) s, o2 = (u32) o, n2 = (u32) n;
    vk_assert(range_in_bounds(s2, o2, n2) == ((u64) o2 + n2 <= (u64) s2), "32 bit");
}
VK_CONTRACT(u_byteswap, "P17", "proof", "byteswap, convert_byte_order, host_to_be, be_to_host", "big endian conversion puts the most significant byte first and is its own inverse") {
    u64 v = any<u64>("v"); byte b[8];
    u64 x = host_to_be(v); memcpy(b, &x, 8);
    for (u32 i = 0; i < 8; i++) vk_assert(b[i] == (byte) (v >> (56 - 8 * i)), "64 bit byte order");
    vk_assert(be_to_host(x) == v, "64 bit round trip");
    u32 y = host_to_be((u32) v); memcpy(b, &y, 4);
    for (u32 i = 0; i < 4; i++) vk_assert(b[i] == (byte) ((u32) v >> (24 - 8 * i)), "32 bit byte order");
    vk_assert(be_to_host(y) == (u32) v, "32 bit round trip");
    u16 z = host_to_be((u16) v); memcpy(b, &z, 2);
    vk_assert(b[0] == (byte) ((u16) v >> 8) && b[1] == (byte) v && be_to_host(z) == (u16) v, "16 bit byte order and round trip");
    vk_assert(host_to_be((u8) v) == (u8) v && be_to_host((u8) v) == (u8) v, "8 bit");
    vk_assert(convert_byte_order<ByteOrder::BigEndian, ByteOrder::LittleEndian>(v) == byteswap(v) && convert_byte_order<ByteOrder::BigEndian, ByteOrder::BigEndian>(v) == v, "conversion");
}
// ------------------------------------------------------------------ SafeInt
template<typename T> static void safe1() {
    T a = any<T>("a"), b = any<T>("b");
    SafeInt<T> x(a), y(b);
    vk_assert(x.value() == a && (T) x == a && SafeInt<T>().value() == 0, "value");
    vk_assert((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison");
    u64 op = vk_choice("operator", 0, 8); i64 e = 0; bool raised = false, pre = false; T r = 0;
    switch (op) { case 0: e = (i64) a + b; break; case 1: e = (i64) a - b; break; case 2: e = (i64) a * b; break; case 3: case 4: e = 0; break; case 5: case 6: e = (i64) a + 1; break; default: e = (i64) a - 1; break; }
    bool fit = e >= (i64) std::numeric_limits<T>::min() && e <= (i64) std::numeric_limits<T>::max();
    if (op == 3 || op == 4) { fit = b != 0 && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == (T) -1); if (fit) e = op == 3 ? (i64) (T) (a / b) : (i64) (T) (a % b); }
    try {
        switch (op) {
        case 0: r = (x + y).value(); break; case 1: r = (x - y).value(); break; case 2: r = (x * y).value(); break; case 3: r = (x / y).value(); break; case 4: r = (x % y).value(); break;
        case 5: r = (++x).value(); break; case 6: { pre = true; T old = (x++).value(); vk_assert(old == a, "post increment yields the old value"); r = x.value(); break; }
        case 7: r = (--x).value(); break; default: { pre = true; T old = (x--).value(); vk_assert(old == a, "post decrement yields the old value"); r = x.value(); break; }
        }
    } catch (const Error&) { raised = true; }
    vk_assert(raised == !fit, "an operator fails exactly when the result does not fit");
    if (!raised) vk_assert((i64) r == e, "the result is exact");
    (void) pre;
    if (op < 5) vk_assert(x.value() == a && y.value() == b, "operands are unchanged");
}
VK_CONTRACT(u_safe_int, "P17", "proof", "SafeInt<u8>, SafeInt<i16>, SafeInt<i32>: all operators", "exact or fails") {
    switch (vk_choice("type", 0, 2)) { case 0: safe1<u8>(); break; case 1: safe1<i16>(); break; default: safe1<i32>(); break; }
}
template<typename T> static void safe2() {
    T a = any<T>("a"), b = any<T>("b"), out = 0; SafeInt<T> x(a); T r = 0;
    bool ok, fit;
    switch (vk_choice("operator", 0, 4)) {
    case 0: ok = x.try_add(b); fit = checked_add(a, b, r); break;
    case 1: ok = x.try_sub(b); fit = checked_sub(a, b, r); break;
    case 2: ok = x.try_mul(b); fit = checked_mul(a, b, r); break;
    case 3: ok = x.try_div(b); fit = checked_div(a, b, r); break;
    default: ok = x.try_mod(b); fit = checked_mod(a, b, r); break;
    }
    (void) out;
    vk_assert(ok == fit, "try operations succeed exactly when the checked operation does");
    if (ok) vk_assert(x.value() == r, "and yield its result");
}
VK_CONTRACT(u_safe_try, "P17", "proof", "SafeInt<u64>, SafeInt<i64>: try_add, try_sub, try_mul, try_div, try_mod", "as the checked operation") { if (vk_choice("type", 0, 1)) safe2<i64>(); else safe2<u64>(); }
// ------------------------------------------------------------------ tagged pointers
template<size_t N> static void tag1() {
    u64 p = any<u64>("pointer"), t = any<u64>("tag"), p2 = any<u64>("pointer 2"), t2 = any<u64>("tag 2");
    u64 m = ((u64) 1 << N) - 1;
    vk_assume((p & m) == 0 && (p2 & m) == 0 && t <= m && t2 <= m);
    TaggedPtr<N> x((void*) p, t);
    vk_assert((u64) x.pointer() == p && x.tag() == t, "pointer and tag are kept");
    TaggedPtr<N> y((void*) p); vk_assert((u64) y.pointer() == p && y.tag() == 0, "the default tag is 0");
    x.pointer((void*) p2); vk_assert((u64) x.pointer() == p2 && x.tag() == t, "changing the pointer keeps the tag");
    x.tag(t2); vk_assert((u64) x.pointer() == p2 && x.tag() == t2, "changing the tag keeps the pointer");
    bool b0 = vk_bool("bit");
    vk_assert(x.template tag_bit<N - 1>() == ((t2 >> (N - 1)) & 1), "tag bit");
    x.template tag_bit<N - 1>(b0);
    vk_assert((u64) x.pointer() == p2 && x.tag() == ((t2 & ~((u64) 1 << (N - 1))) | ((u64) b0 << (N - 1))), "setting one tag bit changes nothing else");
}
VK_CONTRACT(u_tagged, "P17", "proof", "TaggedPtr<1>, TaggedPtr<2>, TaggedPtr<3>: all members", "pointer and tag are independent") {
    switch (vk_choice("bits", 1, 3)) { case 1: tag1<1>(); break; case 2: tag1<2>(); break; default: tag1<3>(); break; }
}
// ------------------------------------------------------------------ bitsets
template<typename B> static bool bit(const B* m, u64 i) { return (m[i / (sizeof(B) * 8)] >> (i % (sizeof(B) * 8))) & 1; }
template<typename B> static void bits_word() {
    const u64 W = sizeof(B) * 8, N = 3;
    B m[N], o[N]; for (u64 i = 0; i < N; i++) o[i] = m[i] = any<B>("block");
    u64 n = vk_choice("words", 1, N) * W - vk_choice("cut", 0, 3) * (W / 4 - 1);
    BitsetView<B> v(Span<B>(m, N), n);
    vk_assert(v.size() == n, "size");
    u64 i = vk_range("index", 0, N * W - 1); vk_assume(i < n);
    u64 j = vk_range("other", 0, N * W - 1); vk_assume(j != i);
    vk_assert(v.test(i) == bit(o, i), "test yields the bit");
    bool e = bit(o, i);
    switch (vk_choice("operation", 0, 3)) {
    case 0: v.set(i); e = true; break;
    case 1: v.clear(i); e = false; break;
    case 2: e = vk_bool("value"); v.set(i, e); break;
    default: v.flip(i); e = !e; break;
    }
    vk_assert(bit(m, i) == e && v.test(i) == e, "the bit has the new value");
    vk_assert(bit(m, j) == bit(o, j), "no other bit changes");
}
VK_CONTRACT(bs_point, "P17", "bounded: bitsets of up to 3 words", "BitsetView::test, set, clear, flip (one bit; u8, u32, u64 blocks)", "exactly the addressed bit changes") {
    switch (vk_choice("block", 0, 2)) { case 0: bits_word<u8>(); break; case 1: bits_word<u32>(); break; default: bits_word<u64>(); break; }
}
template<typename B> static void bits_range() {
    const u64 W = sizeof(B) * 8, N = 3;
    B m[N], o[N]; for (u64 i = 0; i < N; i++) o[i] = m[i] = any<B>("block");
    u64 n = vk_choice("words", 1, N) * W - vk_choice("cut", 0, 2) * 7;
    BitsetView<B> v(Span<B>(m, N), n);
    u64 op = vk_choice("operation", 0, 2);
    u64 j = vk_range("bit", 0, N * W - 1);
    if (op == 0) { u64 b = vk_range("begin", 0, N * W), k = vk_range("n", 0, N * W); vk_assume(b <= n && k <= n - b);
        v.clear(b, k); vk_assert(bit(m, j) == (bit(o, j) && !(j >= b && j < b + k)), "exactly the bits of the range are cleared"); }
    else if (op == 1) { v.clear(); if (j < n) vk_assert(!bit(m, j), "clear clears every bit"); }
    else { v.flip(); if (j < n) vk_assert(bit(m, j) == !bit(o, j), "flip inverts every bit"); }
}
VK_CONTRACT(bs_range, "P17", "bounded: bitsets of up to 3 words", "BitsetView::clear (range, all), flip", "exactly the bits of the range change") { if (vk_choice("block", 0, 1)) bits_range<u64>(); else bits_range<u32>(); }
template<typename B> static void bits_find() {
    const u64 W = sizeof(B) * 8, N = 3;
    B m[N]; for (u64 i = 0; i < N; i++) m[i] = any<B>("block"); // arbitrary contents, also beyond the size
    u64 n = vk_choice("words", 1, N) * W - vk_choice("cut", 0, 2) * 7;
    BitsetView<B> v(Span<B>(m, N), n);
    u64 b = vk_range("begin", 0, N * W); vk_assume(b <= n);
    bool want = vk_choice("kind", 0, 1);
    u64 r = want ? v.find_set(b) : v.find_unset(b);
    u64 j = vk_range("bit", 0, N * W - 1);
    if (r == BitsetView<B>::npos) vk_assert(!(j >= b && j < n && bit(m, j) == want), "nothing is found only if there is nothing to find");
    else { vk_assert(r >= b && r < n, "the position lies inside the set"); vk_assert(bit(m, r) == want, "the bit found has the value"); vk_assert(!(j >= b && j < r && bit(m, j) == want), "it is the first one"); }
}
VK_CONTRACT(bs_find, "P17", "bounded: bitsets of up to 3 words", "BitsetView::find_set, find_unset", "the first set or unset bit at or after the position, within the size") { if (vk_choice("block", 0, 1)) bits_find<u64>(); else bits_find<u32>(); }
static const u8 cuts[] = {0, 1, 2, 30, 31, 32, 33, 45, 62, 63, 64, 65, 80, 95, 96};
template<typename B> static void bits_count() {
    const u64 W = sizeof(B) * 8, N = 96 / W;
    B m[N]; for (u64 i = 0; i < N; i++) m[i] = any<B>("block");
    u64 n = 96 - vk_choice("cut", 0, 2) * 7;
    BitsetView<B> v(Span<B>(m, N), n);
    u64 b = cuts[vk_choice("begin", 0, 14)], e = cuts[vk_choice("end", 0, 14)];
    vk_assume(b <= e && e <= n);
    u64 expect = 0;
    for (u64 w = 0; w < N; w++) {
        u64 lo = b > w * W ? b - w * W : 0, hi = e < w * W + W ? (e > w * W ? e - w * W : 0) : W;
        if (lo >= hi) continue;
        u64 mask = (hi == 64 ? ~(u64) 0 : ((u64) 1 << hi) - 1) & ~(((u64) 1 << lo) - 1);
        expect += (u64) popcount((B) (m[w] & (B) mask));
    }
    vk_assert(v.count(b, e - b) == expect, "the number of set bits in the range");
    if (e == n) vk_assert(v.count(b) == expect, "up to the end");
    if (b == 0 && e == n) vk_assert(v.count() == expect, "all");
}
VK_CONTRACT(bs_count, "P17", "bounded: 105 subranges of a bitset of 3 words", "BitsetView::count", "the number of set bits of the range (popcount of a word: u_bits)") { bits_count<u32>(); }
VK_CONTRACT(bs_dynamic, "P17", "bounded: up to 200 bits", "DynamicBitset", "a new bitset is empty; operations address the bits of the set; resizing keeps the bits") {
    u64 n = vk_choice("size", 0, 4) * 43 + vk_choice("extra", 0, 2) * 11;
    DynamicBitset s(n);
    vk_assert(s.size() == n && s.count() == 0 && s.find_set() == DynamicBitset::npos, "starts empty");
    if (n == 0) return;
    u64 i = vk_range("index", 0, n - 1), j = vk_range("other", 0, n - 1);
    s.set(i); vk_assert(s.test(i) && s.find_set() == i && s.count() == 1, "one bit");
    vk_assert(s.test(j) == (i == j), "no other bit");
    u64 n2 = n + vk_choice("grow", 0, 3) * 40;
    s.resize(n2);
    vk_assert(s.size() == n2 && s.test(i) && s.count() == 1 && s.find_set(i) == i, "resizing keeps the bits");
    if (i + 1 <= n2) vk_assert(s.find_set(i + 1) == DynamicBitset::npos, "no bits are added");
    s.flip(i); vk_assert(!s.test(i) && s.count() == 0, "flip");
}
