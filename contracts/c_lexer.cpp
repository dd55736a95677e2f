// Contracts of the lexer.
// vk-link: common compiler
#include "vk.h"
#include "stubs.hpp"
#include "common/text/unicode.hpp"
#include "compiler/syntax/lexer.hpp"
#include "compiler/syntax/grammar/literals.hpp"
#include <cstring>
#include <string>
using namespace tiro;
// Contract of the character classes: exact for ASCII (see class_tables), an arbitrary fixed predicate of the code point otherwise.
static bool in(u32 x, u32 lo, u32 hi) { return vk_and(lo <= x, x <= hi); }
static bool letter(u32 c) { return vk_or(in(c, 'a', 'z'), in(c, 'A', 'Z')); }
static bool vk_stub_start(CodePoint c) { return vk_or(letter(c), vk_and(c >= 128, (c & 1) != 0)); }
static bool vk_stub_continue(CodePoint c) { return vk_or(vk_or(letter(c), vk_or(in(c, '0', '9'), c == '_')), vk_and(c >= 128, (c & 3) != 0)); }
static bool vk_stub_space(CodePoint c) { return vk_or(vk_or(in(c, 9, 13), c == ' '), vk_and(c >= 128, (c & 7) == 4)); }
// Contract of the hash function of strings: equal texts have equal hashes.
static size_t vk_stub_hash(const std::string_view&) { return 0; }
extern "C" vk_replacement vk_replacements_lexer[];
vk_replacement vk_replacements_lexer[] = { VK_BASE_REPLACEMENTS,
    { "tiro::is_xid_start(", (void*) vk_stub_start }, { "tiro::is_xid_continue(", (void*) vk_stub_continue }, { "tiro::is_whitespace(", (void*) vk_stub_space },
    { "~_ZN4absl7debian313hash_internal15MixingHashState4hashISt17basic_string_view~", (void*) vk_stub_hash } };
static bool id_start(u32 c) { return c == '_' || is_xid_start(c); }

struct Op { TokenType type; const char* text; };
static const Op ops[] = {
    {TokenType::LeftParen, "("}, {TokenType::RightParen, ")"}, {TokenType::LeftBracket, "["}, {TokenType::RightBracket, "]"}, {TokenType::LeftBrace, "{"}, {TokenType::RightBrace, "}"},
    {TokenType::Dot, "."}, {TokenType::Comma, ","}, {TokenType::Colon, ":"}, {TokenType::Semicolon, ";"}, {TokenType::Question, "?"}, {TokenType::QuestionDot, "?."},
    {TokenType::QuestionLeftParen, "?("}, {TokenType::QuestionLeftBracket, "?["}, {TokenType::QuestionQuestion, "??"}, {TokenType::Plus, "+"}, {TokenType::Minus, "-"}, {TokenType::Star, "*"},
    {TokenType::StarStar, "**"}, {TokenType::Slash, "/"}, {TokenType::Percent, "%"}, {TokenType::PlusEquals, "+="}, {TokenType::MinusEquals, "-="}, {TokenType::StarEquals, "*="},
    {TokenType::StarStarEquals, "**="}, {TokenType::SlashEquals, "/="}, {TokenType::PercentEquals, "%="}, {TokenType::PlusPlus, "++"}, {TokenType::MinusMinus, "--"}, {TokenType::BitwiseNot, "~"},
    {TokenType::BitwiseOr, "|"}, {TokenType::BitwiseXor, "^"}, {TokenType::BitwiseAnd, "&"}, {TokenType::LeftShift, "<<"}, {TokenType::RightShift, ">>"}, {TokenType::LogicalNot, "!"},
    {TokenType::LogicalOr, "||"}, {TokenType::LogicalAnd, "&&"}, {TokenType::Equals, "="}, {TokenType::EqualsEquals, "=="}, {TokenType::NotEquals, "!="}, {TokenType::Less, "<"},
    {TokenType::Greater, ">"}, {TokenType::LessEquals, "<="}, {TokenType::GreaterEquals, ">="}};
static const Op words[] = {
    {TokenType::KwAssert, "assert"}, {TokenType::KwBreak, "break"}, {TokenType::KwConst, "const"}, {TokenType::KwContinue, "continue"}, {TokenType::KwDefer, "defer"}, {TokenType::KwElse, "else"},
    {TokenType::KwExport, "export"}, {TokenType::KwFalse, "false"}, {TokenType::KwFor, "for"}, {TokenType::KwFunc, "func"}, {TokenType::KwIf, "if"}, {TokenType::KwImport, "import"}, {TokenType::KwIn, "in"},
    {TokenType::KwNull, "null"}, {TokenType::KwReturn, "return"}, {TokenType::KwTrue, "true"}, {TokenType::KwVar, "var"}, {TokenType::KwWhile, "while"}, {TokenType::KwAs, "as"}, {TokenType::KwCatch, "catch"},
    {TokenType::KwClass, "class"}, {TokenType::KwInterface, "interface"}, {TokenType::KwIs, "is"}, {TokenType::KwPackage, "package"}, {TokenType::KwProtocol, "protocol"}, {TokenType::KwScope, "scope"},
    {TokenType::KwStruct, "struct"}, {TokenType::KwSwitch, "switch"}, {TokenType::KwThrow, "throw"}, {TokenType::KwTry, "try"}, {TokenType::KwYield, "yield"}};
static bool spells(const u8* t, u64 n, const char* w) { if (strlen(w) != n) return false; bool r = true; for (u64 i = 0; i < n; i++) r = vk_and(r, t[i] == (u8) w[i]); return r; }

// All obligations of one source text.
static u64 lex_all(const u8* t, u64 n, bool ignore, u32 mode) {
    u8* copy = new u8[n]; memcpy(copy, t, n); // exact size: reading past the end is detected
    Lexer lex(std::string_view((const char*) copy, n)); lex.ignore_comments(ignore);
    u64 prev = 0, count = 0; TokenType last = TokenType::Eof;
    u8 stack[12]; u64 braces[12]; u64 depth = 1; stack[0] = 0; braces[0] = 0; // 0: normal, else the delimiter of a string
    while (1) {
        vk_assert(count <= n, "the lexer makes progress with every token");
        Token tok = lex.next(); u64 b = tok.range().begin(), e = tok.range().end(); TokenType k = tok.type();
        vk_assert(b >= prev && e >= b && e <= n, "tokens are in order, disjoint and inside the text");
        if (!ignore || stack[depth - 1]) for (u64 i = prev; i < b; i++) vk_assert(!stack[depth - 1] && vk_or(t[i] >= 128, is_whitespace(t[i])), "only white space lies between tokens");
        if (k == TokenType::Eof) { vk_assert(e == n && b == n, "the end is reported at the end"); break; }
        vk_assert(e > b, "tokens are not empty");
        const u8* s = t + b; u64 len = e - b; u32 c0 = s[0];
        if (stack[depth - 1]) vk_assert(k == TokenType::StringContent || k == TokenType::StringVar || k == TokenType::StringBlockStart || k == TokenType::StringEnd || (last == TokenType::StringVar && (k == TokenType::Identifier || k >= TokenType::KwAssert && k < TokenType::LeftParen)), "tokens of a string");
        switch (k) {
        case TokenType::Comment: vk_assert(!ignore && len >= 2 && s[0] == '/' && (s[1] == '/' || s[1] == '*'), "comments start like comments");
            if (s[1] == '/') { for (u64 i = 2; i < len; i++) vk_assert(s[i] != '\n', "line comments end at the end of the line"); vk_assert(e == n || t[e] == '\n', "line comments extend to the end of the line"); }
            else vk_assert(e == n || (s[len - 2] == '*' && s[len - 1] == '/'), "block comments end at their end");
            break;
        case TokenType::Integer: case TokenType::Float: case TokenType::TupleField: {
            vk_assert(in(c0, '0', '9'), "numbers start with a digit"); vk_assert((k == TokenType::TupleField) == (last == TokenType::Dot || last == TokenType::QuestionDot), "numbers after a dot are tuple fields");
            u64 dots = 0; for (u64 i = 0; i < len; i++) if (s[i] == '.') dots++;
            vk_assert(dots == (k == TokenType::Float ? 1 : 0), "exactly floats have a dot");
            vk_assert(e == n || !in(t[e], '0', '9'), "numbers extend over all digits");
            break; }
        case TokenType::Symbol: vk_assert(c0 == '#', "symbols start with #"); vk_assert(e == n || t[e] >= 128 || !vk_stub_continue(t[e]), "symbols extend over all identifier characters"); break;
        case TokenType::StringStart: vk_assert(len == 1 && vk_or(c0 == '\'', c0 == '"'), "strings start with a quote"); stack[depth] = c0 == '"' ? '"' : '\''; braces[depth] = 0; depth++; break;
        case TokenType::StringEnd: vk_assert(len == 1 && stack[depth - 1] && c0 == stack[depth - 1], "a string ends at its own quote"); depth--; break;
        case TokenType::StringVar: vk_assert(len == 1 && c0 == '$' && stack[depth - 1] && (e == n || s[1] != '{'), "$ in a string"); break;
        case TokenType::StringBlockStart: vk_assert(len == 2 && c0 == '$' && s[1] == '{' && stack[depth - 1], "${ in a string"); stack[depth] = 0; braces[depth] = 0; depth++; break;
        case TokenType::StringBlockEnd: vk_assert(len == 1 && c0 == '}' && !stack[depth - 1] && depth > 1 && braces[depth - 1] == 0, "the block of a string ends at its own brace"); depth--; break;
        case TokenType::StringContent: {
            bool esc = false;
            for (u64 i = 0; i < len; i++) { if (esc) { esc = false; continue; } if (s[i] == '\\') { esc = true; continue; } vk_assert(vk_and(s[i] != stack[depth - 1], s[i] != '$'), "string content stops at a quote or $"); }
            vk_assert(e == n || vk_or(t[e] == stack[depth - 1], t[e] == '$'), "string content extends to a quote or $");
            break; }
        case TokenType::Unexpected: { bool op = false; for (auto& o : ops) op = vk_or(op, spells(s, 1, o.text)); vk_assert(!vk_or(vk_or(op, in(c0, '0', '9')), vk_or(vk_or(letter(c0), c0 == '_'), vk_or(vk_or(c0 == '#', c0 == '"'), c0 == '\''))), "only unknown characters are unexpected"); break; }
        default: {
            bool found = false;
            for (auto& w : words) if (k == w.type) { found = true; vk_assert(spells(s, len, w.text), "keywords have their spelling"); }
            if (found || k == TokenType::Identifier) {
                vk_assert(e == n || t[e] >= 128 || !vk_stub_continue(t[e]), "identifiers extend over all identifier characters");
                if (k == TokenType::Identifier) { vk_assert(vk_or(vk_or(letter(c0), c0 == '_'), c0 >= 128), "identifiers start with a letter"); for (auto& w : words) vk_assert(!spells(s, len, w.text), "identifiers are not keywords"); }
                break;
            }
            for (auto& o : ops) if (k == o.type) { found = true; vk_assert(spells(s, len, o.text), "operators have their spelling"); }
            vk_assert(found, "a token of a source text");
            if (e < n) for (auto& o : ops) vk_assert(!spells(s, len + 1, o.text), "the longest operator is taken");
            if (k == TokenType::LeftBrace) braces[depth - 1]++;
            if (k == TokenType::RightBrace) { vk_assert(depth == 1 || braces[depth - 1] > 0, "a brace that ends the block of a string is reported as such"); if (braces[depth - 1]) braces[depth - 1]--; }
        } }
        if (k != TokenType::Comment) last = k;
        prev = e; count++;
    }
    delete[] copy;
    return count;
}
static bool wellformed(const u8* p, u64 n) {
    u64 i = 0;
    while (i < n) {
        u32 a = p[i];
        if (a < 0x80) i++;
        else { if (n - i < 2 || a < 0xC2 || a > 0xDF || p[i + 1] < 0x80 || p[i + 1] > 0xBF) return false; i += 2; }
    }
    return true;
}
// vk-covers: lex_any ran
VK_CONTRACT(lex_any, "P18", "bounded: all texts of up to 3 bytes (code points below 2048)", "Lexer::next, lex_normal, lex_identifier, lex_symbol, lex_number, lex_tuple_field, lex_operator, lex_string, lex_line_comment, lex_block_comment", "the lexer terminates, its tokens are inside the text, in order, disjoint, of the right kind and as long as possible; only white space and comments lie between them") {
    u64 n = vk_choice("size", 0, 3); u8 t[4]; vk_bytes(t, n, "text");
    if (!wellformed(t, n)) return;
    lex_all(t, n, vk_choice("ignore comments", 0, 1) != 0, 0);
    vk_cover("ran");
}
// vk-covers: lex_context ran
VK_CONTRACT(lex_context, "P18", "bounded: 24 contexts around any 2 bytes (code points below 2048)", "Lexer::next", "the same inside strings, string blocks, comments, numbers, operators, tuple accesses and symbols") {
    static const char* ctx[][2] = {{"\"", "\""}, {"'a$", " b'"}, {"\"${", "}x\" y"}, {"\"${{", "}}\""}, {"'${'", "'}'"}, {"/*", "*/x"}, {"/*/*", "*/*/"}, {"//", "\nx"}, {"0x", "f"}, {"0b1", ""}, {"1", ".5"}, {"a.", ".1"},
        {"a?.", "1"}, {"*", "="}, {"?", "?"}, {"<", "<"}, {">>", "="}, {"#", "a"}, {"i", "f"}, {"whil", ""}, {"\"\\", "\""}, {"{{", "}}"}, {"1.", "2"}, {"}", "${\""}};
    u64 i = vk_choice("context", 0, 23); u8 t[16]; u64 n = 0, a = strlen(ctx[i][0]), z = strlen(ctx[i][1]), k = vk_choice("bytes", 0, 2);
    memcpy(t, ctx[i][0], a); vk_bytes(t + a, k, "text"); memcpy(t + a + k, ctx[i][1], z); n = a + k + z;
    if (!wellformed(t, n)) return;
    lex_all(t, n, vk_choice("ignore comments", 0, 1) != 0, 0);
    vk_cover("ran");
}
VK_CONTRACT(lex_words, "P18", "bounded: every keyword and operator, alone and next to each other", "Lexer::next, Lexer::pos", "every keyword and operator is recognised as such") {
    auto first = [](const std::string& s) { Lexer l(s); Token t = l.next(); return t; };
    for (auto& w : words) {
        std::string s(w.text); Token t = first(s); vk_assert(t.type() == w.type && t.range().end() == s.size(), "keyword");
        vk_assert(first(s + "x").type() == TokenType::Identifier && first("_" + s).type() == TokenType::Identifier && first(s + " x").type() == w.type && first(s + "1").type() == TokenType::Identifier, "a longer word is an identifier");
        std::string p = s.substr(0, s.size() - 1); bool other = false; for (auto& v : words) if (p == v.text) other = true;
        vk_assert(other || first(p).type() == TokenType::Identifier, "a shorter word is an identifier");
    }
    for (auto& o : ops) { std::string s(o.text); Token t = first(s); vk_assert(t.type() == o.type && t.range().end() == s.size(), "operator at the end of the text"); vk_assert(first(s + "a").type() == o.type, "operator"); vk_assert(first("  " + s + " =").type() == o.type, "operator after white space"); }
    std::string s = "var x = foo(1, 2.5)"; Lexer l(s); l.next(); size_t p = l.pos(); Token a = l.next(); l.next(); l.pos(p); Token b = l.next();
    vk_assert(a.type() == b.type() && a.range() == b.range() && a.type() == TokenType::Identifier && a.range().begin() == 4 && a.range().end() == 5, "seeking back yields the same tokens");
}
