// Contracts of the compiler as a whole: every source text is either rejected with a diagnostic or compiled to a module that loads.
// vk-link: all
// vk-native: contracts
// vk-opts: * --path-steps 400000000 --time 500
#include "prog_harness.hpp"
#include "shapes.hpp"
#include "random_programs.hpp"
extern "C" vk_replacement vk_replacements_compile[];
vk_replacement vk_replacements_compile[] = { VK_PROG_REPLACEMENTS };
// The contract of the compiler: no internal error; an error is reported if and only if there is no module; every module is valid.
static bool accepted(const std::string& text) {
    try {
        Compiler c("m"); c.add_file("f", text); auto r = c.run();
        vk_assert(r.success == !c.diag().has_errors() && r.success == (r.module != nullptr), "a module, or a diagnostic that says why not");
        if (!r.success) return false;
        Context ctx{SmallHeap()}; vm::Scope in(ctx); Local m = in.local(load_module(ctx, *r.module)); vk_assert(ctx.modules().add_module(ctx, m), "the module is accepted by the vm"); return true;
    } catch (const std::exception& e) { vk_print(text.c_str(), 0); vk_assert(false, "no internal error"); return false; }
}

#define FUNCS_IRGEN "FunctionIRGen, ExprCompiler, compile_stmt, compile_loop_body, compile_deferred_expr, PathCompiler, compile_assign, compile_target, eliminate_dead_code, connect_observe_assignments, FunctionCompiler::run, alloc_registers"
// One expression around a leaf, in a statement. The four contracts divide the statements.
template <int part> static void shapes() { size_t s = vk_choice("statement", 0, (n_stmts - 1 - part) / 4) * 4 + part, e = vk_choice("expression", 1, n_exprs - 1); accepted(shaped(s, e, (e * 7 + s * 5 + e * s) % 12)); }
#define SHAPES(part) VK_CONTRACT(compile_shapes_##part, "P22", "bounded: every statement shape of its quarter with every expression shape around one of 12 leaves", FUNCS_IRGEN, "a program with this statement and expression is compiled to a valid module or rejected with a diagnostic") { shapes<part>(); }
SHAPES(0) SHAPES(1) SHAPES(2) SHAPES(3)
VK_CONTRACT(compile_leaves_a, "P22", "bounded: every statement shape with each of the first 9 leaves", FUNCS_IRGEN, "a program with this statement is compiled to a valid module or rejected with a diagnostic") { accepted(shaped(vk_choice("statement", 0, n_stmts - 1), 0, vk_choice("leaf", 0, 8))); }
VK_CONTRACT(compile_leaves_b, "P22", "bounded: every statement shape with each of the other leaves", FUNCS_IRGEN, "a program with this statement is compiled to a valid module or rejected with a diagnostic") { accepted(shaped(vk_choice("statement", 0, n_stmts - 1), 0, vk_choice("leaf", 9, n_leaves - 1))); }
// Every combination of shapes: 31500 programs, too many for every change.
// vk-deep: compile_deep_0 compile_deep_1 compile_deep_2 compile_deep_3 compile_deep_4 compile_deep_5 compile_deep_6 compile_deep_7 compile_deep_8
#define DEEP(part) VK_CONTRACT(compile_deep_##part, "P22", "bounded: every statement shape with every expression shape around two leaves", FUNCS_IRGEN, "a program with this statement and expression is compiled to a valid module or rejected with a diagnostic") { accepted(shaped(vk_choice("statement", 0, n_stmts - 1), vk_choice("expression", 0, n_exprs - 1), part * 2 + vk_choice("leaf", 0, 1))); }
DEEP(0) DEEP(1) DEEP(2) DEEP(3) DEEP(4) DEEP(5) DEEP(6) DEEP(7) DEEP(8)
// Programs that broke the compiler. 
VK_CONTRACT(compile_corners, "P22", "bounded: the programs listed in the contract", FUNCS_IRGEN ", visit_func_decl, build_module_ast, parse_block_expr", "programs whose control flow never completes, leaves loops from deferred code, or nests loops and functions compile; malformed text is rejected") {
    static const struct { const char* text; bool good; } cases[] = {
        {"export func f(x) { return x?(return x); }", true}, {"export func f(x) { for var i = 0; (return i); i += 1 { x(); } }", true}, {"export func f(c) { const z = if (c) { return 1; } else { return 2; }; return z; }", true},
        {"export func f(c) { for ;; { return c; } c(); }", true}, {"export func f(c) { assert(c, return 1); return c; }", true}, {"export func f(c) { while (c) { const g = func() = break; } }", false}, {"export func f(c) { while (c) { const g = func() { continue; }; } }", false},
        {"export func f(x, y) { var a = 0; while (x) { var b = a; while (y) { a = b + 1; while (b) { b = a; } } a = b; } return a; }", true}, {"export func f(x, y) { for e in x { defer continue; y(e); } return y; }", true}, {"export func f(x, y) { while (x) { defer break; y(1); } y(2); }", true},
        {"export func f(x, y) { for e in x { for g in y { defer { if (g) { break; } }; if (e) { continue; } y(g); } defer x(); if (y(e)) { return e; } } return y; }", true}, {"export func f(x) { defer { var i = 0; while (i < 3) { i += 1; if (x) { continue; } break; } }; x(); return { defer x(); 2; }; }", true},
        {"export func f(x) { var v = 1; defer { const g = func() = v; g(); }; v = 2; x(); const h = func() { v = 3; }; h(); if (x) { return v; } v = 4; }", true}, {"export func f(x, y) { (x, y) = if (x) { (y, x); } else { (1, 2); }; return (y, x); }", true},
        {"export func f() { 1 / 0; 1 % 0; -9223372036854775807 - 2; return 2 ** 70; }", true}, {"export func f() = if (true) 1 else 2;", false}, {"export func f(a, a) = a;", false}, {"const a = b; const b = 1; export func f() = a;", false}, {"import std; export func f() = std.print;", true}, {"import std; export func f() { std = 1; }", false}, {"export var v = 1;", false}, {"const c = 1; export func f() { c = 2; }", false},
        {"func f() { const '${' x }", false}, {"func g() = } / var0x func f() { record const ' yield>> ${'  }", false}, {"export func f(x) { try :const // \n \" (>> ${1. }: record  }", false}, {"\xff", false}, {"export func f() = \"\xed\xa0\x80\";", false}, {"\xc3", false}, {"export func f() = \"\xe2\x82\xac\";", true}, {"export func f() = \"\\x4\";", false}, {"export func f() = \"\\u{110000}\";", false}, {"export func f() = 99999999999999999999;", false}, {"export func f() = 0x;", false}, {"", true}, {";;;", true}, {"export", false}, {"func", false}, {"}", false}, {"\"", false}, {"'${", false}, {"\"$", false}, {"export func f() = \"${\"${1}\"}\";", true}, {"export func f() = #a;", true}, {"export func f() = ##;", false},
        {"export func f(x) = [[[[[[[[[[[[[[[[[[[[x]]]]]]]]]]]]]]]]]]]];", true}, {"export func f(x) = ((((((((((((((((((((x))))))))))))))))))));", true}, {"export func f(x) { {{{{{{{{{{{{{{{{x;}}}}}}}}}}}}}}}} }", true},
    };
    auto& c = cases[vk_choice("program", 0, sizeof(cases) / sizeof(*cases) - 1)]; vk_assert(accepted(c.text) == c.good, "accepted if and only if the program is valid");
}
VK_CONTRACT(compile_random_a, "P22", "bounded: 160 pseudo random programs of two functions", FUNCS_IRGEN, "a program of up to 80 statements and expressions is compiled to a valid module or rejected with a diagnostic") { u64 n = vk_choice("program", 0, 159); accepted(Gen(31000000 + n, 10 + n % 50).program()); }
VK_CONTRACT(compile_random_b, "P22", "bounded: 160 pseudo random programs of two functions", FUNCS_IRGEN, "a program of up to 80 statements and expressions is compiled to a valid module or rejected with a diagnostic") { u64 n = vk_choice("program", 0, 159); accepted(Gen(32000000 + n, 10 + n % 50).program()); }
static const char* const fragments[] = {"func", "export", "import", "const", "var", "if", "else", "while", "for", "in", "defer", "return", "break", "continue", "assert", "(", ")", "{", "}", "[", "]", "map{", "set{", "\"", "'", "$", "${", "}", "#", "=", "==", "+", "+=", "-", "*", "**", "/", "%", "<", "<=", "&&", "||", "!", "~", "?.", "?[", "?(", "??", ".", ",", ";", ":", "1", "0x", "0b12", "1.5", "1.", "99999999999999999999", "a", "b", "a.b.c", "_", "null", "true", "\\", "\\x4", "//", "/*", "*/", "\n", "\xff", "\xc3", "\xed\xa0\x80", "\xe2\x82\xac", "@", "`", "switch", "func f() {", "export func f(x) {", "record", "0", "1_0", "1__", "&", "|", "^", "<<", ">>", "yield", "is", "as"};
static const char* const starts[] = {"", "export func f(x) { ", "func g() = ", "const c = "};
VK_CONTRACT(compile_fragments, "P22", "bounded: 800 pseudo random sequences of up to 14 fragments of source text", "Lexer, Parser, parse_file, parse_item, parse_stmt, parse_expr, build_syntax_tree, build_module_ast, Compiler::run, validate_utf8", "any text, however malformed, is compiled to a valid module or rejected with a diagnostic") {
    Gen g(7000 + vk_choice("text", 0, 799)); std::string p = starts[g.r(4)]; for (unsigned i = 1 + g.r(14); i > 0; i--) { p += fragments[g.r(sizeof(fragments) / sizeof(*fragments))]; if (g.r(3)) p += " "; } if (g.r(2)) p += " }"; accepted(p);
}
