// Shapes of programs: every way to put an expression into a statement or another expression.
#pragma once
#include <string>
#include <cstddef>
namespace {
const char* const leaves[] = {"(return x)", "(break)", "(continue)", "x", "(return)", "y(1)", "(x = 2)", "null", "(func() = x)", "(func(p) { return p; })", "true", "1.5", "{}", "{ var v = x; v; }", "\"t\"", "f", "undefined_name", "#sym"};
const char* const exprs[] = {"@", "(@ + x)", "(x + @)", "(@ && y)", "(x || @)", "(@ ?? y)", "(x ?? @)", "-@", "!@", "(x = @)", "(x += @)", "(w = @)", "if (@) { 1; } else { x; }", "if (x) { @; } else { 2; }", "if (x) { 2; } else { @; }", "{ y(1); @; }", "{ defer y(1); @; }", "x(@)", "x(y, @)", "x?(@)", "(@)(x)", "(@)?(x, y)", "(@).a", "(@)?.a", "(@)[x]", "(@)?[x]", "x[@]", "x?[@]", "x.m(@)", "x?.m(y, @)", "(@).m(x)", "(@)?.m(x)?.n", "[x, @]", "(x, @)", "(@,)", "(a: x, b: @)", "\"s ${@} t\"", "map{x: @}", "map{@: x}", "set{@}", "(func(p) = @)", "(func() { var q = x; q = @; return q; })", "((x, @).1)", "(x < @)", "(@ == null)", "(x.a = @)", "(x[@] = y)", "(x[y] -= @)", "((x, y) = @)", "(@ % 3)", "(1 / @)"};
const char* const stmts[] = {"@;", "var v = @; v = x; return v;", "const v = @; return func() = v;", "while (@) { y(1); }", "while (x) { @; } return x;", "while (x) { @; y(x); } y(2);", "while (true) { if (@) { break; } y(1); }", "for ;; { @; } y(2);", "for ; @; y(1) { } y(2);", "for var i = 0; i < 2; @ { y(i); } y(2);", "for var i = @; i < 2; i += 1 { y(i); }", "for e in @ { y(e); } y(2);", "for e in x { @; y(e); } return x;", "for (e, g) in x { y(g); @; }", "assert(@, \"m\"); y(1);", "assert(x, @); y(1);", "x.a = @;", "x[@] = y; return x;", "x[y] += @;", "const (a, b) = @; return a;", "var (a, b) = (@, x); (b, a) = (a, @);", "if (@) { y(1); } return x;", "if (x) { @; } y(1);", "if (x) { x = @; } else if (@) { y = x; } return x + y;", "return @;", "defer @; y(1);", "defer @; return y;", "defer { y(1); @; } while (x) { x = y(2); }", "while (x) { defer @; y(1); }", "while (x) { defer y(1); @; } return x;", "for e in x { defer { y(e); @; } w = e; if (e) { continue; } break; } return w;", "defer { const g = func() = w; @; g(); } w = 3; y(1); w = 4;", "const g = func() { w += 1; return @; }; w = x; while (g()) { const h = func() = w + x; w = h; } return w;", "var v = 0; while (x) { while (y) { v = @; if (v) { break; } } v += 1; } return v;", "{ defer y(1); { defer y(2); @; } y(3); } return x;"};
constexpr size_t n_leaves = sizeof(leaves) / sizeof(*leaves), n_exprs = sizeof(exprs) / sizeof(*exprs), n_stmts = sizeof(stmts) / sizeof(*stmts);
inline std::string fill(const char* shape, const std::string& hole) { std::string r; for (; *shape; shape++) { if (*shape == '@') r += hole; else r += *shape; } return r; }
inline std::string shaped(size_t s, size_t e, size_t l) { return "var m = 1; export func f(x, y) { var w = 1; " + fill(stmts[s], fill(exprs[e], leaves[l])) + " }"; }
}
