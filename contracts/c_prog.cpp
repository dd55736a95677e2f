// Contracts of whole programs: what they compute is what the source says, for all inputs.
// vk-link: all
// vk-native: contracts
// vk-opts: * --path-steps 400000000 --time 300
#include "prog_harness.hpp"
extern "C" vk_replacement vk_replacements_prog[];
vk_replacement vk_replacements_prog[] = { VK_PROG_REPLACEMENTS };
VK_CONTRACT(prog_assign, "P21", "bounded: the functions listed in the contract; all arguments within 1000 of zero, loops of up to 4 rounds", "compile_module, compile_function, FunctionIRGen, CurrentBlock, split_critical_edges, Liveness, RegisterAllocator, sequentialize_parallel_copies, BytecodeInterpreter", "simultaneous, chained and repeated assignment of variables, in straight line, in branches and in loops, has the effect the source describes") {
    Src s; s.add(R"PROG(
export func swap(a, b) { (a, b) = (b, a); return (a, b); }
export func rotate(a, b, c, n) { for var i = 0; i < n; i += 1 { (a, b, c) = (b, c, a); } return (a, b, c); }
export func shift(a, b, c, n) { var i = 0; while i < n { const t = a; a = b; b = c; c = t + i; i = i + 1; } return (a, b, c); }
export func lost(a, n) { var x = a; var y = 0; for var i = 0; i < n; i += 1 { y = x; x = x + 1; } return (x, y); }
export func chain(a, b) { var x, y, z; x = y = z = a - b; y += 1; z -= x; return (x, y, z); }
export func join(a, b, c) { var x = a, y = b; if (a < b) { (x, y) = (y, x); } else if (b < c) { x = c; } else { y = x = c; } return (x, y); }
export func both(a, b, n) { var x = a; var y = b; for var i = 0; i < n; i += 1 { if (x < y) { const t = x; x = y; y = t - 1; } else { y = y + x; } } return (x, y); }
export func value(a, b) { var x = a; const r = (x = x + b) - (x += a); return (r, x); }
export func fibs(n) { var a = 0, b = 1; for var i = 0; i < n; i += 1 { (a, b) = (b, a + b); } return a; }
)PROG");
    auto w = vk_choice("function", 0, 8); i64* v = s.v; i64 n = 0; switch (w) {
    case 0: s.call("swap", {s.arg(0), s.arg(1)}); s.is({v[1], v[0]}); break;
    case 1: n = (i64) vk_choice("n", 0, 4); s.call("rotate", {s.arg(0), s.arg(1), s.arg(2), SmallInteger::make(n)}); s.is({v[n % 3], v[(n + 1) % 3], v[(n + 2) % 3]}); break;
    case 2: { n = (i64) vk_choice("n", 0, 4); s.call("shift", {s.arg(0), s.arg(1), s.arg(2), SmallInteger::make(n)}); i64 a = v[0], b = v[1], c = v[2]; for (i64 i = 0; i < n; i++) { i64 t = a; a = b; b = c; c = t + i; } s.is({a, b, c}); break; }
    case 3: n = (i64) vk_choice("n", 0, 4); s.call("lost", {s.arg(0), SmallInteger::make(n)}); s.is({v[0] + n, n ? v[0] + n - 1 : 0}); break;
    case 4: s.call("chain", {s.arg(0), s.arg(1)}); s.is({v[0] - v[1], v[0] - v[1] + 1, 0}); break;
    case 5: { s.call("join", {s.arg(0), s.arg(1), s.arg(2)}); i64 x = v[0], y = v[1]; if (v[0] < v[1]) std::swap(x, y); else if (v[1] < v[2]) x = v[2]; else x = y = v[2]; s.is({x, y}); break; }
    case 6: { n = (i64) vk_choice("n", 0, 3); s.call("both", {s.arg(0), s.arg(1), SmallInteger::make(n)}); i64 x = v[0], y = v[1]; for (i64 i = 0; i < n; i++) { if (x < y) { i64 t = x; x = y; y = t - 1; } else y += x; } s.is({x, y}); break; }
    case 7: s.call("value", {s.arg(0), s.arg(1)}); s.is({-v[0], v[0] + v[1] + v[0]}); break;
    case 8: { n = (i64) vk_choice("n", 0, 10); s.call("fibs", {SmallInteger::make(n)}); i64 a = 0, b = 1; for (i64 i = 0; i < n; i++) { i64 t = a; a = b; b += t; } s.is(a); break; }
    }
}
VK_CONTRACT(prog_logic, "P21", "bounded: the functions listed in the contract; all integer arguments within 1000 of zero, all truth values", "compile_binary_expr, compile_short_circuit, compile_if_expr, split_critical_edges, try_eval_binary, alloc_registers", "logical operators, comparisons, conditionals and null coalescing yield the value the source prescribes and evaluate only the operands they need, in order") {
    Src s; s.add(R"PROG(
func note(log, k, v) { log.append(k); return v; }
export func and3(a, b, c) { const l = []; const r = note(l, 1, a) && note(l, 2, b) && note(l, 3, c); return (r, l.size()); }
export func or3(a, b, c) { const l = []; const r = note(l, 1, a) || note(l, 2, b) || note(l, 3, c); return (r, l.size()); }
export func mixed(a, b, c) { const l = []; const r = note(l, 1, a) && (note(l, 2, b) || note(l, 3, c)) || !note(l, 4, b); var order = 0; for x in l { order = order * 10 + x; } return (r, order); }
export func cmp(a, b) = (a < b, a <= b, a > b, a >= b, a == b, a != b, !(a < b), a < b && b > a, a < b || a >= b);
export func pick(a, b, c) = if (a < b && b < c) { 1; } else if (a < b || b == c) { if (a == c) { 2; } else { 3; } } else { const t = if (a > c) { 4; } else { 5; }; t; };
export func branch(a, b) { var r = 0; if (a < b) { r = 1; if (a + 1 == b) { return r + 10; } } else { if (!(a == b)) { r = 2; } } if (b < 0 && !(a < 0) || a == 0) { r += 100; } return r; }
export func coalesce(a, b, c) { const l = []; const r = note(l, 1, a) ?? note(l, 2, b) ?? note(l, 3, c); return (r, l.size()); }
export func truthy(a, b) = (if (a) { 1; } else { 0; }) + (if (null) { 10; } else { 0; }) + (if (b) { 100; } else { 0; }) + (if (0) { 1000; } else { 0; }) + (if ("") { 10000; } else { 0; });
export func loops(a, b) { var i = 0; while i < 4 && (a < b || i < 2) { i += 1; if (i == 3 && b > 100) { break; } if (i != 2 || a == 7) { continue; } b = b - 1; } return (i, b); }
)PROG");
    auto w = vk_choice("function", 0, 9); i64* v = s.v; auto tup = [&](size_t i) { vk_assert(!s.panicked && s.result->is<vm::Tuple>(), "a tuple"); return s.result.must_cast<vm::Tuple>()->checked_get(i); }; auto truth = [&](size_t i) { Value x = tup(i); vk_assert(x.is<vm::Boolean>(), "a truth value"); return x.must_cast<vm::Boolean>().value(); }; auto num = [&](size_t i) { Value x = tup(i); vk_assert(x.is<vm::Integer>(), "a number"); return x.must_cast<vm::Integer>().value(); };
    switch (w) {
    case 0: s.call("and3", {s.pick(0), s.pick(1), s.pick(2)}); vk_assert(truth(0) == (v[0] && v[1] && v[2]) && num(1) == (!v[0] ? 1 : !v[1] ? 2 : 3), "and"); break;
    case 1: s.call("or3", {s.pick(0), s.pick(1), s.pick(2)}); vk_assert(truth(0) == (v[0] || v[1] || v[2]) && num(1) == (v[0] ? 1 : v[1] ? 2 : 3), "or"); break;
    case 2: s.call("mixed", {s.pick(0), s.pick(1), s.pick(2)}); vk_assert(truth(0) == ((v[0] && (v[1] || v[2])) || !v[1]) && num(1) == (!v[0] ? 14 : v[1] ? 12 : v[2] ? 123 : 1234), "and, or, not"); break;
    case 3: { s.call("cmp", {s.arg(0), s.arg(1)}); bool lt = v[0] < v[1], eq = v[0] == v[1]; bool want[] = {lt, lt || eq, !lt && !eq, !lt, eq, !eq, !lt, lt, true}; for (int i = 0; i < 9; i++) vk_assert(truth(i) == want[i], "comparisons"); break; }
    case 4: s.call("pick", {s.arg(0), s.arg(1), s.arg(2)}); s.is(v[0] < v[1] && v[1] < v[2] ? 1 : v[0] < v[1] || v[1] == v[2] ? (v[0] == v[2] ? 2 : 3) : v[0] > v[2] ? 4 : 5); break;
    case 5: { s.call("branch", {s.arg(0), s.arg(1)}); i64 a = v[0], b = v[1], r = 0; if (a < b && a + 1 == b) { s.is(11); break; } r = a < b ? 1 : a == b ? 0 : 2; if ((b < 0 && !(a < 0)) || a == 0) r += 100; s.is(r); break; }
    case 6: { auto k = vk_choice("nulls", 0, 7); auto mk = [&](int i) { return k >> i & 1 ? Value::null() : s.arg(i); }; s.call("coalesce", {mk(0), mk(1), mk(2)}); int first = !(k & 1) ? 0 : !(k & 2) ? 1 : 2; if (k == 7) vk_assert(tup(0).is_null() && num(1) == 3, "null"); else vk_assert(num(0) == v[first] && num(1) == first + 1, "the first value that is not null"); break; }
    case 7: { Value a = vk_choice("a", 0, 1) ? s.pick(0) : (v[0] = 1, s.arg(2)), b = vk_choice("b", 0, 1) ? s.pick(1) : (v[1] = 0, Value::null()); s.call("truthy", {a, b}); s.is((v[0] ? 1 : 0) + (v[1] ? 100 : 0) + 11000); break; }
    case 8: { s.call("loops", {s.arg(0), s.arg(1)}); i64 a = v[0], b = v[1], i = 0; while (i < 4 && (a < b || i < 2)) { i++; if (i == 3 && b > 100) break; if (i != 2 || a == 7) continue; b--; } s.is({i, b}); break; }
    case 9: { i64 a = (i64) vk_choice("x", 0, 2) - 1; Value f = Value::null(); (void) f; v[0] = a; s.call("pick", {SmallInteger::make(a), SmallInteger::make(0), s.arg(2)}); s.is(a < 0 && 0 < v[2] ? 1 : a < 0 || v[2] == 0 ? (a == v[2] ? 2 : 3) : a > v[2] ? 4 : 5); break; }
    }
}
VK_CONTRACT(prog_loops, "P21", "bounded: the functions listed in the contract; integer arguments within 1000 of zero, up to 4 rounds", "compile_for_stmt, compile_for_each_stmt, compile_while_stmt, compile_loop_body, compile_break_expr, compile_continue_expr, Dominators, Liveness", "loops run exactly the rounds the source describes; break, continue and return leave exactly the loops they name; variables after a loop have the value of the last round") {
    Src s; s.add(R"PROG(
export func search(a, b, c, x) { var at = -1; var i = 0; for y in [a, b, c] { if (x == y) { at = i; break; } i += 1; } return (at, i); }
export func nested(n, m, x) { var count = 0, last = -1; for var i = 0; i < n; i += 1 { for var j = 0; j < m; j += 1 { if (j == i) { continue; } if (i * 10 + j == x) { break; } count += 1; last = i * 10 + j; } if (last > x) { break; } } return (count, last); }
export func early(n, x) { for var i = 0; ; i += 1 { while (true) { if (i >= n) { return (i, "end".size()); } if (i == x) { return (i, 7); } break; } } }
export func sums(n, x) { var s = 0, p = 1; for var i = 1, k = n; i <= k; i += 1 { s += x; p += i; k = k - 0; } var j = n; while (j > 0) { j -= 1; s -= j; } return (s, p, j); }
export func inner(n, x) { var r = 0; for var i = 0; i < n; i += 1 { var fresh = null; const seen = fresh ?? x; fresh = 5; r += seen; { var r = 100; r += 1; } } return r; }
export func pairs(a, b) { var s = 0, t = 0; const m = map{7: b, "k": a}; for (k, v) in m { if (k == "k") { s += v; } else { t += k - v; } } for (x, y) in [(a, 1), (b, 2)] { s += x; t += y; } return (s, t); }
export func block(n, x) { var r = 0; const y = 1 + { while (true) { r += x; if (r > 500 || n <= 0) { break; } n -= 1; } r; }; return (r, y); }
export func valued(n, a) { var i = 0; const f = func() { i += 1; return i; }; var t = 0; while (f() < n) { t = t * 2 + (if (i == 2) { continue; } else { a; }); } return (t, i); }
)PROG");
    auto w = vk_choice("function", 0, 7); i64* v = s.v; auto num = [&](const char* nm, i64 hi) { return (i64) vk_choice(nm, 0, (u64) hi); }; auto S = [](i64 x) -> Value { return SmallInteger::make(x); };
    switch (w) {
    case 0: { s.call("search", {s.arg(0), s.arg(1), s.arg(2), s.arg(3)}); i64 at = -1, i = 0; for (; i < 3; i++) if (v[i] == v[3]) { at = i; break; } s.is({at, i}); break; }
    case 1: { i64 n = num("n", 3), m = num("m", 2), x = (i64) num("x", 5) * 5 - 4; s.call("nested", {S(n), S(m), S(x)}); i64 c = 0, last = -1; for (i64 i = 0; i < n; i++) { for (i64 j = 0; j < m; j++) { if (i == j) continue; if (i * 10 + j == x) break; c++; last = i * 10 + j; } if (last > x) break; } s.is({c, last}); break; }
    case 2: { i64 n = num("n", 3), x = num("x", 4) - 1; s.call("early", {S(n), S(x)}); bool hit = x >= 0 && x < n; s.is({hit ? x : n, hit ? 7 : 3}); break; }
    case 3: { i64 n = num("n", 4); s.call("sums", {S(n), s.arg(0)}); i64 t = n * v[0], p = 1; for (i64 i = 1; i <= n; i++) p += i; for (i64 j = n; j > 0;) t -= --j; s.is({t, p, 0}); break; }
    case 4: { i64 n = num("n", 4); s.call("inner", {S(n), s.arg(0)}); s.is(n * v[0]); break; }
    case 5: s.call("pairs", {s.arg(0), s.arg(1)}); s.is({v[0] + v[0] + v[1], 7 - v[1] + 3}); break;
    case 6: { i64 n = num("n", 3); s.call("block", {S(n), s.arg(0)}); i64 r = 0; while (true) { r += v[0]; if (r > 500 || n <= 0) break; n--; } s.is({r, r + 1}); break; }
    case 7: { i64 n = num("n", 5); s.call("valued", {S(n), s.arg(0)}); i64 i = 0, t = 0; while (++i < n) { if (i == 2) continue; t = t * 2 + v[0]; } s.is({t, i}); break; }
    }
}
VK_CONTRACT(prog_closures, "P21", "bounded: the functions listed in the contract; integer arguments within 1000 of zero", "ClosureEnvCollection, compile_env, compile_func_expr, compile_closure, FunctionIRGen::enter_compilation, MakeEnvironment, MakeClosure, symbol resolution", "every function sees the variables of its own activation and of its own round of a loop, shares them with the functions made there, and leaves others alone") {
    Src s; s.add(R"PROG(
const base = 5; var total = 0;
func counter(start) { var n = start; return (inc: func(by) { n += by; return n; }, get: func() = n, nested: func(x) { const old = n; return func() { n = n + x; return old; }; }); }
export func counters(a, b) { const c = counter(a), d = counter(b); c.inc(1); d.inc(b); const f = c.nested(b); c.inc(10); const o = f(); return (c.get(), d.get(), o); }
export func rounds(a, b) { const fs = []; for var i = 0; i < 3; i += 1 { var mine = a + i; fs.append((func() { mine += b; return mine; }, func() = mine)); } fs[1].0(); fs[1].0(); fs[2].0(); return (fs[0].1(), fs[1].1(), fs[2].1()); }
export func params(a, b) { const f = func(a) { const g = func(c) { a += c; b = b + a; return a; }; return g(b) + a; }; const r = f(a); return (r, a, b); }
export func recurse(n, a) { const down = func(k, acc) { if (k == 0) { return acc; } const part = func() = acc + a; return helper(k - 1, part()); }; return down(n, a); }
func helper(k, acc) { if (k <= 0) { return acc; } return helper(k - 1, acc * 2); }
export func globals(a, b) { total = a; const bump = func(x) { total += x + base; }; bump(b); bump(1); return total; }
export func shadow(a, b) { const x = a; var r = 0; { const x = b; r += x; const f = func() { const x = 1; return x; }; r += f(); } const x2 = func(x) = x + a; return (r, x, x2(b)); }
export func late(a, b) { var f = null; const g = func() = f(b); f = func(x) = x - a; const h = g; f = func(x) = x + a; return (g(), h()); }
)PROG");
    i64* v = s.v; auto S = [](i64 x) -> Value { return SmallInteger::make(x); };
    switch (vk_choice("function", 0, 6)) {
    case 0: s.call("counters", {s.arg(0), s.arg(1)}); s.is({v[0] + 11 + v[1], 2 * v[1], v[0] + 1}); break;
    case 1: s.call("rounds", {s.arg(0), s.arg(1)}); s.is({v[0], v[0] + 1 + 2 * v[1], v[0] + 2 + v[1]}); break;
    case 2: s.call("params", {s.arg(0), s.arg(1)}); s.is({2 * (v[0] + v[1]), v[0], v[1] + v[0] + v[1]}); break;
    case 3: { i64 n = (i64) vk_choice("n", 0, 4); s.call("recurse", {S(n), s.arg(0)}); s.is(n == 0 ? v[0] : 2 * v[0] * (1ll << (n - 1))); break; }
    case 4: s.call("globals", {s.arg(0), s.arg(1)}); s.is(v[0] + v[1] + 11); break;
    case 5: s.call("shadow", {s.arg(0), s.arg(1)}); s.is({v[1] + 1, v[0], v[0] + v[1]}); break;
    case 6: s.call("late", {s.arg(0), s.arg(1)}); s.is({v[1] + v[0], v[1] + v[0]}); break;
    }
}
VK_CONTRACT(prog_defer, "P21,P15", "bounded: the functions listed in the contract; all truth values of the flags", "compile_defer_stmt, compile_scope_exit, enter_scope, ScopeExit handling, compile_return_expr, HandlerTable generation, ObserveAssign, PublishAssign, assignment observers", "deferred expressions run exactly once whenever their scope is left, in reverse order, after normal completion, break, continue, return and exceptions, and see the current values of variables") {
    Src s; s.add_std(); s.add(R"PROG(
import std;
func out(log) { var s = 0; for x in log { s = s * 10 + x; } return s; }
export func order(x, y) { const l = []; const f = func() { defer l.append(1); l.append(2); if (x) { defer l.append(3); if (y) { return 0; } l.append(4); } defer l.append(5); l.append(6); return 0; }; f(); return out(l); }
export func loops(x, y) { const l = []; for var i = 1; i < 4; i += 1 { defer l.append(i); if (i == 2) { defer l.append(7); if (x) { break; } if (y) { continue; } } l.append(9); } return out(l); }
export func panics(x, y) { const l = []; const f = func() { defer l.append(1); { defer l.append(2); if (x) { std.panic("boom"); } l.append(3); } l.append(4); if (y) { l.foo; } l.append(5); }; const r = std.catch_panic(f); if (r.is_error()) { l.append(8); } return out(l); }
export func values(x, y) { const l = []; const f = func() { var v = 1; defer l.append(v); v = 2; if (x) { v = 3; if (y) { std.panic("boom"); } v = 4; } var w = v; defer l.append(w); w = 9; return v; }; const r = std.catch_panic(f); return out(l); }
export func nested(x, y) { const l = []; const f = func() { defer { l.append(1); defer l.append(2); if (x) { std.panic("in defer"); } l.append(3); }; defer l.append(4); if (y) { std.panic("first"); } return 5; }; const r = std.catch_panic(f); if (r.is_success()) { l.append(r.value()); } return out(l); }
export func replaced(x, y) { const l = []; const f = func() { for var i = 0; i < 2; i += 1 { defer if (x) { break; } else { l.append(6); }; l.append(1); if (y) { return 7; } } return 8; }; l.append(f()); return out(l); }
func down(l, k, x) { defer l.append(k); if (k == 3) { if (x) { std.panic("deep"); } return 0; } across(l, k, x); l.append(k + 3); return 0; } func across(l, k, x) { defer l.append(9); down(l, k + 1, x); }
export func deep(x, y) { const l = []; std.catch_panic(func() { defer if (y) { l.append(8); }; down(l, 1, x); }); return out(l); }
)PROG");
    const char* names[] = {"order", "loops", "panics", "values", "nested", "replaced", "deep"}; auto w = vk_choice("function", 0, 6); Value x = s.pick(0), y = s.pick(1); bool X = s.v[0], Y = s.v[1]; s.call(names[w], {x, y});
    switch (w) {
    case 0: s.is(X ? Y ? 231 : 243651 : 2651); break;
    case 1: s.is(X ? 9172 : Y ? 917293 : 9179293); break;
    case 2: s.is(X ? 218 : Y ? 32418 : 32451); break;
    case 3: s.is(X ? Y ? 3 : 94 : 92); break;
    case 4: s.is(X ? 412 : Y ? 4132 : 41325); break;
    case 5: s.is(X ? 18 : Y ? 167 : 16168); break;
    case 6: s.is(X ? Y ? 392918 : 39291 : Y ? 39529418 : 3952941); break;
    }
}
