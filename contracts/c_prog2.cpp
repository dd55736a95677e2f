// Contracts of whole programs: order of evaluation, data, constants, strings, deferred code, many variables.
// vk-link: all
// vk-native: contracts
// vk-opts: * --path-steps 400000000 --time 300
#include "prog_harness.hpp"
extern "C" vk_replacement vk_replacements_prog2[];
vk_replacement vk_replacements_prog2[] = { VK_PROG_REPLACEMENTS };
VK_CONTRACT(prog_order, "P21", "bounded: the functions listed in the contract", "PathCompiler, compile_exprs, compile_assign, ExprCompiler::visit_binary_expr, ExprCompiler::visit_tuple_literal, ExprCompiler::visit_array_literal, ExprCompiler::visit_map_literal, ExprCompiler::visit_set_literal, ExprCompiler::visit_record_literal, ExprCompiler::visit_string_expr", "operands, arguments, literals' items, assignment targets and assigned values are evaluated once each, from left to right") {
    static const struct { const char* fn; i64 want; } cases[] = {{"bin", 1234}, {"args", 1234}, {"meth", 129}, {"lits", 12345678}, {"store", 1237}, {"field", 12347}, {"comp", 1238}, {"multi", 12345667}, {"chain", 1234588}, {"opt", 135697}, {"str", 12}, {"lz", 123}, {"same", 122633}, {"tup", 122}, {"cmp", 123}, {"ret", 12321}};
    Src s; s.add(R"PROG(
func out(log) { var s = 0; for x in log { s = s * 10 + x; } return s; }
func n(l, k, v) { l.append(k); return v; }
func f3(a, b, c) = a * 100 + b * 10 + c;
export func bin() { const l = []; n(l, 1, 5) - n(l, 2, 3) * n(l, 3, 2) + n(l, 4, 1); return out(l); }
export func args() { const l = []; n(l, 1, f3)(n(l, 2, 1), n(l, 3, 2), n(l, 4, 3)); return out(l); }
export func meth() { const l = []; n(l, 1, l).append(n(l, 2, 9)); return out(l); }
export func lits() { const l = []; const t = (n(l, 1, 1), [n(l, 2, 2), n(l, 3, 3)], map{n(l, 4, 4): n(l, 5, 5)}, set{n(l, 6, 6)}, (a: n(l, 7, 7), b: n(l, 8, 8))); return out(l); }
export func store() { const l = []; const a = [0, 0]; n(l, 1, a)[n(l, 2, 1)] = n(l, 3, 7); l.append(a[1]); return out(l); }
export func field() { const l = []; const r = (x: 1); n(l, 1, r).x = n(l, 2, 5); n(l, 3, r).x += n(l, 4, 2); l.append(r.x); return out(l); }
export func comp() { const l = []; const a = [4, 5]; n(l, 1, a)[n(l, 2, 1)] += n(l, 3, 3); l.append(a[1]); return out(l); }
export func multi() { const l = []; const a = [0, 0]; (n(l, 1, a)[n(l, 2, 0)], n(l, 3, a)[n(l, 4, 1)]) = (n(l, 5, 6), n(l, 6, 7)); l.append(a[0]); l.append(a[1]); return out(l); }
export func chain() { const l = []; const a = [0, 0]; n(l, 1, a)[n(l, 2, 0)] = n(l, 3, a)[n(l, 4, 1)] = n(l, 5, 8); l.append(a[0]); l.append(a[1]); return out(l); }
export func opt() { const l = []; const x = null; n(l, 1, x)?.foo(n(l, 2, 1)); n(l, 3, x)?[n(l, 4, 1)]; n(l, 5, l)?.append(n(l, 6, 9)); n(l, 7, x)?.a.b.c; return out(l); }
export func str() { const l = []; const x = 0; const s = "${n(l, 1, 1)} $x ${n(l, 2, 2)}"; return out(l); }
export func lz() { const l = []; n(l, 1, null) ?? n(l, 2, null) ?? n(l, 3, 1); return out(l); }
export func same() { const l = []; var x = 1; l.append(x + (x = 5) + x); l.append((x += 1) + x); var t = (x, x = 3, x); l.append(t.0); l.append(t.1); l.append(t.2); return out(l); }
export func tup() { const l = []; const a = [1]; const t = (a[0], { a[0] = 2; a[0]; }, a[0]); l.append(t.0); l.append(t.1); l.append(t.2); return out(l); }
export func cmp() { const l = []; if (n(l, 1, 5) < n(l, 2, 4)) { l.append(9); } else if (n(l, 3, false)) { l.append(8); } return out(l); }
export func ret() { const l = []; var x = 1; const f = func() { x += 1; return x; }; l.append(x); l.append(f()); const t = (f(), { x -= 2; x + 1; }, x); l.append(t.0); l.append(t.1); l.append(t.2); return out(l); }
)PROG");
    auto& c = cases[vk_choice("function", 0, sizeof(cases) / sizeof(cases[0]) - 1)]; s.call(c.fn); s.is(c.want);
}
VK_CONTRACT(prog_data, "P21", "bounded: the functions listed in the contract; all integer arguments within 1000 of zero", "compile_assign, compile_var_decl, compile_tuple_assign_targets, PathCompiler, lvalue_cache_key, memoize_value, BytecodeInterpreter", "destructuring, fields, elements, optional access and module variables read the value last written, whichever name it was written through") {
    Src s; s.add(R"PROG(
var count = 0; const seven = 3 + 4; const list = [1, 2]; const (one, two) = (list[0], list[1]);
func bump() { count += 1; return count; }
func pairup(a, b) = (a, b);
export func destr(a, b) { const (x, y) = pairup(a, b); var (u, v) = (y, x); (u, v) = pairup(v, u); var w = 0; for (p, q) in [(a, b), (b, a)] { w += p - q + p; } return (x, y, u, v, w); }
export func rec(a, b) { const r = (x: a, y: (z: b, w: [a, b])); r.x += 1; r.y.z = r.x; r.y.w[1] -= r.x; r.y.w[0] = r.y.w[1]; const q = r.y; q.z += 10; return (r.x, r.y.z, r.y.w[0], r.y.w[1]); }
export func opt(a, b) { const r = (x: a); const nil = null; return (nil?.x ?? b, r?.x ?? b, nil?.foo(1).bar ?? a, nil?[0] ?? b, r?.x); }
export func globals(a, b) { count = a; const x = count; const y = bump(); const z = count; count = z + b; const w = count; bump(); return (x, y, z, w, count); }
export func fields(a, b) { const r = (x: a); const s = r; const x = r.x; s.x = b; const y = r.x; s.x = y + 1; const z = r.x; const m = [a, b]; const k = m; const p = m[0]; k[0] = m[1]; return (x, y, z, p, m[0]); }
export func sizes(a) { const l = [a]; const s = l.size(); l.append(a); const t = l.size(); const last = l[t - 1]; l.clear(); return (s, t, l.size(), last); }
export func consts(a) { const k = seven + a; if (a > 0) { return (seven + a, k, one, two); } return (seven, k, one + 0, two); }
export func maps(a, b) { const m = map{1: a, "k": b}; m[1] += b; m["k"] = m[1] - m["k"]; m[2] = a; const t = (m[1], m["k"], m.size(), m[2]); m.remove(2); return (t.0, t.1, t.2, t.3, m.size()); }
export func tuples(a, b) { const t = (a, (b, (a, b)), [a]); const (p, q, r) = t; r[0] += 1; return (t.1.1.1, t.2[0], p, q.0, t.1.1.0); }
)PROG");
    i64* v = s.v; switch (vk_choice("function", 0, 8)) {
    case 0: s.call("destr", {s.arg(0), s.arg(1)}); s.is({v[0], v[1], v[0], v[1], v[0] + v[1]}); break;
    case 1: s.call("rec", {s.arg(0), s.arg(1)}); s.is({v[0] + 1, v[0] + 11, v[1] - v[0] - 1, v[1] - v[0] - 1}); break;
    case 2: s.call("opt", {s.arg(0), s.arg(1)}); s.is({v[1], v[0], v[0], v[1], v[0]}); break;
    case 3: s.call("globals", {s.arg(0), s.arg(1)}); s.is({v[0], v[0] + 1, v[0] + 1, v[0] + 1 + v[1], v[0] + 2 + v[1]}); break;
    case 4: s.call("fields", {s.arg(0), s.arg(1)}); s.is({v[0], v[1], v[1] + 1, v[0], v[1]}); break;
    case 5: s.call("sizes", {s.arg(0)}); s.is({1, 2, 0, v[0]}); break;
    case 6: s.call("consts", {s.arg(0)}); if (v[0] > 0) s.is({7 + v[0], 7 + v[0], 1, 2}); else s.is({7, 7 + v[0], 1, 2}); break;
    case 7: s.call("maps", {s.arg(0), s.arg(1)}); s.is({v[0] + v[1], v[0], 3, v[0], 2}); break;
    case 8: s.call("tuples", {s.arg(0), s.arg(1)}); s.is({v[1], v[0] + 1, v[0], v[1], v[0]}); break;
    }
}
VK_CONTRACT(prog_jumps, "P21,P15", "bounded: the functions listed in the contract; all truth values of the flags", "compile_scope_exit, compile_scope_exit_until, ExprCompiler::visit_block_expr, StmtCompiler::visit_defer_stmt, FunctionIRGen::find_env, enter_env, current_env, ClosureEnvCollection", "code deferred in an outer scope runs in that scope when inner scopes are left, code after an early exit is still protected, and deferred code shares variables with closures") {
    static const struct { const char* fn; i64 yes, no; } cases[] = {{"contin", 1501501598, 1567}, {"brk", 1598, 1567}, {"retry", 45318, 453127}, {"after", 213, 21}, {"inner", 213, 21}, {"cond", 15, 3},
        {"swallow", 51553634, 565656}, {"made", 219, 329}, {"shared", 11222, 11622626}, {"twice", 990, 9}, {"own", 2322, 12}};
    Src s; s.add_std(); s.add(R"PROG(
import std;
func out(log) { var s = 0; for x in log { s = s * 10 + x; } return s; }
func boom(x) { if (x) { std.panic("x"); } }
func t(f) { const l = []; const r = std.catch_panic(func() = f(l)); if (r.is_success() && r.value() != null) { l.append(r.value()); } return out(l); }
export func contin(x, y) = t(func(l) { for var i = 0; i < 3; i += 1 { defer { l.append(5); if (x) { continue; } l.append(6); }; for var j = 0; j < 3; j += 1 { defer l.append(j); if (j == 1) { return 7; } } } l.append(9); return 8; });
export func brk(x, y) = t(func(l) { for var i = 0; i < 3; i += 1 { defer { l.append(5); if (x) { break; } l.append(6); }; for var j = 0; j < 3; j += 1 { defer l.append(j); if (j == 1) { return 7; } } } l.append(9); return 8; });
export func retry(x, y) = t(func(l) { defer { l.append(1); if (x) { return 8; } l.append(2); }; { defer l.append(3); for var j = 0; j < 2; j += 1 { defer l.append(j + 4); if (j == 1) { return 7; } } } });
export func after(x, y) = t(func(l) { defer l.append(1); { defer l.append(2); if (x) { return 3; } boom(!x); } boom(true); });
export func inner(x, y) = t(func(l) { { defer l.append(1); while (true) { defer l.append(2); if (x) { return 3; } break; } } boom(true); });
export func cond(x, y) = t(func(l) { if (x) { defer l.append(1); return 5; } l.append(3); boom(!x); });
export func swallow(x, y) = t(func(l) { var n = 10; for var i = 0; i < 4; i += 1 { defer { l.append(5); if (x) { continue; } l.append(6); }; n = n + 1; boom(i == 2); if (x) { l.append(i); } n = n + 10; } l.append(9); return n; });
export func made(x, y) = t(func(l) { var v = 1; const g0 = func() = v; defer { const q = func() = v; l.append(q()); l.append(x.size()); }; for var i = 0; i < 2; i += 1 { var w = 50 + i; const g = func() = w; v += 1; if (x.size() == 1) { return 9; } } return 9; });
export func shared(x, y) = t(func(l) { var n = 0; const add = func(k) { n += k; }; for var i = 0; i < 3; i += 1 { var m = i; const g = func() { m += 1; return m; }; defer { l.append(m); if (x) { continue; } l.append(6); }; add(1); boom(i == 2); l.append(g()); } return null; });
export func twice(x, y) = t(func(l) { var k = 9; const f = func() { defer { const z = k; const q = func() = z; l.append(q()); if (z > 100) { l.append(2); } }; if (x) { defer l.append(k); return 1; } boom(!x); }; f(); return 0; });
export func own(x, y) = t(func(l) { for var i = 0; i < 2; i += 1 { var v = i; const g = func() { v += 1; }; defer { var c = v; const d = func() { c += 1; return c; }; if (x) { d(); } l.append(c); }; g(); } for var i = 0; i < 2; i += 1 { if (!x) { boom(true); } defer { var c = i; const d = func() = c + 1; l.append(if (i == 0) { d() + 1; } else { c + 1; }); }; } return null; });
)PROG");
    auto& c = cases[vk_choice("function", 0, sizeof(cases) / sizeof(cases[0]) - 1)]; (void) c; Value x = s.pick(0); vm::Scope sc(s.ctx); Local a = sc.local(x), b = sc.local(Value::null()); if (std::string_view(c.fn) == "made") { Local tup = sc.local(Tuple::make(s.ctx, s.v[0] ? 1 : 2)); a.set(*tup); } s.call(c.fn, {*a, *b}); s.is(s.v[0] ? c.yes : c.no);
}
static void consts(u64 lo, u64 hi) {
    static const char* ops[] = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">="}; static const char* vals[] = {"0", "1", "-7", "62", "9223372036854775807", "-9223372036854775807", "0.0", "-0.5", "null", "\"a\""}; static const char* un[] = {"+", "-", "!"};
    const int n = sizeof(vals) / sizeof(vals[0]); auto op = vk_choice("op", lo, hi); auto left = vk_choice("left", 0, op < 12 ? n - 1 : 0);
    std::string src = op < 12 ? std::string("export func r(a, b) = a ") + ops[op] + " b; export func vals() = [" : std::string("export func r(a, b) = ") + un[op - 12] + "b; export func vals() = ["; for (int i = 0; i < n; i++) { src += vals[i]; src += ", "; } src += "];";
    for (int j = 0; j < n; j++) { std::string e = op < 12 ? std::string("(") + vals[left] + ") " + ops[op] + " (" + vals[j] + ")" : std::string(un[op - 12]) + "(" + vals[j] + ")"; std::string id = std::to_string(j); src += "export func k" + id + "() = " + e + "; export func u" + id + "() { " + e + "; return 1; } export func c" + id + "() { const a = " + (op < 12 ? vals[left] : "0") + "; const b = " + vals[j] + "; return " + (op < 12 ? std::string("a ") + ops[op] + " b" : std::string(un[op - 12]) + "b") + "; } "; }
    Src s; s.add(src.c_str()); vm::Scope sc(s.ctx); s.call("vals"); Local arr = sc.local(s.result.must_cast<vm::Array>()); Local want = sc.local();
    for (int j = 0; j < n; j++) {
        std::string id = std::to_string(j); bool ok = s.call("r", {arr->checked_get(left), arr->checked_get(j)}); want.set(*s.result);
        for (const char* form : {"k", "c"}) { vk_assert(s.call((form + id).c_str()) == ok, "raises the same"); if (!ok) continue; vk_assert(s.result->type() == want->type() || (s.result->is<vm::Integer>() && want->is<vm::Integer>()), "the same type"); if (want->is<vm::Float>()) vk_assert(std::memcmp(&(const f64&) s.result.must_cast<vm::Float>()->value(), &(const f64&) want.must_cast<vm::Float>()->value(), 8) == 0 || (want.must_cast<vm::Float>()->value() != want.must_cast<vm::Float>()->value() && s.result.must_cast<vm::Float>()->value() != s.result.must_cast<vm::Float>()->value()), "the same number"); else vk_assert(vm::equal(*s.result, *want), "the same value"); }
        vk_assert(s.call(("u" + id).c_str()) == ok, "raises although the result is not used");
    }
}
VK_CONTRACT(prog_consts_arith, "P21,P02", "bounded: all pairs of 10 operands; operators of each kind", "try_eval_binary, try_eval_unary, ValueCompiler::visit_binary_op, ValueCompiler::visit_unary_op, dead code elimination, compile_constant, compile_assembly, BytecodeInterpreter", "an arithmetic operator applied to constants has the same effect as the operator applied to variables holding the same values, whether its result is used or not") { consts(0, 5); }
VK_CONTRACT(prog_consts_compare, "P21,P02", "bounded: all pairs of 10 operands; operators of each kind", "try_eval_binary, try_eval_unary, ValueCompiler::visit_binary_op, ValueCompiler::visit_unary_op, dead code elimination, compile_constant, compile_assembly, BytecodeInterpreter", "a comparison or a unary operator applied to constants has the same effect as the operator applied to variables holding the same values, whether its result is used or not") { consts(6, 14); }
VK_CONTRACT(prog_pressure, "P21", "bounded: generated functions with 8 to 320 variables live at once, permuted, spread over a loop, a call and a closure", "RegisterAllocator, Liveness, LiveRange, sequentialize_parallel_copies, parallel_copy, BytecodeBuilder, CoroutineStack", "any number of variables can be live at the same time: each keeps its value across calls, loops, permutations and exceptions") {
    static const int sizes[] = {8, 30, 130, 260, 320}; int n = sizes[vk_choice("variables", 0, 4)]; int mode = (int) vk_choice("mode", 0, 3); auto num = [](int i) { return std::to_string(i); };
    std::string src = "func id(x) = x; export func f(a, n) { "; for (int i = 0; i < n; i++) src += "var v" + num(i) + " = a + " + num(i * i % 1009) + "; ";
    if (mode == 0) { src += "for var i = 0; i < n; i += 1 { ("; for (int i = 0; i < n; i++) src += (i ? ", v" : "v") + num(i); src += ") = ("; for (int i = 0; i < n; i++) src += (i ? ", v" : "v") + num((i * 7 + 3) % n); src += "); } "; }
    if (mode == 1) { src += "for var i = 0; i < n; i += 1 { if (i % 2 == 0) { const t = v0; "; for (int i = 0; i + 1 < n; i++) src += "v" + num(i) + " = v" + num(i + 1) + "; "; src += "v" + num(n - 1) + " = t; } else { (v0, v" + num(n - 1) + ") = (v" + num(n - 1) + ", v0); } } "; }
    if (mode == 2) { src += "const g = func(k) { v0 += k; v" + num(n - 1) + " -= k; }; for var i = 0; i < n; i += 1 { g(i + 1); v1 = id(v1 + i); } "; }
    if (mode == 3) { src += "const t = ("; for (int i = 0; i < n; i++) src += (i ? ", id(v" : "id(v") + num((i * 7 + 3) % n) + ")"; src += "); v0 = t." + num(n - 1) + " + n; "; }
    src += "var s = 0; return ["; for (int i = 0; i < n; i++) src += (i ? ", v" : "v") + num(i); src += "]; }";
    Src s; s.add(src.c_str()); i64 rounds = (i64) vk_choice("rounds", 0, 3); std::vector<i64> w((size_t) n); s.v[0] = 5; Value a = SmallInteger::make(5); for (int i = 0; i < n; i++) w[(size_t) i] = i * i % 1009; s.call("f", {a, SmallInteger::make(rounds)});
    if (mode == 0) for (int r = 0; r < rounds; r++) { auto o = w; for (int i = 0; i < n; i++) w[(size_t) i] = o[(size_t) ((i * 7 + 3) % n)]; }
    if (mode == 1) for (int r = 0; r < rounds; r++) { if (r % 2 == 0) { i64 t = w[0]; for (size_t i = 0; i + 1 < (size_t) n; i++) w[i] = w[i + 1]; w[(size_t) n - 1] = t; } else std::swap(w[0], w[(size_t) n - 1]); }
    if (mode == 2) for (int r = 0; r < rounds; r++) { w[0] += r + 1; w[(size_t) n - 1] -= r + 1; w[1] += r; }
    if (mode == 3) w[0] = w[(size_t) (((n - 1) * 7 + 3) % n)] + rounds;
    vk_assert(!s.panicked && s.result->is<vm::Array>() && s.result.must_cast<vm::Array>()->size() == (size_t) n, "an array"); bool all = true; for (size_t i = 0; i < (size_t) n; i++) { Value e = s.result.must_cast<vm::Array>()->checked_get(i); vk_assert(e.is<vm::Integer>(), "an integer"); all = vk_and(all, e.must_cast<vm::Integer>().value() == s.v[0] + w[i]); } vk_assert(all, "every variable keeps its value");
}
