// Contracts of module verification: exactly the well formed modules are accepted, the others are refused with an error.
// vk-link: core
#include "vk.h"
#include "vm_harness.hpp"
#include "bytecode/module.hpp"
#include "vm/modules/verify.hpp"
#include "vm/modules/load.hpp"
#include "vm/objects/all.hpp"
using namespace vk;
static std::string vk_stub_format(fmt::string_view, fmt::format_args) { return std::string(); }
extern "C" vk_replacement vk_replacements_verify[];
vk_replacement vk_replacements_verify[] = { VK_VM_REPLACEMENTS, { "~_ZN3fmt2v97vformatB~", (void*) vk_stub_format },
    { "~_ZN4absl7debian313hash_internal15MixingHashState4hashISt17basic_string_view~", (void*) +[](const void*) -> size_t { return 0; } } };
namespace {
struct Kinds { BytecodeOp op; const char* kinds; };
const Kinds ops[] = {
#include "bytecode_kinds.hpp"
};
constexpr u64 op_count = sizeof(ops) / sizeof(ops[0]);
bool accepts(const BytecodeModule& m) { try { verify_module(m); return true; } catch (const Error&) { return false; } }
void put(std::vector<byte>& c, u64 v, u32 n) { for (u32 i = 0; i < n; i++) c.push_back((byte) (v >> (8 * (n - 1 - i)))); }
BytecodeMemberId mid(u32 v) { BytecodeMemberId id; id.value_ = v; return id; }
BytecodeOffset off(u32 v) { BytecodeOffset o; o.value_ = v; return o; }
// A well formed module: member k has kind k below; function 0 is the one whose code a contract chooses.
enum { STR, SYM, IMPORT, INT, FLOAT, VAR, CLOSURE, FUNC, SCHEMA, MEMBERS };
struct Mod {
    BytecodeModule m; InternedString s1, s2;
    Mod(bool rest = true) {
        s1 = m.strings().insert("m"); s2 = m.strings().insert("ab"); m.name(s1);
        m.members().push_back(BytecodeMember::make_string(s2)); m.members().push_back(BytecodeMember::make_symbol(mid(STR)));
        if (!rest) return;
        m.members().push_back(BytecodeMember::make_import(mid(STR))); m.members().push_back(BytecodeMember::make_integer(7)); m.members().push_back(BytecodeMember::make_float(1)); m.members().push_back(BytecodeMember::make_variable(mid(STR), {}));
        for (int i = 0; i < 2; i++) { BytecodeFunction f; f.locals(1); put(f.code(), (u8) BytecodeOp::Return, 1); put(f.code(), 0, 4); m.functions().push_back(std::move(f)); }
        fn(1).type(BytecodeFunctionType::Closure); m.members().push_back(BytecodeMember::make_function(BytecodeFunctionId(1))); m.members().push_back(BytecodeMember::make_function(BytecodeFunctionId(0)));
        BytecodeRecordSchema r; r.keys().push_back(mid(SYM)); m.records().push_back(std::move(r)); m.members().push_back(BytecodeMember::make_record_schema(BytecodeRecordSchemaId(0)));
    }
    BytecodeFunction& fn(u32 i) { return m.functions().storage_[i]; }
};
struct Operand { char k; u64 v; };
// the precondition of executing one operand of an instruction
bool valid(const Operand& o, u64 locals, u64 params, u64 self, u64 size, const std::vector<u64>& starts) {
    switch (o.k) {
    case 'r': return vk_and(o.v < locals, o.v != 0xffffffff);
    case 'p': return vk_and(o.v < params, o.v != 0xffffffff);
    case 'm': return o.v < MEMBERS;
    case 'y': return o.v == SYM;
    case 'v': return o.v == VAR;
    case 'R': return o.v == SCHEMA;
    case 'c': return vk_or(o.v == CLOSURE, vk_and(self == 1, o.v == FUNC));
    case 'n': return o.v <= (1u << 16);
    case 'N': return vk_and(o.v <= (1u << 16), (o.v & 1) == 0);
    case 'o': { bool r = false; for (u64 s : starts) r = vk_or(r, o.v == s); return r; }
    default: return true;
    }
}
u32 operand(const char* n) { return vk_symbolic() ? vk_u32(n) : vk_range32(n, 0, 12); }
}
// ------------------------------------------------------------------ one instruction
// vk-covers: verify_instruction accepted, rejected, closure
VK_CONTRACT(verify_instruction, "P11", "proof", "verify_module, FunctionVerifier::verify, read_instructions, check (register, parameter, member, offset), InstructionVisitor (every instruction), is_instruction_start, ModuleVerifier::check_reference, max_locals", "for every instruction, all operands, and all numbers of registers and parameters: the function is accepted exactly if every register, parameter, member, jump target and count of the instruction exists, has the kind the instruction needs, and is within its limit") {
    u64 k = vk_choice("instruction", 0, op_count - 1); Mod w; auto& f = w.fn(0);
    u32 locals = operand("registers"), params = operand("parameters"); bool closure = vk_choice("closure function", 0, 1) == 1;
    f.locals(locals); f.params(params); f.type(closure ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal); f.code().clear();
    put(f.code(), (u8) ops[k].op, 1); std::vector<Operand> in;
    for (const char* c = ops[k].kinds; *c; c++) { if (*c == '8') { put(f.code(), vk_u64("constant"), 8); continue; } u32 v = operand("operand"); in.push_back({*c, v}); put(f.code(), v, 4); }
    std::vector<u64> starts{0, f.code().size()};
    put(f.code(), (u8) BytecodeOp::Return, 1); put(f.code(), 0, 4);
    bool ok = vk_and(locals <= (1u << 14), locals > 0); if (ops[k].op == BytecodeOp::LoadClosure) ok = vk_and(ok, closure);
    for (auto& o : in) ok = vk_and(ok, valid(o, locals, params, closure, f.code().size(), starts));
    bool r = accepts(w.m); if (r) vk_cover("accepted"); else vk_cover("rejected");
    vk_assert(r == ok, "accepted exactly if every operand exists and has the right kind"); if (r && closure) vk_cover("closure");
}
// ------------------------------------------------------------------ code as a whole
// vk-covers: verify_code accepted, empty, falls through, truncated, opcode
VK_CONTRACT(verify_code, "P11", "bounded: all sequences of up to 3 instructions of 4 sizes before the last one, all last instructions, jumps to every offset, all cuts", "FunctionVerifier::verify, read_instructions, is_instruction_start, check(BytecodeOffset)", "code is accepted exactly if it consists of complete known instructions, its jumps lead to the start of an instruction, and control cannot run past its end") {
    Mod w; auto& f = w.fn(0); auto& c = f.code(); c.clear(); f.locals(4); f.params(4); std::vector<u64> starts; bool jump = false; u64 target = operand("target");
    u64 n = vk_choice("instructions", 0, 3);
    for (u64 i = 0; i < n; i++) {
        starts.push_back(c.size());
        switch (vk_choice("kind", 0, 3)) {
        case 0: put(c, (u8) BytecodeOp::Pop, 1); break;
        case 1: put(c, (u8) BytecodeOp::Push, 1); put(c, 0, 4); break;
        case 2: put(c, (u8) BytecodeOp::LoadInt, 1); put(c, 5, 8); put(c, 1, 4); break;
        default: put(c, (u8) BytecodeOp::JmpTrue, 1); put(c, 0, 4); put(c, target, 4); jump = true; break;
        }
    }
    u64 last = n < 2 ? vk_choice("last", 0, op_count + 1) : op_count + vk_choice("last", 0, 1); bool halts = false, known = true; u64 cut = 0;
    if (last < op_count) {
        starts.push_back(c.size()); put(c, (u8) ops[last].op, 1); u64 before = c.size();
        for (const char* k = ops[last].kinds; *k; k++)
            switch (*k) {
            case '8': put(c, 0, 8); break;
            case 'm': put(c, STR, 4); break; case 'y': put(c, SYM, 4); break; case 'v': put(c, VAR, 4); break; case 'c': put(c, CLOSURE, 4); break; case 'R': put(c, SCHEMA, 4); break;
            case 'o': put(c, target, 4); jump = true; break;
            default: put(c, 0, 4);
            }
        auto o = ops[last].op; halts = o == BytecodeOp::Return || o == BytecodeOp::Rethrow || o == BytecodeOp::Jmp || o == BytecodeOp::AssertFail;
        if (o == BytecodeOp::LoadClosure) f.type(BytecodeFunctionType::Closure);
        if (c.size() > before) cut = vk_choice("bytes missing", 0, c.size() - before);
        for (u64 i = 0; i < cut; i++) c.pop_back();
    } else if (last == op_count) { halts = n == 0 ? false : false; }
    else { u8 op = vk_u8("opcode"); for (auto& o : ops) known = vk_and(known, op != (u8) o.op); vk_assume(known); known = false; put(c, op, 1); }
    bool at = !jump; for (u64 s : starts) at = vk_or(at, target == s);
    bool ok = known && halts && cut == 0 && at; bool r = accepts(w.m);
    vk_assert(r == ok, "accepted exactly if complete, halting, and jumping to instructions");
    if (r) vk_cover("accepted"); else if (c.empty()) vk_cover("empty"); else if (cut) vk_cover("truncated"); else if (!known) vk_cover("opcode"); else if (!halts) vk_cover("falls through");
}
// vk-covers: verify_handlers accepted, rejected
VK_CONTRACT(verify_handlers, "P11", "bounded: up to 2 protected regions with all bounds and targets, in code of 4 instructions of different sizes", "FunctionVerifier::verify (exception handlers)", "exception handlers are accepted exactly if their regions start and end at instructions, are not empty, are in order and disjoint, and their targets are instructions; every position has then at most one handler") {
    Mod w; auto& f = w.fn(0); auto& c = f.code(); c.clear(); f.locals(4); std::vector<u64> starts;
    auto at = [&] { starts.push_back(c.size()); };
    at(); put(c, (u8) BytecodeOp::Pop, 1); at(); put(c, (u8) BytecodeOp::LoadInt, 1); put(c, 1, 8); put(c, 1, 4); at(); put(c, (u8) BytecodeOp::Push, 1); put(c, 0, 4); at(); put(c, (u8) BytecodeOp::Return, 1); put(c, 0, 4);
    u64 n = vk_choice("regions", 0, 2), prev = 0; bool ok = true;
    auto start = [&](u64 v) { bool r = false; for (u64 s : starts) r = vk_or(r, v == s); return r; };
    for (u64 i = 0; i < n; i++) {
        u32 a = vk_symbolic() ? vk_u32("from") : vk_range32("from", 0, 24), b = vk_symbolic() ? vk_u32("to") : vk_range32("to", 0, 24), t = vk_symbolic() ? vk_u32("handler") : vk_range32("handler", 0, 24);
        ExceptionHandler h; h.from = off(a); h.to = off(b); h.target = off(t); f.handlers().push_back(h);
        ok = vk_and(ok, vk_and(vk_and(start(a), vk_or(start(b), b == c.size())), vk_and(start(t), vk_and(b > a, a >= prev)))); prev = b;
    }
    bool r = accepts(w.m); vk_assert(r == ok, "accepted exactly if the regions are well formed");
    if (r && n) vk_cover("accepted"); if (!r) vk_cover("rejected");
}
// ------------------------------------------------------------------ members
// vk-covers: verify_members accepted, rejected
VK_CONTRACT(verify_members, "P11", "bounded: one member of every kind with all references and up to 2 record keys, among 5 other members, 2 functions and 1 record schema", "ModuleVerifier::verify, visit_integer, visit_float, visit_string, visit_symbol, visit_import, visit_variable, visit_function, visit_record_schema, check_reference, fail", "a member is accepted exactly if what it refers to exists, comes before it, and has the kind it needs") {
    Mod w(false); w.m.members().push_back(BytecodeMember::make_integer(3)); u64 kind = vk_choice("kind", 0, 7); u32 a = operand("reference"), b = operand("second reference"); bool ok = true; auto& m = w.m;
    for (int i = 0; i < 2; i++) { BytecodeFunction f; f.locals(1); put(f.code(), (u8) BytecodeOp::Return, 1); put(f.code(), 0, 4); m.functions().push_back(std::move(f)); }
    m.records().push_back(BytecodeRecordSchema());
    auto str = [](u64 r) { return r == 0; };
    switch (kind) {
    case 0: m.members().push_back(BytecodeMember::make_integer(vk_i64("integer"))); break;
    case 1: m.members().push_back(BytecodeMember::make_float(vk_f64("float"))); break;
    case 2: m.members().push_back(BytecodeMember::make_string(InternedString(a))); ok = vk_and(a >= 1, a <= 2); break;
    case 3: m.members().push_back(BytecodeMember::make_symbol(mid(a))); ok = str(a); break;
    case 4: m.members().push_back(BytecodeMember::make_import(mid(a))); ok = str(a); break;
    case 5: m.members().push_back(BytecodeMember::make_variable(mid(a), mid(b))); ok = vk_and(str(a), vk_or(b < 3, b == 0xffffffff)); break;
    case 6: { BytecodeFunctionId id; id.value_ = a; m.members().push_back(BytecodeMember::make_function(id)); w.fn(0).name(mid(b)); ok = vk_or(a == 1, vk_and(a == 0, vk_or(str(b), b == 0xffffffff))); break; }
    default: { BytecodeRecordSchemaId id; id.value_ = a; m.members().push_back(BytecodeMember::make_record_schema(id)); ok = a == 0; u64 n = vk_choice("keys", 0, 2); if (n > 0) { m.records().storage_[0].keys().push_back(mid(1)); } if (n > 1) { m.records().storage_[0].keys().push_back(mid(b)); ok = vk_and(ok, b == 1); } }
    }
    m.members().push_back(BytecodeMember::make_string(w.s1)); m.members().push_back(BytecodeMember::make_symbol(mid(4)));
    bool r = accepts(m); vk_assert(r == ok, "accepted exactly if its references exist and have the right kind"); if (r) vk_cover("accepted"); else vk_cover("rejected");
}
// vk-covers: verify_module accepted, rejected, no init
VK_CONTRACT(verify_module, "P11", "bounded: up to 2 exports; all names, initializers and exported members", "ModuleVerifier::verify (name, init, exports)", "a module is accepted exactly if its name exists, its initializer is a normal function, and its exports give symbols to values that may be seen from outside") {
    Mod w; auto& m = w.m; u32 name = vk_symbolic() ? vk_u32("name") : vk_range32("name", 0, 3); m.name(InternedString(name)); u32 init = vk_symbolic() ? vk_u32("init") : vk_range32("init", 5, 8); m.init(mid(init));
    bool ok = vk_and(vk_and(name >= 1, name <= 2), vk_or(init == FUNC, init == 0xffffffff)); u64 n = vk_choice("exports", 0, 2);
    for (u64 i = 0; i < n; i++) {
        u32 s = operand("export name"), v = operand("exported"); m.exports_.push_back({mid(s), mid(v)}); bool val = v < MEMBERS;
        for (u64 bad : {(u64) IMPORT, (u64) CLOSURE, (u64) SCHEMA}) val = vk_and(val, v != bad);
        ok = vk_and(ok, vk_and(s == SYM, val));
    }
    bool r = accepts(m); vk_assert(r == ok, "accepted exactly if name, initializer and exports are well formed"); if (r) vk_cover("accepted"); else vk_cover("rejected"); if (r && init != FUNC) vk_cover("no init");
}
// ------------------------------------------------------------------ loading an accepted module
VK_CONTRACT(load_accepted, "P11", "bounded: modules with one member of each kind; all numbers, register and parameter counts, regions, with and without names, initializer and exports", "load_module, ModuleLoader::run, visit_integer, visit_float, visit_string, visit_symbol, visit_import, visit_variable, visit_function, visit_record_schema, create_export", "an accepted module is loaded without error and every member is the value it describes") {
    World vw; auto& ctx = vw.ctx; Mod w; auto& m = w.m; auto& f = w.fn(0); i64 num = vk_i64("integer"); f64 fl = vk_f64("float");
    m.members().storage_[INT] = BytecodeMember::make_integer(num); m.members().storage_[FLOAT] = BytecodeMember::make_float(fl);
    u32 locals = vk_range32("registers", 1, 1u << 14), params = vk_range32("parameters", 0, 1u << 20); f.locals(locals); f.params(params); bool named = vk_choice("named", 0, 1) == 1; if (named) f.name(mid(STR));
    bool handler = vk_choice("handler", 0, 1) == 1; if (handler) { ExceptionHandler h; h.from = off(0); h.to = off(5); h.target = off(0); f.handlers().push_back(h); }
    bool init = vk_choice("initializer", 0, 1) == 1; if (init) m.init(mid(FUNC)); bool exports = vk_choice("exports", 0, 1) == 1; if (exports) m.exports_.push_back({mid(SYM), mid(FUNC)});
    Scope sc(ctx); Local mod = sc.local(load_module(ctx, m)); Local mem = sc.local(mod->members());
    vk_assert(mem->size() == MEMBERS && mod->name().view() == "m", "a module with all members and its name");
    auto at = [&](u32 i) { return mem->unchecked_get(i); };
    vk_assert(at(STR).must_cast<String>().view() == "ab" && at(SYM).must_cast<Symbol>().name().same(at(STR)), "strings and symbols");
    vk_assert(at(IMPORT).must_cast<UnresolvedImport>().module_name().same(at(STR)), "an import of the named module");
    vk_assert(at(INT).must_cast<Integer>().value() == num, "the integer"); double d = at(FLOAT).must_cast<Float>().value(); u64 x, y; memcpy(&x, &d, 8); memcpy(&y, &fl, 8); vk_assert(x == y, "the float");
    vk_assert(at(VAR).is<Undefined>(), "a variable without a value");
    auto tmpl = [&](CodeFunctionTemplate t, const BytecodeFunction& bf, bool h) {
        vk_assert(t.params() == bf.params() && t.locals() == bf.locals() && t.module().same(*mod), "a function with its registers and parameters in this module");
        auto code = t.code(); bool same = code.size() == bf.code().size(); for (size_t i = 0; same && i < code.size(); i++) same = code.data()[i] == bf.code()[i]; vk_assert(same, "and its code");
        auto hs = t.handlers(); vk_assert(hs.has_value() == h, "and its handlers"); if (h) vk_assert(hs.value().size() == 1 && hs.value().data()[0].from == 0 && hs.value().data()[0].to == 5 && hs.value().data()[0].target == 0, "and its handlers");
    };
    auto fn = at(FUNC).must_cast<CodeFunction>(); tmpl(fn.tmpl(), f, handler); vk_assert(!fn.closure().has_value(), "a function without environment"); if (named) vk_assert(fn.tmpl().name().same(at(STR)), "and its name");
    tmpl(at(CLOSURE).must_cast<CodeFunctionTemplate>(), w.fn(1), false);
    auto rs = at(SCHEMA).must_cast<RecordSchema>(); vk_assert(rs.size() == 1 && rs.index_of(at(SYM).must_cast<Symbol>()) == (size_t) 0, "a record schema of the keys");
    vk_assert(mod->initializer().same(init ? at(FUNC) : Value::null()), "the initializer"); auto ex = mod->exported(); vk_assert(ex.size() == (exports ? 1 : 0), "the exports");
    if (exports) { auto e = ex.get(at(SYM)); vk_assert(e && e->must_cast<Integer>().value() == FUNC, "the exported member"); auto found = mod->find_exported(at(SYM).must_cast<Symbol>()); vk_assert(found && found->same(at(FUNC)), "is found by its name"); }
}
