// Contracts of bytecode encoding and decoding.
// vk-link: common bytecode
#include "vk.h"
#include "stubs.hpp"
#include "bytecode/writer.hpp"
#include "bytecode/reader.hpp"
#include "bytecode/function.hpp"
#include "bytecode/op.hpp"
#include <optional>
using namespace tiro;
extern "C" vk_replacement vk_replacements_bytecode[];
vk_replacement vk_replacements_bytecode[] = { VK_BASE_REPLACEMENTS };

static u64 f64bits(f64 v) { u64 b; memcpy(&b, &v, 8); return b; }
// Encoding and decoding of one instruction at the end of some existing code.
struct Enc {
    BytecodeFunction& fn; BytecodeWriter& w;
    byte expect[40]; size_t n = 0, start; byte before[8];
    std::optional<BytecodeInstr> ins; tiro::u32 members = 0; tiro::u32 member_pos[2]; BytecodeMemberId member_id[2];
    Enc(BytecodeFunction& f, BytecodeWriter& w_) : fn(f), w(w_) {
        start = fn.code().size();
        for (size_t i = 0; i < start; i++) before[i] = fn.code()[i];
    }
    BytecodeRegister reg(const char* n_) { return BytecodeRegister(vk_u32(n_)); }
    BytecodeParam param(const char* n_) { return BytecodeParam(vk_u32(n_)); }
    BytecodeMemberId member(const char* n_) { auto v = vk_u32(n_); vk_assume(v != BytecodeMemberId::invalid_value); return BytecodeMemberId(v); }
    BytecodeOffset offset(const char* n_) { auto v = vk_u32(n_); vk_assume(v != BytecodeOffset::invalid_value); return BytecodeOffset(v); }
    tiro::u32 u32(const char* n_) { return vk_u32(n_); }
    tiro::i64 i64(const char* n_) { return vk_i64(n_); }
    tiro::f64 f64(const char* n_) { return vk_f64(n_); }
    void be(u64 v, size_t k) { for (size_t i = 0; i < k; i++) expect[n++] = (byte) (v >> (8 * (k - 1 - i))); }
    void begin(BytecodeOp op) { be((u8) op, 1); }
    template<typename T> void put(const T& v) {
        if constexpr (std::is_same_v<T, tiro::i64>) be((u64) v, 8);
        else if constexpr (std::is_same_v<T, tiro::f64>) be(f64bits(v), 8);
        else if constexpr (std::is_same_v<T, tiro::u32>) be(v, 4);
        else {
            if constexpr (std::is_same_v<T, BytecodeMemberId>) { member_pos[members] = (tiro::u32) (start + n); member_id[members++] = v; }
            be(v.value(), 4);
        }
    }
    template<typename T> void same(const T& a, const T& b) {
        if constexpr (std::is_same_v<T, tiro::f64>) vk_assert(f64bits(a) == f64bits(b), "a decoded float operand is bit for bit the one encoded");
        else vk_assert(a == b, "a decoded operand is the one encoded");
    }
    const BytecodeInstr& decode(BytecodeOp op) {
        auto& code = fn.code();
        vk_assert(code.size() == start + n, "an instruction is its opcode followed by its operands");
        vk_assert(w.pos() == start + n, "the writer's position is the end of the code");
        for (size_t i = 0; i < start; i++) vk_assert(code[i] == before[i], "earlier code is unchanged");
        for (size_t i = 0; i < n; i++) vk_assert(code[start + i] == expect[i], "operands are encoded in order, most significant byte first");
        BytecodeReader r{Span<const byte>(code.data() + start, code.size() - start)};
        auto res = r.read();
        vk_assert(std::holds_alternative<BytecodeInstr>(res), "an encoded instruction decodes");
        vk_assert(r.pos() == n && r.remaining() == 0, "decoding consumes exactly the instruction");
        ins = std::get<BytecodeInstr>(res);
        vk_assert(ins->type() == op, "the decoded instruction has the type encoded");
        auto end = r.read();
        vk_assert(std::holds_alternative<BytecodeReaderError>(end) && std::get<BytecodeReaderError>(end) == BytecodeReaderError::End, "nothing follows");
        return *ins;
    }
    void refs() {
        auto m = w.take_module_refs();
        vk_assert(m.size() == members, "every member operand is recorded");
        for (size_t i = 0; i < members; i++) vk_assert(std::get<0>(m[i]) == member_pos[i] && std::get<1>(m[i]) == member_id[i], "at its position");
    }
};
static void one(u64 k, Enc& e, BytecodeWriter& w) {
    switch (k) {
#include "bytecode_ins.hpp"
    default: vk_end();
    }
}
#undef VK_INSTRUCTIONS
VK_CONTRACT(bc_roundtrip, "P10", "proof", "BytecodeWriter (every instruction), BinaryWriter, BytecodeReader::read, CheckedBinaryReader, BytecodeInstr", "for all operands of all 67 instructions: encoding appends opcode and big endian operands, and decoding yields the same instruction") {
    BytecodeFunction fn;
    for (u64 i = vk_choice("earlier bytes", 0, 1) * 3; i > 0; i--) fn.code().push_back(vk_u8("earlier byte"));
    BytecodeWriter w(fn);
    Enc e(fn, w);
    one(vk_choice("instruction", 0, 66), e, w);
    e.refs();
}
// ------------------------------------------------------------------ decoding arbitrary bytes
struct OpSize { BytecodeOp op; u32 size; };
static const OpSize sizes[] = {
#include "bytecode_sizes.hpp"
};
// vk-covers: bc_decode end, invalid, incomplete, instruction
VK_CONTRACT(bc_decode, "P10", "proof", "BytecodeReader::read, valid_opcode, CheckedBinaryReader", "for all byte strings of any length and all positions: an instruction inside the input or an error; nothing outside is read") {
    u64 n = vk_range("length", 0, vk_symbolic() ? (u64) 1 << 40 : 40);
    const byte* code = (const byte*) vk_array("code", n, 1);
    BytecodeReader r{Span<const byte>(code, n)};
    u64 p = vk_range("position", 0, (u64) 1 << 40); vk_assume(p <= n);
    r.r_.pos_ = p;
    u8 op = p < n ? code[p] : 0;
    bool known = false; u64 need = 0;
    for (auto& s : sizes) { bool m = op == (u8) s.op; known = vk_or(known, m); need = vk_ite64(m, s.size, need); }
    auto res = r.read();
    if (std::holds_alternative<BytecodeInstr>(res)) {
        auto& ins = std::get<BytecodeInstr>(res);
        vk_assert(p < n && known && (u8) ins.type() == op, "the instruction is the one named by the opcode");
        vk_assert(need <= n - p - 1, "the instruction lies inside the input");
        vk_assert(r.pos() == p + 1 + need && r.remaining() == n - r.pos() && r.size() == n, "the position advances to the next instruction");
        vk_cover("instruction");
    } else {
        auto err = std::get<BytecodeReaderError>(res);
        vk_assert(r.pos() <= n, "the position stays inside the input");
        if (err == BytecodeReaderError::End) { vk_assert(p == n, "the end is reported exactly at the end"); vk_cover("end"); }
        else if (err == BytecodeReaderError::InvalidOpcode) { vk_assert(p < n && !known, "only unknown opcodes are refused"); vk_cover("invalid"); }
        else { vk_assert(p < n && known && need > n - p - 1, "an instruction is incomplete exactly if its operands do not fit"); vk_cover("incomplete"); }
    }
}
// ------------------------------------------------------------------ labels and handlers
static void jump(BytecodeWriter& w, u64 kind, BytecodeRegister c, BytecodeLabel l) {
    switch (kind) { case 0: w.jmp(l); break; case 1: w.jmp_true(c, l); break; case 2: w.jmp_false(c, l); break; case 3: w.jmp_null(c, l); break; default: w.jmp_not_null(c, l); break; }
}
static BytecodeOffset target(const BytecodeInstr& i) {
    switch (i.type()) {
    case BytecodeOp::Jmp: return i.as_jmp().offset;
    case BytecodeOp::JmpTrue: return i.as_jmp_true().offset;
    case BytecodeOp::JmpFalse: return i.as_jmp_false().offset;
    case BytecodeOp::JmpNull: return i.as_jmp_null().offset;
    case BytecodeOp::JmpNotNull: return i.as_jmp_not_null().offset;
    default: return BytecodeOffset();
    }
}
VK_CONTRACT(bc_labels, "P10", "bounded: all programs of 3 jumps over 3 labels, each defined at one of 4 positions", "BytecodeWriter::define_label, finish, jmp, jmp_true, jmp_false, jmp_null, jmp_not_null", "every jump goes to the position of its label, forwards and backwards") {
    BytecodeFunction fn; BytecodeWriter w(fn);
    u64 at[3], to[3], kind[3]; u32 def[3] = {};
    for (u64 i = 0; i < 3; i++) at[i] = vk_choice("label position", 0, 3);
    u32 ids[3] = {vk_choice("label id", 0, 1) ? 7u : 100000u, 1, 2};
    BytecodeRegister c(vk_u32("condition"));
    for (u64 p = 0; p <= 3; p++) {
        for (u64 i = 0; i < 3; i++) if (at[i] == p) { def[i] = w.pos(); w.define_label(BytecodeLabel(ids[i])); }
        if (p == 3) break;
        to[p] = vk_choice("target", 0, 2); kind[p] = p == 0 ? vk_choice("kind", 0, 4) : (kind[0] + p) % 5;
        jump(w, kind[p], c, BytecodeLabel(ids[to[p]]));
    }
    w.ret(c);
    u32 end = w.pos();
    w.finish();
    vk_assert(fn.code().size() == end, "finishing adds no code");
    BytecodeReader r{Span<const byte>(fn.code().data(), fn.code().size())};
    static const BytecodeOp ops[] = {BytecodeOp::Jmp, BytecodeOp::JmpTrue, BytecodeOp::JmpFalse, BytecodeOp::JmpNull, BytecodeOp::JmpNotNull};
    for (u64 p = 0; p < 3; p++) {
        auto res = r.read();
        vk_assert(std::holds_alternative<BytecodeInstr>(res) && std::get<BytecodeInstr>(res).type() == ops[kind[p]], "the jump decodes");
        vk_assert(target(std::get<BytecodeInstr>(res)).value() == def[to[p]], "the jump goes to the position of its label");
    }
}
VK_CONTRACT(bc_handlers, "P10", "bounded: 6 instructions, every sequence of up to 6 handler changes between 2 handlers and none", "BytecodeWriter::start_handler, finish_handler, simplify_handlers, finish", "every instruction is covered by exactly the handler that was active when it was written") {
    BytecodeFunction fn; BytecodeWriter w(fn);
    u64 act[6]; u32 pos[7]; u32 hpos[3] = {};
    BytecodeRegister c(3);
    u64 cur = 0;
    for (u64 p = 0; p < 6; p++) {
        u64 h = vk_choice("handler", 0, 2);
        if (h != cur && vk_choice("detour", 0, 1)) { w.start_handler(h == 2 ? BytecodeLabel(1) : BytecodeLabel(2)); } // empty section
        w.start_handler(h == 0 ? BytecodeLabel() : BytecodeLabel((u32) h));
        cur = act[p] = h; pos[p] = w.pos();
        w.ret(c);
    }
    pos[6] = w.pos();
    if (vk_choice("closed", 0, 1)) w.start_handler(BytecodeLabel());
    for (u64 h = 1; h <= 2; h++) { hpos[h] = w.pos(); w.define_label(BytecodeLabel((u32) h)); if (cur == 0 || true) { w.start_handler(BytecodeLabel()); w.rethrow(); } }
    w.finish();
    for (u64 p = 0; p < 6; p++) {
        u64 cover = 0; u32 t = 0;
        for (auto& h : fn.handlers()) if (pos[p] >= h.from.value() && pos[p] < h.to.value()) { cover++; t = h.target.value(); }
        vk_assert(cover == (act[p] != 0), "an instruction is covered by a handler exactly if one was active");
        if (cover) vk_assert(t == hpos[act[p]], "by the active one");
    }
    u32 last = 0;
    for (auto& h : fn.handlers()) { vk_assert(h.from.value() < h.to.value() && h.from.value() >= last, "handler entries are ordered, disjoint and not empty"); last = h.to.value(); }
}
