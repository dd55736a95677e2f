// Contracts of the copies that implement phi functions.
// vk-link: compiler
// vk-native: contracts
#include "vk.h"
#include "compiler/bytecode_gen/parallel_copy.hpp"
#include <vector>
using namespace tiro;
// Every set of copies between five registers: each register is the target of a copy from any register, or of none.
VK_CONTRACT(parallel_copies, "P21", "bounded: every set of copies between five registers, with any contents", "ParallelCopyAlgorithm::sequentialize", "executing the copies in order has the effect of reading all sources before any target is written; registers that are no target keep their value, and only spare registers are used otherwise") {
    constexpr u32 n = 5; u64 old[n], now[n + 8]; std::vector<RegisterCopy> copies; u32 from[n], used = n;
    for (u32 i = 0; i < n; i++) now[i] = old[i] = vk_nondet("value", 64);
    for (u32 i = 0; i < n; i++) from[i] = (u32) vk_choice("source", 0, n);
    const bool descending = vk_choice("order", 0, 1);
    for (u32 k = 0; k < n; k++) { u32 i = descending ? n - 1 - k : k; if (from[i] < n) copies.push_back({BytecodeRegister(from[i]), BytecodeRegister(i)}); }
    ParallelCopyAlgorithm algo; auto spare = [&] { vk_assert(used < n + 8, "few spare registers"); return BytecodeRegister(used++); };
    algo.sequentialize(copies, spare);
    for (auto& c : copies) { vk_assert(c.src.value() < used && c.dest.value() < used, "the registers are known"); now[c.dest.value()] = now[c.src.value()]; }
    for (u32 i = 0; i < n; i++) vk_assert(now[i] == (from[i] < n ? old[from[i]] : old[i]), "each target holds its source's former value");
}
