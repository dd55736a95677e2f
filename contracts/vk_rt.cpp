// Run-time library used when the real code is lowered for the verifier.
// (1) instantiates the libstdc++/fmt templates that live in shared objects,
// (2) states the contracts assumed of library functions that are not part of /repo.
#include "vk.h"
#include <string>
#include <cstring>
#include <stdexcept>
template class std::__cxx11::basic_string<char>;
#include <absl/container/internal/raw_hash_set.h>
#include <absl/hash/hash.h>

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace hash_internal {
const void* const MixingHashState::kSeed = (const void*) 0x1234567;
uint64_t MixingHashState::CombineLargeContiguousImpl32(uint64_t state, const unsigned char* first, size_t len) { for (size_t i = 0; i < len; i++) state = (state ^ first[i]) * 1099511628211ull; return state; }
uint64_t MixingHashState::CombineLargeContiguousImpl64(uint64_t state, const unsigned char* first, size_t len) { for (size_t i = 0; i < len; i++) state = (state ^ first[i]) * 1099511628211ull; return state; }
uint64_t MixingHashState::LowLevelHashImpl(const unsigned char* d, size_t len) { uint64_t s = 1469598103934665603ull; for (size_t i = 0; i < len; i++) s = (s ^ d[i]) * 1099511628211ull; return s; }
}
namespace container_internal {
alignas(16) ABSL_CONST_INIT ABSL_DLL const ctrl_t kEmptyGroup[16] = {
    ctrl_t::kSentinel, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty,
    ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty, ctrl_t::kEmpty};
bool ShouldInsertBackwards(size_t, const ctrl_t*) { return false; }
template FindInfo find_first_non_full(const ctrl_t*, size_t, size_t);
void ConvertDeletedToEmptyAndFullToDeleted(ctrl_t* ctrl, size_t capacity) {
    for (size_t i = 0; i < capacity; i++) {
        if ((int8_t) ctrl[i] >= 0) ctrl[i] = ctrl_t::kDeleted; else ctrl[i] = ctrl_t::kEmpty;
    }
    std::memcpy(ctrl + capacity + 1, ctrl, NumClonedBytes());
    ctrl[capacity] = ctrl_t::kSentinel;
}
}
ABSL_NAMESPACE_END
}
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* d = (const unsigned char*) p; uint64_t s = seed; for (size_t i = 0; i < n; i++) s = (s ^ d[i]) * 1099511628211ull; return s; }
}
