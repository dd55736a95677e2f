// Included first when the sources are lowered: selects abseil's portable (non-SSE) hash table groups.
#pragma once
#include <absl/base/config.h>
#undef ABSL_INTERNAL_HAVE_SSE2
