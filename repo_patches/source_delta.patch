From 9deb93cb78e585443d6aa4563ef69b6cac030be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 01/40] fix: unary minus must raise on the smallest integer,
 not on -1

---
 src/vm/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..62d55b0 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -181,7 +181,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From dfd58c7357ac0607483ae237e0417e5db43f787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 02/40] fix: -1 raised to a negative even power is 1

---
 src/compiler/ir_gen/const_eval.cpp | 7 +++++--
 src/vm/math.cpp                    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..02c4dd8 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -228,8 +228,11 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
     constexpr auto intop = [](i64 a, i64 b) -> EvalResult {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
-        if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+        if (b < 0) {
+            if (a == -1)
+                return make_int((b & 1) ? -1 : 1);
+            return make_int(a == 1 ? 1 : 0);
+        }
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 62d55b0..128ca9f 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -83,8 +83,11 @@ struct pow_op {
         if (TIRO_UNLIKELY(a == 0 && b < 0))
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
-        if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+        if (b < 0) {
+            if (a == -1)
+                return (b & 1) ? -1 : 1;
+            return a == 1 ? 1 : 0;
+        }
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From fc8bf0b690139386427c31271430cf7bd64dd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 03/40] fix: comparing an integer with a float out of the
 integer range is no longer undefined behaviour

---
 src/compiler/ir_gen/const_eval.cpp | 3 ++-
 src/vm/objects/value.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 02c4dd8..f218753 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -103,7 +103,8 @@ static i64 to_signed(u64 v) {
 }
 
 static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
+    // The conversion to an integer is only defined for values in [-2^63, 2^63). Also rules out NaN.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
         return false;
 
     // Check whether converting the float to int and back preserves the value.
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..9eacaba 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -203,7 +203,8 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
+    // The conversion to an integer is only defined for values in [-2^63, 2^63). Also rules out NaN.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
         return false;
 
     // Check whether converting the float to int and back preserves the value.
-- 
2.43.0


From 7f262efed0d24069128108c28f1521796d6c9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 04/40] fix: a float that equals an integer has the same hash
 as the integer

---
 src/vm/objects/value.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index 9eacaba..4c1da24 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -134,6 +134,16 @@ void finalize(Value v) {
     }
 }
 
+// Floats that compare equal to an integer must have the hash of that integer.
+static size_t number_hash(f64 value) {
+    if (value >= -0x1p63 && value < 0x1p63) {
+        i64 value_int = value;
+        if (static_cast<f64>(value_int) == value)
+            return integer_hash(static_cast<u64>(value_int));
+    }
+    return float_hash(value);
+}
+
 size_t hash(Value v) {
     switch (v.type()) {
     case ValueType::Null:
@@ -144,7 +154,7 @@ size_t hash(Value v) {
     case ValueType::HeapInteger:
         return integer_hash(static_cast<u64>(HeapInteger(v).value()));
     case ValueType::Float:
-        return float_hash(Float(v).value());
+        return number_hash(Float(v).value());
     case ValueType::SmallInteger:
         return integer_hash(static_cast<u64>(SmallInteger(v).value()));
     case ValueType::String:
-- 
2.43.0


From f2907685c6b798b2aedb4d6275e2a9ec2ad238ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/40] fix: the constants 0.0 and -0.0 are not interchangeable
 and must not be merged

---
 src/bytecode/module.cpp               | 4 +++-
 src/compiler/ir_gen/compile_value.cpp | 6 ++++++
 support/codegen/union_ops.jinja2      | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bytecode/module.cpp b/src/bytecode/module.cpp
index 1dc044b..babef47 100644
--- a/src/bytecode/module.cpp
+++ b/src/bytecode/module.cpp
@@ -2,6 +2,8 @@
 
 #include "common/assert.hpp"
 
+#include <cmath>
+
 namespace tiro {
 
 BytecodeRecordSchema::BytecodeRecordSchema() {}
@@ -241,7 +243,7 @@ bool operator==(const BytecodeMember& lhs, const BytecodeMember& rhs) {
 
         bool visit_float([[maybe_unused]] const BytecodeMember::Float& f) {
             [[maybe_unused]] const auto& other = rhs.as_float();
-            return f.value == other.value;
+            return f.value == other.value && std::signbit(f.value) == std::signbit(other.value);
         }
 
         bool visit_string([[maybe_unused]] const BytecodeMember::String& string) {
diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..25120cb 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -158,6 +159,11 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // -0.0 compares equal to 0.0 but is a different value, neither may be reused for the other.
+    if (constant.type() == ConstantType::Float && constant.as_float().value == 0
+        && std::signbit(constant.as_float().value))
+        return define_new(constant);
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
diff --git a/support/codegen/union_ops.jinja2 b/support/codegen/union_ops.jinja2
index 4817bb5..075d2d3 100644
--- a/support/codegen/union_ops.jinja2
+++ b/support/codegen/union_ops.jinja2
@@ -114,6 +114,7 @@ bool operator==(const {{union_type.name}}& lhs, const {{union_type.name}}& rhs)
             {{"return "}}
             {%- for field in fields -%}
                 {{member.argument_name}}.{{field.name}} == other.{{field.name}}
+                {%- if field.type == "f64" %} && std::signbit({{member.argument_name}}.{{field.name}}) == std::signbit(other.{{field.name}}){% endif %}
                 {{-" && " if not loop.last}}
             {%- endfor -%}
             ;
-- 
2.43.0


From 20d8240172f70b1b10ebffd24d11bfe6dd63caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 06/40] fix: shift the whole probe run back when removing from
 a hash table

Only the first displaced entry was moved, which left a gap in the run and
made the entries behind it unreachable by lookups.
---
 src/vm/objects/hash_table.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..c07dbb9 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,9 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From 798153b85b65e9afdb7e8d5e4567cca558c86a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 07/40] fix: find_set() must not report bits beyond the size of
 a bitset

---
 src/common/adt/bitset.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/adt/bitset.hpp b/src/common/adt/bitset.hpp
index 1887b9f..ed6604a 100644
--- a/src/common/adt/bitset.hpp
+++ b/src/common/adt/bitset.hpp
@@ -116,14 +116,14 @@ public:
         if (u32 i = block_offset(begin); i != 0) {
             u32 s = find_first_set(blocks_[current_block] >> i);
             if (s != 0)
-                return begin + s - 1;
+                return in_range_or_npos(begin + s - 1);
             ++current_block;
         }
 
         while (current_block < total_blocks) {
             u32 s = find_first_set(blocks_[current_block]);
             if (s != 0)
-                return (current_block << bits_per_block_log) + s - 1;
+                return in_range_or_npos((current_block << bits_per_block_log) + s - 1);
             ++current_block;
         }
         return npos;
@@ -251,6 +251,9 @@ private:
         TIRO_DEBUG_ASSERT(index < size(), "index out of bounds");
     }
 
+    // Bits in the last block that are beyond the size must not be reported.
+    size_t in_range_or_npos(size_t pos) const { return pos < bits_ ? pos : npos; }
+
     void check_range([[maybe_unused]] size_t begin, [[maybe_unused]] size_t n) const {
         TIRO_DEBUG_ASSERT(begin <= size(), "begin value out of bounds");
         TIRO_DEBUG_ASSERT(n <= size() - begin, "range size out of bounds");
-- 
2.43.0


From b0d69541d5592de89e1b8927d8bf0cfad799e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 08/40] fix: ceil_div() must not overflow for large dividends

---
 src/common/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/math.hpp b/src/common/math.hpp
index fece8b3..47bcba6 100644
--- a/src/common/math.hpp
+++ b/src/common/math.hpp
@@ -128,7 +128,7 @@ template<typename T, IsInteger<T>* = nullptr>
 constexpr T ceil_div(T a, T b) {
     TIRO_DEBUG_ASSERT(a >= 0, "Dividend must be greater than or equal to zero.");
     TIRO_DEBUG_ASSERT(b > 0, "Divisor must be greater than zero.");
-    return (a + b - 1) / b;
+    return a / b + (a % b != 0 ? 1 : 0);
 }
 
 // TODO: Support other compilers. Also make a fallback with "normal" conditions.
-- 
2.43.0


From 5b3ecd7d11237fbcfec3f4551bc5813013b148ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 09/40] fix: ceil() must not overflow if the result is
 representable

---
 src/common/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/math.hpp b/src/common/math.hpp
index 47bcba6..191a360 100644
--- a/src/common/math.hpp
+++ b/src/common/math.hpp
@@ -106,7 +106,8 @@ constexpr T max_bit() noexcept {
 template<typename T, IsUnsigned<T>* = nullptr>
 constexpr T ceil(T a, T b) noexcept {
     TIRO_DEBUG_ASSERT(b != 0, "b must not be 0.");
-    return ((a + b - 1) / b) * b;
+    const T rem = a % b;
+    return rem == 0 ? a : a + (b - rem);
 }
 
 /// Returns a % b where b is a power of two.
-- 
2.43.0


From 27388f56bbb2678d762b02a7f3e254af3501a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 10/40] fix: post decrement of SafeInt must not return a
 reference to a local variable

---
 src/common/safe_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/safe_int.hpp b/src/common/safe_int.hpp
index 1bc735a..04df99f 100644
--- a/src/common/safe_int.hpp
+++ b/src/common/safe_int.hpp
@@ -48,7 +48,7 @@ public:
         return *this;
     }
 
-    SafeInt& operator--(int) {
+    SafeInt operator--(int) {
         SafeInt temp = *this;
         _sub_throws(1);
         return temp;
-- 
2.43.0


From b6fd162f7e37edebf594555744fd14ec7e3fd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 11/40] fix: operators at the end of the file must not read
 past the source text

---
 src/compiler/syntax/lexer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..258746c 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -221,7 +221,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +231,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +239,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +247,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +291,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +299,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From 069cfba9c507a5b346ec8a0463fb38c18db3d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 12/40] fix: std.catch_panic with additional arguments aborted
 the vm

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..826a85a 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1087,7 +1087,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From 28f010eb5b3ee9e8d9a25057d6b4cb68203295ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 13/40] fix: rethrown exceptions were registered as their own
 secondary exception

---
 src/vm/interpreter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 826a85a..ee57e11 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -801,8 +801,11 @@ bool BytecodeInterpreter::handle_exception(
 
     if (frame->flags & FRAME_UNWINDING) {
         TIRO_DEBUG_ASSERT(frame->current_exception, "Frame must have an active exception.");
-        frame->current_exception.value().add_secondary(ctx, ex);
-        ex.set(frame->current_exception.value());
+        // Rethrow raises the current exception again, it is not a secondary exception of itself.
+        if (!frame->current_exception.value().same(*ex)) {
+            frame->current_exception.value().add_secondary(ctx, ex);
+            ex.set(frame->current_exception.value());
+        }
     }
 
     auto maybe_handlers = frame->tmpl.handlers();
-- 
2.43.0


From 336e846aa74ca2958d51a0ce7889aec562f4042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 14/40] fix: StoreEnv used a missing environment before
 checking for it

---
 src/vm/interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index ee57e11..6d48fd3 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -426,17 +426,17 @@ void BytecodeInterpreter::run() {
             if (level != 0)
                 current_env.set(current_env->value().parent(level));
 
+            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
+                return unwind(TIRO_FORMAT_EXCEPTION(
+                    ctx_, "too many levels requested from closure environment: {}", level));
+            }
+
             if (TIRO_UNLIKELY(index >= current_env->value().size())) { // Codegen error
                 return unwind(TIRO_FORMAT_EXCEPTION(ctx_,
                     "environment index {} is too large for environment of size {}", index,
                     current_env->value().size()));
             }
 
-            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
-                return unwind(TIRO_FORMAT_EXCEPTION(
-                    ctx_, "too many levels requested from closure environment: {}", level));
-            }
-
             current_env->value().set(index, *source);
             break;
         }
-- 
2.43.0


From 569a568eb4cc38f2d44aa105386d006bb89b13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 15/40] fix: functions with the maximum number of locals
 aborted the vm

---
 src/vm/objects/coroutine_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine_stack.cpp b/src/vm/objects/coroutine_stack.cpp
index 1c73bb7..a425403 100644
--- a/src/vm/objects/coroutine_stack.cpp
+++ b/src/vm/objects/coroutine_stack.cpp
@@ -315,7 +315,7 @@ CoroutineStack::push_frame(u8 flags, u32 argc, u32 locals, Params&&... additiona
 void* CoroutineStack::allocate_frame(u32 frame_size, u32 locals) {
     Layout* data = layout();
     TIRO_DEBUG_ASSERT(data->top <= data->end, "invalid stack top");
-    TIRO_DEBUG_ASSERT(locals < max_locals, "too many locals");
+    TIRO_DEBUG_ASSERT(locals <= max_locals, "too many locals");
     TIRO_DEBUG_ASSERT(locals <= (std::numeric_limits<u32>::max() - frame_size) / sizeof(Value),
         "integer overflow in frame allocation");
 
-- 
2.43.0


From c8c55635de9685d4abb03c23968f51218002c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 16/40] fix: launching std.dispatch as a coroutine aborted the
 vm

---
 src/vm/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..87ef615 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -112,6 +112,10 @@ void Context::run_ready() {
         }
 
         Handle<Coroutine> coro = current.must_cast<Coroutine>();
+        // A coroutine can complete right after it has been scheduled, if its outermost function is std.dispatch.
+        if (coro->state() == CoroutineState::Done)
+            continue;
+
         interpreter.run(coro);
         if (coro->state() == CoroutineState::Done) {
             coro->reset_token(); // ensure old token cannot be used
-- 
2.43.0


From 2c1e6d8cc623bd350ef06ae3e055aca1940b6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 17/40] fix: verify the index register of LoadIndex and
 StoreIndex instructions

The register was not checked at all, so a module could be accepted whose code
reads outside of the registers of its function.
---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 9bb73b29fe798ac5b44809ab9c3d2197cfcc211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 18/40] fix: reject module members with out of bounds function
 or record schema ids

The verifier used the id as an index without checking that it exists.
---
 src/vm/modules/verify.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5f3d8a0..4c1665c 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -272,6 +272,11 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
+    if (!module_.functions().in_bounds(f.id)) {
+        fail(fmt::format(
+            "function id {} is out of bounds (in member {})", f.id.value(), id.value()));
+    }
+
     const auto& func = module_[f.id];
     if (auto name_id = func.name()) {
         const auto& name = check_reference(func.name(), id);
@@ -290,6 +295,11 @@ void ModuleVerifier::visit_record_schema(
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
+    if (!module_.records().in_bounds(r.id)) {
+        fail(fmt::format(
+            "record schema id {} is out of bounds (in member {})", r.id.value(), id.value()));
+    }
+
     const auto& tmpl = module_[r.id];
     for (auto key_id : tmpl.keys()) {
         const auto& key = check_reference(key_id, id);
-- 
2.43.0


From c8c5322913e4e1d2189834792a88c4f222494884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 19/40] fix: only accept variables as targets of StoreModule
 instructions

Overwriting another member, such as a symbol, invalidates the types of members
which the verifier has already established (e.g. for LoadMember).
---
 src/vm/modules/verify.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 4c1665c..f8e8d01 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -493,7 +493,8 @@ void FunctionVerifier::InstructionVisitor::visit_load_module(
 void FunctionVerifier::InstructionVisitor::visit_store_module(
     const BytecodeInstr::StoreModule& store_module) {
     self.check(store_module.source);
-    self.check(store_module.target);
+    if (self.check(store_module.target) != BytecodeMemberType::Variable)
+        self.fail("target in StoreModule instruction must reference a variable");
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_member(
-- 
2.43.0


From ddfb589f940b7547b7725c31fc9d41c0a5d27a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 20/40] fix: verify the members referenced by variables

The name and the initial value of a variable were not checked.
---
 src/vm/modules/verify.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index f8e8d01..94269ec 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -264,8 +264,16 @@ void ModuleVerifier::visit_import(const BytecodeMember::Import& i, BytecodeMembe
     }
 }
 
-void ModuleVerifier::visit_variable(
-    [[maybe_unused]] const BytecodeMember::Variable& v, [[maybe_unused]] BytecodeMemberId id) {}
+void ModuleVerifier::visit_variable(const BytecodeMember::Variable& v, BytecodeMemberId id) {
+    const auto& name = check_reference(v.name, id);
+    if (name.type() != BytecodeMemberType::String) {
+        fail(fmt::format(
+            "member {} is not a string (required by variable at {})", v.name.value(), id.value()));
+    }
+
+    if (v.initial_value)
+        check_reference(v.initial_value, id);
+}
 
 void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeMemberId id) {
     if (!f.id) {
-- 
2.43.0


From bd3f6c2cd54445412ef9418dc577bdb0a842f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:01 +0000
Subject: [PATCH 21/40] fix: reject modules with strings that are not in their
 string table

Only the invalid string was rejected. The name of the module and string members
may also contain ids that the module's string table does not know.
---
 src/vm/modules/verify.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 94269ec..e221761 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -25,6 +25,11 @@ public:
     [[noreturn]] TIRO_COLD void fail(std::string_view message);
     const BytecodeModule& module() const { return module_; }
 
+    // Strings are numbered from 1 in the module's string table, 0 is invalid.
+    bool is_valid_string(const InternedString& str) const {
+        return str && str.value() <= module_.strings().size();
+    }
+
     // module member visitor
     void visit_integer(const BytecodeMember::Integer& i, BytecodeMemberId id);
     void visit_float(const BytecodeMember::Float& f, BytecodeMemberId id);
@@ -173,7 +178,7 @@ private:
 } // namespace
 
 void ModuleVerifier::verify() {
-    if (!module_.name())
+    if (!is_valid_string(module_.name()))
         fail("module does not have a valid name");
 
     // Validate data
@@ -243,7 +248,7 @@ void ModuleVerifier::visit_float(
     [[maybe_unused]] const BytecodeMember::Float& f, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_string(const BytecodeMember::String& s, BytecodeMemberId id) {
-    if (!s.value) {
+    if (!is_valid_string(s.value)) {
         fail(fmt::format("invalid string (in member {})", id.value()));
     }
 }
@@ -341,7 +346,9 @@ ModuleVerifier::check_reference(BytecodeMemberId id, BytecodeMemberId parent) {
 
 void ModuleVerifier::fail(std::string_view message) {
     // TODO: Mark exception as bytecode verification failure, e.g. with a kind enum?
-    std::string_view name = module_.strings().dump(module_.name());
+    std::string_view name = is_valid_string(module_.name())
+                                ? module_.strings().dump(module_.name())
+                                : "N/A";
     TIRO_ERROR("module '{}' verification error: {}", name, message);
 }
 
-- 
2.43.0


From f2435b0a625e4b7b7cc2f88e4936dba0feba2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:07 +0000
Subject: [PATCH 22/40] fix: do not count memory that could not be allocated

A failed allocation was added to the heap's total size and thus reduced the
memory limit permanently. It was also not reported as TIRO_ERROR_ALLOC.
---
 src/vm/heap/heap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..0c7cf80 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -298,11 +298,12 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
     void* result = alloc_.allocate_aligned(size, align);
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From e11cac568e4adeb62f37a9cdd188402a2f69c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:07 +0000
Subject: [PATCH 23/40] fix: reject allocations with more cells than fit into
 32 bits

The number of cells was truncated, i.e. a request for 64 GiB or more received
storage that was far too small.
---
 src/vm/heap/heap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 0c7cf80..933806d 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -204,6 +205,9 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     TIRO_DEBUG_ASSERT(!collector_.running(), "collector must not be running");
     TIRO_DEBUG_ASSERT(bytes_request > 0, "zero sized allocation");
 
+    if (TIRO_UNLIKELY(ceil_div(bytes_request, cell_size) > std::numeric_limits<u32>::max()))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation request is too large");
+
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
-- 
2.43.0


From 8b9e3b2ca85d7b8f62f4ace9059bd9772e958426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:07 +0000
Subject: [PATCH 24/40] fix: count whole cells in the heap's statistics

Objects are allocated in units of cells, and sweeping counts cells, but allocations
counted the requested bytes. The free bytes reported between two collections included
storage that was not free.
---
 src/vm/heap/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 933806d..9779b93 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -221,7 +221,7 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
-        stats_.allocated_bytes += bytes_request;
+        stats_.allocated_bytes += cells_request * cell_size;
         return std::tuple(lob->cells().data(), ChunkType::LargeObject);
     }
 
@@ -247,8 +247,8 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     stats_.allocated_objects += 1;
-    stats_.allocated_bytes += bytes_request;
-    stats_.free_bytes -= bytes_request;
+    stats_.allocated_bytes += cells_request * cell_size;
+    stats_.free_bytes -= cells_request * cell_size;
     return std::tuple(result, ChunkType::Page);
 }
 
-- 
2.43.0


From ed1bacc401d9e92f0a8f11e1cb544a941a74791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 25/40] fix: run all finalizers before releasing memory when a
 heap is destroyed

Finalizing a native object inspects its type, which may be stored on another
page. That page could have been freed already, i.e. destroying a vm with native
objects on its second page crashed.
---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 9779b93..b9db0b8 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -188,16 +188,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Finalizers may visit other objects (e.g. type instances), so all of them must
+    // run before any memory is released.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From c42883f706a622350ac936dc4cb206572b910612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 26/40] fix: tiro_resumable_frame_invoke accepts tuples as
 arguments and rejects everything else

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 611913d31bf0cc012edfe818ecd1d1cbb1196cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 27/40] fix: tiro_coroutine_set_callback reports bad arguments
 without a cleanup function

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 87f5dea5404c549b4806a507f467a5e3db782885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 28/40] fix: tiro_boolean_value tolerates a null handle

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index 4daaf5e..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 69c4100cbf5a7e16fcd7577751affa2b37acfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 29/40] fix: setting a coroutine callback keeps the previous
 one when it fails

---
 src/vm/context.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 87ef615..a3da2c9 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,6 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0


From 4d6074b910b0051631779b198baa07439b5e14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 30/40] fix: no module is available after the message callback
 stopped the compiler

---
 src/api/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/compiler.cpp b/src/api/compiler.cpp
index e1e52bb..091dd38 100644
--- a/src/api/compiler.cpp
+++ b/src/api/compiler.cpp
@@ -170,6 +170,7 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
         comp->result = compiler.run();
         for (const auto& message : compiler.diag().messages()) {
             if (!report(comp, compiler, message)) {
+                comp->result->module.reset(); // Compilation was not successful.
                 return TIRO_REPORT(
                     err, TIRO_ERROR_BAD_STATE, [&] { return "fatal error in message callback"; });
             }
-- 
2.43.0


From 88de7fc20a004aa834ce29a3486862b2088cd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 31/40] fix: unused constant operators that raise an exception
 are not eliminated

---
 src/compiler/ir_passes/dead_code_elimination.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..7b1648e 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -55,17 +55,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operators on constants that are still present could not be evaluated at compile time because
+        // they raise an exception (e.g. division by zero).
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
-- 
2.43.0


From 26ce86b6388eac1af442178db4bc8b908ee67944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 32/40] fix: nested exception handlers observe all assignments
 in the blocks they protect

---
 src/compiler/ir_passes/assignment_observers.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..3f04f17 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -166,17 +166,11 @@ ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
         TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
             "There must be reverse edges for every handler block.");
 
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
+        // The exception may be raised at any point of the source block, i.e. after any of its assignments.
         ValueSet set;
         write({}); // Place a sentinel to stop recursion in control flow loops.
         for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
+            fill_operand_set(set, pred_id, symbol_id);
         }
         return write(ValueList(set.begin(), set.end()));
     }
-- 
2.43.0


From 3866f9132b2cce856cca3a64e07dd90b50454ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 33/40] fix: deferred expressions can use and create closures

---
 src/compiler/ir_gen/compile_expr.cpp |  2 +-
 src/compiler/ir_gen/func.cpp         | 89 +++++++++++++++++-----------
 src/compiler/ir_gen/func.hpp         | 20 ++++---
 3 files changed, 68 insertions(+), 43 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..9626e14 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -515,7 +515,7 @@ InstResult ExprCompiler::visit_error_expr(NotNull<AstErrorExpr*>, CurrentBlock&)
 InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBlock& bb) {
     auto decl = TIRO_NN(expr->decl());
     auto envs = ctx().envs();
-    auto env = ctx().current_env();
+    auto env = ctx().current_env(ctx().symbols().get_scope(decl->id()));
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
     if (env) {
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..867747c 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -147,11 +147,14 @@ FunctionIRGen::RegionGuard FunctionIRGen::enter_scope() {
     return RegionGuard(this, id, current_scope_);
 }
 
-ClosureEnvId FunctionIRGen::current_env() const {
-    if (local_env_stack_.empty()) {
-        return outer_env_;
+ClosureEnvId FunctionIRGen::current_env(ScopeId scope_id) const {
+    // Deferred expressions are also compiled while the environments of nested loops are still active.
+    for (size_t i = local_env_stack_.size(); i-- > 0;) {
+        const auto& context = local_env_stack_[i];
+        if (context.starter == scope_id || symbols().is_strict_ancestor(context.starter, scope_id))
+            return context.env;
     }
-    return local_env_stack_.back().env;
+    return outer_env_;
 }
 
 BlockId FunctionIRGen::current_handler() const {
@@ -244,7 +247,7 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     // Make the outer environment accessible as an instruction.
     if (outer_env_) {
-        local_env_locations_[outer_env_] = bb.define_new(Value::OuterEnvironment{});
+        write_variable(outer_env_symbol, bb.define_new(Value::OuterEnvironment{}), bb.id());
     }
 
     compile_body(bb);
@@ -281,7 +284,7 @@ OkResult FunctionIRGen::compile_loop_body(ScopeId loop_scope_id,
 
 InstId FunctionIRGen::compile_reference(SymbolId symbol_id, CurrentBlock& bb) {
     // TODO: Values of module level constants (imports, const variables can be cached as instructions).
-    if (auto lvalue = find_lvalue(symbol_id)) {
+    if (auto lvalue = find_lvalue(symbol_id, bb.id())) {
         auto inst_id = bb.compile_value(Value::make_read(*lvalue));
 
         // Apply name if possible:
@@ -316,7 +319,7 @@ void FunctionIRGen::compile_assign(const AssignTarget& target, InstId value, Cur
         }
 
         // Does the symbol refer to a non-ssa variable?
-        if (auto lvalue = find_lvalue(symbol_id)) {
+        if (auto lvalue = find_lvalue(symbol_id, block_id)) {
             compile_value(Value::make_write(*lvalue, value), bb);
             return;
         }
@@ -343,9 +346,9 @@ InstId FunctionIRGen::compile_read(const AssignTarget& target, CurrentBlock& bb)
     TIRO_UNREACHABLE("Invalid assignment target type.");
 }
 
-InstId FunctionIRGen::compile_env(ClosureEnvId env, [[maybe_unused]] BlockId block) {
+InstId FunctionIRGen::compile_env(ClosureEnvId env, BlockId block) {
     TIRO_DEBUG_ASSERT(env, "Closure environment to be compiled must be valid.");
-    return get_env(env);
+    return get_env(env, block);
 }
 
 OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb) {
@@ -426,6 +429,10 @@ BlockId FunctionIRGen::make_handler_block(InternedString label) {
     auto entry = result_.ptr_to(entry_id);
     entry->terminator().as_entry().handlers.push_back(block_id);
     block->append_predecessor(entry_id);
+
+    // Handlers cannot use the instruction defined in the function's body.
+    if (outer_env_)
+        write_variable(outer_env_symbol, define_new(Value::OuterEnvironment{}, block_id), block_id);
     return block_id;
 }
 
@@ -534,7 +541,7 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
         "Variable lookup must always terminate before reaching the virtual CFG root.");
 
     auto block = result_.ptr_to(block_id);
-    const auto& symbol = symbols()[symbol_id];
+    const auto name = symbol_id ? symbols()[symbol_id].name() : InternedString();
     TIRO_DEBUG_ASSERT(block->predecessor_count(),
         "The block must have at least one predecessor, since we are not at the CFG root.");
 
@@ -543,21 +550,21 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
         // We bubbled up to the start of the function body, which means the variable was never defined.
         undefined_variable(symbol_id);
         auto inst = Inst(Value::make_error());
-        inst.name(symbol.name());
+        inst.name(name);
         inst_id = define_new(std::move(inst), block_id);
     } else if (block->is_handler()) {
         // The observe_assign value is created immediately, but without any operands. Those will be filled in
         // later after the functions has been compiled. All publish_assign instructions that may be observed
         // by the exception handler will become operands of the phi_catch here.
         auto inst = Inst(Value::make_observe_assign(symbol_id, {}));
-        inst.name(symbol.name());
+        inst.name(name);
         inst_id = define_new(std::move(inst), block_id);
     } else if (!block->sealed()) {
         // Since the block has not been sealed yet, we cannot know all possible values of the symbol. We create
         // an empty phi node to stop the recursion here and remember its location in incomplete_phis, which will
         // be visited once the block has been sealed.
         auto inst = Inst(Value(Phi()));
-        inst.name(symbol.name());
+        inst.name(name);
         inst_id = define_new(std::move(inst), block_id);
         incomplete_phis_[block_id].emplace_back(symbol_id, inst_id);
     } else if (block->predecessor_count() == 1) {
@@ -566,7 +573,7 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
         // Place a phi marker to break the recursion.
         // Recursive calls to read_variable will observe the existing Phi node.
         auto inst = Inst(Value(Phi()));
-        inst.name(symbol.name());
+        inst.name(name);
         inst_id = define_new(std::move(inst), block_id);
         write_variable(symbol_id, inst_id, block_id);
 
@@ -580,7 +587,6 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
 
 void FunctionIRGen::add_phi_operands(SymbolId symbol_id, InstId inst_id, BlockId block_id) {
     auto block = result_.ptr_to(block_id);
-    auto symbol = symbols()[symbol_id];
 
     // Collect the possible operands from all predecessors. Note that, because
     // of recursion, the list of operands may contain the instruction value itself.
@@ -616,7 +622,7 @@ void FunctionIRGen::add_phi_operands(SymbolId symbol_id, InstId inst_id, BlockId
         // The value can be replaced with the other value. If there is no such value, then the variable
         // is uninitialized.
         if (!trivial_other) {
-            TIRO_ERROR("Variable {} was never initialized.", strings().dump(symbol.name()));
+            TIRO_ERROR("Variable {} was never initialized.", strings().dump(symbols()[symbol_id].name()));
         }
 
         // TODO: Remove uses of this phi that might have become trivial. See Algorithm 3 in [BB+13].
@@ -654,17 +660,29 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
         return;
 
     const u32 captured_count = checked_cast<u32>(captured.size());
-    const ClosureEnvId parent = current_env();
-    const ClosureEnvId env = envs_->make(ClosureEnv(parent, checked_cast<u32>(captured.size())));
-    for (u32 i = 0; i < captured.size(); ++i) {
-        envs_->write_location(captured[i], ClosureEnvLocation(env, i));
-    }
+    const ClosureEnvId parent = current_env(parent_scope_id);
+    const ClosureEnvId env = [&] {
+        // Deferred expressions are compiled more than once.
+        if (auto existing = envs_->read_location(captured[0]))
+            return existing->env;
+
+        const auto new_env = envs_->make(ClosureEnv(parent, captured_count));
+        for (u32 i = 0; i < captured.size(); ++i) {
+            envs_->write_location(captured[i], ClosureEnvLocation(new_env, i));
+        }
+        return new_env;
+    }();
 
-    const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
+    const auto parent_inst = parent ? get_env(parent, bb.id())
+                                    : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
     local_env_stack_.push_back({env, parent_scope_id});
-    local_env_locations_[env] = env_inst;
+    local_env_locations_[env] = captured[0];
+
+    // The environment is treated like a variable: deferred expressions may need it in their exception handler.
+    write_variable(captured[0], env_inst, bb.id());
+    define_new(Value::make_publish_assign(captured[0], env_inst), bb.id());
 }
 
 void FunctionIRGen::exit_env(ScopeId parent_scope) {
@@ -691,20 +709,23 @@ bool FunctionIRGen::can_open_closure_env(ScopeId scope_id) const {
     }
 }
 
-std::optional<InstId> FunctionIRGen::find_env(ClosureEnvId env) {
-    auto pos = local_env_locations_.find(env);
-    if (pos != local_env_locations_.end())
-        return pos->second;
+std::optional<InstId> FunctionIRGen::find_env(ClosureEnvId env, BlockId block_id) {
+    if (env == outer_env_)
+        return read_variable(outer_env_symbol, block_id);
+
+    if (auto pos = local_env_locations_.find(env); pos != local_env_locations_.end())
+        return read_variable(pos->second, block_id);
+
     return {};
 }
 
-InstId FunctionIRGen::get_env(ClosureEnvId env) {
-    auto inst = find_env(env);
+InstId FunctionIRGen::get_env(ClosureEnvId env, BlockId block_id) {
+    auto inst = find_env(env, block_id);
     TIRO_DEBUG_ASSERT(inst, "Local environment was not found.");
     return *inst;
 }
 
-std::optional<LValue> FunctionIRGen::find_lvalue(SymbolId symbol_id) {
+std::optional<LValue> FunctionIRGen::find_lvalue(SymbolId symbol_id, BlockId block_id) {
     if (module_gen().is_static(symbol_id)) {
         auto member = module_gen_.find_symbol(symbol_id);
         TIRO_DEBUG_ASSERT(member, "Failed to find member in module.");
@@ -713,12 +734,12 @@ std::optional<LValue> FunctionIRGen::find_lvalue(SymbolId symbol_id) {
     if (const auto& symbol = symbols()[symbol_id]; symbol.captured()) {
         auto pos = envs_->read_location(symbol_id);
         TIRO_DEBUG_ASSERT(pos, "Captured symbol without a defined location used as lvalue.");
-        return get_captured_lvalue(*pos);
+        return get_captured_lvalue(*pos, block_id);
     }
     return {};
 }
 
-LValue FunctionIRGen::get_captured_lvalue(const ClosureEnvLocation& loc) {
+LValue FunctionIRGen::get_captured_lvalue(const ClosureEnvLocation& loc, BlockId block_id) {
     TIRO_DEBUG_ASSERT(loc.env, "Must have a valid environment id.");
 
     const auto& envs = *envs_;
@@ -727,7 +748,7 @@ LValue FunctionIRGen::get_captured_lvalue(const ClosureEnvLocation& loc) {
         loc.index < envs[target_id].size(), "Index into closure environment is out of bounds.");
 
     // Simple case for closure environments created by this function.
-    if (auto inst = find_env(target_id)) {
+    if (auto inst = find_env(target_id, block_id)) {
         return LValue::make_closure(*inst, 0, loc.index);
     }
 
@@ -736,7 +757,7 @@ LValue FunctionIRGen::get_captured_lvalue(const ClosureEnvLocation& loc) {
     u32 levels = 0;
     while (current_id) {
         if (current_id == target_id) {
-            const auto outer_inst = find_env(outer_env_);
+            const auto outer_inst = find_env(outer_env_, block_id);
             TIRO_DEBUG_ASSERT(
                 outer_inst, "The outer environment must be stored in an instruction.");
             return LValue::make_closure(*outer_inst, levels, loc.index);
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..8d5c496 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -262,7 +262,8 @@ public:
     RegionGuard enter_loop(BlockId jump_break, BlockId jump_continue);
     RegionGuard enter_scope();
 
-    ClosureEnvId current_env() const;
+    /// Returns the innermost closure environment that is visible in the given scope.
+    ClosureEnvId current_env(ScopeId scope) const;
 
     /// Returns the current exception handler. Blocks created through this object will
     /// inherit the current handler.
@@ -349,18 +350,18 @@ private:
 
     bool can_open_closure_env(ScopeId scope) const;
 
-    /// Returns the runtime location of the given closure environment.
-    std::optional<InstId> find_env(ClosureEnvId env);
+    /// Returns the runtime location of the given closure environment, as seen from the given block.
+    std::optional<InstId> find_env(ClosureEnvId env, BlockId block_id);
 
     /// Like find_env(), but fails with an assertion error if the environment was not found.
-    InstId get_env(ClosureEnvId env);
+    InstId get_env(ClosureEnvId env, BlockId block_id);
 
     /// Lookup the given symbol as an lvalue of non-instruction type.
     /// Returns an empty optional if the symbol does not qualify (lookup as an ssa instruction instead).
-    std::optional<LValue> find_lvalue(SymbolId symbol);
+    std::optional<LValue> find_lvalue(SymbolId symbol, BlockId block_id);
 
     /// Returns an lvalue for accessing the given closure env location.
-    LValue get_captured_lvalue(const ClosureEnvLocation& loc);
+    LValue get_captured_lvalue(const ClosureEnvLocation& loc, BlockId block_id);
 
     /// Called when an undefined variable is encountered to produce a diagnostic message.
     // TODO: Pass usage information around the code so we can print where use of the undefined
@@ -411,8 +412,11 @@ private:
     // Represents the set of pending incomplete phi variables.
     IncompletePhiMap incomplete_phis_;
 
-    // Maps closure environments to the ssa instruction that references their runtime representation.
-    absl::flat_hash_map<ClosureEnvId, InstId, UseHasher> local_env_locations_;
+    // Maps closure environments created by this function to the symbol that holds their runtime representation.
+    absl::flat_hash_map<ClosureEnvId, SymbolId, UseHasher> local_env_locations_;
+
+    // Pseudo symbol that holds the runtime representation of the outer environment.
+    static constexpr SymbolId outer_env_symbol{};
 };
 
 /// Base class for transformers, to avoid having to re-type all accessors all over again.
-- 
2.43.0


From 9f6149ae4dcdad93c972cf0172263a25c927ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 34/40] fix: leaving a scope early keeps its deferred
 expressions and their loops intact

---
 src/compiler/ir_gen/compile_expr.cpp |  6 ++++++
 src/compiler/ir_gen/func.cpp         | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9626e14..52078ed 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -426,6 +427,11 @@ InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBl
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
+    // Handlers registered in this scope are not active outside of it, even if its end is unreachable.
+    ScopeSuccess restore_handler = [&, handler = ctx().current_handler()] {
+        ctx().current_handler(handler);
+    };
+
     auto& stmts = expr->stmts();
 
     bool has_value = can_use_as_value(get_type(expr));
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 867747c..5d0ab64 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -370,6 +370,30 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
     ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
     ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
 
+    // Deferred expressions run in the context of their own scope: nested scopes and loops have already been left.
+    absl::InlinedVector<std::pair<RegionId, u32>, 8> nested_scopes;
+    for (size_t i = scope_id.value() + 1; i < active_regions_.size(); ++i) {
+        if (active_regions_[RegionId(i)].type() == RegionType::Scope) {
+            auto& nested = active_regions_[RegionId(i)].as_scope();
+            nested_scopes.emplace_back(RegionId(i), nested.processed);
+            nested.processed = checked_cast<u32>(nested.deferred.size());
+        }
+    }
+    ScopeSuccess restore_nested = [&] {
+        for (const auto& [id, processed] : nested_scopes)
+            active_regions_[id].as_scope().processed = processed;
+    };
+
+    RegionId outer_loop;
+    for (size_t i = scope_id.value(); i-- > 0;) {
+        if (active_regions_[RegionId(i)].type() == RegionType::Loop) {
+            outer_loop = RegionId(i);
+            break;
+        }
+    }
+    auto restore_loop = replace_value(current_loop_, outer_loop);
+    auto restore_scope = replace_value(current_scope_, scope_id);
+
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
         BlockId handler;
@@ -398,6 +422,9 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // Code following the jump is still protected by the current handler.
+    ScopeSuccess restore_handler = [&, handler = current_handler()] { current_handler(handler); };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From 8776709486776ddb51ce83d2ec069ca411d0947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:54 +0000
Subject: [PATCH 35/40] fix: sealing a block does not use invalid iterators
 when operands add incomplete phis

---
 src/compiler/ir_gen/func.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 5d0ab64..d934d6d 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -492,13 +492,13 @@ void FunctionIRGen::seal(BlockId block_id) {
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
+        // Reading the operands may add incomplete phis to other blocks.
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
 
-        auto& phis = pos->second;
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From 29036b92afb51bea56936ae956a2dbe0395922a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:08 +0000
Subject: [PATCH 36/40] fix: expressions that never complete no longer break
 the compiler in loop conditions, branches, optional chains and assertions

---
 src/compiler/bytecode_gen/alloc_registers.cpp |  7 ++++++-
 src/compiler/ir_gen/compile_expr.cpp          |  8 +++++++-
 src/compiler/ir_gen/compile_stmt.cpp          | 16 ++++++++++------
 src/compiler/ir_gen/func.cpp                  |  7 ++++---
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..b60fa18 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -483,7 +483,12 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
+        // All operands may be phi functions that are still being resolved by our callers.
+        if (!resolved) {
+            phi_sizes_.erase(inst_id);
+            return {};
+        }
+
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
     }
diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 52078ed..b5bf8e5 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -188,7 +188,8 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
@@ -592,6 +593,11 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
+    if (!then_result && !else_result) {
+        bb.end(Terminator::make_never(result().exit()));
+        return unreachable;
+    }
+
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..9e68c64 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,8 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
-
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        if (message_result)
+            nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
@@ -190,7 +188,13 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    return cond_result;
+
+    // The end is only reachable through the condition or a break.
+    if (ctx().result()[end_block].predecessor_count() == 0) {
+        bb.end(Terminator::make_never(ctx().result().exit()));
+        return unreachable;
+    }
+    return ok;
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
@@ -277,7 +281,7 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            bb.assign(cond_bb.id());
             return cond_result;
         }
     }
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index d934d6d..01a6b75 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -252,9 +252,10 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::None,
+        "The last block must have a terminator.");
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::Return
+                          || result_[bb.id()].terminator().as_return().target == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
-- 
2.43.0


From fa5979616b4c99597aea29b4d41901ca7c0cc131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:54 +0000
Subject: [PATCH 37/40] fix: break and continue inside a function do not refer
 to loops around it

---
 src/compiler/semantics/structure_check.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..2e87eec 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -115,6 +115,7 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    auto reset_loop = replace_value(current_loop_, static_cast<AstNode*>(nullptr));
     visit_decl(decl);
 }
 
-- 
2.43.0


From 249a0c0c82f5fe4f4668736ee82d07c9e3d557f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:07 +0000
Subject: [PATCH 38/40] fix: deferred expressions can continue a for-each loop

---
 src/compiler/ir_gen/compile_stmt.cpp |  6 ++++--
 src/compiler/ir_gen/func.cpp         | 26 +++++++++++++++++++++-----
 src/compiler/ir_gen/func.hpp         | 20 ++++++++++++++++++--
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index 9e68c64..e9c57e4 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -202,7 +202,8 @@ OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, Curren
     auto container_result = bb.compile_expr(TIRO_NN(stmt->expr()));
     if (!container_result)
         return container_result.failure();
-    auto iterator = bb.compile_value(Value::make_make_iterator(*container_result));
+    const auto iterator = ctx().make_hidden_symbol();
+    ctx().write_hidden(iterator, bb.compile_value(Value::make_make_iterator(*container_result)), bb);
 
     auto step_block = ctx().make_block(strings().insert("for-each-step"));
     auto body_block = ctx().make_block(strings().insert("for-each-body"));
@@ -212,7 +213,8 @@ OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, Curren
     // Compile iterator advance.
     auto iter_next = [&]() {
         CurrentBlock step_bb = ctx().make_current(step_block);
-        auto next = step_bb.compile_value(Aggregate::make_iterator_next(iterator));
+        auto next = step_bb.compile_value(
+            Aggregate::make_iterator_next(ctx().read_hidden(iterator, step_bb)));
         auto valid = step_bb.compile_value(
             Value::make_get_aggregate_member(next, AggregateMember::IteratorNextValid));
 
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 01a6b75..289169a 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -16,6 +16,9 @@
 
 namespace tiro::ir {
 
+// Ids that are never used by the symbol table.
+static constexpr u32 first_hidden_symbol = u32(1) << 31;
+
 void CurrentBlock::advance(InternedString label) {
     auto new_id = ctx().make_block(label);
     end(Terminator::make_jump(new_id));
@@ -247,7 +250,7 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     // Make the outer environment accessible as an instruction.
     if (outer_env_) {
-        write_variable(outer_env_symbol, bb.define_new(Value::OuterEnvironment{}), bb.id());
+        write_variable(outer_env_symbol_, bb.define_new(Value::OuterEnvironment{}), bb.id());
     }
 
     compile_body(bb);
@@ -460,7 +463,7 @@ BlockId FunctionIRGen::make_handler_block(InternedString label) {
 
     // Handlers cannot use the instruction defined in the function's body.
     if (outer_env_)
-        write_variable(outer_env_symbol, define_new(Value::OuterEnvironment{}, block_id), block_id);
+        write_variable(outer_env_symbol_, define_new(Value::OuterEnvironment{}, block_id), block_id);
     return block_id;
 }
 
@@ -569,7 +572,7 @@ InstId FunctionIRGen::read_variable_recursive(SymbolId symbol_id, BlockId block_
         "Variable lookup must always terminate before reaching the virtual CFG root.");
 
     auto block = result_.ptr_to(block_id);
-    const auto name = symbol_id ? symbols()[symbol_id].name() : InternedString();
+    const auto name = symbol_name(symbol_id);
     TIRO_DEBUG_ASSERT(block->predecessor_count(),
         "The block must have at least one predecessor, since we are not at the CFG root.");
 
@@ -650,7 +653,7 @@ void FunctionIRGen::add_phi_operands(SymbolId symbol_id, InstId inst_id, BlockId
         // The value can be replaced with the other value. If there is no such value, then the variable
         // is uninitialized.
         if (!trivial_other) {
-            TIRO_ERROR("Variable {} was never initialized.", strings().dump(symbols()[symbol_id].name()));
+            TIRO_ERROR("Variable {} was never initialized.", strings().dump(symbol_name(symbol_id)));
         }
 
         // TODO: Remove uses of this phi that might have become trivial. See Algorithm 3 in [BB+13].
@@ -737,9 +740,22 @@ bool FunctionIRGen::can_open_closure_env(ScopeId scope_id) const {
     }
 }
 
+SymbolId FunctionIRGen::make_hidden_symbol() {
+    return SymbolId(first_hidden_symbol + hidden_symbols_++);
+}
+
+InternedString FunctionIRGen::symbol_name(SymbolId symbol_id) const {
+    return symbol_id.value() < first_hidden_symbol ? symbols()[symbol_id].name() : InternedString();
+}
+
+void FunctionIRGen::write_hidden(SymbolId symbol_id, InstId value, CurrentBlock& bb) {
+    write_variable(symbol_id, value, bb.id());
+    define_new(Value::make_publish_assign(symbol_id, value), bb.id());
+}
+
 std::optional<InstId> FunctionIRGen::find_env(ClosureEnvId env, BlockId block_id) {
     if (env == outer_env_)
-        return read_variable(outer_env_symbol, block_id);
+        return read_variable(outer_env_symbol_, block_id);
 
     if (auto pos = local_env_locations_.find(env); pos != local_env_locations_.end())
         return read_variable(pos->second, block_id);
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index 8d5c496..eaf32bc 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -296,6 +296,16 @@ public:
     /// a closure function object.
     InstId compile_env(ClosureEnvId env, BlockId block);
 
+    /// Creates a symbol for a value that is not named by the source code. Like variables, such a value can
+    /// be used in all blocks that can be reached from its definition, including exception handlers.
+    SymbolId make_hidden_symbol();
+
+    /// Defines the value of the given hidden symbol.
+    void write_hidden(SymbolId symbol, InstId value, CurrentBlock& bb);
+
+    /// Returns the current value of the given hidden symbol.
+    InstId read_hidden(SymbolId symbol, CurrentBlock& bb) { return read_variable(symbol, bb.id()); }
+
     /// Emits code required to leave the given scope.
     OkResult compile_scope_exit(RegionId scope_id, CurrentBlock& bb);
 
@@ -350,6 +360,9 @@ private:
 
     bool can_open_closure_env(ScopeId scope) const;
 
+    /// Returns the symbol's name, or an invalid string if the symbol is hidden.
+    InternedString symbol_name(SymbolId symbol) const;
+
     /// Returns the runtime location of the given closure environment, as seen from the given block.
     std::optional<InstId> find_env(ClosureEnvId env, BlockId block_id);
 
@@ -415,8 +428,11 @@ private:
     // Maps closure environments created by this function to the symbol that holds their runtime representation.
     absl::flat_hash_map<ClosureEnvId, SymbolId, UseHasher> local_env_locations_;
 
-    // Pseudo symbol that holds the runtime representation of the outer environment.
-    static constexpr SymbolId outer_env_symbol{};
+    // Hidden symbols represent values that are not named by the source code.
+    u32 hidden_symbols_ = 0;
+
+    // Hidden symbol that holds the runtime representation of the outer environment.
+    const SymbolId outer_env_symbol_ = make_hidden_symbol();
 };
 
 /// Base class for transformers, to avoid having to re-type all accessors all over again.
-- 
2.43.0


From e9731c489d9eefcc1f4d9ce94475a0c11a3288c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:14 +0000
Subject: [PATCH 39/40] fix: source files with invalid utf8 are rejected with a
 diagnostic

---
 src/compiler/ast_gen/build_ast.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ast_gen/build_ast.cpp b/src/compiler/ast_gen/build_ast.cpp
index 7350048..9565016 100644
--- a/src/compiler/ast_gen/build_ast.cpp
+++ b/src/compiler/ast_gen/build_ast.cpp
@@ -240,8 +240,8 @@ build_module_ast(Span<const SyntaxTreeEntry> files, StringTable& strings, Diagno
     mod->id(state.next_node_id());
 
     for (auto& entry : files) {
-        auto file = build_file_ast(entry.id, entry.tree, state);
-        mod->files().append(std::move(file));
+        if (auto file = build_file_ast(entry.id, entry.tree, state))
+            mod->files().append(std::move(file));
     }
     return mod;
 }
@@ -1202,10 +1202,13 @@ void AstBuilder::gather_import_path(std::vector<InternedString>& path, SyntaxNod
 }
 
 SyntaxNodeId AstBuilder::get_syntax_node() {
+    // Trees that could not be parsed at all (e.g. because of invalid utf8) only contain errors.
+    auto root_id = tree_.root_id();
+    if (!root_id)
+        return {};
+
     // Visit the root node and emit errors.
     // The root node contains errors that could not be attached to any open syntax node during parsing.
-    auto root_id = tree_.root_id();
-    TIRO_DEBUG_ASSERT(root_id, "Syntax tree does not have a root.");
 
     auto node = read_checked<SyntaxType::Root>(root_id);
     if (!node)
-- 
2.43.0


From bece3f30318760c62559e66aee815aa09adb384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:14 +0000
Subject: [PATCH 40/40] fix: the parser makes progress on unexpected string
 blocks within a block

---
 src/compiler/syntax/grammar/expr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/grammar/expr.cpp b/src/compiler/syntax/grammar/expr.cpp
index 23ec2d3..8cd24da 100644
--- a/src/compiler/syntax/grammar/expr.cpp
+++ b/src/compiler/syntax/grammar/expr.cpp
@@ -287,10 +287,16 @@ CompletedMarker parse_block_expr_unchecked(Parser& p, [[maybe_unused]] const Tok
 
     auto m = p.start();
     p.advance();
-    while (!p.at_any({TokenType::Eof, TokenType::RightBrace})) {
+    while (!p.at_any({TokenType::Eof, TokenType::RightBrace, TokenType::StringBlockEnd})) {
         if (p.accept(TokenType::Semicolon))
             continue;
 
+        // Error recovery does not skip nested blocks.
+        if (p.at(TokenType::StringBlockStart)) {
+            discard_nested(p);
+            continue;
+        }
+
         parse_stmt(p, STMT_FIRST.union_with(TokenType::RightBrace));
     }
     p.expect(TokenType::RightBrace);
-- 
2.43.0

