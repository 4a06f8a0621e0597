From 1481da08ce41410ad60a8e00a3935501700f37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 01/31] fix: check for a null value in tiro_boolean_value

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..b95aee7 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 35d669b061b500a03ea74a71124aa9590a39385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 02/31] fix: do not call a null cleanup function in
 tiro_coroutine_set_callback

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index b95aee7..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 8c55e6570e61d6642edb07ef7ca909555bc3e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 03/31] fix: accept tuples and reject other values as arguments
 of tiro_resumable_frame_invoke

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 2e87dd0d2672366a4150e12f76078c95e6a698eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 04/31] fix: do not free the callback of a coroutine twice when
 registering it fails

---
 include/tiropp/objects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 62923ac..5b7e5c7 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -810,9 +810,9 @@ public:
             in_place_t(), std::forward<Callback>(on_complete));
 
         detail::check_handles(raw_vm(), *this);
+        // The api always takes ownership of the wrapper, it will be cleaned up on errors as well.
         tiro_coroutine_set_callback(raw_vm(), raw_handle(), &wrapper_type::invoke,
-            &wrapper_type::cleanup, wrapper.get(), error_adapter());
-        wrapper.release();
+            &wrapper_type::cleanup, wrapper.release(), error_adapter());
     }
 
     /// Starts this coroutine's execution.
-- 
2.43.0


From 556234a421811ba1bf22c2bc71998b5fd3310fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 05/31] fix: do not let exceptions from print_stdout callbacks
 cross the c interface

---
 include/tiropp/vm.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/tiropp/vm.hpp b/include/tiropp/vm.hpp
index 0431c18..216f978 100644
--- a/include/tiropp/vm.hpp
+++ b/include/tiropp/vm.hpp
@@ -11,6 +11,7 @@
 #include "tiro/vm.h"
 
 #include <any>
+#include <exception>
 #include <optional>
 
 namespace tiro {
@@ -110,9 +111,14 @@ private:
 
         if (settings_.print_stdout) {
             raw_settings.print_stdout = [](tiro_string_t message, void* userdata) {
-                // FIXME handle exceptions?
-                tiro::vm& self = *static_cast<tiro::vm*>(userdata);
-                self.settings_.print_stdout(detail::from_raw(message));
+                try {
+                    tiro::vm& self = *static_cast<tiro::vm*>(userdata);
+                    self.settings_.print_stdout(detail::from_raw(message));
+                } catch (...) {
+                    // Cannot throw across c call boundary.
+                    // TODO: Implement exception mechanism
+                    std::terminate();
+                }
             };
         }
 
-- 
2.43.0


From bb8c35ae968c871f7bedeace89291718682280af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 06/31] fix: detect overflow in unary minus for the smallest
 integer only

---
 src/vm/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..8d5be38 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -5,6 +5,8 @@
 #include "vm/objects/primitives.hpp"
 #include "vm/type_system.hpp"
 
+#include <limits>
+
 namespace tiro::vm {
 
 namespace {
@@ -181,7 +183,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From 01d08f3c7be4fbdae9a72e0fc67d8aad97f28b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 07/31] fix: run all finalizers before memory is released on
 heap destruction

---
 src/vm/heap/heap.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..d5ad2ea 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -187,16 +187,18 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Finalizers may visit other objects (e.g. types), all memory must stay valid until they are done.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From 0a20e4457efad2597557d58d74892987b362217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 08/31] fix: refuse allocation requests that cannot be
 represented as a number of cells

---
 src/vm/heap/heap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index d5ad2ea..768b9ff 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -215,7 +216,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
-    const u32 cells_request = ceil_div(bytes_request, cell_size);
+    const size_t cells_total = ceil_div(bytes_request, cell_size);
+    if (TIRO_UNLIKELY(cells_total > std::numeric_limits<u32>::max()))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation request is too large");
+
+    const u32 cells_request = static_cast<u32>(cells_total);
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
-- 
2.43.0


From 4bc081bb7ab93f3197f0ee88beb64bc6c14534c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 09/31] fix: do not account for memory that could not be
 allocated

---
 src/vm/heap/heap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 768b9ff..8293d1c 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -305,11 +305,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
     void* result = alloc_.allocate_aligned(size, align);
     if (TIRO_UNLIKELY(!result))
         TIRO_ERROR("failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From c1ad1999c351894e4002fa2bc76129bb46635754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 10/31] fix: shift all displaced index slots back when a hash
 table entry is removed

---
 src/vm/objects/hash_table.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..c07dbb9 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,9 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From 52cefbe1df485be4a5b2bfe7854dc901efd86fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 11/31] fix: keep hash tables unchanged when growing them fails

---
 src/vm/objects/hash_table.cpp | 23 ++++++++++++++++-------
 src/vm/objects/hash_table.hpp |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index c07dbb9..ec83514 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -557,9 +557,14 @@ void HashTable::init_first(Layout* data, Context& ctx) {
     using InitialSizeClass = SizeClassTraits<SizeClass::U8>;
 
     TIRO_TABLE_TRACE("Initializing hash table to initial capacity");
-    set_entries(data, HashTableStorage::make(ctx, initial_table_capacity));
-    set_index(data, InitialSizeClass::BufferAccess::make(
-                        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+
+    // Allocate both arrays before the table is modified: allocations may fail.
+    Scope sc(ctx);
+    Local entries = sc.local(HashTableStorage::make(ctx, initial_table_capacity));
+    Local index = sc.local(InitialSizeClass::BufferAccess::make(
+        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    set_entries(data, *entries);
+    set_index(data, *index);
     data->static_payload()->size = 0;
     data->static_payload()->mask = initial_index_capacity - 1;
 }
@@ -605,12 +610,16 @@ void HashTable::grow_to_capacity(
                 new_entries->append(entry);
         }
     }
-    set_entries(data, *new_entries);
 
     // TODO: make rehashing cheaper by reusing the old index table...
     const SizeClass next_size_class = index_size_class(new_entry_capacity);
     dispatch_size_class(next_size_class, [&](auto traits) {
-        this->template recreate_index<decltype(traits)>(data, ctx, new_index_capacity);
+        // Allocate before the table is modified: the allocation may fail.
+        using Traits = decltype(traits);
+        Local new_index = sc.local(
+            Traits::BufferAccess::make(ctx, new_index_capacity, Traits::empty_value));
+        set_entries(data, *new_entries);
+        this->template recreate_index<Traits>(data, *new_index, new_index_capacity);
     });
 }
 
@@ -653,13 +662,13 @@ void HashTable::compact(Layout* data) {
 }
 
 template<typename ST>
-void HashTable::recreate_index(Layout* data, Context& ctx, size_t capacity) {
+void HashTable::recreate_index(Layout* data, Buffer index, size_t capacity) {
     TIRO_DEBUG_ASSERT(
         size() == occupied_entries(), "Entries array must not have any deleted elements.");
     TIRO_DEBUG_ASSERT(is_pow2(capacity), "New index capacity must be a power of two.");
 
     // TODO rehashing can be made faster, see rust index map at https://github.com/bluss/indexmap
-    set_index(data, ST::BufferAccess::make(ctx, capacity, ST::empty_value));
+    set_index(data, index);
     data->static_payload()->mask = capacity - 1;
     rehash_index<ST>(data);
 }
diff --git a/src/vm/objects/hash_table.hpp b/src/vm/objects/hash_table.hpp
index 3071da2..88f08de 100644
--- a/src/vm/objects/hash_table.hpp
+++ b/src/vm/objects/hash_table.hpp
@@ -300,7 +300,7 @@ private:
     // Creates a new index table from an existing entries array.
     // This could be optimized further by using the old index table (?).
     template<typename ST>
-    void recreate_index(Layout* data, Context& ctx, size_t capacity);
+    void recreate_index(Layout* data, Buffer index, size_t capacity);
 
     // Creates the index from scratch using the existing index array.
     // The index array should have been cleared (if reused) or initialized
-- 
2.43.0


From bb6e34b003f68390c9404b5f313d14adb891b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 12/31] fix: do not convert floats outside the integer range
 when comparing floats and integers

---
 src/compiler/ir_gen/const_eval.cpp | 4 ++++
 src/vm/objects/value.cpp           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..e221e93 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -106,6 +106,10 @@ static bool i64_f64_equal(i64 lhs, f64 rhs) {
     if (!std::isfinite(rhs))
         return false;
 
+    // Values outside the range of i64 cannot be converted.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
+        return false;
+
     // Check whether converting the float to int and back preserves the value.
     // If that is the case, the two integers can be equal.
     i64 rhs_int = rhs;
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..9ec7ad4 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -206,6 +206,10 @@ static bool int_float_equal(i64 lhs, f64 rhs) {
     if (!std::isfinite(rhs))
         return false;
 
+    // Values outside the range of i64 cannot be converted.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
+        return false;
+
     // Check whether converting the float to int and back preserves the value.
     // If that is the case, the two integers can be equal.
     i64 rhs_int = rhs;
-- 
2.43.0


From 89757dcb006571bcacc3d6bcca97a8b506392d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 13/31] fix: floats that are equal to integers have the same
 hash

---
 src/vm/hash.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/hash.cpp b/src/vm/hash.cpp
index cbd3fba..d6cfadd 100644
--- a/src/vm/hash.cpp
+++ b/src/vm/hash.cpp
@@ -65,6 +65,13 @@ size_t float_hash(f64 data) {
     if (std::isnan(data))
         return fnv1a(raw_span(canonic_nan));
 
+    // Floats with integral values are equal to the respective integers, they must have the same hash.
+    if (data >= -0x1p63 && data < 0x1p63) {
+        const i64 integer = static_cast<i64>(data);
+        if (static_cast<f64>(integer) == data)
+            return integer_hash(static_cast<u64>(integer));
+    }
+
     return fnv1a(raw_span(data));
 }
 
-- 
2.43.0


From 8470b36000ed935d989a121246637a4d2597f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 14/31] fix: saturate when converting large floats to integers

---
 src/vm/objects/primitives.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/primitives.cpp b/src/vm/objects/primitives.cpp
index 47786dd..3cde56d 100644
--- a/src/vm/objects/primitives.cpp
+++ b/src/vm/objects/primitives.cpp
@@ -3,6 +3,8 @@
 #include "vm/context.hpp"
 #include "vm/object_support/factory.hpp"
 
+#include <limits>
+
 namespace tiro::vm {
 
 Undefined Undefined::make(Context& ctx) {
@@ -99,7 +101,21 @@ f64 Number::convert_float() {
 }
 
 i64 Number::convert_int() {
-    return visit([](auto&& v) { return static_cast<i64>(v.value()); });
+    struct Visitor {
+        i64 operator()(Integer i) { return i.value(); }
+        i64 operator()(Float f) {
+            // Casting a value outside the range of i64 is undefined behavior.
+            const f64 value = f.value();
+            if (value != value)
+                return 0;
+            if (value < -0x1p63)
+                return std::numeric_limits<i64>::min();
+            if (value >= 0x1p63)
+                return std::numeric_limits<i64>::max();
+            return static_cast<i64>(value);
+        }
+    };
+    return visit(Visitor());
 }
 
 std::optional<i64> Number::try_extract_int() {
-- 
2.43.0


From 8a17cd46fef6b428b8bba33b9feea8baf7c60bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 15/31] fix: additional arguments to catch_panic are ignored

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..826a85a 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1087,7 +1087,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From be832aaaccd70291a325e271595b5e4e4515febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 16/31] fix: check for missing environments before they are
 used when storing captured variables

---
 src/vm/interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 826a85a..3d5647d 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -426,17 +426,17 @@ void BytecodeInterpreter::run() {
             if (level != 0)
                 current_env.set(current_env->value().parent(level));
 
+            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
+                return unwind(TIRO_FORMAT_EXCEPTION(
+                    ctx_, "too many levels requested from closure environment: {}", level));
+            }
+
             if (TIRO_UNLIKELY(index >= current_env->value().size())) { // Codegen error
                 return unwind(TIRO_FORMAT_EXCEPTION(ctx_,
                     "environment index {} is too large for environment of size {}", index,
                     current_env->value().size()));
             }
 
-            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
-                return unwind(TIRO_FORMAT_EXCEPTION(
-                    ctx_, "too many levels requested from closure environment: {}", level));
-            }
-
             current_env->value().set(index, *source);
             break;
         }
-- 
2.43.0


From 6b21d801a9e7642a4310d18b87c15c55413d721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 17/31] fix: only link imported modules once they have been
 initialized

---
 src/vm/modules/registry.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..06aa80a 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -162,14 +162,15 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                         TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
                             "module '{}' was not found", imported_name->view());
                     }
-                    current_members->unchecked_set(i, *imported_module);
-                    ++i;
-
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
-                    // the `frame` is invalidated!
+                    // the `frame` is invalidated! The member is visited again once the
+                    // imported module has been initialized.
                     if (recurse(imported_module)) {
                         goto next;
                     }
+
+                    current_members->unchecked_set(i, *imported_module);
+                    ++i;
                 }
             }
             frame.state_ = Init;
-- 
2.43.0


From 3d3aa2985880114f4b21d8c1f30cbdb154e2d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 18/31] fix: do not read the current character at the end of
 the input when lexing operators

---
 src/compiler/syntax/lexer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..258746c 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -221,7 +221,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +231,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +239,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +247,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +291,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +299,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (ahead(0).value_or(invalid_code_point)) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From be7f848f31230780bfcab1d4d88e7d36a850fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 19/31] fix: do not skip the token following an unmatched brace

---
 src/compiler/syntax/grammar/item.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/syntax/grammar/item.cpp b/src/compiler/syntax/grammar/item.cpp
index 92ed526..044bd3f 100644
--- a/src/compiler/syntax/grammar/item.cpp
+++ b/src/compiler/syntax/grammar/item.cpp
@@ -68,7 +68,7 @@ void parse_file(Parser& p) {
         if (p.accept(TokenType::Semicolon))
             continue;
 
-        if (auto brace = p.accept_any(CLOSING_BRACES)) {
+        if (p.at_any(CLOSING_BRACES)) {
             auto err = p.start();
             p.advance();
             p.error("unmatched brace");
-- 
2.43.0


From 005f2052bd63d41d46d757b179ccb9b8b5a33c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 20/31] fix: match the closing token of nested blocks when
 discarding invalid input

---
 src/compiler/syntax/grammar/errors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/syntax/grammar/errors.cpp b/src/compiler/syntax/grammar/errors.cpp
index 45885c9..cdc7965 100644
--- a/src/compiler/syntax/grammar/errors.cpp
+++ b/src/compiler/syntax/grammar/errors.cpp
@@ -16,7 +16,7 @@ const TokenSet NESTING_START = {
 };
 
 const TokenSet NESTING_END = {
-    TokenType::LeftBrace,
+    TokenType::RightBrace,
     TokenType::StringBlockEnd,
     TokenType::StringEnd,
 };
@@ -55,7 +55,7 @@ static void discard_block_impl(Parser& p) {
 
     while (!p.at(TokenType::Eof) && !stack.empty()) {
         if (auto nested = p.accept_any(NESTING_START)) {
-            stack.push_back(*nested);
+            stack.push_back(closing_token(*nested));
             continue;
         }
 
-- 
2.43.0


From dcda348ac5fb2be6e6c7d38b1e0b0d1b6470f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 21/31] fix: verify the index registers of LoadIndex and
 StoreIndex instructions

---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 2395ee76d1dc32852522014e3b8712a6963a2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 22/31] fix: keep constant operations that fail at run time

---
 .../ir_passes/dead_code_elimination.cpp       | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..2683db9 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -34,10 +34,8 @@ static bool has_side_effects(const LValue& value) {
 ///
 /// TODO: The implementation is very conservative regarding unary and binary operators,
 /// they can probably be optimized in some situations.
-static bool has_side_effects(const Value& value, const Function& func) {
+static bool has_side_effects(const Value& value) {
     struct Visitor {
-        const Function& func;
-
         bool visit_read(const Value::Read& r) { return has_side_effects(r.target); }
 
         bool visit_write(const Value::Write&) { return true; }
@@ -55,17 +53,10 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operations on constants that cannot fail have already been replaced by their result.
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
@@ -105,7 +96,7 @@ static bool has_side_effects(const Value& value, const Function& func) {
         bool visit_nop(const Value::Nop&) { return false; }
     };
 
-    return value.visit(Visitor{func});
+    return value.visit(Visitor{});
 }
 
 void eliminate_dead_code(Function& func) {
@@ -127,7 +118,7 @@ void eliminate_dead_code(Function& func) {
 
         for (const auto& inst_id : block.insts()) {
             const auto& inst = func[inst_id];
-            if (has_side_effects(inst.value(), func))
+            if (has_side_effects(inst.value()))
                 visit(inst_id);
         }
 
-- 
2.43.0


From 5f45e1b84fdb4ce253028563298971f1489bb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 23/31] fix: constants 0.0 and -0.0 are no longer merged

Negative zero compares equal to positive zero, value numbering within a
block and the deduplication of module members therefore replaced one by
the other: 1 / -0.0 was evaluated as 1 / 0.0.
---
 src/compiler/bytecode_gen/object.cpp  | 9 ++++++++-
 src/compiler/ir_gen/compile_value.cpp | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bytecode_gen/object.cpp b/src/compiler/bytecode_gen/object.cpp
index 4ccaf0f..d7c87dc 100644
--- a/src/compiler/bytecode_gen/object.cpp
+++ b/src/compiler/bytecode_gen/object.cpp
@@ -1,5 +1,7 @@
 #include "compiler/bytecode_gen/object.hpp"
 
+#include <cmath>
+
 namespace tiro {
 
 /* [[[cog
@@ -112,7 +114,12 @@ BytecodeMemberId LinkObject::use_integer(i64 value) {
 }
 
 BytecodeMemberId LinkObject::use_float(f64 value) {
-    return add_member(LinkItem::make_definition({}, BytecodeMember::make_float(value)));
+    auto item = LinkItem::make_definition({}, BytecodeMember::make_float(value));
+
+    // Negative zero compares equal to positive zero, but the two must not share a member.
+    if (value == 0 && std::signbit(value))
+        return items_.push_back(item);
+    return add_member(item);
 }
 
 BytecodeMemberId LinkObject::use_string(InternedString value) {
diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..d0c72af 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -158,6 +159,13 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // Negative zero compares equal to positive zero, but the two must not share an instruction.
+    if (constant.type() == ConstantType::Float) {
+        const f64 value = constant.as_float().value;
+        if (value == 0 && std::signbit(value))
+            return define_new(constant);
+    }
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
-- 
2.43.0


From b47a74698632646c5e2b03f77fc563b382525aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 24/31] fix: -1 raised to an even negative power is 1

---
 src/compiler/ir_gen/const_eval.cpp | 7 +++++--
 src/vm/math.cpp                    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index e221e93..da101f8 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -232,8 +232,11 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
     constexpr auto intop = [](i64 a, i64 b) -> EvalResult {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
-        if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+        if (b < 0) {
+            if (a == -1)
+                return make_int(b & 1 ? -1 : 1);
+            return make_int(a == 1 ? 1 : 0);
+        }
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 8d5be38..dcd6bd3 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -85,8 +85,11 @@ struct pow_op {
         if (TIRO_UNLIKELY(a == 0 && b < 0))
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
-        if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+        if (b < 0) {
+            if (a == -1)
+                return i64(b & 1 ? -1 : 1);
+            return i64(a == 1 ? 1 : 0);
+        }
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From 8612b00ac3ab8c4303a2c7fbe002a6a95e744c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 25/31] fix: heap refuses requests near the maximum of size_t
 instead of wrapping around

---
 src/vm/heap/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 8293d1c..76baa50 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -216,11 +216,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
-    const size_t cells_total = ceil_div(bytes_request, cell_size);
-    if (TIRO_UNLIKELY(cells_total > std::numeric_limits<u32>::max()))
+    constexpr size_t max_bytes = size_t(std::numeric_limits<u32>::max()) * cell_size;
+    if (TIRO_UNLIKELY(bytes_request > max_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation request is too large");
 
-    const u32 cells_request = static_cast<u32>(cells_total);
+    const u32 cells_request = static_cast<u32>(ceil_div(bytes_request, cell_size));
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
-- 
2.43.0


From 2bb4051b475f3a535d8151e1d6f1dc906a8741a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 26/31] fix: break and continue inside of a nested function do
 not see loops outside of it

---
 src/compiler/semantics/structure_check.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..cfb9e43 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -115,6 +115,9 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+
+    // Loops outside the function are not visible from its body.
+    auto reset_loop = replace_value(current_loop_, static_cast<AstNode*>(nullptr));
     visit_decl(decl);
 }
 
-- 
2.43.0


From 28f742a2d6a88221501c25933c1f1add397a90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 27/31] fix: std.dispatch and std.yield_coroutine keep their
 frame while the coroutine is suspended

---
 src/vm/builtins/std.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vm/builtins/std.cpp b/src/vm/builtins/std.cpp
index 73edde5..f8760a6 100644
--- a/src/vm/builtins/std.cpp
+++ b/src/vm/builtins/std.cpp
@@ -150,12 +150,15 @@ static void std_coroutine_token(SyncFrameContext& frame) {
     frame.return_value(Coroutine::create_token(ctx, frame.coro()));
 }
 
-static void std_yield_coroutine(SyncFrameContext& frame) {
-    frame.coro()->state(CoroutineState::Waiting);
+// Note: the frame must remain on the stack while the coroutine is suspended, otherwise a coroutine
+// whose outermost function is one of these functions would complete while it is still suspended.
+static void std_yield_coroutine(ResumableFrameContext& frame) {
+    frame.yield(ResumableFrameContext::END);
 }
 
-static void std_dispatch(SyncFrameContext& frame) {
+static void std_dispatch(ResumableFrameContext& frame) {
     Coroutine::schedule(frame.ctx(), frame.coro());
+    frame.set_state(ResumableFrameContext::END);
 }
 
 static void std_panic(SyncFrameContext& frame) {
-- 
2.43.0


From c3b39f7ef0ed263cc650aa1d5f8c48e15219ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 28/31] fix: keep the exception handler active after a
 conditional jump out of a scope with deferred expressions

---
 src/compiler/ir_gen/func.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..9ff2fb5 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -79,6 +79,13 @@ FunctionIRGen::RegionGuard::RegionGuard(FunctionIRGen* func, RegionId new_id, Re
 FunctionIRGen::RegionGuard::~RegionGuard() {
     TIRO_DEBUG_ASSERT(func_->active_regions_.back_key() == new_id_,
         "The region to be removed must be at the top of the stack.");
+
+    // The scope may have been left without generating the normal scope exit code (e.g. because of a return),
+    // its exception handlers are not active in the code that follows.
+    auto region = func_->active_regions_.ptr_to(new_id_);
+    if (region->type() == RegionType::Scope)
+        func_->current_handler(region->as_scope().original_handler);
+
     func_->active_regions_.pop_back();
     // restore_old_id_ destructor does its thing.
 }
@@ -395,6 +402,9 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // The jump leaves the scopes, but the code that follows (on other paths) is still inside of them.
+    ScopeSuccess restore_handler = [&, handler = current_handler()] { current_handler(handler); };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From 0a70f5dae7254c777af1c2832a7af4c5c261ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 29/31] fix: a source file with invalid utf8 is reported as a
 source error

---
 src/compiler/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..3715d17 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -141,6 +141,7 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
         SyntaxTree tree(source);
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
+        tree.root_id(tree.make(SyntaxNode(SyntaxType::Root, SourceRange(0, 0), true, {})));
         return tree;
     }
 
-- 
2.43.0


From f5a0b3abec585c97c9b2a3e4fdb4dc9c0eb19650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:38 +0000
Subject: [PATCH 30/31] fix: a method that is called on an object of a
 different type raises a panic

---
 src/vm/objects/array.cpp      |  6 +++---
 src/vm/objects/buffer.cpp     |  3 ++-
 src/vm/objects/class.cpp      |  3 ++-
 src/vm/objects/coroutine.cpp  |  9 +++++----
 src/vm/objects/exception.cpp  |  4 ++--
 src/vm/objects/hash_table.cpp | 12 ++++++------
 src/vm/objects/native.hpp     |  4 ++--
 src/vm/objects/result.cpp     | 11 ++++++-----
 src/vm/objects/set.cpp        | 10 +++++-----
 src/vm/objects/string.cpp     | 34 +++++++++++++++++-----------------
 src/vm/objects/tuple.cpp      |  3 ++-
 11 files changed, 52 insertions(+), 47 deletions(-)

diff --git a/src/vm/objects/array.cpp b/src/vm/objects/array.cpp
index 9c1f21f..3f71341 100644
--- a/src/vm/objects/array.cpp
+++ b/src/vm/objects/array.cpp
@@ -153,18 +153,18 @@ std::optional<Value> ArrayIterator::next() {
 }
 
 static void array_size_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(array->size())));
 }
 
 static void array_append_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     auto value = frame.arg(1);
     TIRO_FRAME_TRY_VOID(array->append(frame.ctx(), value));
 }
 
 static void array_clear_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     array->clear();
 }
 
diff --git a/src/vm/objects/buffer.cpp b/src/vm/objects/buffer.cpp
index d93c0b2..305bc25 100644
--- a/src/vm/objects/buffer.cpp
+++ b/src/vm/objects/buffer.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/buffer.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -56,7 +57,7 @@ Buffer Buffer::make_impl(Context& ctx, size_t total_size, Init&& init) {
 }
 
 static void buffer_size_impl(SyncFrameContext& frame) {
-    auto buffer = check_instance<Buffer>(frame);
+    TIRO_FRAME_TRY(buffer, check_instance<Buffer>(frame));
     i64 size = static_cast<i64>(buffer->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
diff --git a/src/vm/objects/class.cpp b/src/vm/objects/class.cpp
index 90aefd5..8f18d8b 100644
--- a/src/vm/objects/class.cpp
+++ b/src/vm/objects/class.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/class.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/handles/scope.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
@@ -67,7 +68,7 @@ std::optional<Value> Type::find_member(Handle<Symbol> name) {
 }
 
 static void class_name_impl(SyncFrameContext& frame) {
-    auto type = check_instance<Type>(frame);
+    TIRO_FRAME_TRY(type, check_instance<Type>(frame));
     frame.return_value(type->name());
 }
 
diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 9cb66de..53e65d3 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/coroutine.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/result.hpp"
@@ -164,7 +165,7 @@ bool CoroutineToken::resume(Context& ctx, Handle<CoroutineToken> token) {
 }
 
 static void coroutine_name_impl(SyncFrameContext& frame) {
-    auto coroutine = check_instance<Coroutine>(frame);
+    TIRO_FRAME_TRY(coroutine, check_instance<Coroutine>(frame));
     frame.return_value(coroutine->name());
 }
 
@@ -175,17 +176,17 @@ static const FunctionDesc coroutine_methods[] = {
 const TypeDesc coroutine_type_desc{"Coroutine"sv, coroutine_methods};
 
 static void coroutine_token_coroutine_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(token->coroutine());
 }
 
 static void coroutine_token_valid_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(frame.ctx().get_boolean(token->valid()));
 }
 
 static void coroutine_token_resume_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     bool success = CoroutineToken::resume(frame.ctx(), token);
     frame.return_value(frame.ctx().get_boolean(success));
 }
diff --git a/src/vm/objects/exception.cpp b/src/vm/objects/exception.cpp
index ffaa399..3a46647 100644
--- a/src/vm/objects/exception.cpp
+++ b/src/vm/objects/exception.cpp
@@ -99,12 +99,12 @@ Exception vformat_exception_impl(Context& ctx, std::string_view format, fmt::for
 }
 
 static void exception_message_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->message());
 }
 
 static void exception_trace_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->trace());
 }
 
diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index ec83514..07983a7 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -878,34 +878,34 @@ Value HashTableValueIterator::return_value(
 }
 
 static void hash_table_size_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     i64 size = static_cast<i64>(table->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void hash_table_contains_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     bool result = table->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void hash_table_keys_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableKeyView::make(frame.ctx(), table));
 }
 
 static void hash_table_values_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableValueView::make(frame.ctx(), table));
 }
 
 static void hash_table_clear_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->clear();
 }
 
 static void hash_table_remove_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..ff722b4 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -517,12 +517,12 @@ private:
 };
 
 template<typename T>
-Handle<T> check_instance(SyncFrameContext& frame) {
+Fallible<Handle<T>> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    return TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", to_string(TypeToTag<T>));
 }
 
 class NativeObject final : public HeapValue {
diff --git a/src/vm/objects/result.cpp b/src/vm/objects/result.cpp
index 5e2c7af..d278ddf 100644
--- a/src/vm/objects/result.cpp
+++ b/src/vm/objects/result.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/result.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -67,7 +68,7 @@ Integer Result::get_which() {
 }
 
 static void result_type_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     switch (result->which()) {
     case Result::Success:
         frame.return_value(frame.ctx().get_symbol("success"));
@@ -79,17 +80,17 @@ static void result_type_impl(SyncFrameContext& frame) {
 }
 
 static void result_is_success_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_success()));
 }
 
 static void result_is_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_error()));
 }
 
 static void result_value_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_success()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access value on failure result"));
@@ -98,7 +99,7 @@ static void result_value_impl(SyncFrameContext& frame) {
 }
 
 static void result_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_error()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access reason on successful result"));
diff --git a/src/vm/objects/set.cpp b/src/vm/objects/set.cpp
index 44f5c2a..4667fc6 100644
--- a/src/vm/objects/set.cpp
+++ b/src/vm/objects/set.cpp
@@ -78,30 +78,30 @@ std::optional<Value> SetIterator::next(Context& ctx) {
 }
 
 static void set_size_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     i64 size = static_cast<i64>(set->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void set_contains_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     bool result = set->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void set_clear_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->clear();
 }
 
 static void set_insert_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     TIRO_FRAME_TRY(inserted, set->insert(frame.ctx(), frame.arg(1)));
     frame.return_value(frame.ctx().get_boolean(inserted));
 }
 
 static void set_remove_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/string.cpp b/src/vm/objects/string.cpp
index 698946a..2b93c7e 100644
--- a/src/vm/objects/string.cpp
+++ b/src/vm/objects/string.cpp
@@ -421,34 +421,34 @@ StringLike::Which StringLike::which() {
 
 static void string_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "String.contains", "str", frame.arg(1)));
     bool found = str_contains(string->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_size_impl(SyncFrameContext& frame) {
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     frame.return_value(frame.ctx().get_integer(string->size()));
 }
 
 static void string_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_first", "offset", frame.arg(1)));
     frame.return_value(string->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_last", "offset", frame.arg(1)));
     frame.return_value(string->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "String.slice", "size", frame.arg(2)));
     frame.return_value(string->slice(frame.ctx(), offset, size));
@@ -466,41 +466,41 @@ constexpr TypeDesc string_type_desc{"String"sv, string_methods};
 
 static void string_slice_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringSlice.contains", "str", frame.arg(1)));
     bool found = str_contains(slice->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_slice_size_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(frame.ctx().get_integer(slice->size()));
 }
 
 static void string_slice_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_first", "offset", frame.arg(1)));
     frame.return_value(slice->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_last", "offset", frame.arg(1)));
     frame.return_value(slice->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "StringSlice.slice", "size", frame.arg(2)));
     frame.return_value(slice->slice(frame.ctx(), offset, size));
 }
 
 static void string_slice_to_string_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(slice->to_string(frame.ctx()));
 }
 
@@ -516,7 +516,7 @@ static constexpr FunctionDesc string_slice_methods[] = {
 constexpr TypeDesc string_slice_type_desc{"StringSlice"sv, string_slice_methods};
 
 static void string_builder_append_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     for (size_t i = 1; i < frame.arg_count(); ++i) {
         Handle<Value> arg = frame.arg(i);
         to_string(frame.ctx(), builder, arg);
@@ -525,7 +525,7 @@ static void string_builder_append_impl(SyncFrameContext& frame) {
 
 static void string_builder_append_byte_impl(SyncFrameContext& frame) {
     Context& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     Handle arg = frame.arg(1);
 
     byte b;
@@ -540,26 +540,26 @@ static void string_builder_append_byte_impl(SyncFrameContext& frame) {
 }
 
 static void string_builder_clear_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     builder->clear();
 }
 
 static void string_builder_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringBuilder.contains", "str", frame.arg(1)));
     bool found = str_contains(builder->view(), needle->view());
     frame.return_value(frame.ctx().get_boolean(found));
 }
 
 static void string_builder_size_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     size_t size = static_cast<size_t>(builder->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void string_builder_to_string_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     frame.return_value(builder->to_string(frame.ctx()));
 }
 
diff --git a/src/vm/objects/tuple.cpp b/src/vm/objects/tuple.cpp
index fd68032..a5afb95 100644
--- a/src/vm/objects/tuple.cpp
+++ b/src/vm/objects/tuple.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/tuple.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 
@@ -98,7 +99,7 @@ std::optional<Value> TupleIterator::next() {
 }
 
 static void tuple_size_impl(SyncFrameContext& frame) {
-    auto tuple = check_instance<Tuple>(frame);
+    TIRO_FRAME_TRY(tuple, check_instance<Tuple>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(tuple->size())));
 }
 
-- 
2.43.0


From 6174744e1e480b2848c7da9d73d6403c569b1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:24 +0000
Subject: [PATCH 31/31] fix: buffer::is_pinned() checks its handle like all
 other operations

---
 include/tiropp/objects.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 5b7e5c7..216c0ec 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -478,7 +478,10 @@ public:
     /// Returns `true` if this buffer is pinned in memory.
     /// Pinned buffers will not move, i.e. the pointer returned by `data()` will remain
     /// valid for as long as the buffer exists.
-    bool is_pinned() const { return tiro_buffer_is_pinned(raw_vm(), raw_handle()); }
+    bool is_pinned() const {
+        detail::check_handles(raw_vm(), *this);
+        return tiro_buffer_is_pinned(raw_vm(), raw_handle());
+    }
 
     /// Returns a pointer to the bytes managed by this buffer.
     ///
-- 
2.43.0

