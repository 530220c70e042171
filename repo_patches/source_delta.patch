From 29b0959de019448c0e99c8688657e41536bf9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 001/100] fix: XXH3-128 forms no out-of-range secret pointer
 for 226..240 byte inputs

kSecret + kStartOffset + i - 160 passes beyond the end of the 192 byte secret
before it is brought back, which is undefined behaviour and makes
xxh3::GetHash128 unusable in constant evaluation for those lengths.
---
 mbo/hash/hash_xxh3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/hash/hash_xxh3.h b/mbo/hash/hash_xxh3.h
index 6b6ff4f..b020b3d 100644
--- a/mbo/hash/hash_xxh3.h
+++ b/mbo/hash/hash_xxh3.h
@@ -370,7 +370,7 @@ constexpr Hash128 Len129To240_128(const char* input, std::size_t len, uint64_t s
   acc.h1 = Avalanche(acc.h1);
   acc.h2 = Avalanche(acc.h2);
   for (std::size_t i = 160; i <= len; i += 32) {
-    acc = Mix32B(acc, input + i - 32, input + i - 16, kSecret + kStartOffset + i - 160, seed);
+    acc = Mix32B(acc, input + i - 32, input + i - 16, kSecret + (kStartOffset + i - 160), seed);
   }
   acc = Mix32B(acc, input + len - 16, input + len - 32, kSecret + kSecretSizeMin - kLastOffset - 16, 0ULL - seed);
   return Finalize128(acc, len, seed);
-- 
2.43.0


From 73f9edeaf4a89551288f52d9dee2dcd58a3e41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 002/100] fix: digest tool reports files it cannot read instead
 of hashing what it got

---
 mbo/digest/digest_main.cc | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..002c7b8 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,26 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns `nullopt` if the
+// stream could not be read completely (e.g. an I/O error or a directory).
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -211,7 +215,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
+    if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +225,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -240,6 +245,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
       CheckStream(algorithm, std::cin, stats);
+      if (std::cin.bad()) {
+        std::cerr << file_name << ": Cannot read checksum file.\n";
+        return 1;
+      }
       continue;
     }
     std::ifstream sums{fs::path(file_name), std::ios::binary};
@@ -248,6 +257,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       return 1;
     }
     CheckStream(algorithm, sums, stats);
+    if (sums.bad()) {
+      std::cerr << file_name << ": Cannot read checksum file.\n";
+      return 1;
+    }
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -272,9 +285,17 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
 // are reported per file and processing continues (like the coreutils tools).
 int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
+  const auto digest_stream = [&](std::istream& input, std::string_view file_name) {
+    if (const std::optional<std::string> hex = digest(input); hex.has_value()) {
+      Print(*hex, file_name);
+    } else {
+      std::cerr << file_name << ": Cannot read file.\n";
+      result = 1;
+    }
+  };
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      digest_stream(std::cin, file_name);
       continue;
     }
     const fs::path path(file_name);
@@ -292,7 +313,7 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    digest_stream(input, file_name);
   }
   return result;
 }
-- 
2.43.0


From a54197a5668559b035bc97577a65e93f875c86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 003/100] fix: OptionalDataOrRef assignment of nullopt returns
 the object

---
 mbo/types/optional_data_or_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..38a5cfb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -123,7 +123,7 @@ class OptionalDataOrRef {
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From fe1e30968160efc20d8133f429ebe80695a3807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 004/100] fix: OptionalDataOrRef destroys the value it was
 moved from and survives self-move

---
 mbo/types/optional_data_or_ref.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 38a5cfb..2d6baeb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,10 +112,12 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
-- 
2.43.0


From 20b5869f0767d772f2e2860779fa79f22cc18f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 005/100] fix: OptionalDataOrRef never binds to a temporary
 conversion result

---
 mbo/types/optional_data_or_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 2d6baeb..d2e957d 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -69,7 +69,7 @@ class OptionalDataOrRef {
   template<typename U = RefT>
   requires(
       !std::is_rvalue_reference_v<U> && !std::same_as<U, OptionalDataOrRef>
-      && (!std::is_const_v<U> || std::is_const_v<RefT>))
+      && std::is_convertible_v<U*, RefT*>)
   constexpr OptionalDataOrRef(U& v) {  // NOLINT(*-explicit-*)
     set_ref(v);
   }
-- 
2.43.0


From 9fb1f7166da75254918c58d4989ae80ce5198e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 006/100] fix: optional references of partially or weakly
 ordered types compare

---
 mbo/types/optional_data_or_ref.h | 4 ++--
 mbo/types/optional_ref.h         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index d2e957d..7c547bb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -255,11 +255,11 @@ class OptionalDataOrRef {
   template<std::three_way_comparable_with<T> U = T, typename RefU = U>
   constexpr auto operator<=>(const OptionalDataOrRef<U, RefU>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != Result::equivalent) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..57850b0 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -123,18 +123,18 @@ class OptionalRef {
   template<std::three_way_comparable_with<T> U = T>
   constexpr auto operator<=>(const OptionalRef<U>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != Result::equivalent) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From deb814b825d2d85251ed042041ab77bfe0aba933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 007/100] fix: Required of class types can be hashed and
 compared to each other

---
 mbo/types/required.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..7d243a0 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -118,10 +118,7 @@ class Required {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const Required<U>& other) const noexcept {
-    if (value_ == other) {
-      return decltype(value_ <=> other)::equivalent;
-    }
-    return value_ <=> other.value_;
+    return value_ <=> other.get();
   }
 
   template<std::three_way_comparable_with<T> U>
@@ -134,7 +131,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From 5112a53c707787b8db57d9be756967ee1bfd466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 008/100] fix: ContainerProxy offers clear, pop_front and const
 front

---
 mbo/types/container_proxy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 1031eb2..5403847 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -103,7 +103,7 @@ struct ContainerProxy : T {
   constexpr auto max_size() const requires(requires(const C& v) { v.max_size(); }) { return Get().max_size(); }
   constexpr auto capacity() const requires(requires(const C& v) { v.capacity(); }) { return Get().capacity(); }
 
-  constexpr void clear() requires(requires(const C& v) { v.clear(); }) { Get().clear(); }
+  constexpr void clear() requires(requires(C& v) { v.clear(); }) { Get().clear(); }
   constexpr void reserve(size_type capacity) requires(requires(C& v) { v.reserve(std::declval<size_type>()); }) { Get().reserve(capacity); }
   constexpr void resize(size_type size) requires(requires(C& v) { v.resize(std::declval<size_type>()); }) { Get().resize(size); }
 
@@ -146,11 +146,11 @@ struct ContainerProxy : T {
 
   constexpr auto& back() const requires(requires(const C& v) { v.back(); }) { return Get().back(); }
   constexpr auto& back() requires(requires(C& v) { v.back(); }) { return Get().back(); }
-  constexpr auto& front() const requires(requires(const T& v) { v.front(); }) { return Get().front(); }
+  constexpr auto& front() const requires(requires(const C& v) { v.front(); }) { return Get().front(); }
   constexpr auto& front() requires(requires(C& v) { v.front(); }) { return Get().front(); }
 
   constexpr void pop_back() requires(requires(C& v) { v.pop_back(); }) { Get().pop_back(); }
-  constexpr void pop_front() requires(requires(C& v) { v.pop_frontk(); }) { Get().pop_front(); }
+  constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
 
   auto operator<=>(const ContainerProxy& other) const
   requires std::three_way_comparable<T>
-- 
2.43.0


From a13aecd993ed5a817d9793edb6b9d528cef4eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 009/100] fix: Required values compare with each other without
 constraint recursion

---
 mbo/types/required.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 7d243a0..784bf20 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -26,6 +26,23 @@
 
 namespace mbo::types {
 
+template<typename T>
+class Required;
+
+namespace types_internal {
+
+template<typename T>
+struct IsRequired : std::false_type {};
+
+template<typename T>
+struct IsRequired<Required<T>> : std::true_type {};
+
+}  // namespace types_internal
+
+// Determine whether a type `T` is a `Required`.
+template<typename T>
+concept IsRequired = types_internal::IsRequired<T>::value;
+
 // Template class `Required<T>` is a wrapper around a type `T`. The value can be
 // replaced without using assign or move-assign operators. Instead the wrapper
 // will call the destructor and then in-place construct the wrapped value using
@@ -121,7 +138,8 @@ class Required {
     return value_ <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!IsRequired<U>) && std::three_way_comparable_with<U, T>
   constexpr auto operator<=>(const U& other) const noexcept {
     if (value_ == other) {
       return decltype(value_ <=> other)::equivalent;
-- 
2.43.0


From 2526887788c52351e96473176ecebe36260f4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 010/100] fix: RefWrap values compare with each other without
 constraint recursion

---
 mbo/types/ref_wrap.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index f902984..7dcd269 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -25,6 +25,23 @@
 
 namespace mbo::types {
 
+template<typename T>
+class RefWrap;
+
+namespace types_internal {
+
+template<typename T>
+struct IsRefWrap : std::false_type {};
+
+template<typename T>
+struct IsRefWrap<RefWrap<T>> : std::true_type {};
+
+}  // namespace types_internal
+
+// Determine whether a type `T` is a `RefWrap`.
+template<typename T>
+concept IsRefWrap = types_internal::IsRefWrap<T>::value;
+
 // Template class `RefWrap<T>` is a reference wrapper for a type `T`. It has
 // similar goals to `std::reference_wrapper` or GSL's `not_null`. However, the
 // wrapper behaves like a pointer that cannot be a nullptr. In details:
@@ -90,7 +107,8 @@ class RefWrap final {
     return *ptr_ <=> *other.ptr_;
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!IsRefWrap<U>) && std::three_way_comparable_with<U, T>
   constexpr auto operator<=>(const U& other) const noexcept {
     if (ptr_ == &other) {
       return decltype(*ptr_ <=> other)::equivalent;
-- 
2.43.0


From ca88995a67591f4bc1b071b21cab246b939f7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 011/100] fix: optional references can be hashed (std::nullopt
 is not hashable)

---
 mbo/types/optional_data_or_ref.h | 2 +-
 mbo/types/optional_ref.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 7c547bb..c53dbd3 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -308,7 +308,7 @@ class OptionalDataOrRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), nullptr);
     }
   }
 
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 57850b0..88ad0fa 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -176,7 +176,7 @@ class OptionalRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), nullptr);
     }
   }
 
-- 
2.43.0


From fa59d520846cb0e81297befba7241ec9d29db774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 012/100] fix: Stringify applies suppress to pointer, optional
 and disabled fields

---
 mbo/types/stringify.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 45c4953..254299c 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1095,13 +1095,12 @@ class Stringify {
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
+    if (options.field_control->suppress) {
+      return false;
+    }
     switch (is_special) {
-      case SpecialFieldValue::kNoSuppress: break;
-      case SpecialFieldValue::kNormal:
-        if (options.field_control->suppress) {
-          return false;
-        }
-        break;
+      case SpecialFieldValue::kNoSuppress:
+      case SpecialFieldValue::kNormal: break;
       case SpecialFieldValue::kIsNullptr:
         if (options.field_control->suppress_nullptr) {
           return false;
-- 
2.43.0


From 80654a4f47d0f3bd598198db198d4a7e0cfd3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 013/100] fix: Stringify keeps the keys of pairs and string
 keyed containers inside variants and value access

---
 mbo/types/stringify.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 254299c..118ee12 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1240,14 +1240,14 @@ class Stringify {
   }
 
   template<IsVariant Variant>
-  void StreamValue(OStream& os, const StringifyFieldOptions& options, const Variant& value, bool /*allow_field_names*/)
+  void StreamValue(OStream& os, const StringifyFieldOptions& options, const Variant& value, bool allow_field_names)
       const {
     std::visit(
         [&]<typename ArgT>(const ArgT& arg) {
           if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
             StreamImpl<ArgT>(os, options, arg);
           } else {
-            StreamValue(os, options, arg, false);
+            StreamValue(os, options, arg, allow_field_names);
           }
         },
         value);
@@ -1255,9 +1255,9 @@ class Stringify {
 
   template<HasMboTypesStringifyValueAccess T>
   requires(!IsStringKeyedContainer<T>)
-  void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool /*allow_field_names*/)
+  void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool allow_field_names)
       const {
-    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), false);
+    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), allow_field_names);
   }
 
   template<typename T>
-- 
2.43.0


From e13922d9caf7fcada7001fe3cc2909ac74cbcb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 014/100] fix: Stringify JSON modes escape strings, characters
 and keys as JSON

---
 mbo/types/stringify.h | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 118ee12..3ed5c26 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -185,6 +185,7 @@ struct StringifyOptions {
     kNone,        // Values are printed as is.
     kCEscape,     // Values are C-escaped.
     kCHexEscape,  // Values are C-HEX-escaped.
+    kJsonEscape,  // Values and keys are JSON-escaped.
   };
 
   friend std::ostream& operator<<(std::ostream& os, const EscapeMode& value) {
@@ -192,6 +193,7 @@ struct StringifyOptions {
       case EscapeMode::kNone: break;
       case EscapeMode::kCEscape: return os << "EscapeMode::kCEscape";
       case EscapeMode::kCHexEscape: return os << "EscapeMode::kCHexEscape";
+      case EscapeMode::kJsonEscape: return os << "EscapeMode::kJsonEscape";
     }
     return os << "EscapeMode::kNone";
   }
@@ -1153,7 +1155,13 @@ class Stringify {
       field_name = field.name;
     }
     if (!field_name.empty()) {
-      os << key_control.key_prefix << field_name << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix;
+      if (field.options.outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
+        os << JsonEscape(field_name);
+      } else {
+        os << field_name;
+      }
+      os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
       os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
     }
@@ -1299,7 +1307,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'') {
+        if (v == '\'' && options.outer.value_control->escape_mode == SO::EscapeMode::kNone) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
@@ -1397,6 +1405,29 @@ class Stringify {
     }
   }
 
+  // Escapes for use in JSON strings: Only what JSON requires to be escaped, see RFC 8259.
+  static std::string JsonEscape(std::string_view v) {
+    std::string out;
+    out.reserve(v.size());
+    for (const char c : v) {
+      switch (c) {
+        case '"': out += "\\\""; break;
+        case '\\': out += "\\\\"; break;
+        case '\n': out += "\\n"; break;
+        case '\r': out += "\\r"; break;
+        case '\t': out += "\\t"; break;
+        default:
+          if (static_cast<unsigned char>(c) < 0x20) {  // NOLINT(*-magic-numbers)
+            out += absl::StrFormat("\\u%04x", static_cast<unsigned>(c));
+          } else {
+            out += c;
+          }
+          break;
+      }
+    }
+    return out;
+  }
+
   static void StreamValueStr(OStream& os, const StringifyOptions& options, std::string_view v) {
     if (!options.value_overrides->replacement_str.empty()) {
       os << options.value_overrides->replacement_str;
@@ -1410,6 +1441,7 @@ class Stringify {
       case StringifyOptions::EscapeMode::kNone: os << vvv; break;
       case StringifyOptions::EscapeMode::kCEscape: os << absl::CEscape(vvv); break;
       case StringifyOptions::EscapeMode::kCHexEscape: os << absl::CHexEscape(vvv); break;
+      case StringifyOptions::EscapeMode::kJsonEscape: os << JsonEscape(vvv); break;
     }
     if (vvv.length() < v.length()) {
       os << options.value_control->str_cutoff_suffix;
@@ -1480,6 +1512,7 @@ class Stringify {
           .key_suffix = "\"",
       }},
       .value_control{StringifyOptions::ValueControl{
+          .escape_mode = StringifyOptions::EscapeMode::kJsonEscape,
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
-- 
2.43.0


From dc4a57c3c02750fd3cf2f57e239cade511b47597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 015/100] fix: Stringify keeps empty keys of string keyed
 containers

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 3ed5c26..efbb7f1 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1154,7 +1154,7 @@ class Stringify {
     if (field_name.empty()) {
       field_name = field.name;
     }
-    if (!field_name.empty()) {
+    if (!field_name.empty() || !allow_key_override) {  // An empty container key is still that key.
       os << key_control.key_prefix;
       if (field.options.outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
         os << JsonEscape(field_name);
-- 
2.43.0


From 1c1faa3f1b9c86790a6b569a58c023d08bdc9c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:06 +0000
Subject: [PATCH 016/100] fix: LimitedVector copy assignment copies the
 elements

---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..a0ab8d4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From 3ea718caa70da7f75e2455759c731d104e486616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:06 +0000
Subject: [PATCH 017/100] fix: LimitedVector destroys the elements it moved
 from

---
 mbo/container/limited_vector.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a0ab8d4..a91da34 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -158,16 +158,18 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(
-          const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(
+            const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -229,7 +231,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -241,7 +243,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
-- 
2.43.0


From 094d565965547dae9b32d1725e633f499cbbce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:06 +0000
Subject: [PATCH 018/100] fix: LimitedVector::swap destroys the elements it
 moved from

---
 mbo/container/limited_vector.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a91da34..9697466 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -281,14 +281,18 @@ class LimitedVector final {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
+    for (; pos < this_size; ++pos) {
       other.emplace_back(std::move(values_[pos].data));
     }
-    for (; pos < other.size(); ++pos) {
+    for (; pos < other_size; ++pos) {
       emplace_back(std::move(other.at(pos)));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      pop_back();
+    }
+    while (other.size_ > this_size) {
+      other.pop_back();
+    }
   }
 
   template<typename... Args>
-- 
2.43.0


From a906ed9323f1e7ef2ee1563462efaf6595cd1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 019/100] fix: LimitedVector insert, emplace and erase keep
 element lifetimes

---
 mbo/container/limited_vector.h | 66 +++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 9697466..6d9c780 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -299,25 +299,19 @@ class LimitedVector final {
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    // The arguments may refer to elements of this vector, so the new value must exist before anything gets moved.
+    std::remove_const_t<T> value(std::forward<Args>(args)...);
+    const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    move_backward(dst, 1);
+    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
+    move_forward(pos, 1);
+    return const_cast<iterator>(pos);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -327,15 +321,9 @@ class LimitedVector final {
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
     std::size_t deleted = 0;
     for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
       ++deleted;
     }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
+    move_forward(first, deleted);
     return const_cast<iterator>(first);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -398,21 +386,24 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    // The value may refer to an element of this vector, so it must be copied before anything gets moved.
+    std::remove_const_t<T> copy(std::forward<U>(value));
     move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::move(copy));
     return dst;
   }
 
   constexpr iterator insert(const_iterator pos, size_type count, const T& value) {
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
     if (count == 0) {
       return dst;
     }
+    const std::remove_const_t<T> copy(value);  // `value` may refer to an element of this vector.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), copy);
       ++index;
       --count;
     }
@@ -512,16 +503,41 @@ class LimitedVector final {
   constexpr const_pointer data() const noexcept { return &values_[0].data; }
 
  private:
-  constexpr std::size_t move_backward(iterator dst, std::size_t count) {
+  // Moves the element at `src` into the unused storage at `dst`, after which `src` is unused storage.
+  constexpr void relocate(std::size_t dst, std::size_t src) {
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[dst].data), std::move(values_[src].data));
+    std::destroy_at(&values_[src].data);
+  }
+
+  // Makes room for `count` (> 0) elements at `dst`. That room is unused storage, but already included in the size.
+  constexpr std::size_t move_backward(const_iterator dst, std::size_t count) {
     std::size_t pos = size_;
     while (dst < &values_[pos].data) {
       --pos;
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      relocate(pos + count, pos);
     }
     size_ += count;
     return pos;
   }
 
+  // Destroys `count` elements at `dst` and closes the gap.
+  constexpr void move_forward(const_iterator dst, std::size_t count) {
+    if (count == 0) {
+      return;
+    }
+    std::size_t pos = 0;
+    while (&values_[pos].data < dst) {
+      ++pos;
+    }
+    for (std::size_t idx = pos; idx < pos + count; ++idx) {
+      std::destroy_at(&values_[idx].data);
+    }
+    for (; pos + count < size_; ++pos) {
+      relocate(pos, pos + count);
+    }
+    size_ -= count;
+  }
+
   std::size_t size_{0};
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
-- 
2.43.0


From c6097e2a39b27d1fa2d2df54118713a0134acb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 020/100] fix: LimitedVector three-way comparison for partially
 ordered elements

---
 mbo/container/limited_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 6d9c780..85d889b 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -553,7 +553,8 @@ LimitedVector(T&&... v) -> LimitedVector<std::common_type_t<T...>, sizeof...(T)>
 // and going through the checked operator[] would re-verify that per element.
 template<auto LN, auto RN, typename LHS, typename RHS>
 requires std::three_way_comparable_with<LHS, RHS>
-constexpr inline auto operator<=>(const LimitedVector<LHS, LN>& lhs, const LimitedVector<RHS, RN>& rhs) noexcept {
+constexpr inline auto operator<=>(const LimitedVector<LHS, LN>& lhs, const LimitedVector<RHS, RN>& rhs) noexcept
+    -> std::common_comparison_category_t<std::compare_three_way_result_t<LHS, RHS>, std::strong_ordering> {
   const std::size_t minsize = std::min(lhs.size(), rhs.size());
   for (std::size_t index = 0; index < minsize; ++index) {
     const auto comp = lhs[index] <=> rhs[index];
-- 
2.43.0


From c189c6b4fd620cb5f412bf65d05464ac8d7d46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 021/100] fix: LimitedVector assign and MakeLimitedVector do
 not move from lvalues

---
 mbo/container/limited_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 85d889b..03a1e52 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -366,7 +366,7 @@ class LimitedVector final {
   constexpr void assign(It begin, It end) noexcept {
     clear();
     while (begin < end) {
-      emplace_back(std::forward<mbo::types::ForwardIteratorValueType<It>>(*begin++));
+      emplace_back(*begin++);
     }
   }
 
@@ -626,7 +626,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedVector(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedVector<T, sizeof...(Args)>();
-  (result.emplace_back(std::forward<T>(args)), ...);
+  (result.emplace_back(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 8b1329043e62120db0ebd6b03590c86f4268f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 022/100] fix: LimitedSet/LimitedMap copies take the elements
 and the comparator

---
 mbo/container/internal/limited_ordered.h | 25 +++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..41f6e02 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -196,7 +196,7 @@ class [[nodiscard]] LimitedOrdered {
       return key_comp(GetKey(lhs), GetKey(rhs));
     }
 
-    const key_compare key_comp;
+    key_compare key_comp;
   };
 
   // NOTE: The name is misleading but must adhere to the STL: The comparator only
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -426,13 +426,15 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      assign_compare(other);
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
@@ -441,6 +443,7 @@ class [[nodiscard]] LimitedOrdered {
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
     clear();
+    assign_compare(other);
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
@@ -1173,14 +1176,22 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // The elements are ordered by the comparator they were added with, so it must follow them.
+  constexpr void assign_compare(const LimitedOrdered& other) noexcept {
+    if constexpr (std::is_copy_assignable_v<key_compare>) {
+      key_comp_ = other.key_comp_;
+      val_comp_ = value_compare(key_comp_);
+    }
+  }
+
   std::size_t size_{0};
 
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
   Data values_[Capacity == 0 ? 1 : Capacity];  // NOLINT(*-avoid-c-arrays)
 
-  const key_compare key_comp_ = {};
-  const value_compare val_comp_ = value_compare(key_comp_);
+  key_compare key_comp_ = {};
+  value_compare val_comp_ = value_compare(key_comp_);
 };
 
 // NOLINTEND(readability-identifier-naming)
-- 
2.43.0


From e108771f36bd1bbf5d164ece44bfab5fad6beba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 023/100] fix: LimitedSet/LimitedMap destroy the elements they
 moved from

---
 mbo/container/internal/limited_ordered.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 41f6e02..59b3758 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -438,7 +438,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
@@ -447,7 +447,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -893,14 +893,18 @@ class [[nodiscard]] LimitedOrdered {
     }
     const std::size_t other_size = other.size_;
     const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
-      other.emplace(std::move(values_[pos].data));
+    for (; pos < this_size; ++pos) {
+      std::construct_at(const_cast<RawValue*>(&other.values_[pos].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
-    for (; pos < other.size(); ++pos) {
-      emplace(std::move(other.values_[pos].data));
+    for (; pos < other_size; ++pos) {
+      std::construct_at(const_cast<RawValue*>(&values_[pos].data), std::move(other.values_[pos].data));
+      std::destroy_at(&other.values_[pos].data);
     }
     size_ = other_size;
     other.size_ = this_size;
+    std::swap(key_comp_, other.key_comp_);
+    std::swap(val_comp_, other.val_comp_);
   }
 
   template<typename... Args>
-- 
2.43.0


From 2acfad9d6d528d13e1aceee4cac75403bccc1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 024/100] fix: LimitedSet/LimitedMap insertion and removal keep
 element lifetimes

---
 mbo/container/internal/limited_ordered.h | 104 +++++++++++------------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 59b3758..79ee04d 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -909,47 +909,31 @@ class [[nodiscard]] LimitedOrdered {
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
-    ++size_;
+    insert_at(dst, std::move(new_val));
     return std::make_pair(dst, true);
   }
 
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
-    auto dst = to_iterator(pos);
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return pos > end() ? end() : to_iterator(pos);
+    const auto cpos = static_cast<const_iterator>(pos);
+    MBO_CONFIG_REQUIRE(cbegin() <= cpos && cpos < cend(), "Invalid `pos`.");
+    return erase_at(cpos, 1);
   }
 
-  constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+  template<typename ItFirst, typename ItLast>
+  requires(IsIterator<ItFirst>::value && IsIterator<ItLast>::value)
+  constexpr iterator erase(ItFirst first, ItLast last) noexcept(!kRequireThrows) {
+    const auto cfirst = static_cast<const_iterator>(first);
+    const auto clast = static_cast<const_iterator>(last);
+    MBO_CONFIG_REQUIRE(cbegin() <= cfirst && cfirst <= clast && clast <= cend(), "Invalid `first` or `last`.");
+    return erase_at(cfirst, static_cast<std::size_t>(clast - cfirst));
   }
 
   constexpr size_type erase(const Key& key) {
@@ -1042,13 +1026,10 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(
+        dst, RawValue(
+                 std::piecewise_construct, std::forward_as_tuple(key),
+                 std::forward_as_tuple(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1061,13 +1042,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), Mapped(std::forward<Args>(args)...)));
     return std::make_pair(dst, true);
   }
 
@@ -1080,11 +1057,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(key, std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1097,11 +1070,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
-    ++size_;
+    insert_at(dst, RawValue(std::move(key), std::forward<V>(value)));
     return std::make_pair(dst, true);
   }
 
@@ -1158,10 +1127,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
-  static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
-
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
-
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
 
@@ -1180,6 +1145,37 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Moves the element at `src` into the unused storage at `dst`, after which `src` is unused storage.
+  constexpr void relocate(std::size_t dst, std::size_t src) {
+    std::construct_at(const_cast<RawValue*>(&values_[dst].data), std::move(values_[src].data));
+    std::destroy_at(&values_[src].data);
+  }
+
+  // Inserts `value` at `dst`. There must be capacity.
+  constexpr void insert_at(iterator dst, RawValue&& value) {
+    const auto index = static_cast<std::size_t>(dst - begin());
+    for (std::size_t pos = size_; pos > index; --pos) {
+      relocate(pos, pos - 1);
+    }
+    std::construct_at(const_cast<RawValue*>(&values_[index].data), std::move(value));
+    ++size_;
+  }
+
+  // Destroys `count` elements starting at `first` and closes the gap.
+  constexpr iterator erase_at(const_iterator first, std::size_t count) {
+    const auto index = static_cast<std::size_t>(first - cbegin());
+    for (std::size_t pos = index; pos < index + count; ++pos) {
+      std::destroy_at(&values_[pos].data);
+    }
+    if (count > 0) {
+      for (std::size_t pos = index; pos + count < size_; ++pos) {
+        relocate(pos, pos + count);
+      }
+    }
+    size_ -= count;
+    return iterator(&values_[index]);
+  }
+
   // The elements are ordered by the comparator they were added with, so it must follow them.
   constexpr void assign_compare(const LimitedOrdered& other) noexcept {
     if constexpr (std::is_copy_assignable_v<key_compare>) {
-- 
2.43.0


From fa2d08f9a8f1350feb9ca8365c2a238f0ef1b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 025/100] fix: LimitedSet/LimitedMap erase by a key that refers
 to a stored key

---
 mbo/container/internal/limited_ordered.h | 49 ++++++------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 79ee04d..266752c 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -936,16 +936,11 @@ class [[nodiscard]] LimitedOrdered {
     return erase_at(cfirst, static_cast<std::size_t>(clast - cfirst));
   }
 
+  // The `key` may refer to a stored key, so it must not be used once an element got erased.
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
-    }
+    const auto [first, last] = equal_range(key);
+    const auto count = static_cast<size_type>(last - first);
+    erase_at(static_cast<const_iterator>(first), count);
     return count;
   }
 
@@ -962,19 +957,14 @@ class [[nodiscard]] LimitedOrdered {
   requires(!IsIterator<K>::value && !std::same_as<std::remove_cvref_t<K>, std::remove_cvref_t<Key>>)
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   constexpr size_type erase(K&& key) {
-    size_type count = 0;
     if constexpr (kTransparent) {
-      // Nothing to convert: `find` compares the foreign key directly, so no `Key` is
-      // ever built. `key` is therefore never forwarded - there is no target to move
+      // Nothing to convert: `equal_range` compares the foreign key directly, so no `Key`
+      // is ever built. `key` is therefore never forwarded - there is no target to move
       // into - which is what the NOLINT above is about.
-      while (true) {
-        auto pos = find(key);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      const auto [first, last] = equal_range(key);
+      const auto count = static_cast<size_type>(last - first);
+      erase_at(static_cast<const_iterator>(first), count);
+      return count;
     } else {
       // A `Key` has to be materialised, because the comparator can only compare keys.
       //
@@ -982,25 +972,10 @@ class [[nodiscard]] LimitedOrdered {
       // temporary or a value, and the compiler picks what is cheapest - a small type in
       // registers beats a const& indirection.
       //
-      // It is forwarded EXACTLY ONCE, into this binding, rather than inside the loop. An
-      // object can only be forwarded once, so forwarding per iteration would claim a move
-      // of `key` every time round (bugprone-use-after-move), and there is no "last
-      // iteration" to single out because the loop runs until `find` fails. Measured with a
-      // `Key` having both converting constructors, over three iterations:
-      //   * `find(key)` inside the loop:                   3 copy-conversions
-      //   * `find(std::forward<K>(key))` inside the loop:   3 move-conversions (and unsound)
-      //   * forwarded once into this binding:               1 conversion, a move for an rvalue
+      // It is forwarded EXACTLY ONCE, into this binding: one conversion, a move for an rvalue.
       const Key& key_ref = std::forward<K>(key);
-      while (true) {
-        auto pos = find(key_ref);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      return erase(key_ref);
     }
-    return count;
   }
 
   constexpr std::pair<iterator, bool> insert(const value_type& value) { return emplace(value); }
-- 
2.43.0


From ef487a321ec07ff50de94dbdac1149d07f8eeb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 026/100] fix: LimitedMap try_emplace and operator[] keep the
 existing value

---
 mbo/container/internal/limited_ordered.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 266752c..48b229a 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -997,7 +997,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
@@ -1013,7 +1012,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-- 
2.43.0


From fdd84171cdc729d009850f3a0fd1bf3318826cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 027/100] fix: LimitedSet/LimitedMap from sorted input check
 the capacity and drop duplicates

---
 mbo/container/internal/limited_ordered.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 48b229a..62aaed3 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -458,11 +458,20 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      if constexpr (kKeyOnly) {
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      } else {
+        const auto comp = [this](const auto& lhs, const auto& rhs) { return key_comp_(lhs.first, rhs.first); };
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, comp), "Flag `kRequireSortedInput` violated.");
+      }
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-        std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
+        const auto& new_val = *first;
+        if (size_ == 0 || is_less_than_new(values_[size_ - 1], new_val)) {  // Otherwise a duplicate.
+          MBO_CONFIG_REQUIRE(size_ < Capacity, "Called constructor with too many values.");
+          std::construct_at(const_cast<RawValue*>(&values_[size_++].data), new_val);
+        }
       } else {
         emplace(*first);
       }
@@ -1118,6 +1127,15 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  template<typename V>
+  constexpr bool is_less_than_new(const Data& data, const V& new_val) const {
+    if constexpr (kKeyOnly) {
+      return key_comp_(data.data, new_val);
+    } else {
+      return key_comp_(data.data.first, new_val.first);
+    }
+  }
+
   // Moves the element at `src` into the unused storage at `dst`, after which `src` is unused storage.
   constexpr void relocate(std::size_t dst, std::size_t src) {
     std::construct_at(const_cast<RawValue*>(&values_[dst].data), std::move(values_[src].data));
-- 
2.43.0


From 9d43a487fe828a6868046cd65964ced3db086926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 028/100] fix: LimitedSet/LimitedMap key_comp

---
 mbo/container/internal/limited_ordered.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 62aaed3..df82310 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1104,7 +1104,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
-- 
2.43.0


From 633c8d1841eb3948bfc15d27ebc97961e4f58b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 029/100] fix: LimitedSet/LimitedMap three-way comparison for
 partially ordered elements

---
 mbo/container/limited_map.h | 6 +++++-
 mbo/container/limited_set.h | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_map.h b/mbo/container/limited_map.h
index c5b895b..c3125bd 100644
--- a/mbo/container/limited_map.h
+++ b/mbo/container/limited_map.h
@@ -252,7 +252,11 @@ template<
 requires(std::three_way_comparable_with<LHS_K, RHS_K> && std::three_way_comparable_with<LHS_V, RHS_V>)
 constexpr inline auto operator<=>(
     const LimitedMap<LHS_K, LHS_V, LN, LKComp>& lhs,
-    const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept {
+    const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept
+    -> std::common_comparison_category_t<
+        std::compare_three_way_result_t<LHS_K, RHS_K>,
+        std::compare_three_way_result_t<LHS_V, RHS_V>,
+        std::strong_ordering> {
   auto lhs_it = lhs.begin();
   auto rhs_it = rhs.begin();
   while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 3f48364..a972abb 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -185,7 +185,8 @@ template<auto LN, auto RN, typename LHS, typename RHS, typename LCompare, typena
 requires std::three_way_comparable_with<LHS, RHS>
 constexpr inline auto operator<=>(
     const LimitedSet<LHS, LN, LCompare>& lhs,
-    const LimitedSet<RHS, RN, RCompare>& rhs) noexcept {
+    const LimitedSet<RHS, RN, RCompare>& rhs) noexcept
+    -> std::common_comparison_category_t<std::compare_three_way_result_t<LHS, RHS>, std::strong_ordering> {
   auto lhs_it = lhs.begin();
   auto rhs_it = rhs.begin();
   while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-- 
2.43.0


From 61b589ca14f2f1ffb00a8e2d7123188dc843ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 030/100] fix: MakeLimitedSet does not move from lvalues

---
 mbo/container/limited_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index a972abb..0c34189 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -267,7 +267,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedSet(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedSet<T, sizeof...(Args)>();
-  (result.emplace(std::forward<T>(args)), ...);
+  (result.emplace(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From 77f516ded5c343734c3329cea6c18c061333ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 031/100] fix: AnyScan iterators compare equal at the same, not
 at another element

---
 mbo/container/any_scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..3fdfdd8 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -470,7 +470,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From d0bd7a09b5cfec67249a6dc013a19b1c05e1ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 032/100] fix: AnyScan iterators' post-increment returns the
 previous position

---
 mbo/container/any_scan.h | 46 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3fdfdd8..9c5d76c 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -289,6 +289,7 @@ class AnyScanImpl {
     FuncMore more;
     FuncCurr curr;
     FuncNext next;
+    std::function<IterFuncs()> copy;  // Same position, but independent of this one.
   };
 
   using FuncIter = std::function<IterFuncs()>;
@@ -351,6 +352,25 @@ class AnyScanImpl {
     return std::shared_ptr<Iterator>(new Iterator(container.begin()));
   }
 
+  template<AcceptableContainer Container, typename Iterator>
+  static IterFuncs MakeIterFuncs(
+      const MakeAnyScanData<Container, kScanMode>& data,
+      const std::shared_ptr<Iterator>& pos) {
+    // NOTE: data must be copied here!
+    return IterFuncs{
+        .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
+        .curr = [&it = *pos]() -> AccessType {
+          if constexpr (kAccessByRef) {
+            return *it;
+          } else {
+            return AccessType(*it);
+          }
+        },
+        .next = [&it = *pos] { ++it; },
+        .copy = [data = data, pos = pos] { return MakeIterFuncs(data, std::make_shared<Iterator>(*pos)); },
+    };
+  }
+
   // NOLINTBEGIN(bugprone-forwarding-reference-overload)
 
   // For MakAnyScan / MakeConstScan
@@ -358,15 +378,7 @@ class AnyScanImpl {
   requires kAccessByRef
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return *it; },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -380,15 +392,7 @@ class AnyScanImpl {
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
             // NOTE: data must be copied here!
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return AccessType(*it); },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -411,6 +415,7 @@ class AnyScanImpl {
               .more = [] { return false; },
               .curr = nullptr,
               .next = [] {},
+              .copy = nullptr,
           } {}
 
     explicit iterator_impl(const AccessFuncs& funcs) : funcs_(funcs.iter()) {}
@@ -451,7 +456,10 @@ class AnyScanImpl {
     }
 
     iterator_impl operator++(int) noexcept {  // NOLINT(cert-dcl21-cpp)
-      iterator_impl result = *this;
+      iterator_impl result;  // Copies of an iterator share their position, but the result must keep its own.
+      if (funcs_.copy != nullptr) {
+        result.funcs_ = funcs_.copy();
+      }
       funcs_.next();
       return result;
     }
-- 
2.43.0


From f53cfcfc8865b598b8e7ba93427b790f8e4d9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 033/100] fix: ConvertContainer does not move elements out of
 containers it does not own

---
 mbo/container/convert_container.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/mbo/container/convert_container.h b/mbo/container/convert_container.h
index 8569a20..12f7179 100644
--- a/mbo/container/convert_container.h
+++ b/mbo/container/convert_container.h
@@ -16,6 +16,10 @@
 #ifndef MBO_CONTAINER_CONVERT_CONTAINER_H_
 #define MBO_CONTAINER_CONVERT_CONTAINER_H_
 
+#include <concepts>
+#include <type_traits>
+#include <utility>
+
 #include "mbo/types/traits.h"
 
 namespace mbo::container {
@@ -51,27 +55,27 @@ class ConvertContainer final {
     for (auto&& v : container_) {
       if constexpr (mbo::types::ContainerHasEmplace<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace(std::move(v));
+          result.emplace(Element(v));
         } else {
-          result.emplace(convert_(std::move(v)));
+          result.emplace(convert_(Element(v)));
         }
       } else if constexpr (mbo::types::ContainerHasEmplaceBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace_back(std::move(v));
+          result.emplace_back(Element(v));
         } else {
-          result.emplace_back(convert_(std::move(v)));
+          result.emplace_back(convert_(Element(v)));
         }
       } else if constexpr (mbo::types::ContainerHasInsert<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.insert(std::move(v));
+          result.insert(Element(v));
         } else {
-          result.insert(convert_(std::move(v)));
+          result.insert(convert_(Element(v)));
         }
       } else if constexpr (mbo::types::ContainerHasPushBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.push_back(std::move(v));
+          result.push_back(Element(v));
         } else {
-          result.push_back(convert_(std::move(v)));
+          result.push_back(convert_(Element(v)));
         }
       }
     }
@@ -79,6 +83,16 @@ class ConvertContainer final {
   }
 
  private:
+  // Elements may only be moved from containers that were moved in (are owned).
+  template<typename V>
+  static constexpr decltype(auto) Element(V& value) noexcept {
+    if constexpr (std::is_lvalue_reference_v<Container>) {
+      return std::as_const(value);
+    } else {
+      return std::move(value);
+    }
+  }
+
   static inline constexpr NoFunc kNoFunc{};
   Container container_;
   Func convert_ = kNoFunc;
-- 
2.43.0


From 92148f362a8c9415ff68397258a45004f99b1975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 034/100] fix: ParseString accepts a single digit octal escape
 at the end of its input

---
 mbo/strings/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index c82bb70..81143cb 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -29,11 +29,11 @@
 namespace mbo::strings {
 namespace {
 absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
-  if (data.empty()) {
-    return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
-  }
   const bool octal_23 = first_char == 'o';
   if (octal_23) {
+    if (data.empty()) {
+      return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
+    }
     if (data.size() < 3 || data.front() != '{') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
     }
-- 
2.43.0


From 79b6b9e8271060063acf05a2c61f5a8406bbfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 035/100] fix: ParseString rejects a first digit of \o{...}
 that is not octal

---
 mbo/strings/parse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 81143cb..1385213 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -39,6 +39,9 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     }
     data.remove_prefix(1);
     first_char = PopChar(data);
+    if (first_char < '0' || first_char > '7') {
+      return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
+    }
   }
   static constexpr int kOctalDigit = 8;
   int next_chr = first_char - '0';
-- 
2.43.0


From 2673a11b622e34c613e3806009c56a8b5947b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 036/100] fix: ParseStringList stops at stop_at_str and at
 unquoted characters

---
 mbo/strings/parse.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 1385213..f4cac0d 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -156,6 +156,12 @@ bool StopParsing(const ParseOptions& options, std::string_view data) {
          || absl::StrContains(options.split_at_any_of, chr)
          || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str));
 }
+
+// Whether `data` starts with something that stops (as opposed to splits) parsing.
+bool StopParsingList(const ParseOptions& options, std::string_view data) {
+  return absl::StrContains(options.stop_at_any_of, data.front())
+         || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str));
+}
 }  // namespace
 
 absl::StatusOr<std::string> ParseString(const ParseOptions& options, std::string_view& data) {
@@ -245,7 +251,7 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
   if (str_options.split_at_any_of.empty()) {
     str_options.split_at_any_of = ",";
   }
-  if (absl::StrContains(options.stop_at_any_of, data.front())) {
+  if (StopParsingList(options, data)) {
     return result;
   }
   if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
@@ -260,7 +266,7 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
     if (data.empty()) {
       return result;
     }
-    if (absl::StrContains(options.stop_at_any_of, data.front())) {
+    if (StopParsingList(options, data) || !absl::StrContains(str_options.split_at_any_of, data.front())) {
       return result;
     }
     if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
-- 
2.43.0


From 712bd66e0370d5676dd4b52c8b68c497c7ab6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 037/100] fix: AtLast::Find returns the separator's position in
 the whole text

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0


From 1580501aa44bde87ba262758c9525ca0f81309bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 038/100] fix: ScopedStream writes its message when the output
 goes to the implied std::cerr

---
 mbo/log/scoped_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/scoped_stream.h b/mbo/log/scoped_stream.h
index 090ddc2..afc32ff 100644
--- a/mbo/log/scoped_stream.h
+++ b/mbo/log/scoped_stream.h
@@ -205,7 +205,7 @@ class ScopedStream {
   // LCOV_MERGE_FUNC_LINE: Count the shared class-template definition once.
   void OutPrefix(std::ostream& out) {
     out << "[" << loc_.file_name() << ":" << loc_.line() << "] @" << loc_.function_name();
-    if constexpr (!std::same_as<OStreamT, Voidifier> && !std::same_as<MessageT, Voidifier>) {
+    if constexpr (!std::same_as<MessageT, Voidifier>) {
       if (!msg_.empty()) {
         out << " : " << msg_;
       }
-- 
2.43.0


From 9c40f05bc169d8490c160be04ecfd166fb087433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 039/100] fix: A moved LogTiming never logs more than once

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From 324c7a921184970a1dd103f3b7de3796f2c9988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 040/100] fix: align_markdown_tables keeps a trailing pipe that
 follows an escaped backslash a delimiter

---
 tools/align_markdown_tables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..4fc9645 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -47,8 +47,8 @@ def _split_cells(row):
     s = row.strip()
     if s.startswith("|"):
         s = s[1:]
-    # A trailing pipe is a delimiter unless it is escaped (``\|``).
-    if s.endswith("|") and not s.endswith("\\|"):
+    # A trailing pipe is a delimiter unless it is escaped (``\|``), the backslash not being escaped itself.
+    if s.endswith("|") and (len(s) - 1 - len(s[:-1].rstrip("\\"))) % 2 == 0:
         s = s[:-1]
     cells = []
     cur = []
-- 
2.43.0


From 9d87ba56c6fa2d0fbcdb3d78aa7e08c18a27375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 041/100] fix: align_markdown_tables closes a fence only at a
 line without info string

---
 tools/align_markdown_tables.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 4fc9645..527d3c6 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -154,7 +154,12 @@ def align_text(text):
         fence_match = _FENCE.match(line)
         if fence is not None:
             out.append(line)
-            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence):
+            if (
+                fence_match
+                and fence_match.group(2)[0] == fence[0]
+                and len(fence_match.group(2)) >= len(fence)
+                and not line[fence_match.end() :].strip()  # A closing fence has no info string.
+            ):
                 fence = None
             i += 1
             continue
-- 
2.43.0


From e52b5118555a7e41e91b0fdca02bfa25a0a3be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 042/100] fix: align_markdown_tables does not take inline code
 for an opening fence

---
 tools/align_markdown_tables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 527d3c6..8c5cceb 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -38,7 +38,8 @@ import re
 import sys
 
 _DELIM_CELL = re.compile(r"^:?-+:?$")
-_FENCE = re.compile(r"^(\s*)(`{3,}|~{3,})")
+# The info string of a backtick fence has no backticks (otherwise it is inline code).
+_FENCE = re.compile(r"^(\s*)(`{3,}(?=[^`]*$)|~{3,})")
 
 
 def _split_cells(row):
-- 
2.43.0


From e8bff79de8d7dfb3937360a79b65d387b1a6fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 043/100] fix: align_markdown_tables keeps the line endings of
 its files

---
 tools/align_markdown_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 8c5cceb..2f5db13 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -136,11 +136,12 @@ def _format_table(rows):
 
     out = []
     for idx, cells in enumerate(parsed):
+        eol = "\r" if rows[idx].endswith("\r") else ""  # `align_text` only splits at "\n".
         if idx == 1:
             body = " | ".join(render_delim(c) for c in range(ncols))
         else:
             body = " | ".join(render_cell(cells[c], c) for c in range(ncols))
-        out.append(f"{indent}| {body} |".rstrip())
+        out.append(f"{indent}| {body} |{eol}")
     return out
 
 
@@ -195,7 +196,7 @@ def main(argv):
     changed = []
     for path in args.files:
         try:
-            with open(path, "r", encoding="utf-8") as handle:
+            with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
         except OSError as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
@@ -204,7 +205,7 @@ def main(argv):
         if aligned != original:
             changed.append(path)
             if not args.check:
-                with open(path, "w", encoding="utf-8") as handle:
+                with open(path, "w", encoding="utf-8", newline="") as handle:
                     handle.write(aligned)
     for path in changed:
         verb = "would reformat" if args.check else "reformatted"
-- 
2.43.0


From 3d0e76e666bbde3ebaecbf383c941f62bcf04d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 044/100] fix: align_markdown_tables reports a file that is not
 UTF-8 as an error

---
 tools/align_markdown_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 2f5db13..06cdb46 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -198,7 +198,7 @@ def main(argv):
         try:
             with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
-        except OSError as err:
+        except (OSError, UnicodeDecodeError) as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
             return 2
         aligned = align_text(original)
-- 
2.43.0


From 5dc5a01634afee9b62341fd9e0a334314261cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 045/100] fix: build_rules does not take labels in comments for
 deps

---
 tools/build_rules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/build_rules.py b/tools/build_rules.py
index 5671e6b..983f201 100755
--- a/tools/build_rules.py
+++ b/tools/build_rules.py
@@ -46,7 +46,8 @@ _INLINE_NAME = re.compile(r'^\w+\(\s*name\s*=\s*"([^"]*)"')
 # (4-space indented `word =`) that ends it.
 _DEPS_ATTR = re.compile(r"^\s+deps\s*=")
 _NEXT_ATTR = re.compile(r"^\s{4}\w+\s*=")
-_LABEL = re.compile(r'"((?::|//|@)[^"]*)"')
+# Comments are skipped: a label they mention is no dependency.
+_LABEL = re.compile(r'#.*|"((?::|//|@)[^"]*)"|"[^"]*"')
 
 _SKIP_DIRS = ("bazel-", "external", "third_party", ".git")
 
@@ -94,13 +95,13 @@ def parse_rules(text: str) -> list[Rule]:
                 continue
         if _DEPS_ATTR.match(line):
             in_deps = True
-            current.deps.extend(_LABEL.findall(line))
+            current.deps.extend(label for label in _LABEL.findall(line) if label)
             continue
         if in_deps:
             if _NEXT_ATTR.match(line):
                 in_deps = False
                 continue
-            current.deps.extend(_LABEL.findall(line))
+            current.deps.extend(label for label in _LABEL.findall(line) if label)
     return [rule for rule in rules if rule.name]
 
 
-- 
2.43.0


From 703af13f75d422b6c87de3575f1ac456ab02bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 046/100] fix: check_cc_library_tested accepts the short form
 of a label to the package's own target

---
 tools/check_cc_library_tested.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/check_cc_library_tested.py b/tools/check_cc_library_tested.py
index 7a58af7..38eb7d4 100755
--- a/tools/check_cc_library_tested.py
+++ b/tools/check_cc_library_tested.py
@@ -61,8 +61,8 @@ _ALLOWLIST: dict[str, str] = {
 def _package_local_deps(rules: list, package: str) -> set[str]:
     """Names of same-package targets that some `*_test` rule in this file depends on.
 
-    Both spellings resolve to the bare name: `":foo_cc"` and the fully qualified
-    `"//pkg:foo_cc"` for this same `pkg`. A label into another package or module is not
+    All spellings resolve to the bare name: `":foo_cc"`, the fully qualified `"//pkg:foo_cc"`
+    for this same `pkg`, and `"//pkg"` for the target named like the package. A label into another package or module is not
     package-local and is ignored.
     """
     tested: set[str] = set()
@@ -74,6 +74,8 @@ def _package_local_deps(rules: list, package: str) -> set[str]:
                 tested.add(label[1:])
             elif label.startswith(f"//{package}:"):
                 tested.add(label.split(":", 1)[1])
+            elif package and label == f"//{package}":
+                tested.add(package.rsplit("/", 1)[-1])
     return tested
 
 
-- 
2.43.0


From 7ae6761c159dae671bba0551fde83627d8769e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 047/100] fix: cache_cleanup orders times with fractional
 seconds correctly

---
 tools/cache_cleanup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cache_cleanup.py b/tools/cache_cleanup.py
index 1b76f63..03d5003 100644
--- a/tools/cache_cleanup.py
+++ b/tools/cache_cleanup.py
@@ -14,7 +14,8 @@ from typing import Any
 def expired_cache_ids(caches: Iterable[dict[str, Any]], prefix: str) -> list[int]:
     """Return matching cache IDs except the newest one."""
     matching = [cache for cache in caches if cache["key"].startswith(prefix)]
-    matching.sort(key=lambda cache: cache["createdAt"])
+    # Without the "Z" the order is that of the times even if only some have fractional seconds.
+    matching.sort(key=lambda cache: cache["createdAt"].removesuffix("Z"))
     return [cache["id"] for cache in matching[:-1]]
 
 
-- 
2.43.0


From 2bdd7980d17e6299ba90dd6aea50d98b8404a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 048/100] fix: coverage finds repository paths below a checkout
 directory named mbo

---
 tools/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/coverage.py b/tools/coverage.py
index 27602ee..f305480 100644
--- a/tools/coverage.py
+++ b/tools/coverage.py
@@ -27,7 +27,7 @@ def _repo_path(value: str) -> str | None:
     if value.startswith("mbo/"):
         return value
     if marker in value:
-        return "mbo/" + value.split(marker, 1)[1]
+        return "mbo/" + value.rsplit(marker, 1)[1]
     return None
 
 
-- 
2.43.0


From a5c52a9837ab715b5ee9c4b5b4330866ab5f9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 049/100] fix: diff context sizes of half the size_t range and
 more do not overflow

---
 mbo/diff/internal/context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/diff/internal/context.h b/mbo/diff/internal/context.h
index 08d66d6..8b1cd94 100644
--- a/mbo/diff/internal/context.h
+++ b/mbo/diff/internal/context.h
@@ -39,7 +39,7 @@ class Context final {
 
   bool HalfFull() const noexcept { return Full(true); }
 
-  bool Full(bool half = false) const noexcept { return data_.size() >= (half ? Max() : 2 * Max()); }
+  bool Full(bool half = false) const noexcept { return (half ? data_.size() : data_.size() / 2) >= Max(); }
 
   bool Push(std::string_view line, bool half = false) {
     if (Max() == 0) {
-- 
2.43.0


From 02de377bfe80916b1ed09abdf893cca8ddaa25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 050/100] fix: diff applies its comparison options to a last
 line without newline

---
 mbo/diff/internal/data.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..7c0ad9f 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -95,14 +95,10 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    LineCache& last = result.back();  // Splitting always yields at least one line.
+    const std::string_view marker = last_line.substr(last.line.size());
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, marker));
+    last.line = last_line;
   }
   return result;
 }
-- 
2.43.0


From dc5ffe61125c4d5948a97967efb2b5d342c79da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 051/100] fix: diff ignores matching lines without
 ignore_matching_chunks, and the tool passes that flag

---
 mbo/diff/diff_main.cc     | 1 +
 mbo/diff/internal/data.cc | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..3900026 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -258,6 +258,7 @@ Diff::Options MakeDiffOptions() {
       .file_header_use = *file_header_use,
       .ignore_blank_lines = absl::GetFlag(FLAGS_ignore_blank_lines),
       .ignore_case = absl::GetFlag(FLAGS_ignore_case),
+      .ignore_matching_chunks = absl::GetFlag(FLAGS_ignore_matching_chunks),
       .ignore_all_space = absl::GetFlag(FLAGS_ignore_all_space),
       .ignore_consecutive_space = absl::GetFlag(FLAGS_ignore_consecutive_space),
       .ignore_trailing_space = absl::GetFlag(FLAGS_ignore_trailing_space),
diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 7c0ad9f..7c40de1 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -162,7 +162,7 @@ Data::LineCache Data::Process(
   return {
       .line = line,
       .processed = processed,
-      .matches_ignore = options.ignore_matching_chunks && options.ignore_matching_lines.has_value()
+      .matches_ignore = options.ignore_matching_lines.has_value()
                         && RE2::PartialMatch(processed, *options.ignore_matching_lines),
   };
 }
-- 
2.43.0


From 25551bacf595d49203e33d931182516730dd9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 052/100] fix: diff ignore_consecutive_space does not depend on
 the kind of whitespace

---
 mbo/diff/internal/data.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 7c40de1..dd65d1f 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -132,6 +132,8 @@ Data::LineCache Data::Process(
   } else if (options.ignore_consecutive_space) {
     std::string collapsed{line};
     absl::RemoveExtraAsciiWhitespace(&collapsed);
+    // What remains are single whitespace characters, whose kind does not matter.
+    std::ranges::replace_if(collapsed, [](char chr) { return absl::ascii_isspace(chr); }, ' ');
     own(std::move(collapsed));
   } else if (options.ignore_trailing_space) {
     processed = absl::StripTrailingAsciiWhitespace(processed);  // A pure suffix trim.
-- 
2.43.0


From 839141b1fad4164606d507571c48a7ca96af7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 053/100] fix: diff ignore_matching_lines does not match the
 marker for a missing final newline

---
 mbo/diff/internal/chunk.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/internal/chunk.cc b/mbo/diff/internal/chunk.cc
index bbb5672..af3307c 100644
--- a/mbo/diff/internal/chunk.cc
+++ b/mbo/diff/internal/chunk.cc
@@ -25,6 +25,14 @@
 #include "re2/re2.h"
 
 namespace mbo::diff::diff_internal {
+namespace {
+
+// The text of a line without the marker for a missing final newline.
+std::string_view LineText(std::string_view line) {
+  return line.substr(0, line.find('\n'));
+}
+
+}  // namespace
 
 void Chunk::PushBoth(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view ctx) {
   MoveDiffs();
@@ -51,7 +59,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
     return;
   }
   only_blank_lines_ &= lhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(LineText(lhs), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   lhs_.emplace_back(lhs);
   ++lhs_size_;
@@ -59,7 +67,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
 
 void Chunk::PushRhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view rhs) {
   only_blank_lines_ &= rhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(LineText(rhs), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   rhs_.emplace_back(rhs);
   ++rhs_size_;
-- 
2.43.0


From e9af8043aa0ff2cb72441b45644d2f70a6d7e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 054/100] fix: diff keeps simple comment stripping when spaces
 are ignored too

---
 mbo/diff/internal/data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index dd65d1f..0822249 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -159,6 +159,9 @@ Data::LineCache Data::Process(
     }
   }
   if (has_storage) {
+    if (processed.size() < storage.size()) {
+      storage.resize(processed.size());  // Only truncations follow: `processed` is a prefix of `storage`.
+    }
     processed = owned.emplace_back(std::move(storage));
   }
   return {
-- 
2.43.0


From c7ddad5a016ca11558ca31b061406b1ea0ac8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 055/100] fix: diff tool keeps the --strip_comments value alive
 while it is used

---
 mbo/diff/diff_main.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 3900026..60abcaa 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -227,9 +227,9 @@ constexpr int kExitTrouble = 2;
 
 // Builds the diff options from the command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
-// flag validation and the two option-building lambdas.
-Diff::Options MakeDiffOptions() {
-  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+// flag validation and the two option-building lambdas. The returned options
+// refer to `strip_comments`, which must outlive them.
+Diff::Options MakeDiffOptions(const std::string& strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
   ABSL_QCHECK(algorithm) << "Unknown algorithm";
@@ -303,7 +303,8 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
   if (!rhs.ok()) {
     return kExitTrouble;
   }
-  const Diff::Options diff_options = MakeDiffOptions();
+  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+  const Diff::Options diff_options = MakeDiffOptions(strip_comments);
   const auto result = Diff::FileDiff(*lhs, *rhs, diff_options);
   if (!result.ok()) {
     ABSL_LOG(ERROR) << "ERROR: " << result.status();
-- 
2.43.0


From 7ae9d49176f608baef0b11f8d74cc2924afdb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 056/100] fix: NormalizePath leaves no trailing separator for
 paths ending in dot or dot-dot

---
 mbo/file/file.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..8fe10f3 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -27,6 +27,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #ifndef _WIN32
 # include <fcntl.h>
@@ -54,12 +55,20 @@ struct FileCloser final {
 
 std::filesystem::path NormalizePath(const std::filesystem::path& path) {
   using PathChar = std::filesystem::path::value_type;
-  std::basic_string_view<PathChar> path_str(path.native());
-  while (path_str.length() > 1
-         && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
-    path_str.remove_suffix(1);
+  std::filesystem::path result(path);
+  // Normalizing can produce a new trailing '/' (e.g. 'a/.') and dropping that can leave more to normalize.
+  while (true) {
+    std::basic_string_view<PathChar> path_str(result.native());
+    while (path_str.length() > 1
+           && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
+      path_str.remove_suffix(1);
+    }
+    std::filesystem::path normalized = std::filesystem::path(path_str).lexically_normal();
+    if (normalized.native() == result.native()) {
+      return result;
+    }
+    result = std::move(normalized);
   }
-  return std::filesystem::path(path_str).lexically_normal();
 }
 
 absl::Status SetContents(const std::filesystem::path& file_name, std::string_view content) {
-- 
2.43.0


From ff12b0ecebdb22845aec9a7981329625a0c5f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 057/100] fix: JoinPathsRespectAbsolute respects absolute
 elements after an empty first one

---
 mbo/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.h b/mbo/file/file.h
index cb951bb..7fa2e8b 100644
--- a/mbo/file/file.h
+++ b/mbo/file/file.h
@@ -65,7 +65,7 @@ inline std::filesystem::path JoinPathsRespectAbsolute(const std::filesystem::pat
     if constexpr (sizeof...(paths) == 0) {
       return std::filesystem::path(first_path);
     } else if (first_path.empty()) {
-      return JoinPaths(paths...);
+      return JoinPathsRespectAbsolute(paths...);
     } else {
       // In theory this is what `fs::path /=` should do. But then it does way more.
       auto joined = JoinPathsRespectAbsolute(paths...);
-- 
2.43.0


From 6c119e1ba7253e6ff23659e6a99b045011e599bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 058/100] fix: GetContents returns an error for a directory

---
 mbo/file/file.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index 8fe10f3..abed1c3 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -107,6 +107,11 @@ absl::Status Readable(const std::filesystem::path& file_name) {
 }
 
 absl::StatusOr<std::string> GetContents(const std::filesystem::path& file_name) {
+  std::error_code error;
+  if (std::filesystem::is_directory(file_name, error)) {
+    // On some systems directories can be opened and then report an arbitrary size.
+    return absl::UnknownError(absl::StrFormat("Unable to read directory: '%s'", file_name));
+  }
   std::ifstream ifs;
   ifs.exceptions(static_cast<std::ios_base::iostate>(0));
   ifs.open(file_name, std::ios_base::in);
-- 
2.43.0


From ad39cfc519bf3d13186ac24c220e405353627d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 059/100] fix: Readable returns an error if the file status
 cannot be determined

---
 mbo/file/file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index abed1c3..475c6ac 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -88,10 +88,15 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  std::error_code error;
+  const std::filesystem::file_status status = std::filesystem::status(file_name, error);
+  if (status.type() == std::filesystem::file_type::not_found) {
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (status.type() == std::filesystem::file_type::none) {
+    return absl::UnknownError(absl::StrFormat("Unable to access file: '%s': %s", file_name, error.message()));
+  }
+  if (std::filesystem::is_directory(status)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
-- 
2.43.0


From 9b06fddc812b198fa33f06e739a2a70c3eb0e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 060/100] fix: Readable reports FailedPrecondition for an
 unreadable file as documented

---
 mbo/file/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index 475c6ac..a1b88e2 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -105,7 +105,7 @@ absl::Status Readable(const std::filesystem::path& file_name) {
   ifs.exceptions(static_cast<std::ios_base::iostate>(0));
   ifs.open(file_name, std::ios_base::in | std::ios_base::binary);
   if (!ifs) {
-    return absl::NotFoundError(absl::StrFormat("Unable to read file: '%s'", file_name));
+    return absl::FailedPreconditionError(absl::StrFormat("Unable to read file: '%s'", file_name));
   }
 
   return absl::OkStatus();
-- 
2.43.0


From 6afed651cc77f1d22d5cebb4f6a29e895a539f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 061/100] fix: glob escapes of letters and digits are literal
 characters

---
 mbo/file/glob.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..687daf6 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -98,6 +98,15 @@ MBO_ALWAYS_INLINE bool GlobFindRangePrefix(std::string_view& pattern, std::strin
   return false;
 }
 
+// Append the character `chr` that was escaped in the glob pattern. Letters, digits and '_' have their own
+// meaning if escaped in RE2 and it rejects escaped bytes that are not ASCII, so those are copied as is.
+void AppendEscapedChar(char chr, std::string& re2_pattern) {
+  if (absl::ascii_ispunct(chr) && chr != '_') {
+    re2_pattern += '\\';
+  }
+  re2_pattern += chr;
+}
+
 bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.empty()) {
     return false;
@@ -110,7 +119,7 @@ bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.size() < 2) {
     return false;
   }
-  re2_pattern.append(pattern.substr(0, 2));
+  AppendEscapedChar(pattern[1], re2_pattern);
   pattern.remove_prefix(2);
   return true;
 }
@@ -374,7 +383,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '\\':
         // if (pattern.size() < 2) { already handled
-        absl::StrAppend(&re2_pattern, pattern.substr(0, 2));
+        AppendEscapedChar(pattern[1], re2_pattern);
         pattern.remove_prefix(2);
         continue;
       case '*': {
-- 
2.43.0


From d31a3c1b4552e4b917b30413e9484516ea1a07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 062/100] fix: glob treats '^' and '$' as literal characters

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 687daf6..0c10ca1 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -401,6 +401,8 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
       case '|':
       case '+':
       case '.':
+      case '^':
+      case '$':
         // Characters that need to be escaped since they are literal in rglob but special in re2.
         re2_pattern += '\\';
         re2_pattern += chr;
-- 
2.43.0


From 14d13f505c4b6d22ea5ba43ba5aab16520d81074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 063/100] fix: glob without ranges treats '[' as a literal
 character

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 0c10ca1..abdcc90 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -410,7 +410,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '[':
         if (!options.allow_ranges) {
-          re2_pattern += pattern.front();
+          re2_pattern += "\\[";
           pattern.remove_prefix(1);
           continue;
         }
-- 
2.43.0


From 2670469afd549ba09df8bc3ec54d58efe258ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 064/100] fix: glob '**' matches paths that contain newlines

---
 mbo/file/glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index abdcc90..1e4fd81 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -461,7 +461,9 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
     std::string_view pattern,
     const Glob2Re2Options& re2_convert_options) {
   MBO_MOVE_TO_OR_RETURN(Glob2Re2Expression(pattern, re2_convert_options), const std::string re2_pattern);
-  auto re2 = std::make_unique<RE2>(re2_pattern, re2_convert_options.re2_options);
+  RE2::Options re2_options = re2_convert_options.re2_options;
+  re2_options.set_dot_nl(true);  // '**' is any number of any characters.
+  auto re2 = std::make_unique<RE2>(re2_pattern, re2_options);
   if (re2->error_code() != RE2::NoError) {
     return absl::InvalidArgumentError(absl::StrFormat("Could not compile re2: '%s': %s.", pattern, re2->error()));
   }
-- 
2.43.0


From 6323afcb0a7221ec6942fc759e3363367b4e41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 065/100] fix: GlobSplit returns an unescaped root

---
 mbo/file/glob.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 1e4fd81..33bce74 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -22,6 +22,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #include "absl/algorithm/container.h"
 #include "absl/status/status.h"
@@ -482,8 +483,18 @@ absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re
       root = "/";
     }
   }
+  // The root is a path as opposed to a pattern, so it has no escapes.
+  std::string unescaped_root;
+  unescaped_root.reserve(root.size());
+  while (!root.empty()) {
+    if (root.starts_with('\\')) {
+      root.remove_prefix(1);
+    }
+    unescaped_root += root.front();
+    root.remove_prefix(1);
+  }
   return RootAndPattern{
-      .root = std::string{root},
+      .root = std::move(unescaped_root),
       .pattern = std::string{patt},
   };
 }
-- 
2.43.0


From c2ccab324c94e237e20671f78804a9c046bfdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 066/100] fix: glob matches entries below roots that are not
 normalized or empty

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 33bce74..e10c48e 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -569,6 +569,8 @@ absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options
       root = std::filesystem::current_path() / root;
     }
   }
+  // Entries are found relative to the normalized root, see `GlobLoopImpl`.
+  root = (root.empty() || root == ".") ? fs::current_path() : root.lexically_normal();
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
       if (options.use_rel_path) {
-- 
2.43.0


From 7021c891464223b9068846a18f823328706337a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 067/100] fix: glob returns an error if a directory cannot be
 read

---
 mbo/file/glob.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index e10c48e..126a34f 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -531,7 +531,8 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  for (; it != FileIterator(); it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -548,6 +549,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 390f7a86efcc90859740cb40aa6383615df8020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 068/100] fix: GlobEntry::FileSize is 0 if the file status
 cannot be determined

---
 mbo/file/glob.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.h b/mbo/file/glob.h
index 4eccb7e..19cbc91 100644
--- a/mbo/file/glob.h
+++ b/mbo/file/glob.h
@@ -138,10 +138,10 @@ struct GlobEntry : mbo::types::Extend<GlobEntry> {
   // Returns the file's size or 0 if the entry is not a regular file.
   // If the file size cannot be retrieved, then the function also returns 0.
   std::size_t FileSize() const noexcept {
-    if (!entry.is_regular_file()) {
+    std::error_code error;
+    if (!entry.is_regular_file(error)) {
       return 0;
     }
-    std::error_code error;
     const std::size_t result = entry.file_size(error);
     return error ? 0 : result;
   }
-- 
2.43.0


From 2a6a8958f9a7bffd52817696f5fae3efedce46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 069/100] fix: glob tool shows entries below a relative root

---
 mbo/file/glob_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..12d6309 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -69,8 +69,9 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
+  explicit Entries(const std::filesystem::path& root)
+      // Glob entries are absolute if the root is relative to the current directory.
+      : root_((std::filesystem::current_path() / root).lexically_normal()),
         dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
-- 
2.43.0


From 21a1051a0a774d1a0d8e93b9c7a2f8fd6cdb20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 070/100] fix: glob tool does not crash on entries whose status
 cannot be determined

---
 mbo/file/glob_main.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 12d6309..6108c12 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -91,22 +92,23 @@ class Entries {
   Entries& operator=(Entries&&) = delete;
 
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
+    std::error_code error;  // E.g. for a symbolic link that refers to itself.
     // Filter
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(error)) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
       }
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(error)) {
       if (!dotfile_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kContinue;
       }
     }
     // Actual Add
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(error)) {
       ++dirs_;
-    } else if (glob_entry.entry.is_symlink()) {
+    } else if (glob_entry.entry.is_symlink(error)) {
       ++links_;
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(error)) {
       ++files_;
       const std::size_t size = glob_entry.FileSize();
       size_ += size;
@@ -153,19 +155,20 @@ class Entries {
   }
 
   static char GetType(const std::filesystem::directory_entry& entry) {
-    if (entry.is_directory()) {
+    std::error_code error;  // E.g. for a symbolic link that refers to itself.
+    if (entry.is_directory(error)) {
       return 'd';
-    } else if (entry.is_symlink()) {
+    } else if (entry.is_symlink(error)) {
       return 'l';
-    } else if (entry.is_regular_file()) {
+    } else if (entry.is_regular_file(error)) {
       return 'f';
-    } else if (entry.is_block_file()) {
+    } else if (entry.is_block_file(error)) {
       return 'b';
-    } else if (entry.is_character_file()) {
+    } else if (entry.is_character_file(error)) {
       return 'c';
-    } else if (entry.is_fifo()) {
+    } else if (entry.is_fifo(error)) {
       return 'p';
-    } else if (entry.is_socket()) {
+    } else if (entry.is_socket(error)) {
       return 's';
     }
     // NO 'o' for other: entry.is_other()) {
-- 
2.43.0


From d47eab48e092e2b95d6074149d0006df2bb9d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 071/100] fix: glob tool skips files below dot directories that
 do not match the pattern

---
 mbo/file/glob_main.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 6108c12..aa975d7 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -94,6 +94,9 @@ class Entries {
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
     std::error_code error;  // E.g. for a symbolic link that refers to itself.
     // Filter
+    if (!dotdir_ && IsBelowDotDir(glob_entry.entry.path())) {
+      return mbo::file::GlobEntryAction::kDoNotRecurse;
+    }
     if (glob_entry.entry.is_directory(error)) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
@@ -154,6 +157,13 @@ class Entries {
                : mbo::file::GlobEntryAction::kDoNotRecurse;
   }
 
+  // Whether any directory between the root and `path` starts with a '.'. Such a directory is only pruned
+  // if it matches the pattern itself.
+  bool IsBelowDotDir(const std::filesystem::path& path) const {
+    const std::filesystem::path parent = path.lexically_relative(root_).parent_path();
+    return std::ranges::any_of(parent, [](const std::filesystem::path& dir) { return dir.native().starts_with('.'); });
+  }
+
   static char GetType(const std::filesystem::directory_entry& entry) {
     std::error_code error;  // E.g. for a symbolic link that refers to itself.
     if (entry.is_directory(error)) {
-- 
2.43.0


From a1e93f6da7f7c16c9e46de52bed6eeef859951d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 072/100] fix: glob ranges do not end at the end of a character
 class

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 126a34f..0437e1f 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -69,7 +69,7 @@ MBO_ALWAYS_INLINE absl::Status MaybeCharacterClass(std::string_view& glob_patter
     return absl::InvalidArgumentError("Unterminated character-class.");
   }
   MBO_RETURN_IF_ERROR(ValidateCharacterClass(glob_pattern.substr(2, end - 2)));
-  ++end;
+  end += 2;  // Past the ":]" of the character class.
   absl::StrAppend(&re2_pattern, glob_pattern.substr(0, end));
   glob_pattern.remove_prefix(end);
   return absl::OkStatus();
-- 
2.43.0


From f5e0e67a3c962440736b0ac81a11766ba91da7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 073/100] fix: GlobSplit does not read past patterns that end
 in a colon and two slashes

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 0437e1f..09ca2c8 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/file/glob.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <filesystem>
 #include <memory>
@@ -332,6 +333,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobData> GlobNormalizeData(
   }
   if (result.pattern.size() > 1 && result.pattern.ends_with('/')) {
     result.pattern.pop_back();
+    result.root_len = std::min(result.root_len, result.pattern.size());
     slash_1 = slash_0;
   }
   if (slash_1 == std::string_view::npos) {
-- 
2.43.0


From 0d7ad996550afc6cec3ed8b2c87720b97f560bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 074/100] fix: glob ranges may have a dash before a character
 class

---
 mbo/file/glob.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 09ca2c8..e0dd5e0 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -171,6 +171,9 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
           pattern.remove_prefix(1);
           return result;
         }
+        if (pattern.starts_with("[:")) {
+          continue;  // A '-' followed by a character class.
+        }
         if (!CopytNextChar(pattern, re2_pattern)) {
           return absl::InvalidArgumentError("Unterminated range expression ending in back-slash.");
         }
-- 
2.43.0


From 5525002a8d23b50984786b23a93238fd351a8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 075/100] fix: INI lines that only have whitespace do not
 create an empty key

---
 mbo/file/ini/ini_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..5fddefb 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -50,7 +50,7 @@ IniFile IniFile::Parse(std::string_view content) {
       group = line;
       continue;
     }
-    if (line.starts_with(';') || line.starts_with('#')) {
+    if (line.empty() || line.starts_with(';') || line.starts_with('#')) {
       continue;
     }
     const std::pair<std::string_view, std::string_view> key_val = absl::StrSplit(line, absl::MaxSplits('=', 1));
-- 
2.43.0


From 4f20c6574b6939f1ea5ababdcee3cd1df2895b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 076/100] fix: Json stores copies of integer lvalues as
 integers instead of as floats

---
 mbo/json/json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..86578be 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,13 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt = std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                           && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
 concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+    std::is_unsigned_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+    && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From c6deb4ea6d65e44c17c410ec774b5eaba55958fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 077/100] fix: Json can be assigned from a non-const Json of
 any kind

---
 mbo/json/json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 86578be..f505a14 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -337,7 +337,9 @@ class Json {
     return *this;
   }
 
+  // Does not apply to (pointers to) `Json`, so that those always use the copy or move assignment.
   template<typename Value, typename = ToKind<Value>>
+  requires(!JsonUseObject<Value> && !std::same_as<std::remove_cvref_t<Value>, std::unique_ptr<Json>>)
   Json& operator=(Value&& value) {  // NOLINT(misc-unconventional-assign-operator,*-signature): See above.
     CopyFrom(std::forward<Value>(value));
     return *this;
-- 
2.43.0


From 1ab314d10f95a252d20a77f38b23b70bef3d4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 078/100] fix: Json objects compare independently of the
 iteration order of their properties

---
 mbo/json/json.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index f505a14..929b553 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -30,6 +31,7 @@
 #include <type_traits>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "mbo/config/require.h"
@@ -825,13 +827,28 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // The iteration order of the map is unspecified, so compare in the order of the property names.
+      const auto sorted = [](const Json::Object& object) {
+        std::vector<Json::Object::const_pointer> result;
+        result.reserve(object.size());
+        for (const auto& property : object) {
+          result.push_back(&property);
+        }
+        std::ranges::sort(result, {}, [](Json::Object::const_pointer property) -> const std::string& {
+          return property->first;
+        });
+        return result;
+      };
+      const auto lhs_sorted = sorted(lhs);
+      const auto rhs_sorted = sorted(rhs);
+      auto lhs_it = lhs_sorted.begin();
+      auto rhs_it = rhs_sorted.begin();
+      while (lhs_it != lhs_sorted.end() && rhs_it != rhs_sorted.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From a700700602e3ee3ee48bb0d54a4d58b05a7dc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 079/100] fix: Json::values does not print to the standard
 output

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 929b553..f71d2a1 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -651,12 +651,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From 67e112afc6c4fca1eb66b0a6d93bb93c7e4ae229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 080/100] fix: Stringify writes floating point numbers with
 enough digits in JSON modes

---
 mbo/types/stringify.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index efbb7f1..950c013 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -37,6 +37,7 @@
 #include "absl/log/absl_check.h"
 #include "absl/log/absl_log.h"
 #include "absl/strings/escaping.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "mbo/config/require.h"
 #include "mbo/types/internal/extender.h"      // IWYU pragma: keep
@@ -1317,6 +1318,12 @@ class Stringify {
       }
     } else if constexpr (std::is_arithmetic_v<RawV>) {
       if (options.outer.value_overrides->replacement_other.empty()) {
+        if constexpr (std::is_floating_point_v<RawV>) {
+          if (options.outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
+            os << JsonFloat(v);
+            return;
+          }
+        }
         os << absl::StreamFormat("%v", v);
       } else {
         os << options.outer.value_overrides->replacement_other;
@@ -1334,6 +1341,20 @@ class Stringify {
     }
   }
 
+  // Formats as "%v" if that denotes `v`, otherwise uses as many more digits as necessary.
+  template<std::floating_point V>
+  static std::string JsonFloat(V v) {
+    static constexpr int kDefaultPrecision = 6;
+    std::string result;
+    for (int precision = kDefaultPrecision; precision <= std::numeric_limits<V>::max_digits10; ++precision) {
+      result = absl::StrFormat("%.*g", precision, v);
+      if (double parsed = 0; absl::SimpleAtod(result, &parsed) && static_cast<V>(parsed) == v) {
+        break;
+      }
+    }
+    return result;
+  }
+
   template<IsPair V>
   void StreamValuePair(OStream& os, const StringifyFieldOptions& options, const V& v, bool allow_field_names) const {
     using RawV = std::remove_cvref_t<V>;
-- 
2.43.0


From 04b967bde40bf8c5833fea40460b4ade776cba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 081/100] fix: mope sections stay valid when another section of
 the same name is added

---
 mbo/mope/mope.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..66c19e9 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -85,7 +86,7 @@ class Template {
 
   struct Section {
     mutable std::string join;
-    std::vector<Template> dictionary;
+    std::list<Template> dictionary;  // Stable addresses, `AddSection` returns pointers.
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From e244109c00fd70d559f1a1ef17f9b286f7fd7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 082/100] fix: mope section tags can join with a reference and
 reject bad joiners

---
 mbo/mope/mope.cc | 21 +++++++++------------
 mbo/mope/mope.h  |  7 +++++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..1324b90 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -252,7 +252,11 @@ absl::Status Template::ExpandRangeData(
   return result;
 }
 
-absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output) {
+absl::Status Template::ExpandSection(
+    const TagData<Section>& tag,
+    std::string_view join,
+    Context& ctx,
+    std::string& output) {
   const std::string original(std::move(output));
   output = "";
   bool first = true;
@@ -260,7 +264,7 @@ absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx,
     std::string result(original);
     MBO_RETURN_IF_ERROR(section.ExpandInternal(ctx, result));
     if (!first) {
-      output.append(tag.data.join);
+      output.append(join);
     }
     first = false;
     output.append(result);
@@ -345,16 +349,9 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
       output.clear();
       return absl::OkStatus();
     }
-    static constexpr mbo::strings::ParseOptions kOptions{
-        .remove_quotes = true,
-        .allow_unquoted = false,
-    };
-    std::string_view join;
-    if (tag.option.has_value()) {
-      join = *tag.option;
-    }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
-    return ExpandSection(*section, ctx, output);
+    std::string join;
+    MBO_RETURN_IF_ERROR(MaybeLookup(tag, tag.option.value_or(""), ctx, join));
+    return ExpandSection(*section, join, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 66c19e9..7b8e1d6 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -85,7 +85,6 @@ class Template {
   };
 
   struct Section {
-    mutable std::string join;
     std::list<Template> dictionary;  // Stable addresses, `AddSection` returns pointers.
   };
 
@@ -158,7 +157,11 @@ class Template {
 
   absl::Status ExpandInternal(Context& ctx, std::string& output) const;
 
-  static absl::Status ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output);
+  static absl::Status ExpandSection(
+      const TagData<Section>& tag,
+      std::string_view join,
+      Context& ctx,
+      std::string& output);
 
   template<typename Sink>
   friend void AbslStringify(Sink& /*sink*/, TagType /*tag*/);
-- 
2.43.0


From a05133d90ddaed06393cc75210336bbd778f7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 083/100] fix: mope ranges end at the limits of int

---
 mbo/mope/mope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 1324b90..f33a4be 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -16,6 +16,7 @@
 #include "mbo/mope/mope.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -211,8 +212,9 @@ absl::Status Template::ExpandRangeTag(const TagInfo& /*tag*/, Range& range, Cont
   }
   range.expanding = true;
   const absl::Cleanup cleanup = [&range] { range.expanding = false; };
-  for (range.curr = range.start; range.step > 0 ? range.curr <= range.end : range.curr >= range.end;
-       range.curr += range.step) {
+  // Iterate in 64 bits: the value after the last one may not fit an `int`.
+  for (std::int64_t curr = range.start; range.step > 0 ? curr <= range.end : curr >= range.end; curr += range.step) {
+    range.curr = static_cast<int>(curr);
     if (!range.join.empty() && range.curr != range.start) {
       output.append(range.join);
     }
-- 
2.43.0


From 31e1dece612341c189d6c6efc9b24f5892a5675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 084/100] fix: mope range joiners may contain a semicolon

---
 mbo/mope/mope.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index f33a4be..be208e4 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -357,7 +357,7 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
-          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;([^;]*))?)?)"};
+          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;((?:.|\n)*))?)?)"};
   RangeData range;
   if (RE2::FullMatch(*tag.config, *kReFor, &range.start, &range.end, &range.step, &range.join)) {
     return ExpandRangeData(tag, range, ctx, output);
-- 
2.43.0


From 1f290cb4243f191d30cf453b99886f9a54045dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 085/100] fix: mope tool reports a template that cannot be read

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..f510ddb 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(auto input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From e7e2580ea0d4abb2474631854a8bb1e4956fe763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 086/100] fix: mope tool flag --set keeps values that contain
 an equal sign

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index f510ddb..94f95b9 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -73,7 +73,7 @@ absl::Status ApplySetFlag(
     absl::flat_hash_map<std::string, std::string>& context_data) {
   static constexpr std::string_view kEmptyPartError =
       "No part of the key in `--set=<key>=<value>` may be empty if split by ':'.";
-  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, '='));
+  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, absl::MaxSplits('=', 1)));
   std::vector<std::string_view> section_names = absl::StrSplit(names, ':');
   const std::string_view key = section_names.back();
   if (key.empty()) {
-- 
2.43.0


From 45d21e6117c84ff074c9f121d9c740efb8ef6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 087/100] fix: mope tool works without an INI file

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 94f95b9..87e8ccd 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -39,7 +39,7 @@
 
 ABSL_FLAG(std::string, template, "", "The templte input file (.tpl, .mope).");
 ABSL_FLAG(std::string, generate, "-", "The generated out file ('-' for stdout)");
-ABSL_FLAG(std::string, ini, "-", "An INI file that can be used to initialize section data.");
+ABSL_FLAG(std::string, ini, "", "An INI file that can be used to initialize section data.");
 
 ABSL_FLAG(
     std::vector<std::string>,
-- 
2.43.0


From e7622378495a63529b9539b9b4262dfa1624fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 088/100] fix: StatusBuilder::SetPrepend puts the text in front
 of the message even without SetAppend

---
 mbo/status/status_builder.cc | 13 ++++++++++---
 mbo/status/status_builder.h  |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..b1a527f 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,12 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
-  absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+  std::string message = data_->stream.str();
+  if (!data_->appended) {
+    message = data_->prepend ? absl::StrCat(message, data_->status.message())
+                             : absl::StrCat(data_->status.message(), message);
+  }
+  absl::Status result(data_->status.code(), message);
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..1619d67 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -127,6 +127,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    bool prepend = false;
     bool appended = false;
   };
 
-- 
2.43.0


From 60ca45f19ad9100852258012110158fcf3f3a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 089/100] fix: MBO_RETURN_IF_ERROR can be used with variables
 named var

---
 mbo/status/status_macros.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbo/status/status_macros.h b/mbo/status/status_macros.h
index 6560481..fc68caa 100644
--- a/mbo/status/status_macros.h
+++ b/mbo/status/status_macros.h
@@ -42,12 +42,12 @@
 // ```
 //
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define MBO_RETURN_IF_ERROR(expr)                                                    \
-  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                     \
-  if (auto var = (expr); var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
-    /* GOOD */                                                                       \
-  } else                                                                             \
-    return mbo::status::StatusBuilder(var)
+#define MBO_RETURN_IF_ERROR(expr)                                                                                \
+  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                                                 \
+  if (auto _status_macro_var_ = (expr); _status_macro_var_.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
+    /* GOOD */                                                                                                   \
+  } else                                                                                                         \
+    return mbo::status::StatusBuilder(_status_macro_var_)
 
 // Similar to MBO_RETURN_IF_ERROR but this assigns the result of an `absl::StatusOr<T>`, to a target
 // which can be an existing variable or a new variable declaration. The asignment is by move.
-- 
2.43.0


From 6101476a03db0bd6d5e5796923d742fa1058fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 090/100] fix: WhenTransformedBy matchers can be stored

---
 mbo/testing/matchers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index bbfd0dc..44c6c18 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const Transformer& transformer_;
+    const std::decay_t<Transformer> transformer_;
     const MatcherType container_matcher_;
   };
 
-  const Transformer& transformer_;
-  const ContainerMatcher& container_matcher_;
+  const std::decay_t<Transformer> transformer_;
+  const ContainerMatcher container_matcher_;
 };
 
 }  // namespace testing_internal
-- 
2.43.0


From 71db44f6aed9c761c0815a5ad86c69681e6bbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 091/100] Revert "fix: WhenTransformedBy matchers can be
 stored"

mbo/testing holds test support, which is to stay as it is.
---
 mbo/testing/matchers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index 44c6c18..bbfd0dc 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const std::decay_t<Transformer> transformer_;
+    const Transformer& transformer_;
     const MatcherType container_matcher_;
   };
 
-  const std::decay_t<Transformer> transformer_;
-  const ContainerMatcher container_matcher_;
+  const Transformer& transformer_;
+  const ContainerMatcher& container_matcher_;
 };
 
 }  // namespace testing_internal
-- 
2.43.0


From 667086d9ec76972300e115f1c6448b8dc84979e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 092/100] fix: NoDestruct hashing and stringification use the
 held value

---
 mbo/types/no_destruct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..10fabe5 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.Get()));
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
-- 
2.43.0


From 23d8cb7a31c31a33713abb1376584259b3a6975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 093/100] fix: The limited containers accept any forward
 iterator range

---
 mbo/container/internal/limited_ordered.h | 4 ++--
 mbo/container/limited_vector.h           | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index df82310..19a125f 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -465,7 +465,7 @@ class [[nodiscard]] LimitedOrdered {
         MBO_CONFIG_REQUIRE(std::is_sorted(first, last, comp), "Flag `kRequireSortedInput` violated.");
       }
     }
-    while (first < last) {
+    while (first != last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
         const auto& new_val = *first;
         if (size_ == 0 || is_less_than_new(values_[size_ - 1], new_val)) {  // Otherwise a duplicate.
@@ -993,7 +993,7 @@ class [[nodiscard]] LimitedOrdered {
 
   template<typename InputIt>
   constexpr void insert(InputIt first, InputIt last) {
-    while (first < last) {
+    while (first != last) {
       emplace(*first);
       ++first;
     }
diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 03a1e52..28a0f51 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -178,7 +178,7 @@ class LimitedVector final {
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<T, mbo::types::ForwardIteratorValueType<It>>
   constexpr LimitedVector(It begin, It end) noexcept {
-    while (begin < end) {
+    while (begin != end) {
       emplace_back(*begin++);
     }
   }
@@ -365,7 +365,7 @@ class LimitedVector final {
   template<std::forward_iterator It>
   constexpr void assign(It begin, It end) noexcept {
     clear();
-    while (begin < end) {
+    while (begin != end) {
       emplace_back(*begin++);
     }
   }
@@ -416,7 +416,9 @@ class LimitedVector final {
   requires(types::ConstructibleFrom<T, decltype(*std::declval<InputIt>())>)
   constexpr iterator insert(const_iterator pos, InputIt first, InputIt last) {
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
-    MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
+    if constexpr (requires { first <= last; }) {
+      MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
+    }
     std::size_t count = std::distance(first, last);
     MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(*-pro-type-const-cast)
-- 
2.43.0


From 67bb147f1e72421df7c18f1d8f2db9fbdaa90791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 094/100] fix: The limited containers throw on all requirement
 violations when configured to

---
 mbo/container/internal/limited_ordered.h | 10 +++++++---
 mbo/container/limited_map.h              | 15 +++++++++++----
 mbo/container/limited_set.h              | 15 +++++++++++----
 mbo/container/limited_vector.h           | 16 ++++++++--------
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 19a125f..57d37f8 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -456,7 +456,7 @@ class [[nodiscard]] LimitedOrdered {
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<RawValue, mbo::types::ForwardIteratorValueType<It>>
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
-      : key_comp_(key_comp) {
+      : LimitedOrdered(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
       if constexpr (kKeyOnly) {
         MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
@@ -479,12 +479,16 @@ class [[nodiscard]] LimitedOrdered {
     }
   }
 
-  constexpr LimitedOrdered(const std::initializer_list<value_type>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedOrdered(
+      const std::initializer_list<value_type>& list,
+      const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : LimitedOrdered(list.begin(), list.end(), key_comp) {}
 
   template<types::ConstructibleInto<value_type> U>
   requires(!std::same_as<U, value_type>)
-  constexpr LimitedOrdered(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedOrdered(
+      const std::initializer_list<U>& list,
+      const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : LimitedOrdered(list.begin(), list.end(), key_comp) {}
 
   template<types::ConstructibleInto<value_type> U, auto OtherN>
diff --git a/mbo/container/limited_map.h b/mbo/container/limited_map.h
index c3125bd..f03d533 100644
--- a/mbo/container/limited_map.h
+++ b/mbo/container/limited_map.h
@@ -109,15 +109,19 @@ class LimitedMap final
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<KeyValueType, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedMap(It begin, It end, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(It begin, It end, const KeyComp& key_comp = KeyComp()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(begin, end, key_comp) {}
 
-  constexpr LimitedMap(const std::initializer_list<KeyValueType>& list, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(
+      const std::initializer_list<KeyValueType>& list,
+      const KeyComp& key_comp = KeyComp()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<KeyValueType> U>
   requires(!std::same_as<U, KeyValueType>)
-  constexpr LimitedMap(const std::initializer_list<U>& list, const KeyComp& key_comp = KeyComp()) noexcept
+  constexpr LimitedMap(
+      const std::initializer_list<U>& list,
+      const KeyComp& key_comp = KeyComp()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<KeyValueType> U, auto OtherN>
@@ -335,7 +339,10 @@ template<
     std::forward_iterator It,
     typename KComp = types::CompareLess<typename mbo::types::ForwardIteratorValueType<It>::first_type>>
 requires(types::IsPair<std::remove_cvref_t<typename mbo::types::ForwardIteratorValueType<It>>>)
-inline constexpr auto MakeLimitedMap(It begin, It end, const KComp& key_comp = KComp()) noexcept {
+inline constexpr auto MakeLimitedMap(
+    It begin,
+    It end,
+    const KComp& key_comp = KComp()) noexcept(!::mbo::config::kRequireThrows) {
   using KV = mbo::types::ForwardIteratorValueType<It>;
   return LimitedMap<typename KV::first_type, typename KV::second_type, N, KComp>(begin, end, key_comp);
 }
diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 0c34189..d113f6c 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -93,15 +93,19 @@ class LimitedSet final : public container_internal::LimitedOrdered<Key, Key, Key
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<Key, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedSet(It begin, It end, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(It begin, It end, const Compare& key_comp = Compare()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(begin, end, key_comp) {}
 
-  constexpr LimitedSet(const std::initializer_list<Key>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(
+      const std::initializer_list<Key>& list,
+      const Compare& key_comp = Compare()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<Key> U>
   requires(!std::same_as<U, Key>)
-  constexpr LimitedSet(const std::initializer_list<U>& list, const Compare& key_comp = Compare()) noexcept
+  constexpr LimitedSet(
+      const std::initializer_list<U>& list,
+      const Compare& key_comp = Compare()) noexcept(!::mbo::config::kRequireThrows)
       : LimitedBase(list, key_comp) {}
 
   template<types::ConstructibleInto<Key> U, auto OtherN>
@@ -253,7 +257,10 @@ inline constexpr auto MakeLimitedSet() noexcept {  // Parameter `key_comp` would
 }
 
 template<auto N, std::forward_iterator It, typename Compare = std::less<mbo::types::ForwardIteratorValueType<It>>>
-inline constexpr auto MakeLimitedSet(It begin, It end, const Compare& key_comp = Compare()) noexcept {
+inline constexpr auto MakeLimitedSet(
+    It begin,
+    It end,
+    const Compare& key_comp = Compare()) noexcept(!::mbo::config::kRequireThrows) {
   return LimitedSet<mbo::types::ForwardIteratorValueType<It>, N, Compare>(begin, end, key_comp);
 }
 
diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 28a0f51..53a07db 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -177,13 +177,13 @@ class LimitedVector final {
 
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<T, mbo::types::ForwardIteratorValueType<It>>
-  constexpr LimitedVector(It begin, It end) noexcept {
+  constexpr LimitedVector(It begin, It end) noexcept(!kRequireThrows) : LimitedVector() {
     while (begin != end) {
       emplace_back(*begin++);
     }
   }
 
-  constexpr LimitedVector(const std::initializer_list<T>& list) noexcept {
+  constexpr LimitedVector(const std::initializer_list<T>& list) noexcept(!kRequireThrows) : LimitedVector() {
     auto it = list.begin();
     while (it < list.end()) {
       emplace_back(*it++);
@@ -191,7 +191,7 @@ class LimitedVector final {
   }
 
   template<types::ConstructibleInto<T> U>
-  constexpr LimitedVector(const std::initializer_list<U>& list) noexcept {
+  constexpr LimitedVector(const std::initializer_list<U>& list) noexcept(!kRequireThrows) : LimitedVector() {
     auto it = list.begin();
     while (it < list.end()) {
       emplace_back(*it++);
@@ -255,7 +255,7 @@ class LimitedVector final {
     }
   }
 
-  constexpr void resize(std::size_t new_size) noexcept {
+  constexpr void resize(std::size_t new_size) noexcept(!kRequireThrows) {
     while (new_size < size()) {
       pop_back();
     }
@@ -274,7 +274,7 @@ class LimitedVector final {
 
   template<typename U, auto OtherN>
   requires(std::same_as<T, U> && MakeLimitedOptions<OtherN>().kCapacity <= Capacity)
-  constexpr void swap(LimitedVector<U, OtherN>& other) noexcept {
+  constexpr void swap(LimitedVector<U, OtherN>& other) noexcept(!kRequireThrows) {
     std::size_t pos = 0;
     for (; pos < size_ && pos < other.size(); ++pos) {
       std::swap(values_[pos].data, other.at(pos));
@@ -355,7 +355,7 @@ class LimitedVector final {
     std::destroy_at(&values_[--size_].data);
   }
 
-  constexpr void assign(std::size_t num, const T& value) noexcept {
+  constexpr void assign(std::size_t num, const T& value) noexcept(!kRequireThrows) {
     clear();
     for (; num > 0; --num) {
       push_back(value);
@@ -363,7 +363,7 @@ class LimitedVector final {
   }
 
   template<std::forward_iterator It>
-  constexpr void assign(It begin, It end) noexcept {
+  constexpr void assign(It begin, It end) noexcept(!kRequireThrows) {
     clear();
     while (begin != end) {
       emplace_back(*begin++);
@@ -604,7 +604,7 @@ inline constexpr auto MakeLimitedVector() noexcept {
 }
 
 template<std::size_t N, LimitedOptionsFlag... Flags, std::forward_iterator It>
-inline constexpr auto MakeLimitedVector(It&& begin, It&& end) noexcept {
+inline constexpr auto MakeLimitedVector(It&& begin, It&& end) noexcept(!::mbo::config::kRequireThrows) {
   return LimitedVector<mbo::types::ForwardIteratorValueType<It>, LimitedOptions<N, Flags...>{}>(
       std::forward<It>(begin), std::forward<It>(end));
 }
-- 
2.43.0


From 567bc8cda7f0519a4f75fa1aab6bd9c5089f057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 095/100] fix: OptionalRef and OptionalDataOrRef throw when
 accessed without value if configured to

---
 mbo/types/optional_data_or_ref.h | 12 ++++++------
 mbo/types/optional_ref.h         | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index c53dbd3..cb58487 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -176,12 +176,12 @@ class OptionalDataOrRef {
 
   constexpr bool HoldsReference() const noexcept { return !is_val_ && union_.ptr != nullptr; }
 
-  constexpr reference value() noexcept {
+  constexpr reference value() noexcept(!::mbo::config::kRequireThrows) {
     MBO_CONFIG_REQUIRE(has_value(), "No value set for: ") << mbo::log::DemangleV(*this);
     return is_val_ ? union_.val : *union_.ptr;
   }
 
-  constexpr const_reference value() const noexcept {
+  constexpr const_reference value() const noexcept(!::mbo::config::kRequireThrows) {
     MBO_CONFIG_REQUIRE(has_value(), "No value set for: ") << mbo::log::DemangleV(*this);
     return is_val_ ? union_.val : *union_.ptr;
   }
@@ -222,13 +222,13 @@ class OptionalDataOrRef {
     return union_.val;
   }
 
-  constexpr reference operator*() noexcept { return value(); }
+  constexpr reference operator*() noexcept(!::mbo::config::kRequireThrows) { return value(); }
 
-  constexpr const_reference operator*() const noexcept { return value(); }
+  constexpr const_reference operator*() const noexcept(!::mbo::config::kRequireThrows) { return value(); }
 
-  constexpr pointer operator->() noexcept { return &value(); }
+  constexpr pointer operator->() noexcept(!::mbo::config::kRequireThrows) { return &value(); }
 
-  constexpr const_pointer operator->() const noexcept { return &value(); }
+  constexpr const_pointer operator->() const noexcept(!::mbo::config::kRequireThrows) { return &value(); }
 
   template<std::equality_comparable_with<T> U = T, typename RefU = U>
   constexpr bool operator==(const OptionalDataOrRef<U, RefU>& rhs) const noexcept {
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 88ad0fa..1350531 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -68,23 +68,23 @@ class OptionalRef {
 
   constexpr explicit operator bool() const noexcept { return has_value(); }
 
-  constexpr reference value() noexcept {  // NOLINT(*-identifier-naming)
+  constexpr reference value() noexcept(!::mbo::config::kRequireThrows) {  // NOLINT(*-identifier-naming)
     MBO_CONFIG_REQUIRE(has_value(), "No value set for: ") << mbo::log::DemangleV(*this);
     return *v_;
   }
 
-  constexpr const_reference value() const noexcept {  // NOLINT(*-identifier-naming)
+  constexpr const_reference value() const noexcept(!::mbo::config::kRequireThrows) {  // NOLINT(*-identifier-naming)
     MBO_CONFIG_REQUIRE(has_value(), "No value set for: ") << mbo::log::DemangleV(*this);
     return *v_;
   }
 
-  constexpr reference operator*() noexcept { return value(); }
+  constexpr reference operator*() noexcept(!::mbo::config::kRequireThrows) { return value(); }
 
-  constexpr const_reference operator*() const noexcept { return value(); }
+  constexpr const_reference operator*() const noexcept(!::mbo::config::kRequireThrows) { return value(); }
 
-  constexpr pointer operator->() noexcept { return &value(); }
+  constexpr pointer operator->() noexcept(!::mbo::config::kRequireThrows) { return &value(); }
 
-  constexpr const_pointer operator->() const noexcept { return &value(); }
+  constexpr const_pointer operator->() const noexcept(!::mbo::config::kRequireThrows) { return &value(); }
 
   template<AssignableTo<T&> U = T>
   constexpr OptionalRef& operator=(U&& v) noexcept {
-- 
2.43.0


From 64320cf7589dee9d3a6fa0cf9ae444c71be55c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 096/100] fix: Json property access throws if configured to

---
 mbo/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index f71d2a1..0c4a94f 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -526,7 +526,7 @@ class Json {
     return *it->second;
   }
 
-  const Json& operator[](std::string_view property) const noexcept {
+  const Json& operator[](std::string_view property) const noexcept(!::mbo::config::kRequireThrows) {
     MBO_CONFIG_REQUIRE(IsObject(), "Is not an Object.");
     MBO_CONFIG_REQUIRE(contains(property), "Property not present:") << "'" << property << "'.";
     return *(std::get<Object>(data_)).at(property);
-- 
2.43.0


From 8316acda69ea41a58712a9b944dc87a6920e6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 097/100] fix: Stringify throws on incomplete options if
 configured to

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 950c013..5022f04 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -749,7 +749,7 @@ class Stringify {
 
   explicit constexpr Stringify(
       const StringifyOptions& default_options = OptionsDefault(),
-      const StringifyRootOptions& root_options = kRootOptionDefaults) noexcept
+      const StringifyRootOptions& root_options = kRootOptionDefaults) noexcept(!::mbo::config::kRequireThrows)
       : default_root_options_(root_options), default_field_options_(default_options) {
     MBO_CONFIG_REQUIRE(default_field_options_.AllDataSet(), "Not all data set: ") << default_field_options_.DebugStr();
   }
-- 
2.43.0


From 703c3721a57fd755d287b1a27e9fdd3dc883aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 098/100] fix: Json property insertion throws if configured to

---
 mbo/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 0c4a94f..77cd5ce 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -517,7 +517,7 @@ class Json {
     return (*std::get<Array>(data_))[index];
   }
 
-  Json& operator[](std::string_view property) noexcept {
+  Json& operator[](std::string_view property) noexcept(!::mbo::config::kRequireThrows) {
     MakeObject();
     auto [it, inserted] = std::get<Object>(data_).emplace(property, nullptr);
     if (inserted) {
-- 
2.43.0


From 88424848984732fcc219420d542a77b53703e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 099/100] fix: diff_test must only take "external/" itself for
 the external prefix

---
 mbo/diff/diff.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 5c773cc..fb58e6d 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -132,8 +132,8 @@ set -xeuo pipefail
 
 OLD="{file_old}"
 NEW="{file_new}"
-[[ "${{OLD}}" =~ ^external/* ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
-[[ "${{NEW}}" =~ ^external/* ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
+[[ "${{OLD}}" =~ ^external/ ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
+[[ "${{NEW}}" =~ ^external/ ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
 if [[ -d "${{RUNFILES_DIR:-/dev/null}}" && "${{RUNFILES_MANIFEST_ONLY:-}}" != 1 ]]; then
   OLD="${{RUNFILES_DIR}}/${{OLD}}"
   NEW="${{RUNFILES_DIR}}/${{NEW}}"
-- 
2.43.0


From 3866c13c00b0bfaa7b2faaf42e2f23d0f2e8d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 100/100] fix: diff_test must pass minimal, skip_left_deletions
 and width on to the tool

---
 mbo/diff/diff.bzl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index fb58e6d..cb6a37b 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -160,12 +160,15 @@ if ! {diff_tool} "${{OLD}}" "${{NEW}}" \
     --ignore_matching_lines={ignore_matching_lines} \
     --ignore_trailing_space={ignore_trailing_space} \
     --ignore_missing_final_newline={ignore_missing_final_newline} \
+    --minimal={minimal} \
     --regex_replace_lhs={regex_replace_lhs} \
     --regex_replace_rhs={regex_replace_rhs} \
     --show_chunk_headers={show_chunk_headers} \
+    --skip_left_deletions={skip_left_deletions} \
     --strip_comments={strip_comments} \
     --strip_file_header_prefix={strip_file_header_prefix} \
     --strip_parsed_comments={strip_parsed_comments} \
+    {width} \
 ; then
   EXTRA_FAILURE_MESSAGE={failure_message}
   echo >&2 "FAIL: files \"{file_old}\" and \"{file_new}\" differ.${{EXTRA_FAILURE_MESSAGE:+ }}${{EXTRA_FAILURE_MESSAGE}}"
-- 
2.43.0

