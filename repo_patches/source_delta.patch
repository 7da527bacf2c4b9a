From 93b8e6d15a42a0374ee31a10e64e2fac2e05d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 01/21] fix: base64_decode() reads out of bounds on malformed
 input

Non-ASCII characters were used as negative table index, and a string of length 4n+1 was read beyond its end.
---
 src/utki/base64.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..6e57382 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: incomplete quad");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From 947a92dfefbafef3ccfc4811c61f9cff0ad6fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 02/21] fix: utf8_iterator reads beyond terminating zero of
 truncated string

Also a shift by more than width of the type on malformed leading bytes.
---
 src/utki/unicode.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..e64dc3c 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -67,7 +67,12 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		return *this;
 	}
 
-	if (this->p == this->end) {
+	// truncated multibyte character, do not go beyond the end of the span or beyond the terminating zero
+	auto is_truncated = [this]() {
+		return this->p == this->end || (this->end == nullptr && *this->p == 0);
+	};
+
+	if (is_truncated()) {
 		this->c = 0;
 		return *this;
 	}
@@ -83,7 +88,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 		 ++this->p)
 	{
-		if (this->p == this->end) {
+		if (is_truncated()) {
 			this->c = 0;
 			return *this;
 		}
@@ -91,8 +96,11 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
-	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	// malformed leading byte 0xfe or 0xff has no payload bits
+	if (i < 7) { // NOLINT(cppcoreguidelines-avoid-magic-numbers)
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From 3c3d6aa575165951d76811c564827e1256102880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 03/21] fix: ends_with() is false when the suffix also occurs
 earlier in the string

---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..bc23a52 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.substr(str.size() - suffix.size()) == suffix;
 #endif
 }
 
-- 
2.43.0


From 6b82e9887b925a39bf7a213c95d2e6b6b9938036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 04/21] fix: at_level() terminates the program instead of
 throwing std::out_of_range

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From 168cc7f97630619ad71efa9ac2287d610a50649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 05/21] fix: overlaps() is true for empty span

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..e495e90 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return s.data() <= p && p < s.data() + s.size(); // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From 34ea255789c0763343acdb31b495dfe55f98b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 06/21] fix: signal::emit() moves by-value arguments into the
 first callback

So all the other callbacks got moved-from arguments.
---
 src/utki/signal.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..4aef39b 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -52,6 +53,17 @@ public:
 private:
 	std::list<callback_type> callbacks;
 
+	// Arguments passed by value must not be moved from, because same arguments are passed to each of the callbacks.
+	template <typename arg_type>
+	static decltype(auto) pass(std::remove_reference_t<arg_type>& a) noexcept
+	{
+		if constexpr (std::is_copy_constructible_v<arg_type>) {
+			return static_cast<const arg_type&>(a);
+		} else {
+			return std::forward<arg_type>(a);
+		}
+	}
+
 public:
 	~signal()
 	{
@@ -93,7 +105,7 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			c(pass<args_type>(a)...);
 		}
 	}
 
-- 
2.43.0


From a0c75f112d49fc38f148c650a55d5382ffa3b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 07/21] fix: exception::to_string() ignores indentation

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From 3ec08ac1de7f31a00825004f23b04905c4a6c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 08/21] fix: to_string() of exception terminates the program
 when nothing is nested

This happens when std::throw_with_nested() is called outside of catch block.
---
 src/utki/exception.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 88369b7..68e1887 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -66,6 +66,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	try {
 		throw;
 	} catch (std::nested_exception& nested) {
+		if (!nested.nested_ptr()) {
+			// nothing is nested, the exception itself is already printed
+			return ss.str();
+		}
 		try {
 			nested.rethrow_nested();
 		} catch (std::exception& e) {
@@ -87,7 +91,10 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
 	try {
-		std::rethrow_if_nested(e);
+		auto nested = dynamic_cast<const std::nested_exception*>(&e);
+		if (nested && nested->nested_ptr()) {
+			nested->rethrow_nested();
+		}
 	} catch (std::exception& nested) {
 		ss << "\n" << to_string(nested, indentation);
 	} catch (...) {
-- 
2.43.0


From 31feb0de0dda9a136d422a3c6fd47e7287fd156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 09/21] fix: make_indentation() returns wrong indentation when
 depth * size overflows unsigned

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From da413bc4377eb94b2c274714a0fe31f7195a651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 10/21] fix: make_const_iterator() of mutable traversal does
 not compile

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index d028e6e..fb7ef76 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		typename iterator_internal<is_const>::iterator_type iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From 51b1cba6237e4f35eeb5cb88ac3bf7c61316cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 11/21] fix: assignment between a tree and a part of it

Assigning a subtree to its ancestor, or an ancestor to its descendant, read from nodes which were already overwritten or destroyed.
---
 src/utki/tree.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index fb7ef76..a4c4f70 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #pragma once
 
 #include <cstddef>
+#include <type_traits>
 #include <vector>
 
 #include "debug.hpp"
@@ -73,10 +74,30 @@ public:
 	container_type children;
 
 	tree(const tree&) = default;
-	tree& operator=(const tree&) = default;
+
+	tree& operator=(const tree& t)
+	{
+		// the assigned tree can be a part of this tree or vice versa,
+		// so make a copy before changing anything
+		return this->operator=(tree(t));
+	}
 
 	tree(tree&&) = default;
-	tree& operator=(tree&&) = default;
+
+	tree& operator=(tree&& t) noexcept( //
+		std::is_nothrow_move_constructible_v<element_type> && //
+		std::is_nothrow_move_assignable_v<element_type> && //
+		std::is_nothrow_move_constructible_v<container_type> && //
+		std::is_nothrow_move_assignable_v<container_type>
+	)
+	{
+		// the assigned tree can be a part of this tree,
+		// so take it out of there before destroying own children
+		tree tmp(std::move(t));
+		this->value = std::move(tmp.value);
+		this->children = std::move(tmp.children);
+		return *this;
+	}
 
 	~tree() = default;
 
-- 
2.43.0


From 5be9eee401e515af0a894d4b1c24e0b9ad4a9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 12/21] fix: CFG_COMPILER_MSVC_TOOLS_V of VS2017 before 15.9
 and VS2019 before 16.10

Toolset v141 has _MSC_VER 1910 to 1916, v142 has 1920 to 1929.
---
 src/utki/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/config.hpp b/src/utki/config.hpp
index 5d3e47b..a847644 100644
--- a/src/utki/config.hpp
+++ b/src/utki/config.hpp
@@ -124,9 +124,9 @@ SOFTWARE.
 
 #if defined(_MSC_VER)
 #	define CFG_COMPILER CFG_COMPILER_MSVC
-#	if _MSC_VER < 1916
+#	if _MSC_VER < 1910
 #		define CFG_COMPILER_MSVC_TOOLS_V 140
-#	elif _MSC_VER < 1929
+#	elif _MSC_VER < 1920
 #		define CFG_COMPILER_MSVC_TOOLS_V 141
 #	elif _MSC_VER < 1930
 #		define CFG_COMPILER_MSVC_TOOLS_V 142
-- 
2.43.0


From df6b90641b2d18e066acea3b3f4809cd71a792c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 13/21] fix: CFG_CPU is unknown with clang

---
 src/utki/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/config.hpp b/src/utki/config.hpp
index a847644..2f66a4c 100644
--- a/src/utki/config.hpp
+++ b/src/utki/config.hpp
@@ -188,7 +188,7 @@ SOFTWARE.
 #	define CFG_CPU CFG_CPU_WASM
 #	define CFG_CPU_BITS 32
 
-#elif CFG_COMPILER == CFG_COMPILER_GCC
+#elif CFG_COMPILER == CFG_COMPILER_GCC || CFG_COMPILER == CFG_COMPILER_CLANG
 #	if defined(__i386__) // __i386__ is defined for any x86 processor
 #		define CFG_CPU CFG_CPU_X86
 #		define CFG_CPU_BITS 32
-- 
2.43.0


From 1b09510998c787d38f3f784763e4ba353a3af019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 14/21] fix: CFG_CPU_BITS of 64 bit WebAssembly,
 CFG_CPU_VERSION of WebAssembly is not defined

---
 src/utki/config.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utki/config.hpp b/src/utki/config.hpp
index 2f66a4c..c3f4d81 100644
--- a/src/utki/config.hpp
+++ b/src/utki/config.hpp
@@ -186,7 +186,12 @@ SOFTWARE.
 
 #if CFG_OS_NAME == CFG_OS_NAME_EMSCRIPTEN
 #	define CFG_CPU CFG_CPU_WASM
-#	define CFG_CPU_BITS 32
+#	if defined(__wasm64__)
+#		define CFG_CPU_BITS 64
+#	else
+#		define CFG_CPU_BITS 32
+#	endif
+#	define CFG_CPU_VERSION 0
 
 #elif CFG_COMPILER == CFG_COMPILER_GCC || CFG_COMPILER == CFG_COMPILER_CLANG
 #	if defined(__i386__) // __i386__ is defined for any x86 processor
-- 
2.43.0


From 6fc8322254d28c167297d9f407ee6b33a18df265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 15/21] fix: headers do not compile when <cassert> is included
 between them

---
 src/utki/debug.hpp      | 4 ++--
 src/utki/shared_ref.hpp | 6 +++---
 src/utki/unique_ref.hpp | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utki/debug.hpp b/src/utki/debug.hpp
index 8a74f5f..463cc19 100644
--- a/src/utki/debug.hpp
+++ b/src/utki/debug.hpp
@@ -515,9 +515,9 @@ void assert(
 #ifdef DEBUG
 
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#	define ASSERT1(condition) utki::assert(condition, SL);
+#	define ASSERT1(condition) (utki::assert)(condition, SL);
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#	define ASSERT2(condition, print) utki::assert(condition, print, SL);
+#	define ASSERT2(condition, print) (utki::assert)(condition, print, SL);
 
 #else // no DEBUG macro defined
 
diff --git a/src/utki/shared_ref.hpp b/src/utki/shared_ref.hpp
index 305d1d3..33e687a 100644
--- a/src/utki/shared_ref.hpp
+++ b/src/utki/shared_ref.hpp
@@ -73,7 +73,7 @@ public:
 	explicit shared_ref(std::shared_ptr<object_type> ptr) :
 		p(std::move(ptr))
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 	}
 
 public:
@@ -102,7 +102,7 @@ public:
 	shared_ref(const shared_ref<other_object_type>& sr) noexcept :
 		p(sr.to_shared_ptr())
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 	}
 
 	/**
@@ -156,7 +156,7 @@ public:
 	 */
 	constexpr object_type& get() const noexcept
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 
 		// In GCC 14.2 with -O3 and -g3, the compiler is not able to figure out that this->p is always initialized.
 		// So, we suppress the warning.
diff --git a/src/utki/unique_ref.hpp b/src/utki/unique_ref.hpp
index 43d0901..da19e6f 100644
--- a/src/utki/unique_ref.hpp
+++ b/src/utki/unique_ref.hpp
@@ -71,7 +71,7 @@ public:
 	explicit unique_ref(std::unique_ptr<object_type> ptr) :
 		p(std::move(ptr))
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 	}
 
 	// there should be no default constructor, as unique_ref cannot be nullptr
@@ -99,7 +99,7 @@ public:
 	unique_ref(unique_ref<other_object_type>&& sr) noexcept :
 		p(std::move(sr.p))
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 	}
 
 	/**
@@ -120,7 +120,7 @@ public:
 	 */
 	constexpr object_type& get() const noexcept
 	{
-		utki::assert(this->p, SL);
+		(utki::assert)(this->p, SL);
 		return *this->p;
 	}
 
-- 
2.43.0


From 21a1fad09993d0d38608255b857b707d8bd31ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 16/21] fix: bounds checks of subspan() overflow for huge
 offset or count

---
 src/utki/span.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index e495e90..214ba5c 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -469,12 +469,12 @@ public:
 		size_type count = std::numeric_limits<size_type>::max()
 	) const noexcept
 	{
+		// compare sizes, not pointers, because adding huge offset or count to a pointer overflows
+		ASSERT(offset <= this->size())
+		size_type new_s = count == std::numeric_limits<size_type>::max() ? this->size() - offset : count;
+		ASSERT(new_s <= this->size() - offset)
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic, "implement subspan()")
-		pointer new_p = this->data() + offset;
-		ASSERT(new_p <= this->end())
-		size_type new_s = count == std::numeric_limits<size_type>::max() ? this->end() - new_p : count;
-		ASSERT(new_p + new_s <= this->end())
-		return span(new_p, new_s);
+		return span(this->data() + offset, new_s);
 	}
 };
 #endif // CFG_CPP < 20
-- 
2.43.0


From 566a445128a71a360af9c2b8a4ad3091608eff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 17/21] fix: reverse iteration of enum_iterable does not
 compile

---
 src/utki/enum_iterable.hpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/utki/enum_iterable.hpp b/src/utki/enum_iterable.hpp
index 8341f35..9e52e76 100644
--- a/src/utki/enum_iterable.hpp
+++ b/src/utki/enum_iterable.hpp
@@ -58,12 +58,17 @@ public:
 		{}
 
 	public:
-		using iterator_category = std::input_iterator_tag;
+		using iterator_category = std::bidirectional_iterator_tag;
 		using difference_type = std::make_signed_t<std::underlying_type_t<enum_type>>;
 		using value_type = enum_type;
 		using reference = value_type;
 		using pointer = void;
 
+		constexpr bool operator==(const iterator& i) const noexcept
+		{
+			return this->e == i.e;
+		}
+
 		constexpr bool operator!=(const iterator& i) const noexcept
 		{
 			return this->e != i.e;
@@ -79,11 +84,32 @@ public:
 			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) + 1);
 			return *this;
 		}
+
+		constexpr iterator operator++(int) noexcept
+		{
+			auto ret = *this;
+			this->operator++();
+			return ret;
+		}
+
+		constexpr iterator& operator--() noexcept
+		{
+			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) - 1);
+			return *this;
+		}
+
+		constexpr iterator operator--(int) noexcept
+		{
+			auto ret = *this;
+			this->operator--();
+			return ret;
+		}
 	};
 
 	using const_iterator = iterator;
 
 	using reverse_iterator = std::reverse_iterator<iterator>;
+	using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
 	constexpr size_t size() const noexcept
 	{
@@ -110,12 +136,12 @@ public:
 		return this->end();
 	}
 
-	constexpr reverse_iterator crbegin() const
+	constexpr const_reverse_iterator crbegin() const
 	{
 		return const_reverse_iterator(this->cend());
 	}
 
-	constexpr reverse_iterator crend() const
+	constexpr const_reverse_iterator crend() const
 	{
 		return const_reverse_iterator(this->cbegin());
 	}
-- 
2.43.0


From 51064ab871cfa786ec24062b93c4d2cbbd8bb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 18/21] fix: flags::get() does not assert on negative value

---
 src/utki/flags.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utki/flags.hpp b/src/utki/flags.hpp
index f5e2e59..6549346 100644
--- a/src/utki/flags.hpp
+++ b/src/utki/flags.hpp
@@ -140,7 +140,8 @@ public:
 	 */
 	bool get(enum_type flag) const noexcept
 	{
-		ASSERT(flag < enum_type::enum_size)
+		// compare as size_t, because enum value can be negative
+		ASSERT(size_t(flag) < size_t(enum_type::enum_size))
 		return this->bitset[size_t(flag)];
 	}
 
-- 
2.43.0


From b91dbadda42a8e8b72c41346e86266b435f60260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 19/21] fix: sort() overflows the stack on unfavourable order
 of elements

---
 src/utki/sort.hpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 0aeec12..bf71983 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -97,19 +97,25 @@ constexpr forward_iter_type partition(forward_iter_type first, forward_iter_type
 template <class random_iter_type, class comparator_type = std::less<>>
 constexpr void quick_sort(random_iter_type first, random_iter_type last, comparator_type cmp = comparator_type{})
 {
-	auto const n = utki::sort_internal::distance(first, last);
-	if (n <= 1) {
-		return;
+	while (utki::sort_internal::distance(first, last) > 1) {
+		auto const n = utki::sort_internal::distance(first, last);
+		auto const pivot = *utki::sort_internal::next(first, n / 2);
+		auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
+			return cmp(elem, pivot);
+		});
+		auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
+			return !cmp(pivot, elem);
+		});
+
+		// recurse only into the smaller part, so that the recursion depth is logarithmic for any order of elements
+		if (utki::sort_internal::distance(first, middle1) < utki::sort_internal::distance(middle2, last)) {
+			quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
+			first = middle2;
+		} else {
+			quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
+			last = middle1;
+		}
 	}
-	auto const pivot = *utki::sort_internal::next(first, n / 2);
-	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
-		return cmp(elem, pivot);
-	});
-	auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
-		return !cmp(pivot, elem);
-	});
-	quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
-	quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
 }
 
 } // namespace sort_internal
-- 
2.43.0


From 50aff8cb8bc2c3a1be9e63228399b9e54afd0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 20/21] fix: text is truncated silently when memory runs out

---
 src/utki/exception.cpp | 2 ++
 src/utki/exception.hpp | 1 +
 src/utki/string.hpp    | 2 ++
 src/utki/unicode.cpp   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 68e1887..cb672d0 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -54,6 +54,7 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	}
 
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 	ss << indentation <<
 #if CFG_COMPILER == CFG_COMPILER_GCC || CFG_COMPILER == CFG_COMPILER_CLANG
 		demangle(*abi::__cxa_current_exception_type());
@@ -88,6 +89,7 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 std::string utki::to_string(const std::exception& e, std::string_view indentation)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
 	try {
diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 13c82d7..177146e 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -110,6 +110,7 @@ public:
 	std::string to_string(std::string_view indentation = std::string_view()) const override
 	{
 		std::stringstream ss;
+		ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 		ss << indentation << utki::to_string(static_cast<const std::exception&>(this->nesting));
 
 		try {
diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index bc23a52..d341d21 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -242,6 +242,7 @@ std::basic_string<typename strings_collection_type::value_type::value_type> join
 	}
 
 	std::basic_stringstream<typename strings_collection_type::value_type::value_type> ss;
+	ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 	ss << strings.front();
 
 	for (const auto& s : utki::skip_front<1>(strings)) {
@@ -262,6 +263,7 @@ template <typename... streamable_type>
 std::string cat(const streamable_type&... s)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-array-to-pointer-decay, "false positive")
 	[[maybe_unused]] auto& stream = (ss << ... << s);
diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index e64dc3c..e58895e 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -190,6 +190,7 @@ utki::to_utf8(char32_t c)
 std::string utki::to_utf8(utki::span<const char32_t> str)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not lose the error when out of memory
 
 	for (auto c : str) {
 		auto buf = to_utf8(c);
-- 
2.43.0


From 88b1ea8f2bb1089f5ebfbddfdb27ea3cb4bfa663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 21/21] fix: what() of stacked exception invalidates the text
 returned before

---
 src/utki/exception.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 177146e..b8693a4 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #pragma once
 
 #include <exception>
+#include <mutex>
 #include <string>
 #include <string_view>
 
@@ -84,7 +85,27 @@ class stacked_exception : public exception
 	std::nested_exception nested;
 	exception_type nesting;
 
-	mutable std::string description;
+	// The pointer returned by what() has to stay valid as long as the exception object exists and what() can be called on same
+	// exception object by several threads, so the description is made only once. A copy of the exception makes its own one.
+	struct description_holder {
+		std::mutex mutex;
+		std::string value;
+
+		description_holder() = default;
+
+		description_holder(const description_holder&) {}
+
+		description_holder& operator=(const description_holder&)
+		{
+			std::lock_guard<std::mutex> lock(this->mutex);
+			this->value.clear();
+			return *this;
+		}
+
+		~description_holder() = default;
+	};
+
+	mutable description_holder description;
 
 	stacked_exception(exception_type nesting) :
 		nesting(std::move(nesting))
@@ -97,9 +118,12 @@ public:
 	const char* what() const noexcept override
 	{
 		try {
-			this->description =
-				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
-			return this->description.c_str();
+			std::lock_guard<std::mutex> lock(this->description.mutex);
+			auto& value = this->description.value;
+			if (value.empty()) {
+				value = utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
+			}
+			return value.c_str();
 		} catch (std::bad_alloc&) {
 			return "std::bad_alloc";
 		} catch (...) {
-- 
2.43.0

