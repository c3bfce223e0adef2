From eae9831e634c376d217f07664a5c62cadc9fda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 01/26] fix: per-lane shifts of 8/16-bit elements with counts
 beyond the element width

Shifts act on the promoted element, so counts up to 31 are valid.  A signed
right shift by 8/16 or more must yield the sign, and such a count in one lane
must not change the neighbouring lane.
---
 experimental/bits/simd_x86.h | 57 +++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..5e0304f 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1760,10 +1760,12 @@ template <typename _Abi>
 		using _UInt4 = __vector_type_t<unsigned, 4>;
 		const _UInt4 __yu
 		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
+		// y > 15 must not leak a factor into the next element
 		return __x
 		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
+			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			    reinterpret_cast<_Float4>(__yu << 23)))
+			  & 0xffff)
 			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
 			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
 			    << 16));
@@ -1981,8 +1983,12 @@ template <typename _Abi>
 	    else if constexpr (__have_sse4_1
 			       && is_signed_v<_Up> && sizeof(__x) > 2)
 	      {
+		// y > 7 is equivalent to y == 7
+		const auto __y7 = __vector_bitcast<_UChar>(__iy)
+				  | __vector_bitcast<_UChar>(
+				    __vector_bitcast<_SChar>(__iy) > 7);
 		auto __mask = __vector_bitcast<_UChar>(
-		  __vector_bitcast<_UShort>(__iy) << 5);
+		  __vector_bitcast<_UShort>(__y7) << 5);
 		auto __maskl = [&]() {
 		  return __to_intrin(__vector_bitcast<_UShort>(__mask) << 8);
 		};
@@ -2012,11 +2018,9 @@ template <typename _Abi>
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  __vector_bitcast<_Up>((__xh & short(0xff00)))
+		  | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					  >> 8));
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2039,8 +2043,12 @@ template <typename _Abi>
 	    else if constexpr (sizeof(__x) > 2) // signed SSE2
 	      {
 		static_assert(is_signed_v<_Up>);
-		auto __maskh = __vector_bitcast<_UShort>(__y) << 5;
-		auto __maskl = __vector_bitcast<_UShort>(__y) << (5 + 8);
+		// y > 7 is equivalent to y == 7
+		const auto __y7 = __vector_bitcast<_UChar>(__y)
+				  | __vector_bitcast<_UChar>(
+				    __vector_bitcast<_SChar>(__y) > 7);
+		auto __maskh = __vector_bitcast<_UShort>(__y7) << 5;
+		auto __maskl = __vector_bitcast<_UShort>(__y7) << (5 + 8);
 		auto __xh = __vector_bitcast<short>(__x);
 		auto __xl = __vector_bitcast<short>(__x) << 8;
 		auto __xh4 = __xh >> 4;
@@ -2059,11 +2067,9 @@ template <typename _Abi>
 		auto __xl1 = __xl >> 1;
 		__xh = __maskh > 0x7fff ? __xh1 : __xh;
 		__xl = __maskl > 0x7fff ? __xl1 : __xl;
-		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
-		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		return __vector_bitcast<_Up>((__xh & short(0xff00)))
+		       | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					       >> 8);
 	      }
 	    else
 	      return __x >> __y;
@@ -2114,10 +2120,16 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or -1 if negative) where __y[4] is set
+		if constexpr (is_signed_v<_Up>)
+		  __x128 = __vector_bitcast<_Up>(
+		    _mm_blendv_epi8(__to_intrin(__x128),
+				    __to_intrin(__x128 >> 15),
+				    __to_intrin(__mask)));
+		else
+		  __x128 = __vector_bitcast<_Up>(
+		    _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
+				    __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2142,8 +2154,11 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or -1 if negative) where __y[4] is set
+		if constexpr (is_signed_v<_Up>)
+		  __x128 = __mask(__k) ? __x128 >> 15 : __x128;
+		else
+		  __x128 = __mask(__k) ? decltype(__x128)() : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From 3c23b55acead2ae6b00a073aef74e87c0dd01a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 02/26] fix: AVX-512 integer != must not set mask bits beyond
 size()

Complementing the masked compare set the bits of padding elements, so
find_last_set returned an index >= size().
---
 experimental/bits/simd_x86.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 5e0304f..7fa6f76 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2332,29 +2332,29 @@ template <typename _Abi>
 		  __assert_unreachable<_Tp>();
 	      }
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 8)
-	      return ~_mm512_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 4)
-	      return ~_mm512_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 2)
-	      return ~_mm512_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 1)
-	      return ~_mm512_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 8)
-	      return ~_mm256_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 4)
-	      return ~_mm256_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 2)
-	      return ~_mm256_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 1)
-	      return ~_mm256_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 8)
-	      return ~_mm_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 4)
-	      return ~_mm_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 2)
-	      return ~_mm_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 1)
-	      return ~_mm_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else
 	      __assert_unreachable<_Tp>();
 	  }                                                   // }}}
-- 
2.43.0


From 668d1bf58e090114cb314be6d06044faad982c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 03/26] fix: where(k, v) <<= x and where(k, v) >>= x did not
 compile

where_expression named implementation functions that do not exist, and the
blend in _S_masked_cassign only accepted a _SimdWrapper result.
---
 experimental/bits/simd.h         | 4 ++--
 experimental/bits/simd_builtin.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..da062ac 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3228,8 +3228,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..0e1b7c1 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2505,8 +2505,9 @@ template <typename _Abi>
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
-	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+	  __lhs = _CommonImpl::_S_blend(
+	    __k, __lhs,
+	    _SimdWrapper<_Tp, _Np>(__op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From 76eaa096d640f8f2ee3a283e8b904c39511ded6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 04/26] fix: where(k, mask) = bool for 32-byte masks with AVX
 but without AVX2

The non-constant path named simd_mask<int, Abi>, which is disabled when only
the floating-point types have 32-byte registers.
---
 experimental/bits/simd_builtin.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 0e1b7c1..10d231f 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2883,8 +2883,9 @@ template <typename _Abi>
 	      __lhs = __or(__k, __lhs);
 	    return;
 	  }
-	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+	__lhs = _CommonImpl::_S_blend(
+	  __k, __lhs,
+	  _SimdWrapper<_Tp, _Np>(__vector_broadcast<_Np>(_Tp(__rhs ? -1 : 0))));
       }
 
     //}}}2
-- 
2.43.0


From 85f4b283a7fe228cf13e494528f3e1fcf774ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 05/26] fix: masked integer division must not trap for elements
 that are not selected

where(k, a) /= b and where(k, a) %= b divided all elements, i.e. raised SIGFPE
for a zero divisor in an element outside of the mask.
---
 experimental/bits/simd.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da062ac..e7a5501 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3223,8 +3223,6 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
@@ -3232,6 +3230,33 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
+    // Integer division traps on a zero divisor (and on overflow). Therefore, use
+    // 1 as divisor in all elements that are not selected.
+#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      const auto __rhs                                                         \
+	= __to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x));        \
+      auto __impl_op = [](auto __impl, auto __lhs, auto __rhs2) constexpr {    \
+	return __impl.__name(__lhs, __rhs2);                                   \
+      };                                                                       \
+      if constexpr (is_integral_v<value_type>)                                 \
+	{                                                                      \
+	  _Tp __divisor = value_type(1);                                       \
+	  _Impl::_S_masked_assign(__data(_M_k), __data(__divisor), __rhs);     \
+	  _Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),    \
+					    __data(__divisor), __impl_op);     \
+	}                                                                      \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value),      \
+					  __rhs, __impl_op);                   \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus);
+#undef _GLIBCXX_SIMD_OP_
+
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
     {
       __data(_M_value)
-- 
2.43.0


From 8cddb037b3207f80948c0e48887ee5af7adf6b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 06/26] fix: masked stores must not touch the memory of
 elements that are not selected

maskmovdqu checks the complete 16 bytes for accessibility and thus faults on
elements that are not selected.
---
 experimental/bits/simd_x86.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 7fa6f76..d0eaee6 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,10 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k),
+		[&](auto __i) constexpr { __mem[__i] = __v[__i]; });
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1215,10 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k),
+		[&](auto __i) constexpr { __mem[__i] = __v[__i]; });
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From e90a26680d2ff1cf42effb641322ac5910df6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 07/26] fix: 64-bit integer to float conversions must round
 only once

---
 experimental/bits/simd_x86_conversions.h | 63 ++----------------------
 1 file changed, 5 insertions(+), 58 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..ad28814 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -667,9 +667,8 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepi64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepi64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v)));
+	// else use fallback (builtin conversion): going through double or summing
+	// up converted parts rounds more than once
       }
     else if constexpr (__u64_to_f32) //{{{2
       {
@@ -679,15 +678,7 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepu64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  {
-	    return __intrin_bitcast<_To>(
-	      __lo256(_mm512_cvtepu32_ps(__auto_bitcast(
-		_mm512_cvtepi64_epi32(_mm512_srai_epi64(__intrin, 32)))))
-		* 0x100000000LL
-	      + __lo256(_mm512_cvtepu32_ps(
-		__auto_bitcast(_mm512_cvtepi64_epi32(__intrin)))));
-	  }
+	// else use fallback (builtin conversion)
       }
     else if constexpr (__s32_to_f32) //{{{2
       {
@@ -1268,25 +1259,6 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x)
 	      return __make_wrapper<float>(__v0[0], __v0[1], __v1[0], __v1[1]);
-	    else if constexpr (__y_to_y)
-	      {
-		static_assert(__y_to_y && __have_avx2);
-		const auto __a = _mm256_unpacklo_epi32(__i0, __i1); // aeAE cgCG
-		const auto __b = _mm256_unpackhi_epi32(__i0, __i1); // bfBF dhDH
-		const auto __lo32
-		  = _mm256_unpacklo_epi32(__a, __b); // abef cdgh
-		const auto __hi32 = __vector_bitcast<
-		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
-		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
-		const auto __hi
-		  = 0x100000000LL
-		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
-		const auto __mid
-		  = 0x10000 * _mm256_cvtepi32_ps(_mm256_srli_epi32(__lo32, 16));
-		const auto __lo
-		  = _mm256_cvtepi32_ps(_mm256_set1_epi32(0x0000ffffu) & __lo32);
-		return __xzyw((__hi + __mid) + __lo);
-	      }
 	    else if constexpr (__z_to_z && __have_avx512dq)
 	      {
 		return is_signed_v<_Tp> ? __concat(_mm512_cvtepi64_ps(__i0),
@@ -1294,33 +1266,8 @@ template <typename _To, typename _V, typename _Traits>
 					: __concat(_mm512_cvtepu64_ps(__i0),
 						   _mm512_cvtepu64_ps(__i1));
 	      }
-	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
-	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
-	      }
-	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
-	      {
-		return __intrin_bitcast<_To>(
-		  _mm512_cvtepu32_ps(__concat(
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i0, 32)),
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i1, 32))))
-		    * 0x100000000LL
-		  + _mm512_cvtepu32_ps(__concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1))));
-	      }
+	    // else use concat fallback: summing up converted parts rounds more than
+	    // once
 	  }
 	else if constexpr (__f64_to_s32) //{{{2
 	  {
-- 
2.43.0


From 9989398e3a30762835d0d820326e2a1c4429d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 08/26] fix: to_native and to_compatible for masks and
 to_compatible for simd were unusable

---
 experimental/bits/simd.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index e7a5501..132c469 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3035,16 +3035,18 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return native_simd_mask<_Tp>(__private_init, [&](auto __i) constexpr {
+	     return __x[__i];
+	   });
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3053,11 +3055,14 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return simd_mask<_Tp>(__private_init,
+			  [&](auto __i) constexpr { return __x[__i]; });
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From e0193e0b4319a5c3c451d5ee3f5bb91d7326110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 09/26] fix: resizing mask casts must not turn padding into
 true elements

---
 experimental/bits/simd_builtin.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 10d231f..053564d 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2741,6 +2741,13 @@ template <typename _Abi>
 	    else // vector -> bits
 	      return _R(_UAbi::_MaskImpl::_S_to_bits(__data(__x))._M_to_bits());
 	  }
+	else if constexpr (_S_size<_Tp> > simd_size_v<_Up, _UAbi>
+			     && !__is_scalar_abi<_UAbi>()
+			     && !__is_fixed_size_abi_v<_UAbi>)
+	  // the additional elements must be false, not the padding of __x
+	  return _SuperImpl::template _S_to_maskvector<__int_for_sizeof_t<_Tp>,
+						       _S_size<_Tp>>(
+	    _UAbi::_S_masked(__data(__x)));
 	else
 	  return _SuperImpl::template _S_to_maskvector<__int_for_sizeof_t<_Tp>,
 						       _S_size<_Tp>>(
-- 
2.43.0


From 4e625f7a70ef08a3f5226e6b3e20a73cb3315381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 10/26] fix: to_fixed_size(mask) left bits beyond size()
 uninitialized

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 132c469..cd4fa33 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3019,7 +3019,7 @@ template <typename _Tp, typename _Ap>
   to_fixed_size(const simd_mask<_Tp, _Ap>& __x)
   {
     constexpr int _Np = simd_mask<_Tp, _Ap>::size();
-    fixed_size_simd_mask<_Tp, _Np> __r;
+    fixed_size_simd_mask<_Tp, _Np> __r{};
     __execute_n_times<_Np>([&](auto __i) constexpr { __r[__i] = __x[__i]; });
     return __r;
   }
-- 
2.43.0


From 62bcc603970c9b5786657214ccd9707b22f015ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 11/26] fix: split<M>(mask) of partial AVX masks returned wrong
 elements

---
 experimental/bits/simd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index cd4fa33..d03b95b 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3814,7 +3814,9 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       && sizeof(__x) == 2 * sizeof(_V) // no padding in __x
+		       && __abi_bytes_v<_Ap> == sizeof(__x))
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From 3a81d21ad2303abd67436c2cf5b37402d63bc430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/26] fix: hmin/hmax of a where-expression ignored selected
 infinities

The identity element was always the finite maximum/minimum, because
__FINITE_MATH_ONLY__ is always defined (as 0 or 1); hmin(where(k, v)) with only
+inf selected returned max() instead of infinity.
---
 experimental/bits/simd.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index d03b95b..40f26b4 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3537,8 +3537,10 @@ template <typename _M, typename _V>
   hmin(const const_where_expression<_M, _V>& __x) noexcept
   {
     using _Tp = typename _V::value_type;
+    if (__builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_max_v<_Tp>;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3555,8 +3557,10 @@ template <typename _M, typename _V>
   hmax(const const_where_expression<_M, _V>& __x) noexcept
   {
     using _Tp = typename _V::value_type;
+    if (__builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_min_v<_Tp>;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From 01e1d6f70f67dbb7eb12fc073dc8a8664a4a1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 13/26] fix: minmax of scalar and fixed_size simd did not
 compile

---
 experimental/bits/simd_fixed_size.h | 19 +++++++++++++++++++
 experimental/bits/simd_scalar.h     |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..e837f18 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1507,6 +1507,25 @@ template <int _Np>
 	  __b);
       }
 
+    // _S_minmax {{{2
+    template <typename _Tp, typename... _As>
+      static inline constexpr
+      pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      {
+	return {__a._M_apply_per_chunk(
+		  [](auto __impl, auto __aa, auto __bb) constexpr {
+		    return __impl._S_minmax(__aa, __bb).first;
+		  },
+		  __b),
+		__a._M_apply_per_chunk(
+		  [](auto __impl, auto __aa, auto __bb) constexpr {
+		    return __impl._S_minmax(__aa, __bb).second;
+		  },
+		  __b)};
+      }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..c9c54a4 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -197,6 +197,12 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  // _S_minmax {{{2
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp> _S_minmax(const _Tp __a,
+						     const _Tp __b)
+    { return {__a < __b ? __a : __b, __a < __b ? __b : __a}; }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From 828e52e560798fbd2dfcad2c00b054c331ea0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 14/26] fix: keep the sign of zero in trunc, round, rint and
 nearbyint

---
 experimental/bits/simd_builtin.h |  6 ++++--
 experimental/bits/simd_x86.h     | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 053564d..f77931d 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2182,9 +2182,11 @@ template <typename _Abi>
       static_assert(__CHAR_BIT__ * sizeof(1ull) >= __digits_v<value_type>);
       _GLIBCXX_SIMD_USE_CONSTEXPR _V __shifter_abs
 	= _V() + (1ull << (__digits_v<value_type> - 1));
-      const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
+      const _V __sign = __and(_S_signmask<_V>, __x);
+      const _V __shifter = __or(__sign, __shifter_abs);
       const _V __shifted = _S_plus_minus(__x, __shifter);
-      return __absx < __shifter_abs ? __shifted : __x;
+      // the sign of a zero result equals the sign of x
+      return __absx < __shifter_abs ? __or(__sign, __shifted) : __x;
     }
 
     // _S_rint {{{3
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d0eaee6..26fa9cb 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2690,7 +2690,11 @@ template <typename _Abi>
 		< 0x4b000000; // the exponent is so large that no mantissa bits
 			      // signify fractional values (0x3f8 + 23*8 =
 			      // 0x4b0)
-	    return __no_fractional_values ? __truncated : __to_intrin(__x);
+	    return __no_fractional_values
+		     ? __or(__and(_S_signmask<decltype(__truncated)>,
+				  __to_intrin(__x)),
+			    __truncated) // retain the sign of zero
+		     : __to_intrin(__x);
 	  }
 	else
 	  return _Base::_S_trunc(__x);
@@ -2733,11 +2737,14 @@ template <typename _Abi>
 	// x < 0 => truncated <= 0 && truncated >= x => x - truncated <= 0
 	// x > 0 => truncated >= 0 && truncated <= x => x - truncated >= 0
 
-	const _V __rounded
-	  = __truncated
+	// the sign of a zero result equals the sign of x
+	const _V __sign = __and(_S_signmask<_V>, __x._M_data);
+	const _V __rounded = __or(
+	  __sign,
+	  __truncated
 	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
-		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+		 ? __or(__sign, _V() + 1)
+		 : _V()));
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
-- 
2.43.0


From c14a0deb2d39ba0e6923e9ac7a0cfcf2517b21c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 15/26] fix: masked memory access must ignore set padding bits
 of the mask

---
 experimental/bits/simd_builtin.h | 5 +++--
 experimental/bits/simd_x86.h     | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f77931d..bdb9b7c 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1554,9 +1554,10 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
-	noexcept
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k) noexcept
       {
+	// the padding of __k may be set but must not lead to memory access
+	__k = _Abi::_S_masked(__k);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 26fa9cb..402c910 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -853,6 +853,8 @@ template <typename _Abi>
 		     const _Up* __mem) noexcept
       {
 	static_assert(_Np == _S_size<_Tp>);
+	// the padding of __k may be set but must not lead to memory access
+	__k = _Abi::_S_masked(__k);
 	if constexpr (is_same_v<_Tp, _Up> || // no conversion
 		      (sizeof(_Tp) == sizeof(_Up)
 		       && is_integral_v<
-- 
2.43.0


From cfe1f15dbe80522e23826792cb78641d48d2d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 16/26] fix: fixed_size converting constructor loaded an
 under-aligned array

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 40f26b4..4a53d49 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -4974,7 +4974,7 @@ template <typename _Tp, typename _Abi>
 	       negation<__is_narrowing_conversion<_Up, value_type>>,
 	       __converts_to_higher_integer_rank<_Up, value_type>>::value,
 	     void*> = nullptr)
-      : simd{static_cast<array<_Up, size()>>(__x).data(), vector_aligned} {}
+      : simd{static_cast<array<_Up, size()>>(__x).data(), element_aligned} {}
 
       // explicit type conversion constructor
 #ifdef _GLIBCXX_SIMD_ENABLE_STATIC_CAST
-- 
2.43.0


From 5ef36b18b8c3554675cb48fc6ccc284dc7565823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 17/26] fix: sph_legendre evaluated assoc_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..1d08f14 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1477,7 +1477,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From a8a33cdd7efac10d1e4ee7b2a055b74050d63a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 18/26] fix: sin and cos of arguments beyond 2^31

---
 experimental/bits/simd_math.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 1d08f14..ae29b7d 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -474,6 +474,11 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      cos(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	// __fold_input cannot reduce arguments of this magnitude (the quadrant
+	// would not even fit into an int)
+	if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= _Tp(0x1p31))))
+	  return _V([&](auto __i) { return std::cos(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | cosSeries, +
@@ -520,6 +525,11 @@ template <typename _Tp, typename _Abi>
 	    return static_simd_cast<_V>(
 	      sin(static_simd_cast<rebind_simd_t<double, _V>>(__x)));
 
+	// __fold_input cannot reduce arguments of this magnitude (the quadrant
+	// would not even fit into an int)
+	if (_GLIBCXX_SIMD_IS_UNLIKELY(any_of(abs(__x) >= _Tp(0x1p31))))
+	  return _V([&](auto __i) { return std::sin(_Tp(__x[__i])); });
+
 	const auto __f = __fold_input(__x);
 	// quadrant | effect
 	//        0 | sinSeries
-- 
2.43.0


From d51cbfd1f3f6853dd2fdc18cf5292ffa90463f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 19/26] fix: special math functions did not compile

---
 experimental/bits/simd_math.h | 65 ++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index ae29b7d..8cf5a32 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1407,6 +1407,42 @@ simd_div_t<__llongv<_Abi>> div(__llongv<_Abi> numer,
 */
 
 // special math {{{
+// There is no vectorized implementation of these functions. Every element is
+// passed to the std function.
+#define _GLIBCXX_SIMD_SPECIAL_MATH_(__name)                                    \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x)                                           \
+  {                                                                            \
+    return simd<_Tp, _Abi>(                                                    \
+      [&](auto __i) { return std::__name(_Tp(__x[__i])); });                   \
+  }
+
+#define _GLIBCXX_SIMD_SPECIAL_MATH2_(__name)                                   \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y)               \
+  {                                                                            \
+    return simd<_Tp, _Abi>([&](auto __i) {                                     \
+      return std::__name(_Tp(__x[__i]), _Tp(__y[__i]));                        \
+    });                                                                        \
+  }                                                                            \
+                                                                               \
+_GLIBCXX_SIMD_CVTING2(__name)
+
+#define _GLIBCXX_SIMD_SPECIAL_MATH3_(__name)                                   \
+template <typename _Tp, typename _Abi>                                         \
+  enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>                       \
+  __name(const simd<_Tp, _Abi>& __x, const simd<_Tp, _Abi>& __y,               \
+	 const simd<_Tp, _Abi>& __z)                                           \
+  {                                                                            \
+    return simd<_Tp, _Abi>([&](auto __i) {                                     \
+      return std::__name(_Tp(__x[__i]), _Tp(__y[__i]), _Tp(__z[__i]));         \
+    });                                                                        \
+  }                                                                            \
+                                                                               \
+_GLIBCXX_SIMD_CVTING3(__name)
+
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
   assoc_laguerre(const fixed_size_simd<unsigned, simd_size_v<_Tp, _Abi>>& __n,
@@ -1429,18 +1465,18 @@ template <typename _Tp, typename _Abi>
     });
   }
 
-_GLIBCXX_SIMD_MATH_CALL2_(beta, _Tp)
-_GLIBCXX_SIMD_MATH_CALL_(comp_ellint_1)
-_GLIBCXX_SIMD_MATH_CALL_(comp_ellint_2)
-_GLIBCXX_SIMD_MATH_CALL2_(comp_ellint_3, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_i, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_j, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_bessel_k, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(cyl_neumann, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(ellint_1, _Tp)
-_GLIBCXX_SIMD_MATH_CALL2_(ellint_2, _Tp)
-_GLIBCXX_SIMD_MATH_CALL3_(ellint_3, _Tp, _Tp)
-_GLIBCXX_SIMD_MATH_CALL_(expint)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(beta)
+_GLIBCXX_SIMD_SPECIAL_MATH_(comp_ellint_1)
+_GLIBCXX_SIMD_SPECIAL_MATH_(comp_ellint_2)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(comp_ellint_3)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(cyl_bessel_i)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(cyl_bessel_j)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(cyl_bessel_k)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(cyl_neumann)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(ellint_1)
+_GLIBCXX_SIMD_SPECIAL_MATH2_(ellint_2)
+_GLIBCXX_SIMD_SPECIAL_MATH3_(ellint_3)
+_GLIBCXX_SIMD_SPECIAL_MATH_(expint)
 
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
@@ -1469,7 +1505,7 @@ template <typename _Tp, typename _Abi>
       [&](auto __i) { return std::legendre(__n[__i], __x[__i]); });
   }
 
-_GLIBCXX_SIMD_MATH_CALL_(riemann_zeta)
+_GLIBCXX_SIMD_SPECIAL_MATH_(riemann_zeta)
 
 template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
@@ -1504,6 +1540,9 @@ template <typename _Tp, typename _Abi>
 #undef _GLIBCXX_SIMD_MATH_CALL_
 #undef _GLIBCXX_SIMD_MATH_CALL2_
 #undef _GLIBCXX_SIMD_MATH_CALL3_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH2_
+#undef _GLIBCXX_SIMD_SPECIAL_MATH3_
 
 _GLIBCXX_SIMD_END_NAMESPACE
 
-- 
2.43.0


From b23120bd16db9ae178b5411739f7a13c2c9519ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 20/26] fix: provide is_simd_flag_type

---
 experimental/bits/simd.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4a53d49..da2e2b4 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2678,6 +2678,22 @@ template <typename _Tp>
 } // namespace simd_abi
 
 // traits {{{1
+// is_simd_flag_type {{{2
+template <typename _Tp>
+  struct is_simd_flag_type : public false_type {};
+
+template <>
+  struct is_simd_flag_type<element_aligned_tag> : public true_type {};
+
+template <>
+  struct is_simd_flag_type<vector_aligned_tag> : public true_type {};
+
+template <size_t _Np>
+  struct is_simd_flag_type<overaligned_tag<_Np>> : public true_type {};
+
+template <typename _Tp>
+  inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<_Tp>::value;
+
 // is_abi_tag {{{2
 template <typename _Tp, typename = void_t<>>
   struct is_abi_tag : false_type {};
-- 
2.43.0


From b816e56bbd01e8b37df173d7f70ca12b4715b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 21/26] fix: cv-qualified types are not vectorizable

---
 experimental/bits/simd.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da2e2b4..6ab1941 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -333,7 +333,8 @@ template <typename _Tp>
 // }}}
 // __is_vectorizable {{{
 template <typename _Tp>
-  struct __is_vectorizable : public is_arithmetic<_Tp> {};
+  struct __is_vectorizable
+  : public conjunction<is_arithmetic<_Tp>, is_same<_Tp, remove_cv_t<_Tp>>> {};
 
 template <>
   struct __is_vectorizable<bool> : public false_type {};
-- 
2.43.0


From 2f9a4a508da5bd551ceb183b05a1ff728eed62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 22/26] fix: simd_cast to a non-arithmetic type is a
 substitution failure

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 6ab1941..6e7831b 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -737,7 +737,7 @@ inline constexpr struct _BitsetInit {} __bitset_init = {};
 // __is_narrowing_conversion<_From, _To>{{{
 template <typename _From, typename _To, bool = is_arithmetic_v<_From>,
 	  bool = is_arithmetic_v<_To>>
-  struct __is_narrowing_conversion;
+  struct __is_narrowing_conversion : public true_type {};
 
 // ignore "signed/unsigned mismatch" in the following trait.
 // The implicit conversions will do the right thing here.
-- 
2.43.0


From b103617d321dbaa78930804dff16028e5b1b5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 23/26] fix: masked assignment of a constant negative zero
 stored +0

---
 experimental/bits/simd_builtin.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index bdb9b7c..0c32639 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2477,7 +2477,9 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 // -0. compares equal to 0, but only +0. has no bits set
+		 && !(is_floating_point_v<_Tp> && __builtin_signbit(1. * __rhs)))
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From 4a81a2b46c67c62511243fa239abc88fba272b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 24/26] fix: x86: vector shifts by constant counts rely on an
 overflowing conversion

---
 experimental/bits/simd_x86.h | 42 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 402c910..382ec3f 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1761,15 +1761,18 @@ template <typename _Abi>
 		using _UInt4 = __vector_type_t<unsigned, 4>;
 		const _UInt4 __yu
 		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
-		// y > 15 must not leak a factor into the next element
-		return __x
-		       * __intrin_bitcast<_V>(
-			 (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			    reinterpret_cast<_Float4>(__yu << 23)))
-			  & 0xffff)
-			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
-			    << 16));
+		// y > 15 must not leak a factor into the next element; the
+		// factor is negated because -2^31 converts to int, 2^31 doesn't
+		return __intrin_bitcast<_V>(-(
+		  __vector_bitcast<_UShort>(__ix)
+		  * __vector_bitcast<_UShort>(
+		    (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+		       reinterpret_cast<_Float4>(__yu << 23 | 0x8000'0000u)))
+		     & 0xffff)
+		    | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			 reinterpret_cast<_Float4>((__yu >> 16) << 23
+						   | 0x8000'0000u)))
+		       << 16))));
 	      }
 	    else
 	      __assert_unreachable<_Tp>();
@@ -1777,11 +1780,13 @@ template <typename _Abi>
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
 	  // latency is suboptimal, but throughput is at full speedup
+	  // the factor is negated because -2^31 converts to int, 2^31 doesn't
 	  return __intrin_bitcast<_V>(
-	    __vector_bitcast<unsigned>(__ix)
-	    * __vector_convert<__vector_type16_t<int>>(
-	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+	    -(__vector_bitcast<unsigned>(__ix)
+	      * __vector_convert<__vector_type16_t<int>>(
+		_SimdWrapper<float, 4>(__vector_bitcast<float>(
+		  (__vector_bitcast<unsigned, 4>(__y) << 23)
+		  + 0xbf80'0000u)))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
@@ -2176,14 +2181,15 @@ template <typename _Abi>
 	    if constexpr (is_unsigned_v<_Up>)
 	      {
 		// x >> y == x * 2^-y == (x * 2^(31-y)) >> 31
+		// (negated because -2^31 converts to int, 2^31 doesn't)
 		const __m128 __factor_f = reinterpret_cast<__m128>(
-		  0x4f00'0000u - (__vector_bitcast<unsigned, 4>(__y) << 23));
+		  0xcf00'0000u - (__vector_bitcast<unsigned, 4>(__y) << 23));
 		const __m128i __factor
 		  = __builtin_constant_p(__factor_f)
-		      ? __to_intrin(
-			__make_vector<unsigned>(__factor_f[0], __factor_f[1],
-						__factor_f[2], __factor_f[3]))
-		      : _mm_cvttps_epi32(__factor_f);
+		      ? __to_intrin(__make_vector<unsigned>(
+			-__factor_f[0], -__factor_f[1], -__factor_f[2],
+			-__factor_f[3]))
+		      : _mm_sub_epi32(__m128i(), _mm_cvttps_epi32(__factor_f));
 		const auto __r02
 		  = _mm_srli_epi64(_mm_mul_epu32(__ix, __factor), 31);
 		const auto __r13 = _mm_mul_epu32(_mm_srli_si128(__ix, 4),
-- 
2.43.0


From 67c35fe5282f92a3b54882d4b50fd49ce957ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 25/26] fix: signed 8-bit right shift of two elements by
 constant counts above 7

---
 experimental/bits/simd_x86.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 382ec3f..41d6338 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2077,6 +2077,11 @@ template <typename _Abi>
 		       | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
 					       >> 8);
 	      }
+	    else if constexpr (is_signed_v<_Up>)
+	      // the vector operator is undefined for counts in [8, 31]
+	      return __generate_vector<_V>([&](auto __i) constexpr {
+		return static_cast<_Up>(__x[__i()] >> __y[__i()]);
+	      });
 	    else
 	      return __x >> __y;
 	  }                                                      //}}}
-- 
2.43.0


From 2bcb2442b1ab27668f6c20a5fcd62f3ce4d12687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 26/26] fix: sign of zero results of nearbyint, rint, trunc,
 floor, ceil and round with FE_DOWNWARD

---
 experimental/bits/simd_builtin.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 0c32639..8a39066 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2186,8 +2186,11 @@ template <typename _Abi>
       const _V __sign = __and(_S_signmask<_V>, __x);
       const _V __shifter = __or(__sign, __shifter_abs);
       const _V __shifted = _S_plus_minus(__x, __shifter);
-      // the sign of a zero result equals the sign of x
-      return __absx < __shifter_abs ? __or(__sign, __shifted) : __x;
+      // the sign of a zero result equals the sign of x (with FE_DOWNWARD
+      // __shifted is -0. whenever it is zero)
+      return __absx < __shifter_abs
+	       ? __or(__sign, __and(_S_absmask<_V>, __shifted))
+	       : __x;
     }
 
     // _S_rint {{{3
@@ -2208,7 +2211,9 @@ template <typename _Abi>
       constexpr _Tp __shifter = 1ull << (__digits_v<_Tp> - 1);
       _V __truncated = _S_plus_minus(__absx, __shifter);
       __truncated -= __truncated > __absx ? _V() + 1 : _V();
-      return __absx < __shifter ? __or(__xor(__absx, __x._M_data), __truncated)
+      // with FE_DOWNWARD __truncated is -0. whenever it is zero
+      return __absx < __shifter ? __or(__xor(__absx, __x._M_data),
+				       __and(_S_absmask<_V>, __truncated))
 				: __x._M_data;
     }
 
-- 
2.43.0

