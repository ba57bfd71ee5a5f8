From 0a2747b2c43b54c9f9e44d31be7f0f0dbce5ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:18 +0000
Subject: [PATCH 01/25] fix: ring_bitrev shifted by the ring width when the
 range ends at the top bit

---
 src/libspu/mpc/utils/ring_ops.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..9e410c3 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,14 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      U mask = 0U;
       for (size_t idx = start; idx < end; idx++) {
+        mask |= (U)1 << idx;
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From 68de459093bce48265ec39f5a1d09d1aec4eb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:18 +0000
Subject: [PATCH 02/25] fix: aby3 BitrevB shifted by the share width when the
 range ends at the top bit

---
 src/libspu/mpc/aby3/boolean.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..d3404b8 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -496,13 +496,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        out_el_t mask = 0U;
         for (size_t idx = start; idx < end; idx++) {
+          mask |= (out_el_t)1 << idx;
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
-- 
2.43.0


From cc9d71e49accb3bbe49b24c64d4149e88bb72d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 03/25] fix: cexpr printed x-(y-z) without its parentheses

---
 src/libspu/core/cexpr.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libspu/core/cexpr.cc b/src/libspu/core/cexpr.cc
index 8476d55..d907aa8 100644
--- a/src/libspu/core/cexpr.cc
+++ b/src/libspu/core/cexpr.cc
@@ -78,9 +78,9 @@ class BinaryExpr : public BaseBinaryExpr {
   std::string expr() const override {
     // return fmt::format("({}){}({})", lhs_->expr(), Name, rhs_->expr());
     std::stringstream ss;
-    auto print_operand = [&](const CExpr& operand) {
+    auto print_operand = [&](const CExpr& operand, size_t min_priority) {
       if (auto bin_op = std::dynamic_pointer_cast<BaseBinaryExpr>(operand)) {
-        if (bin_op->priority() < this->priority()) {
+        if (bin_op->priority() < min_priority) {
           ss << "(" << operand->expr() << ")";
         } else {
           ss << operand->expr();
@@ -89,9 +89,11 @@ class BinaryExpr : public BaseBinaryExpr {
         ss << operand->expr();
       }
     };
-    print_operand(lhs_);
+    print_operand(lhs_, priority());
     ss << Name;
-    print_operand(rhs_);
+    // subtraction is not associative: x-(y-z) must keep its parentheses.
+    constexpr bool kAssociative = !std::is_same_v<Fn, std::minus<>>;
+    print_operand(rhs_, kAssociative ? priority() : priority() + 1);
     return ss.str();
   }
 
-- 
2.43.0


From 5897e62a2b11f4d9f116662b95a817cf71bc749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 04/25] fix: half_cast of the most negative value of a signed
 integer type never returned or gave a wrong value

---
 src/libspu/core/half.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libspu/core/half.h b/src/libspu/core/half.h
index e1bca7c..4f43236 100644
--- a/src/libspu/core/half.h
+++ b/src/libspu/core/half.h
@@ -1211,14 +1211,19 @@ template <std::float_round_style R, typename T>
 unsigned int int2half(T value) {
   unsigned int bits = static_cast<unsigned>(value < 0) << 15;
   if (!value) return bits;
-  if (bits) value = -value;
-  if (value > 0xFFFF) return overflow<R>(bits);
-  unsigned int m = static_cast<unsigned int>(value), exp = 24;
+  // The promoted type has room for the negation of a type narrower than int.
+  auto mag = +value;
+  // Checked before negating: the most negative value has no positive
+  // counterpart.
+  if (bits && mag + 0xFFFF < 0) return overflow<R>(bits);
+  if (bits) mag = -mag;
+  if (mag > 0xFFFF) return overflow<R>(bits);
+  unsigned int m = static_cast<unsigned int>(mag), exp = 24;
   for (; m < 0x400; m <<= 1, --exp);
   for (; m > 0x7FF; m >>= 1, ++exp);
   bits |= (exp << 10) + m;
-  return (exp > 24) ? rounded<R, false>(bits, (value >> (exp - 25)) & 1,
-                                        (((1 << (exp - 25)) - 1) & value) != 0)
+  return (exp > 24) ? rounded<R, false>(bits, (mag >> (exp - 25)) & 1,
+                                        (((1 << (exp - 25)) - 1) & mag) != 0)
                     : bits;
 }
 
-- 
2.43.0


From caa7ded1c0faedc90b93ac95318d3f3377d3185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 05/25] fix: a strided slice that leaves one element gets
 stride zero, as other unit dimensions do

---
 src/libspu/core/ndarray_ref.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..5ab093b 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -304,14 +304,15 @@ NdArrayRef NdArrayRef::slice(const Index& start_indices,
     new_shape[idx] = std::max(end_indices[idx] - start_indices[idx],
                               static_cast<int64_t>(0));
 
-    if (new_shape[idx] == 1) {
-      new_strides[idx] = 0;
-    } else if (!slice_strides.empty()) {
+    if (!slice_strides.empty()) {
       auto n = new_shape[idx] / slice_strides[idx];
       auto q = new_shape[idx] % slice_strides[idx];
       new_shape[idx] = n + static_cast<int64_t>(q != 0);
       new_strides[idx] *= slice_strides[idx];
     }
+    if (new_shape[idx] == 1) {
+      new_strides[idx] = 0;
+    }
   }
 
   return NdArrayRef(buf(), eltype(), new_shape, new_strides,
-- 
2.43.0


From 9331dd53101c20e597fd3f36da32072f2418c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 06/25] fix: expanding to an empty shape copies nothing

---
 src/libspu/core/ndarray_ref.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 5ab093b..8c43891 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -364,6 +364,9 @@ NdArrayRef NdArrayRef::reverse(const Axes& dimensions) const {
 NdArrayRef NdArrayRef::expand(const Shape& to_shape) const {
   SPU_ENFORCE(numel() == 1, "Only support expanding scalar");
   NdArrayRef ret(eltype(), to_shape);
+  if (ret.numel() == 0) {
+    return ret;
+  }
   // compute number of elements need to copy
   size_t numel = ret.numel();
   size_t num_bytes = numel * elsize();
-- 
2.43.0


From 4f879ba86c1045270131c7676453602e033ff5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 07/25] fix: interior padding adds nothing to an empty
 dimension

---
 src/libspu/core/ndarray_ref.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 8c43891..eccc519 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -32,7 +32,8 @@ Shape deducePadShape(const Shape& input_shape, const Sizes& edge_padding_low,
   SPU_ENFORCE(interior_padding.size() == input_shape.size());
   for (size_t i = 0; i < input_shape.size(); i++) {
     dims.emplace_back(edge_padding_low[i] + edge_padding_high[i] +
-                      interior_padding[i] * (input_shape[i] - 1) +
+                      interior_padding[i] *
+                          std::max<int64_t>(input_shape[i] - 1, 0) +
                       input_shape[i]);
   }
 
-- 
2.43.0


From 2efca3018fa7020757ac300f2e16d9f7c532b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 08/25] fix: viewing a reversed array as another type keeps its
 negative strides

---
 src/libspu/core/ndarray_ref.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index eccc519..80960b7 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -195,12 +195,15 @@ NdArrayRef NdArrayRef::as(const Type& new_ty, bool force) const {
     return NdArrayRef(buf(), new_ty, shape(), strides(), offset());
   }
   // Force view, we need to adjust strides
-  auto distance = ((strides().empty() ? 1 : strides().back()) * elsize());
-  SPU_ENFORCE(distance % new_ty.size() == 0);
+  // strides may be negative, keep the arithmetic signed
+  const auto old_size = static_cast<int64_t>(elsize());
+  const auto new_size = static_cast<int64_t>(new_ty.size());
+  auto distance = (strides().empty() ? 1 : strides().back()) * old_size;
+  SPU_ENFORCE(distance % new_size == 0);
 
   Strides new_strides = strides();
   std::transform(new_strides.begin(), new_strides.end(), new_strides.begin(),
-                 [&](int64_t s) { return (elsize() * s) / new_ty.size(); });
+                 [&](int64_t s) { return (old_size * s) / new_size; });
 
   return NdArrayRef(buf(), new_ty, shape(), new_strides, offset());
 }
-- 
2.43.0


From a0b10e9eb49faf04802946087f4bd20e49d0c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 09/25] fix: unpacking honours the offset and strides of the
 packed array

---
 src/libspu/core/ndarray_ref.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.h b/src/libspu/core/ndarray_ref.h
index a797d80..837cfcf 100644
--- a/src/libspu/core/ndarray_ref.h
+++ b/src/libspu/core/ndarray_ref.h
@@ -396,11 +396,14 @@ struct SimdTrait<NdArrayRef> {
     SPU_ENFORCE(v.numel() == total_num, "split number mismatch {} != {}",
                 v.numel(), total_num);
 
-    int64_t offset = 0;
+    // the pieces are compact views, so the source has to be compact too.
+    const NdArrayRef flat = v.isCompact() ? v : v.clone();
+
+    int64_t offset = flat.offset();
     for (const auto& shape : pi) {
-      *result++ = NdArrayRef(v.buf(), v.eltype(), shape,
+      *result++ = NdArrayRef(flat.buf(), flat.eltype(), shape,
                              makeCompactStrides(shape), offset);
-      offset += shape.numel() * v.elsize();
+      offset += shape.numel() * flat.elsize();
     }
 
     return result;
-- 
2.43.0


From b231521f6cef27e243ac7af104fd066823426072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 10/25] fix: aby3 right shift of a narrow boolean share by more
 than its storage width

---
 src/libspu/mpc/aby3/boolean.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d3404b8..d9055b2 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -419,7 +419,8 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
   bool is_splat = bits.size() == 1;
 
   return DISPATCH_UINT_PT_TYPES(in_ty->getBacktype(), [&]() {
-    using in_shr_t = std::array<ScalarT, 2>;
+    using in_el_t = ScalarT;
+    using in_shr_t = std::array<in_el_t, 2>;
     NdArrayView<in_shr_t> _in(in);
 
     return DISPATCH_UINT_PT_TYPES(out_btype, [&]() {
@@ -432,6 +433,12 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
+        // the share may be stored in fewer bits than the shift amount.
+        if (shift_bit >= static_cast<int64_t>(sizeof(in_el_t) * 8)) {
+          _out[idx][0] = 0;
+          _out[idx][1] = 0;
+          return;
+        }
         _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
         _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
       });
-- 
2.43.0


From 909b92ca87f79c842e2557b2880795be87071153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 11/25] fix: securenn rand_a gave the third party a share which
 the other kernels ignore

---
 src/libspu/mpc/securenn/arithmetic.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..c7687cb 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -102,6 +102,11 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   auto* prg_state = ctx->getState<PrgState>();
   const auto field = ctx->getState<Z2kState>()->getDefaultField();
 
+  // only P0 and P1 hold shares, the share of P2 is always zero.
+  if (ctx->getState<Communicator>()->getRank() == 2) {
+    return ring_zeros(field, shape).as(makeType<AShrTy>(field));
+  }
+
   // NOTES for ring_rshift to 2 bits.
   // Refer to:
   // New Primitives for Actively-Secure MPC over Rings with Applications to
-- 
2.43.0


From 9fdaaff4d617b0c4ed3369573df879ed00632667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 12/25] fix: aby3 pivot protocols gave two parties the same
 role when the public random pivot was close to 2^64

---
 src/libspu/mpc/aby3/arithmetic.cc | 12 ++++++------
 src/libspu/mpc/aby3/conversion.cc |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libspu/mpc/aby3/arithmetic.cc b/src/libspu/mpc/aby3/arithmetic.cc
index 629ff86..734fcfb 100644
--- a/src/libspu/mpc/aby3/arithmetic.cc
+++ b/src/libspu/mpc/aby3/arithmetic.cc
@@ -871,8 +871,8 @@ NdArrayRef TruncPrWithMsbKnown(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
 
@@ -1092,8 +1092,8 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
   DISPATCH_ALL_FIELDS(field, [&]() {
@@ -1336,8 +1336,8 @@ NdArrayRef TruncAPr2::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
   DISPATCH_ALL_FIELDS(field, [&]() {
diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..fab818e 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -342,8 +342,8 @@ NdArrayRef B2AByOT::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   DISPATCH_UINT_PT_TYPES(in_ty->getBacktype(), [&]() {
     using bshr_el_t = ScalarT;
@@ -654,8 +654,8 @@ NdArrayRef eqz(KernelEvalContext* ctx, const NdArrayRef& in) {
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   DISPATCH_ALL_FIELDS(field, [&]() {
     using ashr_el_t = ring2k_t;
-- 
2.43.0


From 7d53216171852d594763d0ef76ecc96f28495cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 13/25] fix: aby3 bitDecompose wrote one std::vector<bool> from
 concurrent iterations

---
 src/libspu/mpc/aby3/conversion.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index fab818e..0d2dd71 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,12 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // one byte per bit: elements of a std::vector<bool> share words, which
+  // concurrent iterations must not write.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +266,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
-- 
2.43.0


From e7f3baf7b4e8ab899fdc53e7bfd9026341450695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 14/25] fix: int loop counters over element counts overflowed
 for arrays of 2^31 elements

---
 src/libspu/mpc/aby3/io.cc                       | 4 ++--
 src/libspu/mpc/aby3/value.h                     | 2 +-
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 src/libspu/mpc/experimental/swift/boolean.cc    | 2 +-
 src/libspu/mpc/experimental/swift/io.cc         | 4 ++--
 src/libspu/mpc/experimental/swift/value.h       | 2 +-
 src/libspu/mpc/utils/ring_ops.cc                | 4 ++--
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libspu/mpc/aby3/io.cc b/src/libspu/mpc/aby3/io.cc
index 3ded34a..f9f6149 100644
--- a/src/libspu/mpc/aby3/io.cc
+++ b/src/libspu/mpc/aby3/io.cc
@@ -154,7 +154,7 @@ NdArrayRef Aby3Io::fromShares(const std::vector<NdArrayRef>& shares) const {
       NdArrayView<ring2k_t> _out(out);
       for (size_t si = 0; si < shares.size(); si++) {
         NdArrayView<shr_t> _s(shares[si]);
-        for (auto idx = 0; idx < shares[0].numel(); ++idx) {
+        for (int64_t idx = 0; idx < shares[0].numel(); ++idx) {
           if (si == 0) {
             _out[idx] = 0;
           }
@@ -173,7 +173,7 @@ NdArrayRef Aby3Io::fromShares(const std::vector<NdArrayRef>& shares) const {
         using shr_t = std::array<ScalarT, 2>;
         for (size_t si = 0; si < shares.size(); si++) {
           NdArrayView<shr_t> _s(shares[si]);
-          for (auto idx = 0; idx < shares[0].numel(); ++idx) {
+          for (int64_t idx = 0; idx < shares[0].numel(); ++idx) {
             if (si == 0) {
               _out[idx] = 0;
             }
diff --git a/src/libspu/mpc/aby3/value.h b/src/libspu/mpc/aby3/value.h
index 8396b12..9e00d2b 100644
--- a/src/libspu/mpc/aby3/value.h
+++ b/src/libspu/mpc/aby3/value.h
@@ -60,7 +60,7 @@ std::vector<T> getShareAs(const NdArrayRef& in, size_t share_idx) {
   std::vector<T> res(numel);
   DISPATCH_UINT_PT_TYPES(share.eltype().as<PtTy>()->pt_type(), [&]() {
     NdArrayView<ScalarT> _share(share);
-    for (auto idx = 0; idx < numel; ++idx) {
+    for (int64_t idx = 0; idx < numel; ++idx) {
       res[idx] = _share[idx];
     }
   });
diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..fd8614a 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -1537,7 +1537,7 @@ NdArrayRef ring_dotproduct(const NdArrayRef& x, const NdArrayRef& y,
 
     pforeach(0, batch_size, [&](int64_t idx) {
       _z[idx] = 0;
-      for (auto i = 0; i < vector_numel; i++) {
+      for (int64_t i = 0; i < vector_numel; i++) {
         _z[idx] += _x[idx * vector_numel + i] * _y[idx * vector_numel + i];
       }
     });
diff --git a/src/libspu/mpc/experimental/swift/boolean.cc b/src/libspu/mpc/experimental/swift/boolean.cc
index 0303e0d..2ddb58d 100644
--- a/src/libspu/mpc/experimental/swift/boolean.cc
+++ b/src/libspu/mpc/experimental/swift/boolean.cc
@@ -376,7 +376,7 @@ void permute(KernelEvalContext* ctx, NdArrayRef& a, NdArrayRef& b,
     NdArrayView<shr_t> _c(c);
     NdArrayView<el_t> _random_idx(random_idx);
 
-    for (auto j = 0; j < numel; j++) {
+    for (int64_t j = 0; j < numel; j++) {
       // idx \in {j, ..., M}
       idx = (_random_idx[j] % (numel - j)) + j;
 
diff --git a/src/libspu/mpc/experimental/swift/io.cc b/src/libspu/mpc/experimental/swift/io.cc
index 24abb9a..d53bcdd 100644
--- a/src/libspu/mpc/experimental/swift/io.cc
+++ b/src/libspu/mpc/experimental/swift/io.cc
@@ -122,11 +122,11 @@ NdArrayRef SwiftIo::fromShares(const std::vector<NdArrayRef>& shares) const {
       NdArrayView<shr_t> _s1(shares[1]);
 
       if (eltype.isa<AShare>()) {
-        for (auto idx = 0; idx < shares[0].numel(); ++idx) {
+        for (int64_t idx = 0; idx < shares[0].numel(); ++idx) {
           _out[idx] = _s1[idx][1] - _s0[idx][0] - _s0[idx][1];
         }
       } else if (eltype.isa<BShare>()) {
-        for (auto idx = 0; idx < shares[0].numel(); ++idx) {
+        for (int64_t idx = 0; idx < shares[0].numel(); ++idx) {
           _out[idx] = _s1[idx][1] ^ _s0[idx][0] ^ _s0[idx][1];
         }
       }
diff --git a/src/libspu/mpc/experimental/swift/value.h b/src/libspu/mpc/experimental/swift/value.h
index 0d9f2b4..ffe5509 100644
--- a/src/libspu/mpc/experimental/swift/value.h
+++ b/src/libspu/mpc/experimental/swift/value.h
@@ -42,7 +42,7 @@ std::vector<T> getShareAs(const NdArrayRef& in, size_t share_idx) {
   std::vector<T> res(numel);
   DISPATCH_UINT_PT_TYPES(share.eltype().as<PtTy>()->pt_type(), [&]() {
     NdArrayView<ScalarT> _share(share);
-    for (auto idx = 0; idx < numel; ++idx) {
+    for (int64_t idx = 0; idx < numel; ++idx) {
       res[idx] = _share[idx];
     }
   });
diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index 9e410c3..1b7e31f 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -253,7 +253,7 @@ NdArrayRef ring_rand_range(FieldType field, const Shape& shape, uint128_t min,
     SPU_ENFORCE(sizeof(ring2k_t) >= sizeof(int32_t));
 
     auto iter = x.begin();
-    for (auto idx = 0; idx < numel; ++idx, ++iter) {
+    for (int64_t idx = 0; idx < numel; ++idx, ++iter) {
       iter.getScalarValue<ring2k_t>() =
           rand_range[idx] + static_cast<ring2k_t>(min);
     }
@@ -306,7 +306,7 @@ NdArrayRef ring_randbit(FieldType field, const Shape& shape) {
 
   return DISPATCH_ALL_FIELDS(field, [&]() {
     NdArrayView<ring2k_t> _ret(ret);
-    for (auto idx = 0; idx < numel; ++idx) {
+    for (int64_t idx = 0; idx < numel; ++idx) {
       _ret[idx] = static_cast<ring2k_t>(rand_bytes[idx]) & 0x1;
     }
     return ret;
-- 
2.43.0


From 65a4533fc29147908da08160b2159499c8be77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 15/25] fix: securenn private comparison kept per-element sums
 in variables shared by concurrent iterations

---
 src/libspu/mpc/securenn/arithmetic.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index c7687cb..418c122 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -675,14 +675,12 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
-        w_total = 0;
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_eta__[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
@@ -1091,14 +1089,12 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-        w_total = 0;
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_beta[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
-- 
2.43.0


From 0f4b25c1387b3c173921da315ed19a0cb2254a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 16/25] fix: securenn B2A left the third party's zero share
 without its share type

---
 src/libspu/mpc/securenn/conversion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/securenn/conversion.cc b/src/libspu/mpc/securenn/conversion.cc
index cc78358..a0c5c69 100644
--- a/src/libspu/mpc/securenn/conversion.cc
+++ b/src/libspu/mpc/securenn/conversion.cc
@@ -83,7 +83,7 @@ NdArrayRef B2A::proc(KernelEvalContext* ctx, const NdArrayRef& x) const {
   }
   if (comm->getRank() == 2) {
     comm->sendAsync(0, r_a, "r_a");
-    r_a = ring_zeros(field, x.shape());
+    r_a = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
   }
   if (comm->getRank() == 0) {
     auto tmp = comm->recv(2, makeType<AShrTy>(field), "r_a");
-- 
2.43.0


From bc37f84d630cb45cd52c9d0c368508820c960c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 17/25] fix: securenn AndBB reused one mask for every element
 when all masks fit in a single ring word

---
 src/libspu/mpc/securenn/boolean.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/securenn/boolean.cc b/src/libspu/mpc/securenn/boolean.cc
index c122b9e..995b5c1 100644
--- a/src/libspu/mpc/securenn/boolean.cc
+++ b/src/libspu/mpc/securenn/boolean.cc
@@ -201,9 +201,11 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         c = c.reshape({numField});
       }
 
-      NdArrayView<V> _a(a);
-      NdArrayView<V> _b(b);
-      NdArrayView<V> _c(c);
+      // the words are read as a packed sequence of V, a view would repeat the
+      // first one of them when there is only a single word.
+      const V* _a = a.data<V>();
+      const V* _b = b.data<V>();
+      const V* _c = c.data<V>();
 
       // first half mask x^a, second half mask y^b.
       std::vector<V> mask(numel * 2, 0);
-- 
2.43.0


From 93db267e25d5e8f08d4dbad7bef337af26a567ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 18/25] fix: aby3 TruncA rejected shares with more than one
 dimension (received words were not reshaped)

---
 src/libspu/mpc/aby3/arithmetic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/arithmetic.cc b/src/libspu/mpc/aby3/arithmetic.cc
index 734fcfb..1774a29 100644
--- a/src/libspu/mpc/aby3/arithmetic.cc
+++ b/src/libspu/mpc/aby3/arithmetic.cc
@@ -714,7 +714,8 @@ NdArrayRef TruncA::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   switch (comm->getRank()) {
     case 0: {
       const auto z1 = ring_arshift(x1, shift_bit);
-      const auto z2 = comm->recv(1, x1.eltype(), kBindName());
+      const auto z2 =
+          comm->recv(1, x1.eltype(), kBindName()).reshape(x1.shape());
       return makeAShare(z1, z2, field);
     }
 
-- 
2.43.0


From a836c2b1e8f9e418d6f22c3e71c83c9fbb49f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 19/25] fix: first use of a cached operand in the dealer's
 matrix product consumed no randomness

With a session in state Init, Dot replayed the current counter without
advancing it, so the masks of both operands and of the product (and of the
next request) came from the same part of the stream. Draw fresh randomness,
as Mul and Square do.
---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..3be47ee 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From 868158c4fd6d5380167a2aa129a6a7e943ecc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 20/25] fix: aby3 OPShrTy has its own type id

OPShrTy shared the id aby3.OShr with OShrTy, so its text parsed to the wrong class and both compared equal.
---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From 224cf03740acd79cd46b3b582ba7236b771b17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 21/25] fix: register cheetah PShrTy

The text of a permutation share's type could not be parsed.
---
 src/libspu/mpc/cheetah/type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/type.cc b/src/libspu/mpc/cheetah/type.cc
index ede298f..afbf9fe 100644
--- a/src/libspu/mpc/cheetah/type.cc
+++ b/src/libspu/mpc/cheetah/type.cc
@@ -27,7 +27,7 @@ void registerTypes() {
 
   static std::once_flag flag;
   std::call_once(flag, []() {
-    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy>();
+    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy, PShrTy>();
   });
 }
 
-- 
2.43.0


From de3a854168d5f563a422ec1fc5cfd4161781ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 22/25] fix: spdz2k BShrTy::fromString restores the element
 width

k_ stayed 0, so the parsed type had element size 0.
---
 src/libspu/mpc/spdz2k/type.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..cf06dde 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -45,6 +45,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
-- 
2.43.0


From b7f4a76b4504cd068644a7c880051308310f2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 23/25] fix: count wire chunks without overflowing for huge
 chunk sizes

---
 src/libspu/core/value.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..718e3b2 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -66,7 +66,10 @@ Value& Value::setDtype(DataType new_dtype, bool force) {
 
 size_t Value::chunksCount(size_t max_chunk_size) const {
   size_t total = numel() * data_.elsize();
-  size_t num_chunks = (total + max_chunk_size - 1) / max_chunk_size;
+  size_t num_chunks = total / max_chunk_size;
+  if (total % max_chunk_size != 0) {
+    ++num_chunks;
+  }
   return num_chunks;
 }
 
-- 
2.43.0


From 32dbd4ad0cecbc90447e6117e9685c6cfd5945f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 24/25] fix: securenn reconstruction must not skip strided
 shares

---
 src/libspu/mpc/securenn/io.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/libspu/mpc/securenn/io.cc b/src/libspu/mpc/securenn/io.cc
index 28a8c3c..ab86933 100644
--- a/src/libspu/mpc/securenn/io.cc
+++ b/src/libspu/mpc/securenn/io.cc
@@ -88,11 +88,6 @@ NdArrayRef SecurennIo::fromShares(const std::vector<NdArrayRef>& shares) const {
     auto res = ring_zeros(field, shares[0].shape());
 
     for (const auto& share : shares) {
-      // Currently, only packed zeros are not compact, this is for colocation
-      // optimization
-      if (!share.isCompact()) {
-        continue;
-      }
       if (eltype.isa<AShare>()) {
         ring_add_(res, share);
       } else if (eltype.isa<BShare>()) {
-- 
2.43.0


From af6278d9b1dbac86be1eba4481fa0e98e3577b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 25/25] fix: and_sv and xor_sv offer the boolean-by-private
 kernels to boolean shares

They asked for an arithmetic share before calling and_bv / xor_bv, so a
protocol that registers these kernels got an arithmetic share as its boolean
operand, and boolean shares never used them.
---
 src/libspu/mpc/api.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/api.cc b/src/libspu/mpc/api.cc
index 223401f..3675e66 100644
--- a/src/libspu/mpc/api.cc
+++ b/src/libspu/mpc/api.cc
@@ -551,7 +551,7 @@ Value and_ss(SPUContext* ctx, const Value& x, const Value& y) {
 Value and_sv(SPUContext* ctx, const Value& x, const Value& y) {
   SPU_TRACE_MPC_DISP(ctx, x, y);
   TRY_DISPATCH(ctx, x, y);
-  if (IsA(x)) {
+  if (IsB(x)) {
     if (auto res = and_bv(ctx, x, y)) {
       return res.value();
     }
@@ -593,7 +593,7 @@ Value xor_ss(SPUContext* ctx, const Value& x, const Value& y) {
 Value xor_sv(SPUContext* ctx, const Value& x, const Value& y) {
   SPU_TRACE_MPC_DISP(ctx, x, y);
   TRY_DISPATCH(ctx, x, y);
-  if (IsA(x)) {
+  if (IsB(x)) {
     if (auto res = xor_bv(ctx, x, y)) {
       return res.value();
     }
-- 
2.43.0

