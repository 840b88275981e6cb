From 687f3201cf0bd6428a5295e6249741a6ced17546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 01/23] fix: keep the denominator of rational numbers positive

RationalLong(-1, 2) was stored as 1//-2, which printed that way and
compared wrongly: (-1/2) < (1/3) was false.
---
 include/bwsl/RationalNum.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..2fab779 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -199,6 +199,11 @@ RationalNum<T>::Simplify()
   auto g = get_gcd(num_, den_);
   num_ = num_ / g;
   den_ = den_ / g;
+  // keep the sign on the numerator
+  if (den_ < 0) {
+    num_ = -num_;
+    den_ = -den_;
+  }
 }
 
 template<class G>
-- 
2.43.0


From dc031b78b47ae413da8e9eca190b3e33f2341600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 02/23] fix: compare rational numbers with integers exactly

The comparison truncated the rational first, so 3/2 == 1 was true and
3/2 > 1 was false.
---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 2fab779..c91dbba 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -217,14 +217,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From 64875879c557e1c47f254d66bb75855852b85b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 03/23] fix: make ToString of a rational number usable

There is no fmt formatter for RationalNum, so every instantiation of
ToString failed to compile.
---
 include/bwsl/RationalNum.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index c91dbba..2df14db 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -337,7 +337,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From 96e1d1f72438af18c67bdbff55c7461694e19576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 04/23] fix: reduce rational numbers read from a stream

Reading 2//4 stored the unreduced fraction, a negative denominator was
kept and a zero denominator was accepted.
---
 include/bwsl/RationalNum.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 2df14db..2d21a72 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{ 0 };
+  auto den = T{ 0 };
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,12 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+  if (!in || den == 0) {
+    in.setstate(std::ios_base::failbit);
+    return in;
+  }
+  rhs = RationalNum<T>(num, den);
 
   return in;
 }
-- 
2.43.0


From cca82145f79ea90ee89dcc5811003c8d6814d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 05/23] fix: variance of the naive integer accumulator

The sum of squares was not scaled by the number of values: {1, 2, 3}
reported a negative variance.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..f5d0bce 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / static_cast<double>(ccount);
 }
 
 inline auto
@@ -139,7 +139,10 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  auto n = static_cast<double>(count_);
+  auto sum = static_cast<double>(sum_);
+
+  return static_cast<double>(sum2_) - sum * sum / n;
 }
 
 inline auto
-- 
2.43.0


From c61533c308e84385bef313b4b105d1bd7bfe7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 06/23] fix: overflow checks of the naive integer accumulator

With BWSL_ACCUMULATORS_CHECKS the chained comparison was always true, so
every Add threw AccumulatorOverflow.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index f5d0bce..367ebd4 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -106,10 +106,12 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  auto next = 0L;
+  if (__builtin_add_overflow(sum_, x, &next)) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  if (__builtin_mul_overflow(x, x, &next) ||
+      __builtin_add_overflow(sum2_, next, &next)) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 6b1d8a47f1c44cb1800dce337c8274ab6b5bd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 07/23] fix: normalise all histogram bins by the same value

GetResults(idx) divided by an element of the vector it was rescaling:
the bins after idx were divided by one.
---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From bd0d39675d024dbf01b8ec4362bc7bb9cf0a57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 08/23] fix: do not wrap coordinates on lattices with open
 boundaries

Lattice::EnforceBoundaries wrapped whatever the boundary conditions,
unlike the grid function it shadows.
---
 include/bwsl/Lattice.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..35fac17 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -199,15 +199,7 @@ inline Lattice::Lattice(Bravais const& bravais,
 inline void
 Lattice::EnforceBoundaries(coords_t& coords) const
 {
-  for (auto i = 0UL; i < GetDim(); i++) {
-    auto s = GetSize()[i];
-    while (coords[i] < 0) {
-      coords[i] += s;
-    }
-    while (coords[i] >= static_cast<long>(s)) {
-      coords[i] -= s;
-    }
-  }
+  HyperCubicGrid::EnforceBoundaries(coords);
 }
 
 inline auto
-- 
2.43.0


From 96eb5e6466bf34246417b85a95864a50fcb6c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 09/23] fix: vectors and distances on lattices with open
 boundaries

Without wrapping, the mapped site of two sites is not a site when any
component of the difference is negative, and the tables were read out of
bounds.
---
 include/bwsl/Lattice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 35fac17..d22cf79 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -206,6 +206,9 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    return sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -214,6 +217,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    auto vec = position_[b];
+    subtract_into(vec, position_[a]);
+    return vec;
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From 71914ba67d28a46f5295bb4afe2c33b24cdecdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 10/23] fix: SaveMomenta on lattices with open boundaries

Open lattices have no momenta; the loop over the sites read past the end
of the empty table.
---
 include/bwsl/Lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index d22cf79..c74c8f3 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -481,7 +481,7 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From 9f90c52d2d2496a4d17d5bb2bd265826fb277c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 11/23] fix: momenta of lattices with a non-orthogonal basis

The Cartesian components were divided by the sizes instead of the
reciprocal vectors, which is wrong for a triangular lattice with different
sizes: the momenta were not compatible with the boundary conditions.
---
 include/bwsl/Lattice.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index c74c8f3..1f05f96 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -373,9 +373,16 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // each reciprocal vector is scaled by its own size
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto k = 0UL; k < GetDim(); k++) {
+      auto unit = coords_t(GetDim(), 0L);
+      unit[k] = 1L;
+      auto const b = bravais.GetReciprocalSpace(unit);
+      auto const x = static_cast<double>(ci[k]) / GetSize()[k];
+      for (auto m = 0UL; m < GetDim(); m++) {
+        kappa[m] += x * b[m];
+      }
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 9a388a768c94acc148b04539d14b2caae12af5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 12/23] fix: index in Bravais::GetInverseVector

The matrix-vector product used the row index for the vector, so the
result was wrong for any non-orthogonal basis.
---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From 02e713afc68d3f79e0c3fbeac994cbfb735c77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 13/23] fix: dangling message of the enum conversion exception

what() returned a pointer into a local string.
---
 include/bwsl/EnumString.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..9c52b44 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,18 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_(std::string("Unknown correspondance of ") + value +           \
+                 std::string(" for enum " BOOST_PP_STRINGIZE(name)))           \
     {                                                                          \
     }                                                                          \
                                                                                \
     const char* what() const throw()                                           \
     {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
+      return message_.c_str();                                                 \
     }                                                                          \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_{};                                                    \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From c3151dd4e7820f1784f1922ba760dee60b9e0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 14/23] fix: define the comparison operators of LinSpace

The friends declared in the class were not templates and had no
definition, so iterating over a LinSpace did not link.
---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..e88a735 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  }
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 0fa9b19d47dd853ec34ba74b685987a14597cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 15/23] fix: define the declared operators < and > of Approx

They were declared but never defined, so using them did not link.
---
 include/bwsl/Approx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..16ba4f0 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ < rhs && lhs != rhs;
+}
+
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return lhs < rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator>(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ > rhs && lhs != rhs;
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return lhs > rhs.value_ && lhs != rhs;
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From 4435de0f6ec22ac3342717e6bca9724f38e16d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 16/23] fix: interpolation upper_bound

The final step called itself instead of std::upper_bound and recursed
forever (or was ambiguous), an empty range was read, the interpolated
position could be the end of the range and an element equal to the value
ended the search although it may be repeated.
---
 include/bwsl/MathUtils.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..34c5e33 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -353,10 +353,14 @@ template<class ForwardIt, class T>
 inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
-  auto count = std::distance(first, last);
+  if (first == last) {
+    return last;
+  }
+
   auto it = first;
   auto to = it;
-  std::advance(to, count - 1);
+  std::advance(to, std::distance(first, last) - 1);
+  auto count = std::distance(it, to);
 
   while (count > 10000) {
     auto itval = *it;
@@ -364,9 +368,6 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     if (value < itval) {
       return it;
     }
-    if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
-    }
 
     // check if the value is outside the upper bound of the search interval
     if (!(value < *to)) { // value >= to
@@ -385,7 +386,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From fb2beaeccbe3821bdd867e9c22f8e9c2bb696e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 17/23] fix: make compare_files inline

Including the header in two translation units was a multiple definition.
---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..3e2fe01 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0


From b455e4e719042f99c63b3ea29a6738730ddbf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 18/23] fix: rejection and impossible ratios without proposals

They were NaN, while the acceptance ratio is zero in that case.
---
 include/bwsl/mcutils/MoveStats.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/mcutils/MoveStats.hpp b/include/bwsl/mcutils/MoveStats.hpp
index 03eb46c..9b6874b 100644
--- a/include/bwsl/mcutils/MoveStats.hpp
+++ b/include/bwsl/mcutils/MoveStats.hpp
@@ -138,13 +138,14 @@ public:
   /// Compute the rejection ratio from the collected statistics
   [[nodiscard]] auto GetRejectedRatio() const -> double
   {
-    return static_cast<double>(rejected_) / proposed_;
+    return proposed_ == 0UL ? 0.0 : static_cast<double>(rejected_) / proposed_;
   };
 
   /// Compute the ratio of cancellations from the collected statistics
   [[nodiscard]] auto GetImpossibleRatio() const -> double
   {
-    return static_cast<double>(impossible_) / proposed_;
+    return proposed_ == 0UL ? 0.0
+                            : static_cast<double>(impossible_) / proposed_;
   };
 
   /// Compute the average acceptance
-- 
2.43.0


From 9321aa004a476be550495ba6e7b5a28d019ac1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 19/23] fix: archive the name of the move statistics

Statistics loaded into a default constructed object were left named
Unknown. Archives of the previous version are still read.
---
 include/bwsl/mcutils/MoveStats.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/mcutils/MoveStats.hpp b/include/bwsl/mcutils/MoveStats.hpp
index 9b6874b..4ca06fb 100644
--- a/include/bwsl/mcutils/MoveStats.hpp
+++ b/include/bwsl/mcutils/MoveStats.hpp
@@ -25,6 +25,7 @@
 
 // boost
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/string.hpp>
 #include <boost/serialization/version.hpp>
 
 // std
@@ -200,7 +201,7 @@ private:
 
 template<class Archive>
 inline auto
-MoveStats::serialize(Archive& ar, const unsigned int /* version */) -> void
+MoveStats::serialize(Archive& ar, const unsigned int version) -> void
 {
   // clang-format off
   ar & prob_;
@@ -209,6 +210,9 @@ MoveStats::serialize(Archive& ar, const unsigned int /* version */) -> void
   ar & rejected_;
   ar & impossible_;
   ar & proposedflag_;
+  if (version > 0) {
+    ar & name_;
+  }
   // clang-format on
 }
 
@@ -285,4 +289,7 @@ operator<<(std::ostream& os, const MoveStats& dt) -> std::ostream&
 }
 } // namespace bwsl
 
+// version 1: the name of the move is part of the archive
+BOOST_CLASS_VERSION(bwsl::montecarlo::MoveStats, 1)
+
 // vim: set ft=cpp ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From c23eb51c00195eee66791d6a1373a1b82267b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/23] fix: print empty observable groups

The first element of the empty map was dereferenced.
---
 include/bwsl/ObservableGroup.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..907fae2 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -119,6 +119,10 @@ ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
 
+  if (accumulator_.empty()) {
+    return;
+  }
+
   auto it = accumulator_.begin();
   fmt::print(out, "{}", it->first);
   while (++it != accumulator_.end()) {
@@ -133,6 +137,11 @@ inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::app);
+
+  if (accumulator_.empty()) {
+    return;
+  }
+
   auto it = accumulator_.begin();
   auto count = it->second.Count();
   fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-- 
2.43.0


From 45e2eabb1cf6865d9e764b364d02edcaab88aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 21/23] fix: read the full range of seeds in dumpmt

atoi truncates seeds beyond 31 bits.
---
 applications/dumpmt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..be99f57 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,7 +26,7 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = static_cast<unsigned long>(std::strtoull(av[1], nullptr, 10));
 
   auto rng = std::mt19937_64{seed};
 
-- 
2.43.0


From 2901e3b63be8ec30d0dcdd8dc57568a8875a2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:47 +0000
Subject: [PATCH 22/23] fix: keep the half extent of a jump in the coordinate
 type

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..565d89e 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<coords_t::value_type>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From c359f0d555e6a5e54c8371efa9e6c6886da4f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 23/23] fix: interpolate the search position in double

---
 include/bwsl/MathUtils.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 34c5e33..2f6f43b 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -374,8 +374,17 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return ++to;
     }
 
-    // compute the new position interpolating the position of the point
-    const auto np = std::round((value - itval) / (*to - itval) * count);
+    // compute the new position interpolating the position of the point: in
+    // double, where the differences of two elements cannot overflow, and at the
+    // middle if the elements do not interpolate (equal in double, infinite)
+    const auto lower = static_cast<double>(itval);
+    const auto ratio = (static_cast<double>(value) - lower) /
+                       (static_cast<double>(*to) - lower);
+    auto np = count / 2;
+    if (ratio >= 0.0 && ratio <= 1.0) {
+      np = static_cast<decltype(np)>(
+        std::round(ratio * static_cast<double>(count)));
+    }
     auto nt = it;
     std::advance(nt, np);
 
-- 
2.43.0

