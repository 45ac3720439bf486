From 46266389d440de6bebef807213a2839aefeab062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 01/23] fix: return *this from FactoredPolynomial assignment
 operators

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From 3c4ae98f0387693ba6b42694ed5bcc00f8b2cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 02/23] fix: keep complex pairs when FactoredPolynomial::resize
 adds real roots

---
 include/dspbb/Math/Polynomials.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..692e4c6 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,8 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		const size_t numKept = 2 * std::min(currentComplexPairs, numComplexPairs);
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + currentRealRoots + numKept, m_mem.begin() + numRealRoots + numKept);
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From 4a5e8d6e77fac3a4069ea7550aac7101827126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 03/23] fix: compare upper bounds in Interval equality

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 76790d3837e50949a40b79d1bedb26cec081fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 04/23] fix: keep denominator positive when multiplying
 Rational by a negative integer

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 7721fe7d7bd843cd554008c2d59af00df317fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 05/23] fix: round negative Rationals correctly in floor, ceil
 and frac

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..16fc423 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() > 0 ? quotient + 1 : quotient;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() < 0 ? quotient - 1 : quotient;
 }
 
 template <class T>
-- 
2.43.0


From 9ec1ea482451cd74e808b6fc87eb88b83e95ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 06/23] fix: write zero to Interpolate outputs that no input
 sample contributes to

---
 include/dspbb/Filtering/Resample.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..06f3d72 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,10 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			hrOutput[hrOutputIdx - hrOffset] = R(remove_complex_t<R>(0));
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From a9513355013e74ee7c15429e5694faa27d1cb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 07/23] fix: make even central moments above the fourth
 non-negative

---
 include/dspbb/Math/Statistics.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..8718187 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -85,7 +85,9 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
 		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		const V magnitude = kernels::math_functions::abs(d);
+		const V power = kernels::math_functions::pow(magnitude, V(T(k) - T(1)));
+		return k % 2 == 0 ? V(magnitude * power) : V(d * power);
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From 94decfd969d9ff2ae7e720e17434a561713be5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 08/23] fix: detect in-place FftShift through views of the same
 data

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From 27c0585446a53a150a81b5de43bb93548fc18a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 09/23] fix: write centre tap in out-of-place ShiftResponse

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a46272d 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 63da42526b4a4818b6e1014a34383ddfaa830b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 10/23] fix: keep sawtooth and PWM waves periodic for negative
 phases

---
 include/dspbb/Generators/Waveforms.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..e1fc12e 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -44,8 +44,7 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +53,7 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From bab2a1df5494a905c7196a4f797bad606643912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 11/23] fix: let OverlapAdd handle empty outputs (stateful
 filtering with one tap or an empty block)

---
 include/dspbb/Math/OverlapAdd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..9ef6bc0 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,6 +122,9 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
+	if (out.size() == 0) {
+		return;
+	}
 	if (chunkSize == 0) {
 		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
 	}
-- 
2.43.0


From 6e357c48adf00deeb1da63570b7cd6c7a62556cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 12/23] fix: keep the sign of the argument in EllipticArcSN

---
 include/dspbb/Math/EllipticFunctions.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 63e2829..2cfc98c 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -234,11 +234,10 @@ auto EllipticDN(T1 x, T2 k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 T EllipticArcSN(T x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -261,11 +260,10 @@ T EllipticArcDN(T x, T k) {
 
 template <class T>
 std::complex<T> EllipticArcSN(std::complex<T> x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T>
-- 
2.43.0


From 075cd406de687f8185be231beb284db5e386f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 13/23] fix: honour the Grid setting of least-squares FIR
 designs

---
 include/dspbb/Filtering/FIR.hpp              | 2 +-
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..50cf9a1 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -188,7 +188,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..15e7d0d 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -73,7 +73,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max(filterLength, gridSize);
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From 847efe89a7d38c91bd9bd98c345cabe2307d9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 14/23] fix: normalise the feedback of DirectFormII by the
 leading denominator coefficient

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..2ac29e2 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (input - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From b6cfc176750bf0335eba4f98ded559f81b8cf762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 15/23] fix: keep half-band to high-pass and band-pass
 transforms finite at cutoff 0.5 and bandwidth 0.5

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..50e60de 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = 1;
+	const T a1 = (std::cos(w1) + std::cos(w2) - std::sin(w1) + std::sin(w2)) / (-1 + std::sin(w1 - w2));
+	const T a0 = -1 - 2 / (-1 + std::tan((w1 - w2) / 2));
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 5bb0781b19e8ba754fd56516b574771172718430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 16/23] fix: do not over-report the order of CascadedBiquad

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..392630a 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -130,13 +130,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From 4e36edee51c36986b6d865a6a410bf7c750ceefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 17/23] fix: sample the arbitrary FIR response at the
 frequencies of its spectrum

---
 include/dspbb/Filtering/FIR/Windowed.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Windowed.hpp b/include/dspbb/Filtering/FIR/Windowed.hpp
index c214d34..aa4787f 100644
--- a/include/dspbb/Filtering/FIR/Windowed.hpp
+++ b/include/dspbb/Filtering/FIR/Windowed.hpp
@@ -59,7 +59,8 @@ void KernelWindowedArbitrary(SignalR& out, const ResponseFunc& response, WindowF
 	using ComplexR = std::complex<remove_complex_t<R>>;
 
 	BasicSignal<ComplexR, FREQUENCY_DOMAIN> discreteResponse(out.size() / 2 + 1);
-	LinSpace(discreteResponse, R(0), R(1), true);
+	// The last bin of an odd-length spectrum lies below the Nyquist frequency.
+	LinSpace(discreteResponse, R(0), R(out.size() - 1) / R(out.size()), true);
 	std::for_each(discreteResponse.begin(), discreteResponse.end(), [&response](auto& arg) { arg = response(std::real(arg)); });
 
 	const auto impulse = Ifft(discreteResponse, FFT_HALF, out.size() % 2 == 0);
@@ -78,7 +79,8 @@ void KernelWindowedArbitrary(SignalR& out, const ResponseFunc& response, const S
 	using ComplexR = std::complex<remove_complex_t<R>>;
 
 	BasicSignal<ComplexR, FREQUENCY_DOMAIN> discreteResponse(out.size() / 2 + 1);
-	LinSpace(discreteResponse, R(0), R(1), true);
+	// The last bin of an odd-length spectrum lies below the Nyquist frequency.
+	LinSpace(discreteResponse, R(0), R(out.size() - 1) / R(out.size()), true);
 	std::for_each(discreteResponse.begin(), discreteResponse.end(), [&response](auto& arg) { arg = response(std::real(arg)); });
 
 	const auto impulse = Ifft(discreteResponse, FFT_HALF, out.size() % 2 == 0);
-- 
2.43.0


From cb297db47c44e623a72b25e14a49256b625e63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 18/23] fix: take the square roots of Carlson's terms
 separately so complex arguments stay on the principal branch

---
 include/dspbb/Math/EllipticFunctions.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 2cfc98c..204d4d2 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -41,11 +41,11 @@ T CarlsonRF(T x, T y, T z) {
 	T lambdan = T(0);
 
 	while (Qn > std::abs(An)) {
-		const auto lambdan2 = lambdan * lambdan;
-		const auto l1 = std::sqrt(x * y + (x + y) * lambdan + lambdan2);
-		const auto l2 = std::sqrt(x * z + (x + z) * lambdan + lambdan2);
-		const auto l3 = std::sqrt(z * y + (z + y) * lambdan + lambdan2);
-		lambdan += l1 + l2 + l3;
+		// The root of each term has to be taken separately: the root of a complex product may be on the other branch.
+		const auto sx = std::sqrt(x + lambdan);
+		const auto sy = std::sqrt(y + lambdan);
+		const auto sz = std::sqrt(z + lambdan);
+		lambdan += sx * sy + sx * sz + sy * sz;
 		x /= S(4);
 		y /= S(4);
 		z /= S(4);
-- 
2.43.0


From 085247d07cb0f994d5b297ee1ce2742477bdc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 19/23] fix: Jacobi functions with a modulus above one
 exchanged cn and dn and reduced by the wrong period

---
 include/dspbb/Math/EllipticFunctions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 204d4d2..1dbd9bf 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -164,9 +164,9 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 	}
 
 	if (xPrime > pi_v<T> / 2) {
-		const auto K = EllipticK(k);
+		const auto K = EllipticK(kPrime);
 		int octant = 0;
-		xPrime = std::remquo(x, T(2) * K, &octant);
+		xPrime = std::remquo(xPrime, T(2) * K, &octant);
 		if (octant % 2 == 1) {
 			factorSn *= T(-1);
 			factorCn *= T(-1);
@@ -182,6 +182,10 @@ std::tuple<T, T, T> EllipticSNCNDN(T x, T k) {
 
 	const T am = EllipticAM(xPrime, kPrime);
 	const T sn = factorSn * std::sin(am);
+	if (std::abs(k) > T(1)) {
+		// The reciprocal modulus exchanges cn and dn.
+		return { sn, std::sqrt(T(1) - sn * sn), factorCn * std::cos(am) };
+	}
 	const T cn = factorCn * std::cos(am);
 	const T dn = factorDn * std::sqrt(T(1) - k * k * sn * sn);
 	return { sn, cn, dn };
-- 
2.43.0


From 4d5d6b7884c6e8d05e0affab06cdfd33e5b0c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 20/23] fix: Chebyshev type 1 gain of orders above 32 shifted
 past the width of its integer

---
 include/dspbb/Filtering/IIR/Chebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Chebyshev.hpp b/include/dspbb/Filtering/IIR/Chebyshev.hpp
index 773cf08..fd258ab 100644
--- a/include/dspbb/Filtering/IIR/Chebyshev.hpp
+++ b/include/dspbb/Filtering/IIR/Chebyshev.hpp
@@ -34,7 +34,7 @@ namespace impl {
 template <class T>
 ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1(size_t order, T ripple) {
 	const T epsilon = std::sqrt(T(1) / std::pow(T(1) - ripple, T(2)) - 1);
-	const T gain = T(1) / (T(1u << (order - 1)) * epsilon);
+	const T gain = T(1) / (std::ldexp(T(1), int(order) - 1) * epsilon);
 
 	FactoredPolynomial<T> poles;
 	poles.resize(order % 2, order / 2);
-- 
2.43.0


From 4e08667f15d6ae66168a1a94b4289e6508880d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 21/23] fix: flat-top, Gaussian and Dolph-Chebyshev windows of
 one sample were NaN

---
 include/dspbb/Filtering/Windowing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dspbb/Filtering/Windowing.hpp b/include/dspbb/Filtering/Windowing.hpp
index 3c28cf0..965309c 100644
--- a/include/dspbb/Filtering/Windowing.hpp
+++ b/include/dspbb/Filtering/Windowing.hpp
@@ -62,11 +62,11 @@ void FlatTopWindow(SignalR&& out) {
 	U c3 = U(-0.083578947);
 	U c4 = U(0.006947368);
 
-	const U N = U(out.size());
-	U preSize1 = U(2) * pi_v<U> / (N - U(1));
-	U preSize2 = U(4) * pi_v<U> / (N - U(1));
-	U preSize3 = U(6) * pi_v<U> / (N - U(1));
-	U preSize4 = U(8) * pi_v<U> / (N - U(1));
+	const U M = std::max(U(1), U(out.size()) - U(1)); // A single sample has no extent to divide by.
+	U preSize1 = U(2) * pi_v<U> / M;
+	U preSize2 = U(4) * pi_v<U> / M;
+	U preSize3 = U(6) * pi_v<U> / M;
+	U preSize4 = U(8) * pi_v<U> / M;
 
 	LinSpace(out, U(0), U(out.size() - 1), true);
 	std::for_each(out.begin(), out.end(), [&](R& k) {
@@ -126,7 +126,7 @@ void GaussianWindow(SignalR&& out, V sigma = 1.f) {
 	const auto N = U(out.size());
 	const auto M = (N - U(1)) / U(2);
 	LinSpace(out, -M, M, true);
-	out *= U(1) / (U(sigma) * M);
+	out *= U(1) / (U(sigma) * std::max(M, U(0.5))); // The half width of a single sample is zero.
 	Multiply(out, out, out);
 	out *= U(-0.5);
 	Exp(out, out);
@@ -175,7 +175,7 @@ template <class SignalR, class V, std::enable_if_t<is_mutable_signal_v<SignalR>
 void DolphChebyshevWindow(SignalR&& out, V attenuation) {
 	using T = typename std::decay_t<SignalR>::value_type;
 
-	const size_t M = out.size() - 1;
+	const size_t M = std::max(size_t(1), out.size() - 1);
 	const T beta = std::cosh(T(1) / M * std::acosh(T(1) / T(attenuation)));
 	Spectrum<std::complex<T>> spectrum(out.size() / 2 + 1);
 	LinSpace(spectrum, T(0), pi_v<T> * (T(spectrum.size() - 1) / T(out.size())), true);
-- 
2.43.0


From b519e3cb5436cbf31ac143d590a4ea54ae3f201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 22/23] fix: Carlson RF of close arguments on both sides of the
 branch cut skipped the duplication steps

---
 include/dspbb/Math/EllipticFunctions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 1dbd9bf..88b6264 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -40,7 +40,8 @@ T CarlsonRF(T x, T y, T z) {
 	S Qn = std::pow(S(3) * r, -S(1) / S(8)) * std::max({ std::abs(An - x), std::abs(An - y), std::abs(An - z) });
 	T lambdan = T(0);
 
-	while (Qn > std::abs(An)) {
+	// The series needs at least one step: close arguments may lie on both sides of the branch cut, afterwards they cannot.
+	do {
 		// The root of each term has to be taken separately: the root of a complex product may be on the other branch.
 		const auto sx = std::sqrt(x + lambdan);
 		const auto sy = std::sqrt(y + lambdan);
@@ -53,7 +54,7 @@ T CarlsonRF(T x, T y, T z) {
 		Qn /= S(4);
 		Amn /= S(4);
 		An = Amn + lambdan;
-	}
+	} while (Qn > std::abs(An));
 
 	const auto X = (Amn - x) / An;
 	const auto Y = (Amn - y) / An;
-- 
2.43.0


From a72509b5f3d37bf16fc833f6ba5e2e283a57331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 23/23] fix: bisection went astray when the product of function
 values underflowed

---
 include/dspbb/Math/Solvers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..d83092f 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -10,7 +10,8 @@ T Bisect(Func func, T a, T b, T tolerance = T(0)) {
 	do {
 		const auto fa = func(a);
 		const auto fc = func(c);
-		if (fa * fc <= 0) {
+		// The product of the values may underflow, compare the signs.
+		if ((fa <= 0 && fc >= 0) || (fa >= 0 && fc <= 0)) {
 			b = c;
 		}
 		else {
-- 
2.43.0

