// Closed-form magnitude responses of the analog prototypes and the warped frequency of each band type, in long double.
#pragma once
#include "vh.hpp"
namespace vh {
inline const real PI = std::acos(-1.0L);

// Jacobi sn(u K, k) for real u by descending Landen steps (independent of the library).
inline real ellipK(real k) { real a = 1, b = std::sqrt((1 - k) * (1 + k)); for (int i = 0; i < 40 && std::fabs(a - b) > 1e-19L * a; ++i) { real t = (a + b) / 2; b = std::sqrt(a * b); a = t; } return PI / (2 * a); }
inline std::vector<real> landen(real k) {
	std::vector<real> v;
	while (k > 1e-21L && v.size() < 30) { const real kp = std::sqrt((1 - k) * (1 + k)); k = (k / (1 + kp)) * (k / (1 + kp)); v.push_back(k); }
	return v;
}
inline real snK(real u, real k) {
	const auto v = landen(k);
	real w = std::sin(u * PI / 2);
	for (size_t i = v.size(); i-- > 0;) w = (1 + v[i]) * w / (1 + v[i] * w * w);
	return w;
}
// modulus from the degree equation: K'(k)/K(k) = n^-1 ... solved through nomes
inline real degreeModulus(size_t n, real k1) {
	const real k1p = std::sqrt((1 - k1) * (1 + k1));
	const real q = std::exp(-PI * ellipK(k1p) / ellipK(k1) / (real)n);
	real num = 0, den = 1;
	for (int m = 0; m < 60; ++m) num += std::pow(q, (real)m * (m + 1));
	for (int m = 1; m < 60; ++m) den += 2 * std::pow(q, (real)m * m);
	const real r = num / den;
	return 4 * std::sqrt(q) * r * r;
}
struct Proto {
	enum Kind { BUTTERWORTH, CHEBYSHEV1, CHEBYSHEV2, ELLIPTIC } kind;
	size_t n;
	real rp = 0, rs = 0;
	real k = 0;
	std::vector<real> z; // zeros of the elliptic rational function in the pass band
	void init() {
		if (kind != ELLIPTIC) return;
		k = degreeModulus(n, eps() / std::sqrt(1 / (rs * rs) - 1));
		for (size_t i = 1; i <= n / 2; ++i) z.push_back(snK((real)(2 * i - 1 + n % 2) / n, k));
	}
	real eps() const { return std::sqrt(1 / ((1 - rp) * (1 - rp)) - 1); }
	real k1sq() const { return eps() * eps() / (1 / (rs * rs) - 1); }
	static real cheb(size_t n, real x) {
		x = std::fabs(x);
		return x <= 1 ? std::cos(n * std::acos(x)) : std::cosh(n * std::acosh(x));
	}
	real rational(real w) const {
		auto prod = [&](real x) { real r = n % 2 ? x : 1; for (real zi : z) r *= (x * x - zi * zi) / (1 - k * k * x * x * zi * zi); return r; };
		return prod(w) / prod(1);
	}
	real power(real w) const { // |H|^2 at analog frequency w (may be infinite)
		switch (kind) {
			case BUTTERWORTH: return 1 / (1 + std::pow(w, 2 * (real)n));
			case CHEBYSHEV1: { const real t = eps() * cheb(n, w); return 1 / (1 + t * t); }
			case CHEBYSHEV2: {
				if (w == 0) return 1;
				const real e = rs / std::sqrt(1 - rs * rs), t = e * cheb(n, 1 / w);
				return t * t / (1 + t * t);
			}
			default: {
				if (std::isinf(w) || w > 1e8L) { real r = n % 2 ? w : 1; for (real zi : z) r *= 1 / (-k * k * zi * zi); auto at1 = [&] { real q = 1; for (real zi : z) q *= (1 - zi * zi) / (1 - k * k * zi * zi); return q; }(); const real t = eps() * r / at1; return 1 / (1 + t * t); }
				const real t = eps() * rational(w);
				return 1 / (1 + t * t);
			}
		}
	}
};
enum Band { LOWPASS, HIGHPASS, BANDPASS, BANDSTOP };
// Signed analog prototype frequency that digital frequency f (1 = Nyquist) corresponds to.
inline real warped(Band b, real f, real f1, real f2 = 0) {
	const real t = std::tan(f * PI / 2), a = std::tan(f1 * PI / 2), u = std::tan(f2 * PI / 2);
	switch (b) {
		case LOWPASS: return t / a;
		case HIGHPASS: return -a / t;
		case BANDPASS: return (t * t - a * u) / ((u - a) * t);
		default: return (u - a) * t / (a * u - t * t);
	}
}
} // namespace vh
