// Reference convolution window in long double, with the sum of magnitudes that scales rounding bounds.
#pragma once
#include "vh.hpp"
namespace vh {
template <class A, class B> struct ConvRef {
	using W = decltype(wide(A()) * wide(B()));
	std::vector<W> value;
	std::vector<real> scale;
};
template <class A, class B> ConvRef<A, B> convRef(const A* u, size_t nu, const B* v, size_t nv, size_t offset, size_t count) {
	ConvRef<A, B> r;
	using W = typename ConvRef<A, B>::W;
	r.value.resize(count);
	r.scale.resize(count);
	for (size_t k = 0; k < count; ++k) {
		const long long n = (long long)(offset + k);
		W s = 0;
		real a = 0;
		for (long long m = std::max(0ll, n - (long long)nv + 1); m < (long long)nu && m <= n; ++m) {
			s += wide(u[m]) * wide(v[n - m]);
			a += mag(wide(u[m])) * mag(wide(v[n - m]));
		}
		r.value[k] = s;
		r.scale[k] = a;
	}
	return r;
}
template <class T> void fillSig(Rng& g, Buf<T>& b, bool exact, int lim = 9) {
	for (auto& v : b) {
		if constexpr (std::is_integral_v<T>) v = (T)g.range(-lim, lim);
		else if (exact) { if constexpr (is_cplx<T>::value) v = T((real_of_t<T>)g.range(-lim, lim), (real_of_t<T>)g.range(-lim, lim)); else v = (T)g.range(-lim, lim); }
		else v = rnd<T>(g, -1, 1);
	}
	if (!exact) vary(g, b);
}
// Powers of two on the operands and on what the result is added to: integers stay exact, far from order one.
template <class A, class B, class R> void rescale(Rng& g, Buf<A>& u, Buf<B>& v, Buf<R>& o) {
	if constexpr (!std::is_integral_v<A> && !std::is_integral_v<B>) {
		if (!g.chance(0.25)) return;
		const int e = std::max(sizeof(real_of_t<A>), sizeof(real_of_t<B>)) == 4 || std::min(sizeof(real_of_t<A>), sizeof(real_of_t<B>)) == 4 ? 28 : 240;
		const int ea = g.chance(0.3) ? 0 : (int)g.range(-e, e), eb = g.chance(0.3) ? 0 : (int)g.range(-e, e);
		for (auto& x : u) x *= (real_of_t<A>)std::ldexp(1.0, ea);
		for (auto& x : v) x *= (real_of_t<B>)std::ldexp(1.0, eb);
		for (auto& x : o) x *= (real_of_t<R>)std::ldexp(1.0, ea + eb);
	}
}
template <class B> real energy(const B& b) { real s = 0; for (auto& x : b) s += mag(wide(x)) * mag(wide(x)); return s; }
} // namespace vh
