// Reference of polyphase interpolation: the convolution of the zero-stuffed input with the filter scaled by the rate.
#pragma once
#include <utility>
#include "convref.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
namespace vh {
template <class W> struct Hi {
	std::vector<W> v;
	std::vector<real> s;
	W at(long long i) const { return i >= 0 && i < (long long)v.size() ? v[i] : W(0); }
	real scale(long long i) const { return i >= 0 && i < (long long)s.size() ? s[i] : 0; }
};
template <class X, class P> auto hiRes(const std::vector<X>& x, const std::vector<P>& h, size_t phases) {
	using W = decltype(wide(X()) * wide(P()));
	Hi<W> r;
	const size_t n = x.size() * phases + h.size() - 1;
	r.v.assign(n, W(0));
	r.s.assign(n, 0);
	for (size_t i = 0; i < x.size(); ++i)
		for (size_t k = 0; k < h.size(); ++k) {
			const auto t = wide(x[i]) * wide(h[k]) * (real)phases;
			r.v[i * phases + k] += t;
			r.s[i * phases + k] += mag(t);
		}
	return r;
}
template <class X> void fillVec(Rng& g, std::vector<X>& v, bool exact) {
	for (auto& e : v) e = exact ? [&] { X q; if constexpr (is_cplx<X>::value) q = X((real_of_t<X>)g.range(-9, 9), (real_of_t<X>)g.range(-9, 9)); else q = (X)g.range(-9, 9); return q; }() : rnd<X>(g, -1, 1);
	if (!exact) vary(g, v);
	else if (g.chance(0.25)) { // integers times a power of two: still exact, far from order one
		const int e = sizeof(real_of_t<X>) == 4 ? 28 : 240;
		const auto s = (real_of_t<X>)std::ldexp(1.0, (int)g.range(-e, e));
		for (auto& q : v) q *= s;
	}
}
// A decomposition obtained through one of the ways the library offers; checks that copies and moves denote the same filter.
template <class P, dspbb::eSignalDomain D> dspbb::PolyphaseFilter<P, D> decompose(Case& c, const std::vector<P>& h, size_t phases) {
	using namespace dspbb;
	auto& g = c.rng;
	auto f = PolyphaseDecompose(BasicSignal<P, D>(h.begin(), h.end()), phases);
	switch (g.range(0, 7)) {
		case 5: { // over a filter that has the same size, or the same number of phases
			const bool same = g.chance(0.6);
			PolyphaseFilter<P, D> a(same ? h.size() : h.size() + g.size(0, 3), same ? g.size(1, 9) : phases);
			for (auto& v : a.Buffer()) v = P(777);
			a = std::as_const(f);
			for (auto& v : f.Buffer()) v = P(12345);
			return a;
		}
		case 6: { PolyphaseFilter<P, D> a(h.size(), g.size(1, 9)); a = std::move(f); return a; }
		case 0: { auto copy = f; auto again = copy; copy.Buffer()[0] = P(12345); return again; }
		case 1: { auto moved = std::move(f); return moved; }
		case 2: { PolyphaseFilter<P, D> a; a = f; f.Buffer()[0] = P(12345); return a; }
		case 3: { PolyphaseFilter<P, D> a(3, 2); a = std::move(f); f = PolyphaseFilter<P, D>(1, 1); return a; }
		case 4: {
			PolyphaseFilter<P, D> a(h.size(), phases);
			BasicSignalView<const P, D> hv(h.data(), h.data() + h.size());
			PolyphaseDecompose(a.Buffer(), hv, phases);
			return a;
		}
		default: return f;
	}
}
} // namespace vh
