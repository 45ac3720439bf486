// Recursive realizations against the difference equation, under random block histories, copies and resets.
#include "convref.hpp"
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

// The recurrence: highest powers belong to the newest samples. Also the rounding bound of any direct evaluation of it.
template <class W> struct Rec {
	std::vector<W> y;
	std::vector<real> bound;
};
template <class W> static Rec<W> recurrence(const std::vector<real>& b, const std::vector<real>& a, const std::vector<W>& x) {
	const size_t n = x.size(), N = a.size() - 1, M = b.size() - 1;
	const real lead = a.back();
	Rec<W> r;
	r.y.resize(n);
	r.bound.resize(n);
	std::vector<W> w(n);
	std::vector<real> g(n), s1(n), s2(n);
	real bsum = 0;
	for (auto v : b) bsum += std::fabs(v);
	for (size_t i = 0; i < n; ++i) {
		W acc = 0;
		real mg = 0;
		for (size_t k = 0; k <= M && k <= i; ++k) acc += b[M - k] * x[i - k], mg += std::fabs(b[M - k]) * mag(x[i - k]);
		for (size_t k = 1; k <= N && k <= i; ++k) acc -= a[N - k] * r.y[i - k], mg += std::fabs(a[N - k]) * mag(r.y[i - k]);
		r.y[i] = acc / lead;
		s1[i] = mg / std::fabs(lead);
		W u = x[i] / lead;
		real mu = mag(u);
		for (size_t k = 1; k <= N && k <= i; ++k) u -= a[N - k] / lead * w[i - k], mu += std::fabs(a[N - k] / lead) * mag(w[i - k]);
		w[i] = u;
		s2[i] = mu;
		real q = i == 0;
		for (size_t k = 1; k <= N && k <= i; ++k) q -= a[N - k] / lead * g[i - k];
		g[i] = q;
	}
	for (size_t i = 0; i < n; ++i) {
		real e = 0;
		for (size_t k = 0; k <= i; ++k) e += std::fabs(g[k]) * (s1[i - k] + bsum * s2[i - k]);
		r.bound[i] = e;
	}
	// DF II sums several states per output
	for (size_t i = n; i-- > 0;) for (size_t k = 1; k <= M && k <= i; ++k) r.bound[i] = std::max(r.bound[i], r.bound[i - k] );
	return r;
}

static std::vector<real> polymul(const std::vector<real>& a, const std::vector<real>& b) {
	std::vector<real> r(a.size() + b.size() - 1, 0);
	for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
	return r;
}

// Drives `state` over `x` in random blocks by all feeding interfaces.
template <class I, class T, class Sys, class St> static std::vector<T> drive(Rng& g, const std::vector<I>& x, const Sys& sys, St& state, int cut) {
	std::vector<T> out;
	size_t pos = 0, empties = 0;
	while (pos < x.size()) {
		size_t b = cut == 0 ? x.size() : cut == 1 ? 1 : cut == 2 ? g.size(0, 4) : g.len(0, 60);
		b = std::min(b, x.size() - pos);
		if (b == 0 && ++empties > 10) b = 1;
		switch (g.range(0, 4)) {
			case 0:
				for (size_t i = 0; i < b; ++i) out.push_back(state.feed(x[pos + i], sys));
				break;
			case 1: {
				std::vector<T> o(b);
				state.feed(x.begin() + pos, x.begin() + pos + b, o.begin(), sys);
				out.insert(out.end(), o.begin(), o.end());
			} break;
			case 2: {
				BasicSignal<I, TIME_DOMAIN> in(x.begin() + pos, x.begin() + pos + b);
				BasicSignal<T, TIME_DOMAIN> o(b);
				Filter(AsView(o), AsConstView(in), sys, state);
				out.insert(out.end(), o.begin(), o.end());
			} break;
			case 3: {
				BasicSignal<T, TIME_DOMAIN> io(x.begin() + pos, x.begin() + pos + b); // in place
				Filter(io, io, sys, state);
				out.insert(out.end(), io.begin(), io.end());
			} break;
			default: {
				BasicSignal<T, TIME_DOMAIN> in(x.begin() + pos, x.begin() + pos + b);
				auto o = Filter(in, sys, state);
				out.insert(out.end(), o.begin(), o.end());
			}
		}
		pos += b;
	}
	return out;
}

template <class T, class W> static void compare(Case& c, const std::vector<T>& got, const Rec<W>& ref, real tolEps, const char* key) {
	c.eq(got.size(), ref.y.size(), "length");
	for (size_t i = 0; i < std::min(got.size(), ref.y.size()); ++i)
		if (!c.near(got[i], ref.y[i], tolEps == 0 ? 0 : tolEps * ref.bound[i] + 1e-30L, key, (long long)i)) break;
}
// Equal up to twice the rounding bound of one evaluation (to the bit when there is no rounding).
template <class T> static bool same(const std::vector<T>& a, const std::vector<T>& b, const std::vector<real>& slack, size_t at = 0) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(mag(wide(a[i]) - wide(b[i])) <= slack[at + i])) return false;
	return true;
}

// copy mid-stream, reset, re-run
template <class I, class T, class Sys, class St> static void histories(Case& c, const std::vector<I>& x, const Sys& sys, const Sys& other, const St& fresh, const std::vector<T>& whole, const std::vector<real>& slack, const char* what) {
	auto& g = c.rng;
	St s = fresh;
	const size_t at = g.size(0, x.size());
	std::vector<I> head(x.begin(), x.begin() + at), tail(x.begin() + at, x.end());
	auto a = drive<I, T>(g, head, sys, s, 3);
	St copy = s;
	auto b1 = drive<I, T>(g, tail, sys, s, 2);
	auto b2 = drive<I, T>(g, tail, sys, copy, 3);
	c.ok(same(b1, b2, slack, at), "copied-state", [&] { return std::string(what) + ": continuation of a copied state differs"; });
	auto joined = a;
	joined.insert(joined.end(), b1.begin(), b1.end());
	c.ok(same(joined, whole, slack), "block-dependent", [&] { return std::string(what) + ": output depends on the block lengths"; });
	s.reset();
	auto again = drive<I, T>(g, x, sys, s, 3);
	c.ok(same(again, whole, slack), "reset", [&] { return std::string(what) + ": behaviour after reset differs from a fresh state"; });
	St assigned;
	assigned.order(fresh.order());
	c.ok(assigned.order() == fresh.order(), "order");
	auto third = drive<I, T>(g, x, sys, assigned, 2);
	c.ok(same(third, whole, slack), "order-then-feed", [&] { return std::string(what) + ": a state sized by order() behaves differently"; });
	// the state belongs to the stream, not to one system: another system before the reset leaves no trace, even when the
	// coefficients are exchanged in the very same object
	Sys v = other;
	St used = fresh;
	drive<I, T>(g, x, v, used, 3);
	v = sys;
	used.reset();
	auto fourth = drive<I, T>(g, x, v, used, 3);
	c.ok(same(fourth, whole, slack), "reset-other-system", [&] { return std::string(what) + ": a state used with another system and reset differs from a fresh one"; });
	// coefficients exchanged in mid-stream: the cuts of the stream still make no difference
	St p = fresh, q = fresh;
	auto p1 = drive<I, T>(g, head, sys, p, 3), q1 = drive<I, T>(g, head, sys, q, 1);
	v = other;
	auto p2 = drive<I, T>(g, tail, v, p, 1), q2 = drive<I, T>(g, tail, other, q, 3);
	real top = 0;
	for (auto& o : p1) top = std::max(top, mag(wide(o)));
	for (auto& o : p2) top = std::max(top, mag(wide(o)));
	const std::vector<real> loose(p2.size(), 1e4L * eps_v<T> * std::max(1.0L, top));
	c.ok(same(p1, q1, slack) && same(p2, q2, loose), "exchange-blocks", [&] { return std::string(what) + ": after an exchange of coefficients the output depends on the block lengths"; });
}

// T: state and output, S: system coefficient, I: input
template <class I, class T, class S> static void direct(Case& c) {
	auto& g = c.rng;
	const bool exact = g.chance(0.5);
	const size_t N = g.size(0, exact ? 6 : 8);
	const size_t M = g.chance(0.7) ? N : g.size(0, N + 1);
	const size_t order = std::max(N, M), extra = g.chance(0.5) ? 0 : g.size(0, 5);
	const size_t n = exact ? g.size(0, eps_v<T> > 1e-10 ? 10 : 24) : g.longer(g.len(0, 250), 4000);
	const int cut = (int)g.range(0, 3);
	c.p("t", std::string(tname<I>()) + tname<T>() + tname<S>()).p("N", N).p("M", M).p("state", order + extra).p("n", n).p("cut", cut).p("exact", exact);
	if (!n) c.trivial();
	std::vector<S> b(M + 1), a;
	std::vector<I> x(n);
	if (exact) {
		const int lim = eps_v<T> > 1e-10 ? 1 : 2;
		for (auto& v : b) v = (S)g.range(-3, 3);
		a.resize(N + 1);
		for (auto& v : a) v = (S)g.range(-lim, lim);
		a.back() = (S)g.pick<double>({ 1, -1, 1, 2, 0.5 });
		if (eps_v<T> > 1e-10 && N > 3) a.back() = (S)g.pick<double>({ 1, -1 });
		for (auto& v : x) v = rnd<I>(g, -1, 1), v = g.chance(0.5) ? I(1) : I(-2);
	}
	else {
		std::vector<real> ar{ 1 };
		size_t k = N;
		while (k >= 2 && g.chance(0.7)) {
			const double m = g.uni(0.1, 0.93), th = g.uni(0, M_PI);
			ar = polymul(ar, { m * m, -2 * m * std::cos(th), 1 });
			k -= 2;
		}
		while (k--) ar = polymul(ar, { g.uni(-0.93, 0.93), 1 });
		const double scale = g.pick<double>({ 1, 1, -0.7, 3.1 });
		for (auto v : ar) a.push_back((S)(v * scale));
		for (auto& v : b) v = (S)g.uni(-1, 1);
		for (auto& v : x) v = rnd<I>(g, -1, 1);
		vary(g, x);
	}
	DiscreteTransferFunction<S> sys(Polynomial<S>(b.begin(), b.end()), Polynomial<S>(a.begin(), a.end()));
	c.eq(sys.order(), order, "system-order");
	std::vector<real> bw(b.begin(), b.end()), aw(a.begin(), a.end());
	using W = decltype(wide(I()));
	std::vector<W> xw;
	for (auto& v : x) xw.push_back(wide(v));
	const auto ref = recurrence(bw, aw, xw);
	// "exact" stays exact only while every intermediate fits the mantissa
	real top = 0;
	for (auto v : ref.bound) top = std::max(top, v);
	const bool bitExact = exact && top * (a.back() == S(1) || a.back() == S(-1) ? 1 : std::pow(2.0L, (real)n)) < 0.1L / eps_v<T>;
	const real tol = bitExact ? 0 : 8 * (N + M + 2) * std::max(eps_v<T>, eps_v<S>);
	DirectFormI<T> one(order + extra);
	DirectFormII<T> two(order + extra);
	const DirectFormI<T> one0 = one;
	const DirectFormII<T> two0 = two;
	c.eq(one.order(), order + extra, "order");
	c.eq(two.order(), order + extra, "order");
	auto y1 = drive<I, T>(g, x, sys, one, cut);
	auto y2 = drive<I, T>(g, x, sys, two, cut);
	compare(c, y1, ref, tol, bitExact ? "direct-form-1-exact" : "direct-form-1");
	compare(c, y2, ref, tol, bitExact ? "direct-form-2-exact" : "direct-form-2");
	// same shape, other coefficients
	std::vector<S> b2 = b, a2 = a;
	std::vector<real> slack = ref.bound;
	for (auto& v : slack) v = bitExact ? 0 : 2 * tol * v + 1e-30L;
	for (auto& v : b2) v = (S)(g.chance(0.3) ? v : -v * S(0.5));
	for (size_t i = 0; i < a2.size(); ++i) a2[i] = (S)std::ldexp(a2[i], (int)i - (int)a2.size() + 1); // poles at half their distance from 0
	if (g.chance(0.5)) a2.back() = (S)(a2.back() * S(2));
	if (g.chance(0.2)) b2.push_back(S(0)), b2.erase(b2.begin());
	DiscreteTransferFunction<S> other(Polynomial<S>(b2.begin(), b2.end()), Polynomial<S>(a2.begin(), a2.end()));
	histories<I, T>(c, x, sys, other, one0, y1, slack, "direct form I");
	histories<I, T>(c, x, sys, other, two0, y2, slack, "direct form II");
}

template <class I, class T, class S> static void cascade(Case& c) {
	auto& g = c.rng;
	const bool exact = g.chance(0.4);
	const size_t sections = g.size(0, exact ? 3 : 5), extra = g.chance(0.5) ? 0 : g.size(0, 5);
	const size_t n = exact ? g.size(0, eps_v<T> > 1e-10 ? 8 : 20) : g.longer(g.len(0, 200), 4000);
	const int cut = (int)g.range(0, 3);
	c.p("t", std::string(tname<I>()) + tname<T>() + tname<S>()).p("sections", sections).p("extra", extra).p("n", n).p("cut", cut).p("exact", exact);
	if (!n) c.trivial();
	CascadedBiquad<S> sys;
	std::vector<real> bw{ 1 }, aw{ 1 };
	using W = decltype(wide(I()));
	std::vector<I> x(n);
	for (auto& v : x) { if (exact) v = g.chance(0.5) ? I(1) : I(-2); else v = rnd<I>(g, -1, 1); }
	if (!exact) vary(g, x);
	std::vector<W> y;
	for (auto& v : x) y.push_back(wide(v));
	std::vector<real> bound(n, 0);
	for (size_t i = 0; i < sections; ++i) {
		typename CascadedBiquad<S>::Biquad q;
		q.numOrder = q.denOrder = 2;
		if (exact) {
			for (auto& v : q.numerator) v = (S)g.range(-2, 2);
			for (auto& v : q.denominator) v = (S)g.range(-1, 1);
		}
		else {
			const double m = g.uni(0, 0.93), th = g.uni(0, M_PI);
			for (auto& v : q.numerator) v = (S)g.uni(-1, 1);
			q.denominator = { (S)(m * m), (S)(-2 * m * std::cos(th)) };
			if (g.chance(0.2)) q.numerator[0] = S(0), q.denominator = { S(0), (S)g.uni(-0.93, 0.93) }, q.numOrder = q.denOrder = 1;
		}
		sys.sections.push_back(q);
		std::vector<real> b(q.numerator.begin(), q.numerator.end()), a{ (real)q.denominator[0], (real)q.denominator[1], 1 };
		auto r = recurrence(b, a, y);
		// error of the section input passes through the section, own rounding adds
		std::vector<real> h = recurrence(b, a, [&] { std::vector<real> d(n, 0); if (n) d[0] = 1; return d; }()).y;
		std::vector<real> nb(n);
		for (size_t k = 0; k < n; ++k) {
			real e = r.bound[k];
			for (size_t j = 0; j <= k; ++j) e += std::fabs(h[j]) * bound[k - j];
			nb[k] = e;
		}
		bound = nb;
		y = r.y;
	}
	Rec<W> ref{ y, bound };
	real top = 0;
	for (auto v : bound) top = std::max(top, v);
	const bool bitExact = exact && top < 0.1L / eps_v<T>;
	CascadedForm<T> st(2 * sections + extra);
	const CascadedForm<T> st0 = st;
	c.ok(st.order() >= 2 * sections + extra, "order");
	auto got = drive<I, T>(g, x, sys, st, cut);
	compare(c, got, ref, bitExact ? 0 : 32 * std::max(eps_v<T>, eps_v<S>), bitExact ? "cascade-exact" : "cascade");
	CascadedBiquad<S> other = sys;
	std::vector<real> slack = ref.bound;
	for (auto& v : slack) v = bitExact ? 0 : 64 * std::max(eps_v<T>, eps_v<S>) * v + 1e-30L;
	for (auto& q : other.sections) for (auto& v : q.numerator) v = (S)(g.chance(0.3) ? v : -v * S(0.5));
	for (auto& q : other.sections) if (g.chance(0.5)) q.denominator[1] = (S)(q.denominator[1] * S(0.5)), q.denominator[0] = (S)(q.denominator[0] * S(0.25));
	histories<I, T>(c, x, sys, other, st0, got, slack, "cascaded form");
	// A section that passes its input on is not there at all: written out or left out, before and after a change to a
	// system that uses all sections.
	if (n && sections) {
		const size_t used = g.size(0, sections - 1), at = g.size(0, n);
		typename CascadedBiquad<S>::Biquad pass;
		pass.numerator = { S(0), S(0), S(1) };
		pass.denominator = { S(0), S(0) };
		pass.numOrder = pass.denOrder = 2;
		CascadedBiquad<S> brief = sys, padded = sys;
		brief.sections.resize(used);
		for (size_t i = used; i < sections; ++i) padded.sections[i] = pass;
		CascadedForm<T> p = st0, q = st0;
		std::vector<I> head(x.begin(), x.begin() + at), tail(x.begin() + at, x.end());
		auto p1 = drive<I, T>(g, head, brief, p, 3), q1 = drive<I, T>(g, head, padded, q, 3);
		auto p2 = drive<I, T>(g, tail, sys, p, 3), q2 = drive<I, T>(g, tail, sys, q, 3);
		real high = 1;
		for (auto& o : p1) high = std::max(high, mag(wide(o)));
		for (auto& o : q2) high = std::max(high, mag(wide(o)));
		const std::vector<real> loose(n, 1e4L * eps_v<T> * high);
		c.ok(same(p1, q1, loose) && same(p2, q2, loose), "identity-sections", [&] { return std::string("sections that pass their input on make a difference"); });
	}
}

// All realizations of one designed system agree with each other.
template <class T> static void agree(Case& c) {
	auto& g = c.rng;
	const size_t order = 2 * g.size(1, 4), n = g.len(1, 300);
	const int kind = (int)g.range(0, 5);
	const T f1 = (T)g.uni(0.15, 0.45), f2 = f1 + (T)g.uni(0.15, 0.4), rip = (T)g.uni(0.05, 0.3);
	c.p("t", tname<T>()).p("order", order).p("n", n).p("kind", kind).p("f1", f1).p("f2", f2).p("rip", rip);
	DiscreteZeroPoleGain<T> zpk;
	switch (kind) {
		case 0: zpk = DesignFilter<T>(order, Iir.Lowpass.Butterworth.Cutoff(f1)); break;
		case 1: zpk = DesignFilter<T>(order, Iir.Highpass.Chebyshev1.Cutoff(f1).PassbandRipple(rip)); break;
		case 2: zpk = DesignFilter<T>(order, Iir.Bandpass.Butterworth.Band(f1, f2)); break;
		case 3: zpk = DesignFilter<T>(order, Iir.Bandstop.Chebyshev2.Band(f1, f2).StopbandRipple(rip)); break;
		case 4: zpk = DesignFilter<T>(order, Iir.Lowpass.Elliptic.Cutoff(f1).PassbandRipple(rip).StopbandRipple(rip)); break;
		default: zpk = DesignFilter<T>(order - 1, Iir.Lowpass.Butterworth.Cutoff(f2)); // odd order
	}
	const DiscreteTransferFunction<T> tf(zpk);
	const CascadedBiquad<T> sos(zpk);
	std::vector<T> x(n);
	for (auto& v : x) v = rnd<T>(g, -1, 1);
	DirectFormI<T> s1(zpk.order());
	DirectFormII<T> s2(zpk.order());
	CascadedForm<T> s3(zpk.order());
	auto y1 = drive<T, T>(g, x, tf, s1, 3), y2 = drive<T, T>(g, x, tf, s2, 3), y3 = drive<T, T>(g, x, sos, s3, 3);
	real scale = 1;
	for (auto v : y1) scale = std::max(scale, (real)std::fabs(v));
	for (size_t i = 0; i < n; ++i) {
		if (!c.near(y2[i], (real)y1[i], 2e-6L * scale, "forms-agree", (long long)i)) break;
		if (!c.near(y3[i], (real)y1[i], 2e-6L * scale, "forms-agree", (long long)i)) break;
	}
}

#if VH_PART == 1
FAMILY(direct_real, 12000, 500000) { c.rng.chance(0.5) ? direct<float, float, float>(c) : direct<double, double, double>(c); }
#endif
#if VH_PART == 2
FAMILY(direct_mixed, 8000, 300000) {
	switch (c.rng.range(0, 2)) {
		case 0: return direct<cd, cd, double>(c);
		case 1: return direct<cf, cf, float>(c);
		default: return direct<float, double, float>(c);
	}
}
#endif
#if VH_PART == 3
FAMILY(cascade_real, 8000, 300000) { c.rng.chance(0.5) ? cascade<float, float, float>(c) : cascade<double, double, double>(c); }
FAMILY(cascade_mixed, 4000, 150000) { c.rng.chance(0.5) ? cascade<cd, cd, double>(c) : cascade<float, double, double>(c); }
FAMILY(forms_agree, 3000, 100000) { agree<double>(c); }
#endif
