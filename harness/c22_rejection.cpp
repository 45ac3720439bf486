// Specifications at, inside and outside the admissible range: refused exactly when they should be, before any output.
#if VH_PART == 3
#define NDEBUG // size mismatches are declared as exceptions; the assertion in front of them only exists in debug builds
#endif
#include "vh.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Math/RootTransforms.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;

#if VH_PART != 3
// One frequency: inside, exactly on a limit, a rounding step beyond, far outside, or not a number.
template <class P> static P frequency(Rng& g, double pBad) {
	const P inf = std::numeric_limits<P>::infinity();
	if (g.chance(pBad)) {
		switch (g.range(0, 7)) {
			case 0: return std::nextafter(P(0), -inf);
			case 1: return std::nextafter(P(1), inf);
			case 2: return -(P)g.uni(1e-6, 1);
			case 3: return (P)g.uni(1.0000005, 2);
			case 4: return std::numeric_limits<P>::quiet_NaN();
			case 5: return g.chance(0.5) ? inf : -inf;
			case 6: return (P)g.uni(2, 48000);
			default: return -(P)g.uni(1, 48000);
		}
	}
	if (g.chance(0.12)) return g.pick<P>({ P(0), P(1), -P(0), std::nextafter(P(1), P(0)), std::nextafter(P(0), P(1)) });
	return (P)g.uni(0.02, 0.98);
}
template <class P> static bool admissible(std::vector<P> f) {
	for (P v : f) if (!(v >= 0 && v <= 1)) return false;
	return std::is_sorted(f.begin(), f.end());
}
template <class P> static std::vector<P> frequencies(Case& c, size_t n) {
	auto& g = c.rng;
	std::vector<P> f(n);
	const double bad = g.pick<double>({ 0, 0, 0.25, 0.6 });
	for (auto& v : f) v = frequency<P>(g, bad);
	if (n > 1 && g.chance(0.6)) std::sort(f.begin(), f.end(), [](P a, P b) { return a < b; });
	if (n > 1 && g.chance(0.15)) { const size_t i = g.size(0, n - 2); f[i + 1] = f[i]; }
	if (n > 1 && g.chance(0.25) && !std::isnan(f[0])) { // one adjacent pair the wrong way round, by as little as one step
		const size_t i = g.size(0, n - 2);
		if (g.chance(0.5)) std::swap(f[i], f[i + 1]);
		else f[i + 1] = std::nextafter(f[i], P(-1));
	}
	for (size_t i = 0; i < n; ++i) c.p("f", f[i]);
	return f;
}
// far enough from the degenerate designs that the result must be finite
template <class P> static bool comfortable(const std::vector<P>& f) {
	for (size_t i = 0; i < f.size(); ++i) {
		if (!(f[i] > P(0.04) && f[i] < P(0.96))) return false;
		if (i && !(f[i] - f[i - 1] > P(0.03))) return false;
	}
	return true;
}

// Runs the specification; the caller's output must be unchanged after a refusal.
template <class Out, class Same, class Go> static void judge(Case& c, bool valid, const char* name, Out& out, Same same, Go go) {
	std::string what;
	bool threw = false;
	try { go(); }
	catch (const std::exception& e) { threw = true; what = e.what(); }
	catch (...) { threw = true; c.fail("exception-type", "refused with something that is not a std::exception"); }
	c.note("threw", threw);
	c.ok(threw == !valid, valid ? "valid-refused" : "invalid-accepted", [&] { return std::string(name) + (threw ? " refused: " + what : " accepted"); });
	if (threw) {
		c.ok(same(), "output-touched", [&] { return std::string(name); });
		c.ok(!what.empty(), "message");
	}
}
#endif

#if VH_PART == 1
// Each of the specifications reached with nothing, or with another setter, in front.
template <class P, class D> static auto viaRipples(int before, const D& d, P rp, P rs, auto set) {
	if constexpr (requires { d.StopbandRipple(rs).PassbandRipple(rp); }) {
		switch (before) {
			case 0: return set(d).PassbandRipple(rp).StopbandRipple(rs);
			case 1: return set(d.PassbandRipple(rp)).StopbandRipple(rs);
			case 2: return set(d.StopbandRipple(rs)).PassbandRipple(rp);
			case 3: return set(d.StopbandRipple(rs).PassbandRipple(rp));
			case 4: return set(d.PassbandRipple(P(0.4)).PassbandRipple(rp)).StopbandRipple(P(0.4)).StopbandRipple(rs);
			default: return set(set(d.PassbandRipple(rp).StopbandRipple(rs)));
		}
	}
	else if constexpr (requires { d.PassbandRipple(rp); }) return before == 0 ? set(d).PassbandRipple(rp) : before < 4 ? set(d.PassbandRipple(rp)) : set(set(d).PassbandRipple(P(0.4))).PassbandRipple(rp);
	else if constexpr (requires { d.StopbandRipple(rs); }) return before == 0 ? set(d).StopbandRipple(rs) : before < 4 ? set(d.StopbandRipple(rs)) : set(set(d).StopbandRipple(P(0.4))).StopbandRipple(rs);
	else return before < 3 ? set(d) : set(set(d));
}
template <class T> static bool sameSystem(const DiscreteZeroPoleGain<T>& a, const DiscreteZeroPoleGain<T>& b) {
	auto eq = [](const auto& x, const auto& y) { return std::equal(x.begin(), x.end(), y.begin(), y.end()); };
	return a.gain == b.gain && eq(a.zeros.real_roots(), b.zeros.real_roots()) && eq(a.zeros.complex_pairs(), b.zeros.complex_pairs()) && eq(a.poles.real_roots(), b.poles.real_roots()) && eq(a.poles.complex_pairs(), b.poles.complex_pairs());
}
template <class T> static bool finiteSystem(const DiscreteZeroPoleGain<T>& s) {
	bool f = std::isfinite(s.gain);
	for (auto r : s.poles.real_roots()) f = f && std::isfinite(r);
	for (auto r : s.poles.complex_pairs()) f = f && std::isfinite(r.real()) && std::isfinite(r.imag());
	for (auto r : s.zeros.real_roots()) f = f && std::isfinite(r);
	for (auto r : s.zeros.complex_pairs()) f = f && std::isfinite(r.real()) && std::isfinite(r.imag());
	return f;
}

template <class P, class D> static void iirOne(Case& c, const char* name, const D& d, bool band) {
	auto& g = c.rng;
	c.p("design", name).p("param", tname<P>());
	const auto f = frequencies<P>(c, band ? 2 : 1);
	const P rp = (P)g.uni(0.02, 0.3), rs = (P)g.uni(0.02, 0.3);
	const int before = (int)g.range(0, 5);
	const size_t order = band ? 2 * g.size(1, 4) : g.size(1, 8);
	c.p("before", before).p("order", order);
	auto set = [&](const auto& x) {
		if constexpr (requires { x.Band(P(0.1), P(0.2)); }) return x.Band(f[0], f[1]);
		else return x.Cutoff(f[0]);
	};
	const bool valid = admissible(f);
	DiscreteZeroPoleGain<double> out{ 7.5, {}, {} };
	judge(c, valid, name, out, [&] { return out.gain == 7.5 && out.zeros.num_roots() == 0; }, [&] {
		const auto desc = viaRipples<P>(before, d, rp, rs, set);
		if (comfortable(f)) out = DesignFilter<double>(order, desc);
	});
	if (valid && comfortable(f)) {
		c.ok(finiteSystem(out), "finite");
		// setters are independent of each other: any order of the same settings is the same specification
		const auto again = DesignFilter<double>(order, viaRipples<P>((before + 1 + (int)g.range(0, 4)) % 6, d, rp, rs, set));
		c.ok(sameSystem(out, again), "setter-order");
	}
}
template <class P> static void iir(Case& c) {
	switch (c.rng.range(0, 15)) {
		case 0: return iirOne<P>(c, "lowpass butterworth", Iir.Lowpass.Butterworth, false);
		case 1: return iirOne<P>(c, "highpass butterworth", Iir.Highpass.Butterworth, false);
		case 2: return iirOne<P>(c, "bandpass butterworth", Iir.Bandpass.Butterworth, true);
		case 3: return iirOne<P>(c, "bandstop butterworth", Iir.Bandstop.Butterworth, true);
		case 4: return iirOne<P>(c, "lowpass chebyshev1", Iir.Lowpass.Chebyshev1, false);
		case 5: return iirOne<P>(c, "highpass chebyshev1", Iir.Highpass.Chebyshev1, false);
		case 6: return iirOne<P>(c, "bandpass chebyshev1", Iir.Bandpass.Chebyshev1, true);
		case 7: return iirOne<P>(c, "bandstop chebyshev1", Iir.Bandstop.Chebyshev1, true);
		case 8: return iirOne<P>(c, "lowpass chebyshev2", Iir.Lowpass.Chebyshev2, false);
		case 9: return iirOne<P>(c, "highpass chebyshev2", Iir.Highpass.Chebyshev2, false);
		case 10: return iirOne<P>(c, "bandpass chebyshev2", Iir.Bandpass.Chebyshev2, true);
		case 11: return iirOne<P>(c, "bandstop chebyshev2", Iir.Bandstop.Chebyshev2, true);
		case 12: return iirOne<P>(c, "lowpass elliptic", Iir.Lowpass.Elliptic, false);
		case 13: return iirOne<P>(c, "highpass elliptic", Iir.Highpass.Elliptic, false);
		case 14: return iirOne<P>(c, "bandpass elliptic", Iir.Bandpass.Elliptic, true);
		default: return iirOne<P>(c, "bandstop elliptic", Iir.Bandstop.Elliptic, true);
	}
}
FAMILY(iir_float, 25000, 60000) { iir<float>(c); }
FAMILY(iir_double, 25000, 60000) { iir<double>(c); }

// Transforms whose images of a real root do not pair up are refused.
FAMILY(root_pairing, 12500, 40000) {
	auto& g = c.rng;
	using C = std::complex<double>;
	const size_t nr = g.size(0, 4), nc = g.size(0, 3), extra = g.size(0, 3);
	FactoredPolynomial<double> poly;
	poly.resize(nr, nc);
	for (auto& r : poly.real_roots()) r = g.uni(-3, 3);
	for (auto& r : poly.complex_pairs()) r = C(g.uni(-3, 3), g.uni(0.1, 3));
	const int image = (int)g.range(0, 3), pad = (int)g.range(0, 3);
	// 0: two reals, 1: a pair, 2: two different non-real values, 3: one real and one non-real
	auto two = [](int kind, double v) -> std::array<C, 2> {
		switch (kind) {
			case 0: return { C(v - 1), C(2 * v + 1) };
			case 1: return { C(v, 1.5), C(v, -1.5) };
			case 2: return { C(v, 1.5), C(v, -1.25) };
			default: return { C(v, 1.5), C(v) };
		}
	};
	const auto func = [&](const auto& r) -> std::array<C, 2> {
		if constexpr (std::is_same_v<std::decay_t<decltype(r)>, double>) return two(image, r);
		else return { C(r.real() + 1, r.imag()), C(r.real() - 1, 2 * r.imag()) };
	};
	const size_t n = nr + 2 * nc + extra;
	c.p("reals", nr).p("pairs", nc).p("pad", extra).p("image", image).p("padkind", pad);
	const bool valid = (nr == 0 || image < 2) && pad < 2;
	FactoredPolynomial<double> out;
	out.resize(1, 0);
	out.real_roots()[0] = 42;
	judge(c, valid, "TransformRoots", out, [&] { return out.num_roots() == 1 && out.real_roots()[0] == 42; }, [&] { out = TransformRoots(poly, func, n, two(pad, 0.25)); });
	if (valid && n) {
		// the images of every root, and one set of padding roots for every missing root
		std::vector<C> want, got;
		auto push = [](std::vector<C>& v, C r) { v.push_back(r); };
		for (double r : poly.real_roots()) for (C t : func(r)) push(want, t);
		for (C r : poly.complex_pairs()) for (C t : func(r)) { push(want, t); push(want, std::conj(t)); }
		for (size_t i = 0; i < extra; ++i) for (C t : two(pad, 0.25)) push(want, t);
		for (double r : out.real_roots()) push(got, r);
		for (C r : out.complex_pairs()) { push(got, r); push(got, std::conj(r)); }
		auto less = [](C a, C b) { return std::make_pair(a.real(), a.imag()) < std::make_pair(b.real(), b.imag()); };
		std::sort(want.begin(), want.end(), less);
		std::sort(got.begin(), got.end(), less);
		c.ok(got == want, "transformed-roots", [&] { return "got " + std::to_string(got.size()) + " roots, expected " + std::to_string(want.size()); });
	}
}
#endif

#if VH_PART == 2
template <class T> struct Taps {
	Buf<T> buf;
	SignalView<T> view;
	std::vector<T> before;
	Taps(size_t n, Rng& g) : buf(n, g.size(0, 3)), view(buf.data(), buf.data() + n) {
		for (auto& v : buf) v = (T)g.uni(-1, 1);
		before.assign(buf.begin(), buf.end());
	}
	bool same() { return std::equal(before.begin(), before.end(), buf.begin()) && buf.intact(); }
	bool isFinite() { for (T v : buf) if (!std::isfinite(v)) return false; return true; }
};

// set/with* build the same specification by different orders of setters
template <class T, class P, class Set, class Other> static void firOne(Case& c, const char* name, const std::vector<P>& f, const auto& base, Set set, Other other) {
	auto& g = c.rng;
	const size_t n = 2 * g.size(1, 12) + 1;
	const int before = (int)g.range(0, 2);
	c.p("before", before).p("taps", n).p("type", tname<T>());
	Taps<T> out(n, g), out2(n, g);
	const bool valid = admissible(f);
	auto go = [&](Taps<T>& o, int how) {
		switch (how) {
			case 0: { const auto d = set(base); if (comfortable(f) || !valid) DesignFilter(o.view, other(d)); break; }
			case 1: { const auto d = set(other(base)); if (comfortable(f) || !valid) DesignFilter(o.view, d); break; }
			default: { const auto d = set(other(set(base))); if (comfortable(f) || !valid) DesignFilter(o.view, d); break; }
		}
	};
	judge(c, valid, name, out, [&] { return out.same(); }, [&] { go(out, before); });
	c.ok(out.buf.intact(), "stray-write");
	if (valid && comfortable(f)) {
		c.ok(out.isFinite(), "finite");
		go(out2, (before + 1) % 3);
		c.ok(std::equal(out.buf.begin(), out.buf.end(), out2.buf.begin()), "setter-order");
	}
}
template <class T, class P> static void windowed(Case& c) {
	auto& g = c.rng;
	const int k = (int)g.range(0, 3);
	const char* name[] = { "lowpass windowed", "highpass windowed", "bandpass windowed", "bandstop windowed" };
	c.p("design", name[k]).p("param", tname<P>());
	const auto f = frequencies<P>(c, k < 2 ? 1 : 2);
	auto cut = [&](const auto& d) { return d.Cutoff(f[0]); };
	auto band = [&](const auto& d) { return d.Band(f[0], f[1]); };
	auto win = [&](const auto& d) { return d.Window(windows::blackman); };
	if (k == 0) firOne<T, P>(c, name[k], f, Fir.Lowpass.Windowed, cut, win);
	if (k == 1) firOne<T, P>(c, name[k], f, Fir.Highpass.Windowed, cut, win);
	if (k == 2) firOne<T, P>(c, name[k], f, Fir.Bandpass.Windowed, band, win);
	if (k == 3) firOne<T, P>(c, name[k], f, Fir.Bandstop.Windowed, band, win);
}
FAMILY(windowed_float, 12500, 30000) { windowed<float, float>(c); }
FAMILY(windowed_double, 12500, 30000) { windowed<double, double>(c); }

template <class T, class P> static void leastSquares(Case& c) {
	auto& g = c.rng;
	const int k = (int)g.range(0, 4);
	const char* name[] = { "lowpass least squares", "highpass least squares", "bandpass least squares", "bandstop least squares", "hilbert least squares" };
	c.p("design", name[k]).p("param", tname<P>());
	if (k == 4) {
		// the half-band transition [0.5-w, 0.5+w] has to lie between 0 and 1
		P w = g.chance(0.5) ? (P)g.uni(0.05, 0.45) : g.chance(0.5) ? (P)g.uni(0.51, 4) : g.pick<P>({ P(0.5), std::nextafter(P(0.5), P(1)) * P(1.001), P(1), P(-0.01), -(P)g.uni(0.02, 3), std::numeric_limits<P>::quiet_NaN(), std::numeric_limits<P>::infinity() });
		const size_t n = g.size(3, 24);
		c.p("width", w).p("taps", n).p("type", tname<T>());
		const bool valid = w >= 0 && w <= P(0.5);
		BasicSignal<T, TIME_DOMAIN> out(n, T(3)), ref(n, T(3));
		const bool weightFirst = g.chance(0.5);
		judge(c, valid, name[k], out, [&] { return std::equal(out.begin(), out.end(), ref.begin()); }, [&] {
			if (weightFirst) DesignFilter(out, Fir.Hilbert.LeastSquares.TransitionWeight(P(0.125)).TransitionWidth(w).Grid(80));
			else DesignFilter(out, Fir.Hilbert.LeastSquares.TransitionWidth(w).Grid(80).TransitionWeight(P(0.125)));
		});
		if (valid && w < P(0.46)) {
			for (T v : out) c.ok(std::isfinite(v), "finite");
			BasicSignal<T, TIME_DOMAIN> other(n, T(1));
			DesignFilter(other, Fir.Hilbert.LeastSquares.TransitionWeight(P(7)).Grid(5).TransitionWeight(P(0.125)).TransitionWidth(w).Grid(80));
			c.ok(std::equal(out.begin(), out.end(), other.begin()), "setter-order");
		}
		return;
	}
	const auto f = frequencies<P>(c, k < 2 ? 2 : 4);
	const size_t grid = g.size(60, 90);
	auto cut = [&](const auto& d) { return d.Cutoff(f[0], f[1]); };
	auto band = [&](const auto& d) { return d.Band(f[0], f[1], f[2], f[3]); };
	auto w3 = [&](const auto& d) { return d.Weight(P(1.5), P(0.25), P(2)).Grid(grid); };
	auto w5 = [&](const auto& d) { return d.Weight(P(1.5), P(0.25), P(2), P(0.5), P(3)).Grid(grid); };
	if (k == 0) firOne<T, P>(c, name[k], f, Fir.Lowpass.LeastSquares, cut, w3);
	if (k == 1) firOne<T, P>(c, name[k], f, Fir.Highpass.LeastSquares, cut, w3);
	if (k == 2) firOne<T, P>(c, name[k], f, Fir.Bandpass.LeastSquares, band, w5);
	if (k == 3) firOne<T, P>(c, name[k], f, Fir.Bandstop.LeastSquares, band, w5);
}
FAMILY(least_squares_float, 15000, 30000) { leastSquares<float, float>(c); }
FAMILY(least_squares_double, 15000, 30000) { leastSquares<double, double>(c); }
#endif

#if VH_PART == 3
// Operands of different sizes are refused by every operation and form, and leave everything as it was.
template <class T> static void sizes(Case& c) {
	auto& g = c.rng;
	size_t n[3];
	n[0] = g.len(0, 40);
	for (int i = 1; i < 3; ++i) n[i] = g.chance(0.5) ? n[0] : g.chance(0.5) ? n[0] + g.size(1, 3) : g.len(0, 40);
	const int op = (int)g.range(0, 3), form = (int)g.range(0, 4);
	c.p("r", n[0]).p("a", n[1]).p("b", n[2]).p("op", op).p("form", form).p("type", tname<T>());
	Buf<T> r(n[0]), a(n[1]), b(n[2]);
	for (auto& v : r) v = rnd<T>(g, 1, 2);
	for (auto& v : a) v = rnd<T>(g, 1, 2);
	for (auto& v : b) v = rnd<T>(g, 1, 2);
	const std::vector<T> r0(r.begin(), r.end()), a0(a.begin(), a.end()), b0(b.begin(), b.end());
	SignalView<T> rv(r.data(), r.data() + n[0]);
	SignalView<const T> av(a.data(), a.data() + n[1]), bv(b.data(), b.data() + n[2]);
	const BasicSignal<T, TIME_DOMAIN> as(a.begin(), a.end());
	const T s = T(2);
	size_t made = size_t(-1);
	bool threw = false;
	auto f3 = [&](auto&& x, const auto& y, const auto& z) { op == 0 ? Add(x, y, z) : op == 1 ? Subtract(x, y, z) : op == 2 ? Multiply(x, y, z) : Divide(x, y, z); };
	try {
		switch (form) {
			case 0: f3(rv, av, bv); break;
			case 1: f3(rv, av, s); break;
			case 2: f3(rv, s, bv); break;
			case 3: op == 0 ? rv += av : op == 1 ? rv -= av : op == 2 ? rv *= av : rv /= av; break;
			default: made = op == 0 ? (as + bv).size() : op == 1 ? (as - bv).size() : op == 2 ? (as * bv).size() : (as / bv).size(); break;
		}
	}
	catch (const std::exception&) { threw = true; }
	const bool valid = form == 0 ? n[0] == n[1] && n[0] == n[2] : form == 1 || form == 3 ? n[0] == n[1] : form == 2 ? n[0] == n[2] : n[1] == n[2];
	c.ok(threw == !valid, valid ? "equal-sizes-refused" : "mismatch-accepted");
	if (threw || form == 4) c.ok(std::equal(r0.begin(), r0.end(), r.begin()), "output-touched");
	if (!threw && form == 4) c.eq(made, n[1], "result-size");
	c.ok(std::equal(a0.begin(), a0.end(), a.begin()) && std::equal(b0.begin(), b0.end(), b.begin()), "input-touched");
	c.ok(r.intact() && a.intact() && b.intact(), "stray-write");
	if (!threw && valid && form == 0)
		for (size_t i = 0; i < n[0]; ++i) c.near(r[i], op == 0 ? wide(a0[i]) + wide(b0[i]) : op == 1 ? wide(a0[i]) - wide(b0[i]) : op == 2 ? wide(a0[i]) * wide(b0[i]) : wide(a0[i]) / wide(b0[i]), 64 * eps_v<T> , "value");
}
FAMILY(sizes_float, 12500, 30000) { sizes<float>(c); }
FAMILY(sizes_double, 7500, 30000) { sizes<double>(c); }
FAMILY(sizes_complex, 7500, 30000) { sizes<std::complex<float>>(c); }
#endif
