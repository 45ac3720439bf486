// Elementwise mathematical functions against long double evaluations.
#include "vh.hpp"
#include <set>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;

namespace {
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class T, class Lib1, class Lib2, class Oracle> void elementwise(Case& c, const char* name, double lo, double hi, Lib1 lib1, Lib2 lib2, Oracle oracle, double hole = 0, double slack = 1) {
	auto& g = c.rng;
	using R = typename std::decay_t<decltype(lib1(std::declval<Signal<T>>()))>::value_type;
	const size_t n = g.longer(g.len(0, 120), 10000, 0.003), oi = g.size(0, 9), oo = g.size(0, 9);
	const int style = (int)g.range(0, 2); // 0 two operand, 1 value returning, 2 in place
	c.p("f", name).p("t", tname<T>()).p("n", n).p("style", style).p("off", oi * 10 + oo);
	if (n == 0) c.trivial();
	Buf<T> in(n, oi);
	Buf<R> out(n, oo);
	for (auto& v : in) {
		do v = rnd<T>(g, lo, hi);
		while (hole > 0 && std::abs(v) < hole);
		if constexpr (!is_cplx<T>::value) {
			static const std::set<std::string> unbounded{ "Abs", "Log", "Log2", "Log10", "Sqrt", "Cbrt", "Atan", "Asinh", "Real", "Imag", "Arg" };
			if (g.chance(0.1) && unbounded.count(name)) { v = (T)std::ldexp(v, (int)g.range(-50, 50)); continue; }
			static const std::set<std::string> tiny{ "Sin", "Tan", "Asin", "Sinh", "Tanh", "Atanh", "Erf" };
			if (g.chance(0.1) && tiny.count(name)) { v = (T)std::ldexp(v, -(int)g.range(0, 60)); continue; }
		}
		else {
			static const std::set<std::string> unbounded{ "Abs", "Real", "Imag", "Conj", "Arg", "Sqrt" };
			const int reach = std::is_same_v<T, cf> ? 54 : 480; // beyond: cplx_extreme
			if (std::strstr(name, "-extreme")) { const int far = std::is_same_v<T, cf> ? 110 : 950; v *= (real_of_t<T>)std::ldexp(1.0, (int)g.range(-far, far)); continue; }
			if (g.chance(0.1) && unbounded.count(name)) { v *= (real_of_t<T>)std::ldexp(1.0, (int)g.range(-reach, reach)); continue; }
		}
		if (!is_cplx<T>::value && g.chance(0.2)) { if constexpr (!is_cplx<T>::value) v = (T)(lo + (hi - lo) * std::round(g.uni() * 16) / 16); if (std::abs(v) < hole) v = (T)hi; }
	}
	const std::vector<T> keep(in.begin(), in.end());
	std::vector<R> got;
	if (style == 1) {
		Signal<T> s(in.begin(), in.end());
		auto r = lib1(s);
		got.assign(r.begin(), r.end());
		if (n) c.ok(std::memcmp(s.data(), keep.data(), n * sizeof(T)) == 0, "input-changed");
	}
	else if (style == 2 && std::is_same_v<R, T>) {
		if constexpr (std::is_same_v<R, T>) {
			if (g.chance(0.5)) lib2(SignalView<T>(in.begin(), in.end()), SignalView<const T>(in.begin(), in.end()));
			else {
				Signal<T> s(in.begin(), in.end());
				lib2(s, s);
				std::copy(s.begin(), s.end(), in.begin());
			}
		}
		if constexpr (std::is_same_v<R, T>) got.assign(in.begin(), in.end());
	}
	else {
		lib2(SignalView<R>(out.begin(), out.end()), SignalView<const T>(in.begin(), in.end()));
		got.assign(out.begin(), out.end());
		if (n) c.ok(std::memcmp(in.data(), keep.data(), n * sizeof(T)) == 0, "input-changed");
	}
	c.eq(got.size(), n, "size");
	for (size_t i = 0; i < got.size(); ++i) {
		const auto x = wide(keep[i]);
		const auto e = oracle(x);
		const real ep = eps_v<T>;
		// an error of a few rounding steps of the result, plus what a few rounding steps of the argument do to it
		auto sens = [&](auto d) { auto s = oracle(x + d) - e; real m = mag(s); return std::isfinite(m) ? m : 0; };
		real d = mag(x) * ep;
		real tol = 64 * ep * mag(e) + (std::string(name) == "Erfc" ? 4 * ep : (real)std::numeric_limits<real_of_t<T>>::min());
		if constexpr (is_cplx<T>::value) tol += 16 * std::max(sens(cplx(d, 0)), std::max(sens(cplx(0, d)), std::max(sens(cplx(-d, 0)), sens(cplx(0, -d)))));
		else tol += 16 * std::max(sens(d), sens(-d));
		if (!c.near(got[i], e, tol * slack, name, (long long)i)) { c.fails.back().second += " f(" + str(x) + ")"; break; }
	}
	c.ok(in.intact() && out.intact(), "wrote-outside");
}
} // namespace

#define F1(NAME, lo, hi, expr, ...)                                                                                                     \
	elementwise<T>(c, #NAME, lo, hi, [](const auto& s) { return NAME(s); }, [](auto&& o, const auto& i) { NAME(o, i); }, [](auto x) { return expr; }, ##__VA_ARGS__)

template <class T> static void realFn(Case& c) {
	switch (c.rng.range(0, 27)) {
		case 0: return F1(Abs, -50, 50, std::fabs(x));
		case 1: return F1(Log, 0.01, 50, std::log(x));
		case 2: return F1(Log2, 0.01, 50, std::log2(x));
		case 3: return F1(Log10, 0.01, 50, std::log10(x));
		case 4: return c.rng.chance(0.6) ? F1(Exp, -20, 20, std::exp(x)) : F1(Exp, (sizeof(T) == 4 ? -80 : -690), (sizeof(T) == 4 ? 80 : 690), std::exp(x));
		case 5: return F1(Sqrt, 0, 100, std::sqrt(x));
		case 6: return F1(Cbrt, -100, 100, std::cbrt(x));
		case 7: return c.rng.chance(0.6) ? F1(Sin, -30, 30, std::sin(x)) : F1(Sin, -50000, 50000, std::sin(x));
		case 8: return c.rng.chance(0.6) ? F1(Cos, -30, 30, std::cos(x)) : F1(Cos, -50000, 50000, std::cos(x));
		case 9: return c.rng.chance(0.6) ? F1(Tan, -1.4, 1.4, std::tan(x)) : F1(Tan, -300, 300, std::tan(x));
		case 10: return F1(Asin, -0.99, 0.99, std::asin(x));
		case 11: return F1(Acos, -0.99, 0.99, std::acos(x));
		case 12: return F1(Atan, -50, 50, std::atan(x));
		case 13: return c.rng.chance(0.6) ? F1(Sinh, -10, 10, std::sinh(x)) : F1(Sinh, -80, 80, std::sinh(x));
		case 14: return c.rng.chance(0.6) ? F1(Cosh, -10, 10, std::cosh(x)) : F1(Cosh, -80, 80, std::cosh(x));
		case 15: return c.rng.chance(0.6) ? F1(Tanh, -10, 10, std::tanh(x)) : F1(Tanh, -200, 200, std::tanh(x));
		case 16: return F1(Asinh, -50, 50, std::asinh(x));
		case 17: return F1(Acosh, 1.01, 50, std::acosh(x));
		case 18: return F1(Atanh, -0.98, 0.98, std::atanh(x));
		case 19: return F1(Erf, (c.rng.chance(0.5) ? -3 : -0.1), (c.rng.chance(0.5) ? 3 : 30), std::erf(x), 0, 40);
		case 20: return F1(TGamma, 0.1, 10, std::tgamma(x));
		case 21: { // within one range of xsimd's piecewise formula; across ranges see lgamma_mixed
			const int k = (int)c.rng.range(0, 2);
			return F1(LGamma, (k == 0 ? 2.6 : k == 1 ? 6.6 : 14), (k == 0 ? 6.4 : k == 1 ? 12.9 : 30), std::lgamma(x));
		}
		case 22: return F1(Real, -50, 50, x);
		case 23: return F1(Imag, -50, 50, x * 0);
		case 25: return F1(Erfc, -3, 3, std::erfc(x), 0, 40);
		case 24: return F1(Arg, -50, 50, std::atan2((real)0, x), 0.01);
		default: {
			T p = (T)c.rng.pick<double>({ 0.5, 2, 3, -1, 2.5, 1, 0, -0.5, c.rng.uni(-3, 3) });
			if (c.rng.chance(0.3)) p += (T)std::ldexp(c.rng.chance(0.5) ? 1.0 : -1.0, -(int)c.rng.range(2, std::numeric_limits<T>::digits - 4)); // nearly a special exponent
			c.p("power", p);
			return elementwise<T>(c, "Pow", 0.05, 12, [p](const auto& s) { return Pow(s, p); }, [p](auto&& o, const auto& i) { Pow(o, i, p); }, [p](auto x) { return std::pow(x, (real)p); });
		}
	}
}
template <class T> static void cplxFn(Case& c) {
	switch (c.rng.range(0, 19)) {
		case 0: return F1(Abs, -20, 20, std::hypot(x.real(), x.imag()));
		case 1: return F1(Arg, -20, 20, std::arg(x));
		case 2: return F1(Real, -20, 20, x.real());
		case 3: return F1(Imag, -20, 20, x.imag());
		case 4: return F1(Conj, -20, 20, std::conj(x));
		case 5: return F1(Log, -20, 20, std::log(x), 0.1);
		case 6: return F1(Log10, -20, 20, std::log10(x), 0.1);
		case 7: return F1(Exp, -6, 6, std::exp(x));
		case 8: return F1(Sqrt, -20, 20, std::sqrt(x), 0.1);
		case 9: return F1(Sin, -5, 5, std::sin(x));
		case 10: return F1(Cos, -5, 5, std::cos(x));
		case 11: return F1(Tan, -1.2, 1.2, std::tan(x));
		case 12: return F1(Sinh, -5, 5, std::sinh(x));
		case 13: return F1(Cosh, -5, 5, std::cosh(x));
		case 14: return F1(Tanh, -1.2, 1.2, std::tanh(x));
		case 15: return F1(Asin, 0.1, 3, std::asin(x));
		case 16: return F1(Acos, 0.1, 3, std::acos(x));
		case 17: return F1(Atan, 0.1, 0.8, std::atan(x));
		default: {
			auto p = (real_of_t<T>)c.rng.pick<double>({ 0.5, 2, -1, 2.5, 1, 3, c.rng.uni(-3, 3) });
			if (c.rng.chance(0.3)) p += (real_of_t<T>)std::ldexp(c.rng.chance(0.5) ? 1.0 : -1.0, -(int)c.rng.range(2, std::numeric_limits<real_of_t<T>>::digits - 4));
			c.p("power", p);
			return elementwise<T>(c, "Pow", 0.2, 6, [p](const auto& s) { return Pow(s, p); }, [p](auto&& o, const auto& i) { Pow(o, i, p); }, [p](auto x) { return std::pow(x, (real)p); });
		}
	}
}
FAMILY(functions_real, 16000, 800000) { c.rng.chance(0.5) ? realFn<float>(c) : realFn<double>(c); }
FAMILY(functions_cplx, 12000, 600000) { c.rng.chance(0.5) ? cplxFn<cf>(c) : cplxFn<cd>(c); }

// Magnitudes whose squares the type cannot hold.
template <class T> static void extreme(Case& c) {
	if (c.rng.chance(0.5)) elementwise<T>(c, "Abs-extreme", -2, 2, [](const auto& s) { return Abs(s); }, [](auto&& o, const auto& i) { Abs(o, i); }, [](auto x) { return std::hypot(x.real(), x.imag()); });
	else elementwise<T>(c, "Sqrt-extreme", -2, 2, [](const auto& s) { return Sqrt(s); }, [](auto&& o, const auto& i) { Sqrt(o, i); }, [](auto x) { return std::sqrt(x); }, 0.1);
}
FAMILY(cplx_extreme, 400, 8000) { c.rng.chance(0.5) ? extreme<cf>(c) : extreme<cd>(c); }

// Arguments below and above 13 side by side: the vectorised single precision routine switches formula per vector.
FAMILY(lgamma_mixed, 800, 20000) { c.rng.chance(0.5) ? elementwise<float>(c, "LGamma-mixed", 0.1, 30, [](const auto& s) { return LGamma(s); }, [](auto&& o, const auto& i) { LGamma(o, i); }, [](auto x) { return std::lgamma(x); }) : elementwise<double>(c, "LGamma-mixed", 0.1, 30, [](const auto& s) { return LGamma(s); }, [](auto&& o, const auto& i) { LGamma(o, i); }, [](auto x) { return std::lgamma(x); }); }
