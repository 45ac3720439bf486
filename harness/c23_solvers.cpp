// Bracketed and Newton root finding against known roots and sign changes; intervals against the point sets they denote.
#include "vh.hpp"
#include <set>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;
using namespace vh;

static std::string vals(std::initializer_list<real> l) { std::string s; for (real v : l) s += str(v) + " "; return s; }

// A continuous function with known real roots, all simple crossings; values of any magnitude.
template <class T> struct Fn {
	int kind;
	std::vector<T> roots;
	T sign, scale, unit = 1; // unit: a power of two on every value
	mutable u64 calls = 0;
	mutable T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
	T operator()(T x) const {
		++calls;
		lo = std::min(lo, x);
		hi = std::max(hi, x);
		T v = sign * unit;
		if (kind == 0) { for (T r : roots) v *= (x - r) * scale; return v; }
		const T d = (x - roots[0]) * scale;
		switch (kind) {
			case 1: return v * std::atan(d);
			case 2: return v * std::expm1(d);
			case 3: return v * std::cbrt(d);
			case 4: return v * (d < 0 ? d / 64 : d * 64); // continuous with a kink
			case 5: return v * (d + d * d * d);
			default: return d == 0 ? T(0) : d < 0 ? -v : v; // a step: only signs to go by
		}
	}
};

template <class T> static void bisect(Case& c) {
	auto& g = c.rng;
	Fn<T> f;
	f.kind = (int)g.range(0, 6);
	f.sign = g.chance(0.5) ? 1 : -1;
	f.scale = (T)std::ldexp(1.0, (int)g.range(-2, 2));
	T a = (T)g.uni(-8, 8), b = (T)g.uni(-8, 8);
	if (g.chance(0.3)) { a = (T)g.range(-4, 4); b = (T)g.range(-4, 4); }
	if (std::fabs(a - b) < T(0.01)) b = a + 1;
	const T lo = std::min(a, b), hi = std::max(a, b);
	const size_t nr = f.kind == 0 ? (g.chance(0.4) ? 3 : g.chance(0.1) ? 5 : 1) : 1;
	for (size_t i = 0; i < nr; ++i) {
		T r;
		do {
			r = g.chance(0.15) ? lo + (hi - lo) * T(0.5) : g.chance(0.1) ? lo : g.chance(0.1) ? hi : g.chance(0.2) ? lo + (hi - lo) * (T)std::ldexp((double)g.range(1, 15), -4) : lo + (hi - lo) * (T)g.uni(0, 1);
			r = std::min(std::max(r, lo), hi);
		} while (r == T(0) && g.chance(0.8)); // a root at zero takes as many steps as the type has exponents
		if ((r == lo || r == hi) && nr > 1) { --i; continue; }
		bool tooClose = false;
		for (T o : f.roots) tooClose = tooClose || std::fabs(o - r) < T(0.002) * (hi - lo);
		if (tooClose) { --i; continue; }
		f.roots.push_back(r);
	}
	const int reach = nr > 1 ? 30 : sizeof(T) == 4 ? 80 : 900; // the function itself must not vanish around its roots
	if (g.chance(0.3)) f.unit = (T)std::ldexp(1.0, (int)g.range(-reach, reach));
	T nearest = std::fabs(f.roots[0]);
	for (T r : f.roots) nearest = std::min(nearest, std::fabs(r));
	const bool withTol = g.chance(0.4);
	const T tol = withTol ? (T)((hi - lo) * std::ldexp(1.0, -(int)g.range(1, std::numeric_limits<T>::digits - 6))) : T(0);
	c.p("type", tname<T>()).p("kind", f.kind).p("a", a).p("b", b).p("r0", f.roots[0]).p("roots", nr).p("sign", f.sign).p("tol", tol).p("form", withTol).p("unit", f.unit);
	const T x = withTol ? Bisect(std::cref(f), a, b, tol) : Bisect(std::cref(f), a, b);
	c.note("x", x).note("calls", f.calls);
	c.ok(lo <= x && x <= hi, "outside-bracket", [&] { return vals({ x, lo, hi }); });
	c.ok(lo <= f.lo && f.hi <= hi, "evaluated-outside-bracket", [&] { return vals({ f.lo, f.hi, lo, hi }); });
	c.ok(f.calls < 2 * u64(std::numeric_limits<T>::digits + 30 + (nearest < T(0.004) ? (nearest == 0 ? -std::numeric_limits<T>::min_exponent : -std::ilogb(nearest)) : 0)), "too-many-steps", [&] { return std::to_string(f.calls); });
	real best = 1e9L;
	for (T r : f.roots) best = std::min(best, std::fabs((real)x - (real)r));
	const real ulp = (real)std::max(std::fabs(lo), std::fabs(hi)) * eps_v<T>;
	// the last bracket is no wider than the tolerance and still contains a root; the middle of it is returned
	c.ok(best <= tol / 2 + ulp * 1.01L, "not-a-root", [&] { return "nearest root at distance " + str(best) + " from " + str((real)x) + ", tolerance " + str((real)tol) + ", ulp " + str(ulp); });
	if (!withTol) { // to the reachable precision: the computed function crosses zero between the neighbours
		const T inf = std::numeric_limits<T>::infinity();
		const T v[3] = { f(std::nextafter(x, -inf)), f(x), f(std::nextafter(x, inf)) };
		bool pos = false, neg = false, zero = false;
		for (T q : v) { pos = pos || q > 0; neg = neg || q < 0; zero = zero || q == 0; }
		c.ok(zero || (pos && neg), "no-crossing-at-result", [&] { return vals({ v[0], v[1], v[2] }); });
	}
}
FAMILY(bisect_double, 15000, 60000) { bisect<double>(c); }
FAMILY(bisect_float, 15000, 60000) { bisect<float>(c); }

template <class T> static void newton(Case& c) {
	auto& g = c.rng;
	const int kind = (int)g.range(0, 3);
	const T v = (T)std::exp(g.uni(-3, 3));
	const real root = kind == 0 ? std::sqrt((real)v) : kind == 1 ? std::log((real)v) : kind == 2 ? std::cbrt((real)v) : (real)v;
	// start where the iteration is monotone: right of the root of a convex increasing function, or left of it by little
	const T x0 = (T)(root + g.uni(0.0, 2.0) * (kind == 1 ? 1 : std::max((real)0.1L, root)));
	const T slope = (T)g.uni(0.5, 4);
	auto f = [&](T x) -> T { return kind == 0 ? x * x - v : kind == 1 ? std::exp(x) - v : kind == 2 ? x * x * x - v : slope * (x - v); };
	auto d = [&](T x) -> T { return kind == 0 ? 2 * x : kind == 1 ? std::exp(x) : kind == 2 ? 3 * x * x : slope; };
	const bool withTol = g.chance(0.4);
	const T tol = withTol ? (T)std::ldexp(1.0, -(int)g.range(4, std::numeric_limits<T>::digits - 8)) * T(0.25) : T(0);
	c.p("type", tname<T>()).p("kind", kind).p("v", v).p("x0", x0).p("tol", tol);
	const T x = withTol ? NewtonRaphson(f, d, x0, tol) : NewtonRaphson(f, d, x0);
	// value of f near the root is a difference of terms of size v (or slope*v)
	const real fv = kind == 3 ? std::fabs((real)slope * (real)v) : (real)v;
	const real reach = eps_v<T> * (4 * fv / std::fabs((real)d((T)root)) + 2 * std::fabs(root) + (real)std::numeric_limits<T>::min());
	c.near(x, root, reach + tol, "newton");
}
FAMILY(newton_double, 7500, 30000) { newton<double>(c); }
FAMILY(newton_float, 7500, 30000) { newton<float>(c); }

// Points are half-integers and integers in a small window; an interval denotes first <= p < last.
template <class T> static bool has(const Interval<T>& i, int halves) {
	if constexpr (std::is_integral_v<T>) return i.first <= (T)(halves) && (T)(halves) < i.last;
	else return i.first <= T(halves) / T(2) && T(halves) / T(2) < i.last;
}
template <class T> static T mk(int v) { if constexpr (std::is_integral_v<T>) return (T)v; else return T(v) / T(2); }
template <class T> static auto show(const T& v) { if constexpr (std::is_arithmetic_v<T>) return (real)v; else return (real)v.Numerator() / (real)v.Denominator(); }

template <class T, class Mk> static void interval(Case& c, int lo, int hi, Mk&& mkc) {
	auto& g = c.rng;
	int e[4];
	for (int& v : e) v = (int)g.range(lo, hi);
	// mostly proper intervals; sometimes empty, nested, touching or equal ones
	if (g.chance(0.9) && e[0] > e[1]) std::swap(e[0], e[1]);
	if (g.chance(0.9) && e[2] > e[3]) std::swap(e[2], e[3]);
	if (g.chance(0.12)) e[2] = e[1];
	if (g.chance(0.08)) { e[2] = e[0]; e[3] = e[1]; }
	if (g.chance(0.06)) e[3] = e[0];
	if (g.chance(0.05)) e[1] = e[0];
	const Interval<T> a{ mkc(e[0]), mkc(e[1]) }, b{ mkc(e[2]), mkc(e[3]) };
	c.p("a0", e[0]).p("a1", e[1]).p("b0", e[2]).p("b1", e[3]);
	bool common = false;
	std::set<int> meet, join;
	for (int p = lo - 2; p <= hi + 2; ++p) {
		const bool ina = has(a, p), inb = has(b, p);
		common = common || (ina && inb);
		if (ina && inb) meet.insert(p);
		if (ina || inb) join.insert(p);
	}
	for (int swap = 0; swap < 2; ++swap) {
		const Interval<T>&x = swap ? b : a, &y = swap ? a : b;
		c.eq(IsDisjoint(x, y), !common, "disjoint");
		const Interval<T> m = Intersection(x, y);
		std::set<int> got;
		for (int p = lo - 2; p <= hi + 2; ++p) if (has(m, p)) got.insert(p);
		c.ok(got == meet, "intersection", [&] { return vals({ show(m.first), show(m.last) }); });
		if (!common) c.ok(m.first == m.last, "empty-intersection", [&] { return vals({ show(m.first), show(m.last) }); });
		const auto u = Union(x, y);
		c.eq(u.has_value(), common, "union-exists");
		const bool proper = e[0] <= e[1] && e[2] <= e[3];
		if (u) {
			std::set<int> gu;
			for (int p = lo - 2; p <= hi + 2; ++p) if (has(*u, p)) gu.insert(p);
			c.ok(gu == join, "union", [&] { return vals({ show(u->first), show(u->last) }); });
		}
		if (proper) { // the hull: contains both, and its ends are ends of the operands
			const Interval<T> h = EncompassingUnion(x, y);
			c.ok(h.first == mkc(std::min(e[0], e[2])) && h.last == mkc(std::max(e[1], e[3])), "hull", [&] { return vals({ show(h.first), show(h.last) }); });
			bool covers = true;
			for (int p : join) covers = covers && has(h, p);
			c.ok(covers, "hull-covers");
		}
		c.eq(x == y, e[0] == e[2] && e[1] == e[3], "equal");
		c.eq(x != y, !(e[0] == e[2] && e[1] == e[3]), "unequal");
	}
	// each end alone decides equality
	c.ok(a == Interval<T>{ a.first, a.last } && !(a != Interval<T>{ a.first, a.last }), "self-equal");
	c.ok(a != Interval<T>{ a.first, mkc(e[1] + 1) } && a != Interval<T>{ mkc(e[0] + 1), a.last }, "one-end-differs");
	if (e[1] >= e[0]) c.ok(a.size() == T(a.last - a.first) && a.first + a.size() == a.last, "size");
	const int sh = (int)g.range(0, 9);
	const T d = mkc(sh);
	c.p("shift", sh);
	const Interval<T> s = a + d;
	c.ok(s.first == mkc(e[0] + sh) && s.last == mkc(e[1] + sh), "shift-up", [&] { return vals({ show(s.first), show(s.last) }); });
	const Interval<T> back = s - d;
	c.ok(back == a, "shift-down", [&] { return vals({ show(back.first), show(back.last) }); });
	Interval<T> q = a;
	Interval<T>& ref = (q += d);
	c.ok(&ref == &q && q == s, "shift-up-in-place");
	Interval<T>& ref2 = (q -= d);
	c.ok(&ref2 == &q && q == a, "shift-down-in-place");
}
FAMILY(interval_int, 20000, 60000) { interval<int>(c, -9, 9, mk<int>); }
FAMILY(interval_unsigned, 15000, 40000) { interval<size_t>(c, 2, 16, mk<size_t>); }
FAMILY(interval_double, 15000, 40000) { interval<double>(c, -9, 9, mk<double>); }
FAMILY(interval_float, 10000, 40000) { interval<float>(c, -9, 9, mk<float>); }
FAMILY(interval_rational, 10000, 40000) { interval<Rational<int64_t>>(c, -9, 9, [](int v) { return Rational<int64_t>(v, 2); }); }
