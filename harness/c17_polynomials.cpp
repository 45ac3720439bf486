// Polynomials and factored polynomials against an explicit model, under arbitrary histories of edits.
#include "vh.hpp"
#include <algorithm>
#include <list>
#include <dspbb/Math/Polynomials.hpp>
using namespace dspbb;
using namespace vh;

template <class T> struct Model { // the roots an object should hold
	std::vector<T> real;
	std::vector<std::complex<T>> pairs;
	size_t roots() const { return real.size() + 2 * pairs.size(); }
};
template <class T> static T value(Rng& g, bool exact, int range) { return exact ? (T)g.range(-range, range) : (T)g.uni(-range, range); }
template <class T> static std::complex<T> upper(Rng& g, bool exact, int range) {
	const T a = value<T>(g, exact, range);
	T b = exact ? (T)g.range(1, range) : (T)g.uni(0.01, range);
	if (!exact && g.chance(0.15)) b = std::ldexp(b, -(int)g.range(1, 55)); // ever so close to the real axis
	return { a, b };
}
template <class T> static Model<T> randomModel(Rng& g, size_t maxReal, size_t maxPairs, bool exact, int range) {
	Model<T> m;
	m.real.resize(g.size(0, maxReal));
	m.pairs.resize(g.size(0, maxPairs));
	for (auto& v : m.real) v = value<T>(g, exact, range);
	for (auto& v : m.pairs) v = upper<T>(g, exact, range);
	if (m.real.size() > 1 && g.chance(0.2)) m.real[1] = m.real[0]; // repeated roots
	if (m.pairs.size() > 1 && g.chance(0.2)) m.pairs[1] = m.pairs[0];
	return m;
}
template <class T> static std::vector<std::complex<T>> listed(Rng& g, const Model<T>& m) {
	std::vector<std::complex<T>> v;
	for (auto& r : m.real) v.emplace_back(r, T(0));
	for (auto& p : m.pairs) { v.push_back(p); v.push_back(std::conj(p)); }
	for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.size(0, i - 1)]);
	return v;
}
template <class V> static V sorted(V v) {
	std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) {
		const std::complex<double> x(a), y(b);
		return x.real() != y.real() ? x.real() < y.real() : x.imag() < y.imag();
	});
	return v;
}
template <class T> static bool holds(const FactoredPolynomial<T>& f, const Model<T>& m, bool ordered) {
	if (f.num_real_roots() != m.real.size() || f.num_complex_pairs() != m.pairs.size()) return false;
	if (f.num_complex_roots() != 2 * m.pairs.size() || f.num_roots() != m.roots() || f.order() != m.roots()) return false;
	if (f.real_roots().size() != m.real.size() || f.complex_pairs().size() != m.pairs.size()) return false;
	std::vector<T> r(f.real_roots().begin(), f.real_roots().end());
	std::vector<std::complex<T>> p(f.complex_pairs().begin(), f.complex_pairs().end());
	for (auto& v : p) if (v.imag() < 0) v = std::conj(v); // a pair is denoted by either member
	if (ordered) return r == m.real && p == m.pairs;
	return sorted(r) == sorted(m.real) && sorted(p) == sorted(m.pairs);
}
template <class T> static std::string show(const FactoredPolynomial<T>& f) {
	std::ostringstream o;
	o << "real:";
	for (auto& v : f.real_roots()) o << ' ' << v;
	o << " pairs:";
	for (auto& v : f.complex_pairs()) o << ' ' << v;
	return o.str();
}

template <class W, class T> static W product(const Model<T>& m, const W& x, real& scale) {
	W v(1);
	scale = 1;
	for (auto& r : m.real) { v *= x - (real)r; scale *= mag(x) + std::fabs((real)r); }
	for (auto& p : m.pairs) {
		const real a = p.real(), b = p.imag();
		v *= (x - a) * (x - a) + b * b;
		scale *= mag(x) * mag(x) + 2 * std::fabs(a) * mag(x) + a * a + b * b;
	}
	return v;
}

template <class T> static void evaluation(Case& c) {
	auto& g = c.rng;
	const bool exact = g.chance(0.5);
	const int range = exact ? 3 : 2;
	const size_t cap = sizeof(T) == 4 && exact ? 2 : exact ? 6 : 10; // exact cases: every intermediate is an integer the type holds
	auto m = randomModel<T>(g, cap, exact && sizeof(T) == 4 ? 1 : cap / 2, exact, range);
	// a power of two on roots and points scales every term of the polynomial alike
	const int reach = (sizeof(T) == 4 ? 60 : 500) / (int)std::max<size_t>(2, m.roots());
	const T unit = g.chance(0.4) ? (T)std::ldexp(1.0, (int)g.range(-reach, reach)) : T(1);
	for (auto& r : m.real) r *= unit;
	for (auto& p : m.pairs) p *= unit;
	c.p("type", tname<T>()).p("exact", exact).p("real", m.real.size()).p("pairs", m.pairs.size()).p("r0", m.real.empty() ? T(0) : m.real[0]).p("unit", unit);
	const auto list = listed(g, m);
	FactoredPolynomial<T> f = g.chance(0.5) ? FactoredPolynomial<T>(list.begin(), list.end()) : [&] { std::list<std::complex<T>> l(list.begin(), list.end()); return FactoredPolynomial<T>(l.begin(), l.end()); }();
	c.ok(holds(f, m, false), "constructed-roots", [&] { return show(f); });
	const auto poly = ExpandPolynomial(f);
	c.eq(poly.size(), m.roots() + 1, "expanded-size");
	c.eq(poly.order(), m.roots(), "expanded-order");
	c.ok(holds(f, m, false), "expansion-changed-roots");
	const real E = exact ? 0 : eps_v<T>, K = 8 + 6 * (real)m.roots();
	// coefficients of the expansion, and of the expansion of magnitudes (their rounding scale)
	std::vector<real> co{ 1 }, sc{ 1 };
	auto mul = [](std::vector<real>& p, std::vector<real> q) {
		std::vector<real> r(p.size() + q.size() - 1, 0);
		for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < q.size(); ++j) r[i + j] += p[i] * q[j];
		p = r;
	};
	for (auto& r : m.real) { mul(co, { -(real)r, 1 }); mul(sc, { std::fabs((real)r), 1 }); }
	for (auto& p : m.pairs) {
		const real a = p.real(), b = p.imag();
		mul(co, { a * a + b * b, -2 * a, 1 });
		mul(sc, { a * a + b * b, 2 * std::fabs(a), 1 });
	}
	for (size_t i = 0; i < co.size() && i < poly.size(); ++i) c.near(poly.coefficients()[i], co[i], E * K * sc[i], "expanded-coefficient", (long long)i);
	for (int k = 0; k < 6; ++k) {
		const T x = unit * value<T>(g, exact, range);
		const std::complex<T> z = unit * std::complex<T>(value<T>(g, exact, range), value<T>(g, exact, range));
		real s;
		const real fx = product<real>(m, (real)x, s);
		c.near(f(x), fx, E * K * s, "factored-value");
		c.near(poly(x), fx, 2 * E * K * s, "expanded-value");
		const real sx = s;
		const cplx fz = product<cplx>(m, cplx(z.real(), z.imag()), s);
		c.near(f(z), fz, 3 * E * K * s, "factored-value-complex");
		c.near(poly(z), fz, 6 * E * K * s, "expanded-value-complex");
		c.near(f(std::complex<T>(x, 0)), fx, 3 * E * K * sx, "real-point-as-complex");
	}
	// zero at every root
	for (auto& r : m.real) c.ok(f(r) == T(0), "nonzero-at-real-root");
	c.note("roots", m.roots());
}
FAMILY(factored_evaluation, 1500, 60000) { c.rng.chance(0.5) ? evaluation<float>(c) : evaluation<double>(c); }

template <class T> static void rejection(Case& c) {
	auto& g = c.rng;
	auto m = randomModel<T>(g, 5, 4, g.chance(0.3), 3);
	auto list = listed(g, m);
	const int how = (int)g.range(0, 4);
	bool bad = true;
	switch (how) {
		case 0: list.push_back(upper<T>(g, false, 3)); break;                          // a root without its conjugate
		case 1: { const auto a = upper<T>(g, false, 3), b = upper<T>(g, false, 3); list.push_back(a); list.push_back(std::conj(b)); break; } // two halves of different pairs
		case 2: { const auto a = upper<T>(g, false, 3); list.push_back(a); list.push_back(a); break; } // the same half twice
		case 3: { const auto a = upper<T>(g, false, 3); for (int i = 0; i < 3; ++i) list.push_back(a); list.push_back(std::conj(a)); break; }
		default: bad = false;
	}
	for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[g.size(0, i - 1)]);
	c.p("type", tname<T>()).p("how", how).p("n", list.size()).p("first", list.empty() ? T(0) : list[0].real());
	bool threw = false;
	try { FactoredPolynomial<T> f(list.begin(), list.end()); }
	catch (const std::invalid_argument&) { threw = true; }
	c.eq(threw, bad, "unpaired-roots");
	FactoredPolynomial<T> f;
	if (!bad) f = FactoredPolynomial<T>(list.begin(), list.end());
	else f.resize(m.real.size(), m.pairs.size(), T(1), { 1, 2 });
	const size_t n = f.num_roots(), ask = g.size(0, n + 3);
	threw = false;
	const auto before = show(f);
	try { f.regroup(ask, T(2), { 3, 4 }); }
	catch (const std::invalid_argument&) { threw = true; }
	c.eq(threw, ask > n || (n - ask) % 2 != 0, "regroup-rejection");
	if (threw) c.ok(show(f) == before, "rejected-regroup-changed-roots");
	c.eq(f.num_roots(), n, "regroup-count");
}
FAMILY(root_rejection, 600, 20000) { c.rng.chance(0.5) ? rejection<float>(c) : rejection<double>(c); }

// Several objects under a random history; after every step every object must match its model: a shared buffer would show.
template <class T> static void history(Case& c) {
	auto& g = c.rng;
	constexpr size_t N = 4;
	FactoredPolynomial<T> f[N];
	Model<T> m[N];
	const int steps = (int)g.range(3, c.thorough ? 60 : 30);
	c.p("type", tname<T>()).p("steps", steps);
	std::string ops;
	for (int s = 0; s < steps; ++s) {
		const size_t a = g.size(0, N - 1);
		size_t b = g.size(0, N - 1);
		const int op = (int)g.range(0, 9);
		ops += (char)('a' + op);
		switch (op) {
			case 0: { m[a] = randomModel<T>(g, 6, 5, true, 9); const auto l = listed(g, m[a]); f[a] = FactoredPolynomial<T>(l.begin(), l.end());
				m[a].real.assign(f[a].real_roots().begin(), f[a].real_roots().end());
				{ Model<T> chk = m[a]; (void)chk; }
				// order is the object's own choice; contents were compared as sets in the other family
				m[a].pairs.assign(f[a].complex_pairs().begin(), f[a].complex_pairs().end());
				for (auto& v : m[a].pairs) if (v.imag() < 0) v = std::conj(v);
				break; }
			case 1: f[a] = f[b]; m[a] = m[b]; break; // also onto itself
			case 2: if (a != b) { f[a] = std::move(f[b]); m[a] = m[b]; f[b] = FactoredPolynomial<T>(); m[b] = {}; } break;
			case 3: { FactoredPolynomial<T> t(f[b]); f[a] = t; m[a] = m[b]; t.resize(1, 0, T(77)); break; }
			case 4: { if (a == b) break; FactoredPolynomial<T> t(std::move(f[b])); c.ok(holds(t, m[b], true), "moved-roots"); f[b] = FactoredPolynomial<T>(); f[a] = std::move(t); m[a] = m[b]; m[b] = {}; break; }
			case 5:
			case 6: {
				const size_t nr = g.size(0, 7), nc = g.size(0, 6);
				const T rv = (T)g.range(-9, 9);
				const std::complex<T> cv = upper<T>(g, true, 9);
				f[a].resize(nr, nc, rv, cv);
				m[a].real.resize(nr, rv);
				m[a].pairs.resize(nc, cv);
				break;
			}
			case 7: {
				const size_t n = m[a].roots();
				const size_t nr = n % 2 + 2 * g.size(0, n / 2);
				const T rv = (T)g.range(-9, 9);
				const std::complex<T> cv = upper<T>(g, true, 9);
				f[a].regroup(nr, rv, cv);
				m[a].real.resize(nr, rv);
				m[a].pairs.resize((n - nr) / 2, cv);
				break;
			}
			case 8: if (!m[a].real.empty()) { const size_t i = g.size(0, m[a].real.size() - 1); const T v = (T)g.range(-99, 99); f[a].real_roots()[i] = v; m[a].real[i] = v; } break;
			default: if (!m[a].pairs.empty()) { const size_t i = g.size(0, m[a].pairs.size() - 1); const auto v = upper<T>(g, true, 99); f[a].complex_pairs()[i] = v; m[a].pairs[i] = v; } break;
		}
		for (size_t i = 0; i < N; ++i) if (!c.ok(holds(f[i], m[i], true), "history", [&] { return "object " + std::to_string(i) + " after " + ops + " (last on " + std::to_string(a) + "," + std::to_string(b) + "): " + show(f[i]); })) return;
	}
	c.p("ops", ops);
	const auto p = ExpandPolynomial(f[0]);
	real s;
	const real e = product<real>(m[0], (real)1, s);
	c.near(p(T(1)), e, 2e2 * eps_v<T> * s, "final-value");
}
FAMILY(factored_history, 800, 40000) { c.rng.chance(0.5) ? history<float>(c) : history<double>(c); }

template <class T> static void plain(Case& c) {
	auto& g = c.rng;
	const bool exact = g.chance(0.5);
	const size_t n = g.size(0, exact ? (sizeof(T) == 4 ? 6 : 12) : 30);
	std::vector<T> co(n);
	const T unit = g.chance(0.3) ? (T)std::ldexp(1.0, sizeof(T) == 4 ? (int)g.range(-50, 50) : (int)g.range(-500, 500)) : T(1);
	for (auto& v : co) v = unit * value<T>(g, exact, 9);
	c.p("type", tname<T>()).p("exact", exact).p("n", n).p("c0", n ? co[0] : T(0));
	Polynomial<T> p(co.begin(), co.end());
	Polynomial<T> q;
	switch (g.range(0, 3)) {
		case 0: q = p; break;
		case 1: { Polynomial<T> t(p); q = std::move(t); break; }
		case 2: { q = Polynomial<T>{ 1, 2, 3 }; q.resize(n, T(5)); std::copy(co.begin(), co.end(), q.coefficients().begin()); break; }
		default: { Polynomial<T> t = p; q = t; if (n) t.coefficients()[0] = T(1234); break; }
	}
	c.eq(q.size(), n, "size");
	c.eq(q.order(), n ? n - 1 : 0, "order");
	for (size_t i = 0; i < n; ++i) c.ok(q.coefficients()[i] == co[i] && std::as_const(q).coefficients()[i] == co[i], "coefficient");
	for (int k = 0; k < 5; ++k) {
		const int range = exact ? 3 : 2;
		const T x = value<T>(g, exact, range);
		const std::complex<T> z(value<T>(g, exact, range), value<T>(g, exact, range));
		real v = 0, s = 0, pw = 1, zs = 0, zp = 1;
		cplx vz = 0, pz = 1;
		for (size_t i = 0; i < n; ++i) {
			v += (real)co[i] * pw;
			s += std::fabs((real)co[i] * pw);
			vz += (real)co[i] * pz;
			zs += std::fabs((real)co[i]) * zp;
			pw *= x;
			pz *= cplx(z.real(), z.imag());
			zp *= std::hypot((real)z.real(), (real)z.imag());
		}
		const real E = exact ? 0 : eps_v<T> * (4 + 3 * (real)n);
		c.near(q(x), v, E * s, "value");
		c.near(q(z), vz, 3 * E * zs, "value-complex");
	}
	// resizing keeps the leading part and fills the rest
	const size_t m = g.size(0, 20);
	const T fill = (T)g.range(-9, 9);
	q.resize(m, fill);
	c.eq(q.size(), m, "resized");
	for (size_t i = 0; i < m && i < q.size(); ++i) c.ok(q.coefficients()[i] == (i < n ? co[i] : fill), "resized-coefficient");
	c.eq(p.size(), n, "source-changed");
	for (size_t i = 0; i < n && i < p.size(); ++i) c.ok(p.coefficients()[i] == co[i], "source-changed");
}
FAMILY(plain_polynomials, 800, 30000) { c.rng.chance(0.5) ? plain<float>(c) : plain<double>(c); }
