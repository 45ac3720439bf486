// Carlson's integral against the integral itself, Jacobi functions against an independent Landen evaluation on values
// (not angles) in extended precision, inverses by round trip through that evaluation.
#include "vh.hpp"
#include <algorithm>
#include <cassert>
#include <stdexcept>
#include <tuple>
#include <dspbb/Math/EllipticFunctions.hpp>
using namespace dspbb;
using namespace vh;

static const real PI = 3.14159265358979323846264338327950288L;

// ---------------------------------------------------------------- oracles
// R_F(x,y,z) = 1/2 int_0^inf dt / (sqrt(t+x) sqrt(t+y) sqrt(t+z)), by double-exponential quadrature.
template <class C> static C rfIntegral(C x, C y, C z) {
	const real h = 1.0L / 32;
	C sum = 0;
	for (int i = -150; i <= 150; ++i) {
		const real u = i * h, t = std::exp(std::sinh(u) * PI / 2);
		sum += C(t * std::cosh(u) * PI / 2) / (std::sqrt(t + x) * std::sqrt(t + y) * std::sqrt(t + z));
	}
	return sum * (h / 2);
}
// Duplication, square roots taken term by term.
template <class C> static C rf(C x, C y, C z) {
	C a = (x + y + z) / 3.0L;
	for (int i = 0; i < 60; ++i) {
		const C sx = std::sqrt(x), sy = std::sqrt(y), sz = std::sqrt(z), l = sx * sy + sx * sz + sy * sz;
		x = (x + l) / 4.0L; y = (y + l) / 4.0L; z = (z + l) / 4.0L;
		a = (a + l) / 4.0L;
		const real q = std::max({ std::abs(a - x), std::abs(a - y), std::abs(a - z) });
		if (q < 1e-4L * std::abs(a)) break;
	}
	const C X = 1.0L - x / a, Y = 1.0L - y / a, Z = -(X + Y), e2 = X * Y - Z * Z, e3 = X * Y * Z;
	return (1.0L - e2 / 10.0L + e3 / 14.0L + e2 * e2 / 24.0L - 3.0L * e2 * e3 / 44.0L - 5.0L * e2 * e2 * e2 / 208.0L + 3.0L * e3 * e3 / 104.0L) / std::sqrt(a);
}
static real agmK(real kc2) { // K from the squared complementary modulus
	real a = 1, b = std::sqrt(kc2);
	for (int i = 0; i < 60 && std::fabs(a - b) > 1e-19L * a; ++i) { const real t = (a + b) / 2; b = std::sqrt(a * b); a = t; }
	return PI / (2 * a);
}
// The moduli are handled through m = k^2 and 1-m, so that either end is accurate.
struct Mod { real m, mc; };
static Mod modOf(real k) { return { k * k, (1 - k) * (1 + k) }; }
static Mod shifted(Mod q, real d) { return { std::min((real)1, std::max((real)0, q.m + d)), std::min((real)1, std::max((real)0, q.mc - d)) }; }
template <class C> struct Jac { C sn, cn, dn; };
template <class C> static Jac<C> jacobi(C u, Mod q) {
	if (q.mc == 0) return { std::tanh(u), 1.0L / std::cosh(u), 1.0L / std::cosh(u) };
	std::vector<real> ks;
	real m = q.m, kc = std::sqrt(q.mc);
	while (m > 1e-40L && ks.size() < 40) { // k -> (1-k')/(1+k')
		const real k1 = m / ((1 + kc) * (1 + kc));
		ks.push_back(k1);
		u /= 1 + k1;
		kc = 2 * std::sqrt(kc) / (1 + kc);
		m = k1 * k1;
	}
	Jac<C> j{ std::sin(u), std::cos(u), 1 };
	for (size_t i = ks.size(); i-- > 0;) {
		const C s2 = j.sn * j.sn, d = 1.0L + ks[i] * s2;
		j = { (1 + ks[i]) * j.sn / d, j.cn * j.dn / d, (1.0L - ks[i] * s2) / d };
	}
	return j;
}
// sn, cn, dn change only in sign over 2iK': keep the imaginary part small, where the recursion is accurate.
static Jac<cplx> jacobiC(cplx u, Mod q) {
	real flip = 1;
	if (q.m > 0) {
		const real period = 2 * agmK(q.m), n = std::round(u.imag() / period);
		u -= cplx(0, n * period);
		if (std::fmod(n, 2) != 0) flip = -1;
	}
	auto j = jacobi<cplx>(u, q);
	j.cn *= flip;
	j.dn *= flip;
	return j;
}
static real amplitude(real u, Mod q) {
	const auto j = jacobi<real>(u, q);
	if (q.mc == 0) return std::atan2(j.sn, j.cn);
	const real a = std::atan2(j.sn, j.cn), est = u * PI / (2 * agmK(q.mc));
	return a + 2 * PI * std::round((est - a) / (2 * PI));
}

template <class T> static T modulus(Rng& g) {
	T k;
	switch (g.range(0, 7)) {
		case 0: k = 0; break;
		case 1: k = (T)std::exp(g.uni(std::log(1e-9), 0)); break;
		case 2: k = (T)(1 - std::exp(g.uni(std::log(eps_v<T>), std::log(0.5)))); break;
		case 3: k = g.pick<T>({ std::nextafter(T(1), T(0)), std::numeric_limits<T>::epsilon(), T(0.5), std::sqrt(T(0.5)) }); break;
		default: k = (T)g.uni(0, 0.999); break;
	}
	return k < 1 ? k : std::nextafter(T(1), T(0));
}

// ---------------------------------------------------------------- integrals
template <class T> static void carlsonReal(Case& c) {
	auto& g = c.rng;
	T a[3];
	for (T& v : a) v = (T)std::exp(g.uni(-8, 8));
	if (g.chance(0.15)) a[1] = a[0];
	if (g.chance(0.08)) a[2] = a[1] = a[0];
	if (g.chance(0.25)) a[g.range(0, 2)] = 0;
	c.p("type", tname<T>()).p("x", a[0]).p("y", a[1]).p("z", a[2]);
	const real want = rf<real>(a[0], a[1], a[2]);
	if (c.index % 8 == 0) c.near(want, rfIntegral<real>(a[0], a[1], a[2]), 1e-15L * want, "oracle-is-the-integral");
	const real tol = 24 * eps_v<T> * want;
	std::sort(a, a + 3);
	const T base = CarlsonRF(a[0], a[1], a[2]);
	do c.near(CarlsonRF(a[0], a[1], a[2]), want, tol, "rf-real");
	while (std::next_permutation(a, a + 3));
	const T s = (T)std::ldexp(1.0, 2 * (int)g.range(-5, 5));
	c.near(CarlsonRF(s * a[0], s * a[1], s * a[2]), (real)base / std::sqrt((real)s), tol, "rf-homogeneous");
	if (a[0] == a[1] && a[1] == a[2]) c.near(base, 1 / std::sqrt((real)a[0]), tol, "rf-equal");
	const double w = (double)a[1];
	c.near(CarlsonRF(a[0], w, 1), rf<real>(a[0], w, 1), 24 * eps_v<double> * rf<real>(a[0], w, 1), "rf-mixed-types");
	const size_t i = g.size(0, 2);
	T z[3] = { 0, 0, 0 };
	z[i] = g.chance(0.2) ? T(0) : a[1];
	c.eq(CarlsonRF(z[0], z[1], z[2]), std::numeric_limits<T>::infinity(), "rf-two-zeros");
}
FAMILY(rf_real_double, 7500, 20000) { carlsonReal<double>(c); }
FAMILY(rf_real_float, 7500, 20000) { carlsonReal<float>(c); }

template <class T> static void carlsonComplex(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	const bool wide_ = g.chance(0.6);
	const double lim = wide_ ? M_PI - 0.05 : 2.0;
	cplx a[3];
	C t[3];
	for (int i = 0; i < 3; ++i) {
		t[i] = std::polar((T)std::exp(g.uni(-5, 5)), (T)g.uni(-lim, lim));
		if (g.chance(0.15)) t[i] = C(std::abs(t[i]));
		a[i] = wide(t[i]);
	}
	if (g.chance(0.2)) { t[0] = std::conj(t[1]); a[0] = wide(t[0]); }
	if (g.chance(0.15)) { t[2] = 0; a[2] = 0; }
	real amplify = 1;
	if (g.chance(0.15)) { // close to each other and to the branch cut, on either side of it
		const T r = (T)std::exp(g.uni(-3, 3)), d = (T)std::exp(g.uni(-7, -1));
		for (int i = 0; i < 3; ++i) {
			t[i] = std::polar(r * (T)(1 + g.uni(-0.5, 0.5) * d), (T)M_PI - d * (T)g.uni(0.3, 1));
			if (g.chance(0.5)) t[i] = std::conj(t[i]);
			a[i] = wide(t[i]);
		}
		amplify = 4 / d; // the value varies on the scale of the distance to the cut
	}
	c.p("type", tname<C>()).p("x", t[0]).p("y", t[1]).p("z", t[2]);
	const cplx want = rf<cplx>(a[0], a[1], a[2]);
	if (!wide_ && amplify == 1 && c.index % 8 == 0) c.near(want, rfIntegral<cplx>(a[0], a[1], a[2]), 1e-13L * std::abs(want), "oracle-is-the-integral");
	const real tol = 200 * amplify * eps_v<T> * std::abs(want);
	size_t perm[3] = { 0, 1, 2 };
	do c.near(CarlsonRF(t[perm[0]], t[perm[1]], t[perm[2]]), want, tol, "rf-complex");
	while (std::next_permutation(perm, perm + 3));
	c.near(CarlsonRF(std::conj(t[0]), std::conj(t[1]), std::conj(t[2])), std::conj(want), tol, "rf-conjugate");
}
FAMILY(rf_complex_double, 7500, 20000) { carlsonComplex<double>(c); }
FAMILY(rf_complex_float, 7500, 20000) { carlsonComplex<float>(c); }

template <class T> static void completeK(Case& c) {
	auto& g = c.rng;
	const T k = modulus<T>(g);
	c.p("type", tname<T>()).p("k", k);
	const Mod q = modOf(k);
	const real want = agmK(q.mc);
	const real tol = 16 * eps_v<T> * want + std::fabs(want - agmK(shifted(q, -2 * eps_v<T>).mc)) * 2;
	c.near(EllipticK(k), want, tol, "k-complete");
	c.near(EllipticK(-k), want, tol, "k-even");
	if (k > T(0.001) && k < T(0.999)) c.near(want, rf<real>(0, q.mc, 1), 1e-17L * want, "oracles-agree");
}
FAMILY(complete_double, 7500, 20000) { completeK<double>(c); }
FAMILY(complete_float, 7500, 20000) { completeK<float>(c); }

// ---------------------------------------------------------------- amplitude and real Jacobi functions
template <class T> struct Tols { real sn = 0, cn = 0, dn = 0, am = 0; };
template <class T> static Tols<T> tolerances(real u, Mod q, const Jac<real>& j, real am) {
	const real e = eps_v<T>;
	Tols<T> t{ 12 * e, 12 * e, 12 * e + 4 * e / std::max(j.dn, std::sqrt(e)), 12 * e * (1 + std::fabs(am)) };
	auto add = [&](const Jac<real>& o, real oam) {
		t.sn += 3 * std::fabs(o.sn - j.sn);
		t.cn += 3 * std::fabs(o.cn - j.cn);
		t.dn += 3 * std::fabs(o.dn - j.dn);
		t.am += 3 * std::fabs(oam - am);
	};
	for (real s : { 1.0L, -1.0L }) {
		add(jacobi<real>(u * (1 + s * 4 * e), q), amplitude(u * (1 + s * 4 * e), q));
		const Mod qs = shifted(q, s * 2 * e);
		add(jacobi<real>(u, qs), amplitude(u, qs));
	}
	return t;
}

template <class T> static void jacobiReal(Case& c) {
	auto& g = c.rng;
	const bool one = g.chance(0.05);
	const T k = one ? T(1) : modulus<T>(g);
	const Mod q = modOf(k);
	const real K = one ? 3 : agmK(q.mc);
	T u;
	switch (g.range(0, 4)) {
		case 0: u = (T)(K * g.range(-8, 8)); break;
		case 1: u = (T)(K * g.range(-8, 8) / 4); break;
		case 2: u = (T)g.uni(-1.7, 1.7); break;
		default: u = (T)(K * g.uni(-9, 9)); break;
	}
	c.p("type", tname<T>()).p("u", u).p("k", k);
	const auto j = jacobi<real>(u, q);
	const real am = amplitude(u, q);
	const auto t = tolerances<T>(u, q, j, am);
	c.note("sn", j.sn).note("tol", t.sn);
	const auto [sn, cn, dn] = EllipticSNCNDN(u, k);
	c.near(sn, j.sn, t.sn, "sn");
	c.near(cn, j.cn, t.cn, "cn");
	c.near(dn, j.dn, t.dn, "dn");
	c.near(EllipticAM(u, k), am, t.am, "am");
	// identities, at the accuracy of the values themselves
	const real e = eps_v<T>;
	c.near((real)sn * sn + (real)cn * cn, (real)1, 8 * e, "sn2+cn2");
	c.near((real)dn * dn + q.m * (real)sn * sn, (real)1, 8 * e, "dn2+k2sn2");
	const auto [sm, cm, dm] = EllipticSNCNDN(-u, k);
	c.near(sm, -j.sn, t.sn, "sn-odd");
	c.near(cm, j.cn, t.cn, "cn-even");
	c.near(dm, j.dn, t.dn, "dn-even");
	const auto [sk, ck, dk] = EllipticSNCNDN(u, -k);
	c.near(sk, j.sn, t.sn, "sn-modulus-sign");
	c.near(ck, j.cn, t.cn, "cn-modulus-sign");
	c.near(dk, j.dn, t.dn, "dn-modulus-sign");
	c.near(EllipticSN(u, k), j.sn, t.sn, "sn-single");
	c.near(EllipticCN(u, k), j.cn, t.cn, "cn-single");
	c.near(EllipticDN(u, k), j.dn, t.dn, "dn-single");
	const auto mixed = EllipticSNCNDN(u, (double)k);
	c.near(std::get<0>(mixed), j.sn, t.sn, "sn-mixed");
	c.near(std::get<1>(mixed), j.cn, t.cn, "cn-mixed");
	c.near(std::get<2>(mixed), j.dn, t.dn, "dn-mixed");
	c.near(EllipticAM((float)u, (double)k), amplitude((float)u, q), t.am + tolerances<T>((float)u, q, jacobi<real>((float)u, q), amplitude((float)u, q)).am, "am-mixed");
	c.eq(sn, std::get<0>(EllipticSNCNDN(u, k)), "sn-repeat");
}
FAMILY(jacobi_double, 12500, 40000) { jacobiReal<double>(c); }
FAMILY(jacobi_float, 12500, 40000) { jacobiReal<float>(c); }

// Moduli above one: k sn(u,k) = sn(ku,1/k), cn(u,k) = dn(ku,1/k), dn(u,k) = cn(ku,1/k).
template <class T> static void jacobiReciprocal(Case& c) {
	auto& g = c.rng;
	const T k = (T)std::exp(g.uni(0.05, 3));
	const real inv = 1 / (real)k;
	const real K = agmK((1 - inv) * (1 + inv)) / k;
	const T u = (T)(K * (g.chance(0.3) ? g.range(-8, 8) / 4.0 : g.uni(-9, 9)));
	c.p("type", tname<T>()).p("u", u).p("k", k);
	const auto r = jacobi<real>((real)u * k, modOf(inv));
	const auto t = tolerances<T>((real)u * k, modOf(inv), r, amplitude((real)u * k, modOf(inv)));
	for (T s : { T(1), T(-1) }) {
		const auto [sn, cn, dn] = EllipticSNCNDN(u, s * k);
		c.near(sn, r.sn / k, t.sn, "sn-above-one");
		c.near(cn, r.dn, t.dn, "cn-above-one");
		c.near(dn, r.cn, t.cn, "dn-above-one");
	}
}
FAMILY(jacobi_above_one_double, 4000, 10000) { jacobiReciprocal<double>(c); }
FAMILY(jacobi_above_one_float, 4000, 10000) { jacobiReciprocal<float>(c); }

// ---------------------------------------------------------------- complex Jacobi functions
template <class T> static void jacobiComplex(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	const T k = g.chance(0.05) ? T(1) : modulus<T>(g);
	const Mod q = modOf(k);
	const Mod qc{ q.mc, q.m };
	const real K = q.mc == 0 ? 3 : std::min((real)30, agmK(q.mc)), Kc = q.m == 0 ? 3 : std::min((real)30, agmK(q.m));
	C z;
	real d = 0;
	for (int tries = 0; tries < 50 && d < 0.05L; ++tries) {
		const bool grid = g.chance(0.2);
		z = C((T)(K * (grid ? g.range(-4, 4) : g.uni(-4, 4))), (T)(Kc * (grid ? g.range(-4, 4) * 0.5 : g.uni(-4, 4))));
		if (g.chance(0.1)) z = C(z.real(), 0);
		if (g.chance(0.1)) z = C(0, z.imag());
		const auto jr = jacobi<real>(z.real(), q), ji = jacobi<real>(z.imag(), qc);
		d = ji.cn * ji.cn + q.m * ji.sn * ji.sn * jr.sn * jr.sn;
	}
	c.p("type", tname<C>()).p("z", z).p("k", k);
	if (d < 0.05L) { c.trivial(); return; }
	const auto j = jacobiC(wide(z), q);
	const auto ji = jacobi<real>(z.imag(), qc), jr = jacobi<real>(z.real(), q);
	const real e = eps_v<T>, re = z.real(), im = z.imag();
	real t = 16 * e * (2 + std::abs(j.sn) + std::abs(j.cn) + std::abs(j.dn)) / d + 4 * e / std::max(ji.dn, std::sqrt(e)) / d + 4 * e / std::max(jr.dn, std::sqrt(e)) / d;
	auto add = [&](cplx u, Mod m) {
		const auto o = jacobiC(u, m);
		t += 3 * std::max({ std::abs(o.sn - j.sn), std::abs(o.cn - j.cn), std::abs(o.dn - j.dn) });
	};
	for (real s : { 1.0L, -1.0L }) {
		add({ re * (1 + 4 * s * e), im }, q);
		add({ re, im * (1 + 4 * s * e) }, q);
		add({ re, im }, shifted(q, 2 * s * e));
	}
	if (!(t < 0.05L)) { c.note("ill-conditioned", t); c.trivial(); return; }
	const auto [sn, cn, dn] = EllipticSNCNDN(z, k);
	c.near(sn, j.sn, t, "sn-complex");
	c.near(cn, j.cn, t, "cn-complex");
	c.near(dn, j.dn, t, "dn-complex");
	c.near(wide(sn) * wide(sn) + wide(cn) * wide(cn), cplx(1), t * (2 + std::abs(j.sn) + std::abs(j.cn)) * 2, "sn2+cn2-complex");
	c.near(wide(dn) * wide(dn) + q.m * wide(sn) * wide(sn), cplx(1), t * (2 + std::abs(j.sn) + std::abs(j.dn)) * 2, "dn2+k2sn2-complex");
	c.near(std::get<0>(EllipticSNCNDN(-z, k)), -j.sn, t, "sn-odd-complex");
	c.near(std::get<1>(EllipticSNCNDN(-z, k)), j.cn, t, "cn-even-complex");
	c.near(std::get<2>(EllipticSNCNDN(std::conj(z), k)), std::conj(j.dn), t, "dn-conjugate");
	c.near(EllipticSN(z, k), j.sn, t, "sn-single-complex");
	c.near(EllipticCN(z, k), j.cn, t, "cn-single-complex");
	c.near(EllipticDN(z, k), j.dn, t, "dn-single-complex");
}
FAMILY(jacobi_complex_double, 12500, 40000) { jacobiComplex<double>(c); }
FAMILY(jacobi_complex_float, 12500, 40000) { jacobiComplex<float>(c); }

// ---------------------------------------------------------------- inverses
template <class T> static void inverseReal(Case& c) {
	auto& g = c.rng;
	const T k = modulus<T>(g);
	const Mod q = modOf(k);
	const real e = eps_v<T>, kc = std::sqrt(q.mc), K = agmK(q.mc);
	const int which = (int)g.range(0, 2);
	T x = g.chance(0.1) ? T(1) : g.chance(0.1) ? T(0) : g.chance(0.15) ? (T)(1 - std::exp(g.uni(std::log((double)e), -1))) : (T)g.uni(0, 1);
	if (which == 0 && g.chance(0.5)) x = -x;
	if (which == 2) {
		if (k < T(0.01)) { c.p("skip", "dn").trivial(); return; }
		x = (T)(kc + (1 - kc) * std::fabs(x));
		if ((real)x < kc) x = std::nextafter(x, T(2));
		x = std::min(x, T(1));
		// the radicand k^2+x^2-1 is only known to within rounding: stay where it is not negative
		if (q.m + (real)x * x - 1 < 4 * e) { x = (T)std::min((real)1, std::sqrt(std::max((real)0, 1 - q.m + 8 * e)) + 8 * e); }
	}
	c.p("type", tname<T>()).p("fn", which).p("x", x).p("k", k);
	const real X = x, d = 4 * e;
	auto at = [&](real da, real dm) -> real {
		const Mod s = shifted(q, dm);
		auto pos = [](real v) { return std::max((real)0, v); };
		const real one = pos((1 - X) * (1 + X) + da), xx = pos(X * X + da * (which == 0 ? 0 : X * X));
		if (which == 0) return X * rf<real>(one, pos(1 - s.m * X * X), 1);
		if (which == 1) return std::sqrt(one) * rf<real>(xx, 1, pos(s.mc + s.m * X * X));
		return std::sqrt(one) * rf<real>(s.m * xx, s.m, pos(s.m - (1 - X) * (1 + X) + dm));
	};
	const real want = at(0, 0);
	real tol = 16 * e * std::fabs(want);
	for (real s : { d, -d }) { tol += 2 * std::fabs(at(s, 0) - want); tol += 2 * std::fabs(at(0, s) - want); }
	if (!std::isfinite(tol)) tol = K; // the tolerance may only fail to be finite at the ends
	const T u = which == 0 ? EllipticArcSN(x, k) : which == 1 ? EllipticArcCN(x, k) : EllipticArcDN(x, k);
	c.near(u, want, tol, which == 0 ? "arcsn" : which == 1 ? "arccn" : "arcdn");
	const auto j = jacobi<real>(u, q);
	// the function at the returned argument: the condition numbers of the two steps cancel
	const real back = which == 0 ? j.sn : which == 1 ? j.cn : j.dn;
	const real slope = std::fabs(which == 0 ? j.cn * j.dn : which == 1 ? j.sn * j.dn : q.m * j.sn * j.cn);
	c.near(back, X, 24 * e + slope * tol + 12 * e * (std::fabs(X) + (1 + K) * K * 0.1L), which == 0 ? "sn-of-arcsn" : which == 1 ? "cn-of-arccn" : "dn-of-arcdn");
	c.ok(std::fabs((real)u) <= K * (1 + 32 * e) + tol && (which == 0 || u >= -tol), "principal-range", [&] { return str((real)u) + " K " + str(K); });
	const auto m = which == 0 ? EllipticArcSN(x, (double)k) : which == 1 ? EllipticArcCN(x, (double)k) : EllipticArcDN(x, (double)k);
	c.near(m, want, tol, "mixed-types");
}
FAMILY(inverse_double, 12500, 40000) { inverseReal<double>(c); }
FAMILY(inverse_float, 12500, 40000) { inverseReal<float>(c); }

template <class T> static void inverseComplex(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	const T k = (T)g.uni(0.05, 0.99);
	const Mod q = modOf(k);
	const int which = (int)g.range(0, 2);
	const double r = std::exp(g.uni(-3, 1.5));
	const double arg = which == 0 ? g.uni(-M_PI, M_PI) : g.uni(-M_PI / 2 + 0.03, M_PI / 2 - 0.03);
	C z = std::polar((T)r, (T)arg);
	if (std::fabs(z.imag()) < T(0.02)) z = C(z.real(), z.imag() < 0 ? T(-0.02) : T(0.02)); // off the branch cuts on the real axis
	c.p("type", tname<C>()).p("fn", which).p("z", z).p("k", k);
	const C w = which == 0 ? EllipticArcSN(z, k) : which == 1 ? EllipticArcCN(z, k) : EllipticArcDN(z, k);
	const real e = eps_v<T>;
	auto pick = [&](const Jac<cplx>& j) { return which == 0 ? j.sn : which == 1 ? j.cn : j.dn; };
	const auto j = jacobiC(wide(w), q);
	const cplx slope = which == 0 ? j.cn * j.dn : which == 1 ? j.sn * j.dn : q.m * j.sn * j.cn;
	const cplx Z = wide(z);
	// conditioning of the radicands: each is a difference known to an absolute error of eps times its terms
	const real z2 = std::norm(Z), terms = 1 + z2;
	const cplx rad1 = 1.0L - Z * Z, rad2 = which == 0 ? 1.0L - q.m * Z * Z : which == 1 ? q.mc + q.m * Z * Z : q.m - 1.0L + Z * Z;
	const real cond = terms / std::abs(rad1) + terms / std::abs(rad2) + 1;
	const real wtol = 24 * e * std::abs(wide(w)) * cond;
	c.near(pick(j), Z, 24 * e * (1 + std::abs(Z)) + std::abs(slope) * wtol, which == 0 ? "sn-of-arcsn-complex" : which == 1 ? "cn-of-arccn-complex" : "dn-of-arcdn-complex");
	const real K = agmK(q.mc), Kc = agmK(q.m);
	c.ok(std::fabs((real)w.real()) <= K + wtol && std::fabs((real)w.imag()) <= Kc + wtol, "principal-rectangle", [&] { return str(wide(w)) + " K " + str(K) + " K' " + str(Kc); });
	const C conj = which == 0 ? EllipticArcSN(std::conj(z), k) : which == 1 ? EllipticArcCN(std::conj(z), k) : EllipticArcDN(std::conj(z), k);
	c.near(conj, std::conj(wide(w)), 2 * wtol, "conjugate");
	if (which == 0) c.near(EllipticArcSN(-z, k), -wide(w), 2 * wtol, "arcsn-odd-complex");
	const auto m = which == 0 ? EllipticArcSN(z, (double)k) : which == 1 ? EllipticArcCN(z, (double)k) : EllipticArcDN(z, (double)k);
	c.near(m, wide(w), 2 * wtol, "mixed-types-complex");
}
FAMILY(inverse_complex_double, 12500, 40000) { inverseComplex<double>(c); }
FAMILY(inverse_complex_float, 12500, 40000) { inverseComplex<float>(c); }
