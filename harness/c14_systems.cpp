// Representations of one system evaluate alike; bilinear transform; root transforms.
#include "iirref.hpp"
#include <algorithm>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/RootTransforms.hpp>
using namespace dspbb;
using namespace vh;

template <class T> static std::vector<cplx> allRoots(const FactoredPolynomial<T>& f) {
	std::vector<cplx> r;
	for (auto& x : f.real_roots()) r.emplace_back((real)x, 0);
	for (auto& x : f.complex_pairs()) { const cplx c((real)x.real(), (real)x.imag()); r.push_back(c); r.push_back(std::conj(c)); }
	return r;
}
struct Val { cplx v; real err; real cond; }; // value, unit-eps error scale, condition of the denominator
static Val evalRef(real gain, const std::vector<cplx>& z, const std::vector<cplx>& p, cplx x) {
	cplx n = gain, d = 1;
	real sn = std::fabs(gain), sd = 1;
	for (auto& r : z) n *= x - r, sn *= std::abs(x) + std::abs(r);
	for (auto& r : p) d *= x - r, sd *= std::abs(x) + std::abs(r);
	const real ad = std::abs(d);
	return { n / d, (sn + std::abs(n) * sd / ad) / ad, ad > 0 ? sd / ad : 1e300L };
}
template <class T> static void fillRoots(Rng& g, FactoredPolynomial<T>& f, size_t nr, size_t nc, double m, int kind) {
	f.resize(nr, nc);
	for (auto& r : f.real_roots()) {
		switch (kind) {
			case 0: r = (T)g.uni(-m, m); break;
			case 1: r = (T)g.uni(-m, 0); break;
			case 2: r = (T)g.uni(0, m); break;
			default: r = (T)g.pick<double>({ 0, 0.5, -0.5, 0.5, -1, 1, 0.25 }); // repeated roots, roots at zero
		}
	}
	for (auto& r : f.complex_pairs()) {
		if (kind == 3) r = std::complex<T>((T)g.pick<double>({ 0, 0.5, -0.5 }), (T)g.pick<double>({ 0.5, 0.25 }));
		else r = std::polar((T)g.uni(0.05, m), (T)g.uni(0.02, 3.12));
	}
}

template <class T> static void forms(Case& c) {
	auto& g = c.rng;
	const int kind = (int)g.range(0, 3);
	DiscreteZeroPoleGain<T> zpk;
	const size_t lim = sizeof(T) == 4 ? 3 : 6;
	const size_t zr = g.size(0, lim), zc = g.size(0, lim / 2), pr = g.size(0, lim), pc = g.size(0, lim / 2);
	fillRoots(g, zpk.zeros, zr, zc, 1.5, kind);
	fillRoots(g, zpk.poles, pr, pc, g.chance(0.5) ? 0.95 : 1.5, (int)g.range(0, 3));
	zpk.gain = (T)(g.chance(0.03) ? 0 : g.pick<double>({ 1, -1, 0.5, g.uni(-3, 3), 1e-3, -1e-6, 1e6, std::ldexp(g.uni(-2, 2), (int)g.range(-1, 1) * (sizeof(T) == 4 ? 30 : 150)) }));
	// roots and points of any magnitude, such as those of analog systems in radians per second
	const size_t most = std::max<size_t>(1, std::max(zr + 2 * zc, pr + 2 * pc));
	const int reach = (sizeof(T) == 4 ? 30 : 300) / (int)most;
	const T unit = g.chance(0.4) ? (T)std::ldexp(1.0, (int)g.range(-reach, reach)) : T(1);
	for (auto* f : { &zpk.zeros, &zpk.poles }) {
		for (auto& r : f->real_roots()) r *= unit;
		for (auto& r : f->complex_pairs()) r *= unit;
	}
	c.p("t", tname<T>()).p("zr", zr).p("zc", zc).p("pr", pr).p("pc", pc).p("kind", kind).p("gain", zpk.gain).p("unit", unit);
	const TransferFunction<T, eDiscretization::DISCRETE> tf(zpk);
	const CascadedBiquad<T> sos(zpk);
	const ContinuousZeroPoleGain<T> czpk{ zpk.gain, zpk.zeros, zpk.poles };
	const TransferFunction<T, eDiscretization::CONTINUOUS> ctf(czpk);
	c.eq(czpk.order(), zpk.order(), "continuous-order");
	c.eq(ctf.order(), zpk.order(), "continuous-order");
	const size_t nz = zr + 2 * zc, np = pr + 2 * pc, order = std::max(nz, np);
	c.eq(zpk.order(), order, "order");
	c.eq(tf.order(), order, "order");
	c.eq(tf.numerator.order(), nz, "numerator-order");
	c.eq(tf.denominator.order(), np, "denominator-order");
	c.eq(sos.order(), order, "sections-order");
	if (!nz && !np) c.trivial();
	const auto z = allRoots(zpk.zeros), p = allRoots(zpk.poles);
	const real ep = 8 * (2 + nz + np) * eps_v<T>;
	for (int i = 0; i < 14; ++i) {
		std::complex<T> x = i == 0 ? std::complex<T>(1) : i == 1 ? std::complex<T>(-1) : i == 2 ? std::complex<T>(0, 1) : i < 8 ? std::polar(T(1), (T)g.uni(-3.2, 3.2)) : std::complex<T>((T)g.uni(-3, 3), (T)g.uni(-3, 3));
		if (g.chance(0.15)) x = x.real();
		x *= unit;
		const auto ref = evalRef(zpk.gain, z, p, wide(x));
		if (!(ref.cond < 1e-3L / eps_v<T>)) continue;
		const real tol = ep * ref.err + (sizeof(T) == 4 ? 1e-35L : 1e-290L);
		c.near(zpk(x), ref.v, tol, "zero-pole-gain", i);
		c.near(tf(x), ref.v, tol, "transfer-function", i);
		c.near(czpk(x), ref.v, tol, "continuous-zero-pole-gain", i);
		c.near(ctf(x), ref.v, tol, "continuous-transfer-function", i);
		if (!nz && !np) c.near(sos(x), ref.v, tol, "sections-of-constant", i);
		else c.near(sos(x), ref.v, tol, "sections", i);
		if (x.imag() == T(0)) {
			c.near(zpk(x.real()), ref.v.real(), tol, "zero-pole-gain-real", i);
			c.near(tf(x.real()), ref.v.real(), tol, "transfer-function-real", i);
			c.near(czpk(x.real()), ref.v.real(), tol, "continuous-zero-pole-gain-real", i);
			c.near(ctf(x.real()), ref.v.real(), tol, "continuous-transfer-function-real", i);
			if (!nz && !np) c.near(sos(x.real()), ref.v.real(), tol, "sections-of-constant", i);
			else c.near(sos(x.real()), ref.v.real(), tol, "sections-real", i);
		}
	}
	// conversions leave their source alone, and do not share storage with it
	const auto z2 = allRoots(zpk.zeros), p2 = allRoots(zpk.poles);
	c.ok(z2 == z && p2 == p, "source-changed");
}

template <class T> static void bilinear(Case& c) {
	auto& g = c.rng;
	ContinuousZeroPoleGain<T> s;
	const size_t lim = sizeof(T) == 4 ? 2 : 4;
	const size_t pr = g.size(0, lim), pc = g.size(0, lim / 2), zr = g.size(0, lim), zc = g.size(0, lim / 2);
	const double fs = g.pick<double>({ 1, 2, 0.5, 10, g.uni(0.3, 20), 2 / M_PI, 44100, 96000, 1e-3, std::ldexp(g.uni(1, 2), sizeof(T) == 4 ? (int)g.range(-12, 12) : (int)g.range(-40, 40)) });
	auto fill = [&](auto& f, size_t r, size_t k, bool stable) {
		f.resize(r, k);
		for (auto& x : f.real_roots()) x = (T)(fs * (stable ? -g.uni(0.05, 3) : g.uni(-2, 1.9) + 0.0));
		for (auto& x : f.complex_pairs()) x = std::complex<T>((T)(fs * (stable ? -g.uni(0.05, 2) : g.uni(-1, 1))), (T)(fs * g.uni(0.1, 3)));
	};
	fill(s.poles, pr, pc, true);
	fill(s.zeros, zr, zc, false);
	s.gain = g.chance(0.03) ? T(0) : (T)g.uni(-2, 2);
	const bool warp = g.chance(0.5);
	const T w0 = (T)(fs * g.uni(0.1, 3.0));
	c.p("t", tname<T>()).p("zr", zr).p("zc", zc).p("pr", pr).p("pc", pc).p("fs", fs).p("prewarp", warp);
	const auto d = warp ? BilinearTransform(s, (T)fs, { w0 }) : BilinearTransform(s, (T)fs);
	const real k = warp ? (real)w0 / std::tan((real)w0 / (T)fs / 2) : 2 * (real)(T)fs;
	// a zero next to the point at which the gain is evaluated, or a root next to k, is ill conditioned
	for (auto& r : allRoots(s.zeros)) if (std::abs(cplx(k) - r) < 0.05L * std::abs(k)) { c.trivial(); return; }
	const size_t n = std::max(zr + 2 * zc, pr + 2 * pc);
	c.eq(d.zeros.num_roots(), n, "zero-count");
	c.eq(d.poles.num_roots(), n, "pole-count");
	const auto sz = allRoots(s.zeros), sp = allRoots(s.poles), dz = allRoots(d.zeros), dp = allRoots(d.poles);
	if (zr + 2 * zc <= pr + 2 * pc) for (auto& r : dp) c.ok(std::abs(r) < 1, "stable-pole-mapped-outside");
	auto cond = [](const std::vector<cplx>& r, cplx x) { real q = 1; for (auto& v : r) q += (std::abs(x) + std::abs(v)) / std::abs(x - v); return q; };
	for (int i = 0; i < 12; ++i) {
		const real w = i == 0 && warp ? (real)w0 / (T)fs : g.uni(-3.0, 3.0);
		const cplx z = i < 8 ? std::polar(1.0L, w) : cplx(g.uni(0.2, 2), g.uni(-1.5, 1.5));
		const cplx q = i == 0 && warp ? cplx(0, (real)w0) : k * (z - 1.0L) / (z + 1.0L);
		const auto e = evalRef(s.gain, sz, sp, q), got = evalRef(d.gain, dz, dp, z);
		const real c1 = cond(sz, q) + cond(sp, q) + cond(dz, z) + cond(dp, z) + cond(sz, k) + cond(sp, k);
		if (!(c1 < 1e-3L / eps_v<T>)) continue;
		if (!c.near(got.v, e.v, 40 * eps_v<T> * c1 * (std::abs(e.v) + std::abs(got.v)) + 1e-300L, i == 0 && warp ? "prewarped-frequency" : "bilinear-response", i)) break;
		const std::complex<T> zt((T)z.real(), (T)z.imag());
		const auto lib = evalRef(d.gain, dz, dp, wide(zt));
		if (lib.cond < 1e-3L / eps_v<T>) c.near(d(zt), lib.v, 16 * (2 + n) * eps_v<T> * lib.err + 1e-35L, "evaluate-discrete", i);
	}
}

// Real rational maps of roots: the multiset of images, padding, grouping into reals and pairs.
template <class T> static void rootTransforms(Case& c) {
	auto& g = c.rng;
	FactoredPolynomial<T> f;
	const size_t nr = g.size(0, 5), nc = g.size(0, 4), pad = g.size(0, 3);
	fillRoots(g, f, nr, nc, 2, 0);
	const int map = (int)g.range(0, 3);
	c.p("t", tname<T>()).p("nr", nr).p("nc", nc).p("pad", pad).p("map", map);
	const T a = (T)g.uni(-2, 2), b = (T)g.uni(0.5, 2);
	std::vector<cplx> expect;
	FactoredPolynomial<T> r;
	const size_t total = nr + 2 * nc;
	const bool useDefault = pad == 0 && g.chance(0.5);
	const size_t num = useDefault ? 0 : total + pad;
	if (map < 2) {
		const auto func = [=](const auto& p) { return std::array<std::complex<T>, 1>{ map == 0 ? std::complex<T>(a + b * p) : std::complex<T>(T(1) / (p + T(5))) }; };
		const std::array<std::complex<T>, 1> padRoot{ std::complex<T>(T(0.125)) };
		r = TransformRoots(f, func, num, padRoot);
		for (auto& x : f.real_roots()) expect.push_back(wide(func(x)[0]));
		for (auto& x : f.complex_pairs()) { const cplx y = wide(func(x)[0]); expect.push_back(y); expect.push_back(std::conj(y)); }
		for (size_t i = 0; i < pad; ++i) expect.push_back(wide(padRoot[0]));
	}
	else { // two images per root: p +- sqrt(p) like maps; real roots may turn into pairs
		const auto func = [=](const auto& p) {
			const std::complex<T> s = map == 2 ? std::sqrt(std::complex<T>(p) + std::complex<T>(a)) : std::complex<T>(b);
			return std::array<std::complex<T>, 2>{ std::complex<T>(p) - s, std::complex<T>(p) + s };
		};
		const bool pairPad = g.chance(0.5);
		const std::array<std::complex<T>, 2> padRoot{ pairPad ? std::complex<T>(T(0.25), T(0.5)) : std::complex<T>(T(0.25)), pairPad ? std::complex<T>(T(0.25), T(-0.5)) : std::complex<T>(T(-0.75)) };
		r = TransformRoots(f, func, num, padRoot);
		for (auto& x : f.real_roots()) for (auto y : func(x)) expect.push_back(wide(y));
		for (auto& x : f.complex_pairs()) for (auto y : func(x)) expect.push_back(wide(y)), expect.push_back(std::conj(wide(y)));
		for (size_t i = 0; i < pad; ++i) for (auto y : padRoot) expect.push_back(wide(y));
	}
	auto got = allRoots(r);
	c.eq(got.size(), expect.size(), "root-count");
	auto less = [](const cplx& x, const cplx& y) { return std::make_pair(x.real(), x.imag()) < std::make_pair(y.real(), y.imag()); };
	std::sort(got.begin(), got.end(), less);
	std::sort(expect.begin(), expect.end(), less);
	c.ok(got.size() == expect.size() && std::equal(got.begin(), got.end(), expect.begin(), [](cplx x, cplx y) { return std::abs(x - y) <= 1e-6L; }), "roots");
	if (f.num_roots()) { // product over reals and pairs
		const T gainR = TransformGain(f, [](const T& x) { return T(3) - x; }, [](const std::complex<T>& x) { return std::norm(T(3) - x); });
		real e = 1;
		for (auto& x : f.real_roots()) e *= 3 - (real)x;
		for (auto& x : f.complex_pairs()) e *= std::norm(cplx(3) - wide(x));
		c.near(gainR, e, 8 * (1 + total) * eps_v<T> * std::fabs(e), "transform-gain");
	}
	// images that are neither real nor conjugate pairs are refused
	if (nr) {
		bool threw = false;
		try { (void)TransformRoots(f, [](const auto& p) { return std::array<std::complex<T>, 2>{ std::complex<T>(std::real(p), T(1)), std::complex<T>(std::real(p), T(2)) }; }, 0, std::array<std::complex<T>, 2>{}); }
		catch (const std::invalid_argument&) { threw = true; }
		c.ok(threw, "unpaired-roots-accepted");
	}
}

FAMILY(system_forms, 12000, 600000) { c.rng.chance(0.4) ? forms<float>(c) : forms<double>(c); }
FAMILY(bilinear_transform, 8000, 400000) { c.rng.chance(0.3) ? bilinear<float>(c) : bilinear<double>(c); }
FAMILY(root_transforms, 8000, 400000) { c.rng.chance(0.3) ? rootTransforms<float>(c) : rootTransforms<double>(c); }
