// Designed recursive filters: order, stability, magnitude response; band transforms of arbitrary systems; analog prototypes.
#include "iirref.hpp"
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using namespace vh;

template <class T> static std::vector<cplx> allRoots(const FactoredPolynomial<T>& f) {
	std::vector<cplx> r;
	for (auto& x : f.real_roots()) r.emplace_back((real)x, 0);
	for (auto& x : f.complex_pairs()) { const cplx c((real)x.real(), (real)x.imag()); r.push_back(c); r.push_back(std::conj(c)); }
	return r;
}
struct Sys {
	real gain;
	std::vector<cplx> z, p;
	template <class S> explicit Sys(const S& s) : gain(s.gain), z(allRoots(s.zeros)), p(allRoots(s.poles)) {}
	cplx at(cplx x) const {
		cplx v = gain;
		for (size_t i = 0; i < std::max(z.size(), p.size()); ++i) {
			if (i < z.size()) v *= x - z[i];
			if (i < p.size()) v /= x - p[i];
		}
		return v;
	}
	// absolute error that relative perturbations of size eps of every root and of the gain can cause
	real sensitivity(cplx x) const {
		real rel = 1, zabs = 1;
		(void)zabs;
		for (auto& r : p) rel += std::max<real>(1, std::abs(r)) / std::abs(x - r);
		real v = std::fabs(gain), total = 0;
		for (auto& r : p) v /= std::abs(x - r);
		real all = v;
		for (auto& r : z) all *= std::abs(x - r);
		total = all * rel;
		for (size_t i = 0; i < z.size(); ++i) {
			real one = v * std::max<real>(1, std::abs(z[i]));
			for (size_t j = 0; j < z.size(); ++j) if (j != i) one *= std::abs(x - z[j]);
			total += one;
		}
		return total;
	}
};

template <class T> static DiscreteZeroPoleGain<T> design(size_t order, const Proto& P, Band b, T f1, T f2, Rng& g) {
	const T rp = (T)P.rp, rs = (T)P.rs;
	const bool swapOrder = g.chance(0.5); // the order in which parameters are given does not matter
	switch (P.kind) {
		case Proto::BUTTERWORTH:
			switch (b) {
				case LOWPASS: return DesignFilter<T>(order, Iir.Lowpass.Butterworth.Cutoff(f1));
				case HIGHPASS: return DesignFilter<T>(order, Iir.Highpass.Butterworth.Cutoff(f1));
				case BANDPASS: return DesignFilter<T>(order, Iir.Bandpass.Butterworth.Band(f1, f2));
				default: return DesignFilter<T>(order, Iir.Bandstop.Butterworth.Band(f1, f2));
			}
		case Proto::CHEBYSHEV1:
			switch (b) {
				case LOWPASS: return swapOrder ? DesignFilter<T>(order, Iir.Lowpass.Chebyshev1.Cutoff(f1).PassbandRipple(rp)) : DesignFilter<T>(order, Iir.Lowpass.Chebyshev1.PassbandRipple(rp).Cutoff(f1));
				case HIGHPASS: return swapOrder ? DesignFilter<T>(order, Iir.Highpass.Chebyshev1.Cutoff(f1).PassbandRipple(rp)) : DesignFilter<T>(order, Iir.Highpass.Chebyshev1.PassbandRipple(rp).Cutoff(f1));
				case BANDPASS: return swapOrder ? DesignFilter<T>(order, Iir.Bandpass.Chebyshev1.Band(f1, f2).PassbandRipple(rp)) : DesignFilter<T>(order, Iir.Bandpass.Chebyshev1.PassbandRipple(rp).Band(f1, f2));
				default: return swapOrder ? DesignFilter<T>(order, Iir.Bandstop.Chebyshev1.Band(f1, f2).PassbandRipple(rp)) : DesignFilter<T>(order, Iir.Bandstop.Chebyshev1.PassbandRipple(rp).Band(f1, f2));
			}
		case Proto::CHEBYSHEV2:
			switch (b) {
				case LOWPASS: return swapOrder ? DesignFilter<T>(order, Iir.Lowpass.Chebyshev2.Cutoff(f1).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Lowpass.Chebyshev2.StopbandRipple(rs).Cutoff(f1));
				case HIGHPASS: return swapOrder ? DesignFilter<T>(order, Iir.Highpass.Chebyshev2.Cutoff(f1).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Highpass.Chebyshev2.StopbandRipple(rs).Cutoff(f1));
				case BANDPASS: return swapOrder ? DesignFilter<T>(order, Iir.Bandpass.Chebyshev2.Band(f1, f2).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Bandpass.Chebyshev2.StopbandRipple(rs).Band(f1, f2));
				default: return swapOrder ? DesignFilter<T>(order, Iir.Bandstop.Chebyshev2.Band(f1, f2).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Bandstop.Chebyshev2.StopbandRipple(rs).Band(f1, f2));
			}
		default:
			switch (b) {
				case LOWPASS: return swapOrder ? DesignFilter<T>(order, Iir.Lowpass.Elliptic.Cutoff(f1).PassbandRipple(rp).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Lowpass.Elliptic.StopbandRipple(rs).PassbandRipple(rp).Cutoff(f1));
				case HIGHPASS: return swapOrder ? DesignFilter<T>(order, Iir.Highpass.Elliptic.Cutoff(f1).PassbandRipple(rp).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Highpass.Elliptic.StopbandRipple(rs).PassbandRipple(rp).Cutoff(f1));
				case BANDPASS: return swapOrder ? DesignFilter<T>(order, Iir.Bandpass.Elliptic.Band(f1, f2).PassbandRipple(rp).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Bandpass.Elliptic.StopbandRipple(rs).PassbandRipple(rp).Band(f1, f2));
				default: return swapOrder ? DesignFilter<T>(order, Iir.Bandstop.Elliptic.Band(f1, f2).PassbandRipple(rp).StopbandRipple(rs)) : DesignFilter<T>(order, Iir.Bandstop.Elliptic.StopbandRipple(rs).PassbandRipple(rp).Band(f1, f2));
			}
	}
}
static const char* KIND[] = { "butterworth", "chebyshev1", "chebyshev2", "elliptic" };
static const char* BAND[] = { "lowpass", "highpass", "bandpass", "bandstop" };

template <class T> static void designs(Case& c, Proto::Kind kind) {
	auto& g = c.rng;
	const Band b = (Band)g.range(0, 3);
	const bool split = b == LOWPASS || b == HIGHPASS;
	const bool isFloat = sizeof(T) == 4;
	Proto P{ kind, kind != Proto::ELLIPTIC && g.chance(0.1) ? g.size(8, isFloat ? 12 : 26) : g.size(1, isFloat ? 6 : kind == Proto::ELLIPTIC ? 8 : 10) };
	if (kind == Proto::CHEBYSHEV1 || kind == Proto::ELLIPTIC) P.rp = (T)g.pick<double>({ g.uni(0.02, 0.4), 0.1, 0.05, 0.2 });
	if (kind == Proto::CHEBYSHEV2 || kind == Proto::ELLIPTIC) P.rs = (T)g.pick<double>({ g.uni(isFloat ? 0.02 : 0.005, 0.4), 0.1, 0.05, 0.2 });
	P.init();
	const size_t order = split ? P.n : 2 * P.n;
	T f1, f2 = 0;
	if (split) f1 = (T)g.pick<double>({ g.uni(0.05, 0.95), g.uni(0.2, 0.8), 0.5, 0.3, 0.25 });
	else {
		const double lo = g.uni(0.06, 0.75);
		f1 = (T)g.pick<double>({ lo, 0.25, 0.2, 0.3 });
		f2 = (T)g.pick<double>({ g.uni((double)f1 + 0.1, 0.94), 0.75, 0.6 });
		if (f2 < f1 + T(0.08)) f2 = (T)(0.5 * (f1 + 1));
	}
	c.p("t", tname<T>()).p("kind", KIND[kind]).p("band", BAND[b]).p("order", order).p("f1", f1).p("f2", f2).p("rp", P.rp).p("rs", P.rs);
	const auto zpk = design<T>(order, P, b, f1, f2, g);
	c.eq(zpk.poles.num_roots(), order, "pole-count");
	c.eq(zpk.zeros.num_roots(), order, "zero-count");
	c.eq(zpk.order(), order, "order");
	Sys s(zpk);
	real worst = 0;
	for (auto& p : s.p) {
		worst = std::max(worst, std::abs(p));
		c.ok(std::abs(p) < 1 && finite(p), "unstable", [&] { return "pole " + str(p) + " modulus " + str(std::abs(p)); });
	}
	c.ok(std::isfinite(s.gain), "gain-not-finite");
	std::vector<real> fs{ 0, 1, (real)f1 };
	if (!split) fs.push_back(f2);
	for (int i = 0; i < 24; ++i) fs.push_back(g.uni(0, 1));
	for (int i = 0; i < 6; ++i) fs.push_back(std::min<real>(1, std::max<real>(0, (real)(split || g.chance(0.5) ? f1 : f2) + g.uni(-0.02, 0.02))));
	// conditioning of the design itself: how close to the edges the bands lie
	const real cond = 1 / std::min<real>({ (real)f1, 1 - (split ? (real)f1 : (real)f2), split ? 1 : (real)(f2 - f1), 0.5L });
	for (real f : fs) {
		const cplx z = f == 1 ? cplx(-1, 0) : std::polar(1.0L, f * PI);
		real w = std::fabs(warped(b, f, f1, f2));
		if (f == 1) w = b == LOWPASS || b == BANDPASS ? std::numeric_limits<real>::infinity() : 0;
		if (f == 0) w = b == LOWPASS || b == BANDSTOP ? 0 : std::numeric_limits<real>::infinity();
		if (std::isnan(w)) continue;
		const real e = std::sqrt(P.power(w)), got = std::abs(s.at(z));
		const real tol = (40 * cond + (kind == Proto::ELLIPTIC ? 400 / std::max<real>(1 - P.k, 1e-6L) + 100 / (P.k * P.k) + 30 / P.k1sq() : 0)) * eps_v<T> * s.sensitivity(z) + 1e-300L;
		if (!c.near(got, e, tol, "magnitude", (long long)std::llround(f * 1000))) break;
	}
}

// Band transforms applied to any proper system: H'(z) = H(mapped z), also when there are fewer zeros than poles.
template <class T> static void transforms(Case& c) {
	auto& g = c.rng;
	const Band b = (Band)g.range(0, 3);
	DiscreteZeroPoleGain<T> sys;
	const size_t pr = g.size(0, 3), pc = g.size(pr ? 0 : 1, 3), zc = g.size(0, pc), zr = g.size(0, pr);
	sys.gain = (T)g.uni(0.2, 2) * (g.chance(0.3) ? -1 : 1);
	sys.poles.resize(pr, pc);
	sys.zeros.resize(zr, zc);
	auto fill = [&](auto& f, double m) {
		for (auto& r : f.real_roots()) r = (T)g.uni(-m, m);
		for (auto& r : f.complex_pairs()) r = std::polar((T)g.uni(0.1, m), (T)g.uni(0.2, 2.9));
	};
	fill(sys.poles, 0.9);
	fill(sys.zeros, 1.5);
	const bool split = b == LOWPASS || b == HIGHPASS;
	const T f1 = (T)(split ? g.uni(0.1, 0.9) : g.uni(0.1, 0.5)), f2 = (T)g.uni(f1 + 0.15, 0.92);
	c.p("t", tname<T>()).p("band", BAND[b]).p("zeros", zr).p("+2*", zc).p("poles", pr).p("+2*", pc).p("f1", f1).p("f2", split ? T(0) : f2);
	DiscreteZeroPoleGain<T> out;
	if (b == LOWPASS) out = Halfband2Lowpass(sys, f1);
	else if (b == HIGHPASS) out = Halfband2Highpass(sys, f1);
	else if (b == BANDPASS) out = Halfband2Bandpass(sys, f1, f2);
	else out = Halfband2Bandstop(sys, f1, f2);
	const size_t n = (split ? 1 : 2) * (pr + 2 * pc);
	c.eq(out.poles.num_roots(), n, "pole-count");
	c.eq(out.zeros.num_roots(), n, "zero-count");
	Sys s(sys), o(out);
	// with fewer zeros than poles, zeros are added where the mapping has its pole, which moves to infinity as the band approaches half the spectrum
	const real a0 = split ? std::cos(PI * f1) / (1 + std::sin(PI * f1)) : 1 + 2 / (-1 + std::tan(PI * ((real)f1 - f2) / 2));
	const real padCond = s.z.size() == s.p.size() ? 1 : 1 + (s.p.size() - s.z.size()) / std::fabs(a0) / 4;
	for (auto& p : o.p) c.ok(std::abs(p) < 1, "unstable");
	for (int i = 0; i < 12; ++i) {
		const real f = g.uni(0.02, 0.98), w = warped(b, f, f1, f2);
		const cplx z = std::polar(1.0L, f * PI), zo = cplx(1, w) / cplx(1, -w);
		const cplx e = s.at(zo);
		const real tol = 300 * padCond * eps_v<T> * (o.sensitivity(z) + s.sensitivity(zo));
		if (!c.near(o.at(z), e, tol, "mapped-response", (long long)std::llround(f * 1000))) break;
	}
}

template <class T> static void prototypes(Case& c) {
	auto& g = c.rng;
	Proto P{ (Proto::Kind)g.range(0, 3), g.size(1, sizeof(T) == 4 ? 6 : 10) };
	if (P.kind == Proto::CHEBYSHEV1 || P.kind == Proto::ELLIPTIC) P.rp = (T)g.uni(0.02, 0.4);
	if (P.kind == Proto::CHEBYSHEV2 || P.kind == Proto::ELLIPTIC) P.rs = (T)g.uni(0.02, 0.4);
	if (P.kind != Proto::ELLIPTIC && g.chance(0.2)) P.n = g.size(8, sizeof(T) == 4 ? 18 : 48);
	P.init();
	c.p("t", tname<T>()).p("kind", KIND[P.kind]).p("order", P.n).p("rp", P.rp).p("rs", P.rs);
	ContinuousZeroPoleGain<T> zpk;
	switch (P.kind) {
		case Proto::BUTTERWORTH: zpk = Butterworth<T>(P.n); break;
		case Proto::CHEBYSHEV1: zpk = Chebyshev1<T>(P.n, (T)P.rp); break;
		case Proto::CHEBYSHEV2: zpk = Chebyshev2<T>(P.n, (T)P.rs); break;
		default: zpk = Elliptic<T>(P.n, (T)P.rp, (T)P.rs);
	}
	c.eq(zpk.poles.num_roots(), P.n, "pole-count");
	Sys s(zpk);
	for (auto& p : s.p) c.ok(p.real() < 0, "unstable", [&] { return str(p); });
	for (int i = 0; i < 20; ++i) {
		const real w = i == 0 ? 0 : i == 1 ? 1 : i < 10 ? g.uni(0, 1.2) : g.uni(0, 6);
		const real tol = (40 + (P.kind == Proto::ELLIPTIC ? 400 / std::max<real>(1 - P.k, 1e-6L) + 100 / (P.k * P.k) + 30 / P.k1sq() : 0)) * eps_v<T> * s.sensitivity(cplx(0, w)) + 1e-300L;
		if (!c.near(std::abs(s.at(cplx(0, w))), std::sqrt(P.power(w)), tol, "magnitude", i)) break;
	}
}

#define KINDS(name, k) \
	FAMILY(name, 5000, 250000) { c.rng.chance(0.35) ? designs<float>(c, k) : designs<double>(c, k); }
#if VH_PART == 1
KINDS(butterworth, Proto::BUTTERWORTH)
KINDS(chebyshev1, Proto::CHEBYSHEV1)
FAMILY(band_transforms, 6000, 300000) { c.rng.chance(0.3) ? transforms<float>(c) : transforms<double>(c); }
#else
KINDS(chebyshev2, Proto::CHEBYSHEV2)
KINDS(elliptic, Proto::ELLIPTIC)
FAMILY(analog_prototypes, 5000, 250000) { c.rng.chance(0.3) ? prototypes<float>(c) : prototypes<double>(c); }
#endif
