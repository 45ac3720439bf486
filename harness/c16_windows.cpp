// Window functions against their formulas, symmetry, forms of invocation, and the window measures.
#include "vh.hpp"
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
static const real PI = 3.14159265358979323846264338327950288L;

enum Win { HAMMING, FLATTOP, RECT, TRI, BLACKMAN, BHARRIS, GAUSS, KAISER, LANCZOS, CHEB };
static const char* NAME[] = { "hamming", "flattop", "rectangular", "triangular", "blackman", "blackman-harris", "gaussian", "kaiser", "lanczos", "dolph-chebyshev" };

static real besselI0(real x) {
	real term = 1, sum = 1;
	for (int k = 1; k < 2000; ++k) {
		term *= (x / 2 / k) * (x / 2 / k);
		sum += term;
		if (term < sum * 1e-22L) break;
	}
	return sum;
}
// t runs over [-1,1]; value of the window there.
static real formula(Win w, real t, real p) {
	auto cosN = [&](int n) { return std::cos(n * PI * (t + 1)); };
	switch (w) {
		case HAMMING: return 0.54L - 0.46L * cosN(1);
		case FLATTOP: return 0.21557895L - 0.41663158L * cosN(1) + 0.277263158L * cosN(2) - 0.083578947L * cosN(3) + 0.006947368L * cosN(4);
		case RECT: return 1;
		case TRI: return 1 - std::fabs(t);
		case BLACKMAN: return 0.42L - 0.5L * cosN(1) + 0.08L * cosN(2);
		case BHARRIS: return 0.35875L - 0.48829L * cosN(1) + 0.14128L * cosN(2) - 0.01168L * cosN(3);
		case GAUSS: return std::exp(-0.5L * (t / p) * (t / p));
		case KAISER: return besselI0(PI * p * std::sqrt(std::max<real>(0, 1 - t * t))) / besselI0(PI * p);
		case LANCZOS: return t == 0 ? 1 : std::sin(PI * t) / (PI * t);
		default: return 0;
	}
}
// what one unit of relative rounding per elementary step can change
static real scaleOf(Win w) {
	switch (w) {
		case FLATTOP: return 4;
		default: return 1;
	}
}
// Dolph-Chebyshev: inverse DFT of T_{N-1}(beta cos(pi k/N)), evaluated symmetrically about the centre, peak normalised to one.
static std::vector<real> chebyshev(size_t N, real atten, real& cond) {
	const size_t M = N - 1;
	const real beta = std::cosh(std::acosh(1 / atten) / (real)M);
	auto cheb = [&](real x) -> real {
		if (x < -1) return (M % 2 ? -1 : 1) * std::cosh((real)M * std::acosh(-x));
		if (x <= 1) return std::cos((real)M * std::acos(x));
		return std::cosh((real)M * std::acosh(x));
	};
	std::vector<real> amp(N), w(N);
	real sum = 0;
	for (size_t k = 0; k < N; ++k) { amp[k] = cheb(beta * std::cos(PI * (real)k / (real)N)); sum += std::fabs(amp[k]); }
	real peak = 0;
	for (size_t i = 0; i < N; ++i) {
		const real d = (real)i - (real)M / 2;
		real v = 0;
		for (size_t k = 0; k < N; ++k) v += amp[k] * std::cos(2 * PI * (real)k * d / (real)N);
		w[i] = v;
		peak = std::max(peak, std::fabs(v));
	}
	// amplitudes move by eps*M*(slope of the polynomial) when beta is off by a rounding
	const real slope = (real)M * (real)M;
	(void)slope;
	cond = sum / peak * (1 + std::acosh(1 / atten));
	for (auto& v : w) v /= peak;
	return w;
}

template <class T, eSignalDomain D, class V> static void fillOf(Win w, V&& out, double p, bool viaObject) {
	using R = real_of_t<T>;
	if (viaObject) switch (w) {
		case HAMMING: windows::hamming(out); return;
		case FLATTOP: windows::flattop(out); return;
		case RECT: windows::rectangular(out); return;
		case TRI: windows::triangular(out); return;
		case BLACKMAN: windows::blackman(out); return;
		case BHARRIS: windows::blackmanHarris(out); return;
		case GAUSS: windows::gaussian.sigma(R(p))(out); return;
		case KAISER: windows::kaiser.alpha(R(p))(out); return;
		case LANCZOS: windows::lanczos(out); return;
		default: if constexpr (D == TIME_DOMAIN) windows::dolphChebyshev.attenuation(R(p))(out); return;
	}
	switch (w) {
		case HAMMING: HammingWindow(out); return;
		case FLATTOP: FlatTopWindow(out); return;
		case RECT: RectangularWindow(out); return;
		case TRI: TriangularWindow(out); return;
		case BLACKMAN: BlackmanWindow(out); return;
		case BHARRIS: BlackmanHarrisWindow(out); return;
		case GAUSS: GaussianWindow(out, R(p)); return;
		case KAISER: KaiserWindow(out, R(p)); return;
		case LANCZOS: LanczosWindow(out); return;
		default: if constexpr (D == TIME_DOMAIN) DolphChebyshevWindow(out, R(p)); return;
	}
}
template <class T, eSignalDomain D> static BasicSignal<T, D> makeOf(Win w, size_t n, double p, bool viaObject) {
	using R = real_of_t<T>;
	if (viaObject) switch (w) {
		case HAMMING: return windows::hamming.template operator()<T, D>(n);
		case FLATTOP: return windows::flattop.template operator()<T, D>(n);
		case RECT: return windows::rectangular.template operator()<T, D>(n);
		case TRI: return windows::triangular.template operator()<T, D>(n);
		case BLACKMAN: return windows::blackman.template operator()<T, D>(n);
		case BHARRIS: return windows::blackmanHarris.template operator()<T, D>(n);
		case GAUSS: if constexpr (!is_cplx<T>::value) return windows::gaussian.sigma(R(p)).template operator()<T, D>(n);
		case KAISER: if constexpr (!is_cplx<T>::value) return windows::kaiser.alpha(R(p)).template operator()<T, D>(n);
		case LANCZOS: return windows::lanczos.template operator()<T, D>(n);
		default: if constexpr (!is_cplx<T>::value && D == TIME_DOMAIN) return windows::dolphChebyshev.attenuation(R(p)).template operator()<T, D>(n);
	}
	switch (w) {
		case HAMMING: return HammingWindow<T, D>(n);
		case FLATTOP: return FlatTopWindow<T, D>(n);
		case RECT: return RectangularWindow<T, D>(n);
		case TRI: return TriangularWindow<T, D>(n);
		case BLACKMAN: return BlackmanWindow<T, D>(n);
		case BHARRIS: return BlackmanHarrisWindow<T, D>(n);
		case GAUSS: if constexpr (!is_cplx<T>::value) return GaussianWindow<T, D>(n, R(p));
		case KAISER: if constexpr (!is_cplx<T>::value) return KaiserWindow<T, D>(n, R(p));
		case LANCZOS: return LanczosWindow<T, D>(n);
		default: if constexpr (!is_cplx<T>::value && D == TIME_DOMAIN) return DolphChebyshevWindow<T, D>(n, R(p));
	}
	return {};
}

template <class T, eSignalDomain D> static void window(Case& c) {
	auto& g = c.rng;
	using R = real_of_t<T>;
	const Win w = (Win)g.range(0, D != TIME_DOMAIN ? LANCZOS : CHEB);
	const size_t n = g.chance(0.05) ? 1 : w == CHEB ? g.len(2, 160) : g.longer(g.len(2, 500), 9000, 0.01);
	double p = 1;
	if (w == GAUSS) p = (double)(R)g.uni(0.15, 3);
	if (w == KAISER) p = (double)(R)(g.chance(0.1) ? 0 : g.uni(0, 8));
	if (w == CHEB) p = (double)(R)std::exp(g.uni(std::log(sizeof(R) == 4 ? 3e-4 : 1e-7), std::log(0.5)));
	const bool obj = g.chance(0.5);
	c.p("window", NAME[w]).p("type", tname<T>()).p("n", n).p("param", p).p("object", obj);
	Buf<T> out(n, g.size(0, 5));
	out.fill((unsigned char)g.next());
	BasicSignalView<T, D> v(out.data(), out.data() + n);
	fillOf<T, D>(w, v, p, obj);
	c.ok(out.intact(), "stray-write");
	BasicSignal<T, D> sig(n, T(R(7)));
	fillOf<T, D>(w, sig, p, !obj);
	const bool hasMake = !(is_cplx<T>::value && (w == GAUSS || w == KAISER || w == CHEB));
	BasicSignal<T, D> made = hasMake ? makeOf<T, D>(w, n, p, g.chance(0.5)) : sig;
	c.eq(made.size(), n, "length");
	c.eq(sig.size(), n, "length");
	const real E = eps_v<T>;
	real cond = 1;
	std::vector<real> ref(n), tol(n);
	if (n == 1) { // the formulas leave open what a single sample is; it is finite and the same in every form
		ref[0] = mag(wide(out[0]));
		c.ok(std::isfinite(ref[0]) && ref[0] <= 1 + 8 * E, "single-sample-window", [&] { return str(wide(out[0])); });
		ref[0] = std::real(cplx(wide(out[0])));
		tol[0] = 2 * E;
	}
	else if (w == CHEB) {
		ref = chebyshev(n, p, cond);
		for (size_t i = 0; i < n; ++i) tol[i] = E * (32 + 8 * (real)n) * (1 + cond);
	}
	else for (size_t i = 0; i < n; ++i) {
		const real t = 2 * (real)i / (real)(n - 1) - 1;
		ref[i] = formula(w, t, p);
		const real dt = 6 * E; // what rounding makes of the abscissa
		const real move = std::max(std::fabs(formula(w, std::min<real>(1, t + dt), p) - ref[i]), std::fabs(formula(w, std::max<real>(-1, t - dt), p) - ref[i]));
		real cnd = 1;
		if (w == KAISER) cnd = 2 * (2 + PI * p);                       // exp-like growth of both Bessel values, and their quotient
		if (w == GAUSS) cnd = 1 + 2 * (t / p) * (t / p);
		tol[i] = 2 * move + E * 4 * scaleOf(w) * cnd * (w == KAISER || w == GAUSS ? std::fabs(ref[i]) + (real)std::numeric_limits<R>::min() : 1);
	}
	for (size_t i = 0; i < n; ++i) {
		if constexpr (is_cplx<T>::value) {
			c.near(out[i].real(), ref[i], tol[i], NAME[w], (long long)i);
			c.near(out[i].imag(), (real)0, 0, "imaginary-part", (long long)i);
		}
		else c.near(out[i], ref[i], tol[i], NAME[w], (long long)i);
		c.near(sig[i], wide(out[i]), 2 * tol[i], "forms-disagree", (long long)i);
		c.near(made[i], wide(out[i]), 2 * tol[i], "forms-disagree", (long long)i);
		c.near(out[i], wide(out[n - 1 - i]), 2 * tol[i], "symmetry", (long long)i);
	}
	// measures
	const auto cg = CoherentGain(made);
	const auto eg = EnergyGain(made);
	const auto cgv = CoherentGain(AsConstView(made));
	real mean = 0, square = 0, absSum = 0;
	for (size_t i = 0; i < n; ++i) {
		if constexpr (is_cplx<T>::value) mean += made[i].real();
		else mean += made[i];
		square += mag(wide(made[i])) * mag(wide(made[i]));
		absSum += mag(wide(made[i]));
	}
	const real m = (real)n;
	c.near(cg, mean / m, E * (m + 8) * absSum / m, "coherent-gain");
	c.near(cgv, mean / m, E * (m + 8) * absSum / m, "coherent-gain");
	c.near(eg, square / m, E * (m + 8) * square / m, "energy-gain");
	c.note("coherent", wide(cg)).note("energy", wide(eg));
}
FAMILY(window_values, 2000, 60000) {
	switch (c.rng.range(0, 5)) {
		case 0: return window<float, TIME_DOMAIN>(c);
		case 1: return window<double, TIME_DOMAIN>(c);
		case 2: return window<std::complex<float>, TIME_DOMAIN>(c);
		case 3: return window<std::complex<double>, TIME_DOMAIN>(c);
		case 4: return window<float, FREQUENCY_DOMAIN>(c);
		default: return window<double, FREQUENCY_DOMAIN>(c);
	}
}

// The Dolph-Chebyshev window delivers the side-lobe level asked for, over its whole spectrum.
template <class T> static void sidelobes(Case& c) {
	auto& g = c.rng;
	const size_t n = g.size(5, 100);
	const double att = std::exp(g.uni(std::log(sizeof(T) == 4 ? 1e-3 : 1e-6), std::log(0.3)));
	c.p("type", tname<T>()).p("n", n).p("attenuation", att);
	const auto w = DolphChebyshevWindow<T, TIME_DOMAIN>(n, (T)att);
	real dc = 0;
	for (auto& v : w) dc += v;
	const real beta = std::cosh(std::acosh(1 / (real)(T)att) / (real)(n - 1));
	const real edge = 2 * std::acos(1 / beta); // main lobe ends here
	real worst = 0;
	for (int i = 0; i <= 400; ++i) {
		const real om = edge + (PI - edge) * i / 400;
		cplx s = 0;
		for (size_t k = 0; k < n; ++k) s += (real)w[k] * std::polar<real>(1, om * (real)k);
		worst = std::max(worst, std::abs(s) / dc);
	}
	const real noise = eps_v<T> * (8 + 2 * n) * 8;
	c.ok(worst <= (real)(T)att * (1 + 1e-3L) + noise, "sidelobes-too-high", [&] { return "side lobe " + str(worst) + " asked " + str((real)att); });
	c.ok(worst >= (real)(T)att * 0.98L - noise || n < 8, "sidelobes-too-low", [&] { return "side lobe " + str(worst) + " asked " + str((real)att); });
	c.note("worst-sidelobe", worst);
}
FAMILY(chebyshev_sidelobes, 200, 4000) { c.rng.chance(0.5) ? sidelobes<float>(c) : sidelobes<double>(c); }
