// Transforms against the defining sums; inverses; symmetry; shifts; bin/frequency conversions.
#include "convref.hpp"
#include <algorithm>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;

static const std::vector<cplx>& roots(size_t n) { // exp(-2 pi i k / n)
	static std::map<size_t, std::vector<cplx>> cache;
	auto& v = cache[n];
	if (v.empty()) {
		const real pi = std::acos(-1.0L);
		for (size_t k = 0; k < n; ++k) v.emplace_back(std::cos(2 * pi * k / n), -std::sin(2 * pi * k / n));
	}
	return v;
}
template <class X> static cplx dftBin(const X* x, size_t n, size_t k, bool inverse = false) {
	const auto& w = roots(n);
	cplx s = 0;
	for (size_t i = 0; i < n; ++i) {
		const cplx t = w[(unsigned long long)i * k % n];
		s += cplx(wide(x[i])) * (inverse ? std::conj(t) : t);
	}
	return s;
}
static size_t anyLength(Case& c) {
	auto& g = c.rng;
	if (c.index < 256) return c.index + 1; // every small length
	switch (g.range(0, 4)) {
		case 0: return g.size(1, 130);
		case 1: return g.size(1, 500);
		case 2: return (size_t)1 << g.size(0, 11);
		case 3: { size_t n = 1; while (n < 300) { size_t q = g.pick<size_t>({ 2, 3, 4, 5, 7, 8, 11, 13 }); if (n * q > 2500) break; n *= q; if (g.chance(0.2)) break; } return n; }
		default: return g.pick<size_t>({ 97, 101, 127, 131, 251, 257, 509, 521, 997, 1009, 2003, 2017, 1006, 1994 });
	}
}
template <class T> static real tolFor(size_t n, real norm) { return 10 * eps_v<T> * (2 + std::log2((real)n)) * norm + 1e-300L; }
template <class V> static real norm2(const V& v) { real s = 0; for (auto& x : v) s += mag(wide(x)) * mag(wide(x)); return std::sqrt(s); }
static std::vector<size_t> bins(Rng& g, size_t n) {
	std::vector<size_t> r;
	if (n <= 300) for (size_t i = 0; i < n; ++i) r.push_back(i);
	else {
		r = { 0, 1, n / 2, (n + 1) / 2, n - 1, n / 2 + 1 };
		for (int i = 0; i < 60; ++i) r.push_back(g.size(0, n - 1));
	}
	return r;
}
template <class X> static void content(Rng& g, Buf<X>& x, int kind) {
	fillSig(g, x, kind == 1);
	if (kind == 2 && x.size()) { std::fill(x.begin(), x.end(), X(0)); x[g.size(0, x.size() - 1)] = X(1); }
	if (kind == 3) for (size_t i = 0; i < x.size(); ++i) x[i] *= (real_of_t<X>)std::pow(10.0, g.uni(-3, 3));
}

template <class T> static void realFft(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	const size_t n = anyLength(c), half = n / 2 + 1;
	const int kind = (int)g.range(0, 3);
	const bool valueForm = g.chance(0.3);
	c.p("t", tname<T>()).p("n", n).p("kind", kind).p("value", valueForm);
	Buf<T> x(n, g.size(0, 7)), back(n, g.size(0, 7)), back2(n, g.size(0, 7));
	content(g, x, kind);
	const std::vector<T> keep(x.begin(), x.end());
	Buf<C> H(half, g.size(0, 5)), F(n, g.size(0, 5));
	SignalView<const T> vx(x.begin(), x.end());
	SpectrumView<C> vH(H.begin(), H.end()), vF(F.begin(), F.end());
	if (valueForm) {
		auto h = Fft(vx, FFT_HALF);
		auto f = Fft(Signal<T>(x.begin(), x.end()), FFT_FULL);
		c.eq(h.size(), half, "half-size");
		c.eq(f.size(), n, "full-size");
		std::copy_n(h.begin(), half, H.begin());
		std::copy_n(f.begin(), n, F.begin());
	}
	else {
		Fft(vH, vx);
		Fft(vF, vx);
	}
	const real nx = norm2(x), tol = tolFor<T>(n, nx);
	for (size_t k : bins(g, n)) {
		const cplx e = dftBin(x.data(), n, k);
		if (k < half && !c.near(H[k], e, tol, "half-spectrum", k)) break;
		if (!c.near(F[k], e, tol, "full-spectrum", k)) break;
	}
	for (size_t k = 0; k < n; ++k) {
		// agreement of the two spectra and conjugate symmetry hold to the last bit only up to the choice of algorithm: use the rounding bound
		const C m = k < half ? H[k] : std::conj(H[n - k]);
		if (!c.near(F[k], wide(m), tol, "symmetry", k)) break;
	}
	// inverse, from both spectra
	const real itol = 2 * tol / std::sqrt((real)n) + eps_v<T> * nx * 4;
	if (valueForm) {
		auto b = Ifft(SpectrumView<const C>(H.begin(), H.end()), FFT_HALF, n % 2 == 0);
		c.eq(b.size(), n, "inverse-size");
		if (b.size() == n) std::copy_n(b.begin(), n, back.begin());
		auto b2 = Ifft(Spectrum<C>(F.begin(), F.end()), FFT_FULL);
		c.eq(b2.size(), n, "inverse-size");
		if (b2.size() == n) std::copy_n(b2.begin(), n, back2.begin());
	}
	else {
		Ifft(SignalView<T>(back.begin(), back.end()), SpectrumView<const C>(H.begin(), H.end()));
		Ifft(SignalView<T>(back2.begin(), back2.end()), SpectrumView<const C>(F.begin(), F.end()));
	}
	for (size_t i = 0; i < n; ++i) {
		if (!c.near(back[i], wide(keep[i]), itol, "inverse-half", i)) break;
		if (!c.near(back2[i], wide(keep[i]), itol, "inverse-full", i)) break;
	}
	c.ok(x.intact() && H.intact() && F.intact() && back.intact() && back2.intact(), "wrote-outside");
	c.ok(!std::memcmp(keep.data(), x.data(), n * sizeof(T)), "input-changed");
}

template <class T> static void cplxFft(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	const size_t n = anyLength(c);
	const int kind = (int)g.range(0, 3);
	const bool valueForm = g.chance(0.3);
	c.p("t", tname<C>()).p("n", n).p("kind", kind).p("value", valueForm);
	Buf<C> x(n, g.size(0, 5)), F(n, g.size(0, 5)), back(n, g.size(0, 5));
	content(g, x, kind);
	const std::vector<C> keep(x.begin(), x.end());
	if (valueForm) {
		auto f = Fft(SignalView<const C>(x.begin(), x.end()));
		c.eq(f.size(), n, "size");
		std::copy_n(f.begin(), n, F.begin());
		auto b = Ifft(f);
		c.eq(b.size(), n, "inverse-size");
		std::copy_n(b.begin(), n, back.begin());
	}
	else {
		Fft(SpectrumView<C>(F.begin(), F.end()), SignalView<const C>(x.begin(), x.end()));
		Ifft(SignalView<C>(back.begin(), back.end()), SpectrumView<const C>(F.begin(), F.end()));
	}
	const real nx = norm2(x), tol = tolFor<T>(n, nx);
	for (size_t k : bins(g, n)) if (!c.near(F[k], dftBin(x.data(), n, k), tol, "spectrum", k)) break;
	const real itol = 2 * tol / std::sqrt((real)n) + eps_v<T> * nx * 4;
	for (size_t i = 0; i < n; ++i) if (!c.near(back[i], wide(keep[i]), itol, "inverse", i)) break;
	c.ok(x.intact() && F.intact() && back.intact(), "wrote-outside");
	c.ok(!std::memcmp(keep.data(), x.data(), n * sizeof(C)), "input-changed");
	// the inverse of an arbitrary spectrum is the inverse sum
	Buf<C> s(n, 1), y(n, 2);
	content(g, s, kind);
	Ifft(SignalView<C>(y.begin(), y.end()), SpectrumView<const C>(s.begin(), s.end()));
	const real ny = norm2(s);
	for (size_t k : bins(g, n)) if (!c.near(y[k], dftBin(s.data(), n, k, true) / (real)n, tolFor<T>(n, ny) / n + eps_v<T> * ny / n, "inverse-sum", k)) break;
}

// Transforms far beyond the usual lengths: some bins by the defining sum, all samples by the round trip.
template <class X> static cplx longBin(const X* x, size_t n, size_t k) {
	const real pi = std::acos(-1.0L);
	cplx s = 0;
	for (size_t base = 0; base < n; base += 64) { // exact twiddle at every 64th term, extended-precision recurrence between
		const unsigned long long e = (unsigned __int128)base * k % n;
		cplx w(std::cos(2 * pi * e / n), -std::sin(2 * pi * e / n));
		const cplx step(std::cos(2 * pi * k / n), -std::sin(2 * pi * k / n));
		for (size_t i = base; i < std::min(n, base + 64); ++i) s += cplx(wide(x[i])) * w, w *= step;
	}
	return s;
}
template <class T, bool Cplx> static void longFft(Case& c) {
	auto& g = c.rng;
	using C = std::complex<T>;
	using X = std::conditional_t<Cplx, C, T>;
	size_t n;
	switch (g.range(0, 3)) {
		case 0: n = (size_t)1 << g.size(12, 18); break;
		case 1: n = 1; while (n < 3000) n *= g.pick<size_t>({ 2, 3, 4, 5, 7, 9, 11, 13, 17, 19, 23 }); n *= g.size(1, 40); break;
		case 2: n = g.pick<size_t>({ 4099, 8209, 16411, 32771, 65537, 65539, 131101, 2 * 10007, 3 * 20011, 4 * 9973 }); break; // primes and small multiples
		default: n = (size_t)std::exp(g.uni(std::log(2500.0), std::log(200000.0)));
	}
	const int kind = (int)g.range(0, 3);
	c.p("t", tname<X>()).p("n", n).p("kind", kind);
	Buf<X> x(n, g.size(0, 5)), back(n, g.size(0, 5));
	content(g, x, kind);
	Buf<C> F(Cplx ? n : n / 2 + 1, g.size(0, 5));
	Fft(SpectrumView<C>(F.begin(), F.end()), SignalView<const X>(x.begin(), x.end()));
	// rounding errors scale with the norm, and with the largest value where the energy is concentrated
	const real nx = norm2(x), lg = eps_v<T> * (2 + std::log2((real)n));
	real peakF = 0, peakX = 0;
	for (auto& v : F) peakF = std::max(peakF, mag(wide(v)));
	for (auto& v : x) peakX = std::max(peakX, mag(wide(v)));
	peakF = std::min(peakF, std::sqrt((real)n) * nx);
	const real tol = tolFor<T>(n, nx) + lg * peakF;
	std::vector<size_t> ks{ 0, F.size() - 1, 1 };
	for (int i = 0; i < 5; ++i) ks.push_back(g.size(0, F.size() - 1));
	for (size_t k : ks) if (!c.near(F[k], longBin(x.data(), n, k), tol, "long-spectrum", (long long)k)) break;
	Ifft(SignalView<X>(back.begin(), back.end()), SpectrumView<const C>(F.begin(), F.end()));
	const real itol = 2 * tol / std::sqrt((real)n) + lg * peakX + 1e-300L;
	for (size_t i = 0; i < n; ++i) if (!c.near(back[i], wide(x[i]), itol, "long-inverse", (long long)i)) break;
	// energy is spread over all bins: no bin may be wrong without it showing
	real es = 0;
	for (size_t k = 0; k < F.size(); ++k) es += (real)std::norm(cplx(F[k])) * (Cplx || k == 0 || 2 * k == n ? 1 : 2);
	c.near(es / n, nx * nx, 20 * lg * nx * nx, "long-energy");
	c.ok(x.intact() && F.intact() && back.intact(), "wrote-outside");
}
FAMILY(fft_long, 80, 1600) {
	switch (c.index % 4) {
		case 0: return longFft<float, false>(c);
		case 1: return longFft<double, false>(c);
		case 2: return longFft<float, true>(c);
		default: return longFft<double, true>(c);
	}
}

// Shifts: pure permutations, hence exact.
template <class T, eSignalDomain D> static void shift(Case& c) {
	auto& g = c.rng;
	const size_t n = c.index < 64 ? c.index : g.chance(0.1) ? g.size(400, 9000) : g.len(0, 400);
	const bool value = g.chance(0.3), inPlace = !value && g.chance(0.4), ownSignal = g.chance(0.5);
	c.p("t", tname<T>()).p("n", n).p("value", value).p("inplace", inPlace).p("signal", ownSignal);
	if (!n) c.trivial();
	std::vector<T> x(n);
	for (auto& v : x) v = rnd<T>(g, -100, 100);
	auto apply = [&](const std::vector<T>& in, bool inverse) {
		std::vector<T> out;
		if (value) {
			BasicSignal<T, D> s(in.begin(), in.end());
			auto r = inverse ? IfftShift(s) : FftShift(s);
			out.assign(r.begin(), r.end());
		}
		else if (inPlace) {
			if (ownSignal) {
				BasicSignal<T, D> s(in.begin(), in.end());
				inverse ? IfftShift(s, s) : FftShift(s, s);
				out.assign(s.begin(), s.end());
			}
			else {
				Buf<T> b(n, g.size(0, 5));
				std::copy(in.begin(), in.end(), b.begin());
				BasicSignalView<T, D> v(b.begin(), b.end());
				BasicSignalView<const T, D> cv(b.begin(), b.end());
				if (inverse) IfftShift(v, cv); else FftShift(v, cv);
				c.ok(b.intact(), "wrote-outside");
				out.assign(b.begin(), b.end());
			}
		}
		else {
			Buf<T> b(n, g.size(0, 5)), i(n, g.size(0, 5));
			std::copy(in.begin(), in.end(), i.begin());
			BasicSignalView<T, D> v(b.begin(), b.end());
			BasicSignalView<const T, D> cv(i.begin(), i.end());
			if (inverse) IfftShift(v, cv); else FftShift(v, cv);
			c.ok(b.intact() && i.intact(), "wrote-outside");
			c.ok(std::equal(in.begin(), in.end(), i.begin()), "input-changed");
			out.assign(b.begin(), b.end());
		}
		return out;
	};
	const auto f = apply(x, false), i = apply(x, true);
	c.eq(f.size(), n, "size");
	c.eq(i.size(), n, "size");
	// bin zero goes to the middle: index floor(n/2), neighbours keep their circular order
	for (size_t k = 0; k < n; ++k) if (!c.eq(f[(k + n / 2) % n], x[k], "fftshift", k)) break;
	for (size_t k = 0; k < n; ++k) if (!c.eq(i[k], x[(k + n / 2) % n], "ifftshift", k)) break;
	c.ok(apply(f, true) == x, "ifftshift-of-fftshift");
	c.ok(apply(i, false) == x, "fftshift-of-ifftshift");
}

FAMILY(fft_real, 2600, 120000) { c.index % 2 ? realFft<float>(c) : realFft<double>(c); }
FAMILY(fft_real_small, 512, 4096) { c.index >= 256 ? (c.index -= 256, realFft<float>(c)) : realFft<double>(c); }
FAMILY(fft_complex, 1600, 90000) { c.index % 2 ? cplxFft<float>(c) : cplxFft<double>(c); }
FAMILY(fft_complex_small, 512, 4096) { c.index >= 256 ? (c.index -= 256, cplxFft<float>(c)) : cplxFft<double>(c); }
FAMILY(shifts, 4000, 200000) {
	switch (c.rng.range(0, 2)) {
		case 0: return shift<double, FREQUENCY_DOMAIN>(c);
		case 1: return shift<std::complex<float>, FREQUENCY_DOMAIN>(c);
		default: return shift<float, TIME_DOMAIN>(c);
	}
}
FAMILY(bin_frequency, 4000, 200000) {
	auto& g = c.rng;
	// bin counts from one up to far more than fit in a single-precision mantissa
	const size_t n = g.chance(0.6) ? g.len(1, 100000) : (size_t)std::exp2(g.uni(16, 36)) + g.size(0, 3);
	const uint64_t fs = g.pick<uint64_t>({ 1, 2, 3, 7, 44100, 48000, 96000, 44101, 1000003, 20000000, 3000000019ull });
	c.p("n", n).p("fs", fs);
	for (int i = 0; i < 40; ++i) {
		const size_t k = i == 0 ? 0 : i == 1 ? n - 1 : g.size(0, n - 1);
		const double f = FourierBin2Frequency(k, n, fs);
		if (!c.near(f, (real)k * fs / n, 4e-16L * fs, "bin-to-frequency")) break;
		if (!c.eq(FourierFrequency2Bin(f, n, fs), k, "frequency-to-bin")) break;
		// nearest bin for frequencies strictly within the cell of a bin
		const double off = g.uni(-0.49, 0.49);
		const double f2 = (k + off) * (double)fs / n;
		if (f2 >= 0 && !c.eq(FourierFrequency2Bin(f2, n, fs), k, "nearest-bin")) break;
	}
}
