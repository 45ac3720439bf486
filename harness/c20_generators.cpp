// Waveforms, chirps and spaces against their closed forms at every sample index.
#include "vh.hpp"
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
static const real PI2 = 2 * 3.14159265358979323846264338327950288L;
static const double ED = 0x1p-52;

template <class T> static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> static auto re(const T& v) { if constexpr (is_cplx<T>::value) return v.real(); else return v; }
template <class T> static auto im(const T& v) { if constexpr (is_cplx<T>::value) return v.imag(); else return T(0); }

enum Wave { SINE, SAW, PWM, SQUARE };
static const char* WAVE[] = { "sine", "sawtooth", "pwm", "square" };

// The one or two values a wave may have at a phase known only up to +-d cycles.
struct Expect { real lo, hi, tol; };
static Expect expected(Wave w, real cycles, real d, real param) {
	const real u = cycles - std::floor(cycles);
	const bool wrap = u < d || u > 1 - d;
	if (w == SINE) { const real v = std::sin(PI2 * u); return { v, v, PI2 * d }; }
	if (w == SAW) {
		auto f = [&](real x) { return x <= param ? (param > 0 ? 2 * x / param - 1 : (real)1) : 1 - 2 * (x - param) / (1 - param); };
		const real slope = 2 / std::min(param > 0 ? param : 1, param < 1 ? 1 - param : 1);
		const real tol = slope * d;
		if (wrap && param == 1) return { -1, 1, tol };  // jump between the top of one ramp and the bottom of the next
		if (wrap && param == 0) return { -1, 1, tol };
		const real v = f(u);
		return { v, v, 2 * tol };
	}
	const real hi = 1, lo = w == PWM ? 0 : -1;
	const real fill = w == PWM ? param : 0.5L;
	if (fill >= 1) return { hi, hi, 0 };
	if (fill <= 0) return { lo, lo, 0 };
	if (wrap || std::fabs(u - fill) < d) return { lo, hi, 0 };
	const real v = u < fill ? hi : lo;
	return { v, v, 0 };
}

template <class T, eSignalDomain D> static void wave(Case& c) {
	auto& g = c.rng;
	const Wave w = (Wave)g.range(0, 3);
	const bool chirp = g.chance(0.45);
	const size_t n = g.longer(g.len(0, 400), 60000);
	const uint64_t fs = g.chance(0.5) ? g.pick<uint64_t>({ 1, 2, 8, 44100, 48000, 8000, 100 }) : (uint64_t)g.range(1, 100000);
	auto freq = [&]() -> double {
		switch (g.range(0, 6)) {
			case 0: return (double)fs / 4;
			case 1: return (double)fs / 16;
			case 2: return 0;
			case 3: return -g.uni(0, 0.6) * (double)fs;
			case 4: return g.uni(0, 3) * (double)fs;
			default: return g.uni(0, 0.5) * (double)fs;
		}
	};
	const double f0 = freq(), f1 = freq();
	const double phase = g.chance(0.3) ? 0 : g.chance(0.3) ? g.pick<double>({ M_PI / 2, -M_PI / 2, M_PI, -M_PI, 2 * M_PI, -2 * M_PI }) : g.uni(-40, 40);
	const double param = w == SQUARE || w == SINE ? 0.5 : g.chance(0.4) ? g.pick<double>({ 0.0, 1.0, 0.5, 0.25 }) : g.uni(0.02, 0.98);
	const bool defaults = g.chance(0.15);
	const double ph = defaults ? 0 : phase;
	const double pr = defaults ? (w == SAW ? 1.0 : 0.5) : param;
	c.p("wave", WAVE[w]).p("chirp", chirp).p("type", tname<T>()).p("n", n).p("fs", fs).p("f0", f0).p("f1", f1).p("phase", ph).p("param", pr);
	if (n == 0) c.trivial();
	Buf<T> out(n, g.size(0, 5));
	out.fill((unsigned char)g.next());
	BasicSignalView<T, D> v(out.data(), out.data() + n);
	BasicSignal<T, D> ret;
	if (!chirp) {
		if (defaults) switch (w) {
			case SINE: SineWave(v, fs, f0); ret = SineWave<T, D>(n, fs, f0); break;
			case SAW: SawtoothWave(v, fs, f0); ret = SawtoothWave<T, D>(n, fs, f0); break;
			case PWM: PwmWave(v, fs, f0); ret = PwmWave<T, D>(n, fs, f0); break;
			default: SquareWave(v, fs, f0); ret = SquareWave<T, D>(n, fs, f0); break;
		}
		else switch (w) {
			case SINE: SineWave(v, fs, f0, ph); ret = SineWave<T, D>(n, fs, f0, ph); break;
			case SAW: SawtoothWave(v, fs, f0, ph, pr); ret = SawtoothWave<T, D>(n, fs, f0, ph, pr); break;
			case PWM: PwmWave(v, fs, f0, ph, pr); ret = PwmWave<T, D>(n, fs, f0, ph, pr); break;
			default: SquareWave(v, fs, f0, ph); ret = SquareWave<T, D>(n, fs, f0, ph); break;
		}
	}
	else {
		if (defaults) switch (w) {
			case SINE: SineChirp(v, fs, f0, f1); ret = SineChirp<T, D>(n, fs, f0, f1); break;
			case SAW: SawtoothChirp(v, fs, f0, f1); ret = SawtoothChirp<T, D>(n, fs, f0, f1); break;
			case PWM: PwmChirp(v, fs, f0, f1); ret = PwmChirp<T, D>(n, fs, f0, f1); break;
			default: SquareChirp(v, fs, f0, f1); ret = SquareChirp<T, D>(n, fs, f0, f1); break;
		}
		else switch (w) {
			case SINE: SineChirp(v, fs, f0, f1, ph); ret = SineChirp<T, D>(n, fs, f0, f1, ph); break;
			case SAW: SawtoothChirp(v, fs, f0, f1, ph, pr); ret = SawtoothChirp<T, D>(n, fs, f0, f1, ph, pr); break;
			case PWM: PwmChirp(v, fs, f0, f1, ph, pr); ret = PwmChirp<T, D>(n, fs, f0, f1, ph, pr); break;
			default: SquareChirp(v, fs, f0, f1, ph); ret = SquareChirp<T, D>(n, fs, f0, f1, ph); break;
		}
	}
	c.ok(out.intact(), "stray-write");
	c.eq(ret.size(), n, "length");
	size_t edges = 0;
	for (size_t i = 0; i < n; ++i) {
		c.ok(ret.size() == n && same(ret[i], out[i]), "forms-disagree");
		const real t = (real)i / (real)fs;
		real cyc = t * f0, terms = std::fabs(cyc);
		if (chirp) {
			const real len = (real)n / (real)fs;
			const real s1 = t * t / 2 * f1 / len, s0 = t * t / 2 * f0 / len;
			cyc += s1 - s0;
			terms += 2 * (std::fabs(s1) + std::fabs(s0));
		}
		cyc += (real)ph / PI2;
		terms += std::fabs((real)ph / PI2) + 1;
		const Expect e = expected(w, cyc, 6 * ED * terms, pr);
		const real tol = e.tol + 4 * eps_v<T> + 4 * ED;
		const real x = re(out[i]);
		if (e.lo == e.hi) c.near(x, e.lo, tol, "value", (long long)i);
		else {
			++edges;
			if (w == SAW) c.ok(std::fabs(x - e.lo) <= tol || std::fabs(x - e.hi) <= tol, "value-at-jump");
			else c.ok(x == e.lo || x == e.hi, "value-at-edge");
		}
		c.ok(im(out[i]) == 0, "imaginary-part");
		if (i == 0 && ph == 0) { // exact: a period begins at phase zero
			real first = w == SINE ? 0 : w == SAW ? (pr == 0 ? 1 : -1) : w == PWM ? (pr > 0 ? 1 : 0) : 1;
			c.eq(x, first, "first-sample");
		}
	}
	c.note("edge-samples", edges).note("first", n ? (double)re(out[0]) : 0.0);
}
FAMILY(waves, 2400, 120000) {
	switch (c.rng.range(0, 5)) {
		case 0: return wave<float, TIME_DOMAIN>(c);
		case 1: return wave<double, TIME_DOMAIN>(c);
		case 2: return wave<std::complex<float>, TIME_DOMAIN>(c);
		case 3: return wave<std::complex<double>, TIME_DOMAIN>(c);
		case 4: return wave<float, FREQUENCY_DOMAIN>(c);
		default: return wave<double, DOMAINLESS>(c);
	}
}

// Shifting the phase by whole cycles, or starting later, gives the same wave.
template <class T> static void periodicity(Case& c) {
	auto& g = c.rng;
	const size_t n = g.size(1, 60);
	const uint64_t fs = (uint64_t)g.range(2, 50000);
	const double f = g.uni(0.01, 0.45) * (double)fs, phase = g.uni(-20, 20);
	const int k = (int)g.range(-6, 6);
	const double tilt = g.uni(0.1, 0.9);
	c.p("type", tname<T>()).p("n", n).p("fs", fs).p("f", f).p("phase", phase).p("k", k).p("tilt", tilt);
	const auto a = SineWave<T, TIME_DOMAIN>(n, fs, f, phase), b = SineWave<T, TIME_DOMAIN>(n, fs, f, phase + 2 * M_PI * k);
	const auto s = SawtoothWave<T, TIME_DOMAIN>(n, fs, f, phase, tilt), t = SawtoothWave<T, TIME_DOMAIN>(n, fs, f, phase + 2 * M_PI * k, tilt);
	const auto fixedChirp = SineChirp<T, TIME_DOMAIN>(n, fs, f, f, phase);
	const real tol = 4 * eps_v<T> + 40 * ED * (100 + PI2 * n);
	for (size_t i = 0; i < n; ++i) {
		c.near(b[i], a[i], tol, "sine-period", (long long)i);
		c.near(t[i], s[i], 20 * tol, "sawtooth-period", (long long)i);
		c.near(fixedChirp[i], a[i], tol, "constant-chirp", (long long)i);
	}
}
FAMILY(periods, 400, 10000) { c.rng.chance(0.5) ? periodicity<float>(c) : periodicity<double>(c); }

template <class T, eSignalDomain D> static void space(Case& c) {
	using R = real_of_t<T>;
	auto& g = c.rng;
	const size_t n = g.longer(g.len(0, 500), 60000);
	const bool log = g.chance(0.5), incl = g.chance(0.5), defaultBase = g.chance(0.4);
	const R start = (R)(g.chance(0.2) ? g.pick<double>({ 0, 1, -1 }) : g.uni(-8, 8)), end = (R)(g.chance(0.2) ? g.pick<double>({ 0, 1, -1, 5 }) : g.uni(-8, 8));
	const R base = defaultBase ? R(10) : (R)(g.chance(0.3) ? g.pick<double>({ 2, 10, 0.5, M_E }) : g.uni(0.1, 12));
	c.p("type", tname<T>()).p("log", log).p("n", n).p("incl", incl).p("start", start).p("end", end).p("base", log ? base : R(0));
	if (n == 0) c.trivial();
	Buf<T> out(n, g.size(0, 5));
	out.fill((unsigned char)g.next());
	BasicSignalView<T, D> v(out.data(), out.data() + n);
	BasicSignal<T, D> ret;
	const bool dropIncl = incl && g.chance(0.5);
	if (!log) {
		if (dropIncl) { LinSpace(v, start, end); ret = LinSpace<T, D>(start, end, n); }
		else { LinSpace(v, start, end, incl); ret = LinSpace<T, D>(start, end, n, incl); }
	}
	else if (dropIncl && defaultBase) { LogSpace(v, start, end); ret = LogSpace<T, D>(start, end, n); }
	else { LogSpace(v, start, end, base, incl); ret = LogSpace<T, D>(start, end, n, base, incl); }
	c.ok(out.intact(), "stray-write");
	c.eq(ret.size(), n, "length");
	const real E = eps_v<T>;
	for (size_t i = 0; i < n; ++i) {
		c.near(out[i], wide(ret[i]), log ? 16 * E * mag(wide(ret[i])) : 4 * E * 16, "forms-disagree", (long long)i);
		const real steps = incl ? std::max<real>(1, (real)n - 1) : (real)n;
		const real x = (real)start + (real)i * ((real)end - (real)start) / steps;
		const real linErr = 6 * E * (std::fabs((real)start) + std::fabs((real)end));
		if (!log) c.near(re(out[i]), x, linErr, "linear", (long long)i);
		else {
			const real lb = std::log((real)base);
			const real y = std::exp(x * lb);
			c.near(re(out[i]), y, y * (std::fabs(lb) * linErr + E * (4 * std::fabs(x * lb) + 8)), "logarithmic", (long long)i);
		}
		c.near(im(out[i]), (real)0, 0, "imaginary-part", (long long)i);
	}
	if (n > 0 && !log) c.eq(re(out[0]), start, "start");
}
FAMILY(spaces, 1600, 60000) {
	switch (c.rng.range(0, 5)) {
		case 0: return space<float, TIME_DOMAIN>(c);
		case 1: return space<double, TIME_DOMAIN>(c);
		case 2: return space<std::complex<float>, FREQUENCY_DOMAIN>(c);
		case 3: return space<std::complex<double>, TIME_DOMAIN>(c);
		case 4: return space<float, FREQUENCY_DOMAIN>(c);
		default: return space<double, DOMAINLESS>(c);
	}
}
