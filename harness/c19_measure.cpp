// Filter measurement from a sampled amplitude response, and the responses themselves.
#include "vh.hpp"
#include <algorithm>
#include <array>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
using namespace dspbb;
using namespace vh;
static const real PI = 3.14159265358979323846264338327950288L;

// ---- what a measurement returned, independent of its type
struct M {
	int type = 0;                // 0 none, 1 lowpass, 2 highpass, 3 bandpass, 4 bandstop
	std::vector<real> edges;     // two per transition, ascending
	std::vector<real> ripples;   // one per band
};
template <class T> static M of(const LowpassParameters<T>& p) { return { 1, { p.passbandEdge, p.stopbandEdge }, { p.passbandRipple, p.stopbandAtten } }; }
template <class T> static M of(const HighpassParameters<T>& p) { return { 2, { p.stopbandEdge, p.passbandEdge }, { p.stopbandAtten, p.passbandRipple } }; }
template <class T> static M of(const BandpassParameters<T>& p) {
	return { 3, { p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge }, { p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten } };
}
template <class T> static M of(const BandstopParameters<T>& p) {
	return { 4, { p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge }, { p.lowerPassbandRipple, p.stopbandAtten, p.upperPassbandRipple } };
}
static M of(std::monostate) { return {}; }
static bool operator==(const M& a, const M& b) { return a.type == b.type && a.edges == b.edges && a.ripples == b.ripples; }

// Every way to measure the response; they must agree, and the ones for another type must refuse.
template <class T> static M measure(Case& c, const Spectrum<T>& y, int type) {
	const std::vector<T> before(y.begin(), y.end());
	const M m = std::visit([](const auto& p) { return of(p); }, MeasureFilter(y));
	c.eq(m.type, type, "classified");
	const M v = std::visit([](const auto& p) { return of(p); }, MeasureFilter(SpectrumView<const T>(y)));
	c.ok(v == m, "view-and-signal-differ");
	auto single = [&](int t, auto&& f) {
		bool threw = false;
		M r;
		try { r = of(f()); }
		catch (const std::invalid_argument&) { threw = true; }
		if (t == type) {
			if (c.ok(!threw, "typed-measurement-refused")) c.ok(r == m, "typed-measurement-differs");
		}
		else c.ok(threw, "wrong-type-accepted", [&] { return "asked for type " + std::to_string(t); });
	};
	const bool asView = c.rng.chance(0.5);
	const SpectrumView<const T> w(y);
	single(1, [&] { return asView ? MeasureLowpassFilter(w) : MeasureLowpassFilter(y); });
	single(2, [&] { return asView ? MeasureHighpassFilter(w) : MeasureHighpassFilter(y); });
	single(3, [&] { return asView ? MeasureBandpassFilter(w) : MeasureBandpassFilter(y); });
	single(4, [&] { return asView ? MeasureBandstopFilter(w) : MeasureBandstopFilter(y); });
	c.ok(std::equal(before.begin(), before.end(), y.begin()), "response-changed");
	return m;
}
static const char* TYPE[] = { "none", "lowpass", "highpass", "bandpass", "bandstop" };
static bool startsWithPass(int type) { return type == 1 || type == 4; }
static size_t transitions(int type) { return type <= 2 ? 1 : 2; }

// Edges ascend inside [0,1], one either side of every transition.
static void ordered(Case& c, const M& m, const std::vector<real>& crossings /* in samples */, size_t n) {
	real last = 0;
	for (size_t i = 0; i < m.edges.size(); ++i) c.ok(m.edges[i] >= last && m.edges[i] <= 1, "edges-out-of-order", [&] { return "edge " + str(m.edges[i]) + " after " + str(last); }), last = m.edges[i];
	if (m.edges.size() == 2 * crossings.size())
		for (size_t i = 0; i < crossings.size(); ++i) {
			c.ok(m.edges[2 * i] * n <= crossings[i] + 1.01L, "edge-beyond-transition");
			c.ok(m.edges[2 * i + 1] * n >= crossings[i] - 1.01L, "edge-before-transition");
		}
	for (real r : m.ripples) c.ok(r >= 0, "negative-ripple");
}

// ---- flat bands joined by error-function transitions: the edges are known in closed form
template <class T> static void smooth(Case& c) {
	auto& g = c.rng;
	const int type = (int)g.range(1, 4);
	const size_t n = g.size(300, c.thorough ? 6000 : 3000), k = transitions(type);
	const double pmax = n / (k == 1 ? 16.0 : 30.0);
	std::vector<real> x0, p;
	for (size_t i = 0; i < k; ++i) p.push_back(std::exp(g.uni(std::log(3.0), std::log(std::max(4.0, pmax)))));
	if (k == 1) x0 = { g.uni(5 * (double)p[0], n - 5 * (double)p[0]) };
	else {
		const double gap = 5 * (double)(p[0] + p[1]);
		const double a = g.uni(5 * (double)p[0], n - 5 * (double)p[1] - gap);
		x0 = { a, g.uni(a + gap, n - 5 * (double)p[1]) };
	}
	c.p("t", tname<T>()).p("type", TYPE[type]).p("n", n).p("at", x0[0]).p("width", p[0]);
	if (k == 2) c.p("at2", x0[1]).p("width2", p[1]);
	Spectrum<T> y(n);
	for (size_t i = 0; i < n; ++i) {
		real v = startsWithPass(type) ? 1 : 0;
		real s = startsWithPass(type) ? -1 : 1;
		for (size_t j = 0; j < k; ++j, s = -s) v += s * 0.5L * std::erfc(-((real)i - x0[j]) / p[j]);
		y[i] = (T)std::max<real>(0, v);
	}
	const M m = measure(c, y, type);
	if (m.type != type) return;
	ordered(c, m, x0, n);
	for (size_t j = 0; j < k; ++j) {
		const real tol = (4.0L + 0.05L * p[j]) / n;
		c.near(m.edges[2 * j], (x0[j] - 1.5L * p[j]) / n, tol, "transition-start", (long long)j);
		c.near(m.edges[2 * j + 1], (x0[j] + 1.5L * p[j]) / n, tol, "transition-end", (long long)j);
	}
	for (real r : m.ripples) c.near(r, 0.0L, 1e-5L, "ripple-of-flat-band");
}

// ---- bands with ripples
struct Rippled {
	std::vector<real> y;
	std::vector<size_t> first; // first sample of each band, by the half-way level
};
// plateau with a cosine, alternating with monotone transitions that skip the neighbourhood of 0.5
static Rippled rippled(Rng& g, int type, size_t minBand, size_t maxBand, std::string& shape) {
	Rippled r;
	bool pass = startsWithPass(type);
	const size_t bands = transitions(type) + 1;
	std::ostringstream o;
	o.precision(6);
	for (size_t b = 0; b < bands; ++b, pass = !pass) {
		const size_t len = g.size(minBand, maxBand);
		const bool flat = g.chance(0.1);
		const double amp = flat ? 0 : std::exp(g.uni(std::log(1e-4), std::log(0.2)));
		const double period = g.uni(12, std::max(14.0, len / 2.0)), phase = g.uni(0, 6.283), tilt = g.pick<double>({ 0, 0, g.uni(-0.05, 0.05) });
		const int shapeKind = (int)g.range(0, 3);
		const double boost = shapeKind == 3 ? g.uni(0.5, pass ? 6.0 : 2.0) : 1; // one-sided: peaks above one, lobes of a stop band
		o << (pass ? "P" : "S") << len << "/" << amp << "/" << period << " ";
		std::vector<real> v(len);
		for (size_t i = 0; i < len; ++i) {
			real d = amp * std::cos(2 * PI * i / period + phase) + tilt * i / len;
			if (shapeKind == 1) d = (pass ? -1 : 1) * std::fabs(d);
			if (shapeKind == 2) d *= 1 - 0.7L * i / len;
			if (shapeKind == 3) d = amp * boost * (0.5L + 0.5L * std::cos(2 * PI * i / period + phase));
			v[i] = pass ? 1 + d : std::fabs(d);
		}
		if (b > 0) { // join
			const size_t w = g.pick<size_t>({ 1, 2, 3, 5, 8, 13, 30 });
			const real from = r.y.back(), to = v[0];
			std::vector<real> t;
			for (size_t i = 1; i <= w; ++i) { const real u = (real)i / (w + 1), s = u * u * (3 - 2 * u); t.push_back(from + (to - from) * s); }
			for (real& q : t) if (std::fabs(q - 0.5L) < 0.004L) q = q > 0.5L ? 0.504L : 0.496L;
			o << "w" << w << " ";
			r.y.insert(r.y.end(), t.begin(), t.end());
		}
		r.y.insert(r.y.end(), v.begin(), v.end());
	}
	for (auto& v : r.y) v = std::max<real>(0, std::round(v * 65536) / 65536);
	for (size_t i = 0; i < r.y.size(); ++i) if (i == 0 || (r.y[i] > 0.5L) != (r.y[i - 1] > 0.5L)) r.first.push_back(i);
	shape = o.str();
	return r;
}
// extremes among two neighbours either side, inside one band
static void extremes(const std::vector<real>& y, size_t b, size_t e, std::vector<size_t>& maxima, std::vector<size_t>& minima) {
	for (size_t i = b + 2; i + 2 < e; ++i) {
		bool mx = true, mn = true;
		for (size_t j = i - 2; j <= i + 2; ++j) mx = mx && y[j] <= y[i], mn = mn && y[j] >= y[i];
		if (mx) maxima.push_back(i);
		if (mn) minima.push_back(i);
	}
}
static void judgeBands(Case& c, const M& m, const std::vector<real>& y, const std::vector<size_t>& first, bool pass, real tol) {
	const size_t n = y.size();
	const real level = 0.25L * std::max<real>(1, *std::max_element(y.begin(), y.end())); // an edge sample may belong to the foot of the transition
	for (size_t b = 0; b < first.size(); ++b, pass = !pass) {
		const size_t lo = first[b], hi = b + 1 < first.size() ? first[b + 1] : n;
		std::vector<size_t> mx, mn;
		extremes(y, lo, hi, mx, mn);
		const real target = pass ? 1 : 0;
		real dev = 0;
		for (auto i : mx) dev = std::max(dev, std::fabs(target - y[i]));
		for (auto i : mn) dev = std::max(dev, std::fabs(target - y[i]));
		c.near(m.ripples[b], dev, tol, pass ? "pass-ripple" : "stop-ripple", (long long)b);
		const auto& own = pass ? mx : mn;
		if (b > 0) {
			const real e = m.edges[2 * b - 1] * n;
			c.ok(e >= lo - 0.01L && e <= hi + 0.01L, "left-edge-outside-band", [&] { return str(e) + " not in band " + std::to_string(lo) + ".." + std::to_string(hi); });
			if (!own.empty()) c.ok(e <= own.front() + 0.01L, "left-edge-after-first-extremum", [&] { return str(e) + " after " + std::to_string(own.front()); });
			size_t i = std::min(n - 1, (size_t)std::max<real>(0, std::ceil(e)));
			c.near(y[i], target, std::max<real>(dev, 0) + level, "level-at-left-edge", (long long)b);
		}
		if (b + 1 < first.size()) {
			const real e = m.edges[2 * b] * n;
			c.ok(e >= lo - 0.01L && e <= hi + 0.01L, "right-edge-outside-band", [&] { return str(e) + " not in band " + std::to_string(lo) + ".." + std::to_string(hi); });
			if (!own.empty()) c.ok(e >= own.back() + 0.99L, "right-edge-before-last-extremum", [&] { return str(e) + " before " + std::to_string(own.back()); });
			size_t i = (size_t)std::max<real>(0, std::floor(e) - 1);
			if (b > 0) i = std::max(i, (size_t)std::ceil(m.edges[2 * b - 1] * n)); // a band measured as nearly empty: not the other transition
			c.near(y[std::min(n - 1, i)], target, std::max<real>(dev, 0) + level, "level-at-right-edge", (long long)b);
		}
	}
}
template <class T> static Spectrum<T> toSpectrum(const std::vector<real>& y) {
	Spectrum<T> s(y.size());
	for (size_t i = 0; i < y.size(); ++i) s[i] = (T)y[i];
	return s;
}
static const int OPPOSITE[] = { 0, 2, 1, 4, 3 };
template <class T> static void ripples(Case& c) {
	auto& g = c.rng;
	const int type = (int)g.range(1, 4);
	std::string shape;
	const bool small = g.chance(0.3);
	const auto r = rippled(g, type, small ? 30 : 60, small ? 60 : c.thorough ? 1500 : 500, shape);
	c.p("t", tname<T>()).p("type", TYPE[type]).p("bands", shape);
	const auto y = toSpectrum<T>(r.y);
	const M m = measure(c, y, type);
	if (m.type != type || r.first.size() != transitions(type) + 1) return;
	std::vector<real> crossings;
	for (size_t i = 1; i < r.first.size(); ++i) crossings.push_back(r.first[i]);
	ordered(c, m, crossings, y.size());
	judgeBands(c, m, r.y, r.first, startsWithPass(type), 4 * eps_v<T>);
	c.note("edge", m.edges[0]).note("ripple", m.ripples[0]);
	// exchanging pass and stop exchanges the type and nothing else
	bool representable = true;
	auto inv = r.y;
	for (auto& v : inv) { v = 1 - v; representable = representable && v >= 0; }
	if (representable) {
		const M o = measure(c, toSpectrum<T>(inv), OPPOSITE[type]);
		c.ok(o.edges == m.edges && o.ripples == m.ripples, "complement-differs");
	}
	// a mirrored response has mirrored ripples (its edges are judged on closed-form transitions: between ripples they are an estimate)
	auto mir = r.y;
	std::reverse(mir.begin(), mir.end());
	const M o = measure(c, toSpectrum<T>(mir), type <= 2 ? OPPOSITE[type] : type);
	if (o.edges.size() == m.edges.size()) {
		for (size_t i = 0; i < m.ripples.size(); ++i) c.near(o.ripples[m.ripples.size() - 1 - i], m.ripples[i], 0, "mirrored-ripple");
	}
}

// ---- responses which are none of the four, brick walls, and hesitant crossings
template <class T> static void classify(Case& c) {
	auto& g = c.rng;
	const int kind = (int)g.range(0, 2);
	const size_t bands = kind == 2 ? g.size(2, 3) : g.size(1, 7);
	bool pass = g.chance(0.5);
	const bool startPass = pass;
	std::vector<T> y;
	for (size_t b = 0; b < bands; ++b, pass = !pass) {
		const size_t len = kind == 0 ? g.size(1, 6) : g.size(10, 300);
		if (kind == 2 && b > 0) { // wander around the half-way level, closer than the noise limit, without ending a band
			const size_t w = g.size(1, 12);
			for (size_t i = 0; i < w; ++i) y.push_back((T)(0.5 + g.uni(-0.0004, 0.0004)));
		}
		const double level = g.uni(0.55, 1.4), low = g.uni(0, 0.45);
		for (size_t i = 0; i < len; ++i) {
			double v = pass ? level : low;
			if (kind != 2 && g.chance(0.1)) v = pass ? g.uni(0.502, 2) : g.uni(0, 0.498);
			y.push_back((T)v);
		}
	}
	const int type = bands == 2 ? (startPass ? 1 : 2) : bands == 3 ? (startPass ? 4 : 3) : 0;
	c.p("t", tname<T>()).p("kind", kind == 0 ? "brick" : kind == 1 ? "plateaus" : "hesitant").p("bands", bands).p("start", startPass).p("n", y.size());
	Spectrum<T> s(y.begin(), y.end());
	const M m = measure(c, s, type);
	for (real r : m.ripples) c.ok(std::isfinite(r) && r >= 0, "bad-ripple");
	if (kind != 2) for (real e : m.edges) c.ok(e >= 0 && e <= 1, "bad-edge");
}

// ---- response of a list of taps
template <class T> static void impulse(Case& c) {
	auto& g = c.rng;
	const size_t n = g.len(1, 300);
	const size_t hint = g.chance(0.4) ? 0 : g.pick<size_t>({ 1, g.size(1, 40), g.size(1, 900), n, n / 2 + 1, 2 * n });
	const bool integer = g.chance(0.3), symmetric = g.chance(0.3), zeros = g.chance(0.05);
	const int exponent = g.chance(0.6) ? 0 : (int)(sizeof(T) == 4 ? g.range(-40, 40) : g.range(-300, 300)); // the level of the taps
	c.p("t", tname<T>()).p("taps", n).p("hint", hint).p("integer", integer).p("symmetric", symmetric).p("zeros", zeros).p("exponent", exponent);
	BasicSignal<T, TIME_DOMAIN> h(n);
	for (auto& v : h) v = std::ldexp(zeros ? T(0) : integer ? (T)g.range(-4, 4) : (T)g.uni(-1, 1), exponent);
	if (symmetric) for (size_t i = 0; i < n / 2; ++i) h[n - 1 - i] = h[i];
	const std::vector<T> before(h.begin(), h.end());
	const auto [amplitude, phase] = g.chance(0.5) ? FrequencyResponse(h, hint) : FrequencyResponse(BasicSignalView<const T, TIME_DOMAIN>(h), hint);
	c.ok(std::equal(before.begin(), before.end(), h.begin()), "taps-changed");
	const size_t grid = hint ? hint : 10 * n, size = std::max(n, 2 * grid - 1), bins = size / 2 + 1;
	c.eq(amplitude.size(), bins, "amplitude-size");
	c.eq(phase.size(), bins, "phase-size");
	if (amplitude.size() != bins || phase.size() != bins) return;
	real s = 0;
	for (auto v : h) s += std::fabs((real)v);
	const size_t probes = bins <= 64 ? bins : 64;
	for (size_t q = 0; q < probes; ++q) {
		const size_t b = probes == bins ? q : q == 0 ? 0 : q == 1 ? bins - 1 : g.size(0, bins - 1);
		cplx v = 0;
		for (size_t i = 0; i < n; ++i) v += (real)h[i] * std::polar(1.0L, -2 * PI * (real)((i * b) % size) / size);
		const real tol = 6 * eps_v<T> * (s * (2 + std::log2((real)size)) + std::ldexp(1e-30L, exponent));
		c.near(amplitude[b], std::abs(v), tol, "amplitude", (long long)b);
		c.near(std::polar<real>(amplitude[b], phase[b]), v, tol + 4 * eps_v<T> * std::abs(v) * 4, "phasor", (long long)b);
		c.ok(std::fabs((real)phase[b]) <= PI * (1 + eps_v<T>), "phase-range");
		if (amplitude[b] == T(0)) c.eq(phase[b], T(0), "phase-of-zero");
	}
}

// ---- response of a system given by roots, coefficients or sections
template <class T, class F> static std::vector<cplx> roots(const F& f) {
	std::vector<cplx> r;
	for (auto& x : f.real_roots()) r.emplace_back((real)x, 0);
	for (auto& x : f.complex_pairs()) { const cplx v((real)x.real(), (real)x.imag()); r.push_back(v); r.push_back(std::conj(v)); }
	return r;
}
template <class T> static void system(Case& c) {
	auto& g = c.rng;
	DiscreteZeroPoleGain<T> zpk;
	const size_t lim = sizeof(T) == 4 ? 3 : 6;
	const size_t zr = g.size(0, lim), zc = g.size(0, lim / 2), pr = g.size(0, lim), pc = g.size(0, lim / 2);
	zpk.zeros.resize(zr, zc);
	zpk.poles.resize(pr, pc);
	auto fill = [&](auto& f, double m) {
		for (auto& r : f.real_roots()) r = (T)g.uni(-m, m);
		for (auto& r : f.complex_pairs()) r = std::polar((T)g.uni(0.05, m), (T)g.uni(0.02, 3.12));
	};
	fill(zpk.zeros, 1.5);
	fill(zpk.poles, 0.95);
	zpk.gain = (T)g.pick<double>({ 1, -1, 0.5, g.uni(-3, 3) });
	const int exponent = g.chance(0.7) ? 0 : (int)(sizeof(T) == 4 ? g.range(-40, 40) : g.range(-300, 300));
	zpk.gain = std::ldexp(zpk.gain, exponent);
	const size_t hint = g.chance(0.3) ? 0 : g.size(2, 120);
	const int rep = (int)g.range(0, 2);
	c.p("t", tname<T>()).p("as", rep == 0 ? "roots" : rep == 1 ? "coefficients" : "sections").p("zr", zr).p("zc", zc).p("pr", pr).p("pc", pc).p("hint", hint).p("gain", zpk.gain);
	const size_t order = std::max(zr + 2 * zc, pr + 2 * pc);
	if (rep == 2 && order == 0) { c.trivial(); return; } // recorded finding of C14: sections of a constant
	std::pair<Spectrum<T>, Spectrum<T>> r;
	if (rep == 0) r = FrequencyResponse(zpk, hint);
	else if (rep == 1) r = FrequencyResponse(DiscreteTransferFunction<T>(zpk), hint);
	else r = FrequencyResponse(CascadedBiquad<T>(zpk), hint);
	const auto& [amplitude, phase] = r;
	const size_t grid = hint ? hint : (1 + order) * 20;
	c.eq(amplitude.size(), grid, "amplitude-size");
	c.eq(phase.size(), grid, "phase-size");
	if (amplitude.size() != grid || phase.size() != grid) return;
	const auto z = roots<T>(zpk.zeros), p = roots<T>(zpk.poles);
	for (size_t i = 0; i < grid; ++i) {
		const real w = PI * (real)i / (real)(grid - 1);
		const cplx x = std::polar(1.0L, w);
		cplx num = zpk.gain, den = 1;
		real sn = std::fabs((real)zpk.gain), sd = 1, slopeN = 0, slopeD = 0;
		for (auto& q : z) num *= x - q, sn *= 1 + std::abs(q);
		for (auto& q : p) den *= x - q, sd *= 1 + std::abs(q), slopeD += 1 / std::abs(x - q);
		slopeN = z.size() * sn;
		const cplx v = num / den;
		// rounding of the evaluation, and of the frequency itself (up to a few units of pi*eps)
		const real ep = eps_v<T> * (8 * (2 + z.size() + p.size()));
		const real tol = ep * (sn + std::abs(v) * sd) / std::abs(den) + 12 * eps_v<T> * (slopeN / std::abs(den) + std::abs(v) * slopeD) + std::ldexp(1e-35L, exponent);
		if (!(sd / std::abs(den) * eps_v<T> < 1e-3L)) continue;
		c.near(amplitude[i], std::abs(v), tol, "amplitude", (long long)i);
		c.near(std::polar<real>(amplitude[i], phase[i]), v, tol + 16 * eps_v<T> * std::abs(v), "phasor", (long long)i);
	}
}

// ---- a designed filter, its response, and the measurement of that response
template <class T> static void designed(Case& c) {
	auto& g = c.rng;
	const int type = (int)g.range(1, 4), kind = (int)g.range(0, 3);
	const size_t order = type <= 2 ? g.size(3, sizeof(T) == 4 ? 6 : 9) : 2 * g.size(2, sizeof(T) == 4 ? 3 : 5);
	const T rp = (T)std::exp(g.uni(std::log(0.01), std::log(0.2))), rs = (T)std::exp(g.uni(std::log(0.005), std::log(0.2)));
	const T f1 = (T)(type <= 2 ? g.uni(0.25, 0.75) : g.uni(0.25, 0.4)), f2 = (T)g.uni(0.6, 0.75);
	const size_t grid = g.size(1200, 2500);
	c.p("t", tname<T>()).p("type", TYPE[type]).p("kind", kind).p("order", order).p("rp", rp).p("rs", rs).p("f1", f1).p("f2", f2).p("grid", grid);
	DiscreteZeroPoleGain<T> f;
	auto make = [&](const auto& a, auto&& band) {
		switch (kind) {
			case 0: f = DesignFilter<T>(order, band(a.Butterworth)); break;
			case 1: f = DesignFilter<T>(order, band(a.Chebyshev1).PassbandRipple(rp)); break;
			case 2: f = DesignFilter<T>(order, band(a.Chebyshev2).StopbandRipple(rs)); break;
			default: f = DesignFilter<T>(order, band(a.Elliptic).PassbandRipple(rp).StopbandRipple(rs));
		}
	};
	auto one = [&](const auto& d) { return d.Cutoff(f1); };
	auto two = [&](const auto& d) { return d.Band(f1, f2); };
	switch (type) {
		case 1: make(Iir.Lowpass, one); break;
		case 2: make(Iir.Highpass, one); break;
		case 3: make(Iir.Bandpass, two); break;
		default: make(Iir.Bandstop, two);
	}
	const auto response = FrequencyResponse(f, grid);
	const auto& amplitude = response.first;
	std::vector<real> y(amplitude.begin(), amplitude.end());
	std::vector<size_t> first;
	for (size_t i = 0; i < y.size(); ++i) if (i == 0 || (y[i] > 0.5L) != (y[i - 1] > 0.5L)) first.push_back(i);
	if (first.size() != transitions(type) + 1) { c.fail("response-shape", "the sampled response does not cross the half-way level as often as its type does"); return; }
	for (real v : y) if (std::fabs(v - 0.5L) < 0.0006L) { c.trivial(); return; } // which side of the half-way level is a matter of the noise limit
	const M m = measure(c, amplitude, type);
	if (m.type != type) return;
	judgeBands(c, m, y, first, startsWithPass(type), 0);
	// the design's own ripples are what is measured
	const real reach = kind == 0 ? 0 : 1;
	if (reach > 0 && sizeof(T) == 8) {
		bool pass = startsWithPass(type);
		for (size_t b = 0; b < m.ripples.size(); ++b, pass = !pass) {
			const real limit = pass ? (kind == 2 ? 0 : (real)rp) : (kind == 1 ? 0 : (real)rs);
			if (limit > 0) c.ok(m.ripples[b] <= limit * (1 + 1e-3L), "ripple-larger-than-designed", [&] { return str(m.ripples[b]) + " > " + str(limit); });
		}
	}
}

FAMILY(smooth_float, 180, 750) { smooth<float>(c); }
FAMILY(smooth_double, 180, 750) { smooth<double>(c); }
FAMILY(ripples_float, 450, 2000) { ripples<float>(c); }
FAMILY(ripples_double, 450, 2000) { ripples<double>(c); }
FAMILY(classify_float, 900, 3000) { classify<float>(c); }
FAMILY(classify_double, 900, 3000) { classify<double>(c); }
FAMILY(impulse_float, 450, 2000) { impulse<float>(c); }
FAMILY(impulse_double, 450, 2000) { impulse<double>(c); }
FAMILY(system_float, 600, 2500) { system<float>(c); }
FAMILY(system_double, 600, 2500) { system<double>(c); }
FAMILY(designed_float, 180, 750) { designed<float>(c); }
FAMILY(designed_double, 180, 750) { designed<double>(c); }
