// Designed FIR filters: taps of window-method designs, optimality of least-squares designs, response transforms.
#include "vh.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
static const real PI = 3.14159265358979323846264338327950288L;

#if VH_PART == 1
// ---- window method
enum Kind { LP, HP, BP, BS, ARB, HIL };
static const char* KIND[] = { "lowpass", "highpass", "bandpass", "bandstop", "arbitrary", "hilbert" };

static std::vector<real> lowpassRef(const std::vector<real>& w, real cutoff) {
	std::vector<real> h(w.size());
	const long long c = (long long)w.size() / 2;
	real sum = 0;
	for (size_t i = 0; i < w.size(); ++i) {
		const real x = PI * cutoff * (real)((long long)i - c);
		h[i] = w[i] * (x == 0 ? 1 : std::sin(x) / x);
		sum += h[i];
	}
	for (auto& v : h) v /= sum;
	return h;
}

// a response curve: smooth, non-monotone
struct Curve {
	double a, b, k, ph;
	template <class F> F operator()(F f) const { return (F)(a + b * std::cos(k * (double)f + ph)); }
	real at(real f) const { return a + b * std::cos(k * f + ph); }
};

template <class T, class P, class Win> static void windowedWith(Case& c, Kind kind, size_t n, P f1, P f2, const Curve& curve, const Win& win, const std::vector<real>& w, bool symmetric) {
	auto& g = c.rng;
	Buf<T> buf(n, g.size(0, 5));
	buf.fill((unsigned char)g.next());
	SignalView<T> out(buf.data(), buf.data() + n);
	BasicSignal<T, TIME_DOMAIN> made;
	const bool windowFirst = g.chance(0.5);
	auto go = [&](const auto& desc) {
		DesignFilter(out, desc);
		made = DesignFilter<T, TIME_DOMAIN>(n, desc);
	};
	switch (kind) {
		case LP: windowFirst ? go(Fir.Lowpass.Windowed.Window(win).Cutoff(f1)) : go(Fir.Lowpass.Windowed.Cutoff(f1).Window(win)); break;
		case HP: windowFirst ? go(Fir.Highpass.Windowed.Window(win).Cutoff(f1)) : go(Fir.Highpass.Windowed.Cutoff(f1).Window(win)); break;
		case BP: windowFirst ? go(Fir.Bandpass.Windowed.Window(win).Band(f1, f2)) : go(Fir.Bandpass.Windowed.Band(f1, f2).Window(win)); break;
		case BS: windowFirst ? go(Fir.Bandstop.Windowed.Window(win).Band(f1, f2)) : go(Fir.Bandstop.Windowed.Band(f1, f2).Window(win)); break;
		case ARB: windowFirst ? go(Fir.Arbitrary.Windowed.Window(win).Response(curve)) : go(Fir.Arbitrary.Windowed.Response(curve).Window(win)); break;
		default: {
			const auto desc = Fir.Hilbert.Windowed.Window(win);
			made = BasicSignal<T, TIME_DOMAIN>(n, T(9));
			DesignFilter(made, desc);
			const auto again = DesignFilter<T, TIME_DOMAIN>(n, desc);
			for (size_t i = 0; i < n && i < again.size(); ++i) out[i] = again[i];
			break;
		}
	}
	c.ok(buf.intact(), "stray-write");
	c.eq(made.size(), n, "length");
	const real E = std::max(eps_v<T>, kind == LP || kind == HP || kind == ARB || kind == HIL ? 0.0 : (double)eps_v<P>);
	std::vector<real> ref(n), tol(n);
	const long long cen = (long long)n / 2;
	// rounding of a sum of n window-weighted terms relative to that sum
	auto sumCond = [&](const std::vector<real>& h) { real a = 0; for (auto v : h) a += std::fabs(v); return a; };
	if (kind <= BS) {
		const real cut = kind == LP || kind == HP ? (real)f1 : ((real)f2 - (real)f1) / 2;
		const real cutErr = kind == LP || kind == HP ? 0 : (real)eps_v<P> * ((real)f1 + (real)f2); // rounding of the difference of the edges
		const auto lp = lowpassRef(w, cut);
		const real cond = sumCond(lp);
		for (size_t i = 0; i < n; ++i) {
			const real off = (real)((long long)i - cen);
			const real own = 1.5L * E * (std::fabs(lp[i]) * (10 + cond * (real)n) + 3 * std::fabs(w[i]) * std::fabs(lp[cen] / w[cen])) + std::fabs(lp[cen]) * (cutErr / cut) * (4 + 4 * cond);
			ref[i] = lp[i];
			tol[i] = own;
			if (kind == BP || kind == BS) {
				const real fc = ((real)f1 + (real)f2) / 2;
				ref[i] = 2 * std::cos(PI * fc * off) * lp[i];
				tol[i] = 2 * own + 2 * std::fabs(lp[i]) * E * (4 + 4 * PI * fc * std::fabs(off));
			}
			if (kind == HP || kind == BS) {
				ref[i] = -ref[i];
				if ((long long)i == cen) { ref[i] += 1; tol[i] += E; }
			}
		}
	}
	else if (kind == ARB) {
		real total = 0;
		for (size_t k = 0; k <= n / 2; ++k) total += std::fabs(curve.at(2 * (real)k / (real)n)) * (k ? 2 : 1);
		for (size_t i = 0; i < n; ++i) {
			const real m = (real)((long long)i - cen);
			real v = 0;
			for (size_t k = 0; k <= n / 2; ++k) v += curve.at(2 * (real)k / (real)n) * (k ? 2 : 1) * std::cos(2 * PI * (real)k * m / (real)n);
			ref[i] = w[i] * v / (real)n;
			tol[i] = std::fabs(w[i]) * E * ((8 + 3 * std::log2((real)n + 1)) * total / (real)n + 4 * std::fabs(curve.b) * std::fabs(curve.k)) + 2 * E * std::fabs(ref[i]);
		}
	}
	else {
		const auto lp = lowpassRef(w, 0.5L);
		const real cond = sumCond(lp);
		const long long hc = (long long)lp.size() / 2;
		const long long step = n % 2 ? 1 : 2;
		for (size_t i = 0; i < n; ++i) {
			const long long j = (long long)i * step, d = j - hc;
			const int s = d % 2 == 0 ? 0 : ((d % 4 + 4) % 4 == 1 ? 1 : -1); // sin(pi d / 2)
			ref[i] = 2 * s * lp[j];
			tol[i] = s == 0 ? 0 : 2 * E * (std::fabs(lp[j]) * (10 + cond * (real)lp.size()) + 3 * std::fabs(w[j]) * std::fabs(lp[hc] / w[hc]));
		}
	}
	real biggest = 0, peak = 0;
	for (auto v : ref) peak = std::max(peak, std::fabs(v));
	for (size_t i = 0; i < n; ++i) {
		c.near(out[i], ref[i], tol[i], KIND[kind], (long long)i);
		c.near(made.size() == n ? made[i] : T(NAN), wide(out[i]), 2 * tol[i], "forms-disagree", (long long)i);
		if (symmetric) c.near(out[i], kind == HIL ? -wide(out[n - 1 - i]) : wide(out[n - 1 - i]), 4 * tol[i] + 64 * eps_v<T> * peak, "symmetry", (long long)i);
		biggest = std::max(biggest, mag(wide(out[i])));
	}
	if (kind == LP || kind == HP) {
		real s = 0, t = 0;
		for (size_t i = 0; i < n; ++i) { s += out[i]; t += tol[i]; }
		c.near(s, (real)(kind == LP ? 1 : 0), t + 4 * E, "gain-at-zero");
	}
	c.note("largest-tap", biggest);
}

template <class T, class P> static void windowed(Case& c) {
	auto& g = c.rng;
	const Kind kind = (Kind)g.range(0, 5);
	size_t n = g.longer(g.len(3, 220), 3000);
	if (kind != HIL) n |= 1;
	const size_t wn = kind == HIL && n % 2 == 0 ? 2 * n - 1 : n;
	P f1 = (P)g.uni(0.02, 0.98), f2 = (P)g.uni(0.02, 0.98);
	if (f1 > f2) std::swap(f1, f2);
	if (f2 - f1 < P(0.03)) { f1 = f1 / 2; f2 = std::min(P(1), f2 + P(0.03)); }
	const Curve curve{ g.uni(-1, 1), g.uni(0.1, 1), g.uni(0, 9), g.uni(0, 6) };
	const int win = (int)g.range(0, 5);
	c.p("kind", KIND[kind]).p("type", tname<T>()).p("param", tname<P>()).p("n", n).p("f1", f1).p("f2", f2).p("win", win);
	if (kind == ARB) c.p("curve", curve.k);
	if (win == 0) { // an arbitrary, asymmetric window given as samples
		BasicSignal<T, TIME_DOMAIN> w(wn);
		std::vector<real> wr;
		for (auto& v : w) { v = (T)g.uni(0.2, 1.2); wr.push_back(v); }
		return windowedWith<T, P>(c, kind, n, f1, f2, curve, w, wr, false);
	}
	auto dispatch = [&](const auto& fn) {
		BasicSignal<T, TIME_DOMAIN> w(wn);
		fn(w);
		std::vector<real> wr(w.begin(), w.end());
		if (g.chance(0.4)) windowedWith<T, P>(c, kind, n, f1, f2, curve, w, wr, true);
		else windowedWith<T, P>(c, kind, n, f1, f2, curve, fn, wr, true);
	};
	switch (win) {
		case 1: return dispatch(windows::hamming);
		case 2: return dispatch(windows::rectangular);
		case 3: return dispatch(windows::blackmanHarris);
		case 4: return dispatch(windows::kaiser.alpha(2.5));
		default: return dispatch(windows::gaussian.sigma(0.4));
	}
}
FAMILY(window_method, 700, 20000) {
	switch (c.rng.range(0, 3)) {
		case 0: return windowed<float, float>(c);
		case 1: return windowed<double, double>(c);
		case 2: return windowed<double, float>(c);
		default: return windowed<float, double>(c);
	}
}

// Defaults: the window is Hamming, and lengths down to one tap are filters.
FAMILY(defaults, 60, 400) {
	auto& g = c.rng;
	const size_t n = g.size(1, 60) * 2 + 1;
	const float f = (float)g.uni(0.1, 0.9);
	c.p("n", n).p("f", f);
	const auto a = DesignFilter<double, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(f));
	const auto b = DesignFilter<double, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(f).Window(windows::hamming));
	const auto d = DesignFilter<double, TIME_DOMAIN>(n, Fir.Highpass.Windowed.Cutoff(f));
	for (size_t i = 0; i < n; ++i) {
		c.near(a[i], (real)b[i], 1e-15, "default-window", (long long)i);
		c.near(d[i], (i == n / 2 ? 1 : 0) - (real)b[i], 1e-15, "default-window", (long long)i);
	}
	BasicSignal<double, TIME_DOMAIN> one(1), w1(1, 0.7);
	DesignFilter(one, Fir.Lowpass.Windowed.Cutoff(f).Window(w1));
	c.near(one[0], (real)1, 1e-15, "single-tap");
}

// ---- transforms of arbitrary filters
template <class T> static void transforms(Case& c) {
	auto& g = c.rng;
	const int which = (int)g.range(0, 4);
	static const char* W[] = { "mirror", "complementary", "shift", "hilbert-odd", "hilbert-even" };
	size_t n = g.longer(g.len(1, 300), 3000);
	if (which == 1 || which == 2 || which == 3) n |= 1;
	if (which == 4) n = std::max<size_t>(2, n & ~(size_t)1);
	const size_t in = which == 4 ? 2 * n - 1 : n;
	const bool inPlace = which != 4 && g.chance(0.5);
	const double f = g.uni(0, 1);
	c.p("transform", W[which]).p("type", tname<T>()).p("n", n).p("in-place", inPlace).p("f", which == 2 ? f : 0);
	Buf<T> src(in, g.size(0, 4)), dst(n, g.size(0, 4));
	dst.fill((unsigned char)g.next());
	std::vector<T> orig(in);
	for (size_t i = 0; i < in; ++i) src[i] = orig[i] = rnd<T>(g, -1, 1);
	SignalView<T> sv(src.data(), src.data() + in);
	SignalView<T> ov(inPlace ? src.data() : dst.data(), (inPlace ? src.data() : dst.data()) + n);
	switch (which) {
		case 0: fir::MirrorResponse(ov, sv); break;
		case 1: fir::ComplementaryResponse(ov, sv); break;
		case 2: fir::ShiftResponse(ov, sv, (real_of_t<T>)f); break;
		case 3: fir::HalfbandToHilbertOdd(ov, sv); break;
		default: fir::HalfbandToHilbertEven(ov, sv); break;
	}
	c.ok(src.intact() && dst.intact(), "stray-write");
	if (!inPlace) for (size_t i = 0; i < in; ++i) c.ok(src[i] == orig[i], "input-modified");
	const real E = eps_v<T>;
	const long long cen = (long long)in / 2;
	for (size_t i = 0; i < n; ++i) {
		real e, tol = 0;
		const long long j = which == 4 ? 2 * (long long)i : (long long)i;
		const real h = wide(orig[j]);
		const long long d = j - cen;
		switch (which) {
			case 0: e = i % 2 ? -h : h; break;
			case 1: e = d == 0 ? 1 - h : -h; tol = d == 0 ? 2 * E : 0; break;
			case 2: e = 2 * std::cos(PI * (real)(real_of_t<T>)f * (real)d) * h; tol = 2 * std::fabs(h) * E * (4 + 4 * PI * f * std::llabs(d)); break;
			default: e = d % 2 == 0 ? 0 : ((d % 4 + 4) % 4 == 1 ? 2 * h : -2 * h); break;
		}
		c.near(ov[i], e, tol, W[which], (long long)i);
	}
	// the responses themselves
	if (which <= 2) {
		auto H = [&](auto get, size_t len, real om) { cplx s = 0; for (size_t i = 0; i < len; ++i) s += (real)get(i) * std::polar<real>(1, -om * (real)i); return s; };
		auto before = [&](size_t i) { return (real)orig[i]; };
		auto after = [&](size_t i) { return (real)ov[i]; };
		for (int k = 0; k < 4; ++k) {
			const real om = g.uni(0, 3.14159265);
			const cplx a = H(after, n, om);
			const real tol = (real)n * E * (20 + 4 * PI * (real)n);
			if (which == 0) c.near(a, H(before, n, PI - om) == cplx(0) ? cplx(0) : std::conj(H(before, n, PI - om)), tol, "mirrored-response");
			if (which == 1) c.near(a + H(before, n, om), std::polar<real>(1, -om * (real)cen), tol, "complementary-response");
			if (which == 2) {
				const real s = PI * (real)(real_of_t<T>)f;
				const cplx e = H(before, n, om - s) * std::polar<real>(1, -s * (real)cen) + H(before, n, om + s) * std::polar<real>(1, s * (real)cen);
				c.near(a, e, tol, "shifted-response");
			}
		}
	}
}
FAMILY(response_transforms, 1200, 30000) { c.rng.chance(0.5) ? transforms<float>(c) : transforms<double>(c); }
#endif

#if VH_PART == 2
// ---- least squares: the gradient of the weighted squared error vanishes at the returned taps
static real smooth(real x) { x = std::clamp<real>(x, 0, 1); return 3 * x * x - 2 * x * x * x; }

template <class T> struct Problem {
	std::vector<real> w, d; // per grid point
};
template <class T, class V> static void judge(Case& c, const V& h, const std::vector<real>& w, const std::vector<real>& d) {
	const size_t n = h.size(), K = (n + 1) / 2, G = w.size();
	for (size_t i = 0; i < n; ++i) {
		c.ok(std::isfinite(h[i]), "not-finite");
		c.near(h[i], (real)h[n - 1 - i], 4 * eps_v<T> * std::fabs((real)h[i]), "symmetry", (long long)i);
	}
	std::vector<real> half(K), grad(K, 0);
	for (size_t k = 0; k < K; ++k) half[k] = h[n / 2 + k];
	real norm1 = 0, rowNorm = 0, wd = 0, wa = 0, cost = 0, costZero = 0;
	for (size_t k = 0; k < K; ++k) norm1 += (k ? 2 : 1) * std::fabs(half[k]);
	for (size_t i = 0; i < G; ++i) {
		const real om = PI * (real)i / (real)(G - 1);
		real v = half[0];
		for (size_t k = 1; k < K; ++k) v += 2 * half[k] * std::cos(om * (real)k);
		const real r = w[i] * w[i] * (v - d[i]);
		for (size_t k = 0; k < K; ++k) grad[k] += (k ? 2 : 1) * std::cos(om * (real)k) * r;
		cost += w[i] * w[i] * (v - d[i]) * (v - d[i]);
		costZero += w[i] * w[i] * d[i] * d[i];
		wd += w[i] * w[i] * std::fabs(d[i]);
		wa += w[i] * w[i];
	}
	(void)rowNorm;
	// backward error of an orthogonal decomposition plus the rounding of the cosine arguments
	const real scale = eps_v<T> * (20 + 6 * (real)K) * 2 * (wa * norm1 + wd);
	for (size_t k = 0; k < K; ++k) c.near(grad[k], (real)0, scale, "gradient", (long long)k);
	c.ok(cost <= costZero * (1 + 1e-6L) + 1e-12L, "worse-than-nothing");
	c.note("cost", cost).note("gradient-scale", scale);
}

// grid points stay clear of the edges, where rounding decides which weight applies
static bool clear(real edge, size_t G) { const real x = edge * (real)(G - 1); return std::fabs(x - std::round(x)) > 1e-3L * 1 && true; }

template <class T, class P> static void leastSquares(Case& c) {
	auto& g = c.rng;
	const int kind = (int)g.range(0, 4);
	static const char* K[] = { "lowpass", "highpass", "bandpass", "bandstop", "arbitrary" };
	const size_t n = g.size(1, 35) * 2 + 1, half = (n + 1) / 2;
	const bool defGrid = g.chance(0.3);
	const size_t grid = defGrid ? 0 : g.size(half + 1, 6 * half);
	const size_t G = defGrid ? 4 * half : grid;
	P e[4];
	for (int tries = 0;; ++tries) {
		P x = (P)g.uni(0.05, 0.3);
		bool good = true;
		for (auto& v : e) { v = x; x += (P)g.uni(0.04, 0.2); good = good && v < P(0.97) && clear((real)v, G); }
		if (good) break;
		if (tries > 500) { c.trivial(); c.ok(true, "no-edges"); return; }
	}
	P w[5];
	for (auto& v : w) v = (P)g.uni(0.2, 3);
	if (g.chance(0.5)) { w[1] = g.chance(0.5) ? 0 : P(0.05); w[3] = w[1]; }
	const bool defWeight = g.chance(0.2);
	if (defWeight) { w[0] = w[2] = w[4] = 1; w[1] = w[3] = 0; }
	c.p("kind", K[kind]).p("type", tname<T>()).p("param", tname<P>()).p("n", n).p("grid", grid).p("e0", e[0]).p("e1", e[1]).p("w1", w[1]).p("default-weight", defWeight);
	const Buf<T>* dummy = nullptr;
	(void)dummy;
	Buf<T> buf(n, g.size(0, 5));
	buf.fill((unsigned char)g.next());
	SignalView<T> out(buf.data(), buf.data() + n);
	const double ca = g.uni(-1, 1), cb = g.uni(-1, 1), ck = g.uni(0, 9);
	auto curve = [=](auto f) { return (decltype(f))(ca + cb * std::cos(ck * (double)f)); };
	auto weight = [=](auto f) { return (decltype(f))(1.3 + std::sin(5 * (double)f)); };
	BasicSignal<T, TIME_DOMAIN> made;
	auto run = [&](const auto& desc) { DesignFilter(out, desc); made = DesignFilter<T, TIME_DOMAIN>(n, desc); };
	auto split = [&](const auto& base) {
		const auto a = base.Cutoff(e[0], e[1]);
		const auto b = defWeight ? a : g.chance(0.5) ? a.Weight(w[0], w[1], w[2]) : base.Weight(w[0], w[1], w[2]).Cutoff(e[0], e[1]);
		if (defGrid) run(b);
		else run(b.Grid(grid));
	};
	auto band = [&](const auto& base) {
		const auto a = base.Band(e[0], e[1], e[2], e[3]);
		const auto b = defWeight ? a : g.chance(0.5) ? a.Weight(w[0], w[1], w[2], w[3], w[4]) : base.Weight(w[0], w[1], w[2], w[3], w[4]).Band(e[0], e[1], e[2], e[3]);
		if (defGrid) run(b);
		else run(b.Grid(grid));
	};
	switch (kind) {
		case 0: split(Fir.Lowpass.LeastSquares); break;
		case 1: split(Fir.Highpass.LeastSquares); break;
		case 2: band(Fir.Bandpass.LeastSquares); break;
		case 3: band(Fir.Bandstop.LeastSquares); break;
		default:
			if (defWeight) defGrid ? run(Fir.Arbitrary.LeastSquares.Response(curve)) : run(Fir.Arbitrary.LeastSquares.Response(curve).Grid(grid));
			else defGrid ? run(Fir.Arbitrary.LeastSquares.Response(curve).Weight(weight)) : run(Fir.Arbitrary.LeastSquares.Grid(grid).Weight(weight).Response(curve));
	}
	c.ok(buf.intact(), "stray-write");
	c.eq(made.size(), n, "length");
	for (size_t i = 0; i < n && made.size() == n; ++i) c.near(made[i], (real)out[i], 1e-3 * (1 + std::fabs((real)out[i])), "forms-disagree", (long long)i);
	std::vector<real> W(G), D(G);
	for (size_t i = 0; i < G; ++i) {
		const real f = (real)i / (real)(G - 1);
		if (kind == 4) { W[i] = defWeight ? 1 : weight(f); D[i] = curve(f); continue; }
		if (kind <= 1) {
			W[i] = f <= (real)e[0] ? w[0] : f <= (real)e[1] ? w[1] : w[2];
			const real up = smooth((f - (real)e[0]) / ((real)e[1] - (real)e[0]));
			D[i] = kind == 0 ? 1 - up : up;
		}
		else {
			W[i] = f <= (real)e[0] ? w[0] : f <= (real)e[1] ? w[1] : f <= (real)e[2] ? w[2] : f <= (real)e[3] ? w[3] : w[4];
			const real up = smooth((f - (real)e[0]) / ((real)e[1] - (real)e[0])), down = smooth((f - (real)e[2]) / ((real)e[3] - (real)e[2]));
			D[i] = kind == 2 ? up - down : 1 - up + down;
		}
	}
	judge<T>(c, out, W, D);
}
FAMILY(least_squares, 300, 6000) {
	switch (c.rng.range(0, 2)) {
		case 0: return leastSquares<float, float>(c);
		case 1: return leastSquares<double, double>(c);
		default: return leastSquares<double, float>(c);
	}
}

template <class T> static void hilbertLs(Case& c) {
	auto& g = c.rng;
	const size_t n = g.size(3, 60);
	const double width = g.uni(0.02, 0.3), weight = g.uni(0.05, 1);
	const size_t hn = n % 2 ? n : 2 * n - 1;
	const size_t grid = g.chance(0.5) ? 0 : g.size(hn, 3 * hn);
	c.p("type", tname<T>()).p("n", n).p("width", width).p("weight", weight).p("grid", grid);
	const auto base = Fir.Hilbert.LeastSquares.TransitionWidth((T)width).TransitionWeight((T)weight);
	const auto h = grid ? DesignFilter<T, TIME_DOMAIN>(n, base.Grid(grid)) : DesignFilter<T, TIME_DOMAIN>(n, base);
	const auto lpd = Fir.Lowpass.LeastSquares.Cutoff((T)(T(0.5) - (T)width), (T)(T(0.5) + (T)width)).Weight(1, (T)weight, 1).Grid(grid);
	const auto lp = DesignFilter<T, TIME_DOMAIN>(hn, lpd);
	c.eq(h.size(), n, "length");
	const long long hc = (long long)hn / 2, step = n % 2 ? 1 : 2;
	for (size_t i = 0; i < h.size() && i < n; ++i) {
		const long long j = (long long)i * step, d = j - hc;
		const int s = d % 2 == 0 ? 0 : ((d % 4 + 4) % 4 == 1 ? 1 : -1);
		c.near(h[i], 2 * s * (real)lp[j], s == 0 ? 0 : 4000 * eps_v<T>, "hilbert", (long long)i);
		c.near(h[i], -(real)h[n - 1 - i], 4000 * eps_v<T>, "antisymmetry", (long long)i);
	}
	// a Hilbert transformer of reasonable length passes the middle of its band with unit gain and a quarter-period shift
	if (n >= 25 && width <= 0.2) {
		for (int k = 0; k < 5; ++k) {
			const real om = PI * (real)g.uni(0.3, 0.7);
			cplx s = 0;
			for (size_t i = 0; i < n; ++i) s += (real)h[i] * std::polar<real>(1, -om * ((real)i - (real)(n - 1) / 2));
			c.near(s.real(), (real)0, 1e4 * eps_v<T>, "quadrature");
			c.near(s.imag(), (real)-1, 0.35, "hilbert-gain");
		}
	}
}
FAMILY(least_squares_hilbert, 100, 2000) { c.rng.chance(0.5) ? hilbertLs<float>(c) : hilbertLs<double>(c); }
#endif
