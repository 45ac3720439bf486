// Reductions, statistics, dot products against long double definitions; exact comparison on exactly representable data.
#include "vh.hpp"
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

namespace {
template <class T> void fillExact(Rng& g, Buf<T>& b, int lim) { for (auto& v : b) v = rnd<T>(g, -lim, lim), v = [&] { if constexpr (is_cplx<T>::value) return T(std::round(v.real()), std::round(v.imag())); else return (T)std::round((double)v); }(); }
template <class T> void fillReal(Rng& g, Buf<T>& b) {
	const double scale = std::ldexp(1.0, (int)(g.chance(0.9) ? g.range(-8, 8) : g.range(-10, 10))), shift = g.pick({ 0.0, 0.0, 0.5, -2.0, 3.0 });
	const int kind = (int)g.range(0, 3);
	size_t i = 0;
	for (auto& v : b) {
		double x = kind == 0 ? g.uni(-1, 1) : kind == 1 ? g.normal() : kind == 2 ? (i % 2 ? 1.0 : -1.0) * g.uni(0.5, 1) : std::exp(g.uni(-5, 0));
		if constexpr (is_cplx<T>::value) v = T((real_of_t<T>)(scale * (x + shift)), (real_of_t<T>)(scale * g.uni(-1, 1)));
		else v = (T)(scale * (x + shift));
		++i;
	}
}
real grow(size_t n) { return 16 + 4 * std::sqrt((real)n); }
} // namespace

template <class T> static void sums(Case& c) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(0, g.chance(0.1) ? 5000 : 400), 200000, 0.002), off = g.size(0, 9);
	const bool exact = g.chance(0.5);
	c.p("t", tname<T>()).p("n", n).p("off", off).p("exact", exact).p("cls", g.range(0, 3));
	if (!n) c.trivial();
	Buf<T> b(n, off);
	if (exact) fillExact(g, b, n > 5000 ? 4 : n > 400 ? 15 : 60); else fillReal(g, b);
	SignalView<const T> v(b.begin(), b.end());
	const Signal<T> s(b.begin(), b.end());
	using W = decltype(wide(T()));
	W sum = 0, sq = 0;
	real asum = 0, asq = 0;
	for (auto& x : b) { W w = wide(x); sum += w; sq += w * w; asum += mag(w); asq += mag(w) * mag(w); }
	const real t1 = exact ? 0 : grow(n) * eps_v<T> * asum, t2 = exact ? 0 : grow(n) * eps_v<T> * asq * 2, e = 4 * eps_v<T>;
	c.near(Sum(v), sum, t1, "sum");
	c.near(Sum(s), sum, t1, "sum");
	c.near(SumSquare(v), sq, t2, "sumsquare");
	const real nn = n ? n : 1;
	c.near(Mean(v), sum / nn, t1 / nn + e * mag(sum) / nn, "mean");
	c.near(MeanSquare(v), sq / nn, t2 / nn + e * mag(sq) / nn, "meansquare");
	if constexpr (!is_cplx<T>::value) {
		c.near(RootMeanSquare(v), std::sqrt(sq / nn), t2 / std::sqrt(sq * nn + 1e-300L) + 2 * e * std::sqrt(sq / nn), "rms");
		c.near(Norm(v), std::sqrt(sq), t2 / std::sqrt(sq + 1e-300L) + 2 * e * std::sqrt(sq), "norm");
		if (n) {
			T hi = b[0], lo = b[0];
			for (auto& x : b) hi = std::max(hi, x), lo = std::min(lo, x);
			c.eq(Max(v), hi, "max");
			c.eq(Min(v), lo, "min");
			c.eq(Max(s), hi, "max");
		}
	}
	c.ok(b.intact(), "wrote-outside");
	c.note("sum", str(sum));
}
FAMILY(sums_real, 24000, 1200000) { c.rng.chance(0.5) ? sums<float>(c) : sums<double>(c); }
FAMILY(sums_cplx, 8000, 400000) { c.rng.chance(0.5) ? sums<cf>(c) : sums<cd>(c); }

// Extrema wherever they are: one outlier planted at each position in turn.
FAMILY(extremum_position, 6000, 300000) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(1, 300), 100000), pos = g.chance(0.3) ? (g.chance(0.5) ? 0 : n - 1) : g.size(0, n - 1);
	const bool neg = g.chance(0.5);
	c.p("n", n).p("pos", pos).p("neg", neg);
	Buf<float> b(n, g.size(0, 5));
	Buf<double> d(n, g.size(0, 5));
	for (size_t i = 0; i < n; ++i) d[i] = b[i] = (float)(g.uni(1, 2) * (neg ? -1 : 1));
	d[pos] = b[pos] = neg ? -0.25f : 0.25f;
	SignalView<const float> v(b.begin(), b.end());
	SignalView<const double> w(d.begin(), d.end());
	if (neg) { c.eq(Max(v), -0.25f, "max"); c.eq(Max(w), -0.25, "max"); }
	else { c.eq(Min(v), 0.25f, "min"); c.eq(Min(w), 0.25, "min"); }
}

template <class T> static void moments(Case& c) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(4, 500), 20000), off = g.size(0, 7);
	c.p("t", tname<T>()).p("n", n).p("off", off).p("v", g.range(0, 99));
	Buf<T> b(n, off);
	fillReal(g, b);
	SignalView<const T> v(b.begin(), b.end());
	const Signal<T> s(b.begin(), b.end());
	const real ep = eps_v<T>;
	real mean = 0, amax = 0;
	for (auto& x : b) mean += x, amax = std::max(amax, mag((real)x));
	mean /= n;
	// about the given centre, with the error a perturbed centre and rounding may cause
	auto moment = [&](int k, real centre, real& tol) {
		const real delta = grow(n) * ep * amax;
		real m = 0, a = 0, p = 0;
		for (auto& x : b) {
			const real d = x - centre;
			m += std::pow(d, k);
			a += std::pow(mag(d), k);
			p += std::pow(mag(d) + delta, k);
		}
		tol = (p - a) / n + (64 + grow(n) + 8 * k) * ep * a / n + 1e-36L;
		return m / n;
	};
	real t[9], m[9];
	for (int k = 1; k <= 8; ++k) m[k] = moment(k, mean, t[k]);
	for (int k = 2; k <= 8; ++k) {
		const T got = g.chance(0.5) ? CentralMoment(v, k) : CentralMoment(s, k);
		c.near(got, m[k], t[k], "central-moment", k);
		if (k % 2 == 0) c.ok(got >= 0, "even-moment-negative");
	}
	const int kh = (int)g.range(9, 13);
	real th;
	const real mh = moment(kh, mean, th);
	if (std::pow(2 * amax, kh) < (real)std::numeric_limits<T>::max() / 1e3L / n && std::pow(amax, kh) > (real)std::numeric_limits<T>::min() * 1e12L)
		c.near(CentralMoment(v, kh), mh, th, "high-central-moment", kh);
	c.near(CentralMoment(v, 1), 0, t[1], "first-moment");
	const T centre = (T)(mean + g.uni(-1, 1) * amax);
	const int kc = (int)g.range(2, 7);
	real tc;
	const real mc = moment(kc, centre, tc);
	c.near(CentralMoment(v, kc, centre), mc, tc, "moment-about", kc);
	const real var = m[2], sd = std::sqrt(var);
	c.near(Variance(v), var, t[2], "variance");
	c.ok(Variance(v) >= 0, "variance-negative");
	if (t[2] > 0.05L * var) return;
	const real tsd = t[2] / sd + 4 * ep * sd;
	c.near(StandardDeviation(v), sd, tsd, "standard-deviation");
	auto standard = [&](int k, real& tol) {
		const real z = m[k] / std::pow(sd, k);
		tol = t[k] / std::pow(sd, k) * 1.2L + mag(z) * k * t[2] / var + 64 * ep * (1 + mag(z));
		return z;
	};
	real ts;
	for (int k = 2; k <= 7; ++k) { const real z = standard(k, ts); c.near(StandardizedMoment(v, k), z, ts, "standardized-moment", k); }
	real tk, tsk;
	const real skew = standard(3, tsk), kurt = standard(4, tk);
	c.near(Skewness(v), skew, tsk, "skewness");
	c.near(Kurtosis(v), kurt, tk, "kurtosis");
	const real N = n;
	c.near(CorrectedVariance(v), var * N / (N - 1), t[2] * 1.5L + 8 * ep * var, "corrected-variance");
	c.near(CorrectedStandardDeviation(v), sd * std::sqrt(N / (N - 1)), tsd * 1.5L + 8 * ep * sd, "corrected-deviation");
	c.near(CorrectedVariance(s), var * N / (N - 1), t[2] * 1.5L + 8 * ep * var, "corrected-variance");
	const real cs = std::sqrt(N * (N - 1)) / (N - 2);
	c.near(CorrectedSkewness(v), skew * cs, (tsk + 64 * ep * (1 + mag(skew))) * cs * 1.5L, "corrected-skewness");
	{
		const real m2 = m[2], m4 = m[4];
		auto full = [&](real m2, real m4) {
			const real Kx = (N - 1) / (N * N * N) * ((N * N - 3 * N + 3) * m4 + (6 * N - 9) * (m2 * m2));
			const real s2x = (N - 1) / N * m2;
			const real K = (N * N) / ((N - 1) * (N - 1) * (N - 1) * (N * N - 3 * N + 3)) * ((N * (N - 1) * (N - 1) + (6 * N - 9)) * Kx - N * (6 * N - 9) * s2x * s2x);
			const real s2 = N / (N - 1) * m2;
			return K / (s2 * s2);
		};
		const real K = full(m2, m4);
		const real tol = mag(full(m2, m4 + t[4]) - K) + mag(full(m2 + t[2], m4) - K) + 256 * ep * (1 + mag(K));
		c.near(CorrectedKurtosis(v), K, tol * 1.5L, "corrected-kurtosis");
	}
	// explicit-mean overloads agree with the implicit ones
	const T mu = Mean(v);
	c.near(Variance(v, mu), var, t[2], "variance-mean");
	c.near(StandardDeviation(v, mu), sd, tsd, "deviation-mean");
	c.near(Skewness(v, mu), skew, tsk, "skewness-mean");
	c.near(Kurtosis(v, mu), kurt, tk, "kurtosis-mean");
	c.ok(b.intact(), "wrote-outside");
	c.note("mean", mean).note("var", var);
}
FAMILY(moments_, 8000, 400000) { c.rng.chance(0.5) ? moments<float>(c) : moments<double>(c); }

template <class T> static void cov(Case& c) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(2, 500), 50000);
	const double rho = g.uni(-1, 1);
	const bool shared = g.chance(0.08); // both taken from the same samples
	const size_t lag = shared ? g.size(0, 3) : 0;
	c.p("t", tname<T>()).p("n", n).p("rho", std::round(rho * 8)).p("v", g.range(0, 99)).p("shared", shared ? (int)lag : -1);
	Buf<T> a(n + lag, g.size(0, 7)), own(n, g.size(0, 7));
	T* b = shared ? a.data() + lag : own.data();
	fillReal(g, a);
	fillReal(g, own);
	if (!shared && g.chance(0.5)) for (size_t i = 0; i < n; ++i) b[i] = (T)(rho * a[i] + (1 - std::fabs(rho)) * b[i]);
	SignalView<const T> va(a.begin(), a.begin() + n), vb(b, b + n);
	const real ep = eps_v<T>;
	real ma = 0, mb = 0, xa = 0, xb = 0;
	for (size_t i = 0; i < n; ++i) ma += a[i], mb += b[i], xa = std::max(xa, mag((real)a[i])), xb = std::max(xb, mag((real)b[i]));
	ma /= n, mb /= n;
	real cv = 0, da = 0, db = 0, ca = 0, cb = 0, cc = 0;
	for (size_t i = 0; i < n; ++i) { real x = a[i] - ma, y = b[i] - mb; cv += x * y; da += mag(x); db += mag(y); ca += x * x; cb += y * y; cc += mag(x * y); }
	const real N = n, dxa = grow(n) * ep * xa, dxb = grow(n) * ep * xb;
	const real tol = (da * dxb + db * dxa) / N + dxa * dxb + grow(n) * ep * cc / N;
	c.near(Covariance(va, vb), cv / N, tol, "covariance");
	c.near(Covariance(va, vb, Mean(va), Mean(vb)), cv / N, tol, "covariance-means");
	c.near(CorrectedCovariance(va, vb), cv / (N - 1), tol * N / (N - 1) + 8 * ep * mag(cv) / (N - 1), "corrected-covariance");
	c.near(Covariance(va, vb), (real)Covariance(vb, va), tol, "covariance-symmetry");
	const real ta = (2 * da * dxa / N + dxa * dxa) + grow(n) * ep * ca / N, tb = (2 * db * dxb / N + dxb * dxb) + grow(n) * ep * cb / N;
	if (ta < 0.02L * ca / N && tb < 0.02L * cb / N) {
		const real r = cv / std::sqrt(ca * cb), sden = std::sqrt(ca * cb) / N;
		const real tr = 1.2L * (tol / sden + mag(r) * (ta * N / ca + tb * N / cb)) + 16 * ep;
		c.near(Correlation(va, vb), r, tr, "correlation");
		c.ok(std::fabs((double)Correlation(va, vb)) <= 1 + (double)tr, "correlation-range");
		c.near(Correlation(va, va), 1, 1.2L * 3 * ta * N / ca + 16 * ep, "self-correlation");
	}
	c.ok(a.intact() && own.intact(), "wrote-outside");
}
FAMILY(covariance, 8000, 400000) { c.rng.chance(0.5) ? cov<float>(c) : cov<double>(c); }

// A power of two scales the samples without rounding: sums follow it, the dimensionless figures do not notice, as long as
// the quantities of the definition (here: up to fourth powers) have a place in the type.
template <class T> static void scaling(Case& c) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(4, 300), 20000);
	const bool four = g.chance(0.4);
	const int lim = (sizeof(T) == 4 ? 100 : 960) / (four ? 4 : 2), ea = (int)g.range(-lim, lim), eb = (int)g.range(-lim, lim);
	c.p("t", tname<T>()).p("n", n).p("ea", ea).p("eb", eb).p("v", g.range(0, 99));
	Buf<T> a(n, g.size(0, 7)), b(n, g.size(0, 7)), sa(n, g.size(0, 7)), sb(n, g.size(0, 7));
	// spread over the type's precision only: nothing of a sample is lost at either end of the range
	for (size_t i = 0; i < n; ++i) a[i] = (T)(g.uni(0.5, 1) * (i % 3 ? 1 : -1)), b[i] = (T)(0.5 * a[i] + g.uni(0.25, 0.5) * (i % 2 ? 1 : -1));
	for (size_t i = 0; i < n; ++i) sa[i] = std::ldexp(a[i], ea), sb[i] = std::ldexp(b[i], eb);
	SignalView<const T> va(a.begin(), a.end()), vb(b.begin(), b.end()), wa(sa.begin(), sa.end()), wb(sb.begin(), sb.end());
	const real e = 64 * (real)eps_v<T>;
	auto like = [&](T big, T small, int k, const char* key) { c.near(std::ldexp((real)big, -k), small, e * mag((real)small), key); };
	real ma = 0, xa = 0;
	for (auto& v : a) ma += v, xa += mag((real)v);
	c.near(std::ldexp((real)Sum(wa), -ea), Sum(va), 2 * grow(n) * eps_v<T> * xa, "scaled-sum");
	c.near(std::ldexp((real)Mean(wa), -ea), Mean(va), 2 * grow(n) * eps_v<T> * xa / n, "scaled-mean");
	like(SumSquare(wa), SumSquare(va), 2 * ea, "scaled-sum-square");
	like(Norm(wa), Norm(va), ea, "scaled-norm");
	like(RootMeanSquare(wa), RootMeanSquare(va), ea, "scaled-rms");
	like(Max(wa), Max(va), ea, "scaled-max");
	like(Variance(wa), Variance(va), 2 * ea, "scaled-variance");
	like(StandardDeviation(wa), StandardDeviation(va), ea, "scaled-deviation");
	like(CorrectedVariance(wa), CorrectedVariance(va), 2 * ea, "scaled-corrected-variance");
	if (std::abs(ea + eb) <= 2 * lim) {
		const real loose = 4 * grow(n) * eps_v<T>;
		c.near(std::ldexp((real)DotProduct(wa, wb), -ea - eb), DotProduct(va, vb), loose * n, "scaled-dot");
		c.near(std::ldexp((real)Covariance(wa, wb), -ea - eb), Covariance(va, vb), loose, "scaled-covariance");
		c.near(Correlation(wa, wb), Correlation(va, vb), e, "scaled-correlation");
		c.near(Correlation(wa, wa), 1, 4 * loose, "scaled-self-correlation");
	}
	if (four) {
		c.near(Skewness(wa), Skewness(va), e * (1 + mag((real)Skewness(va))), "scaled-skewness");
		c.near(Kurtosis(wa), Kurtosis(va), e * (1 + mag((real)Kurtosis(va))), "scaled-kurtosis");
		const double room = sizeof(T) == 4 ? 110 : 1000; // its bias terms weigh the fourth powers with up to the third power of the length
		if (4 * std::abs(ea) + 3.5 * std::log2((double)n) < room) c.near(CorrectedKurtosis(wa), CorrectedKurtosis(va), 8 * e * (1 + mag((real)CorrectedKurtosis(va))), "scaled-corrected-kurtosis");
	}
	c.ok(a.intact() && b.intact() && sa.intact() && sb.intact(), "wrote-outside");
}
FAMILY(scaling_, 4000, 200000) { c.rng.chance(0.5) ? scaling<float>(c) : scaling<double>(c); }

template <class A, class B> static void dot(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	const size_t n = g.longer(g.len(0, g.chance(0.1) ? 3000 : 400), 100000, 0.002), oa = g.size(0, 9), ob = g.size(0, 9);
	const bool exact = g.chance(0.5);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("n", n).p("off", oa * 10 + ob).p("exact", exact);
	if (!n) c.trivial();
	Buf<A> a(n, oa);
	Buf<B> b(n, ob);
	if (exact) fillExact(g, a, n > 3000 ? 4 : 20), fillExact(g, b, n > 3000 ? 4 : 20); else fillReal(g, a), fillReal(g, b);
	SignalView<const A> va(a.begin(), a.end());
	// both factors may be the same samples
	const B* vp = b.data();
	if constexpr (std::is_same_v<A, B>) if (g.chance(0.15)) vp = a.data();
	c.p("shared", (const void*)vp != (const void*)b.data());
	SignalView<const B> vb(vp, vp + n);
	using W = decltype(wide(R()));
	W sum = 0;
	real as = 0;
	for (size_t i = 0; i < n; ++i) {
		if constexpr (is_cplx<B>::value) sum += wide(a[i]) * std::conj(wide(vp[i]));
		else sum += wide(a[i]) * wide(vp[i]);
		as += mag(wide(a[i])) * mag(wide(vp[i]));
	}
	const real tol = exact ? 0 : 2 * grow(n) * std::max(eps_v<A>, eps_v<B>) * as;
	const auto got = DotProduct(va, vb);
	c.ok(std::is_same_v<std::decay_t<decltype(got)>, R>, "result-type");
	c.near(got, sum, tol, "dot");
	c.near(DotProduct(Signal<A>(a.begin(), a.end()), Signal<B>(vp, vp + n)), sum, tol, "dot");
	c.ok(a.intact() && b.intact(), "wrote-outside");
	c.note("dot", str(sum));
}
FAMILY(dot_, 20000, 1000000) {
	switch (c.rng.range(0, 6)) {
		case 0: return dot<float, float>(c);
		case 1: return dot<double, double>(c);
		case 2: return dot<cf, cf>(c);
		case 3: return dot<cd, cd>(c);
		case 4: return dot<float, cf>(c);
		case 5: return dot<cd, double>(c);
		default: return dot<float, double>(c);
	}
}

// The reduction kernels with an initial value: exact on integers, counted once whatever the operation.
template <class T> static void kern(Case& c) {
	auto& g = c.rng;
	const size_t n = g.len(0, 500);
	const int op = (int)g.range(0, 4);
	c.p("t", tname<T>()).p("n", n).p("op", op).p("off", g.range(0, 7));
	if (!n) c.trivial();
	Buf<T> a(n, g.size(0, 7)), b(n, g.size(0, 7));
	fillExact(g, a, 20);
	fillExact(g, b, 20);
	using W = decltype(wide(T()));
	const T init = (T)(real_of_t<T>)g.range(-30, 30);
	W e = wide(init);
	T got{};
	switch (op) {
		case 0: for (auto& x : a) e += wide(x); got = kernels::Reduce(a.begin(), a.end(), init, std::plus<>{}); break;
		case 1: for (auto& x : a) e += wide(x); got = kernels::Reduce(a.begin(), a.end(), init, plus_compensated<>{}); break;
		case 2: for (auto& x : a) e += wide(x) * wide(x); got = kernels::TransformReduce(a.begin(), a.end(), init, std::plus<>{}, [](const auto& v) { return v * v; }); break;
		case 3: for (size_t i = 0; i < n; ++i) e += wide(a[i]) * wide(b[i]); got = kernels::InnerProduct(a.begin(), a.end(), b.begin(), init, std::plus<>{}, std::multiplies<>{}); break;
		default: for (size_t i = 0; i < n; ++i) e += wide(a[i]) * wide(b[i]); got = kernels::InnerProduct(a.begin(), a.end(), b.begin(), init, plus_compensated<>{}, std::multiplies<>{}); break;
	}
	c.near(got, e, 0, "kernel");
	c.ok(a.intact() && b.intact(), "wrote-outside");
}
FAMILY(kernels_, 16000, 800000) {
	switch (c.rng.range(0, 4)) {
		case 0: return kern<float>(c);
		case 1: return kern<double>(c);
		case 2: return kern<cf>(c);
		case 3: return kern<int>(c);
		default: return kern<cd>(c);
	}
}

// Compensated summation keeps its error independent of the number of terms.
FAMILY(compensated, 200, 4000) {
	auto& g = c.rng;
	const size_t n = g.size(100000, 400000);
	const double x0 = g.uni(0.1, 1);
	c.p("n", n).p("x", x0);
	std::vector<float> a(n);
	real e = 0, as = 0;
	for (auto& x : a) { x = (float)(x0 * (1 + 0.01 * g.uni())); e += x; as += std::fabs(x); }
	c.near(kernels::Reduce(a.begin(), a.end(), 0.0f, plus_compensated<>{}), e, 8 * eps_v<float> * as, "compensated-sum");
	std::vector<float> one(n, 1.0f);
	c.near(kernels::InnerProduct(a.begin(), a.end(), one.begin(), 0.0f, plus_compensated<>{}, std::multiplies<>{}), e, 8 * eps_v<float> * as, "compensated-product");
}
