// One entry per public operation: inputs drawn from the case's seed, every buffer placed by the environment.
// The outcome is the bytes of everything returned or written, so two executions can be compared bit for bit.
#pragma once
#include "vh.hpp"
#include <cassert>
#include <stdexcept>
#include <algorithm>
#include <any>
#include <array>
#include <tuple>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Math/RootTransforms.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#if VH_MEMCHECK
#include <valgrind/memcheck.h>
#endif

namespace ops {
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

struct Env {
	u64 align = 0;           // seed of the buffer offsets; 0: all at the start of their allocation
	unsigned char stale = 0; // what outputs hold before the call
};
struct Ctx {
	Rng rng;   // what the operation is asked to do
	Rng place; // where its buffers are
	Env env;
	std::vector<unsigned char> bytes; // everything the operation produced
	std::string desc;
	std::string problem; // first broken guarantee
	bool empty = false;  // no element was processed
	size_t maxLen = 200;
	struct Held {
		virtual ~Held() = default;
		virtual void collect(Ctx&) = 0;
	};
	std::vector<std::unique_ptr<Held>> held;

	Ctx(u64 seed, const Env& e) : rng(seed), place(e.align), env(e) {}
	template <class V> Ctx& p(const char* k, const V& v) {
		std::ostringstream o;
		o << k << '=' << v << ' ';
		desc += o.str();
		return *this;
	}
	size_t offset() { return env.align ? place.size(0, 15) : 0; }
	size_t len(size_t lo = 0, size_t hi = 0) {
		const size_t n = rng.len(lo, hi ? hi : maxLen);
		p("n", n);
		if (n == 0) empty = true;
		return n;
	}
	void note(const std::string& s) { if (problem.empty()) problem = s; }
	void raw(const void* d, size_t n) {
#if VH_MEMCHECK
		if (n && VALGRIND_CHECK_MEM_IS_DEFINED(d, n)) note("a result depends on uninitialised memory");
		if (n) VALGRIND_MAKE_MEM_DEFINED(d, n);
#endif
		bytes.insert(bytes.end(), (const unsigned char*)d, (const unsigned char*)d + n);
	}
	template <class T> void put(const T& v) {
		if constexpr (std::is_arithmetic_v<T> || is_cplx<T>::value) raw(&v, std::is_same_v<T, long double> ? 10 : sizeof v);
		else { put((u64)v.size()); for (const auto& x : v) put(x); }
	}
	template <class T> struct In : Held {
		Buf<T> b;
		std::vector<T> keep;
		In(size_t n, size_t off) : b(n, off) {}
		void collect(Ctx& c) override {
			if (!b.intact()) c.note("wrote outside a buffer (around an input)");
			if (keep.size() && std::memcmp(keep.data(), b.data(), keep.size() * sizeof(T))) c.note("an input was modified");
		}
	};
	template <class T> struct Out : Held {
		Buf<T> b;
		Out(size_t n, size_t off) : b(n, off) {}
		void collect(Ctx& c) override {
			if (!b.intact()) c.note("wrote outside a buffer (around an output)");
			c.put((u64)b.size());
			c.raw(b.data(), b.size() * sizeof(T));
		}
	};
	// A read-only input of n elements.
	template <class T, eSignalDomain D = TIME_DOMAIN> BasicSignalView<const T, D> in(size_t n, double lo = -1, double hi = 1) {
		auto h = std::make_unique<In<T>>(n, offset());
		for (auto& v : h->b) v = rnd<T>(rng, lo, hi);
		h->keep.assign(h->b.begin(), h->b.end());
		BasicSignalView<const T, D> v(h->b.data(), h->b.data() + n);
		held.push_back(std::move(h));
		return v;
	}
	// An output of n elements, holding something stale.
	template <class T, eSignalDomain D = TIME_DOMAIN> BasicSignalView<T, D> out(size_t n) {
		auto h = std::make_unique<Out<T>>(n, offset());
		h->b.fill(env.stale);
#if VH_MEMCHECK
		if (n) VALGRIND_MAKE_MEM_UNDEFINED(h->b.data(), n * sizeof(T));
#endif
		BasicSignalView<T, D> v(h->b.data(), h->b.data() + n);
		held.push_back(std::move(h));
		return v;
	}
	// A buffer which is input and output.
	template <class T, eSignalDomain D = TIME_DOMAIN> BasicSignalView<T, D> inout(size_t n, double lo = -1, double hi = 1) {
		auto h = std::make_unique<Out<T>>(n, offset());
		for (auto& v : h->b) v = rnd<T>(rng, lo, hi);
		BasicSignalView<T, D> v(h->b.data(), h->b.data() + n);
		held.push_back(std::move(h));
		return v;
	}
	void finish() {
		for (auto& h : held) h->collect(*this);
		held.clear();
	}
};
using Fn = void (*)(Ctx&);
struct Op {
	const char* name;
	Fn fn;
};
inline std::vector<Op>& all() { static std::vector<Op> v; return v; }
struct RegOp { RegOp(const char* n, Fn f) { all().push_back({ n, f }); } };
inline Ctx run(Fn fn, u64 seed, const Env& env, size_t maxLen, double nudge = 0, u64 which = 0) {
	Ctx c(seed, env);
	c.maxLen = maxLen;
	c.rng.nudge = nudge;
	c.rng.which = which;
	fn(c);
	c.finish();
	return c;
}
#ifndef OP_FAMILY
#define OP_FAMILY(name)
#endif
#define OP(name)                                  \
	static void name(ops::Ctx& c);                \
	static ops::RegOp VH_CAT(regop_, name)(#name, &name); \
	OP_FAMILY(name)                               \
	static void name(ops::Ctx& c)
} // namespace ops

namespace opset {
using namespace dspbb;
using namespace vh;
using ops::Ctx;
using ops::cd;
using ops::cf;

#define PICK4(fn)                                     \
	switch (c.rng.range(0, 3)) {                      \
		case 0: c.p("t", "f"); return fn<float>(c);   \
		case 1: c.p("t", "d"); return fn<double>(c);  \
		case 2: c.p("t", "cf"); return fn<cf>(c);     \
		default: c.p("t", "cd"); return fn<cd>(c);    \
	}
#define PICK2(fn)                                     \
	if (c.rng.chance(0.5)) { c.p("t", "f"); return fn<float>(c); } \
	else { c.p("t", "d"); return fn<double>(c); }

#if VH_PART == 1
// ------------------------------------------------------------------ arithmetic
template <class T> void arithT(Ctx& c) {
	const size_t n = c.len();
	const int op = (int)c.rng.range(0, 3), form = (int)c.rng.range(0, 2), style = (int)c.rng.range(0, 2);
	c.p("op", op).p("form", form).p("style", style);
	const T s = rnd<T>(c.rng, 0.5, 2);
	if (style == 2) { // in place
		auto a = c.inout<T>(n);
		if (form == 1) {
			switch (op) { case 0: a += s; break; case 1: a -= s; break; case 2: a *= s; break; default: a /= s; }
		}
		else if (form == 2) { // same operand twice
			switch (op) { case 0: Add(a, a, a); break; case 1: Subtract(a, a, a); break; case 2: Multiply(a, a, a); break; default: Divide(a, a, s); }
		}
		else {
			auto b = c.in<T>(n, 0.5, 2);
			switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; }
		}
		return;
	}
	auto a = c.in<T>(n, 0.5, 2), b = c.in<T>(n, 0.5, 2);
	if (style == 1) {
		auto go = [&](const auto& x, const auto& y) {
			switch (op) { case 0: c.put(x + y); break; case 1: c.put(x - y); break; case 2: c.put(x * y); break; default: c.put(x / y); }
		};
		if (form == 0) go(a, b);
		else if (form == 1) go(s, b);
		else go(a, s);
		return;
	}
	auto o = c.out<T>(n);
	auto go = [&](const auto& x, const auto& y) {
		switch (op) { case 0: Add(o, x, y); break; case 1: Subtract(o, x, y); break; case 2: Multiply(o, x, y); break; default: Divide(o, x, y); }
	};
	if (form == 0) go(a, b);
	else if (form == 1) go(s, b);
	else go(a, s);
}
OP(arithmetic) { PICK4(arithT) }

#define VH_FN(NAME, lo, hi) [](Ctx& c) { const size_t n = c.len(); auto a = c.in<T>(n, lo, hi); c.p("f", #NAME); if (c.rng.chance(0.3)) c.put(NAME(a)); else { auto o = c.out<std::decay_t<decltype(NAME(a)[0])>>(n); NAME(o, a); } }
template <class T> void fnR(Ctx& c) {
	static const ops::Fn f[] = { VH_FN(Abs, -9, 9), VH_FN(Log, 0.01, 9), VH_FN(Log2, 0.01, 9), VH_FN(Log10, 0.01, 9), VH_FN(Exp, -9, 9), VH_FN(Sqrt, 0, 9), VH_FN(Cbrt, -9, 9), VH_FN(Sin, -9, 9), VH_FN(Cos, -9, 9),
		VH_FN(Tan, -1.4, 1.4), VH_FN(Asin, -.9, .9), VH_FN(Acos, -.9, .9), VH_FN(Atan, -9, 9), VH_FN(Sinh, -9, 9), VH_FN(Cosh, -9, 9), VH_FN(Tanh, -9, 9), VH_FN(Asinh, -9, 9), VH_FN(Acosh, 1.1, 9), VH_FN(Atanh, -.9, .9),
		VH_FN(Erf, -3, 3), VH_FN(Erfc, -3, 3), VH_FN(TGamma, 0.1, 9), VH_FN(LGamma, 14, 30), VH_FN(Real, -9, 9), VH_FN(Imag, -9, 9), VH_FN(Arg, -9, 9) };
	f[c.rng.size(0, std::size(f) - 1)](c);
}
template <class T> void fnC(Ctx& c) {
	static const ops::Fn f[] = { VH_FN(Abs, -9, 9), VH_FN(Arg, -9, 9), VH_FN(Real, -9, 9), VH_FN(Imag, -9, 9), VH_FN(Conj, -9, 9), VH_FN(Log, 0.5, 9), VH_FN(Log10, .5, 9), VH_FN(Exp, -5, 5), VH_FN(Sqrt, .5, 9), VH_FN(Sin, -5, 5), VH_FN(Cos, -5, 5),
		VH_FN(Tan, -1, 1), VH_FN(Sinh, -5, 5), VH_FN(Cosh, -5, 5), VH_FN(Tanh, -1, 1), VH_FN(Asin, .1, 3), VH_FN(Acos, .1, 3), VH_FN(Atan, .1, .8) };
	f[c.rng.size(0, std::size(f) - 1)](c);
}
OP(functions) {
	switch (c.rng.range(0, 3)) {
		case 0: c.p("t", "f"); return fnR<float>(c);
		case 1: c.p("t", "d"); return fnR<double>(c);
		case 2: c.p("t", "cf"); return fnC<cf>(c);
		default: c.p("t", "cd"); return fnC<cd>(c);
	}
}
template <class T> void powT(Ctx& c) {
	const size_t n = c.len();
	auto a = c.in<T>(n, 0.2, 4);
	const auto p = (real_of_t<T>)c.rng.pick<double>({ 0.5, 2, -1, 2.5 });
	if (c.rng.chance(0.5)) c.put(Pow(BasicSignal<T, TIME_DOMAIN>(a.begin(), a.end()), p));
	else { auto o = c.out<T>(n); Pow(o, a, p); }
}
OP(power) { PICK4(powT) }

// ------------------------------------------------------------------ statistics
template <class T> void sumT(Ctx& c) {
	auto a = c.in<T>(c.len());
	c.put(Sum(a)); c.put(SumSquare(a));
	if (a.size()) { c.put(Mean(a)); c.put(MeanSquare(a)); }
	if constexpr (!is_cplx<T>::value) if (a.size()) { c.put(RootMeanSquare(a)); c.put(Norm(a)); c.put(Max(a)); c.put(Min(a)); }
	auto b = c.in<T>(a.size());
	c.put(DotProduct(a, b));
}
OP(sums) { PICK4(sumT) }
template <class T> void momT(Ctx& c) {
	auto a = c.in<T>(c.len(5));
	auto b = c.in<T>(a.size());
	const T m = (T)c.rng.uni(-1, 1);
	c.put(CentralMoment(a, c.rng.size(1, 6))); c.put(CentralMoment(a, c.rng.size(1, 6), m)); c.put(StandardizedMoment(a, 3)); c.put(StandardizedMoment(a, 4, m));
	c.put(StandardDeviation(a)); c.put(Variance(a)); c.put(Skewness(a)); c.put(Kurtosis(a)); c.put(Variance(a, m)); c.put(Skewness(a, m)); c.put(Kurtosis(a, m));
	c.put(CorrectedStandardDeviation(a)); c.put(CorrectedVariance(a)); c.put(CorrectedSkewness(a)); c.put(CorrectedKurtosis(a));
	c.put(Covariance(a, b)); c.put(CorrectedCovariance(a, b)); c.put(Correlation(a, b)); c.put(Covariance(a, b, m, m));
}
OP(moments) { PICK2(momT) }
template <class T> void kernT(Ctx& c) {
	const size_t n = c.len();
	auto a = c.in<T>(n), b = c.in<T>(n);
	const T init = rnd<T>(c.rng);
	c.put(kernels::Reduce(a.begin(), a.end(), init, std::plus<>{}));
	c.put(kernels::Reduce(a.begin(), a.end(), init, plus_compensated<>{}));
	c.put(kernels::TransformReduce(a.begin(), a.end(), init, std::plus<>{}, [](const auto& v) { return v * v; }));
	c.put(kernels::InnerProduct(a.begin(), a.end(), b.begin(), init, std::plus<>{}, std::multiplies<>{}));
	c.put(kernels::InnerProduct(a.begin(), a.end(), b.begin(), init, plus_compensated<>{}, std::multiplies<>{}));
	auto o = c.out<T>(n), o2 = c.out<T>(n);
	kernels::Transform(a.begin(), a.end(), o.begin(), [](const auto& v) { return v + v; });
	kernels::Transform(a.begin(), a.end(), b.begin(), o2.begin(), [](const auto& v, const auto& w) { return v * w; });
}
OP(kernels_) { PICK4(kernT) }

// ------------------------------------------------------------------ generators
template <class T> void waveT(Ctx& c) {
	const size_t n = c.len();
	auto o = c.out<T>(n);
	const uint64_t fs = (uint64_t)c.rng.range(1, 50000);
	const double f = c.rng.uni(-0.5, 0.5) * fs, f2 = c.rng.uni(-0.5, 0.5) * fs, ph = c.rng.uni(-10, 10), q = c.rng.uni();
	const int w = (int)c.rng.range(0, 8);
	c.p("wave", w);
	switch (w) {
		case 0: SineWave(o, fs, f, ph); break;
		case 1: SawtoothWave(o, fs, f, ph, q); break;
		case 2: PwmWave(o, fs, f, ph, q); break;
		case 3: SquareWave(o, fs, f, ph); break;
		case 4: SineChirp(o, fs, f, f2, ph); break;
		case 5: SawtoothChirp(o, fs, f, f2, ph, q); break;
		case 6: PwmChirp(o, fs, f, f2, ph, q); break;
		case 7: SquareChirp(o, fs, f, f2, ph); break;
		default: c.put(SineWave<T, TIME_DOMAIN>(n, fs, f, ph));  SquareWave(o, fs, f, ph);
	}
}
OP(waves) { PICK2(waveT) }
template <class T> void spaceT(Ctx& c) {
	using R = real_of_t<T>;
	auto o = c.out<T>(c.len());
	auto q = c.out<T>(o.size());
	const R a = (R)c.rng.uni(-3, 3), b = (R)c.rng.uni(-3, 3);
	LinSpace(o, a, b, c.rng.chance(0.5));
	LogSpace(q, a, b, R(10), c.rng.chance(0.5));
	c.put(LinSpace<T, TIME_DOMAIN>(a, b, o.size()));
}
OP(spaces) { PICK4(spaceT) }

// ------------------------------------------------------------------ rationals, polynomials, containers
OP(rationals) {
	Rational<int64_t> a(c.rng.range(-999, 999), c.rng.range(1, 999)), b(c.rng.range(-999, 999), c.rng.range(1, 999));
	for (int i = 0; i < 6; ++i) {
		auto put = [&](auto r) { c.put(r.Numerator()); c.put(r.Denominator()); };
		put(a + b); put(a - b); put(a * b);
		if (b.Numerator()) put(a / b);
		c.put((int)(a < b)); c.put((int)(a == b)); c.put((long long)floor(a)); c.put((long long)ceil(a));
		a = Rational<int64_t>(c.rng.range(-99, 99), c.rng.range(1, 99));
	}
	c.p("i", c.rng.range(0, 9999));
}
template <class T> void polyT(Ctx& c) {
	const size_t nr = c.rng.size(0, 6), nc = c.rng.size(0, 4);
	c.p("nr", nr).p("nc", nc);
	FactoredPolynomial<T> f;
	f.resize(nr, nc);
	for (auto& r : f.real_roots()) r = (T)c.rng.uni(-1, 1);
	for (auto& r : f.complex_pairs()) r = std::complex<T>((T)c.rng.uni(-1, 1), (T)c.rng.uni(0.1, 1));
	auto e = ExpandPolynomial(f);
	c.put(e.coefficients());
	const T x = (T)c.rng.uni(-2, 2);
	const std::complex<T> z((T)c.rng.uni(-2, 2), (T)c.rng.uni(-2, 2));
	c.put(f(x)); c.put(f(z)); c.put(e(x)); c.put(e(z));
	f.resize(c.rng.size(0, 7), c.rng.size(0, 5), x, z);
	c.put(f.real_roots()); c.put(f.complex_pairs());
	e.resize(c.rng.size(0, 9), x);
	c.put(e.coefficients());
	FactoredPolynomial<T> g = f, h;
	h = std::move(f);
	c.put(g(x)); c.put(h(x));
}
OP(polynomials) { PICK2(polyT) }
template <class T> void seqT(Ctx& c) {
	BasicSignal<T, TIME_DOMAIN> s;
	for (int i = 0; i < 12; ++i) {
		const size_t n = c.rng.size(0, 40), at = c.rng.size(0, s.size());
		const T v = rnd<T>(c.rng);
		BasicSignal<T, TIME_DOMAIN> t(n, v);
		switch (c.rng.range(0, 8)) {
			case 0: s.resize(n, v); break;
			case 1: s.append(t); break;
			case 2: s.prepend(t); break;
			case 3: s.insert(s.begin() + at, t.begin(), t.end()); break;
			case 4: s.erase(s.begin() + at, s.end()); break;
			case 5: s.push_back(v); break;
			case 6: s.erase(s.begin(), s.begin() + at); break;
			case 7: s = std::move(t); break;
			default: { auto e = s; s.clear(); c.put(e); s.append(e); }
		}
		c.put(s);
		BasicSignalView<const T, TIME_DOMAIN> w(s);
		c.put(w.subsignal(std::min(at, s.size())));
	}
	c.p("i", c.rng.range(0, 9999));
}
OP(sequences) { PICK4(seqT) }
#endif

#if VH_PART == 2
// ------------------------------------------------------------------ convolution, overlap-add, FIR filtering
template <class A, class B> void convT(Ctx& c) {
	using R = decltype(A() * B());
	const size_t nu = c.len(1), nv = c.len(1), full = nu + nv - 1;
	auto u = c.in<A>(nu);
	auto v = c.in<B>(nv);
	const int how = (int)c.rng.range(0, 4);
	const size_t off = c.rng.size(0, full - 1), n = c.rng.size(0, full - off);
	c.p("how", how).p("off", off).p("len", n);
	switch (how) {
		case 0: c.put(Convolution(u, v, CONV_FULL)); break;
		case 1: c.put(Convolution(u, v, CONV_CENTRAL)); break;
		case 2: { auto o = c.out<R>(n); Convolution(o, u, v, off); break; }
		case 3: { auto o = c.inout<R>(n); Convolution(o, u, v, off, false); break; }
		default: c.put(Convolution(u, v, off, n));
	}
}
OP(convolution) {
	switch (c.rng.range(0, 5)) {
		case 0: return convT<float, float>(c);
		case 1: return convT<double, double>(c);
		case 2: return convT<cf, cf>(c);
		case 3: return convT<cd, cd>(c);
		case 4: return convT<float, cf>(c);
		default: return convT<cd, double>(c);
	}
}
template <class A, class B> void kernelT(Ctx& c) {
	using R = decltype(A() * B());
	const size_t nu = c.len(1), nv = c.len(1), full = nu + nv - 1;
	auto u = c.in<A>(nu);
	auto v = c.in<B>(nv);
	const size_t off = c.rng.size(0, full), n = c.rng.size(0, full - off);
	const int k = (int)c.rng.range(0, 3);
	c.p("k", k).p("off", off).p("len", n);
	auto o = c.out<R>(n);
	switch (k) {
		case 0: kernels::ConvolutionNaive(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, false); break;
		case 1: kernels::ConvolutionSlide(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, false); break;
		case 2: kernels::ConvolutionReduce(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off); break;
		default: kernels::ConvolutionReduceVec(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, false);
	}
}
OP(convolution_kernels) {
	switch (c.rng.range(0, 2)) {
		case 0: return kernelT<float, float>(c);
		case 1: return kernelT<double, double>(c);
		default: return kernelT<cf, cf>(c);
	}
}
template <class A, class B> void olaT(Ctx& c) {
	using R = decltype(A() * B());
	const size_t nu = c.len(1), nv = c.len(1), full = nu + nv - 1, small = std::min(nu, nv);
	auto u = c.in<A>(nu);
	auto v = c.in<B>(nv);
	const int how = (int)c.rng.range(0, 4);
	const size_t off = c.rng.size(0, full - 1), n = c.rng.size(0, full - off), chunk = c.rng.chance(0.4) ? 0 : 2 * small - 1 + c.rng.size(0, 3 * small);
	c.p("how", how).p("off", off).p("len", n).p("chunk", chunk);
	switch (how) {
		case 0: c.put(OverlapAdd(u, v, CONV_FULL, chunk)); break;
		case 1: c.put(OverlapAdd(u, v, CONV_CENTRAL, chunk)); break;
		case 2: { auto o = c.out<R>(n); OverlapAdd(o, u, v, off, chunk); break; }
		case 3: { auto o = c.inout<R>(n); OverlapAdd(o, u, v, off, chunk, false); break; }
		default: c.put(OverlapAdd(u, v, off, n, chunk));
	}
}
OP(overlap_add) {
	switch (c.rng.range(0, 4)) {
		case 0: return olaT<float, float>(c);
		case 1: return olaT<double, double>(c);
		case 2: return olaT<cf, cf>(c);
		case 3: return olaT<cf, float>(c);
		default: return olaT<double, cd>(c);
	}
}
template <class A, class B> void firT(Ctx& c) {
	using R = decltype(A() * B());
	const size_t taps = c.len(1, std::min<size_t>(60, c.maxLen));
	auto h = c.in<B>(taps);
	const int how = (int)c.rng.range(0, 2);
	c.p("how", how);
	if (how == 0) {
		auto s = c.in<A>(c.len(1));
		switch (c.rng.range(0, 3)) {
			case 0: c.put(Filter(s, h, CONV_FULL, FILTER_OLA)); break;
			case 1: c.put(Filter(s, h, CONV_FULL, FILTER_CONV)); break;
			case 2: { auto o = c.out<R>(s.size() + taps - 1); Filter(o, s, h, CONV_FULL, FILTER_OLA); break; }
			default: { auto o = c.out<R>(s.size() + taps - 1); Filter(o, s, h, CONV_FULL, FILTER_CONV); }
		}
		return;
	}
	auto state = c.inout<A>(taps - 1);
	for (int i = 0; i < 4; ++i) {
		auto s = c.in<A>(c.len());
		auto o = c.out<R>(s.size());
		if (how == 1) Filter(o, s, h, state, FILTER_CONV);
		else Filter(o, s, h, state, FILTER_OLA);
	}
}
OP(fir_filter) {
	switch (c.rng.range(0, 3)) {
		case 0: return firT<float, float>(c);
		case 1: return firT<double, double>(c);
		case 2: return firT<cf, cf>(c);
		default: return firT<cf, float>(c);
	}
}

// ------------------------------------------------------------------ transforms
template <class T> void fftT(Ctx& c) {
	const size_t n = c.len(1);
	const int how = (int)c.rng.range(0, 5);
	c.p("how", how);
	using C = std::complex<T>;
	switch (how) {
		case 0: { auto i = c.in<T>(n); auto o = c.out<C, FREQUENCY_DOMAIN>(n / 2 + 1); Fft(o, i); break; }
		case 1: { auto i = c.in<T>(n); auto o = c.out<C, FREQUENCY_DOMAIN>(n); Fft(o, i); break; }
		case 2: { auto i = c.in<C>(n); auto o = c.out<C, FREQUENCY_DOMAIN>(n); Fft(o, i); break; }
		case 3: { auto i = c.in<C, FREQUENCY_DOMAIN>(n / 2 + 1); auto o = c.out<T>(n); Ifft(o, i); break; }
		case 4: { auto i = c.in<C, FREQUENCY_DOMAIN>(n); auto o = c.out<C>(n); Ifft(o, i); break; }
		default: { auto i = c.in<T>(n); c.put(Fft(i, FFT_HALF)); auto f = Fft(i, FFT_FULL); c.put(f); c.put(Ifft(f, FFT_FULL)); }
	}
}
OP(fft) { PICK2(fftT) }
OP(fft_sizes) { // far more sizes than any cache of plans holds
	for (int i = 0; i < 24; ++i) {
		const size_t n = c.rng.size(1, c.maxLen);
		auto x = c.in<double>(n);
		c.put(Fft(x, FFT_HALF));
		auto z = c.in<cf>(n);
		c.put(Fft(z));
	}
	c.p("i", c.rng.range(0, 99999));
}
template <class T> void shiftT(Ctx& c) {
	auto i = c.in<T, FREQUENCY_DOMAIN>(c.len(1));
	auto o = c.out<T, FREQUENCY_DOMAIN>(i.size()), q = c.out<T, FREQUENCY_DOMAIN>(i.size());
	FftShift(o, i);
	IfftShift(q, i);
}
OP(fft_shift) { PICK4(shiftT) }

// ------------------------------------------------------------------ windows
template <class T> void windowT(Ctx& c) {
	const size_t n = c.len(2);
	auto o = c.out<T>(n);
	const auto q = (real_of_t<T>)c.rng.uni(0.3, 3);
	const int w = (int)c.rng.range(0, 9);
	c.p("w", w);
	switch (w) {
		case 0: HammingWindow(o); break;
		case 1: FlatTopWindow(o); break;
		case 2: RectangularWindow(o); break;
		case 3: TriangularWindow(o); break;
		case 4: BlackmanWindow(o); break;
		case 5: BlackmanHarrisWindow(o); break;
		case 6: GaussianWindow(o, q); break;
		case 7: KaiserWindow(o, q); break;
		case 8: LanczosWindow(o); break;
		default: DolphChebyshevWindow(o, q / 50);
	}
	if constexpr (!is_cplx<T>::value) { c.put(CoherentGain(BasicSignalView<const T, TIME_DOMAIN>(o))); c.put(EnergyGain(BasicSignalView<const T, TIME_DOMAIN>(o))); }
}
OP(windows_) { PICK4(windowT) }
OP(window_objects) {
	const size_t n = c.len(2);
	c.put(windows::hamming.operator()<float>(n)); c.put(windows::kaiser.alpha(2.5).operator()<double>(n)); c.put(windows::gaussian.sigma(0.4).operator()<double>(n));
	c.put(windows::dolphChebyshev.attenuation(0.01).operator()<double>(n)); c.put(windows::lanczos.operator()<float>(n));
	c.put(windows::flattop.operator()<float>(n)); c.put(windows::blackman.operator()<float>(n)); c.put(windows::blackmanHarris.operator()<float>(n)); c.put(windows::triangular.operator()<float>(n));
}

// ------------------------------------------------------------------ responses and their measurement
template <class T> void responseT(Ctx& c) {
	const size_t n = c.len(1, std::min<size_t>(100, c.maxLen));
	auto h = c.in<T>(n);
	const auto [a, p] = FrequencyResponse(h, c.rng.chance(0.5) ? 0 : c.rng.size(1, 300));
	c.put(a);
	c.put(p);
}
OP(frequency_response) { PICK2(responseT) }
template <class T> void measureT(Ctx& c) {
	auto y = c.inout<T, FREQUENCY_DOMAIN>(c.len(8), 0, 0.05);
	const size_t b = c.rng.size(1, 4), n = y.size();
	bool pass = c.rng.chance(0.5);
	for (size_t i = 0; i < n; ++i) {
		if (i && i % std::max<size_t>(1, n / b) == 0) pass = !pass;
		if (pass) y[i] = 1 - y[i];
	}
	const auto m = MeasureFilter(BasicSignalView<const T, FREQUENCY_DOMAIN>(y));
	c.put((int)m.index());
	std::visit([&](const auto& v) {
		if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>) for (size_t i = 0; i < sizeof v / sizeof(T); ++i) c.put(((const T*)&v)[i]);
	}, m);
}
OP(measure) { PICK2(measureT) }
#endif

#if VH_PART == 3
// ------------------------------------------------------------------ elliptic functions
template <class T> void ellipticT(Ctx& c) {
	for (int i = 0; i < 12; ++i) {
		const T k = c.rng.chance(0.1) ? (T)c.rng.pick<double>({ 0, 1 }) : (T)c.rng.uni(0, 1), x = (T)(c.rng.uni(-3, 3) * c.rng.pick<double>({ 1, 1, 5 }));
		const std::complex<T> z((T)c.rng.uni(0.1, 1), (T)c.rng.uni(-0.5, 0.5));
		if (k < 1) c.put(EllipticK(k));
		c.put(EllipticAM(x, k)); c.put(EllipticSN(x, k)); c.put(EllipticCN(x, k)); c.put(EllipticDN(x, k));
		if (k > 0 && k < 1) {
			c.put(EllipticSN(z, k)); c.put(EllipticCN(z, k)); c.put(EllipticDN(z, k)); c.put(EllipticArcSN(z, k)); c.put(EllipticArcCN(z, k));
			c.put(EllipticArcSN((T)c.rng.uni(-1, 1), k)); c.put(EllipticArcCN((T)c.rng.uni(0, 1), k));
		}
		c.put(CarlsonRF((T)c.rng.uni(0, 2), (T)c.rng.uni(0.1, 2), (T)c.rng.uni(0.1, 2)));
	}
	c.p("i", c.rng.range(0, 99999));
}
OP(elliptic) { PICK2(ellipticT) }

// ------------------------------------------------------------------ IIR design and filtering
template <class T> DiscreteZeroPoleGain<T> designed(Ctx& c) {
	const int band = (int)c.rng.range(0, 3), kind = (int)c.rng.range(0, 3);
	const size_t order = band < 2 ? c.rng.size(1, 6) : 2 * c.rng.size(1, 3);
	const T f1 = (T)c.rng.uni(0.1, 0.4), f2 = (T)c.rng.uni(0.5, 0.9), rp = (T)0.1, rs = (T)0.05;
	c.p("band", band).p("kind", kind).p("order", order);
	auto make = [&](const auto& a, auto&& b) {
		switch (kind) {
			case 0: return DesignFilter<T>(order, b(a.Butterworth));
			case 1: return DesignFilter<T>(order, b(a.Chebyshev1).PassbandRipple(rp));
			case 2: return DesignFilter<T>(order, b(a.Chebyshev2).StopbandRipple(rs));
			default: return DesignFilter<T>(order, b(a.Elliptic).PassbandRipple(rp).StopbandRipple(rs));
		}
	};
	auto one = [&](const auto& d) { return d.Cutoff(f1); };
	auto two = [&](const auto& d) { return d.Band(f1, f2); };
	switch (band) {
		case 0: return make(Iir.Lowpass, one);
		case 1: return make(Iir.Highpass, one);
		case 2: return make(Iir.Bandpass, two);
		default: return make(Iir.Bandstop, two);
	}
}
template <class T> void putSys(Ctx& c, const T& z) {
	c.put(z.gain); c.put(z.zeros.real_roots()); c.put(z.zeros.complex_pairs()); c.put(z.poles.real_roots()); c.put(z.poles.complex_pairs());
}
template <class T> void iirDesignT(Ctx& c) {
	const auto z = designed<T>(c);
	putSys(c, z);
	const DiscreteTransferFunction<T> tf(z);
	const CascadedBiquad<T> sos(z);
	const std::complex<T> x = std::polar(T(1), (T)c.rng.uni(0, 3));
	c.put(tf.numerator.coefficients()); c.put(tf.denominator.coefficients()); c.put(z(x)); c.put(tf(x)); c.put(sos(x));
	for (auto& s : sos.sections) { c.put(s.numerator); c.put(s.denominator); }
	const auto [a, p] = FrequencyResponse(z, 33);
	c.put(a); c.put(p);
	ContinuousZeroPoleGain<T> s;
	s.poles.resize(c.rng.size(0, 2), c.rng.size(0, 2), (T)-0.7, std::complex<T>((T)-0.5, (T)1));
	s.zeros.resize(c.rng.size(0, 2), 0, (T)-0.2);
	s.gain = 2;
	putSys(c, BilinearTransform(s, (T)c.rng.uni(1, 9)));
}
OP(iir_design) { PICK2(iirDesignT) }
template <class T> void iirFilterT(Ctx& c) {
	const auto z = designed<real_of_t<T>>(c);
	const DiscreteTransferFunction<real_of_t<T>> tf(z);
	const CascadedBiquad<real_of_t<T>> sos(z);
	DirectFormI<T> one(tf.order() + c.rng.size(0, 3));
	DirectFormII<T> two(tf.order() + c.rng.size(0, 3));
	CascadedForm<T> cas(sos.order() + c.rng.size(0, 3));
	for (int i = 0; i < 3; ++i) {
		auto x = c.in<T>(c.len());
		auto o1 = c.out<T>(x.size()), o2 = c.out<T>(x.size()), o3 = c.out<T>(x.size());
		Filter(o1, x, tf, one);
		Filter(o2, x, tf, two);
		Filter(o3, x, sos, cas);
	}
	auto x = c.inout<T>(c.len());
	Filter(x, x, sos, cas); // in place
}
OP(iir_filter) { PICK4(iirFilterT) }

// ------------------------------------------------------------------ FIR design
template <class T> void firDesignT(Ctx& c) {
	const size_t n = c.rng.size(1, 20) * 2 + 1;
	const int kind = (int)c.rng.range(0, 9);
	c.p("kind", kind).p("n", n);
	auto o = c.out<T>(kind == 5 ? 0 : n);
	const T a = (T)c.rng.uni(0.1, 0.2), b = (T)c.rng.uni(0.3, 0.4), d = (T)c.rng.uni(0.5, 0.6), e = (T)c.rng.uni(0.7, 0.8);
	switch (kind) {
		case 0: DesignFilter(o, Fir.Lowpass.Windowed.Cutoff(a).Window(windows::hamming)); break;
		case 1: DesignFilter(o, Fir.Highpass.Windowed.Cutoff(a).Window(windows::kaiser)); break;
		case 2: DesignFilter(o, Fir.Bandpass.Windowed.Band(a, d).Window(windows::blackman)); break;
		case 3: DesignFilter(o, Fir.Bandstop.Windowed.Band(a, d)); break;
		case 4: DesignFilter(o, Fir.Arbitrary.Windowed.Response([](auto f) { return 1 - f; }).Window(windows::hamming)); break;
		case 5: c.put(DesignFilter<T, TIME_DOMAIN>(n + c.rng.size(0, 1), Fir.Hilbert.Windowed.Window(windows::hamming))); break;
		case 6: DesignFilter(o, Fir.Lowpass.LeastSquares.Cutoff(a, b)); break;
		case 7: DesignFilter(o, Fir.Bandpass.LeastSquares.Band(a, b, d, e).Weight(1, 0.2, 1, 0.2, 1)); break;
		case 8: DesignFilter(o, Fir.Highpass.LeastSquares.Cutoff(a, b).Weight(1, 0.5, 2)); break;
		default: {
			auto m = c.out<T>(n), s = c.out<T>(n), k = c.out<T>(n);
			auto f = c.inout<T>(n);
			fir::MirrorResponse(m, f); fir::ComplementaryResponse(s, f); fir::ShiftResponse(k, f, (real_of_t<T>)a);
			DesignFilter(o, Fir.Bandstop.LeastSquares.Band(a, b, d, e));
		}
	}
}
OP(fir_design) { PICK2(firDesignT) }

// ------------------------------------------------------------------ rate changes
template <class X, class P> void rateT(Ctx& c) {
	using R = decltype(X() * P());
	const size_t n = c.len(1, std::min<size_t>(80, c.maxLen)), F = c.len(1, std::min<size_t>(60, c.maxLen)), np = c.rng.size(1, 9);
	const int how = (int)c.rng.range(0, 4);
	c.p("how", how).p("np", np);
	auto x = c.in<X>(n);
	auto h = c.in<P>(F);
	auto pb = c.out<P>(F);
	const auto poly = PolyphaseDecompose(pb, h, np);
	switch (how) {
		case 0: { auto o = c.out<X>((n + np - 1) / np), e = c.out<X>(n * np); Decimate(o, x, np); Expand(e, x, np); break; }
		case 1: {
			const size_t full = n * np + F - 1, off = c.rng.size(0, full - 1);
			auto o = c.out<R>(c.rng.size(0, full - off));
			const auto s = Interpolate(o, x, poly, off);
			c.put((u64)s.firstInputSample); c.put((u64)s.startPoint);
			break;
		}
		case 2: { c.put(Interpolate(x, poly, 0, n * np)); break; }
		default: {
			const Rational<int64_t> r(c.rng.range(1, 9), c.rng.range(1, 9));
			const auto room = ResampleLength(n, F, np, r, CONV_FULL);
			if (how == 3) { c.put(Resample(x, poly, r, CONV_FULL)); break; }
			auto o = c.out<R>((size_t)c.rng.range(0, std::min<long long>(400, floor(room))));
			const auto s = Resample(o, x, poly, r, Rational<int64_t>(0));
			c.put((u64)s.firstInputSample); c.put(s.startPoint.Numerator()); c.put(s.startPoint.Denominator());
		}
	}
}
OP(rates) {
	switch (c.rng.range(0, 3)) {
		case 0: return rateT<float, float>(c);
		case 1: return rateT<double, double>(c);
		case 2: return rateT<cf, float>(c);
		default: return rateT<cd, double>(c);
	}
}
template <class T> void polyphaseT(Ctx& c) {
	const size_t np = c.rng.size(1, 9), F = np + c.len(0, 60);
	auto h = c.in<T>(F, 0.2, 1);
	auto p = PolyphaseNormalized(PolyphaseDecompose(BasicSignal<T, TIME_DOMAIN>(h.begin(), h.end()), np));
	c.put(p.Buffer());
	auto q = p;
	auto r = std::move(p);
	c.put(q.Buffer()); c.put(r.Buffer()); c.put(r[np - 1]);
}
OP(polyphase) { PICK2(polyphaseT) }

OP(solvers) {
	const double a = c.rng.uni(0.1, 5);
	c.put(Bisect([a](double x) { return x * x - a; }, 0.0, 6.0));
	c.put(NewtonRaphson([a](double x) { return x * x - a; }, [](double x) { return 2 * x; }, 3.0));
	c.p("a", a);
}
#endif
} // namespace opset
