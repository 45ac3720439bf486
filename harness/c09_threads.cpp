// The same operations alone, repeatedly, after others, and in several threads at once: always the same bytes.
#ifndef VH_MEMCHECK
#define VH_MEMCHECK 0
#endif
#include "vh.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
#if VH_PART == 4
#define QUICK 600
#define THOROUGH 12000
#else
#define QUICK 160
#define THOROUGH 4000
#endif
// The C library's lgamma stores a sign into a global nobody reads (reached through std::cyl_bessel_i): a trait of the platform.
extern "C" const char* __tsan_default_suppressions() { return "race:__signgam\n"; }
namespace ops { struct Ctx; }
static void concurrent(vh::Case& c, void (*fn)(ops::Ctx&));
static void history(vh::Case& c, void (*fn)(ops::Ctx&));
#define OP_FAMILY(name)                                                                                                        \
	static vh::Reg VH_CAT(reg_, name)("threads_" #name, QUICK, THOROUGH, [](vh::Case& q) { concurrent(q, &name); });           \
	static vh::Reg VH_CAT(regh_, name)("history_" #name, QUICK, THOROUGH, [](vh::Case& q) { history(q, &name); });
#include "ops.hpp"

struct Task {
	ops::Fn fn;
	const char* name;
	vh::u64 seed;
	size_t maxLen;
	std::vector<unsigned char> bytes;
	std::string problem;
	double nudge = 0; // the same task with slightly (or entirely) other real numbers
	vh::u64 which = 0;
	void run(std::vector<unsigned char>& to, std::string& why, std::string* desc = nullptr) const {
		ops::Ctx r = ops::run(fn, seed, {}, maxLen, nudge, which);
		to = std::move(r.bytes);
		why = r.problem;
		if (desc) *desc = r.desc;
	}
};
// Starts n threads at one instant, each running body(i).
template <class F> static void together(size_t n, vh::Rng& rng, F&& body) {
	std::atomic<size_t> waiting{ 0 };
	std::vector<vh::u64> jitter(n);
	for (auto& j : jitter) j = rng.next();
	std::vector<std::thread> t;
	for (size_t i = 0; i < n; ++i)
		t.emplace_back([&, i] {
			++waiting;
			while (waiting.load(std::memory_order_relaxed) < n) sched_yield();
			for (vh::u64 k = 0; k < jitter[i] % 64; ++k) __asm__ volatile("" ::: "memory");
			if (jitter[i] % 5 == 0) sched_yield();
			body(i);
		});
	for (auto& x : t) x.join();
}
static Task draw(vh::Rng& rng, ops::Fn fn, double same) {
	const auto& all = ops::all();
	Task t{};
	t.fn = fn;
	t.name = "";
	for (const auto& o : all) if (o.fn == fn) t.name = o.name;
	if (!rng.chance(same)) {
		const auto& o = all[rng.size(0, all.size() - 1)];
		t.fn = o.fn;
		t.name = o.name;
	}
	t.seed = rng.next();
	t.maxLen = rng.pick<size_t>({ 12, 40, 120 });
	return t;
}
static void same(vh::Case& c, const Task& t, const std::vector<unsigned char>& alone, const std::string& why, const char* key) {
	c.ok(t.problem.empty() && why.empty(), "guarantee", [&] { return t.problem + why; });
	size_t at = 0;
	while (at < std::min(t.bytes.size(), alone.size()) && t.bytes[at] == alone[at]) ++at;
	c.ok(t.bytes == alone, key, [&] { return std::string(t.name) + " seed " + std::to_string(t.seed) + ": " + std::to_string(t.bytes.size()) + "/" + std::to_string(alone.size()) + " bytes differ first at " + std::to_string(at); });
}
// Threads first, so that whatever is initialised on first use is initialised by them; then every task alone.
static void concurrent(vh::Case& c, void (*fn)(ops::Ctx&)) {
	const size_t threads = c.rng.size(2, 8), each = c.rng.size(1, 4);
	const double alike = c.rng.pick<double>({ 1.0, 0.8, 0.4 });
	c.p("threads", threads).p("each", each).p("alike", alike);
	std::vector<std::vector<Task>> work(threads);
	for (auto& w : work)
		for (size_t i = 0; i < each; ++i) w.push_back(draw(c.rng, fn, alike));
	if (c.rng.chance(0.3)) // everyone does the same thing
		for (auto& w : work)
			for (size_t i = 0; i < each; ++i) { w[i].fn = work[0][i].fn; w[i].name = work[0][i].name; w[i].seed = work[0][i].seed; w[i].maxLen = work[0][i].maxLen; }
	together(threads, c.rng, [&](size_t i) {
		for (auto& t : work[i]) t.run(t.bytes, t.problem);
	});
	size_t total = 0;
	for (auto& w : work)
		for (auto& t : w) {
			std::vector<unsigned char> alone;
			std::string why;
			t.run(alone, why);
			same(c, t, alone, why, "differs-in-threads");
			total += alone.size();
		}
	c.note("bytes", total);
}
// The outcome of a call does not depend on the calls before it.
static void history(vh::Case& c, void (*fn)(ops::Ctx&)) {
	const size_t n = c.rng.size(2, 4);
	std::vector<Task> work;
	for (size_t i = 0; i < n; ++i) work.push_back(draw(c.rng, fn, 0.7));
	std::string desc;
	for (auto& t : work) t.run(t.bytes, t.problem, &desc);
	c.p("n", n).p("last", desc);
	const size_t again = 2 * n;
	for (size_t i = 0; i < again; ++i) {
		const Task& t = work[c.rng.size(0, n - 1)];
		std::vector<unsigned char> b;
		std::string why;
		t.run(b, why);
		same(c, t, b, why, "depends-on-history");
	}
	// and in a fresh thread, where nothing thread-local exists yet
	const Task& t = work[c.rng.size(0, n - 1)];
	std::vector<unsigned char> b;
	std::string why;
	std::thread([&] { t.run(b, why); }).join();
	same(c, t, b, why, "depends-on-thread");

	// A neighbour of a task: the same decisions and sizes, nearby or unrelated numbers. What was remembered of the one must not
	// serve the other, so its result right after the task equals the one in a fresh thread and the one after something else.
	for (int i = 0; i < 3; ++i) {
		Task near = work[c.rng.size(0, n - 1)], far = near;
		near.nudge = c.rng.chance(0.3) ? c.rng.uni(0.1, 0.9) : std::exp(c.rng.uni(std::log(1e-10), std::log(1e-2)));
		near.which = c.rng.next();
		far.nudge = c.rng.uni(0.3, 0.9);
		far.which = c.rng.next();
		Task first = near;
		first.nudge = 0;
		first.run(b, why);
		near.run(near.bytes, near.problem); // after its neighbour
		std::thread([&] { near.run(b, why); }).join();
		same(c, near, b, why, "depends-on-neighbour");
		std::vector<unsigned char> ignored;
		far.run(ignored, why);
		near.run(b, why); // after an unrelated one
		same(c, near, b, why, "depends-on-neighbour");
	}
}

#if VH_PART == 4
// ------------------------------------------------------------------ several threads reading one object
namespace {
using namespace dspbb;
using ops::Ctx;
using Bytes = std::vector<unsigned char>;
// use(i) is called by thread i on shared const data; its result must equal the one computed alone.
template <class F> void sharedBy(vh::Case& c, F&& use) {
	const size_t n = c.rng.size(2, 8);
	c.p("threads", n);
	std::vector<Bytes> r(n);
	std::vector<std::string> problems(n);
	auto one = [&](size_t i, Bytes& b, std::string& why) {
		Ctx x(1000 + i, {});
		use(i, x);
		x.finish();
		b = std::move(x.bytes);
		why = x.problem;
	};
	together(n, c.rng, [&](size_t i) { one(i, r[i], problems[i]); });
	for (size_t i = 0; i < n; ++i) {
		Bytes b;
		std::string why;
		one(i, b, why);
		c.ok(why.empty() && problems[i].empty(), "guarantee", [&] { return why + problems[i]; });
		c.ok(b == r[i], "differs-in-threads", [&] { return "thread " + std::to_string(i) + " of " + std::to_string(n) + " read a shared object and got other bytes than alone"; });
	}
	c.note("bytes", r[0].size());
}
template <class T> BasicSignal<T, TIME_DOMAIN> data(vh::Rng& rng, size_t n) {
	BasicSignal<T, TIME_DOMAIN> s(n);
	for (auto& v : s) v = vh::rnd<T>(rng, -1, 1);
	return s;
}
template <class T> void sharedSystemT(vh::Case& c) {
	const size_t order = 2 * c.rng.size(1, 4);
	const T f1 = (T)c.rng.uni(0.1, 0.4), f2 = (T)c.rng.uni(0.5, 0.9);
	const int kind = (int)c.rng.range(0, 3);
	c.p("order", order).p("kind", kind).p("f", sizeof(T));
	const auto z = kind == 0 ? DesignFilter<T>(order, Iir.Lowpass.Butterworth.Cutoff(f1)) : kind == 1 ? DesignFilter<T>(order, Iir.Highpass.Chebyshev1.Cutoff(f1).PassbandRipple((T)0.1)) :
		kind == 2 ? DesignFilter<T>(order, Iir.Bandpass.Chebyshev2.Band(f1, f2).StopbandRipple((T)0.1)) : DesignFilter<T>(order, Iir.Bandstop.Elliptic.Band(f1, f2).PassbandRipple((T)0.1).StopbandRipple((T)0.1));
	const DiscreteTransferFunction<T> tf(z);
	const CascadedBiquad<T> sos(z);
	const auto x = data<T>(c.rng, c.rng.size(1, 120));
	sharedBy(c, [&](size_t i, Ctx& q) {
		const std::complex<T> p = std::polar(T(1), T(i) / 3);
		q.put(z(p)); q.put(tf(p)); q.put(sos(p)); q.put(z(T(i) / 9 + 1.5f)); q.put((vh::u64)tf.order()); q.put((vh::u64)sos.order());
		DirectFormI<T> d1(tf.order());
		DirectFormII<T> d2(tf.order());
		CascadedForm<T> cf(sos.order());
		q.put(Filter(x, tf, d1)); q.put(Filter(x, tf, d2)); q.put(Filter(x, sos, cf));
		const DiscreteTransferFunction<T> tf2(z);
		const CascadedBiquad<T> sos2(z);
		q.put(tf2.numerator.coefficients()); q.put(sos2(p));
		const auto [a, ph] = FrequencyResponse(z, 17 + i);
		q.put(a); q.put(ph);
		q.put(ExpandPolynomial(z.poles).coefficients());
	});
}
void shared_systems(vh::Case& c) { if (c.rng.chance(0.5)) sharedSystemT<float>(c); else sharedSystemT<double>(c); }
vh::Reg r1("shared_systems", QUICK, THOROUGH, shared_systems);
template <class T> void sharedSignalT(vh::Case& c) {
	const auto u = data<T>(c.rng, c.rng.size(1, 200)), v = data<T>(c.rng, c.rng.size(1, 60));
	c.p("u", u.size()).p("v", v.size()).p("size", sizeof(T));
	const size_t np = c.rng.size(1, 6);
	BasicSignal<T, TIME_DOMAIN> store(v.size());
	const auto poly = PolyphaseDecompose(BasicSignalView<T, TIME_DOMAIN>(store), v, np);
	sharedBy(c, [&](size_t i, Ctx& q) {
		q.put(Convolution(u, v, CONV_FULL)); q.put(OverlapAdd(u, v, CONV_FULL, i % 2 ? 0 : 2 * std::min(u.size(), v.size()) + i));
		q.put(Filter(u, v, CONV_FULL, FILTER_OLA));
		BasicSignal<T, TIME_DOMAIN> state(v.size() - 1, T(0)), state2(v.size() - 1, T(0));
		q.put(Filter(u, v, state, FILTER_CONV)); q.put(Filter(u, v, state2, FILTER_OLA)); q.put(state);
		q.put(u + u); q.put(u * T(3)); q.put(Sum(u)); q.put(Mean(u)); q.put(DotProduct(u, u)); q.put(Abs(u));
		if constexpr (vh::is_cplx<T>::value) q.put(Fft(u));
		else { q.put(Fft(u, FFT_HALF)); q.put(Exp(u)); q.put(StandardDeviation(u)); }
		q.put(Interpolate(u, poly, std::min(i, v.size() - 1), u.size() * np));
		q.put(Resample(u, poly, Rational<int64_t>(3, 2 + (long long)i), CONV_FULL));
		const auto copy = poly;
		q.put(copy[np - 1]);
		q.put(Decimate(u, np)); q.put(Expand(u, np));
	});
}
void shared_signals(vh::Case& c) { if (c.rng.chance(0.5)) sharedSignalT<float>(c); else sharedSignalT<double>(c); }
vh::Reg r2("shared_signals", QUICK, THOROUGH, shared_signals);
template <class T> void sharedDescT(vh::Case& c) {
	const T a = (T)c.rng.uni(0.1, 0.3), b = (T)c.rng.uni(0.4, 0.6), d = (T)c.rng.uni(0.7, 0.9);
	const size_t n = 2 * c.rng.size(4, 20) + 1;
	c.p("n", n).p("size", sizeof(T));
	const auto low = Fir.Lowpass.Windowed.Cutoff(a).Window(windows::hamming);
	const auto band = Fir.Bandpass.Windowed.Band(a, b).Window(windows::kaiser.alpha(3));
	const auto ls = Fir.Highpass.LeastSquares.Cutoff(a, b).Weight(1, (T)0.3, 2);
	const auto arb = Fir.Arbitrary.Windowed.Response([](auto f) { return 1 - f / 2; }).Window(windows::blackman);
	const auto ell = Iir.Lowpass.Elliptic.Cutoff(d).PassbandRipple((T)0.1).StopbandRipple((T)0.05);
	const auto gauss = windows::gaussian.sigma(0.4);
	sharedBy(c, [&](size_t i, Ctx& q) {
		const size_t m = n + 2 * i;
		q.put(DesignFilter<T, TIME_DOMAIN>(m, low)); q.put(DesignFilter<T, TIME_DOMAIN>(m, band)); q.put(DesignFilter<T, TIME_DOMAIN>(m, ls)); q.put(DesignFilter<T, TIME_DOMAIN>(m, arb));
		const auto z = DesignFilter<T>(2 + i, ell);
		q.put(z.gain); q.put(z.poles.real_roots()); q.put(z.poles.complex_pairs()); q.put(z.zeros.complex_pairs());
		q.put(gauss.template operator()<T>(m)); q.put(windows::dolphChebyshev.template operator()<T>(m)); q.put(windows::hamming.template operator()<T>(m)); q.put(windows::flattop.template operator()<T>(m));
		q.put(EllipticK((T)0.3)); q.put(EllipticSN((T)i / 4, (T)0.7));
	});
}
void shared_descriptors(vh::Case& c) { if (c.rng.chance(0.5)) sharedDescT<float>(c); else sharedDescT<double>(c); }
vh::Reg r3("shared_descriptors", QUICK, THOROUGH, shared_descriptors);
} // namespace
#endif
