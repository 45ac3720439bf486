// Arbitrary-rate resampling against exact rational times; streams continued from suspension points.
#include "polyref.hpp"
using namespace dspbb;
using namespace vh;
using cd = std::complex<double>;
using i128 = __int128;
using Q = Rational<int64_t>;

static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
struct E { // exact fraction of the oracle
	i128 n, d;
	E(i128 a, i128 b = 1) : n(a), d(b) { if (d < 0) n = -n, d = -d; i128 g = gcd128(n, d); if (g) n /= g, d /= g; }
	E operator+(E o) const { return { n * o.d + o.n * d, d * o.d }; }
	E operator-(E o) const { return { n * o.d - o.n * d, d * o.d }; }
	E operator*(E o) const { return { n * o.n, d * o.d }; }
	E operator/(E o) const { return { n * o.d, d * o.n }; }
	bool operator<(E o) const { return n * o.d < o.n * d; }
	bool operator<=(E o) const { return n * o.d <= o.n * d; }
	bool operator==(E o) const { return n == o.n && d == o.d; }
	long long floor() const { i128 q = n / d; return (long long)(n % d < 0 ? q - 1 : q); }
};
static E ex(Q q) { return { q.Numerator(), q.Denominator() }; }
static std::string s(E e) { return std::to_string((long long)e.n) + "/" + std::to_string((long long)e.d); }

// Value at output index `t` for the hi-res reference, and the tolerance scale.
template <class W> static std::pair<W, real> valueAt(const Hi<W>& ref, E index, E rates, size_t phases) {
	const E pos = index * rates * E((i128)phases);
	const long long m = pos.floor();
	const E fr = pos - E(m);
	const real f = (real)(long long)fr.n / (real)(long long)fr.d;
	const real r = (real)(long long)(fr.d - fr.n) / (real)(long long)fr.d; // not 1 - f, which cancels
	return { r * ref.at(m) + f * ref.at(m + 1), r * ref.scale(m) + f * ref.scale(m + 1) };
}
static std::pair<int64_t, int64_t> anyRates(Rng& g) {
	switch (g.range(0, 6)) {
		case 5: { // clock drift: large terms that share little
			const int64_t base = g.pick<int64_t>({ 44100, 48000, 65536, 99991, 100000, 1000000, 3000000 });
			const int64_t other = std::max<int64_t>(1, g.chance(0.6) ? base + g.range(-40, 40) : base * g.range(1, 5) / g.range(1, 5) + g.range(-3, 3));
			return g.chance(0.5) ? std::pair<int64_t, int64_t>{ base, other } : std::pair<int64_t, int64_t>{ other, base };
		}
		case 0: return { g.range(1, 6), g.range(1, 6) };
		case 1: return { 1, g.range(1, 12) };
		case 2: return { g.range(1, 12), 1 };
		case 3: return g.pick<std::pair<int64_t, int64_t>>({ { 44100, 48000 }, { 48000, 44100 }, { 147, 160 }, { 160, 147 }, { 16000, 48000 }, { 48000, 16000 }, { 44100, 16000 } });
		case 4: { const int64_t k = g.range(2, 60); return g.chance(0.5) ? std::pair<int64_t, int64_t>{ k, k + 1 } : std::pair<int64_t, int64_t>{ k + 1, k }; }
		default: return { g.range(1, 97), g.range(1, 97) };
	}
}

template <class X, class P> static void oneCall(Case& c) {
	auto& g = c.rng;
	using R = decltype(X() * P());
	const size_t n = g.longer(g.len(1, 60), 1500), F = g.longer(g.len(1, 90), 3000), np = g.longer(g.chance(0.7) ? g.size(1, 8) : g.len(1, 64), 400);
	const auto [rn, rd] = anyRates(g);
	const bool exact = g.chance(0.3);
	const Q rates(rn, rd);
	const E er(rn, rd), maxLen = E((i128)(n * np + F - 1)) / er / E((i128)np);
	const int form = (int)g.range(0, 3); // buffer, value, full, central
	E start(0);
	Q qs(0);
	long long room = maxLen.floor();
	if (g.chance(0.7) && room > 0) {
		const int64_t d = g.pick<int64_t>({ 1, 1, 2, 3, 5, 7, 16, 100 });
		const i128 top = (maxLen * E(d)).floor();
		qs = Q((int64_t)g.range(0, (long long)top), d);
		start = ex(qs);
		room = (maxLen - start).floor();
	}
	size_t len = g.chance(0.4) ? (size_t)room : (size_t)g.range(0, room);
	len = std::min<size_t>(len, 3000);
	c.p("t", std::string(tname<X>()) + tname<P>()).p("n", n).p("F", F).p("phases", np).p("rates", s(er)).p("start", s(start)).p("len", len).p("form", form).p("exact", exact);
	std::vector<X> x(n);
	std::vector<P> h(F);
	fillVec(g, x, exact);
	fillVec(g, h, exact);
	c.ok(ex(ResampleLength(n, F, np, rates, CONV_FULL)) == maxLen, "length-full", [&] { return s(ex(ResampleLength(n, F, np, rates, CONV_FULL))) + " expected " + s(maxLen); });
	const i128 a = (i128)(n * np), b = (i128)F;
	const E central = E((a > b ? a - b : b - a) + 1) / er / E((i128)np);
	c.ok(ex(ResampleLength(n, F, np, rates, CONV_CENTRAL)) == central, "length-central", [&] { return s(ex(ResampleLength(n, F, np, rates, CONV_CENTRAL))) + " expected " + s(central); });
	const E delay = E((i128)F - 1, 2 * (i128)np) / er;
	c.ok(ex(ResampleDelay(F, np, rates)) == delay, "delay", [&] { return s(ex(ResampleDelay(F, np, rates))) + " expected " + s(delay); });
	c.near(ResampleFilterCutoff(rates, np), std::min(1.0L, (real)rd / rn) / np, 1e-15L, "filter-cutoff");
	c.near(InterpolFilterCutoff(np), 1.0L / np, 1e-15L, "filter-cutoff");
	const auto ref = hiRes(x, h, np);
	auto poly = decompose<P, TIME_DOMAIN>(c, h, np);
	Buf<X> in(n, g.size(0, 5));
	std::copy(x.begin(), x.end(), in.begin());
	SignalView<const X> vin(in.begin(), in.end());
	std::vector<R> got;
	if (form == 0) {
		Buf<R> out(len, g.size(0, 5));
		const auto sp = start == E(0) && g.chance(0.5) ? Resample(SignalView<R>(out.begin(), out.end()), vin, poly, rates) : Resample(SignalView<R>(out.begin(), out.end()), vin, poly, rates, qs);
		const E resumed = ex(sp.startPoint) + E((i128)sp.firstInputSample) / er;
		c.ok(resumed == start + E((i128)len), "suspension-position", [&] { return s(resumed) + " expected " + s(start + E((i128)len)); });
		c.ok(ex(sp.startPoint) * er < E((i128)F - 1, (i128)np) + E(1) + E(0), "suspension-keeps-consumed-input", [&] { return s(ex(sp.startPoint)); });
		c.ok(E(0) <= ex(sp.startPoint), "suspension-negative");
		got.assign(out.begin(), out.end());
		c.ok(out.intact(), "wrote-outside");
	}
	else if (form == 1) {
		auto r = Resample(vin, poly, rates, qs, len);
		got.assign(r.begin(), r.end());
		c.eq(got.size(), len, "length");
	}
	else if (form == 2) {
		auto r = Resample(vin, poly, rates, CONV_FULL);
		got.assign(r.begin(), r.end());
		start = E(0);
		c.eq((long long)got.size(), maxLen.floor(), "length");
	}
	else {
		auto r = Resample(vin, poly, rates, CONV_CENTRAL);
		got.assign(r.begin(), r.end());
		start = E((a < b ? a : b) - 1, (i128)np) / er;
		c.eq((long long)got.size(), central.floor(), "length");
	}
	const real ep = 8 * (8 + F / np) * std::max(eps_v<X>, eps_v<P>);
	if (got.empty()) c.trivial();
	for (size_t i = 0; i < got.size(); ++i) {
		const auto [v, sc] = valueAt(ref, start + E((i128)i), er, np);
		if (!c.near(got[i], v, (exact ? 6 * std::max(eps_v<X>, eps_v<P>) : ep) * sc, exact ? "value-integer-data" : "value", i)) break;
	}
	c.ok(in.intact() && std::equal(x.begin(), x.end(), in.begin()), "input-changed");
}

template <class X> static void stream(Case& c) {
	auto& g = c.rng;
	const size_t n = g.len(1, 100), F = g.len(1, 60), np = g.chance(0.8) ? g.size(1, 8) : g.len(1, 48);
	const auto [rn, rd] = anyRates(g);
	const int mode = (int)g.range(0, 2);
	const Q rates(rn, rd);
	const E er(rn, rd);
	const E total = E((i128)(n * np + F - 1)) / er / E((i128)np);
	const long long count = std::min<long long>(total.floor(), 1500);
	c.p("t", tname<X>()).p("n", n).p("F", F).p("phases", np).p("rates", s(er)).p("mode", mode);
	std::vector<X> x(n), h(F);
	fillVec(g, x, true);
	fillVec(g, h, true);
	const auto ref = hiRes(x, h, np);
	auto poly = decompose<X, TIME_DOMAIN>(c, h, np);
	std::vector<X> window;
	size_t arrived = 0, dropped = 0, splits = 0, stall = 0;
	long long produced = 0;
	Q start(0);
	while (produced < count && stall < 2000) {
		++stall;
		if (arrived < n && (mode == 0 || window.empty() || g.chance(0.6))) {
			const size_t k = std::min(n - arrived, mode == 0 ? n : mode == 1 ? g.size(1, 20) : 1);
			window.insert(window.end(), x.begin() + arrived, x.begin() + arrived + k);
			arrived += k;
		}
		if (window.empty()) { if (arrived == n) break; continue; }
		// outputs whose two neighbours depend only on arrived input: floor(pos)+1 < arrived * phases
		long long limit = count;
		if (arrived < n) {
			limit = 0;
			const E top = E((i128)(arrived * np) - 1) / E((i128)np) / er; // index * rates * phases < arrived*phases - 1
			limit = std::min<long long>(count, std::max<long long>(0, top.floor()));
		}
		// what the call admits with this window
		const E room = E((i128)(window.size() * np + F - 1)) / er / E((i128)np) - ex(start);
		long long m = std::max<long long>(0, limit - produced);
		if (g.chance(0.8)) m = std::min<long long>(m, g.chance(0.5) ? g.size(0, 3) : g.len(0, 60));
		if (!c.ok(E(m) <= room, "suspension-lost-input")) return;
		Buf<X> in(window.size(), g.size(0, 3)), out((size_t)m, g.size(0, 3));
		std::copy(window.begin(), window.end(), in.begin());
		const auto sp = Resample(SignalView<X>(out.begin(), out.end()), SignalView<const X>(in.begin(), in.end()), poly, rates, start);
		for (long long i = 0; i < m; ++i) {
			const auto [v, sc] = valueAt(ref, E(produced + i), er, np);
			if (!c.near(out[i], v, 6 * eps_v<X> * sc, "stream-value", produced + i)) return;
		}
		c.ok(out.intact(), "wrote-outside");
		produced += m;
		splits++;
		if (m) stall = 0;
		c.ok(ex(sp.startPoint) * er < E((i128)F - 1, (i128)np) + E(1), "suspension-keeps-consumed-input");
		if (sp.firstInputSample > window.size()) { // nothing usable is left; only allowed when the rest is beyond the data
			c.ok(arrived == n || E((i128)(dropped + sp.firstInputSample)) <= E(produced) * er, "suspension-drops-unseen-input");
			if (arrived == n) break;
			start = start + (int64_t)m;
			continue;
		}
		if (g.chance(0.85)) {
			window.erase(window.begin(), window.begin() + sp.firstInputSample);
			dropped += sp.firstInputSample;
			start = sp.startPoint;
		}
		else start = start + (int64_t)m;
		if (!c.ok(ex(start) + E((i128)dropped) / er == E(produced), "suspension-position")) return;
	}
	c.note("splits", splits).note("outputs", produced);
	c.p("splits", splits);
}

FAMILY(one_call, 12000, 600000) {
	switch (c.rng.range(0, 3)) {
		case 0: return oneCall<float, float>(c);
		case 1: return oneCall<double, double>(c);
		case 2: return oneCall<cd, double>(c);
		default: return oneCall<float, double>(c);
	}
}
FAMILY(resample_stream, 5000, 250000) { c.rng.chance(0.5) ? stream<float>(c) : stream<double>(c); }
