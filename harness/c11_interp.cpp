// Decimation, expansion, polyphase decomposition and interpolation; streams split at suspension points.
#include "polyref.hpp"
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class X> static void decExp(Case& c) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(0, 300), 3000), rate = g.chance(0.5) ? g.size(1, 6) : g.len(1, 400);
	const bool value = g.chance(0.4);
	c.p("t", tname<X>()).p("n", n).p("rate", rate).p("value", value);
	if (!n) c.trivial();
	Buf<X> x(n, g.size(0, 5));
	fillSig(g, x, false);
	const std::vector<X> keep(x.begin(), x.end());
	const size_t dn = (n + rate - 1) / rate;
	Buf<X> d(dn, g.size(0, 5)), e(n * rate, g.size(0, 5));
	SignalView<const X> vx(x.begin(), x.end());
	if (value) {
		auto a = Decimate(vx, rate);
		c.eq(a.size(), dn, "decimate-size");
		std::copy_n(a.begin(), std::min(dn, a.size()), d.begin());
		auto b = Expand(vx, rate);
		c.eq(b.size(), n * rate, "expand-size");
		std::copy_n(b.begin(), std::min(n * rate, b.size()), e.begin());
	}
	else {
		Decimate(SignalView<X>(d.begin(), d.end()), vx, rate);
		Expand(SignalView<X>(e.begin(), e.end()), vx, rate);
	}
	for (size_t i = 0; i < dn; ++i) if (!c.eq(d[i], keep[i * rate], "decimate", i)) break;
	for (size_t i = 0; i < n * rate; ++i) if (!c.eq(e[i], i % rate ? X(0) : keep[i / rate], "expand", i)) break;
	c.ok(x.intact() && d.intact() && e.intact(), "wrote-outside");
	c.ok(std::equal(keep.begin(), keep.end(), x.begin()), "input-changed");
	auto back = Decimate(SignalView<const X>(e.begin(), e.end()), rate);
	c.ok(back.size() == n && std::equal(back.begin(), back.end(), keep.begin()), "decimate-of-expand");
}

template <class P> static void phases(Case& c) {
	auto& g = c.rng;
	const size_t F = g.longer(g.len(1, 120), 5000), n = g.chance(0.6) ? g.size(1, 9) : g.len(1, 150);
	c.p("t", tname<P>()).p("F", F).p("phases", n);
	std::vector<P> h(F);
	fillVec(g, h, true);
	auto f = decompose<P, TIME_DOMAIN>(c, h, n);
	c.eq(f.num_phases(), n, "phase-count");
	c.eq(f.size_original(), F, "original-size");
	c.eq(f.size_per_phase(), (F + n - 1) / n, "phase-size");
	const auto& cfRef = f;
	size_t total = 0;
	for (size_t k = 0; k < n; ++k) {
		std::vector<P> e;
		for (size_t i = k; i < F; i += n) e.insert(e.begin(), h[i] * P(n));
		auto ph = cfRef[k];
		auto mph = f[k];
		total += ph.size();
		if (!c.ok(ph.size() == e.size() && std::equal(e.begin(), e.end(), ph.begin()), "phase-taps", [&] { return "phase " + std::to_string(k); })) break;
		if (!c.ok(mph.size() == e.size() && std::equal(e.begin(), e.end(), mph.begin()), "phase-taps")) break;
	}
	c.eq(total, F, "phases-cover-filter");
	if (F >= n) { // every phase has a tap: normalised phases sum to one
		// phases of either sign, each with a sum well away from zero
		std::vector<real> lead(n), mass(n, 0);
		for (auto& v : lead) v = g.chance(0.3) ? -1 : 1;
		for (size_t i = 0; i < F; ++i) {
			h[i] = (P)((double)lead[i % n] * (i >= n && g.chance(0.2) ? g.uni(-0.1, 0) : g.uni(0.2, 1.0)));
			mass[i % n] += std::fabs((real)h[i]);
		}
		auto q = PolyphaseNormalized(PolyphaseDecompose(BasicSignal<P, TIME_DOMAIN>(h.begin(), h.end()), n));
		for (size_t k = 0; k < n; ++k) {
			real sum = 0, orig = 0;
			for (auto v : q[k]) sum += v;
			for (size_t i = k; i < F; i += n) orig += h[i];
			const real tol = 8 * eps_v<P> * (1 + q[k].size()) * std::max(1.0L, mass[k] / std::fabs(orig));
			if (!c.near(sum, 1.0L, tol * std::max(1.0L, mass[k] / std::fabs(orig)), "normalised-sum", k)) break;
			size_t i = k + (q[k].size() - 1) * n;
			for (auto v : q[k]) { if (!c.near(v, (real)h[i] / orig, tol, "normalised-tap", k)) break; i -= n; }
		}
	}
}

template <class X, class P> static void interp(Case& c) {
	auto& g = c.rng;
	using R = decltype(X() * P());
	const size_t n = g.longer(g.len(1, 60), 1500), F = g.longer(g.len(1, 90), 3000), np = g.longer(g.chance(0.7) ? g.size(1, 8) : g.len(1, 100), 500);
	const bool exact = g.chance(0.6), value = g.chance(0.3);
	const size_t full = n * np + F - 1;
	const size_t off = g.chance(0.3) ? 0 : g.size(0, full - 1), len = g.chance(0.3) ? full - off : g.size(0, full - off);
	c.p("t", std::string(tname<X>()) + tname<P>()).p("n", n).p("F", F).p("phases", np).p("off", off).p("len", len).p("exact", exact).p("value", value);
	std::vector<X> x(n);
	std::vector<P> h(F);
	fillVec(g, x, exact);
	fillVec(g, h, exact);
	c.eq(InterpolLength(n, F, np, CONV_FULL), full, "length-full");
	const size_t a = n * np, b = F;
	c.eq(InterpolLength(n, F, np, CONV_CENTRAL), std::max(a, b) - std::min(a, b) + 1, "length-central");
	const auto ref = hiRes(x, h, np);
	auto poly = decompose<P, TIME_DOMAIN>(c, h, np);
	Buf<X> in(n, g.size(0, 5));
	std::copy(x.begin(), x.end(), in.begin());
	Buf<R> out(len, g.size(0, 5));
	SignalView<const X> vin(in.begin(), in.end());
	if (value) {
		auto r = Interpolate(vin, poly, off, len);
		c.eq(r.size(), len, "length");
		std::copy_n(r.begin(), std::min(len, r.size()), out.begin());
	}
	else {
		const auto sp = Interpolate(SignalView<R>(out.begin(), out.end()), vin, poly, off);
		c.eq(sp.firstInputSample * np + sp.startPoint, off + len, "suspension-position");
		c.ok(sp.startPoint < F - 1 + np, "suspension-keeps-consumed-input", [&] { return "start " + std::to_string(sp.startPoint); });
	}
	const real ep = 4 * (8 + F / np) * std::max(eps_v<X>, eps_v<P>);
	for (size_t i = 0; i < len; ++i) if (!c.near(out[i], ref.at(off + i), exact ? 0 : ep * ref.scale(off + i), exact ? "value-exact" : "value", i)) break;
	c.ok(out.intact() && in.intact() && std::equal(x.begin(), x.end(), in.begin()), "wrote-outside");
}

// Stream: input arrives in pieces, output is taken in pieces, consumed input is dropped as the library directs.
template <class X, class P> static void stream(Case& c) {
	auto& g = c.rng;
	using R = decltype(X() * P());
	const size_t n = g.len(1, 120), F = g.len(1, 80), np = g.chance(0.8) ? g.size(1, 8) : g.len(1, 60);
	const int mode = (int)g.range(0, 2); // 0: all input there, 1: arriving in blocks, 2: one sample at a time
	c.p("t", std::string(tname<X>()) + tname<P>()).p("n", n).p("F", F).p("phases", np).p("mode", mode);
	std::vector<X> x(n);
	std::vector<P> h(F);
	fillVec(g, x, true);
	fillVec(g, h, true);
	const auto ref = hiRes(x, h, np);
	auto poly = decompose<P, TIME_DOMAIN>(c, h, np);
	std::vector<X> window; // what the user keeps
	size_t arrived = 0, dropped = 0, start = 0, produced = 0, splits = 0;
	while (produced < ref.v.size()) {
		if (arrived < n && (mode == 0 || window.empty() || g.chance(0.6))) {
			const size_t k = std::min(n - arrived, mode == 0 ? n : mode == 1 ? g.size(1, 20) : 1);
			window.insert(window.end(), x.begin() + arrived, x.begin() + arrived + k);
			arrived += k;
		}
		// outputs that depend only on what has arrived
		const size_t limit = arrived == n ? ref.v.size() : arrived * np;
		size_t m = limit > produced ? limit - produced : 0;
		if (g.chance(0.8)) m = std::min(m, g.chance(0.5) ? g.size(0, 3) : g.len(0, 60));
		if (window.empty() && m) break;
		Buf<X> in(window.size(), g.size(0, 3));
		std::copy(window.begin(), window.end(), in.begin());
		Buf<R> out(m, g.size(0, 3));
		if (window.empty()) continue;
		if (!c.ok(start + m <= window.size() * np + F - 1, "suspension-lost-input")) return;
		const auto sp = Interpolate(SignalView<R>(out.begin(), out.end()), SignalView<const X>(in.begin(), in.end()), poly, start);
		for (size_t i = 0; i < m; ++i) if (!c.near(out[i], ref.at(produced + i), 0, "stream-value", produced + i)) return;
		c.ok(out.intact(), "wrote-outside");
		produced += m;
		splits++;
		if (!c.ok(sp.firstInputSample <= window.size() || produced >= ref.v.size(), "suspension-drops-unseen-input")) return;
		c.ok(sp.startPoint < F - 1 + np, "suspension-keeps-consumed-input");
		const size_t drop = std::min(sp.firstInputSample, window.size());
		if (g.chance(0.85)) {
			window.erase(window.begin(), window.begin() + drop);
			dropped += drop;
			start = sp.startPoint;
		}
		else start += m; // keep everything and just go on
		if (!c.eq(dropped * np + start, produced, "suspension-position") && produced < ref.v.size()) return;
		if (produced < ref.v.size() && window.empty() && arrived == n) { // only the tail of zeros left?
			for (size_t i = produced; i < ref.v.size(); ++i) c.ok(ref.scale(i) == 0, "suspension-dropped-needed-input");
			break;
		}
	}
	c.note("splits", splits).note("outputs", produced);
	c.p("splits", splits);
}

FAMILY(decimate_expand, 8000, 300000) {
	switch (c.rng.range(0, 3)) {
		case 0: return decExp<float>(c);
		case 1: return decExp<double>(c);
		case 2: return decExp<cf>(c);
		default: return decExp<cd>(c);
	}
}
FAMILY(decomposition, 6000, 300000) { c.rng.chance(0.5) ? phases<float>(c) : phases<double>(c); }
FAMILY(interpolation, 12000, 600000) {
	switch (c.rng.range(0, 3)) {
		case 0: return interp<float, float>(c);
		case 1: return interp<double, double>(c);
		case 2: return interp<cd, double>(c);
		default: return interp<float, double>(c);
	}
}
FAMILY(interpolation_stream, 6000, 300000) { c.rng.chance(0.5) ? stream<float, float>(c) : stream<double, double>(c); }
