// Stateful FIR filtering of streams cut at random places.
#include "convref.hpp"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class A, class B> static void stream(Case& c) { // A signal, B taps
	auto& g = c.rng;
	using R = decltype(A() * B());
	const size_t taps = g.longer(g.len(1, 90), 1000), n = g.longer(g.len(0, 400), 5000);
	const int method = (int)g.range(0, 2); // direct, overlap-add, alternating
	const int cut = (int)g.range(0, 4);
	const bool fresh = g.chance(0.5), exact = method == 0 && g.chance(0.6);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("taps", taps).p("n", n).p("method", method).p("cut", cut).p("zero-state", fresh).p("exact", exact);
	if (!n) c.trivial();
	// history + signal, so that the oracle is one convolution
	Buf<A> all(taps - 1 + n, g.size(0, 5));
	Buf<B> h(taps, g.size(0, 5));
	fillSig(g, all, exact);
	fillSig(g, h, exact);
	Buf<R> none(0, 0);
	if (exact) rescale(g, all, h, none);
	if (fresh) std::fill(all.begin(), all.begin() + taps - 1, A(0));
	Buf<A> state(taps - 1, g.size(0, 5));
	std::copy(all.begin(), all.begin() + taps - 1, state.begin());
	BasicSignal<A, TIME_DOMAIN> ownState(state.begin(), state.end());
	BasicSignalView<A, TIME_DOMAIN> viewState(state.begin(), state.end());
	const bool useView = g.chance(0.5);
	SignalView<const B> vh(h.begin(), h.end());
	std::vector<R> got;
	size_t pos = 0, blocks = 0, empty = 0;
	std::string cuts;
	while (pos < n || blocks == 0) {
		size_t b;
		switch (cut) {
			case 0: b = n; break;
			case 1: b = 1; break;
			case 2: b = g.size(0, std::max<size_t>(1, taps - 1)); break; // shorter than the state
			case 3: b = g.pick<size_t>({ taps, taps - 1, taps + 1, 1, 0, 7 }); break;
			default: b = g.len(0, n > 400 ? n : 100);
		}
		b = std::min(b, n - pos);
		empty += b == 0;
		if (empty > 20) b = n - pos;
		if (blocks < 12) cuts += std::to_string(b) + ",";
		const bool ola = method == 1 || (method == 2 && g.chance(0.5));
		Buf<R> o(b, g.size(0, 5));
		Buf<A> in(b, g.size(0, 5));
		std::copy(all.begin() + taps - 1 + pos, all.begin() + taps - 1 + pos + b, in.begin());
		SignalView<const A> vin(in.begin(), in.end());
		SignalView<R> vo(o.begin(), o.end());
		const size_t chunk = ola && g.chance(0.5) ? 2 * taps - 1 + g.size(0, 3 * taps) : 0;
		if (g.chance(0.3)) {
			Signal<R> r;
			if (useView) r = ola ? Filter(vin, vh, viewState, FILTER_OLA, chunk) : Filter(vin, vh, viewState, FILTER_CONV);
			else r = ola ? Filter(vin, vh, ownState, FILTER_OLA, chunk) : Filter(vin, vh, ownState, FILTER_CONV);
			c.eq(r.size(), b, "length");
			got.insert(got.end(), r.begin(), r.end());
		}
		else {
			if (useView) { if (ola) Filter(vo, vin, vh, viewState, FILTER_OLA, chunk); else Filter(vo, vin, vh, viewState, FILTER_CONV); }
			else { if (ola) Filter(vo, vin, vh, ownState, FILTER_OLA, chunk); else Filter(vo, vin, vh, ownState, FILTER_CONV); }
			got.insert(got.end(), o.begin(), o.end());
		}
		pos += b;
		++blocks;
		const A* st = useView ? state.data() : ownState.data();
		const bool kept = taps == 1 || std::memcmp(st, all.data() + pos, (taps - 1) * sizeof(A)) == 0;
		c.ok(kept, "state", [&] { return "state after " + std::to_string(pos) + " samples is not the last inputs; blocks " + cuts; });
		c.ok(o.intact() && in.intact() && state.intact(), "wrote-outside");
		if (!kept) break;
	}
	c.p("cuts", cuts).note("blocks", blocks).note("empty", empty);
	c.eq(got.size(), n, "stream-length");
	// The state is the last inputs, whatever the taps were: exchanging the taps in place in mid-stream changes nothing but them.
	if (g.chance(0.25)) {
		const size_t more = std::min<size_t>(g.len(1, 80), n);
		const std::vector<B> before(h.begin(), h.end());
		for (auto& v : h) v = g.chance(0.3) ? v : B(-v);
		if (more) {
			std::vector<A> tail(all.begin(), all.end());
			tail.insert(tail.end(), all.begin() + taps - 1, all.begin() + taps - 1 + more);
			const bool ola = method == 1;
			std::vector<R> rest(more);
			SignalView<const A> vin(tail.data() + taps - 1 + n, more);
			SignalView<R> vo(rest.data(), more);
			if (useView) { if (ola) Filter(vo, vin, vh, viewState, FILTER_OLA); else Filter(vo, vin, vh, viewState, FILTER_CONV); }
			else { if (ola) Filter(vo, vin, vh, ownState, FILTER_OLA); else Filter(vo, vin, vh, ownState, FILTER_CONV); }
			const auto ref2 = convRef(tail.data(), tail.size(), h.data(), taps, taps - 1 + n, more);
			real amax = 0;
			for (auto& x : all) amax = std::max(amax, mag(wide(x)));
			const real ep2 = std::max(eps_v<A>, eps_v<B>), norm2 = std::sqrt(energy(h)) * amax * std::sqrt((real)std::max<size_t>(taps, 100) * 4);
			for (size_t i = 0; i < more; ++i)
				if (!c.near(rest[i], ref2.value[i], exact ? 0 : ola ? 64 * ep2 * norm2 : 64 * ep2 * ref2.scale[i], "exchanged-taps", (long long)i)) break;
		}
		std::copy(before.begin(), before.end(), h.begin());
	}
	const auto ref = convRef(all.data(), all.size(), h.data(), taps, taps - 1, n);
	const real ep = std::max(eps_v<A>, eps_v<B>);
	real amax = 0;
	for (auto& x : all) amax = std::max(amax, mag(wide(x)));
	const real norm = std::sqrt(energy(h)) * amax * std::sqrt((real)std::max<size_t>(taps, 100) * 4);
	for (size_t i = 0; i < std::min(n, got.size()); ++i)
		if (!c.near(got[i], ref.value[i], exact ? 0 : method == 0 ? 64 * ep * ref.scale[i] : 64 * ep * norm, "value", (long long)i)) { c.fails.back().second += " blocks " + cuts; break; }
	c.ok(h.intact(), "wrote-outside");
}
#if VH_PART == 1
FAMILY(stream_real, 12000, 600000) { c.rng.chance(0.5) ? stream<float, float>(c) : stream<double, double>(c); }
#endif
#if VH_PART == 2
FAMILY(stream_cplx, 6000, 300000) {
	switch (c.rng.range(0, 2)) {
		case 0: return stream<cf, cf>(c);
		case 1: return stream<cf, float>(c);
		default: return stream<cd, cd>(c);
	}
}

#endif

// Stateless filtering: the full and central convolution by either method.
template <class A, class B> static void oneShot(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	const size_t taps = g.longer(g.len(1, 60), 800), n = g.longer(g.len(1, 300), 8000);
	const bool full = g.chance(0.5), ola = g.chance(0.5), value = g.chance(0.5);
	const size_t chunk = ola && g.chance(0.5) ? 2 * std::min(taps, n) - 1 + g.size(0, 50) : 0;
	const size_t len = full ? n + taps - 1 : std::max(n, taps) - std::min(n, taps) + 1, off = full ? 0 : std::min(n, taps) - 1;
	c.p("t", std::string(tname<A>()) + tname<B>()).p("taps", taps).p("n", n).p("full", full).p("ola", ola).p("value", value).p("chunk", chunk);
	Buf<A> s(n, g.size(0, 5));
	Buf<B> h(taps, g.size(0, 5));
	Buf<R> o(len, g.size(0, 5));
	fillSig(g, s, false);
	fillSig(g, h, false);
	SignalView<const A> vs(s.begin(), s.end());
	SignalView<const B> vh(h.begin(), h.end());
	SignalView<R> vo(o.begin(), o.end());
	std::vector<R> got;
	if (value) {
		auto r = full ? (ola ? Filter(vs, vh, CONV_FULL, FILTER_OLA, chunk) : Filter(vs, vh, CONV_FULL, FILTER_CONV)) : (ola ? Filter(vs, vh, CONV_CENTRAL, FILTER_OLA, chunk) : Filter(vs, vh, CONV_CENTRAL, FILTER_CONV));
		got.assign(r.begin(), r.end());
	}
	else {
		if (full) { if (ola) Filter(vo, vs, vh, CONV_FULL, FILTER_OLA, chunk); else Filter(vo, vs, vh, CONV_FULL, FILTER_CONV); }
		else { if (ola) Filter(vo, vs, vh, CONV_CENTRAL, FILTER_OLA, chunk); else Filter(vo, vs, vh, CONV_CENTRAL, FILTER_CONV); }
		got.assign(o.begin(), o.end());
	}
	c.eq(got.size(), len, "length");
	const auto ref = convRef(s.data(), n, h.data(), taps, off, len);
	const real norm = std::sqrt(energy(s) * energy(h)), ep = std::max(eps_v<A>, eps_v<B>);
	for (size_t i = 0; i < std::min(len, got.size()); ++i) if (!c.near(got[i], ref.value[i], 64 * ep * norm, "value", (long long)i)) break;
	c.ok(o.intact() && s.intact() && h.intact(), "wrote-outside");
}
#if VH_PART == 3
FAMILY(oneshot, 6000, 300000) {
	switch (c.rng.range(0, 2)) {
		case 0: return oneShot<float, float>(c);
		case 1: return oneShot<double, double>(c);
		default: return oneShot<cf, cf>(c);
	}
}
#endif
