// Overlap-add against the convolution sum, for every window and admissible chunk size.
#include "convref.hpp"
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class A, class B, eSignalDomain D> static void ola(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	size_t nu, nv;
	switch (g.range(0, 3)) {
		case 0: nu = g.size(1, 6), nv = g.size(1, 12); break;
		case 1: nu = g.len(1, 30), nv = g.len(1, 30); break;
		case 2: nu = g.len(1, 12), nv = g.len(1, 200); break;
		default: nu = g.len(1, 120), nv = g.len(1, 120);
	}
	if (g.chance(0.5)) std::swap(nu, nv);
	const size_t shorter = std::min(nu, nv), full = nu + nv - 1, central = std::max(nu, nv) - shorter + 1;
	const int form = (int)g.range(0, 5);
	size_t off = 0, len = full;
	if (form == 0 || form == 3) off = g.chance(0.2) ? 0 : g.size(0, full - 1), len = g.chance(0.2) ? full - off : g.chance(0.3) ? std::min<size_t>(full - off, g.size(0, 3)) : g.size(0, full - off);
	if (form == 2 || form == 5) off = shorter - 1, len = central;
	size_t chunk = 0;
	if (g.chance(0.75)) chunk = 2 * shorter - 1 + (g.chance(0.3) ? 0 : g.chance(0.5) ? g.size(0, 8) : g.size(0, 2 * full));
	const bool exact = g.chance(0.3), clear = form > 2 || g.chance(0.6);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("nu", nu).p("nv", nv).p("form", form).p("off", off).p("len", len).p("chunk", chunk).p("clear", clear).p("int", exact);
	Buf<A> u(nu, g.size(0, 7));
	Buf<B> v(nv, g.size(0, 7));
	Buf<R> o(len, g.size(0, 7));
	fillSig(g, u, exact);
	fillSig(g, v, exact);
	std::vector<A> ku(u.begin(), u.end());
	// both operands taken from the same samples, of the same or of different lengths
	const B* vp = v.data();
	bool shared = false;
	if constexpr (std::is_same_v<A, B>) if (nv <= nu && g.chance(0.15)) vp = u.data() + (g.chance(0.6) ? 0 : g.size(0, nu - nv)), shared = true;
	c.p("shared", shared);
	std::vector<B> kv(vp, vp + nv);
	if (!clear) fillSig(g, o, exact);
	std::vector<R> before(o.begin(), o.end());
	BasicSignalView<const A, D> vu(u.begin(), u.end());
	BasicSignalView<const B, D> vv(vp, vp + nv);
	BasicSignalView<R, D> vo(o.begin(), o.end());
	std::vector<R> got;
	switch (form) {
		case 0: clear && !chunk ? OverlapAdd(vo, vu, vv, off) : OverlapAdd(vo, vu, vv, off, chunk, clear); break;
		case 1: clear && !chunk ? OverlapAdd(vo, vu, vv, CONV_FULL) : OverlapAdd(vo, vu, vv, CONV_FULL, chunk, clear); break;
		case 2: OverlapAdd(vo, vu, vv, CONV_CENTRAL, chunk, clear); break;
		case 3: { auto r = OverlapAdd(vu, vv, off, len, chunk); got.assign(r.begin(), r.end()); } break;
		case 4: { auto r = OverlapAdd(vu, vv, CONV_FULL, chunk); got.assign(r.begin(), r.end()); } break;
		default: { auto r = OverlapAdd(BasicSignal<A, D>(u.begin(), u.end()), BasicSignal<B, D>(vp, vp + nv), CONV_CENTRAL, chunk); got.assign(r.begin(), r.end()); }
	}
	if (form <= 2) got.assign(o.begin(), o.end());
	c.eq(got.size(), len, "length");
	const auto ref = convRef(u.data(), nu, vp, nv, off, len);
	const real ep = std::max(eps_v<A>, eps_v<B>), norm = std::sqrt(energy(u) * energy(kv));
	for (size_t i = 0; i < std::min(len, got.size()); ++i) {
		auto e = ref.value[i];
		real s = norm;
		if (!clear) e += wide(before[i]), s += mag(wide(before[i]));
		if (!c.near(got[i], e, 64 * ep * s, "value", (long long)i)) break;
	}
	c.ok(o.intact() && u.intact() && v.intact(), "wrote-outside");
	c.ok(!std::memcmp(ku.data(), u.data(), nu * sizeof(A)) && !std::memcmp(kv.data(), vp, nv * sizeof(B)), "input-changed");
	if (!len) c.trivial();
}
#if VH_PART == 1
FAMILY(ola_real, 16000, 800000) { c.rng.chance(0.5) ? ola<float, float, TIME_DOMAIN>(c) : ola<double, double, TIME_DOMAIN>(c); }
#endif
#if VH_PART == 2
FAMILY(ola_cplx, 10000, 500000) {
	switch (c.rng.range(0, 3)) {
		case 0: return ola<cf, cf, TIME_DOMAIN>(c);
		case 1: return ola<float, cf, TIME_DOMAIN>(c);
		case 2: return ola<cf, float, TIME_DOMAIN>(c);
		default: return ola<cd, cd, TIME_DOMAIN>(c);
	}
}
#endif
#if VH_PART == 1
// Automatic chunk sizes on longer data: many chunks, and filters long enough for every suggestion of the size optimiser.
template <class A, class B> static void longData(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	size_t nv = g.longer(g.len(1, 300), 2500, 0.05), nu = g.longer(g.len(nv, 6000), 40000, 0.1);
	const size_t full = nu + nv - 1, shorter = std::min(nu, nv);
	const size_t off = g.chance(0.5) ? 0 : g.size(0, full - 1), len = std::min<size_t>(full - off, g.chance(0.3) ? full : g.size(1, 2000));
	const size_t rounds = len / shorter + 3; // the cost: every round transforms a whole chunk, of a possibly prime length
	const size_t chunk = g.chance(0.7) ? 0 : 2 * shorter - 1 + g.len(0, std::min<size_t>(20000, 1000000 / rounds));
	const bool clear = g.chance(0.7), swap = g.chance(0.5);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("nu", nu).p("nv", nv).p("off", off).p("len", len).p("chunk", chunk).p("clear", clear).p("swap", swap);
	Buf<A> u(nu, 1);
	Buf<B> v(nv, 2);
	Buf<R> o(len, 3);
	fillSig(g, u, false);
	fillSig(g, v, false);
	if (!clear) fillSig(g, o, false);
	const std::vector<R> before(o.begin(), o.end());
	SignalView<R> vo(o.begin(), o.end());
	SignalView<const A> vu(u.begin(), u.end());
	SignalView<const B> vv(v.begin(), v.end());
	if (swap) OverlapAdd(vo, vv, vu, off, chunk, clear); else OverlapAdd(vo, vu, vv, off, chunk, clear);
	const auto ref = convRef(u.data(), nu, v.data(), nv, off, len);
	const real norm = std::sqrt(energy(u) * energy(v));
	const real ep = std::max(eps_v<A>, eps_v<B>);
	for (size_t i = 0; i < len; ++i) {
		auto e = ref.value[i];
		real s = norm;
		if (!clear) e += wide(before[i]), s += mag(wide(before[i]));
		if (!c.near(o[i], e, 64 * ep * s, "value", (long long)i)) break;
	}
	c.ok(o.intact() && u.intact() && v.intact(), "wrote-outside");
}
FAMILY(ola_long, 500, 20000) {
	switch (c.rng.range(0, 3)) {
		case 0: return longData<float, float>(c);
		case 1: return longData<cf, float>(c);
		default: return longData<double, double>(c);
	}
}
#endif
