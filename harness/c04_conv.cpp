// Direct convolution, every window, against the convolution sum.
#include "convref.hpp"
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class A, class B, eSignalDomain D> static void conv(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	size_t nu, nv;
	switch (g.range(0, 4)) {
		case 0: nu = g.size(1, 8), nv = g.size(1, 40); break;
		case 1: nu = g.size(28, 40), nv = g.len(1, 120); break; // around the switch of algorithms
		case 2: nu = g.len(1, 300), nv = g.len(1, 40); break;
		case 3: nu = g.len(33, 200), nv = g.len(33, 200); break;
		default: nu = g.len(1, 100), nv = g.len(1, 100);
	}
	if (g.chance(0.008)) nu = g.size(500, 640), nv = g.size(500, 640); // both beyond what fits the cache
	nu = g.longer(nu, 12000, 0.002);
	if (g.chance(0.5)) std::swap(nu, nv);
	const size_t full = nu + nv - 1, central = std::max(nu, nv) - std::min(nu, nv) + 1;
	const int form = (int)g.range(0, 5); // 0 window/out, 1 full/out, 2 central/out, 3 window/value, 4 full/value, 5 central/value
	size_t off = 0, len = full;
	if (form == 0 || form == 3) off = g.chance(0.3) ? 0 : g.size(0, full), len = g.chance(0.3) ? full - off : g.size(0, full - off);
	if (form == 2 || form == 5) off = std::min(nu, nv) - 1, len = central;
	const bool exact = g.chance(0.5), clear = form > 2 || g.chance(0.6);
	const size_t al = g.size(0, 511);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("nu", nu).p("nv", nv).p("form", form).p("off", off).p("len", len).p("clear", clear).p("exact", exact).p("al", al);
	Buf<A> u(nu, al & 7);
	Buf<B> v(nv, (al >> 3) & 7);
	Buf<R> o(len, (al >> 6) & 7);
	fillSig(g, u, exact);
	fillSig(g, v, exact);
	if (!clear) fillSig(g, o, exact);
	if (exact) rescale(g, u, v, o);
	std::vector<A> ku(u.begin(), u.end());
	// both operands taken from the same samples, of the same or of different lengths
	const B* vp = v.data();
	bool shared = false;
	if constexpr (std::is_same_v<A, B>) if ((clear || !exact) && nv <= nu && g.chance(0.15)) vp = u.data() + (g.chance(0.6) ? 0 : g.size(0, nu - nv)), shared = true;
	c.p("shared", shared);
	std::vector<B> kv(vp, vp + nv);
	std::vector<R> before(o.begin(), o.end());
	BasicSignalView<const A, D> vu(u.begin(), u.end());
	BasicSignalView<const B, D> vv(vp, vp + nv);
	BasicSignalView<R, D> vo(o.begin(), o.end());
	std::vector<R> got;
	switch (form) {
		case 0: clear && g.chance(0.5) ? Convolution(vo, vu, vv, off) : Convolution(vo, vu, vv, off, clear); break;
		case 1: clear && g.chance(0.5) ? Convolution(vo, vu, vv, CONV_FULL) : Convolution(vo, vu, vv, CONV_FULL, clear); break;
		case 2: clear && g.chance(0.5) ? Convolution(vo, vu, vv, CONV_CENTRAL) : Convolution(vo, vu, vv, CONV_CENTRAL, clear); break;
		case 3: { auto r = Convolution(vu, vv, off, len); got.assign(r.begin(), r.end()); } break;
		case 4: { auto r = Convolution(vu, vv, CONV_FULL); got.assign(r.begin(), r.end()); } break;
		default: { auto r = Convolution(BasicSignal<A, D>(u.begin(), u.end()), BasicSignal<B, D>(vp, vp + nv), CONV_CENTRAL); got.assign(r.begin(), r.end()); }
	}
	if (form <= 2) got.assign(o.begin(), o.end());
	c.eq(ConvolutionLength(nu, nv, CONV_FULL), full, "full-length");
	c.eq(ConvolutionLength(nu, nv, CONV_CENTRAL), central, "central-length");
	c.eq(got.size(), len, "length");
	const auto ref = convRef(u.data(), nu, vp, nv, off, len);
	const real ep = std::max(eps_v<A>, eps_v<B>);
	for (size_t i = 0; i < std::min(len, got.size()); ++i) {
		auto e = ref.value[i];
		real s = ref.scale[i];
		if (!clear) e += wide(before[i]), s += mag(wide(before[i]));
		if (!c.near(got[i], e, exact ? 0 : 40 * ep * s, "value", (long long)i)) break;
	}
	c.ok(o.intact() && u.intact() && v.intact(), "wrote-outside");
	c.ok(!std::memcmp(ku.data(), u.data(), nu * sizeof(A)) && !std::memcmp(kv.data(), vp, nv * sizeof(B)), "input-changed");
	if (!len) c.trivial();
}
FAMILY(conv_real, 24000, 1200000) { c.rng.chance(0.5) ? conv<float, float, TIME_DOMAIN>(c) : conv<double, double, FREQUENCY_DOMAIN>(c); }
FAMILY(conv_cplx, 16000, 800000) {
	switch (c.rng.range(0, 3)) {
		case 0: return conv<cf, cf, TIME_DOMAIN>(c);
		case 1: return conv<float, cf, TIME_DOMAIN>(c);
		case 2: return conv<cf, float, TIME_DOMAIN>(c);
		default: return conv<cd, double, TIME_DOMAIN>(c);
	}
}

// Empty operands have an empty convolution.
FAMILY(conv_empty, 40, 400) {
	const size_t n = c.rng.size(0, 40);
	const bool first = c.rng.chance(0.5);
	c.p("n", n).p("first", first);
	Signal<float> e, s(n, 1.0f);
	c.eq((first ? Convolution(e, s, CONV_FULL) : Convolution(s, e, CONV_FULL)).size(), size_t(0), "empty");
	c.eq(ConvolutionLength(first ? 0 : n, first ? n : 0, CONV_CENTRAL), size_t(0), "empty-length");
}

// The kernels one by one: each must compute the same window for any operand sizes, not only those the front end gives it.
template <class A, class B> static void kernel(Case& c) {
	auto& g = c.rng;
	using R = decltype(A() * B());
	const int which = (int)g.range(0, 3);
	const bool big = g.chance(0.02) && which == 1;
	const size_t nu = big ? g.size(513, 700) : g.len(1, 90), nv = big ? g.size(513, 700) : g.len(1, 90), full = nu + nv - 1;
	const size_t off = g.chance(0.3) ? 0 : g.size(0, full), len = g.chance(0.3) ? full - off : g.size(0, full - off);
	const bool acc = which != 2 && g.chance(0.4);
	const size_t al = g.size(0, 511);
	c.p("t", std::string(tname<A>()) + tname<B>()).p("k", which).p("nu", nu).p("nv", nv).p("off", off).p("len", len).p("acc", acc).p("al", al);
	Buf<A> u(nu, al & 7);
	Buf<B> v(nv, (al >> 3) & 7);
	Buf<R> o(len, (al >> 6) & 7);
	fillSig(g, u, true);
	fillSig(g, v, true);
	if (acc) fillSig(g, o, true);
	rescale(g, u, v, o);
	std::vector<R> before(o.begin(), o.end());
	switch (which) {
		case 0: kernels::ConvolutionNaive(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, acc); break;
		case 1: kernels::ConvolutionSlide(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, acc); break;
		case 2: kernels::ConvolutionReduce(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off); break;
		default: g.chance(0.5) ? kernels::ConvolutionReduceVec(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, acc) : kernels::ConvolutionReduceVec(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), off, acc, std::plus<>{});
	}
	const auto ref = convRef(u.data(), nu, v.data(), nv, off, len);
	for (size_t i = 0; i < len; ++i) {
		auto e = ref.value[i];
		if (acc) e += wide(before[i]);
		if (!c.near(o[i], e, 0, "kernel", (long long)i)) break;
	}
	c.ok(o.intact() && u.intact() && v.intact(), "wrote-outside");
	if (!len) c.trivial();
}
FAMILY(conv_kernels, 16000, 800000) {
	switch (c.rng.range(0, 2)) {
		case 0: return kernel<float, float>(c);
		case 1: return kernel<double, double>(c);
		default: return kernel<cf, cf>(c);
	}
}
