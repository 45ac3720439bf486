// Elementwise arithmetic against scalar arithmetic.
#include "vh.hpp"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;

namespace {
template <class A, class B> auto apply(int op, const A& a, const B& b) {
	using R = decltype(a * b);
	switch (op) {
		case 0: return (R)(a + b);
		case 1: return (R)(a - b);
		case 2: return (R)(a * b);
		default: return (R)(a / b);
	}
}
template <class R, class A, class B> void call(int op, R&& r, const A& a, const B& b) {
	switch (op) {
		case 0: Add(r, a, b); break;
		case 1: Subtract(r, a, b); break;
		case 2: Multiply(r, a, b); break;
		default: Divide(r, a, b);
	}
}
template <class A, class B> auto oper(int op, const A& a, const B& b) {
	switch (op) {
		case 0: return a + b;
		case 1: return a - b;
		case 2: return a * b;
		default: return a / b;
	}
}
template <class A, class B> void compound(int op, A&& a, const B& b, const void*& ret) {
	switch (op) {
		case 0: ret = &(a += b); break;
		case 1: ret = &(a -= b); break;
		case 2: ret = &(a *= b); break;
		default: ret = &(a /= b);
	}
}
template <class T> T element(Case& c, bool divisor, bool specials) {
	if constexpr (std::is_integral_v<T>) {
		T v = (T)c.rng.range(-2000, 2000);
		return divisor && v == 0 ? (T)7 : v;
	}
	else if constexpr (is_cplx<T>::value) {
		T v = rnd<T>(c.rng, -8, 8);
		using U = typename T::value_type;
		if (c.rng.chance(0.06)) v = c.rng.pick<T>({ T(1, 0), T(0, 1), T(-1, 0), T(0, -1), T(2, 0), T(0, 0.5), T(3, 3), T(-0.0, 1) });
		if (c.rng.chance(0.06)) v = c.rng.chance(0.5) ? T(v.real(), 0) : T(0, v.imag());
		if (!divisor && c.rng.chance(0.02)) return T(0);
		if (c.rng.chance(0.03)) v *= (U)std::ldexp(1.0, (int)c.rng.range(-40, 40));
		return std::abs(v) < 1e-13 ? T(2) : v;
	}
	else {
		if (specials && c.rng.chance(0.1)) {
			using L = std::numeric_limits<T>;
			return c.rng.pick<T>({ 0, -(T)0, L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::max(), L::lowest(), L::min(), 1 });
		}
		T v = (T)std::ldexp(c.rng.uni(-1, 1), (int)c.rng.range(-6, 6));
		if (c.rng.chance(0.06)) v = c.rng.pick<T>({ 1, -1, 2, -2, 0.5, 3, 0, 10, -(T)0 });
		if (c.rng.chance(0.03)) v = (T)std::ldexp(v, (int)c.rng.range(-50, 50));
		return divisor && v == 0 ? (T)1 : v;
	}
}
template <class T> bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <class R, class A, class B> bool agrees(int op, const R& got, const A& a, const B& b, std::string& why) {
	if constexpr (std::is_integral_v<R>) {
		const R e = apply(op, a, b);
		why = std::to_string(got) + " instead of " + std::to_string(e);
		return got == e;
	}
	else if constexpr (is_cplx<R>::value) {
		const cplx wa = cplx(wide(a)), wb = cplx(wide(b));
		const cplx e = apply(op, wa, wb);
		const real scale = op <= 1 ? mag(wa) + mag(wb) : mag(e);
		why = str(wide(got)) + " instead of " + str(e);
		return mag(cplx(wide(got)) - e) <= 24 * (real)eps_v<R> * scale + 1e-37L;
	}
	else {
		const R e = apply(op, a, b);
		why = str((real)got) + " instead of " + str((real)e);
		if (std::isnan(e)) return std::isnan(got);
		if (!std::isfinite(e)) return got == e || std::fabs(got) >= std::numeric_limits<R>::max() * (1 - 4 * eps_v<R>);
		return std::fabs((real)got - (real)e) <= 4 * (real)eps_v<R> * std::fabs((real)e) + std::numeric_limits<R>::denorm_min() * 8;
	}
}

template <class A, class B, eSignalDomain D> void arith(Case& c) {
	using R = decltype(std::declval<A>() * std::declval<B>());
	auto& g = c.rng;
	const int op = (int)g.range(0, 3), form = (int)g.range(0, 2); // 0 signal-signal, 1 scalar-signal, 2 signal-scalar
	int style = (int)g.range(0, 4); // 0 function, 1 operator, 2 in place of a, 3 in place of b, 4 compound
	constexpr bool RA = std::is_same_v<R, A>, RB = std::is_same_v<R, B>;
	if (style == 2 && (!RA || form == 1)) style = 0;
	if (style == 3 && (!RB || form == 2)) style = 1;
	if (style == 4 && (!RA || form == 1)) style = 0;
	const size_t n = g.longer(g.len(0, 400), 70000), oa = g.size(0, 9), ob = g.size(0, 9), orr = g.size(0, 9);
	const bool specials = !is_cplx<R>::value && g.chance(0.3), sameArg = RA && RB && style >= 2 && form == 0 && g.chance(0.2);
	c.p("types", std::string(tname<A>()) + tname<B>()).p("op", "+-*/"[op]).p("form", form).p("style", style).p("n", n).p("off", oa * 100 + ob * 10 + orr).p("special", specials).p("self", sameArg);
	if (n == 0) c.trivial();
	Buf<A> a(n, oa);
	Buf<B> b(n, ob);
	Buf<R> r(n, orr);
	for (auto& v : a) v = element<A>(c, false, specials);
	for (auto& v : b) v = element<B>(c, true, specials);
	if constexpr (std::is_same_v<A, B>) { if (sameArg && op == 3) for (auto& v : a) v = element<A>(c, true, false); }
	A ownA = element<A>(c, false, specials);
	B ownB = element<B>(c, true, specials);
	const A* pa = &ownA;
	const B* pb = &ownB;
	// the scalar is a sample of the very signal that is being overwritten
	bool borrowed = false;
	if constexpr (std::is_same_v<A, B> && RA) {
		if (n && g.chance(0.25)) {
			const size_t at = g.size(0, n - 1);
			if (form == 2 && (style == 2 || style == 4)) a[at] = element<A>(c, true, specials), ownB = a[at], pb = &a[at], borrowed = true;
			if (form == 1 && style == 3) ownA = b[at], pa = &b[at], borrowed = true;
		}
	}
	c.p("borrowed", borrowed);
	const std::vector<A> ka(a.begin(), a.end());
	const std::vector<B> kb(b.begin(), b.end());
	BasicSignalView<A, D> va(a.begin(), a.end());
	BasicSignalView<B, D> vb(b.begin(), b.end());
	BasicSignalView<const A, D> ca(a.begin(), a.end());
	BasicSignalView<const B, D> cb(b.begin(), b.end());
	BasicSignalView<R, D> vr(r.begin(), r.end());
	std::vector<R> got;
	bool aKept = true, bKept = true, selfUsed = false;
	const int kind = (int)g.range(0, 3); // signals, mutable views or read-only views as operands
	if (style == 0) {
		if (kind == 3) {
			const BasicSignal<A, D> xa(a.begin(), a.end());
			BasicSignal<B, D> xb(b.begin(), b.end());
			BasicSignal<R, D> xr(n);
			if (form == 0) call(op, xr, xa, xb);
			if (form == 1) call(op, xr, *pa, xb);
			if (form == 2) call(op, xr, xa, *pb);
			std::copy(xr.begin(), xr.end(), r.begin());
		}
		else if (kind == 0) {
			if (form == 0) call(op, vr, va, vb);
			if (form == 1) call(op, vr, *pa, vb);
			if (form == 2) call(op, vr, va, *pb);
		}
		else {
			if (form == 0) call(op, vr, ca, cb);
			if (form == 1) call(op, vr, *pa, cb);
			if (form == 2) call(op, vr, ca, *pb);
		}
		got.assign(r.begin(), r.end());
	}
	else if (style == 1) {
		const BasicSignal<A, D> xa(a.begin(), a.end());
		const BasicSignal<B, D> xb(b.begin(), b.end());
		if (form == 0) { auto x = g.chance(0.5) ? oper(op, xa, xb) : oper(op, ca, cb); got.assign(x.begin(), x.end()); }
		if (form == 1) { auto x = oper(op, *pa, xb); got.assign(x.begin(), x.end()); }
		if (form == 2) { auto x = oper(op, xa, *pb); got.assign(x.begin(), x.end()); }
	}
	else if (style == 2) {
		aKept = false;
		if constexpr (RA) {
			if (form == 0) { if constexpr (std::is_same_v<A, B>) { if (sameArg) { call(op, va, va, va); selfUsed = true; } } if (!selfUsed) { if (kind == 0) call(op, va, va, vb); else if (kind == 1) call(op, va, ca, cb); else call(op, va, va, cb); } }
			else if (kind == 1) call(op, va, ca, *pb);
			else call(op, va, va, *pb);
			got.assign(a.begin(), a.end());
		}
	}
	else if (style == 3) {
		bKept = false;
		if constexpr (RB) {
			if (form == 0) { if (kind == 0) call(op, vb, va, vb); else if (kind == 1) call(op, vb, ca, cb); else call(op, vb, ca, vb); }
			else if (kind == 1) call(op, vb, *pa, cb);
			else call(op, vb, *pa, vb);
			got.assign(b.begin(), b.end());
		}
	}
	else {
		aKept = false;
		if constexpr (RA) {
			const void* ret = nullptr;
			const void* self = &va;
			if (g.chance(0.5)) {
				BasicSignal<A, D> xa(a.begin(), a.end());
				self = &xa;
				if (form == 0) {
					if constexpr (std::is_same_v<A, B>) { if (sameArg) { compound(op, xa, xa, ret); selfUsed = true; } }
					if (!selfUsed) compound(op, xa, cb, ret);
				}
				else {
					if constexpr (std::is_same_v<A, B>) if (borrowed) pb = &xa[pb - reinterpret_cast<const B*>(a.data())];
					compound(op, xa, *pb, ret);
				}
				got.assign(xa.begin(), xa.end());
				aKept = true;
			}
			else {
				if (form == 0) compound(op, va, cb, ret);
				else compound(op, va, *pb, ret);
				got.assign(a.begin(), a.end());
			}
			c.ok(ret == self, "compound-returns-self");
		}
	}
	c.eq(got.size(), n, "size");
	for (size_t i = 0; i < std::min(n, got.size()); ++i) {
		std::string why;
		bool good;
		if (form == 1) good = agrees(op, got[i], ownA, kb[i], why);
		else if (form == 2) good = agrees(op, got[i], ka[i], ownB, why);
		else if (selfUsed) { if constexpr (std::is_same_v<A, B>) good = agrees(op, got[i], ka[i], ka[i], why); else good = true; }
		else good = agrees(op, got[i], ka[i], kb[i], why);
		c.ok(good, "value", [&] { return "[" + std::to_string(i) + "] " + why; });
		if (!good) break;
	}
	c.ok(a.intact() && b.intact() && r.intact(), "wrote-outside");
	if (aKept) c.ok(n == 0 || std::memcmp(a.data(), ka.data(), n * sizeof(A)) == 0, "input-a-changed");
	if (bKept) c.ok(n == 0 || std::memcmp(b.data(), kb.data(), n * sizeof(B)) == 0, "input-b-changed");
	if (n) c.note("r0", str(wide(got.empty() ? R{} : got[0])));
}
using cf = std::complex<float>;
using cd = std::complex<double>;
} // namespace

FAMILY(arith_real, 24000, 1500000) {
	switch (c.rng.range(0, 5)) {
		case 5: return arith<long long, long long, TIME_DOMAIN>(c);
		case 0: return arith<float, float, TIME_DOMAIN>(c);
		case 1: return arith<double, double, FREQUENCY_DOMAIN>(c);
		case 2: return arith<float, double, TIME_DOMAIN>(c);
		case 3: return arith<double, float, TIME_DOMAIN>(c);
		default: return arith<int, int, DOMAINLESS>(c);
	}
}
FAMILY(arith_cplx, 24000, 1500000) {
	switch (c.rng.range(0, 5)) {
		case 0: return arith<cf, cf, TIME_DOMAIN>(c);
		case 1: return arith<cd, cd, FREQUENCY_DOMAIN>(c);
		case 2: return arith<float, cf, TIME_DOMAIN>(c);
		case 3: return arith<cf, float, TIME_DOMAIN>(c);
		case 4: return arith<double, cd, TIME_DOMAIN>(c);
		default: return arith<cd, double, FREQUENCY_DOMAIN>(c);
	}
}

// Different element types through the three-operand form: the result is converted to the type of the destination.
FAMILY(arith_convert, 4000, 200000) {
	auto& g = c.rng;
	const size_t n = g.longer(g.len(0, 200), 20000);
	const int op = (int)g.range(0, 3);
	c.p("n", n).p("op", "+-*/"[op]).p("o", g.size(0, 5));
	Buf<float> a(n, g.size(0, 5)), b(n, g.size(0, 5));
	Buf<double> r(n, g.size(0, 5));
	for (auto& v : a) v = rnd<float>(g, -4, 4);
	for (auto& v : b) v = rnd<float>(g, 0.5, 4);
	call(op, SignalView<double>(r.begin(), r.end()), SignalView<const float>(a.begin(), a.end()), SignalView<const float>(b.begin(), b.end()));
	for (size_t i = 0; i < n; ++i)
		if (!c.near(r[i], apply(op, (real)a[i], (real)b[i]), 8 * eps_v<float> * 8, "value", (long long)i)) break;
	c.ok(r.intact() && a.intact() && b.intact(), "wrote-outside");
	if (n == 0) c.trivial();
}
