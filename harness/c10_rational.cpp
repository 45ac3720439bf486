// Rational numbers against exact 128-bit fractions.
#include "vh.hpp"
#include <dspbb/Math/Rational.hpp>
#include <numeric>
using namespace dspbb;
using namespace vh;
using i128 = __int128;

static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
struct Q {
	i128 n, d;
	Q(i128 a, i128 b) : n(a), d(b) { if (d < 0) n = -n, d = -d; const i128 g = gcd128(n, d); if (g) n /= g, d /= g; }
	Q operator+(Q o) const { return { n * o.d + o.n * d, d * o.d }; }
	Q operator-(Q o) const { return { n * o.d - o.n * d, d * o.d }; }
	Q operator*(Q o) const { return { n * o.n, d * o.d }; }
	Q operator/(Q o) const { return { n * o.d, d * o.n }; }
	int cmp(Q o) const { const i128 l = n * o.d, r = o.n * d; return l < r ? -1 : l > r; }
	i128 floor() const { i128 q = n / d; return n % d < 0 ? q - 1 : q; }
	i128 ceil() const { i128 q = n / d; return n % d > 0 ? q + 1 : q; }
};
static std::string s(Q q) { return std::to_string((long long)q.n) + "/" + std::to_string((long long)q.d); }

// |values| <= lim keeps every naive intermediate (products of two, plus sums of two of them) inside T.
template <class T> struct Gen {
	Rng& g;
	T lim;
	T num() {
		switch (g.range(0, 4)) {
			case 0: return (T)g.range(-3, 3);
			case 1: return (T)g.range(-(long long)lim, (long long)lim);
			case 2: return (T)(g.pick<long long>({ -1, 1 }) * (long long)lim);
			case 3: return (T)(g.pick<long long>({ -12, -6, 6, 12, 30, 0 }) % ((long long)lim + 1));
			default: return (T)g.range(-60 < -(long long)lim ? -(long long)lim : -60, std::min<long long>(60, lim));
		}
	}
	T den() { T v = num(); return v == 0 ? T(1) : v < 0 ? T(-v) : v; }
};

template <class T> static bool canon(Case& c, const Rational<T>& r, Q e, const char* key) {
	return c.ok((i128)r.Numerator() == e.n && (i128)r.Denominator() == e.d, key, [&] {
		return "got " + std::to_string((long long)r.Numerator()) + "/" + std::to_string((long long)r.Denominator()) + ", expected " + s(e);
	});
}

template <class T> static void scalarCase(Case& c) {
	auto& g = c.rng;
	const bool small = g.chance(0.5);
	const T lim = small ? T(12) : std::is_same_v<T, int16_t> ? T(80) : std::is_same_v<T, int> ? T(20000) : T(1000000000);
	Gen<T> gen{ g, lim };
	const T an = gen.num(), ad = gen.den(), bn = gen.num(), bd = gen.den(), k = gen.num();
	c.p("t", (int)sizeof(T)).p("a", (long long)an).p("/", (long long)ad).p("b", (long long)bn).p("/", (long long)bd).p("k", (long long)k);
	const Q qa(an, ad), qb(bn, bd), qk(k, 1), one(1, 1);
	const Rational<T> a(an, ad), b(bn, bd);
	canon(c, a, qa, "construct");
	canon(c, b, qb, "construct");
	canon(c, Rational<T>(k), qk, "construct-int");
	Rational<T> copy(a), assigned;
	assigned = b;
	canon(c, copy, qa, "copy");
	canon(c, assigned, qb, "assign");
	if constexpr (sizeof(T) >= sizeof(int)) {
		canon(c, a + b, qa + qb, "add");
		canon(c, a - b, qa - qb, "subtract");
		canon(c, a * b, qa * qb, "multiply");
		if (bn != 0) canon(c, a / b, qa / qb, "divide");
		canon(c, a + k, qa + qk, "add-int");
		canon(c, a - k, qa - qk, "subtract-int");
		canon(c, a * k, qa * qk, "multiply-int");
		if (k != 0) canon(c, a / k, qa / qk, "divide-int");
		canon(c, k + a, qk + qa, "int-add");
		canon(c, k - a, qk - qa, "int-subtract");
		canon(c, k * a, qk * qa, "int-multiply");
		if (an != 0) canon(c, k / a, qk / qa, "int-divide");
		auto compound = [&](auto op, Q e, const char* key) { Rational<T> r = a; Rational<T>& ref = op(r); canon(c, r, e, key); c.ok(&ref == &r, "returns-self"); };
		compound([&](Rational<T>& r) -> Rational<T>& { return r += b; }, qa + qb, "compound-add");
		compound([&](Rational<T>& r) -> Rational<T>& { return r -= b; }, qa - qb, "compound-subtract");
		compound([&](Rational<T>& r) -> Rational<T>& { return r *= b; }, qa * qb, "compound-multiply");
		if (bn != 0) compound([&](Rational<T>& r) -> Rational<T>& { return r /= b; }, qa / qb, "compound-divide");
		compound([&](Rational<T>& r) -> Rational<T>& { return r += k; }, qa + qk, "compound-add-int");
		compound([&](Rational<T>& r) -> Rational<T>& { return r -= k; }, qa - qk, "compound-subtract-int");
		compound([&](Rational<T>& r) -> Rational<T>& { return r *= k; }, qa * qk, "compound-multiply-int");
		if (k != 0) compound([&](Rational<T>& r) -> Rational<T>& { return r /= k; }, qa / qk, "compound-divide-int");
		compound([&](Rational<T>& r) -> Rational<T>& { return r += r; }, qa + qa, "self-add");
		compound([&](Rational<T>& r) -> Rational<T>& { return r -= r; }, qa - qa, "self-subtract");
		compound([&](Rational<T>& r) -> Rational<T>& { return r *= r; }, qa * qa, "self-multiply");
		if (an != 0) compound([&](Rational<T>& r) -> Rational<T>& { return r /= r; }, one, "self-divide");
		compound([&](Rational<T>& r) -> Rational<T>& { return ++r; }, qa + one, "pre-increment");
		compound([&](Rational<T>& r) -> Rational<T>& { return --r; }, qa - one, "pre-decrement");
		{ Rational<T> r = a; canon(c, r++, qa, "post-increment"); canon(c, r, qa + one, "post-increment"); }
		{ Rational<T> r = a; canon(c, r--, qa, "post-decrement"); canon(c, r, qa - one, "post-decrement"); }
		// comparisons, both with rationals and with integers on either side
		auto cmp = [&](const auto& l, const auto& r, int e, const char* key) {
			c.ok((l == r) == (e == 0) && (l != r) == (e != 0) && (l < r) == (e < 0) && (l > r) == (e > 0) && (l <= r) == (e <= 0) && (l >= r) == (e >= 0), key,
				 [&] { return s(qa) + " vs " + s(qb) + " or integer " + std::to_string((long long)k) + ", order should be " + std::to_string(e); });
		};
		cmp(a, b, qa.cmp(qb), "compare");
		cmp(b, a, qb.cmp(qa), "compare");
		cmp(a, copy, 0, "compare-equal");
		cmp(a, k, qa.cmp(qk), "compare-int");
		cmp(k, a, qk.cmp(qa), "int-compare");
		cmp(a, (T)qa.floor(), qa.cmp(Q(qa.floor(), 1)), "compare-int");
		canon(c, frac(a), qa - Q(qa.floor(), 1), "frac");
		// the same value built in another way is represented equally
		const T m = (T)g.range(1, 7);
		canon(c, Rational<T>(an * m, ad * m), qa, "construct-unreduced");
	}
	c.ok((i128)floor(a) == qa.floor(), "floor");
	c.ok((i128)ceil(a) == qa.ceil(), "ceil");
	c.near((double)a, (real)an / (real)ad, std::fabs((real)an / ad) * 3e-16L, "to-double");
	c.near((float)a, (real)an / (real)ad, std::fabs((real)an / ad) * 4e-7L, "to-float");
}
FAMILY(single_operations, 200000, 8000000) { c.index % 2 ? scalarCase<int>(c) : scalarCase<int64_t>(c); }

// Mixed integer types in comparisons.
FAMILY(mixed_compare, 20000, 500000) {
	auto& g = c.rng;
	Gen<int> ga{ g, 2000 };
	const int an = ga.num(), ad = ga.den(), bn = ga.num(), bd = ga.den();
	c.p("a", an).p("/", ad).p("b", bn).p("/", bd);
	const Rational<int> a(an, ad);
	const Rational<int64_t> b(bn, bd);
	const int e = Q(an, ad).cmp(Q(bn, bd));
	c.ok((a == b) == (e == 0) && (a != b) == (e != 0) && (a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), "mixed-compare");
	c.ok((b == a) == (e == 0) && (b < a) == (e > 0) && (b > a) == (e < 0) && (b <= a) == (e >= 0) && (b >= a) == (e <= 0), "mixed-compare");
}

// Long expression histories: one accumulator under random operations stays exact and canonical.
FAMILY(histories, 6000, 300000) {
	auto& g = c.rng;
	Gen<int64_t> gen{ g, 30 };
	Rational<int64_t> r(gen.num(), gen.den());
	Q q(r.Numerator(), r.Denominator());
	std::string ops;
	for (int i = 0; i < 60; ++i) {
		const int64_t k = gen.num(), bn = gen.num(), bd = gen.den();
		const Rational<int64_t> b(bn, bd);
		const Q qb(bn, bd), qk(k, 1);
		const int op = (int)g.range(0, 11);
		Q next = q;
		switch (op) {
			case 0: next = q + qb; break;
			case 1: next = q - qb; break;
			case 2: next = q * qb; break;
			case 3: if (!bn) continue; next = q / qb; break;
			case 4: next = q + qk; break;
			case 5: next = q - qk; break;
			case 6: next = q * qk; break;
			case 7: if (!k) continue; next = q / qk; break;
			case 8: next = qk - q; break;
			case 9: if (!q.n) continue; next = qk / q; break;
			case 10: next = q + Q(1, 1); break;
			default: next = q - Q(q.floor(), 1); break;
		}
		const i128 lim = (i128)1 << 50;
		if (next.n > lim || next.n < -lim || next.d > lim) continue; // keep products inside the integer type
		switch (op) {
			case 0: r += b; break;
			case 1: r -= b; break;
			case 2: r *= b; break;
			case 3: r /= b; break;
			case 4: r += k; break;
			case 5: r -= k; break;
			case 6: r *= k; break;
			case 7: r /= k; break;
			case 8: r = k - r; break;
			case 9: r = k / r; break;
			case 10: r++; break;
			default: r = frac(r); break;
		}
		ops += char('a' + op);
		q = next;
		if (!canon(c, r, q, "history")) break;
		if (!c.ok((i128)floor(r) == q.floor() && (i128)ceil(r) == q.ceil(), "history-rounding")) break;
		const int e = q.cmp(qb);
		if (!c.ok((r < b) == (e < 0) && (r == b) == (e == 0) && (r > b) == (e > 0), "history-order")) break;
	}
	c.p("ops", ops).p("final", s(q));
}

// Large terms whose least common denominator and cancelled products still fit the integer type.
template <class T> static void largeCase(Case& c) {
	auto& g = c.rng;
	const long long B = sizeof(T) == 4 ? 1 << 15 : 1ll << 31; // B*B/4 fits, B*B*B does not
	auto val = [&] { return (i128)g.range(B / 8, B / 4); };
	const i128 d = val() * 3, n1 = val() * g.pick<int>({ -1, 1 }), n2 = val() * g.pick<int>({ -1, 1 });
	const i128 f = g.range(1, 3);
	c.p("d", (long long)d).p("n1", (long long)n1).p("n2", (long long)n2).p("f", (long long)f);
	const i128 big = d * (B / 16); // a denominator no other could be multiplied with
	{
		const Rational<T> a((T)n1, (T)big), b((T)n2, (T)big);
		const Q qa(n1, big), qb(n2, big);
		canon(c, a + b, qa + qb, "large-add");
		canon(c, a - b, qa - qb, "large-subtract");
		const int e = n1 < n2 ? -1 : n1 > n2;
		c.ok((a < b) == (e < 0) && (a > b) == (e > 0) && (a == b) == (e == 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0), "large-compare");
	}
	{ // neighbours no floating point type could tell apart
		const i128 top = sizeof(T) == 4 ? (i128)1 << 30 : (i128)1 << 61;
		const i128 den = g.pick<int>({ 1, 1, 2, 3, 7, 10 }), m1 = g.pick<int>({ -1, 1 }) * (top - (i128)(g.next() % (u64)(top / 2))), m2 = m1 + g.range(-2, 2);
		const Rational<T> a((T)m1, (T)den), b((T)m2, (T)den);
		const Q qa(m1, den), qb(m2, den);
		const int e = m1 < m2 ? -1 : m1 > m2;
		auto cmp = [&](const auto& l, const auto& r, int want, const char* key) { c.ok((l < r) == (want < 0) && (l > r) == (want > 0) && (l == r) == (want == 0) && (l != r) == (want != 0) && (l <= r) == (want <= 0) && (l >= r) == (want >= 0), key, [&] { return s(qa) + " vs " + s(qb); }); };
		canon(c, a, qa, "large-construct");
		cmp(a, b, e, "large-neighbours");
		canon(c, a - b, qa - qb, "large-neighbours-subtract");
		c.ok((i128)floor(a) == qa.floor() && (i128)ceil(a) == qa.ceil(), "large-rounding");
		canon(c, frac(a), qa - Q(qa.floor(), 1), "large-frac");
		const i128 k = qa.floor() + g.range(-1, 1);
		cmp(a, (T)k, qa.cmp(Q(k, 1)), "large-compare-int");
		cmp((T)k, a, Q(k, 1).cmp(qa), "large-int-compare");
		canon(c, a - (T)k, qa - Q(k, 1), "large-subtract-int");
		const Rational<int64_t> wa((int64_t)m1, (int64_t)den);
		cmp(wa, b, e, "large-mixed");
	}
	{ // cross cancellation: (p q / r) * (r s / q)
		const i128 p = g.range(1, 50) * g.pick<int>({ -1, 1 }), q = val(), r = val(), s2 = g.range(1, 50);
		const Rational<T> a((T)(p * q), (T)r), b((T)(r * s2), (T)q), inv((T)q, (T)(r * s2));
		const Q qa(p * q, r), qb(r * s2, q);
		if (sizeof(T) == 8 || (p * q < (i128)1 << 30 && p * q > -((i128)1 << 30) && r * s2 < (i128)1 << 30)) {
			canon(c, a * b, qa * qb, "large-multiply");
			canon(c, a / inv, qa / Q(q, r * s2), "large-divide");
		}
	}
	{ // integer factors that cancel
		const i128 den = big, k = d;
		const Rational<T> a((T)n1, (T)den);
		canon(c, a * (T)k, Q(n1, den) * Q(k, 1), "large-multiply-int");
		const Rational<T> w((T)(d * f), (T)(B / 8));
		canon(c, w / (T)d, Q(d * f, B / 8) / Q(d, 1), "large-divide-int");
	}
}
FAMILY(large_terms, 40000, 1500000) { c.index % 2 ? largeCase<int>(c) : largeCase<int64_t>(c); }
