// Signals and views against std::vector under random edit histories.
#include "vh.hpp"
#include <list>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using namespace vh;

template <class T> static T elem(Rng& g) {
	if constexpr (is_cplx<T>::value) return T((real_of_t<T>)g.range(-9999, 9999), (real_of_t<T>)g.range(-9999, 9999));
	else return (T)g.range(-9999, 9999);
}
template <class T> static std::vector<T> elems(Rng& g, size_t n) {
	std::vector<T> v(n);
	for (auto& e : v) e = elem<T>(g);
	return v;
}

// everything a const signal lets one read
template <class T, eSignalDomain D> static bool equal(BasicSignal<T, D>& s, const std::vector<T>& m) {
	const auto& k = s;
	if (k.size() != m.size() || k.empty() != m.empty() || k.capacity() < k.size()) return false;
	if ((size_t)(s.end() - s.begin()) != m.size() || (size_t)(k.cend() - k.cbegin()) != m.size() || (size_t)(k.rend() - k.rbegin()) != m.size()) return false;
	auto b = s.begin();
	auto kb = k.begin();
	auto cb = k.cbegin();
	auto r = s.rend();
	auto kr = k.rend();
	auto cr = k.crend();
	for (size_t i = 0; i < m.size(); ++i, ++b, ++kb, ++cb) {
		--r; --kr; --cr;
		if (!(s[i] == m[i] && k[i] == m[i] && s.data()[i] == m[i] && k.data()[i] == m[i] && *b == m[i] && *kb == m[i] && *cb == m[i] && *r == m[i] && *kr == m[i] && *cr == m[i])) return false;
	}
	return b == s.end() && kb == k.end() && cb == k.cend() && r == s.rbegin() && kr == k.rbegin() && cr == k.crbegin();
}
template <class T> static std::string show(const std::vector<T>& v) { std::ostringstream o; o << v.size() << ":"; for (size_t i = 0; i < v.size() && i < 12; ++i) o << ' ' << v[i]; return o.str(); }

template <class T, eSignalDomain D> static void history(Case& c) {
	auto& g = c.rng;
	using S = BasicSignal<T, D>;
	constexpr size_t N = 4;
	S s[N];
	std::vector<T> m[N];
	const int steps = (int)g.range(5, c.thorough ? 120 : 50);
	const size_t L = g.pick<size_t>({ 4, 20, 70 });
	c.p("type", tname<T>()).p("domain", (int)D).p("steps", steps).p("L", L);
	std::string ops;
	for (int step = 0; step < steps; ++step) {
		const size_t a = g.size(0, N - 1), b = g.size(0, N - 1);
		auto& x = s[a];
		auto& y = m[a];
		const int op = (int)g.range(0, 24);
		ops += (char)('a' + op);
		switch (op) {
			case 0: { const size_t n = g.size(0, L); const T v = elem<T>(g); x = S(n, v); y.assign(n, v); break; }
			case 1: { const auto d = elems<T>(g, g.size(0, L)); x = S(d.begin(), d.end()); y = d; break; }
			case 2: { const auto d = elems<T>(g, g.size(1, L)); x = S(d.size(), d.data()); y = d; break; }
			case 3: { const T p = elem<T>(g), q = elem<T>(g); x = S{ p, q, p }; y = { p, q, p }; break; }
			case 4: x = s[b]; y = m[b]; break;
			case 5: if (a != b) { x = std::move(s[b]); y = m[b]; s[b] = S(); m[b].clear(); } break;
			case 6: { S t(s[b]); x = t; t.resize(0); y = m[b]; break; }
			case 7: { if (a == b) break; S t(std::move(s[b])); y = m[b]; x = t; s[b].clear(); m[b].clear(); break; }
			case 8: if (a != b) { x.append(s[b]); y.insert(y.end(), m[b].begin(), m[b].end()); } break;
			case 9: if (a != b) { x.prepend(s[b]); y.insert(y.begin(), m[b].begin(), m[b].end()); } break;
			case 10: { const T v = elem<T>(g); x.push_back(v); y.push_back(v); break; }
			case 11: { const size_t k = g.size(0, y.size()); S t = x.extract_front(k); std::vector<T> e(y.begin(), y.begin() + k); c.ok(equal(t, e), "extract-front"); y.erase(y.begin(), y.begin() + k); break; }
			case 12: { const size_t k = g.size(0, y.size()); S t = x.extract_back(k); std::vector<T> e(y.end() - k, y.end()); c.ok(equal(t, e), "extract-back"); y.erase(y.end() - k, y.end()); break; }
			case 13: if (a != b) { const size_t k = g.size(0, y.size()); x.insert(k, s[b]); y.insert(y.begin() + k, m[b].begin(), m[b].end()); } break;
			case 14: if (a != b) { const size_t k = g.size(0, y.size()); x.insert(x.cbegin() + k, s[b]); y.insert(y.begin() + k, m[b].begin(), m[b].end()); } break;
			case 15: { const size_t k = g.size(0, y.size()); const auto d = elems<T>(g, g.size(0, L)); if (g.chance(0.5)) x.insert(x.cbegin() + k, d.begin(), d.end()); else { std::list<T> l(d.begin(), d.end()); x.insert(x.cbegin() + k, l.begin(), l.end()); } y.insert(y.begin() + k, d.begin(), d.end()); break; }
			case 16: if (!y.empty()) { const size_t k = g.size(0, y.size() - 1); x.erase(x.cbegin() + k); y.erase(y.begin() + k); } break;
			case 17:
			case 18: { const size_t k = g.size(0, y.size()), l = g.size(k, y.size()); x.erase(x.cbegin() + k, x.cbegin() + l); y.erase(y.begin() + k, y.begin() + l); break; }
			case 19: { const size_t n = g.size(0, L); x.resize(n); y.resize(n); break; }
			case 20: { const size_t n = g.size(0, L); const T v = elem<T>(g); x.resize(n, v); y.resize(n, v); break; }
			case 21: { const size_t n = g.size(0, 2 * L); x.reserve(n); c.ok(x.capacity() >= n, "reserve"); break; }
			case 22: if (g.chance(0.4)) { x.clear(); y.clear(); } break;
			case 23: if (!y.empty()) { const size_t k = g.size(0, y.size() - 1); const T v = elem<T>(g); switch (g.range(0, 3)) { case 0: x[k] = v; break; case 1: x.data()[k] = v; break; case 2: *(x.begin() + k) = v; break; default: *(x.rend() - 1 - k) = v; } y[k] = v; } break;
			default: { // conversion to another element type and back, by construction and by assignment
				if constexpr (!is_cplx<T>::value) {
					BasicSignal<double, D> wide(x);
					BasicSignal<std::complex<double>, D> z;
					z = x;
					c.ok(wide.size() == y.size() && z.size() == y.size(), "conversion-size");
					for (size_t i = 0; i < y.size() && i < wide.size() && i < z.size(); ++i) c.ok(wide[i] == (double)y[i] && z[i].real() == (double)y[i] && z[i].imag() == 0, "conversion");
					BasicSignal<T, D> back;
					back = wide;
					x = BasicSignal<T, D>(BasicSignal<float, D>(back));
				}
				else {
					BasicSignal<std::complex<double>, D> wide(x);
					BasicSignal<T, D> back(1, T(3));
					back = wide;
					x = back;
				}
				break;
			}
		}
		for (size_t i = 0; i < N; ++i) if (!c.ok(equal(s[i], m[i]), "history", [&] { return "signal " + std::to_string(i) + " after " + ops + ", expected " + show(m[i]) + ", got " + show(std::vector<T>(s[i].begin(), s[i].end())); })) return;
	}
	c.p("ops", ops);
}
FAMILY(signal_history, 900, 40000) {
	switch (c.rng.range(0, 5)) {
		case 0: return history<float, TIME_DOMAIN>(c);
		case 1: return history<double, FREQUENCY_DOMAIN>(c);
		case 2: return history<std::complex<float>, TIME_DOMAIN>(c);
		case 3: return history<std::complex<double>, FREQUENCY_DOMAIN>(c);
		case 4: return history<int, DOMAINLESS>(c);
		default: return history<float, QUEFRENCY_DOMAIN>(c);
	}
}

// A view and the range [at, at+n) of the base buffer it should denote.
template <class T, eSignalDomain D, class V> static bool denotes(V v, T* base, size_t at, size_t n, const std::vector<T>& model) {
	if (v.size() != n || v.empty() != (n == 0) || v.size_bytes() != n * sizeof(T)) return false;
	if ((size_t)(v.end() - v.begin()) != n || (size_t)(v.cend() - v.cbegin()) != n || (size_t)(v.rend() - v.rbegin()) != n || (size_t)(v.crend() - v.crbegin()) != n) return false;
	if (n == 0) return true;
	if (&v[0] != base + at || v.data() != base + at || &*v.begin() != base + at || &v.front() != base + at || &v.back() != base + at + n - 1) return false;
	auto it = v.begin();
	auto ci = v.cbegin();
	auto ri = v.rend();
	auto cri = v.crend();
	for (size_t i = 0; i < n; ++i, ++it, ++ci) {
		--ri; --cri;
		if (!(v[i] == model[at + i] && *it == model[at + i] && *ci == model[at + i] && *ri == model[at + i] && *cri == model[at + i])) return false;
	}
	return ri == v.rbegin() && cri == v.crbegin();
}

template <class T, eSignalDomain D> static void views(Case& c) {
	auto& g = c.rng;
	using V = BasicSignalView<T, D>;
	using CV = BasicSignalView<const T, D>;
	const size_t n = g.len(0, 100);
	const int origin = (int)g.range(0, 6);
	c.p("type", tname<T>()).p("domain", (int)D).p("n", n).p("origin", origin);
	std::vector<T> model = elems<T>(g, n);
	BasicSignal<T, D> sig(model.begin(), model.end());
	std::vector<T> vec = model;
	Buf<T> buf(n, g.size(0, 5));
	std::copy(model.begin(), model.end(), buf.begin());
	V v;
	T* base;
	switch (origin) {
		case 0: v = AsView(sig); base = sig.data(); break;
		case 1: v = V(sig); base = sig.data(); break;
		case 2: v = V(sig.begin(), sig.end()); base = sig.data(); break;
		case 3: v = V(sig.begin(), sig.size()); base = sig.data(); break;
		case 4: v = AsView<D>(vec.begin(), vec.end()); base = vec.data(); break;
		case 5: v = AsView<D>(vec.begin(), vec.size()); base = vec.data(); break;
		default: v = V(buf.begin(), buf.end()); base = buf.data(); break;
	}
	size_t at = 0, len = n;
	c.ok(denotes<T, D>(v, base, at, len, model), "initial-view");
	std::string ops;
	const int steps = (int)g.range(1, 25);
	std::vector<std::tuple<V, size_t, size_t>> kept;
	for (int s = 0; s < steps; ++s) {
		const int op = (int)g.range(0, 10);
		ops += (char)('a' + op);
		switch (op) {
			case 0: { const size_t k = g.size(0, len); v = v.subsignal(k); at += k; len -= k; break; }
			case 1: { const size_t k = g.size(0, len), l = g.size(0, len - k); v = v.subsignal(k, l); at += k; len = l; break; }
			case 2: { const size_t k = g.size(0, len); v = v.first(k); len = k; break; }
			case 3: { const size_t k = g.size(0, len); v = v.last(k); at += len - k; len = k; break; }
			case 4: if (len) { const size_t k = g.size(0, len - 1); const T e = elem<T>(g); switch (g.range(0, 3)) { case 0: v[k] = e; break; case 1: v.begin()[k] = e; break; case 2: v.data()[k] = e; break; default: *(v.rend() - 1 - k) = e; } model[at + k] = e; } break;
			case 5: if (len) { const T e = elem<T>(g), f = elem<T>(g); v.front() = e; model[at] = e; v.back() = f; model[at + len - 1] = f; } break;
			case 6: kept.emplace_back(v, at, len); break;
			case 7: if (!kept.empty()) { std::tie(v, at, len) = kept[g.size(0, kept.size() - 1)]; } break;
			case 8: { V w(v); V x; x = w; v = AsView(std::move(x)); break; }
			case 9: { // read-only views of the same elements, made in every way offered
				const CV k = AsConstView(v);
				CV k2(v), k3 = AsView(k), k4 = AsConstView(k);
				c.ok(denotes<T, D>(k, base, at, len, model) && denotes<T, D>(k2, base, at, len, model) && denotes<T, D>(k3, base, at, len, model) && denotes<T, D>(k4, base, at, len, model), "const-view");
				const size_t q = g.size(0, len), l = g.size(0, len - q);
				c.ok(denotes<T, D>(k.subsignal(q, l), base, at + q, l, model), "const-subsignal");
				break;
			}
			default: { // from the current range, through iterators
				if (origin <= 3) { v = V(sig.begin() + at, sig.begin() + at + len); const auto& cs = sig; const CV w = AsConstView<D>(cs.begin() + at, len), w2 = AsView(cs).subsignal(at, len), w3 = AsConstView<D>(cs.begin() + at, cs.begin() + at + len), w4(cs); c.ok(denotes<T, D>(w, base, at, len, model) && denotes<T, D>(w2, base, at, len, model) && denotes<T, D>(w3, base, at, len, model) && denotes<T, D>(w4, base, 0, n, model), "const-view"); }
				else v = V(base + at, len);
			}
		}
		if (!c.ok(denotes<T, D>(v, base, at, len, model), "view", [&] { return "after " + ops + " expected offset " + std::to_string(at) + " length " + std::to_string(len) + " got length " + std::to_string(v.size()); })) return;
		for (auto& [k, ka, kl] : kept) if (!c.ok(denotes<T, D>(k, base, ka, kl, model), "earlier-view", [&] { return "after " + ops; })) return;
	}
	// nothing but the elements written was changed
	for (size_t i = 0; i < n; ++i) c.ok(base[i] == model[i], "element");
	c.ok(buf.intact(), "stray-write");
	// a signal made from a view owns its elements
	BasicSignal<T, D> copy(v.begin(), v.end());
	std::vector<T> e(model.begin() + at, model.begin() + at + len);
	if (len) v[0] = elem<T>(g);
	c.ok(equal(copy, e), "copy-of-view");
	c.p("ops", ops);
}
FAMILY(view_history, 900, 40000) {
	switch (c.rng.range(0, 4)) {
		case 0: return views<float, TIME_DOMAIN>(c);
		case 1: return views<double, FREQUENCY_DOMAIN>(c);
		case 2: return views<std::complex<float>, TIME_DOMAIN>(c);
		case 3: return views<std::complex<double>, QUEFRENCY_DOMAIN>(c);
		default: return views<int, DOMAINLESS>(c);
	}
}
