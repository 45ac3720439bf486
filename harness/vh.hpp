// Monitoring runtime shared by all harnesses: case generation, oracle verdicts, event accounting, crash attribution.
#pragma once
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif

namespace vh {
using u64 = std::uint64_t;
using real = long double;
using cplx = std::complex<long double>;

inline u64 mix(u64 x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
inline u64 hashStr(const std::string& s) {
	u64 h = 1469598103934665603ull;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return mix(h);
}

struct Rng {
	u64 s;
	double nudge = 0; // moves the reals drawn by uni (not the decisions and sizes): the neighbour of a case
	u64 which = 0;    // and which of them
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	// inclusive range
	long long range(long long a, long long b) { return a + (long long)(next() % (u64)(b - a + 1)); }
	size_t size(size_t a, size_t b) { return (size_t)range((long long)a, (long long)b); }
	double raw(double a = 0, double b = 1) { return a + (b - a) * ((double)(next() >> 11) * 0x1p-53); }
	double uni(double a = 0, double b = 1) {
		const double u = raw();
		return a + (b - a) * (nudge != 0 && mix(s ^ which) % 3 ? u * (1 - nudge) : u);
	}
	bool chance(double p) { return raw() < p; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
	template <class T> const T& pick(const std::vector<T>& l) { return l[next() % l.size()]; }
	double normal() { double u = uni(1e-12, 1), v = uni(); return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); }
	// rarely, in place of n, a length far beyond it
	size_t longer(size_t n, size_t hi, double p = 0.004) { return chance(p) ? (size_t)std::exp(raw(std::log((double)std::max<size_t>(n, 16)), std::log((double)hi))) : n; }
	// log-uniform length that stresses 0, 1 and vector-width boundaries
	size_t len(size_t lo, size_t hi) {
		if (hi <= lo) return lo;
		switch (next() % 4) {
			case 0: return size(lo, std::min(hi, lo + 20));
			case 1: { // around a multiple of 4/8/16/32
				size_t m = pick<size_t>({ 4, 8, 16, 32, 64 });
				size_t v = m * size(0, hi / m) + (size_t)range(0, 2);
				v = v ? v - 1 : v;
				return std::min(hi, std::max(lo, v));
			}
			case 2: return (size_t)std::lround(std::exp(raw(std::log((double)lo + 1), std::log((double)hi + 1))) - 1);
			default: return size(lo, hi);
		}
	}
};

template <class T> struct is_cplx : std::false_type {};
template <class T> struct is_cplx<std::complex<T>> : std::true_type {};
template <class T> struct real_of { using type = T; };
template <class T> struct real_of<std::complex<T>> { using type = T; };
template <class T> using real_of_t = typename real_of<T>::type;
template <class T> constexpr double eps_v = (double)std::numeric_limits<real_of_t<T>>::epsilon();

template <class T> const char* tname() {
	if constexpr (std::is_same_v<T, float>) return "f";
	else if constexpr (std::is_same_v<T, double>) return "d";
	else if constexpr (std::is_same_v<T, std::complex<float>>) return "cf";
	else if constexpr (std::is_same_v<T, std::complex<double>>) return "cd";
	else if constexpr (std::is_same_v<T, int>) return "i32";
	else return "?";
}

// random element of moderate magnitude
template <class T> T rnd(Rng& r, double lo = -1, double hi = 1) {
	if constexpr (is_cplx<T>::value) {
		using R = real_of_t<T>;
		R a = (R)r.uni(lo, hi), b = (R)r.uni(lo, hi);
		return T(a, b);
	}
	else if constexpr (std::is_integral_v<T>) return (T)r.range((long long)lo, (long long)hi);
	else return (T)r.uni(lo, hi);
}

// Give random content some of the shapes real data has: any overall magnitude, silence with isolated samples, constant,
// alternating, decaying, one outlier, silent stretches, mirror symmetry, purely real or imaginary. Results scale accordingly, so oracles with relative bounds are unaffected.
template <class C> void vary(Rng& r, C& data) {
	using T = std::decay_t<decltype(*data.begin())>;
	if constexpr (!std::is_integral_v<T>) {
		using R = real_of_t<T>;
		if (!r.chance(0.3)) return;
		const int e = sizeof(R) == 4 ? 28 : r.chance(0.3) ? 240 : 60;
		const R scale = (R)std::ldexp(1.0, (int)r.range(-e, e));
		const size_t n = data.end() - data.begin();
		const int kind = (int)r.range(0, 10);
		const size_t from = r.size(0, n), to = r.chance(0.4) ? n : r.size(0, n);
		const size_t at = n ? r.size(0, n - 1) : 0;
		const double rate = r.uni(0, 10.0 / (double)(n + 1));
		for (size_t i = 0; i < n; ++i) {
			T& v = *(data.begin() + i);
			switch (kind) {
				case 0: if (i != at && r.chance(0.9)) v = T(0); break;
				case 1: v = T(1); break;
				case 2: v = T(i % 2 ? -1 : 1); break;
				case 3: v *= (R)std::exp(-rate * (double)i); break;
				case 4: if (i == at) v *= R(4096); break;
				case 5: if (from <= i && i < to) v = T(0); break;
				case 6: if (i >= n - 1 - i) v = *(data.begin() + (n - 1 - i)) / scale; break;
				case 7: if constexpr (is_cplx<T>::value) v = T(v.real()); break;
				case 8: if constexpr (is_cplx<T>::value) v = T(R(0), v.imag()); break;
				default: break;
			}
			v *= scale;
		}
	}
}

// Widen to the oracle's precision.
template <class T> auto wide(const T& v) {
	if constexpr (is_cplx<T>::value) return cplx(v.real(), v.imag());
	else return (real)v;
}
inline real mag(real v) { return std::fabs(v); }
inline real mag(cplx v) { return std::hypot(v.real(), v.imag()); }
inline bool finite(real v) { return std::isfinite(v); }
inline bool finite(cplx v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

inline std::string str(real v) { char b[64]; std::snprintf(b, sizeof b, "%.17Lg", v); return b; }
inline std::string str(cplx v) { return "(" + str(v.real()) + "," + str(v.imag()) + ")"; }

struct Hang {};

struct Shared { // crash-surviving marker of the case being executed
	char family[64];
	u64 index;
	u64 done;
	char desc[4096];
};
inline Shared*& shared() { static Shared* s = new Shared(); return s; }

// Largest error/tolerance quotient seen by each comparison: how far the verdicts are from both edges.
inline std::map<std::pair<const char*, const char*>, double>& margins() { static std::map<std::pair<const char*, const char*>, double> m; return m; }

struct Case {
	const char* famName = "";
	Rng rng;
	std::string family;
	u64 index = 0;
	bool thorough = false;
	std::string desc;   // shape of the case: this is what makes two cases distinct
	std::string notes;  // what was observed, for the samples
	bool nontrivial = true;
	u64 checks = 0;
	std::vector<std::pair<std::string, std::string>> fails; // key, message

	template <class V> Case& p(const char* k, const V& v) {
		std::ostringstream o;
		o.precision(17);
		o << k << '=' << v << ' ';
		desc += o.str();
		std::strncpy(shared()->desc, desc.c_str(), sizeof(Shared::desc) - 1);
		return *this;
	}
	template <class V> Case& note(const char* k, const V& v) {
		if (notes.size() < 400) {
			std::ostringstream o;
			o.precision(9);
			o << k << '=' << v << ' ';
			notes += o.str();
		}
		return *this;
	}
	void trivial() { nontrivial = false; }
	void fail(const std::string& key, const std::string& msg) {
		if (fails.size() < 5) fails.emplace_back(key, msg);
		else failOverflow = true;
	}
	bool failOverflow = false;
	bool ok(bool cond, const char* key, const std::function<std::string()>& msg = {}) {
		++checks;
		if (!cond) fail(key, msg ? msg() : std::string("condition is false"));
		return cond;
	}
	// |actual-expected| <= tol ; NaN/inf in actual is a failure
	template <class A, class E> bool near(const A& actual, const E& expected, real tol, const char* key, long long pos = -1) {
		++checks;
		auto a = wide(actual);
		auto e = wide(expected);
		real d;
		if constexpr (std::is_same_v<decltype(a), decltype(e)>) d = mag(a - e);
		else d = mag(cplx(a) - cplx(e));
		if (tol > 0 && std::isfinite(d)) {
			double& worst = margins()[{ famName, key }];
			worst = std::max(worst, (double)std::min<real>(d / tol, 1e300L));
		}
		if (!(d <= tol)) {
			std::string m = "got " + str(a) + ", expected " + str(e) + ", |diff| " + str(d) + " > tol " + str(tol);
			if (pos >= 0) m += " at [" + std::to_string(pos) + "]";
			fail(key, m);
			return false;
		}
		return true;
	}
	template <class A, class E> bool eq(const A& actual, const E& expected, const char* key, long long pos = -1) {
		++checks;
		if (!(actual == expected)) {
			std::ostringstream o;
			o.precision(17);
			o << "got " << actual << ", expected " << expected;
			if (pos >= 0) o << " at [" << pos << "]";
			fail(key, o.str());
			return false;
		}
		return true;
	}
};

// A destination or source buffer of exactly n elements, at a chosen element offset inside an allocation
// whose rest is red zone: canaries everywhere, and ASan poison where ASan is on.
template <class T> class Buf {
public:
	Buf(size_t n, size_t offset = 0, size_t tail = 3) : m_n(n), m_off(offset), m_tail(tail) {
		m_bytes = (m_off + m_n + m_tail) * sizeof(T);
		m_raw = (unsigned char*)std::malloc(m_bytes ? m_bytes : 1);
		for (size_t i = 0; i < m_bytes; ++i) m_raw[i] = canary(i);
		fill(0xC5);
		arm();
	}
	Buf(const Buf&) = delete;
	Buf& operator=(const Buf&) = delete;
	~Buf() { disarm(); std::free(m_raw); }
	T* data() { return (T*)m_raw + m_off; }
	const T* data() const { return (const T*)m_raw + m_off; }
	T* begin() { return data(); }
	T* end() { return data() + m_n; }
	const T* begin() const { return data(); }
	const T* end() const { return data() + m_n; }
	size_t size() const { return m_n; }
	T& operator[](size_t i) { return data()[i]; }
	const T& operator[](size_t i) const { return data()[i]; }
	// Fill the payload with a byte pattern (a stale value the callee must overwrite).
	void fill(unsigned char byte) { std::memset(m_raw + m_off * sizeof(T), byte, m_n * sizeof(T)); }
	bool intact() {
		disarm();
		bool good = true;
		for (size_t i = 0; i < m_off * sizeof(T); ++i) good = good && m_raw[i] == canary(i);
		for (size_t i = (m_off + m_n) * sizeof(T); i < m_bytes; ++i) good = good && m_raw[i] == canary(i);
		arm();
		return good;
	}

private:
	static unsigned char canary(size_t i) { return (unsigned char)(0xA5 ^ (i * 37)); }
	void arm() {
#if VH_ASAN
		__asan_poison_memory_region(m_raw, m_off * sizeof(T));
		__asan_poison_memory_region(m_raw + (m_off + m_n) * sizeof(T), m_tail * sizeof(T));
#endif
	}
	void disarm() {
#if VH_ASAN
		__asan_unpoison_memory_region(m_raw, m_bytes);
#endif
	}
	size_t m_n, m_off, m_tail, m_bytes;
	unsigned char* m_raw;
};

struct Family {
	const char* name;
	u64 quick, thorough;
	void (*fn)(Case&);
};
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Reg {
	Reg(const char* n, u64 q, u64 t, void (*f)(Case&)) { families().push_back({ n, q, t, f }); }
};
#define VH_CAT_(a, b) a##b
#define VH_CAT(a, b) VH_CAT_(a, b)
#define FAMILY(name, q, t)                                                       \
	static void name(vh::Case& c);                                               \
	static vh::Reg VH_CAT(reg_, name)(#name, q, t, &name);                       \
	static void name([[maybe_unused]] vh::Case& c)

inline std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += (char)ch;
	}
	return o;
}

inline void onHang(int) { _exit(97); }
inline void armTimer(int seconds) { // CPU time of this process, not wall time: a loaded machine does not matter
	itimerval t{};
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline int run(int argc, char** argv) {
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	const u64 seed = a.count("--seed") ? std::strtoull(a["--seed"].c_str(), 0, 10) : 1;
	const bool thorough = a.count("--tier") && a["--tier"] == "thorough";
	u64 shard = 0, shards = 1;
	if (a.count("--shard")) std::sscanf(a["--shard"].c_str(), "%llu/%llu", (unsigned long long*)&shard, (unsigned long long*)&shards);
	const double scale = a.count("--scale") ? std::atof(a["--scale"].c_str()) : 1.0;
	const int caseCpu = a.count("--case-cpu") ? std::atoi(a["--case-cpu"].c_str()) : 60;
	const bool single = a.count("--index");
	const std::string only = a.count("--family") ? a["--family"] : "";
	if (a.count("--cur")) {
		int fd = open(a["--cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 3;
		shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	std::signal(SIGPROF, onHang);

	std::ostringstream viol, samples, fam;
	std::unordered_set<u64> distinct;
	u64 evals = 0, checks = 0, violCases = 0;
	u64 ran = 0;
	for (auto& f : families()) {
		if (!only.empty() && only != f.name) continue;
		u64 n = thorough ? f.thorough : f.quick;
		if (n > 1) n = (u64)std::ceil(n * scale);
		u64 famCases = 0, famChecks = 0, famDistinct = 0;
		u64 first = shard, last = n, step = shards;
		if (single) { first = std::strtoull(a["--index"].c_str(), 0, 10); last = first + 1; step = 1; }
		for (u64 i = first; i < last; i += step) {
			Case c;
			c.family = f.name;
			c.famName = f.name;
			c.index = i;
			c.thorough = thorough;
			c.rng = Rng(mix(seed * 0x1000003ull + i) ^ hashStr(f.name));
			std::strncpy(shared()->family, f.name, sizeof(Shared::family) - 1);
			shared()->index = i;
			shared()->desc[0] = 0;
			armTimer(caseCpu);
			try { f.fn(c); }
			catch (const std::exception& e) { c.fail("exception", std::string("unexpected exception: ") + e.what()); }
			catch (...) { c.fail("exception", "unexpected exception of unknown type"); }
			armTimer(0);
			++evals; ++famCases; ++ran;
			checks += c.checks; famChecks += c.checks;
			shared()->done = evals;
			if (c.nontrivial && c.checks) {
				if (distinct.insert(hashStr(c.family + "|" + c.desc)).second) ++famDistinct;
			}
			if (famCases <= 2 || single) {
				samples << (samples.tellp() > 0 ? "," : "") << "{\"family\":\"" << f.name << "\",\"index\":" << i << ",\"case\":\"" << jesc(c.desc) << "\",\"observed\":\"" << jesc(c.notes)
						<< "\",\"checks\":" << c.checks << "}";
			}
			if (!c.fails.empty()) {
				++violCases;
				if (violCases <= 200) {
					for (auto& fl : c.fails)
						viol << (viol.tellp() > 0 ? "," : "") << "{\"family\":\"" << f.name << "\",\"index\":" << i << ",\"key\":\"" << jesc(fl.first) << "\",\"case\":\"" << jesc(c.desc) << "\",\"msg\":\"" << jesc(fl.second) << "\"}";
				}
			}
		}
		fam << (fam.tellp() > 0 ? "," : "") << "\"" << f.name << "\":{\"cases\":" << famCases << ",\"checks\":" << famChecks << ",\"distinct\":" << famDistinct << "}";
	}
	std::ostringstream marg;
	for (auto& [k, v] : margins()) marg << (marg.tellp() > 0 ? "," : "") << "\"" << k.first << "/" << jesc(k.second) << "\":" << v;
	std::ostringstream out;
	out << "{\"complete\":true,\"evaluations\":" << evals << ",\"checks\":" << checks << ",\"families\":{" << fam.str() << "},\"samples\":[" << samples.str() << "],\"violations\":[" << viol.str() << "],\"margins\":{" << marg.str() << "},\"violating_cases\":" << violCases << "}\n";
	if (a.count("--hashes")) {
		FILE* h = std::fopen(a["--hashes"].c_str(), "wb");
		for (u64 v : distinct) std::fwrite(&v, 8, 1, h);
		std::fclose(h);
	}
	if (a.count("--out")) {
		FILE* o = std::fopen(a["--out"].c_str(), "w");
		if (!o) return 3;
		std::fputs(out.str().c_str(), o);
		std::fclose(o);
	}
	else std::fputs(out.str().c_str(), stdout);
	return ran == 0 && shards == 1 ? 3 : 0;
}
} // namespace vh
#ifndef VH_NO_MAIN
int main(int argc, char** argv) { return vh::run(argc, argv); }
#endif
