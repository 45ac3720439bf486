// Every operation executed several times on the same input with buffers elsewhere, other stale contents, another heap and another stack.
#ifndef VH_MEMCHECK
#define VH_MEMCHECK 0
#endif
#include "vh.hpp"
#include <malloc.h>
#define QUICK 1600
#define THOROUGH 60000
namespace ops { struct Ctx; }
static void differential(vh::Case& c, void (*fn)(ops::Ctx&));
#define OP_FAMILY(name) static vh::Reg VH_CAT(reg_, name)(#name, QUICK, THOROUGH, [](vh::Case& q) { differential(q, &name); });
#include "ops.hpp"

// Leaves a pattern where the next calls put their locals.
__attribute__((noinline, no_sanitize("address"))) static void dirtyStack(unsigned char b) {
	volatile unsigned char a[24000];
	for (auto& v : a) v = b;
#if VH_MEMCHECK
	VALGRIND_MAKE_MEM_UNDEFINED((void*)a, sizeof a);
#endif
}
static void differential(vh::Case& c, void (*fn)(ops::Ctx&)) {
	const vh::u64 seed = c.rng.next();
	const size_t maxLen = c.index % 4 == 0 ? 20 : c.index % 4 == 1 ? 70 : 200;
	ops::Ctx first(0, {});
	const int runs = VH_MEMCHECK ? 1 : 3;
	for (int i = 0; i < runs; ++i) {
		ops::Env e;
		e.align = i == 0 && c.rng.chance(0.5) ? 0 : c.rng.next() | 1;
		e.stale = c.rng.pick<unsigned char>({ 0x00, 0xFF, 0x7F, 0x3F, 0xC0, (unsigned char)c.rng.next() });
		const unsigned char heap = c.rng.pick<unsigned char>({ 0x00, 0x80, 0xC0, 0x40, (unsigned char)c.rng.next() });
		mallopt(M_PERTURB, heap);
		dirtyStack(c.rng.pick<unsigned char>({ 0x00, 0xFF, 0x7F, 0x40 }));
		ops::Ctx r = ops::run(fn, seed, e, maxLen);
		mallopt(M_PERTURB, 0);
		if (i == 0) {
			c.p("case", r.desc);
			if (r.empty) c.trivial();
			c.note("bytes", r.bytes.size());
		}
		c.ok(r.problem.empty(), "guarantee", [&] { return r.problem; });
		if (i == 0) { first.bytes = std::move(r.bytes); continue; }
		size_t at = 0;
		while (at < std::min(first.bytes.size(), r.bytes.size()) && first.bytes[at] == r.bytes[at]) ++at;
		c.ok(first.bytes == r.bytes, "depends-on-surroundings", [&] {
			return "same input, other buffers: " + std::to_string(first.bytes.size()) + "/" + std::to_string(r.bytes.size()) + " bytes of results differ first at " + std::to_string(at) + " (stale byte " + std::to_string(e.stale) + ", heap byte " + std::to_string(heap) + ", align " + std::to_string(e.align) + ")";
		});
	}
}
