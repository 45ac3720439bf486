"""What each check builds and runs. (build configuration, share of the case count) per tier."""
def both(n): # quick tier with n times the base case count
    return dict(BOTH, quick=[("asan", 0.4 * n), ("avx2", 1.0 * n)])
BOTH = {"quick": [("asan", 0.4), ("avx2", 1.0)], "thorough": [("asan", 0.4), ("o2", 1.0), ("avx2", 1.0), ("asan-avx2", 0.3)]}
RULE = "Seeded generation per family (lengths stress 0, 1 and SIMD-width boundaries; random element offsets and stale output bytes); two cases are distinct when their written-out shape differs; a case is non-trivial when it is not an empty-signal case and at least one oracle comparison ran on it."
PROPS = {
    "C02": dict(src=["c02_arith.cpp", "c02_math.cpp"], configs=both(4), rule=RULE,
        technique="sanitizer-instrumented executions judged element by element against scalar evaluation", assumptions=["long double evaluations of the C++ library are exact enough to judge float and double results"]),
    "C03": dict(src=["c03_stats.cpp"], configs=both(3), rule=RULE,
        technique="instrumented executions judged against long double definitions, exactly on exactly representable data",
        assumptions=["the corrected kurtosis estimator is defined by the formula of the reference named in the source"]),
    "C04": dict(src=["c04_conv.cpp"], configs=both(5), rule=RULE, technique="instrumented executions judged against the convolution sum, exactly on integer-valued data"),
    "C05": dict(src=["c05_ola.cpp#1", "c05_ola.cpp#2"], configs=both(5), rule=RULE, technique="instrumented executions judged against the convolution sum"),
    "C06": dict(src=["c06_fir.cpp#1", "c06_fir.cpp#2", "c06_fir.cpp#3"], configs=both(2), rule=RULE, technique="stream monitor: block histories checked against one-piece convolution, carried state checked after every block"),
    "C07": dict(src=["c07_iir.cpp#1", "c07_iir.cpp#2", "c07_iir.cpp#3"], configs=both(5), rule=RULE, technique="stream monitor: block histories of every realization checked against the difference equation, state copies and resets compared bit for bit"),
    "C08": dict(src=["c08_fft.cpp"], configs=both(4), rule=RULE, technique="instrumented executions judged bin by bin against the defining sums; exact permutation check of the shifts"),
    "C10": dict(src=["c10_rational.cpp"], configs={"quick": [("asan", 2.5), ("o2", 5.0)], "thorough": [("asan", 0.5), ("o2", 1.0)]}, rule="Random operand pairs (small, boundary and large values, unreduced fractions) and random operation histories; cases are distinct by operands or by operation sequence and final value.", technique="online checker: every result and every intermediate of operation histories compared with exact 128-bit fractions, overflow trapped by UBSan"),
    "C11": dict(src=["c11_interp.cpp"], configs=both(8), rule=RULE, technique="stream monitor: interpolation split at returned suspension points compared with the convolution of the zero-stuffed signal, exactly on integer-valued data"),
    "C12": dict(src=["c12_resample.cpp"], configs=both(8), rule=RULE, technique="stream monitor: every output sample compared with linear interpolation at its exact rational time; continuation from returned suspension points"),
    "C13": dict(src=["c13_iir_design.cpp#1", "c13_iir_design.cpp#2"], configs=both(5), rule=RULE, technique="instrumented executions judged against closed-form prototype responses at the warped frequency; pole and order monitors"),
    "C14": dict(src=["c14_systems.cpp"], configs=both(8), rule=RULE, technique="instrumented executions: every representation evaluated at common points against the product over the roots; bilinear responses against the continuous system"),
    "C20": dict(dict(src=["c20_generators.cpp"], configs=both(20), rule=RULE, technique="instrumented executions compared sample by sample with the closed form, phase uncertainty tracked so that only real jumps are ambiguous")),
    "C16": dict(dict(src=["c16_windows.cpp"], configs=both(20), rule=RULE, technique="instrumented executions compared with the defining formulas in extended precision; symmetry, form-agreement and side-lobe monitors")),
    "C15": dict(dict(src=["c15_fir_design.cpp#1", "c15_fir_design.cpp#2"], configs=both(20), rule=RULE, technique="instrumented executions: window designs compared tap by tap with the windowed ideal response; gradient of the weighted squared error monitored at every least-squares result")),
    "C17": dict(dict(src=["c17_polynomials.cpp"], configs=both(20), rule=RULE, technique="model-based monitoring: every object compared with an explicit root model after each step of random edit histories; exact integer-valued evaluation oracle")),
    "C18": dict(dict(src=["c18_sequences.cpp"], configs=both(20), rule=RULE, technique="model-based monitoring: std::vector model compared through every accessor after each step of random edit histories, under sanitizers with red zones")),
    "C23": dict(src=["c23_solvers.cpp"], configs=both(5), rule=RULE, technique="instrumented executions: returned points checked for a zero crossing inside the bracket, every evaluation point recorded; intervals compared with explicit point sets"),
    "C21": dict(src=["c21_elliptic.cpp"], configs=both(5), rule=RULE, technique="instrumented executions judged against quadrature of the defining integral and an extended-precision Landen evaluation; identity and round-trip monitors"),
    "C22": dict(src=["c22_rejection.cpp#1", "c22_rejection.cpp#2", "c22_rejection.cpp#3"], configs=both(4), rule=RULE, technique="instrumented executions at, inside and one rounding step beyond every limit; monitors on the exception, the untouched output and the order of settings"),
    "C19": dict(src=["c19_measure.cpp"], configs=BOTH, rule=RULE, technique="instrumented executions: measurements compared with an independent reading of the same samples, closed-form transitions, complement and mirror monitors; responses against the transfer function in extended precision"),
    "C01": dict(src=["c01_memory.cpp#1", "c01_memory.cpp#2", "c01_memory.cpp#3"], configs={"quick": [("asan", 1.0), ("avx2", 2.0), ("memcheck", 0.03)], "thorough": [("asan", 0.5), ("o2", 1.0), ("avx2", 1.0), ("asan-avx2", 0.5), ("memcheck", 0.02)]}, rule="Every public operation is drawn with random operands and executed three times with its buffers at other element offsets, other stale bytes in outputs, heap and stack; cases are distinct by operation, element type, lengths and form; a case is non-trivial when at least one element was processed.", technique="address, undefined-behaviour and definedness sanitizers, red zones around every buffer, and a differential monitor over executions that differ only in where the buffers are and what memory held before"),
    "C09": dict(src=["c09_threads.cpp#1", "c09_threads.cpp#2", "c09_threads.cpp#3", "c09_threads.cpp#4"], configs={"quick": [("tsan", 0.5), ("avx2", 1.0)], "thorough": [("tsan", 0.5), ("o2", 1.0), ("avx2", 0.5), ("asan", 0.2)]}, shards=16, threads=2, rule="Random sets of 2 to 8 threads, each with its own random list of library calls (same operation or mixed, equal or other operands, transform sizes far beyond the plan cache), started at one instant in a process where nothing was initialised before; random call histories on one thread; shared const objects. Cases are distinct by thread count, calls and operands.", technique="happens-before race detector on every call mix; bit-for-bit comparison of concurrent, repeated and fresh-thread results with the result alone"),
}
