# Depth of each check: number of generated cases per tier (counts, not times, so that runs are reproducible).
DEFAULTS = dict(
    rc_quick=16_000_000, rc_thorough=800_000_000,
    fuzz_quick=1_600_000, fuzz_workers_quick=8, fuzz_thorough=160_000_000, fuzz_workers_thorough=8,
    max_len=512, ncorpus=60,
    cap_quick=420, cap_thorough=14400,
    assumptions=[
        'the reference model (harness/model.hpp), rapidcheck, libFuzzer, the sanitizers and the compilers are trusted',
        'x86-64 Linux, 64-bit long, IEEE doubles, round-to-nearest, C locale',
    ],
)
CONFIG = {
    'C22': dict(runner='CompileRunner', technique='property-based testing: exhaustive enumeration of typed expressions and random well-typed and ill-typed programs, against a typing oracle; decided by the compilers'),
    'C23': dict(runner='ThreadRunner', rc_quick=2_400_000, rc_thorough=150_000_000, fuzz_quick=100_000, fuzz_thorough=20_000_000,
                tsan_quick=24_000, tsan_thorough=1_600_000, tsan_workers=4),
    'C25': dict(runner='ProgramRunner', programs_quick=180, programs_thorough=30000, calls_quick=24, calls_thorough=60,
                technique='property-based testing: random programs of several source files, compiled, linked and run, against a Python model of their output'),
    'C26': dict(runner='LocaleRunner', rc_quick=6_000_000, rc_thorough=200_000_000, fuzz_quick=200_000, fuzz_thorough=20_000_000),
    'C27': dict(rc_quick=6_000_000, rc_thorough=200_000_000, fuzz_quick=400_000, fuzz_thorough=40_000_000),
    'C28': dict(rc_quick=2_000_000, rc_thorough=200_000_000, fuzz_quick=200_000, fuzz_thorough=20_000_000,
                gxx=['-O0', '-fno-builtin', '-fsanitize-coverage=trace-pc']),
    'C30': dict(runner='ConstRunner', cases_quick=110_000, cases_thorough=8_000_000, batch=400,
                technique='property-based testing: generated arguments, evaluated by the compilers in constant expressions and again at run time'),
    'C24': dict(runner='ConfigRunner', rc_quick=4_000_000, rc_thorough=200_000_000, fuzz_quick=200_000, fuzz_thorough=40_000_000, ldflags=['-ldl']),
}
