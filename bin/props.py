"""Which harness, build variant and workload decides each property."""

def T(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

import vlib

def J(src, variant, tier, quick, thorough, mode="", **kw):
    d = dict(src=src, variant=variant, mode=mode, cases=T(tier, quick, thorough), timeout=T(tier, 420, 3600))
    d.update(kw)
    return d

MODEL = "harness/model.cpp is an independent executable model of the documented language (lexer, precedence parser, evaluator)"
PROPS = {}

PROPS["C03"] = dict(
    technique="differential execution against an independent precedence parser and evaluator", level="exploration",
    jobs=lambda t: [J("C03", "plain", t, 120000, 1600000)],
    need={"evaluations": 5000, "distinct": 2000, "operator_pairs_seen": 600, "grouping_pairs_compared": 5000},
    rule="All ordered pairs of binary/assignment/ternary operators and all prefix/binary combinations, then random sequences of 2-14 operators; "
         "each executed with random operand values. Non-trivial: the value is specified and value, variables, registers and memory matched the "
         "model both for the bare text and for the text with every grouping written out.",
    assumptions=[MODEL])

PROPS["C01"] = dict(
    technique="ASan+UBSan, MemorySanitizer and crash/exit monitoring under coverage-guided hostile inputs",
    level="exploration",
    jobs=lambda t: [J("C01", "asan", t, 6000, 400000),
                    dict(run=vlib.run_msan, name="msan", cases=T(t, 8000, 400000), timeout=T(t, 400, 3600)),
                    J("C01", "plain", t, 6000, 200000)],
    need={"evaluations": 20000, "distinct": 10000, "compiled": 8000, "rejected": 8000, "executions_completed": 20000, "msan_runs": 3000, "msan_compiled": 1500},
    rule="Hostile source texts (valid programs with extreme literals, token soup, random bytes, shaped extremes, coverage-guided mutations) compiled and executed with "
         "extreme variable/register values under AddressSanitizer+UndefinedBehaviorSanitizer (incl. float-cast-overflow), MemorySanitizer and uninstrumented with "
         "poisoned allocations. Distinct: different texts.",
    assumptions=["executions are cut after 150000 (sometimes 40 million) library edges", "nesting is limited to a few hundred levels (64 MB host stack)"])

PROPS["C02"] = dict(
    level="exploration",
    jobs=lambda t: [J("C02", "plain", t, 12000, 400000, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
                    J("history", "plain", t, 6000, 200000, mode="ledger")],
    need={"evaluations": 100000, "distinct": 30000, "compiled": 20000, "rejected": 20000, "teardowns": 5000, "token_positions": 20000, "ledgers_balanced": 2000, "programs_of_many_sizes": 500},
    technique="allocation ledger over wrapped allocator and whole-heap accounting, steady-state and teardown oracles",
    rule="(1) random programs broken at every token, each compiled four times; (2) cycles of compile/execute/destroy of several valid and broken programs repeated seven times; "
         "(3) programs of every size up to 12000 operators, instructions or characters, complete or broken; (4) random API histories with random destruction order. Oracle: live library allocations and bytes (allocator wrappers) and whole-heap use stay equal from the second round on, and are "
         "back at the initial value after everything is destroyed. Distinct: different texts/histories.",
    assumptions=["allocations are observed at malloc/calloc/realloc/strdup/strndup/free of the library's objects, and all others through mallinfo2"])

PROPS["C04"] = dict(
    level="exploration",
    jobs=lambda t: [J("C04", "plain", t, 100000, 2000000)],
    need={"evaluations": 20000, "distinct": 10000, "operations_with_operand_kinds_seen": 500},
    technique="differential execution against an independent value oracle for every operator and function",
    rule="Every operator (infix, prefix, compound assignment, function spelling) and every built-in function with operands of many kinds (integers, fractions, bounds, powers of two, huge, tiny, "
         "random), given as variables, literals and nested expressions. Non-trivial: the documented value is specified and was compared.",
    assumptions=[MODEL, "results that are not specified (non-finite, subnormal, conversion out of range) are executed but not compared"])

PROPS["C05"] = dict(
    level="exploration",
    jobs=lambda t: [J("C05", "plain", t, 100000, 2000000)],
    need={"evaluations": 10000, "distinct": 5000, "reference_writes": 20000, "discarded_writes": 500, "out_of_range_accesses": 500},
    technique="full-state comparison with a reference/value model after every execution",
    rule="Random programs built from assignments in all spellings to all kinds of targets (variables, registers, memory, results of if/exec/list/assignment, constants). All variables, registers and "
         "watched memory are preset to recognisable numbers and compared with the model after execution.",
    assumptions=[MODEL])

PROPS["C06"] = dict(
    level="exploration",
    jobs=lambda t: [J("C06", "plain", t, 250000, 4000000)],
    need={"evaluations": 20000, "distinct": 10000, "calls_traced": 20000, "operations_traced": 40, "short_circuits": 3000},
    technique="evaluation-order trace (every argument appends to a checksum) against the model's event order",
    rule="Every function, operator and conditional with arguments that record their evaluation in a script-side trace; order, count and selection compared with the model.",
    assumptions=[MODEL])

PROPS["C07"] = dict(
    level="exploration",
    jobs=lambda t: [J("C07", "plain", t, 6000, 100000)],
    need={"evaluations": 3000, "distinct": 1500, "iterations_counted": 1000000, "capped_loops": 50, "zero_loops": 200, "constant_loops": 200, "loop_situations": 50, "loop_nests": 500, "loops_with_a_single_operation": 150},
    technique="iteration counting by script-side counters and executed-edge budget (logical hang detector)",
    rule="loop()/while() with all kinds of counts (fractional, negative, beyond the cap, non-finite, constant, computed) and bodies (constant, changing the count, nested, a single operation of any kind repeated up to 1.3 million times). Iterations counted in variables; "
         "hangs are decided by a budget of executed library edges, not by time.",
    assumptions=[MODEL])

PROPS["C08"] = dict(
    level="exploration",
    jobs=lambda t: [J("C08", "plain", t, 32000, 500000)],
    need={"evaluations": 10000, "distinct": 5000, "literal_variable_comparisons": 5000, "protected_list_comparisons": 3000, "executions_compared_with_model": 8000, "rand_programs": 200},
    technique="metamorphic (literals vs variables, lists vs protected lists) and model comparison over repeated executions",
    rule="Random programs rich in constants, compared with (1) the never-optimising model over several executions, (2) the same program with literals replaced by variables holding the value, (3) the same "
         "program with list items wrapped so that they can't be dropped.",
    assumptions=[MODEL, "rand() in dropped list positions is not compared"])

PROPS["C10"] = dict(
    level="exploration",
    jobs=lambda t: [J("C10", "plain", t, 40000, 1000000)],
    need={"evaluations": 10000, "distinct": 5000, "layout_pairs_compiled": 5000, "layout_pairs_rejected": 500, "identifier_pairs": 200},
    technique="metamorphic execution of re-laid-out token sequences",
    rule="Token sequences written with different whitespace, comments, line breaks, continuation and letter case; acceptance, value and final state must agree with each other and with the model.",
    assumptions=[MODEL])

PROPS["C11"] = dict(
    level="exploration",
    jobs=lambda t: [J("C11", "plain", t, 60000, 1000000),
                    dict(J("C11", "plain", t, 30000, 1000000, mode="locale"), run=vlib.run_locales, name="locale")],
    need={"evaluations": 20000, "distinct": 10000, "literals_compared": 10000, "names_compared": 2000, "literal_and_name_kinds": 30},
    technique="value oracle for literals and names under C, decimal-comma and Turkish host locales (process and thread)",
    rule="Decimal, hexadecimal, character and named literals and names in all letter cases, in several syntactic positions, in the C locale and in de_DE/tr_TR locales set for the process or the thread.",
    assumptions=["locales are compiled by localedef from the installed definitions"])

PROPS["C12"] = dict(
    level="exploration",
    jobs=lambda t: [J("C12", "plain", t, 100000, 2000000)],
    need={"evaluations": 20000, "distinct": 10000, "accepted": 3000, "rejected": 10000, "argument_count_errors": 300, "errors_on_later_lines": 1000, "errors_at_end": 300, "offending_token_situations": 100},
    technique="acceptance and error-position oracle (independent parser) over valid and broken texts",
    rule="Valid programs and programs broken at random tokens, over several lines; acceptance, the error's line and column, and the reset of the error compared with the model's parser.",
    assumptions=[MODEL, "the position of errors at the end of the text is compared leniently"])

def history(pid, need, title, rule, cases=16000, asan=0):
    PROPS[pid] = dict(
        level="exploration",
        jobs=lambda t: [J("history", "plain", t, cases, cases * 40)] + ([J("history", "asan", t, asan, asan * 40)] if asan else []),
        need=need,
        technique=title,
        rule=rule + " Random histories of 15-60 API calls over up to five contexts, several buffers (custom, built-in), three register arrays and many handles; after every call all variables, "
             "registers and probed memory slots of all contexts are compared with a world model. Bursts repeat one operation up to 131072 times (executions of a handle), 8192 times (compilations, "
             "failing compilations, resets), 1024 times (contexts one after another) or on up to 511 contexts at once.",
        assumptions=[MODEL])

history("C09", {"observations_compared_bit_by_bit": 1000000, "evaluations": 50000, "distinct": 20000, "repeated_executions": 20000, "executions_of_fresh_copies": 5000, "observations": 1000000},
        "world-model monitor over API histories; fresh copies of handles must behave alike",
        "Histories that execute handles again and again, interleaved with others and with freshly compiled copies.")
_C09 = PROPS["C09"]["jobs"]
PROPS["C09"]["jobs"] = lambda t: _C09(t) + [J("C09", "plain", t, 40000, 1500000, mode="purity")]
PROPS["C09"]["rule"] += " Purity: several handles executed in up to five states which recur, some of them almost equal; everything observed is compared bit by bit with the earlier execution in the same state."
history("C13", {"evaluations": 50000, "distinct": 20000, "failed_compilations": 10000, "compiled": 10000, "observations": 1000000},
        "world-model monitor over API histories dominated by (failing) compilations",
        "Histories dominated by compilations, half of them failing; nothing but the error may change.")
history("C14", {"evaluations": 50000, "distinct": 20000, "variables_registered": 20000, "variable_resets": 2000, "observations": 1000000},
        "world-model monitor over variable addresses and values",
        "Histories dominated by variable registrations (hundreds of names in any case, registers, names from scripts), host writes and script writes; addresses stay fixed and distinct.", asan=800)
history("C15", {"evaluations": 50000, "distinct": 10000, "contexts_destroyed": 2000, "executions": 30000, "observations": 1000000},
        "world-model monitor over sharing and isolation of contexts",
        "Histories over many contexts that share or don't share registers and gmegabuf.")
history("C16", {"evaluations": 50000, "distinct": 10000, "memory_resets": 5000, "variable_resets": 5000, "observations": 1000000},
        "world-model monitor over resets",
        "Histories dominated by reset_variables, free_memory and freembuf().")
history("C19", {"evaluations": 30000, "distinct": 5000, "contexts_destroyed": 5000, "buffers_destroyed": 1000, "global_memory_destroyed": 1000, "handles_destroyed_after_context": 1000, "ledgers_balanced": 5000},
        "AddressSanitizer, allocation ledger and world-model monitor over random destruction orders",
        "Histories dominated by creation and destruction in random order, including the built-in global buffer.", asan=2500)

PROPS["C17"] = dict(
    level="exploration",
    jobs=lambda t: [J("C17", "plain", t, 6000, 60000)],
    need={"evaluations": 10000, "distinct": 5000, "swept_slots": 16000000, "writes": 10000, "reads": 10000, "out_of_range_accesses": 1000, "final_slots_compared": 50000, "access_situations": 50},
    technique="shadow-array monitor of all accesses, with exhaustive sweep of all 8388608 slots",
    rule="Every slot of both memories written and read back once (exhaustive sweep); random access histories with in-range, fractional, negative, huge and non-finite indices through every spelling, "
         "compared with a shadow array.",
    assumptions=["the index rounding documented in the code's own constant (value + 0.0001, rounded down) is taken as specification"])

PROPS["C18"] = dict(
    level="exploration",
    jobs=lambda t: [J("C18", "plain", t, 6000, 100000), J("C18", "asan", t, 600, 20000)],
    need={"evaluations": 2000, "distinct": 1000, "memcpy_calls": 2000, "memset_calls": 2000, "slots_compared": 100000, "block_situations": 50},
    technique="shadow-array monitor of block operations, with AddressSanitizer",
    rule="memset/memcpy with start, length and overlap around 0, block borders and the end of memory, negative, fractional and huge; whole affected and neighbouring ranges compared with a shadow array.",
    assumptions=["at most one argument of a call is huge (bounded time)"])

PROPS["C27"] = dict(
    level="exploration",
    jobs=lambda t: [dict(J("C27", "cmake", t, 16000, 200000), run=vlib.run_configs, name="configurations")],
    need={"evaluations": 30000, "distinct": 8000, "configurations": 6, "values_compared_exactly": 500000, "values_compared_within_rounding": 20000, "histories_through_the_shim": 2000, "functions_and_operators_compared": 40},
    technique="differential execution of CMake-built configurations against a model of the same number type, tolerance measured by rounding-noise runs",
    rule="The library is configured and built by its own CMake project (gcc/clang, Debug/Release with fast math, 8/4-byte numbers, shim, as sub-project and as installed package); a consumer linked with the exported targets runs random "
         "histories. Values must equal the model (same number type, rounded per operation) exactly where only exactly rounded operations are involved, else within 4x the spread of six noisy model runs.",
    assumptions=["programs whose outcome rounding noise of 8-16 ulp changes by more than 1e-8 (4-byte: 3e-3) relative are not judged", "x86-64 only"])

PROPS["C28"] = dict(
    level="exploration",
    jobs=lambda t: [J("C28", "plain", t, 1600, 30000), J("C28", "asan", t, 1600, 20000, mode="small")],
    need={"evaluations": 700, "distinct": 500, "shapes": 20, "max_instructions": 10000, "max_operators_in_a_chain": 8000, "max_name_or_literal_length": 10000, "max_nesting": 1200, "max_variables": 500, "too_deep_texts": 20, "argument_counts_compiled": 20, "max_arguments": 65000, "programs_compared_with_their_pieces": 150},
    technique="size-scaled execution against closed-form results and against the same instructions executed in pieces",
    rule="29 program shapes of log-uniform size (powers of two and stack/buffer growth steps preferred), results known in closed form; random programs of up to thousands of instructions executed as a whole and in small pieces with equal "
         "final state; texts nested beyond the parser's limit must give an ordinary error and leave the context usable. 8 MB stack; smaller sizes with AddressSanitizer.",
    assumptions=["sizes up to 60000 instructions or 30000 operators per chain, nesting up to 2800 levels is required to work, above 10000 levels an error is required, nothing is required in between"])

NOT_APPLICABLE = {
    "C29": "Runtime monitoring observes executions on the machine at hand; this sandbox has one architecture (x86-64), one OS and no emulators or other targets' toolchains, so other platforms cannot be executed. "
           "What can be observed here (gcc and clang, 4- and 8-byte numbers, Debug and Release) is covered by C27."}

PROPS["C20"] = dict(
    level="fault_enumeration",
    jobs=lambda t: [J("C20", "plain", t, 8000, 300000), J("C20", "plain", t, 1600, 60000, mode="threads", workers=4, timeout=T(t, 300, 3600))],
    need={"evaluations": 200000, "distinct": 10000, "lock_calls": 100000, "block_allocations_seen": 30000, "block_releases_seen": 30000, "injected_failures": 10000, "failed_creations": 5000,
          "threads_lock_waits": 1000, "threads_block_allocations_seen": 10000},
    technique="online monitor of the host mutex callbacks and of block allocations, with injected allocation failures and threads",
    rule="Random API calls (creation, compilation, memory-heavy execution, resets, destruction) without model, in one thread and in 2-6 threads with a real mutex and injected delays, 60% of the cases with "
         "failing allocations. Per call: mutex free on return, never requested while held, held whenever a block-sized allocation is made or released. Distinct: program texts.",
    assumptions=["blocks are recognised by their size (65536 numbers)"])

PROPS["C21"] = dict(
    level="exploration",
    jobs=lambda t: [J("C21", "tsan", t, 1200, 40000), J("C21", "plain", t, 4000, 150000)],
    need={"evaluations": 50000, "distinct": 1500, "slots_read_back": 50000, "unwritten_slots_read": 20000, "contended_lock_acquisitions": 300, "delays_injected": 10000, "blocks_created": 5000},
    technique="ThreadSanitizer plus per-slot ownership monitor on multi-threaded executions with injected delays",
    rule="2-6 threads execute programs of contexts sharing one gmegabuf (custom and built-in) after a common start; delays are injected around the host mutex, in the allocator and at library edges. Every slot has one owner writing "
         "unique values, read back during and after the run; neighbours nobody wrote must be 0; block creations and releases are counted. Runs with ThreadSanitizer and without.",
    assumptions=["schedules are those of this machine with injected delays, not all", "slots written by several threads without synchronisation by the host are not judged"])

PROPS["C22"] = dict(
    level="exploration",
    jobs=lambda t: [J("C22", "tsan", t, 700, 30000), J("C22", "plain", t, 2500, 100000), J("history", "plain", t, 4000, 120000, mode="handover")] + [J("C22", "tsan", t, 8, 8, mode="first%d" % k) for k in range(T(t, 6, 60))],
    need={"evaluations": 50000, "distinct": 1000, "results_compared": 50000, "draws_accounted_for": 10000, "errors_or_programs_compiled_concurrently": 20000, "contended_lock_acquisitions": 100, "delays_injected": 10000, "operation_kinds": 13, "processes_whose_first_calls_were_concurrent": 50, "thread_changes": 20000},
    technique="ThreadSanitizer plus per-thread comparison with the single-threaded run, and a stream-conservation check of concurrent rand() draws",
    rule="2-8 threads play random API histories (create, compile valid and invalid texts, execute, errors, resets, destroy, built-in and own gmegabuf and registers) on their own contexts; every logged result must equal the same history "
         "played alone. In further histories contexts, handles and buffers move from thread to thread between calls, compared with the world model. The rand() draws of all threads must be exactly the next values of the stream, in order within each thread. Delays are injected at the mutex, the allocator and library edges. Runs with ThreadSanitizer and without.",
    assumptions=["schedules are those of this machine with injected delays, not all", "contexts in different threads use different slots of the shared gmegabuf and different registers"])

PROPS["C23"] = dict(
    level="exploration",
    jobs=lambda t: [J("C23", "plain", t, 60000, 1000000)],
    need={"evaluations": 200000, "distinct": 100000, "draws_compared": 500000, "max_generator_periods_of_624_in_one_process": 100, "argument_kinds": 30, "programs_compared": 2000, "compilations_between_draws": 10000, "contexts_between_draws": 10000},
    technique="lock-step comparison of every draw with an independent MT19937 over the life of each process",
    rule="Handles with rand() in different positions, over several contexts, with arguments of all kinds; compilations, resets and contexts in between; programs mixing rand() with conditionals and loops "
         "compared with the model. One model stream per process that is never resynchronised, so every extra or missing draw shows up in all later ones.",
    assumptions=["seed and algorithm of the stream as published (MT19937, seed 0x4141f00d)"])

PROPS["C24"] = dict(
    level="fault_enumeration",
    jobs=lambda t: [J("C24", "plain", t, 8000, 200000), J("C24", "asan", t, 1600, 40000)],
    need={"evaluations": 50000, "distinct": 20000, "creations_with_failures": 50000, "executions_with_failures": 5000, "discarded_writes": 5000, "programs_without_memory": 3000, "memset_without_memory": 500, "memcpy_without_memory": 500,
          "recoveries": 500, "results_compared": 10000},
    technique="allocation-failure injection (every k, all from k, pairs, random) with ledger, twin-context and model oracles, also under AddressSanitizer",
    rule="Creation of contexts and buffers with every single allocation, all from the k-th, pairs and random subsets failing; executions of accesses to distinct blocks with the same failure styles, compared "
         "with a twin whose failed accesses are out of range; random programs without any memory for further blocks, compared with the model; memset/memcpy that run into a block that can't be allocated.",
    assumptions=[MODEL, "allocation failures during compilation and variable registration are outside the property"])

PROPS["C25"] = dict(
    level="exploration",
    jobs=lambda t: [J("C25", "shim", t, 10000, 200000), J("C25", "shimasan", t, 1200, 40000)],
    need={"evaluations": 100000, "distinct": 10000, "executions": 20000, "rejected": 2000, "observations": 1000000, "mutex_forwardings": 2000, "lock_calls_compared": 2000, "shim_functions_exercised": 12},
    technique="paired execution of histories through the shim and the native API with full-state comparison",
    rule="Random histories executed through NSEEL_* functions on one context and through the native functions on another with equal state; a quarter of the calls on the shim's objects are made through the "
         "native API. After every call variables, registers, memory, errors and mutex calls are compared.",
    assumptions=["NSEEL_VM_SetGRAM gets a buffer created by projectm_eval_memory_buffer_create()", "lineoffs is 0"])

PROPS["C26"] = dict(
    level="exploration",
    jobs=lambda t: [J("C26", "plain", t, 12000, 300000), dict(J("C26", "plain", t, 3000, 100000, mode="locale"), run=vlib.run_locales, name="locale")],
    need={"evaluations": 40000, "distinct": 20000, "api_calls": 200000, "output_checks": 40000, "snapshots_compared": 10000, "compiled": 10000, "rejected": 20000, "locale_changes_by_the_host": 2000},
    technique="captured standard streams, in-process system-call trap (seccomp) and process-state snapshots around API calls",
    rule="API histories over hostile, commented, invalid and valid texts, with host-set rounding modes, flush-to-zero, umask and locales. Standard streams are private files that must stay untouched; "
         "system calls for I/O and process state are trapped during API calls; descriptors, locale, FP control, signals, directory, environment are compared before and after.",
    assumptions=["changes that are undone before a call returns are only noticed if they need one of the trapped system calls"])
