"""Per property: (technique, level note). Properties without a check yet are in NA with the reason."""
DIFF = 'differential execution under a monitoring loader'
REF = 'Random exploration, deterministic per VERIF_SEED; oracle: clang 18 for x86_64-pc-windows-msvc on the same source, run under the same monitored loader (ABI, fault, deadlock monitors). Programs whose trapping-UBSan build traps are not judged.'
T = {
 'C01': (DIFF + ', int operator/type/location/value matrices and random programs', REF),
 'C03': (DIFF + ', floating point bit patterns over operator/type/location/value matrices', REF),
 'C02': (DIFF + ', constant expressions evaluated in every constant context (static initializer, case label, array size, #if, enum, _Static_assert)', REF),
 'C04': (DIFF + ', complete statement traces of random control flow', REF),
 'C05': (DIFF + ', sizes, offsets and bit images of random aggregates', REF),
 'C06': (DIFF + ', every subobject of randomly initialized objects', REF),
 'C07': ('runtime monitoring: differential execution of two-unit programs with each unit compiled by hlc or clang in every combination, parameters/results logged at both sides, register-preservation monitor in the loader', REF),
 'C08': ('runtime monitoring: the token stream the real preprocessor emits (/P, /EP, and strings in compiled programs executed in the loader) is compared online with the streams of clang and gcc, over random macro/conditional/include programs and bit-probed #if expressions', REF),
 'C09': ('runtime monitoring: executed programs log value, size, _Generic type and bytes of random literals in every context; logs compared with those of the program compiled by the reference compiler', REF),
 'C10': ('runtime monitoring: metamorphic execution - every permutation and distribution of the declarations of a random program is compiled (several files, threads, seeds), run, and its log compared with the ordered program compiled by the reference', REF),
 'C11': ('runtime monitoring: the same compilation is repeated under perturbed thread schedules, thread counts and file orders with lock/stack/deadlock monitors in the loader; outputs compared byte for byte (apart from stamp and GUID), diagnostics compared as sets', 'Random exploration of schedules, deterministic per VERIF_SEED up to the OS scheduler; injected delays at every synchronisation call of the compiler. Oracle: the output of the first schedule'),

 'C12': ('runtime monitoring with sanitizers: mutated, generated and hostile inputs (tokens, bytes, directives, includes, libraries, options) run through AddressSanitizer-, UndefinedBehaviorSanitizer- and assertion/coverage-instrumented builds in the loader; crash, assertion, hang and exit-contract monitors', 'Random exploration, deterministic per VERIF_SEED.'),
 'C15': ('runtime monitoring: every object written is parsed under strict COFF rules (online checker of the format), and images linked by lld-link from random mixes of hlc and clang objects are executed in the loader; logs compared with the all-clang image', 'Random exploration, deterministic per VERIF_SEED.'),
 'C14': ('strict PE32+ parser over every image (headers, sections, exports, imports, relocations, unwind table, TLS and debug directories) + byte comparison of the same program linked for two bases (only relocated words may differ) + execution in a monitoring loader at preferred and moved bases against the log of a clang/lld image', 'Random exploration, deterministic per VERIF_SEED.'),
 'C16': ('runtime monitoring: a PE loader single-steps the compiled code and, at every instruction, virtually unwinds through .pdata/.xdata; monitor compares with the true return address, stack pointer and nonvolatile registers it recorded at the call', 'Random exploration, deterministic per VERIF_SEED.'),
 'C20': ('runtime monitoring: differential execution of chains of images (hlc images, hlc objects linked by lld, clang) in a monitoring PE loader that records binding, plus an oracle over export/import tables', 'Random exploration, deterministic per VERIF_SEED.'),
 'C25': ('runtime monitoring: oracle over the exit status and diagnostics of the real compiler fed catalogue violations (and their valid neighbours) in random surroundings', 'Random exploration, deterministic per VERIF_SEED.'),
 'C26': ('runtime monitoring: a model of the documented command line predicts the outcome of every run of the real compiler (files, headers, macro values, diagnostics) under random option sets and spellings', 'Random exploration, deterministic per VERIF_SEED.'),
 'C21': ('differential runtime monitoring: generated programs with thread-local objects run on several threads, the recorded values, addresses and initial states compared with the clang build and per-thread models', 'Random exploration, deterministic per VERIF_SEED.'),
 'C24': ('runtime monitoring of atomic operations: logged values against clang, and conservation, exactly-once, ownership, mutual exclusion, tearing and store-buffering monitors over truly parallel threads; every operation is also single-stepped while the object changes in front of each of its instructions, and the outcome must be that of one of the two orders', 'Random exploration, deterministic per VERIF_SEED.'),
 'C27': ('self-compilation stages run under monitors: fixpoints of the images, equal outputs of every stage on corpus, mutated and generated inputs', 'Random exploration, deterministic per VERIF_SEED.'),
 'C28': ('runtime monitoring of startup: argv, envp, command lines and exit codes observed by compiled programs against a model of the documented UCRT rules, in the loader and under Wine', 'Random exploration, deterministic per VERIF_SEED.'),
 'C22': ('differential: programs of intrinsic calls (values logged, compared with the same program by clang), every instruction form disassembled and compared with llvm-mc, programs with __asm__ blocks over C variables executed against clang -fasm-blocks', 'Random exploration, deterministic per VERIF_SEED.'),
 'C23': ('runtime trace monitoring: the recorded descriptor words of every printlike call of generated programs are rendered and compared with the text computed from the values; complete programs print under Wine; the warnings of generated calls with fitting and with wrong arguments are compared with the generator\'s knowledge', 'Random exploration, deterministic per VERIF_SEED.'),
 'C19': ('runtime monitoring: generated reference graphs (dead part refers to undefined names) are built as DLL, object, and exporting DLL, executed, and every value reached through the graph is compared with a model', 'Random exploration, deterministic per VERIF_SEED.'),
 'C13': ('fault injection with a monitor of outcome: every file creation, open, read and write of a build is failed or shortened in turn inside the loader (or the disk fills up), next to erroneous builds, odd command lines and mutated programs; exit status, diagnostics and a snapshot of the directory are compared with the undisturbed run', 'Random exploration, deterministic per VERIF_SEED.'),
 'C17': ('runtime monitoring: event logs of random __try/__except programs run on Wine (images, objects linked by lld) against a model of two-phase exception handling', 'Two known findings: __finally and the locals of the function in filters.'),
 'C18': ('runtime monitoring: self-describing random programs report addresses of variables, call sites, offsets and values; a strict PDB reader (images, and objects through lld) must say the same; structure, hashes and references of every record are checked', 'Random exploration, deterministic per VERIF_SEED.'),
 'C29': ('runtime monitoring of programs calling the supplied library: every result logged and compared with a model of the C11 clauses; header constants compared with clang', 'Random exploration, deterministic per VERIF_SEED.'),
}
NA = {f'C{i:02d}': 'check not built yet' for i in range(1, 29) if f'C{i:02d}' not in T}
