"""Writes properties.jsonl (single place where the properties are worded)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=['src/' + f if '/' not in f else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)))

p('C01', 'Integer expressions evaluate to the value C11 (MSVC ABI, LLP64) defines',
  'For every well-defined expression built from integer operators, casts, assignments, compound assignments, increments, bit-fields, pointers and array subscripts, the compiled program computes the value, the type and the side effects C11 prescribes with MSVC type sizes (char signed, long 32 bit). Neither the shape of the expression (nesting, register pressure, operands in memory/registers/constants, calls in between) nor the kind of storage changes the result.',
  ['programs', 'inputs'], 'every operator x operand type pair x storage class x boundary values, and random well-defined programs nesting them',
  'The space is operator x type x type x operand location x register pressure x value; the repository has a few dozen example programs.',
  ['parse.c', 'emit_x64.c', 'ir.h'], [('usual arithmetic conversions and casts', 'src/parse.c push_cast, maybe_insert_arithmetic_conversion_casts'), ('instruction selection, register allocation and spilling', 'src/emit_x64.c emit_code_for_function__internal, spill_register')],
  ['values the compiled program stores to an output buffer'])
p('C02', 'Compile-time evaluation agrees with run-time evaluation',
  'A constant expression has the same value wherever the compiler evaluates it (static initializer, array size, enumerator, case label, bit-field width, _Static_assert, folded operand of a larger expression, #if) as the same expression computed at run time from variables of the same types. Constant folding never changes what a program computes.',
  ['programs'], 'every unary/binary/ternary/cast operator over all literal types and boundary values, in every constant context',
  'Folding has a separate implementation for every operator and literal type; tests compare a handful of constants with themselves.',
  ['parse.c', 'preprocess.c', 'main.c'], [('constant propagation on literals', 'src/parse.c'), ('static initializer evaluation', 'src/main.c evaluate_static_initializer'), ('#if expressions', 'src/preprocess.c')],
  ['data section contents / accepted _Static_asserts / run-time values'])
p('C03', 'Floating point follows IEEE 754 binary32/binary64',
  'float and double arithmetic, comparisons (including NaN, infinities, signed zeros and denormals), truth values, conversions to and from every integer type and between float and double, and decimal/hex literals give bit-for-bit the IEEE 754 round-to-nearest result of their C type, without excess precision, both in registers and in memory.',
  ['programs', 'inputs'], 'all operators x {float,double} x special/boundary/random values x operand locations, and all literals',
  'Each of NaN, -0.0, denormals, >2^63 conversions and literal rounding needs particular values that example tests do not combine.',
  ['parse.c', 'emit_x64.c', 'preprocess.c'], [('SSE selection', 'src/emit_x64.c emit_binary_op_xmm, emit_float_cast'), ('float literal parsing', 'src/parse.c TOKEN_float_literal')],
  ['bit patterns the compiled program stores'])
p('C04', 'Control flow and sequencing execute statements exactly as C11 orders them',
  'if/else, for, while, do, switch (any integer type, any case set, fallthrough, default anywhere, Duff-like labels), goto into and out of blocks, break/continue, &&, ||, ?: and comma execute exactly the statements and side effects, in exactly the order and number, C11 prescribes; block-scope objects and static locals keep their required lifetime.',
  ['programs', 'inputs'], 'random control-flow graphs with a trace log, for all inputs of the branch conditions',
  'Wrong jump targets show only for particular combinations of nested statements and condition values.',
  ['parse.c', 'emit_x64.c'], [('jump labels and jump IR', 'src/parse.c parse_statement'), ('jump resolution, switch emission', 'src/emit_x64.c jump_context_emit, IR_switch')],
  ['event trace logged by the compiled program'])
p('C05', 'Type layout equals the Windows x64 (MSVC) ABI',
  'sizeof, _Alignof and offsetof of every scalar, array, struct, union, enum, anonymous member, bit-field run, flexible array, #pragma pack and _Alignas/__declspec(align) combination, and the bit position of every bit-field, are those of the Microsoft x64 ABI, so that objects can be shared with code of other compilers.',
  ['programs'], 'randomly nested aggregates with packing, alignment and bit-fields',
  'Layout is a function of the whole declaration; only a few declarations are sampled by tests.',
  ['parse.c'], [('struct layout', 'src/parse.c parse struct members'), ('pragma pack stack', 'src/preprocess.c')], ['sizeof/offsetof values and byte images of objects with single members set'])
p('C06', 'Initializers produce exactly the memory image C11 prescribes',
  'For every object of static or automatic storage and every compound literal, with nested, designated, out-of-order, overriding, brace-elided or string initializers and relocatable addresses, each byte that belongs to a member has the value C11 prescribes and everything not initialized explicitly is zero; the array size is inferred correctly.',
  ['programs'], 'random types x random initializer forms x {global, static local, automatic, compound literal}',
  'Initializer semantics is recursive over the type; sampling a few shapes does not cover override/elision interplay.',
  ['parse.c', 'main.c', 'emit_x64.c'], [('initializer parsing', 'src/parse.c parse_initializer_list'), ('static data emission', 'src/main.c evaluate_static_initializer')], ['member values and image bytes read back at run time'])
p('C07', 'Calls interoperate with other compilers under the Windows x64 calling convention',
  'A function compiled by hlc can be called from, and can call, code compiled by another Windows x64 compiler with any signature (integers, floats, structs of any size by value, pointers, variadic, function pointers, struct return): arguments and return values arrive unchanged, the nonvolatile registers, stack pointer alignment, direction flag and MXCSR are preserved, and structs passed by value are copies.',
  ['programs', 'inputs'], 'random signatures and values, both call directions, objects linked by a reference linker',
  'The convention depends on the position, size and kind of every parameter; a test suite compiled by hlc alone is blind to a consistently wrong convention.',
  ['emit_x64.c', 'parse.c'], [('argument classification', 'src/emit_x64.c IR_function_call'), ('prolog/epilog', 'src/emit_x64.c emit_code_for_function')], ['argument/return values and register state at call boundaries'])
p('C08', 'The preprocessor implements C11 translation phases 1-4',
  'For every source file the token sequence after macro expansion, conditional inclusion, #include, # and ## operators, __VA_ARGS__/__VA_OPT__, #line/__LINE__/__FILE__/__COUNTER__, comments, line splices and #pragma once equals the one the C standard prescribes; the text written by /P or /EP has the same token sequence and compiles to the same program as the original.',
  ['inputs'], 'random macro definitions, invocations and conditional structures',
  'Rescanning, argument prescan, blue paint and placemarkers interact in ways only random nesting reaches.',
  ['preprocess.c', 'cli.c', 'main.c'], [('expansion', 'src/preprocess.c expand_define, push_expand'), ('text output', 'src/main.c /P handling')], ['token stream printed by /EP, tokens reflected by the compiled program'])
p('C09', 'Literals and identifiers denote the values C11 gives them',
  'Every integer literal (base, suffix, separators), character constant and string literal (prefixes L u U u8, escapes, UTF-8 source, concatenation, embedded zero) has the type, length and value C11 with MSVC types prescribes, string literals are stored aligned for their elements, and every legal spelling of identifiers, trigraph-free punctuation, whitespace and line endings is tokenized by maximal munch.',
  ['inputs'], 'random literals of every form in expressions and initializers',
  'Types and values depend on base, suffix and magnitude together; escapes on what follows them.',
  ['preprocess.c', 'parse.c'], [('tokenizer', 'src/preprocess.c tokenize_raw'), ('literal conversion', 'src/parse.c')], ['sizeof, type and contents of literals at run time'])
p('C10', 'Meaning does not depend on declaration order or on the split into units',
  'Because hlc needs no forward declarations, permuting the global declarations of a program, moving them between headers or compilation units, or distributing them over several files given on one command line neither changes whether the program is accepted nor what it does; static symbols stay private to their unit and equal external symbols denote one object.',
  ['programs', 'configurations'], 'random permutations, #include splits and file splits of valid programs',
  'The number of orders is factorial and each exercises different sleep/wake paths of the scheduler.',
  ['main.c', 'parse.c', 'preprocess.c'], [('sleeping on undefined identifiers/types', 'src/main.c wake_up_sleepers, src/parse.c maybe_sleep'), ('linkage of declarations', 'src/main.c register_declaration')], ['exit status and output of the permuted program'])
p('C11', 'Output is deterministic: threads, scheduling and seed never change it',
  'For a given command line and inputs the compiler terminates (no deadlock, no lost wake-up, no starvation), and the success status, the diagnostics, and the behaviour of the produced program are the same for every number of threads, every interleaving of the workers and every /seed; single-threaded repeats produce byte-identical files (apart from the time stamp and the GUID that pairs an image with its PDB).',
  ['schedules', 'configurations'], 'thread counts 1..16 x perturbed schedules x seeds x repeated runs',
  'Races and lost wake-ups need particular interleavings that an ordinary test run never reproduces.',
  ['main.c', 'std.c', 'parse.c'], [('work queues', 'src/std.c work_queue_*'), ('sleeper tables', 'src/main.c sleep_on/wake_up'), ('atomic symbol tables', 'src/std.c hash tables')], ['exit status, diagnostics, bytes and behaviour of outputs; deadlock detector; distinct schedules observed'])
p('C12', 'No input makes the compiler crash, hang, or corrupt memory',
  'For every source text, header, library, object and command line, hlc terminates in reasonable time with success or with at least one reported error; it never reads or writes out of bounds, never hits an internal assertion or undefined behaviour that changes its result, and never crashes, including on truncated, mutated, deeply nested and binary inputs.',
  ['inputs', 'configurations'], 'arbitrary byte strings and mutations of valid programs, libraries and objects',
  'The input space is unbounded; a test can only sample inputs someone already thought of.',
  ['preprocess.c', 'parse.c', 'ar.c', 'emit_inline_asm_block.c', 'cli.c', 'main.c'], [('error recovery', 'src/parse.c report_error/should_exit_statement'), ('token and arena bounds', 'src/std.c')], ['process termination status, sanitizer reports, run time'])
p('C13', 'Success and failure are reported truthfully',
  'hlc exits with 0 exactly when it reported no error and wrote every requested output completely; after any error, failed write or failed file creation it reports an error, exits non-zero, and does not leave the outputs it failed to produce looking like good ones from this run (after an error in the program no output is written at all; a failing build never leaves all of its outputs complete). It never crashes over a failing file operation. An existing file that is not an output of the run is never modified.',
  ['fault_sequences', 'inputs'], 'injected failures of each file creation/read/write, erroneous programs of all kinds, missing inputs',
  'The failing call must be injected at each position of each I/O sequence.',
  ['main.c', 'coff_writer.c', 'obj_writer.c', 'cli.c', 'std.c'], [('file output', 'src/std.c os_write_file, src/coff_writer.c'), ('error counting', 'src/diagnostic.c, src/main.c')], ['exit status vs. diagnostics vs. files on disk'])
p('C14', 'Executables and DLLs are well-formed PE32+ images, valid at any load address',
  'Every image written parses under strict PE rules (headers, section bounds, alignment, directory extents, sorted .pdata, import/export tables, checks of size fields), and behaves identically when loaded at any address: every absolute address in it is covered by a base relocation and nothing else is.',
  ['programs', 'configurations'], 'random programs x image options x load addresses',
  'A missing relocation is invisible while the image gets its preferred base.',
  ['coff_writer.c', 'emit_x64.c', 'main.c'], [('PE writing', 'src/coff_writer.c print_coff'), ('relocation generation', 'src/coff_writer.c relocations')], ['image bytes; behaviour at different bases'])
p('C15', 'Object files are valid COFF and link to the same program',
  'Objects written by /c (/obj) are well-formed COFF accepted by other linkers; linking them with each other and with objects of other compilers gives a program with the same behaviour as compiling the sources directly, with correct symbol linkage (static, extern, tentative, selectany, inline, dllimport), relocations, alignment, TLS and initial data.',
  ['programs', 'configurations'], 'random multi-file programs, mixed with objects from clang, linked by lld',
  'Relocation kinds, addends and symbol classes combine; few are exercised by tests that do not link with a foreign linker.',
  ['obj_writer.c', 'emit_x64.c'], [('COFF writer', 'src/obj_writer.c')], ['linker acceptance, behaviour of the linked program, symbol tables'])
p('C16', 'Unwind information is correct at every instruction',
  'At every instruction of every non-leaf function of a produced image, unwinding with the function\'s .pdata/.xdata restores the caller\'s instruction pointer, stack pointer and nonvolatile registers.',
  ['programs', 'schedules'], 'every executed instruction of random programs, interrupted at each one',
  'Asynchronous exceptions hit at any instruction; tests unwind at one or two call sites.',
  ['emit_x64.c', 'coff_writer.c'], [('unwind codes', 'src/emit_x64.c prolog emission, src/coff_writer.c .xdata/.pdata')], ['machine state at each single-stepped instruction'])
p('C17', 'Structured exception handling runs the right filters and handlers',
  'In programs using __try/__except (nested, in loops, switches, handlers and called functions, in images and in linked objects), for every exception raised at any depth the filters are evaluated innermost first and once each, the first one to return a positive value selects its handler, which runs with the locals of its frame intact and the right exception code, a filter which returns a negative value resumes execution, leaving a guarded region by any jump ends its protection, and functions which are left by the exception have their nonvolatile registers restored.',
  ['programs', 'histories'], 'random nestings of try regions, raising points and filter results; __finally and __leave are not part of it (see the known findings)',
  'Scope tables depend on the nesting and code layout of the whole function.',
  ['parse.c', 'emit_x64.c', 'coff_writer.c', 'obj_writer.c'], [('scope tables', 'src/parse.c __try parsing, src/coff_writer.c .xdata')], ['event trace of raises, filters, handlers and the results of functions'])
p('C18', 'Debug information describes the program that was produced',
  'The PDB next to an image and the CodeView sections of an object are well-formed (stream directory, hash tables, type records referencing only existing types), the PDB matches the image (GUID/age), and the address ranges of functions, the file and line of every call, the name, type, scope and location of parameters, locals and (not thread-local) globals, the sizes, members and bit-fields of structures and the values of enumeration constants agree with the generated code.',
  ['programs', 'configurations'], 'random programs with generated types and locals, debug info on',
  'No test reads back debug information; errors only appear in a debugger.',
  ['coff_writer.c', 'obj_writer.c', 'main.c'], [('PDB streams', 'src/coff_writer.c'), ('CodeView records', 'src/obj_writer.c')], ['a strict PDB reader; addresses, call sites and values reported by the running program'])
p('C19', 'Unreachable code and data never affect the program, reachable ones are kept',
  'Functions and data that are not reachable from the entry point, exports, or referenced declarations may be omitted but their presence never changes behaviour or link success; everything that is reachable (through calls, addresses in initializers, exports, inline asm, __declspec(selectany), comment(linker) options) is present in the output.',
  ['programs'], 'random reference graphs over functions, data and initializers',
  'Reachability errors need particular chains of references through particular kinds of initializer.',
  ['main.c', 'parse.c', 'coff_writer.c'], [('referenced declaration tracking', 'src/main.c, src/parse.c IR_identifier references')], ['link success with undefined externals in dead code, behaviour of reachable chains'])
p('C20', 'Imports and exports bind by name to the right symbol',
  'Functions and data imported via import libraries, #pragma comment(lib), dllimport or .lib arguments reach the right DLL entry, __declspec(dllexport) symbols are exported exactly once under their names with working addresses (binary-search order), and DLLs and executables produced by hlc interoperate with those produced by other tools.',
  ['programs', 'configurations'], 'random sets of exported/imported functions and data, names and library orders, long/short import formats',
  'Name-table ordering and library lookup depend on the whole set of names.',
  ['coff_writer.c', 'ar.c', 'main.c'], [('import tables', 'src/coff_writer.c'), ('archive lookup', 'src/ar.c')], ['export/import tables and values returned through imports'])
p('C21', 'Thread-local variables are separate per thread and correctly initialized',
  'Every _Thread_local/__declspec(thread) object has, in every thread and in every image (main program, DLL, linked object), its own copy that starts with its initializer, is aligned as declared, and is never affected by other threads; addresses and accesses agree.',
  ['programs', 'schedules'], 'random sets of TLS variables and initializers x threads x access paths',
  'Needs several threads and several TLS objects with distinct sizes and alignments.',
  ['emit_x64.c', 'coff_writer.c', 'obj_writer.c'], [('TLS directory and template', 'src/coff_writer.c'), ('TLS access sequence', 'src/emit_x64.c')], ['values of TLS variables per thread'])
p('C22', 'Inline assembly and intrinsics assemble to the instruction written',
  'Every instruction the inline assembler accepts, with every legal operand form (registers of all widths, memory with base/index/scale/displacement, locals, globals, immediates), is encoded as exactly that operation with exactly those operands, and every provided intrinsic computes the documented result; surrounding C values survive.',
  ['programs', 'inputs'], 'every mnemonic x operand form x register, compared with a reference assembler',
  'Hundreds of instruction forms x REX/VEX/disp8/disp32/rip encodings.',
  ['parse_asm_block.c', 'emit_inline_asm_block.c', 'implicit/intrin.h'], [('asm parser', 'src/parse_asm_block.c'), ('encoders', 'src/emit_inline_asm_block.c')], ['emitted machine code disassembled / executed'])
p('C23', 'Printlike formatting prints exactly the given values',
  'Functions declared with the printlike mechanism (hlc/print.h print) output, for every argument type (integers of any width, floats, strings, pointers, structs, enums, arrays), format spelling and argument count, exactly the values passed in the documented format. The C format strings of their calls are checked: an argument whose type does not fit its conversion gets a warning, a wrong number of arguments an error, and fitting arguments get neither.',
  ['programs', 'inputs'], 'random argument lists, formats and values',
  'Type serialization is recursive over the argument type.',
  ['parse.c', 'emit_x64.c', 'implicit/hlc/print.h'], [('printlike argument descriptors', 'src/parse.c printlike'), ('formatter', 'implicit/hlc/print.h')], ['text printed by the program'])
p('C24', 'Atomic operations are indivisible and return the right value',
  '_Atomic loads, stores, compound assignments and increments and the Interlocked/atomic intrinsics are single indivisible sequentially consistent operations: under any interleaving of threads no update is lost, and each operation returns the value C11 prescribes.',
  ['schedules', 'programs'], 'all atomic operators x widths x concurrent threads',
  'Lost updates need real concurrency at the right instant.',
  ['parse.c', 'emit_x64.c', 'implicit/intrin.h', 'implicit/stdatomic.h'], [('lock-prefixed emission', 'src/emit_x64.c IR_*_atomic_*')], ['histories of concurrent operations and their totals'])
p('C25', 'Constraint violations are diagnosed at their location; valid programs are not',
  'A program that violates a C11 constraint or syntax rule in reachable code (qualifiers aside: hlc documents that it ignores const) is rejected with a first error naming the file and line of the violation (redeclared locals and macros, alignment of functions and #line: diagnosed by a warning at that line), and every strictly conforming program using the supported language is accepted; warnings never change the outcome.',
  ['programs'], 'random valid programs (accept) and single-fault mutants of known kind and location (reject)',
  'Acceptance/rejection is a decision over all programs.',
  ['parse.c', 'preprocess.c', 'diagnostic.c'], [('checks and error reporting', 'src/parse.c report_error'), ('warning control', 'src/diagnostic.c, src/cli.c')], ['exit status and position of the diagnostics'])
p('C26', 'Command line options have exactly their documented effect',
  'Each documented option (in / or - form, any order, joined or separate argument) has its documented effect and no other: output name and kind, /D and /I, /EP /P /syntax_check, entry point, subsystem, image base, no_* switches, warning selection, response to unknown options and missing arguments.',
  ['configurations'], 'random option combinations over small projects',
  'The effect must hold in combination with every other option.',
  ['cli.c', 'main.c'], [('option table', 'src/cli.c')], ['outputs, PE header fields, diagnostics'])
p('C27', 'hlc compiles itself to a compiler with identical behaviour',
  'The compiler compiled by itself behaves on every input exactly like the compiler compiled by another compiler, and compiling itself again reproduces the same program.',
  ['programs'], 'all sources, test programs and generated programs, over two generations',
  'A self-miscompilation shows only where the miscompiled path is exercised.',
  ['main.c', 'emit_x64.c', 'parse.c'], [('whole compiler', 'src/main.c')], ['outputs of the generations compared byte for byte'])
p('C28', 'Program startup passes arguments and exit codes faithfully',
  'A program built by hlc with the default startup receives argc/argv (or wide/WinMain variants) exactly as the Windows command line rules split them, runs main once after initialized data is in place, and its exit status is the value returned by main or passed to exit.',
  ['inputs', 'configurations'], 'random command lines (quotes, backslashes, spaces, empty) x entry variants x exit codes',
  'Command-line splitting has quoting corner cases.',
  ['implicit/pre_main.c', 'main.c'], [('startup selection', 'src/main.c entry point selection'), ('startup code', 'implicit/pre_main*.c')], ['argv printed by the program and its exit status'])

p('C29', 'The supplied runtime library and headers behave as C11 specifies',
  'The memory and string functions, setjmp/longjmp and the constants and types of the headers which the compiler supplies (runtime.c, setjmp.c, limits.h, stdint.h, stdbool.h, iso646.h) give exactly the results C11 prescribes, never look behind the end of a string or range, and longjmp resumes the right activation with its volatile locals and value. Each helper header under hlc/ compiles alone; its string functions cut exactly the piece their name says off a counted string without reading behind its end, a memory arena hands out aligned, zeroed, non-overlapping memory that keeps its contents, and load_file returns exactly the bytes of the file or a null string.',
  ['inputs', 'histories'], 'random contents, needles, ranges and overlaps; random scripts of nested setjmp and longjmp; every constant and type of the headers',
  'Wrong results depend on what lies behind a terminator, on bytes above 127, on partial matches and on which activation is left; the tests call these functions with ordinary strings.',
  ['implicit/include/runtime.c', 'implicit/include/setjmp.c', 'implicit/include/stdint.h', 'implicit/include/limits.h', 'implicit/include/hlc/string.c', 'implicit/include/hlc/memory_arena.c', 'implicit/include/hlc/simple_file.c'],
  [('functions', 'implicit/include/runtime.c'), ('jumps', 'implicit/include/setjmp.c')], ['logs of running programs'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x) + '\n' for x in P))
try:
    import jsonschema; s = json.load(open('/root/.vp/PROPERTIES.schema.json')); [jsonschema.validate(x, s) for x in P]; print('valid', len(P))
except ImportError: print('written', len(P))
