#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

T = "lib/tinycc/"
prop("C01", "Executed C programs mean what the C standard says",
 "Running any C program whose behaviour the language fully defines produces exactly the output and exit status the standard (C99 with the C11 and GNU features the compiler documents, and the LP64 x86-64 Linux ABI) prescribes. This covers integer arithmetic and conversions at every width and signedness, evaluation in every context (conditions, compound assignment, increments, switch, conditional and logical operators), pointers, arrays, strings, structures and unions, loops, goto, recursion, function pointers, variable-length arrays and statement expressions. A constant expression has the same value as the same expression evaluated at run time.",
 ["programs", "inputs"], "all well-defined C programs over the integer, pointer, aggregate and control-flow language, and all operand values",
 "The bundled compiler tests are about 130 fixed programs with fixed constants; the property quantifies over all programs and operand values, and almost every combination of operator, operand width, storage kind, register pressure and constant/variable mix is never sampled.",
 [T+"tccgen.c", T+"x86_64-gen.c", T+"tccrun.c", "src/cjit.c"],
 [("expression typing, constant folding, value stack", T+"tccgen.c: gen_op, gen_opic, gen_cast, vpush*/vswap, expr_*"), ("x86-64 instruction selection", T+"x86_64-gen.c: gen_opi, load, store, gjmp/gsym"), ("in-memory relocation and entry", T+"tccrun.c: tcc_relocate_ex; src/cjit.c: cjit_exec")],
 ["stdout and exit status of the executed program"])

prop("C02", "Floating-point arithmetic and numeric conversions are exact",
 "Every float, double and long double literal, arithmetic operation, comparison and conversion (between floating types, and between every integer and floating type in range) yields the correctly rounded IEEE/x87 result that the platform's reference compiler yields. NaN, infinities, signed zeros and subnormals behave as IEEE 754 requires in comparisons and conditions. A compile-time folded floating expression equals the same expression evaluated at run time.",
 ["inputs", "programs"], "all operand values and all floating expressions and conversions, folded or evaluated at run time",
 "Tests print a handful of floating results rounded to a few digits; boundary operands (2^63, 2^64-1, subnormals, NaN, -0.0, halfway decimal literals) and most type pairs are not sampled and rounded printing hides last-bit errors.",
 [T+"tccgen.c", T+"tccpp.c", T+"x86_64-gen.c", T+"lib/libtcc1.c"],
 [("literal parsing", T+"tccpp.c: parse_number"), ("floating folding and casts", T+"tccgen.c: gen_opif, gen_cast"), ("SSE/x87 code generation", T+"x86_64-gen.c: gen_opf, gen_cvt_*"), ("runtime conversion helpers", T+"lib/libtcc1.c")],
 ["bit patterns printed by the executed program"])

prop("C03", "Struct, union, bit-field layout and initialisers match the platform ABI",
 "For every type a program can declare, size, alignment, member offsets and the storage bits occupied by each bit-field are those of the platform ABI as implemented by the system C compiler, including packed and aligned types, unions, nested and anonymous members and zero-width bit-fields. Every initialiser (positional, designated, nested, string, partial, static or automatic, compound literal) produces the member values the standard prescribes with all unnamed members zero. Reading or writing a bit-field never disturbs a neighbouring member and yields the value reduced to its width.",
 ["programs", "inputs"], "all aggregate type declarations, initialisers, and sequences of member reads and writes",
 "Tests cover a few hand-written structs; layout is a function of the whole member sequence, and interaction of bit-field widths, base types, packing and initialiser designators is combinatorial.",
 [T+"tccgen.c"], [("layout", T+"tccgen.c: struct_layout"), ("initialiser allocation", T+"tccgen.c: decl_initializer, decl_designator, init_putv"), ("bit-field access", T+"tccgen.c: load_packed_bf/store_packed_bf, gv, vstore")],
 ["bytes of objects dumped by the executed program"])

prop("C04", "Calls between cjit-compiled and natively compiled code agree",
 "For every function signature (integers of all widths, pointers, float, double, long double, structs and unions by value of any size, variadic arguments), arguments and return values pass unchanged between code compiled by cjit and code compiled by the system C compiler, in both directions, including calls through function pointers and callbacks from system libraries. The callee-saved machine state is preserved and the stack is correctly aligned at every call.",
 ["programs", "inputs"], "all function signatures and argument values, both call directions, direct and indirect calls",
 "The ABI test checks some twenty fixed signatures; the calling convention classifies each argument list as a whole, so register exhaustion, mixed-class structs, variadic float counts and stack alignment need many signatures.",
 [T+"x86_64-gen.c", T+"tccgen.c", T+"lib/va_list.c", T+"include/stdarg.h", T+"include/tccdefs.h"],
 [("argument classification", T+"x86_64-gen.c: classify_x86_64_arg, gfunc_call, gfunc_prolog"), ("va_list", T+"lib/va_list.c: __va_arg")],
 ["values seen by caller and callee on either side, byte-wise"])

prop("C05", "Preprocessing follows the C standard",
 "Macro expansion (object-like, function-like, variadic, recursive, stringizing and pasting, empty and nested arguments), conditional inclusion with arbitrary #if arithmetic, #include resolution order, line control, push/pop, and predefined line and file information produce the token sequence the C standard requires. Definitions given by the command line or the environment act like a #define before the first line of every source file.",
 ["programs", "inputs", "configurations"], "all macro definition sets, invocations, conditional expressions and include trees",
 "Twenty-two fixed preprocessor files cannot sample the interaction of nested expansion, argument pre-expansion, pasting and re-scanning, nor #if arithmetic on boundary values.",
 [T+"tccpp.c", T+"libtcc.c", "src/main.c", "src/cjit.c"],
 [("macro expansion", T+"tccpp.c: macro_subst, macro_arg_subst, macro_twosharps"), ("directives", T+"tccpp.c: preprocess, expr_preprocess"), ("include paths", T+"libtcc.c: tcc_add_include_path; src/cjit.c: cjit_add_include_path, cjit_add_source"), ("command-line defines", "src/main.c: parse_value; src/cjit.c: cjit_define_symbol")],
 ["expanded text observed by the running program, and which include file was used"])

prop("C06", "A rejected source never runs and never yields an artefact",
 "If any source given to cjit is unreadable, in an unsupported encoding, or contains a compile or link error (syntax error, undeclared identifier, type or constraint error, #error, missing header, undefined or duplicate symbol, missing entry point), cjit runs no part of the program, exits with a non-zero status and prints a diagnostic; this holds whichever file, position or mode (run, -c, -o) is involved. A compile diagnostic names the file and the line of the offending construct, also when it lies in an included file.",
 ["programs", "inputs", "configurations"], "all erroneous programs, error positions, file orders and output modes",
 "Existing tests feed one erroneous file at a time to the bundled compiler with -run; they never combine a failing file with good ones, never check -c or -o exit status and artefacts, and never check that nothing ran.",
 ["src/main.c", "src/cjit.c", T+"libtcc.c", T+"tccgen.c", T+"tccpp.c", T+"tccelf.c"],
 [("failure propagation", "src/main.c: main; src/cjit.c: cjit_add_file, cjit_add_source, cjit_compile_file, cjit_link, cjit_exec"), ("encoding check", "src/cjit.c: detect_bom"), ("error reporting", T+"libtcc.c: error1, tcc_compile")],
 ["program output, exit status, output files, diagnostics"])

prop("C07", "Every way of building and running a program behaves the same",
 "The same sources produce the same output and exit status whether they are run in memory, piped through standard input, compiled to objects and run or linked later, placed in an ar archive, built into an executable with -o, built as a shared library and loaded, linked by the system linker, or given in any order on the command line. Executables and objects written by cjit are well-formed for the system's tools and loader.",
 ["programs", "configurations"], "all multi-file programs and all combinations of build and run modes",
 "Tests exercise each mode once on a hello-world program, so relocation kinds, data alignment, common symbols, GOT/PLT use and initialised pointers across modes are not compared.",
 ["src/main.c", "src/cjit.c", T+"tccelf.c", T+"tccrun.c", T+"x86_64-link.c", "src/cjit-ar.c"],
 [("ELF output", T+"tccelf.c: elf_output_file, elf_output_obj"), ("in-memory link", T+"tccrun.c: tcc_relocate_ex"), ("relocations", T+"x86_64-link.c: relocate"), ("object loading", T+"tccelf.c: tcc_load_object_file, tcc_load_archive")],
 ["stdout and exit status per mode", "readelf/ld diagnostics on artefacts"])

prop("C08", "Symbols resolve across modules as C linkage rules require",
 "For any set of modules, every reference binds to the definition C linkage and the ELF rules select: internal-linkage names stay private to their file, tentative definitions merge, weak definitions yield to strong ones, inline and extern inline follow their rules, an archive member is pulled in exactly when it resolves an undefined reference, and program definitions take precedence over library ones. Duplicate strong definitions and unresolved strong references are reported as errors.",
 ["programs", "configurations"], "all sets of modules, binding/linkage combinations and link orders",
 "Only one three-file program is linked by the cjit tests; binding depends on the combination of symbol kinds and on file order.",
 [T+"tccelf.c", T+"tccgen.c", T+"tccrun.c", "src/cjit.c"],
 [("symbol merge", T+"tccelf.c: set_elf_sym, put_elf_sym, resolve_common_syms, relocate_syms"), ("archive member selection", T+"tccelf.c: tcc_load_alacarte"), ("static/inline emission", T+"tccgen.c: gen_inline_functions, put_extern_sym")],
 ["which definition each module's code observes at run time; exit status of erroneous links"])

prop("C09", "The executed program gets its arguments, streams and exit status intact",
 "All command-line words after the double dash reach the executed program unchanged, in order and in full number, with the (last) source path as argv[0]; standard input, output, error, environment, working directory and open descriptors are the program's own. cjit's exit status is the program's exit status (low 8 bits), or the signal number when it is killed; the function selected with -e is the one that runs; and the file given with -p holds the process id of the executing program.",
 ["inputs", "configurations"], "all argument vectors (also words that look like compiler options), exit values, signals, stream contents and source file counts",
 "One test passes three plain words to a single file; words resembling options, several source files, stdin sources, large streams, signals and exit values other than 0/1 are not tried.",
 ["src/main.c", "src/cjit.c", "src/ketopt.h"],
 [("argument split and option stripping", "src/main.c: main, remove_args; src/ketopt.h"), ("fork, wait, status mapping, pid file", "src/cjit.c: cjit_exec")],
 ["argv/env/stdin echoed by the program, wait status of cjit, pid file contents"])

prop("C10", "Libraries are found by search order, through links and linker scripts",
 "A library named with -l resolves to the matching shared object in the first directory that has it, searching -L directories in order, then the working directory, then the system loader's configured directories. The file may be a regular file, a relative or absolute symbolic link, or a textual GNU linker script, in which case every library the script names in GROUP, INPUT or AS_NEEDED is made available and comments, commas and -l entries are honoured. A missing library is reported by name and does not otherwise alter the run.",
 ["inputs", "configurations"], "all directory contents, search-path orders, link chains and linker-script texts",
 "Tests use the three libraries installed on the machine; link target length, absolute links, several entries per script, nested groups and search-order conflicts are not tried.",
 ["src/elflinker.c", "src/cjit.c", "src/file.c", "src/array.c"],
 [("search", "src/elflinker.c: resolve_libs, find_library"), ("links", "src/elflinker.c: new_solve_symlink"), ("scripts", "src/elflinker.c: resolve_ldscript, ld_next, ld_add_file_list, ld_add_file"), ("ld.so.conf", "src/elflinker.c: read_ldsoconf, read_ldsoconf_dir")],
 ["value returned by the resolved library's function; -v library listing"])

prop("C11", "The whole source text is compiled, whatever its size or shape",
 "Every byte of a source file or of standard input takes part in the compilation: result and reported line numbers do not depend on total size, line length, line ending style, a missing final newline, line splices, buffer boundaries, or whether the text arrives by file or by pipe. Line and file information seen by the program equals the physical position in the source. Comments, string and character literals and identifiers of any length are taken literally.",
 ["inputs"], "all source texts, sizes, line shapes and delivery channels (file, pipe with arbitrary chunking)",
 "Tests use small well-formed files; the reader works in fixed-size blocks and the stdin reader grows a buffer line by line, so only particular sizes and alignments reach the boundary code.",
 ["src/file.c", "src/cjit.c", T+"tccpp.c", T+"libtcc.c"],
 [("stdin reader", "src/file.c: load_stdin"), ("file reader and #line prefix", "src/cjit.c: cjit_add_source"), ("block buffering, splices, comments, strings", T+"tccpp.c: handle_eob, handle_stray, parse_comment, parse_pp_string")],
 ["__LINE__/__FILE__ and text values printed by the program; equality between channels"])

prop("C12", "Runtime assets are complete at every start, also concurrent or interrupted",
 "Whenever a cjit process starts compiling, its runtime directory holds every embedded header and support library with exactly the embedded contents. This holds when several processes start at once with no directory present, and when an earlier process was killed or failed at any point while creating it; a complete directory is reused, and an asset path is printed and populated on request.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "all interleavings of concurrent first starts, all kill points during extraction, and all write failures",
 "Tests run one cjit at a time and delete the directory between tests, so neither a second process observing a half-filled directory nor a directory left by a killed process is ever seen.",
 ["src/cjit.c", "src/muntar.c", "build/embed-asset-path.sh", "build/init-assets.sh"],
 [("directory creation and freshness test", "src/cjit.c: cjit_mkdtemp"), ("extraction", "src/muntar.c: muntargz_to_path, muntar_to_path; generated src/assets.c: extract_assets")],
 ["exit status and output of every started process; directory listing and file hashes"],
 state=[("fresh", "directory must be populated", "src/cjit.h: CJITState")])

prop("C13", "gzip decoding is exact on valid data and safe on any data",
 "Every valid gzip member (any block types, header flags, window distances and match lengths) that fits the given output buffer decodes to exactly the original bytes, and is reported as too large when it does not fit. Any other byte sequence is reported as an error. The decoder never reads outside the input nor writes outside the output buffer.",
 ["inputs"], "all byte sequences as input and all output buffer sizes",
 "One archive produced by one compressor at one level is decoded; block types, code-length patterns, header flags, corrupt and truncated streams are not sampled.",
 ["src/tinfgzip.c", "src/tinflate.c", "src/tinf.h"],
 [("header/trailer", "src/tinfgzip.c: tinf_gzip_uncompress"), ("inflate", "src/tinflate.c: tinf_uncompress")],
 ["return code, output bytes and length; sanitizer reports"])

prop("C14", "Archive extraction is faithful, contained and reports failure",
 "Extracting a USTAR archive (plain or gzip-compressed) recreates under the destination every directory and regular file with its full name and exact contents, in any order and at any size the format allows. Nothing is created or modified outside the destination. A malformed, truncated or unwritable archive ends in an error status and never in an invalid memory access.",
 ["inputs", "fault_sequences"], "all archive contents (names, prefixes, sizes, types, order), all corruptions, all write failures",
 "One archive of the examples directory is extracted and one file compared; name/prefix splits, sizes around block limits, hostile names, truncation and compression ratio are not sampled.",
 ["src/muntar.c", "src/muntar.h", "src/main.c", "src/tinfgzip.c"],
 [("header decode", "src/muntar.c: raw_to_header, decodeTarOctal, checksum"), ("iteration", "src/muntar.c: mtar_next, mtar_read_header"), ("extraction", "src/muntar.c: muntar_to_path, muntargz_to_path"), ("CLI", "src/main.c: --xtgz")],
 ["files under and around the destination, exit status, sanitizer reports"])

prop("C15", "ar mode creates, lists and extracts archives without loss",
 "An archive created from any list of object files contains every member once, in order, with its exact bytes, plus an index mapping every global defined symbol to its member, so that both cjit and the system tools can list, extract and link it. Listing and extraction work on archives made by the system ar as well. Input that is not an archive or not an object is refused with an error status and leaves no partial archive.",
 ["inputs", "histories"], "all member lists (counts, sizes, names, symbol counts) and archive files",
 "No cjit test covers ar mode at all; the build only archives one fixed list of seven objects.",
 ["src/cjit-ar.c", T+"tcctools.c", T+"tccelf.c"],
 [("creation, index", "src/cjit-ar.c: tcc_tool_ar"), ("archive loading", T+"tccelf.c: tcc_load_archive, tcc_load_alacarte")],
 ["member lists and bytes per system ar, symbol index per nm -s, link-and-run result"])

prop("C16", "cjit itself never misuses memory, whatever it is given",
 "For any command line, environment, source text (valid or erroneous), object or library path, the cjit process performs no out-of-bounds, use-after-free or uninitialised access and no undefined operation in its own code, and it is never killed by a signal before the program starts. Messages of any length are printed completely or truncated, never corrupting the process.",
 ["inputs", "configurations"], "all option values and lengths, paths, environment contents, and source texts",
 "Tests run an uninstrumented binary on short, well-formed inputs, where stray reads and writes go unnoticed.",
 ["src/main.c", "src/cjit.c", "src/file.c", "src/elflinker.c", T+"tccpp.c", T+"tccgen.c", T+"libtcc.c"],
 [("message formatting", "src/cjit.c: _err, _out"), ("argument handling", "src/main.c: parse_value, remove_args"), ("stdin buffer", "src/file.c: load_stdin"), ("paths", "src/file.c: new_abspath")],
 ["AddressSanitizer/UBSan/valgrind reports and termination signals of the cjit process"],
 hook="CJIT_VERIF disables the compiler's arena allocators so that AddressSanitizer sees each allocation")

prop("C17", "Independent compiler states work concurrently from several threads",
 "When several threads each create, use and delete their own compiler state, every thread's compilation, diagnostics and executed results are the same as if it had run alone. No data race occurs on shared state, whatever the interleaving.",
 ["schedules", "histories"], "all interleavings of compile, link, run, error and delete operations in independent states",
 "The multi-threaded test runs one Fibonacci program per thread with no race detection; errors, includes, options and deletions interleaved with other threads' compilations are not tried.",
 [T+"libtcc.c", T+"tccpp.c", T+"tccgen.c", T+"tccrun.c", T+"tccelf.c"],
 [("global compile lock", T+"libtcc.c: tcc_enter_state, tcc_exit_state"), ("runtime state list", T+"tccrun.c: st_link, st_unlink")],
 ["per-thread results and diagnostics; ThreadSanitizer reports"],
 state=[("tcc_state", "the state owning the compiler globals", T+"libtcc.c")])

prop("C18", "A compiler state leaves nothing behind for the next one",
 "In one process, any sequence of creating a state, configuring, compiling valid or invalid source, linking, running, writing output and deleting it yields, for each state, the same results as in a fresh process: definitions, options, diagnostics and errors never carry over. Deleting a state releases everything it allocated.",
 ["histories"], "all sequences of library API operations over successive and nested-lifetime states",
 "Each test process uses one state once (or repeats one program), so state carried over from failed or differently configured compilations is never observed.",
 [T+"libtcc.c", T+"tccpp.c", T+"tccgen.c", T+"tccelf.c", T+"tccrun.c", "src/cjit.c"],
 [("per-compile init/teardown", T+"libtcc.c: tcc_compile; "+T+"tccgen.c: tccgen_init/finish; "+T+"tccpp.c: preprocess_start/end, tccpp_new/delete"), ("release", T+"libtcc.c: tcc_delete; "+T+"tccelf.c: tccelf_delete; "+T+"tccrun.c: tcc_run_free")],
 ["results and diagnostics per state against a fresh-process run; live allocation count after delete; sanitizer reports"])

prop("C19", "Atomic operations are atomic across threads",
 "Every C11 atomic operation and GCC-style atomic builtin, at 1, 2, 4 and 8 bytes, behaves as one indivisible step with the value semantics of the standard: concurrent histories of loads, stores, exchanges, compare-exchanges and fetch-and-modify operations are linearizable, no update is lost, and the returned old/new value and the updated expected value are correct. Flags and locks built on them give mutual exclusion.",
 ["schedules", "histories", "inputs"], "all interleavings of atomic operations by several threads, all operand values and widths",
 "Two tests use a counter and single-threaded value checks; other operations, widths and failing compare-exchanges under contention are not tried.",
 [T+"lib/stdatomic.c", T+"lib/atomic.S", T+"include/stdatomic.h", T+"tccgen.c"],
 [("builtins", T+"tccgen.c: parse_atomic"), ("library routines", T+"lib/stdatomic.c, "+T+"lib/atomic.S")],
 ["recorded per-operation results checked against a sequential model"])

prop("C20", "Bounds-checked execution catches overflows and never cries wolf",
 "In a bounds-checked build (-b) a program without memory errors behaves exactly as in a normal build. A program that accesses memory outside a live local, static, heap or string object, directly or through the checked library functions, or uses a freed block, is stopped at that access and the error names the source line. (Compound literals, blocks moved by realloc and members of one object are not told apart.)",
 ["programs", "inputs"], "all access patterns, object kinds, offsets and checked library calls, with and without an error",
 "The test suite has some twenty fixed faulty snippets and a few clean programs; offsets, element sizes, object kinds, pointer arithmetic shapes and heap histories vary without bound.",
 [T+"lib/bcheck.c", T+"tccgen.c", T+"x86_64-gen.c", T+"tccrun.c"],
 [("region tree and checks", T+"lib/bcheck.c: __bound_ptr_add, __bound_ptr_indir*, splay*"), ("instrumentation", T+"tccgen.c: gen_bounded_ptr_add/deref; "+T+"x86_64-gen.c: gen_bounds_prolog/epilog")],
 ["exit status, reported line, output before the faulting access"])

prop("C21", "Runtime error reports and debug information point at the true source line",
 "When a program built with backtrace or debug support faults, the report lists the faulting function, file and line and every caller up to main with the line of its call, in order, whatever the nesting, macro use, includes or modules. The debug line information written to executables and objects maps every function and statement to its own file and line.",
 ["programs"], "all call structures, fault kinds, source layouts and multi-file programs",
 "Three fixed backtrace programs are compared; line tables depend on instruction sizes, gaps, includes and file changes that they do not vary.",
 [T+"tccdbg.c", T+"tccrun.c", T+"lib/bt-exe.c", T+"lib/bt-log.c", T+"tccgen.c"],
 [("line program emission", T+"tccdbg.c: tcc_debug_line, dwarf_line_op"), ("decoding and backtrace", T+"tccrun.c: rt_printline, rt_printline_dwarf, rt_error")],
 ["backtrace lines on stderr; addr2line/gdb answers on produced files"])

prop("C22", "Assembly is encoded as the platform assembler encodes it",
 "Any supported instruction, directive or expression in an inline asm statement or assembly file is encoded to machine code that disassembles to the same operation as the system assembler's encoding. Inline asm operands, constraints, clobbers, modifiers and goto labels bind to the C values and locations the program names.",
 ["programs", "inputs"], "all supported instruction/operand combinations, directives, expressions, and operand constraint lists",
 "The assembler comparison test is not part of the reliable suite, and the others use a few dozen instructions.",
 [T+"tccasm.c", T+"i386-asm.c", T+"i386-asm.h", T+"x86_64-asm.h"],
 [("operand parse/opcode match", T+"i386-asm.c: parse_operand, asm_opcode, asm_modrm"), ("constraints", T+"i386-asm.c: asm_compute_constraints, subst_asm_operand, asm_gen_code"), ("directives", T+"tccasm.c: asm_parse_directive, asm_expr")],
 ["section bytes/disassembly of both objects; values computed by inline asm"])

prop("C23", "Path operations obey the file-system meaning of paths",
 "Normalising, joining, making absolute or relative, splitting (root, dirname, basename, extension, segments) and comparing paths denotes the same file-system location and components as the documented rules define, for any path text. The result never exceeds the given buffer, is always terminated, and the returned length is that of the complete result; in-place use is allowed where documented.",
 ["inputs"], "all path strings, buffer sizes and aliasing of input and output",
 "No existing test calls these functions directly; they are reached only with ordinary paths.",
 ["src/cwalk.c", "src/cwalk.h", "src/file.c"],
 [("segment iteration and output", "src/cwalk.c: cwk_path_output_*, cwk_path_get_next_segment_*, cwk_path_segment_will_be_removed"), ("absolute include paths", "src/file.c: new_abspath")],
 ["returned strings and lengths; bytes around the buffer; sanitizer reports"])

prop("C24", "The list container behaves as a sequence under any operation history",
 "For any history of adding, inserting, setting, swapping, removing, sorting, searching and clearing, the list holds exactly the elements a simple sequence model holds, in the same order with the same data, size and key. It owns copies of the added data, grows and shrinks without losing or exposing elements, and performs no invalid memory access or leak.",
 ["histories"], "all operation histories, element sizes and capacities",
 "No existing test exercises the container beyond appending a dozen strings.",
 ["src/array.c", "src/array.h"],
 [("growth", "src/array.c: XArray_Realloc, XArray_CheckSpace"), ("operations", "src/array.c: XArray_*")],
 ["element values after each operation; sanitizer reports"])

prop("C25", "Compiler-style options are honoured and tolerated flags change nothing",
 "Options may be given in any order relative to the files and joined to or separated from their value. -D, -I, -L, -l, -e, -o, -c, -C and the CFLAGS environment variable take effect exactly once as documented; include directories are searched in the order given, before system ones. Optimisation, warning and debug flags that cjit documents as tolerated (-O*, -W*, -f*, -g*, -M*, -s, -shared, -pedantic) never change which files are compiled, the output, or the exit status.",
 ["configurations", "inputs"], "all permutations and spellings of the option set around the file list",
 "Tests use one option order each; permutation of options and files, repeated and joined options, and tolerated flags are not tried.",
 ["src/main.c", "src/ketopt.h", "src/cjit.c"],
 [("option scanner", "src/ketopt.h: ketopt, ketopt_permute"), ("flag stripping", "src/main.c: remove_args"), ("option effects", "src/cjit.c: cjit_define_symbol, cjit_add_include_path, cjit_set_tcc_options, cjit_setup")],
 ["output and exit status per permutation against a canonical order"])

prop("C26", "Reported line coverage equals the executed line counts",
 "When a program is built with coverage, the report lists for every executable source line exactly the number of times it was executed, per file and function, and lines never reached as unexecuted. Counts accumulate over successive runs.",
 ["programs", "histories"], "all control-flow structures, iteration counts and run sequences",
 "No reliable test checks the content of a coverage report.",
 [T+"lib/tcov.c", T+"tccdbg.c", T+"tccgen.c"],
 [("counter placement", T+"tccdbg.c: tcc_tcov_block_begin/end, tcc_tcov_check_line"), ("report merge and writing", T+"lib/tcov.c")],
 ["the .tcov report against counts logged by the program itself"])

prop("C27", "Foreign targets generate equivalent programs",
 "Programs compiled for Windows, macOS, 32-bit x86, ARM, AArch64, RISC-V and C67 behave as the same program compiled for x86-64 Linux, up to documented ABI differences.",
 ["programs", "configurations"], "all programs on every supported target and host platform",
 "Only the native x86-64 Linux configuration is built and run by the tests.",
 [T+"arm-gen.c", T+"arm64-gen.c", T+"riscv64-gen.c", T+"i386-gen.c", T+"c67-gen.c", T+"tccpe.c", T+"tccmacho.c", "src/winlinker.c", "src/win-compat.c"],
 [("code generators", "lib/tinycc/*-gen.c"), ("PE/Mach-O output", T+"tccpe.c, "+T+"tccmacho.c")],
 ["program output on each target"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
