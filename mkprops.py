#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})

prop('C01', 'A launch interrupted while unpacking assets never poisons later launches',
     'Whatever cjit launch was killed, ran out of disk space or had a system call fail while it was setting up its shared runtime assets (the headers and runtime library under /tmp/cjit-VERSION), a later launch on a healthy system works exactly as on a machine where cjit had never run. '
     'In particular it compiles and runs programs with the right headers and runtime library, and the asset directory is then complete, each file byte for byte the one a clean first launch makes. '
     'The faulty launch itself either behaves exactly as a fault-free one or exits nonzero without running the program.',
     ['crash_points', 'fault_sequences', 'histories'], 'every crash point and every sequence of failing or short file operations, allocation or disk-full conditions in one or more earlier launches (runs, --xass without a path, compilations), followed by a fault-free launch',
     'The tests start from an asset directory that is absent or complete; none kills a launch part-way or fails a file operation, and there are hundreds of operations to be interrupted at.',
     ['src/cjit.c', 'src/assets.c', 'src/embed_include.c', 'src/embed_libtcc1.a.c', 'src/muntar.c', 'build/embed-asset-path.sh', 'src/file.c'],
     [('fresh directory decides whether to extract', 'src/cjit.c cjit_mkdtemp'), ('extraction of embedded archives', 'src/muntar.c muntargz_to_path'), ('extract_assets', 'src/assets.c')],
     [('asset directory', 'shared between all cjit processes, trusted once it exists', '/tmp/cjit-VERSION')], ['exit status and output of the next launch', 'tree of the asset directory'])
prop('C02', 'Concurrent first launches never see half-written assets',
     'Any number of cjit processes started at the same time on a machine without runtime assets each behave exactly as if they had run alone, whatever the interleaving. '
     'The same holds when some of them are killed part-way: the others, and every later launch, still behave correctly. '
     'When all have ended the asset directory is complete and exact.',
     ['schedules', 'crash_points'], 'every interleaving of the file operations of two to four first launches (runs, object compilations, --xass), with or without one of them being killed',
     'The tests run one process at a time, in one order.',
     ['src/cjit.c', 'src/assets.c', 'src/muntar.c', 'src/file.c'],
     [('cjit_mkdtemp / fresh', 'src/cjit.c'), ('muntar_to_path writes files in place', 'src/muntar.c')],
     [('asset directory', 'shared between processes without a lock', '/tmp/cjit-VERSION')], ['exit status and output of every process', 'tree of the asset directory'])
prop('C03', "cjit ends with the program's own result, and never before the program has ended",
     "When cjit runs a program it stays until the program has ended and then exits with exactly the program's exit status; a program killed by a signal makes it exit with that signal's number. "
     'This holds however the two are scheduled and when waiting is interrupted by a handled signal or the program is stopped and continued; if the program could not be started at all cjit exits nonzero and says so. '
     'The program runs exactly once, from the chosen entry function, with exactly the arguments after "--" and the environment (also as third argument) and standard input given to cjit, errno zero, its constructors before and its destructors and exit handlers after, and its output is passed through unchanged.',
     ['schedules', 'fault_sequences', 'inputs'], 'every schedule of cjit and program, every exit status and fatal signal, every sequence of stop/continue and interrupting signals, fork and wait failures, all argument vectors and standard inputs',
     'Tests run a few programs to completion undisturbed; stops, interrupted waits, fork failures and scheduling cannot be produced by them.',
     ['src/cjit.c', 'src/main.c'],
     [('cjit_exec fork and waitpid', 'src/cjit.c'), ('argument split at --', 'src/main.c')], [('status', 'wait status of the child', 'src/cjit.c cjit_exec')],
     ['exit status of cjit', 'event order of program end and cjit end', 'program output'])
prop('C04', 'The pid file names the running program, or the launch fails visibly',
     'With -p FILE, from some moment while the program runs (or ends) until the end, FILE holds exactly the decimal process id of the process that runs the program followed by a newline, replacing any earlier content, and the launch still yields the program\'s own exit status. '
     'If FILE cannot be created or completely written, cjit exits nonzero and says so, and it does not leave the program running behind its back.',
     ['schedules', 'fault_sequences'], 'every interleaving of cjit and program, program faster or slower than the pid file, every failing open/write/close and full disk, existing longer files',
     'The tests write one pid file on a healthy disk and never check it against the process nor fail a write.',
     ['src/cjit.c', 'src/main.c'], [('write_pid in cjit_exec', 'src/cjit.c')], [('pid file', 'path given with -p', 'CJITState.write_pid')], ['content of the file', 'exit status', 'processes alive when cjit has ended'])
prop('C05', 'A program runs only from its complete, error-free inputs',
     'A run of cjit over any list of sources, headers, objects and libraries either runs exactly the program these inputs denote, or exits nonzero without running any program. '
     'No failing open, failing or interrupted or short read, missing file or compile error in any of the inputs lets a program compiled from part of its inputs, or from another file that happens to match later in the search path, be executed.',
     ['fault_sequences', 'inputs', 'configurations'], 'every failing, short or interrupted file operation at every point of loading sources, headers, objects, archives and libraries; every position of a missing or erroneous file in the list; every include path layout',
     'Tests feed complete readable files; a failing read in the middle of a header or the second of three files being absent is not covered.',
     ['src/cjit.c', 'src/main.c', 'src/file.c', 'lib/tinycc/tccpp.c', 'lib/tinycc/libtcc.c', 'lib/tinycc/tccelf.c'],
     [('cjit_add_source / cjit_add_file', 'src/cjit.c'), ('handle_eob', 'lib/tinycc/tccpp.c'), ('full_read, load_data', 'lib/tinycc/tccelf.c'), ('tcc_add_file_internal, include search', 'lib/tinycc')],
     [('nb_errors', 'errors counted per state', 'lib/tinycc/libtcc.c')], ['program output', 'exit status', 'whether a program process was started'])
prop('C06', 'Exit status 0 of a compilation means a complete, correct output file',
     'When cjit -c or cjit -o exits 0 the requested output file exists and is, byte for byte, what a fault-free compilation of the same inputs makes, and an executable is executable. '
     'Any failing, short or interrupted operation, full disk, missing input or compile error that prevents this makes it exit nonzero. '
     'A compilation that fails because of its inputs leaves an already existing output file as it was.',
     ['fault_sequences', 'inputs', 'configurations'], 'every failing read, write, open, close, disk-full or unlink at every point of compiling and linking; erroneous and missing inputs; with and without -o, absolute and relative outputs, existing outputs',
     'Tests compile on a healthy disk and do not compare bytes.',
     ['src/cjit.c', 'src/main.c', 'lib/tinycc/tccelf.c', 'lib/tinycc/libtcc.c'],
     [('cjit_compile_file / cjit_link', 'src/cjit.c'), ('tcc_write_elf_file', 'lib/tinycc/tccelf.c')], [], ['exit status', 'bytes and mode of the output', 'bytes of a previous output'])
prop('C07', '--xtgz extracts every file exactly, or fails visibly',
     'cjit --xtgz ARCHIVE on a USTAR tar.gz exits 0 only when every regular file and directory of the archive exists below the current directory with exactly the archived contents. '
     'A damaged, truncated or unreadable archive, an entry it cannot represent, a failing or short write and a full disk all make it exit nonzero, without reading or writing outside its buffers.',
     ['inputs', 'fault_sequences'], 'all USTAR archives (names up to 255 bytes with prefix, empty files, sizes around block borders, nested directories, high compression ratios), every truncation and corruption point, every failing file operation and disk quota',
     'The tests extract one well-formed archive onto a healthy disk.',
     ['src/muntar.c', 'src/tinfgzip.c', 'src/tinflate.c', 'src/main.c', 'src/file.c'],
     [('muntar_to_path', 'src/muntar.c'), ('tinf_gzip_uncompress with CRC check', 'src/tinfgzip.c'), ('file_load', 'src/file.c')], [], ['exit status', 'tree below the current directory'])
prop('C08', 'Archives made, listed and extracted by cjit -ar are exact, or it fails visibly',
     'cjit -ar rcs makes an archive that contains each given object once, in order and byte for byte, with a symbol index naming the global definitions; -ar t lists and -ar x extracts exactly these members, and programs link against it. '
     'Any unreadable, short or malformed input, failing or short read or write and full disk makes it exit nonzero, and never leaves a partial archive that a later command accepts as a complete one.',
     ['inputs', 'fault_sequences', 'histories'], 'all lists of object files (including objects without global functions), all member sizes, every failing or short file operation at every point, histories create/list/extract/link',
     'The test suite makes one archive on a healthy disk and does not extract under faults.',
     ['src/cjit-ar.c', 'src/main.c', 'lib/tinycc/tcctools.c'], [('cjit_ar', 'src/cjit-ar.c')], [], ['exit status', 'archive bytes against a model of the ar format', 'extracted bytes'])
prop('C09', '--xass=PATH extracts a complete asset tree, or fails visibly',
     'cjit --xass and --xass=PATH exit 0 only when the chosen directory then holds the complete asset tree, each file byte for byte the same for every directory and history, and its absolute or normalised path has been printed on standard output. '
     'A path that cannot be created or is not a directory and any failing or short write make it exit nonzero; running it again after a failure on a healthy system completes the tree.',
     ['fault_sequences', 'configurations', 'histories'], 'every failing or short file operation and disk quota, existing empty, partial or complete directories, files in the way, missing parents, then a fault-free retry',
     'Tests extract once to a fresh directory.',
     ['src/main.c', 'src/assets.c', 'src/cjit.c', 'src/muntar.c'], [('extract_assets, cjit_mkdtemp', 'src/assets.c, src/cjit.c')], [], ['exit status', 'stdout', 'tree of the directory'])
prop('C10', 'Running out of memory is a clean failure',
     'Whatever allocation fails, cjit either still yields exactly its fault-free result or exits nonzero; it does not crash, hang, damage memory, run a program built from incomplete inputs, or leave an output while reporting success. '
     'This holds for running, compiling, archiving, listing, extraction and library resolution.',
     ['fault_sequences', 'configurations'], 'every allocation of every run failing once, from some point on, or under a total memory limit, over all kinds of commands',
     'Allocation never fails in tests.',
     ['src/cjit.c', 'src/array.c', 'src/file.c', 'src/elflinker.c', 'src/muntar.c', 'src/cjit-ar.c', 'src/main.c', 'lib/tinycc/libtcc.c'],
     [('default_reallocator exits on failure', 'lib/tinycc/libtcc.c'), ('malloc results checked case by case', 'src')], [], ['exit status or signal', 'outputs', 'heap canaries'])
prop('C11', 'libtcc gives back everything it took',
     'After any history of libtcc calls on a state, including failing ones (compile errors, missing files, failing reads, undefined symbols), tcc_delete returns all memory and file descriptors the state acquired. '
     'A process can therefore create and delete any number of states without growth. (Memory a compiled program allocates for itself, and source text so malformed that the compiler crashes on it, are other matters.)',
     ['histories', 'fault_sequences', 'inputs'], 'all call histories on one or several interleaved states, with errors at every stage and failing file operations',
     'Tests run one state per process and never measure what remains.',
     ['lib/tinycc/libtcc.c', 'lib/tinycc/tccpp.c', 'lib/tinycc/tccgen.c', 'lib/tinycc/tccrun.c', 'lib/tinycc/tccelf.c'],
     [('tcc_delete, tcc_cleanup, tccelf_delete, tcc_run_free', 'lib/tinycc')], [('global state', 'static compiler variables shared by all states', 'lib/tinycc/tccgen.c tccpp.c')], ['live heap blocks and bytes', 'open descriptors'])
prop('C12', 'Compiler states do not influence each other',
     'What a libtcc state yields (result codes, diagnostics, symbol values, program results, output bytes) depends only on the calls made on that state and the files it reads, not on other states made, used, failed or deleted before, after or in between in the same process. (Shared libraries that a state loads are loaded into the process, by design.)',
     ['histories'], 'all interleaved histories of up to six states with different sources, options, defines, include paths, errors and output types',
     'Tests compile in one state per process; state leaked through the many static variables of the compiler shows only in particular histories.',
     ['lib/tinycc/libtcc.c', 'lib/tinycc/tccpp.c', 'lib/tinycc/tccgen.c', 'lib/tinycc/tccelf.c', 'lib/tinycc/tccdbg.c'],
     [('tcc_enter_state / tcc_exit_state', 'lib/tinycc/libtcc.c'), ('tccpp_new, tccgen_init/finish', 'lib/tinycc')], [('static compiler variables', 'valid only between enter and exit', 'lib/tinycc')], ['results of every call compared with a process of its own'])
prop('C13', 'Threads may use different compiler states at the same time',
     'Threads that each use a libtcc state of their own, whatever the interleaving, each obtain exactly the results they would obtain alone, and all of them finish.',
     ['schedules'], 'every interleaving, down to single basic blocks of compiler code, of two to four threads that create, compile, fail, relocate, run, and delete states of their own',
     'The one threaded test of tinycc is not part of the suite run here, and samples a few schedules of the host.',
     ['lib/tinycc/libtcc.c', 'lib/tinycc/tcc.h', 'lib/tinycc/tccrun.c'], [('tcc_compile_sem wait/post', 'lib/tinycc/libtcc.c'), ('rt semaphore', 'lib/tinycc/tccrun.c')], [('tcc_state', 'current state of the compiler', 'lib/tinycc/libtcc.c')], ['per-thread results', 'deadlock or step bound'])
prop('C14', 'The same inputs always give the same outputs',
     'Object files, executables, archives, extracted assets, diagnostics and the results of run programs are a function of the command line, environment variables, working directory and input files alone. '
     'They do not depend on the time (other than through __DATE__ and __TIME__), process ids, addresses, contents of uninitialised memory, directory order, how reads and writes are split, or a terminal being absent (which only makes cjit quieter).',
     ['schedules', 'configurations', 'programs'], 'all commands and programs under differing clocks, heap contents, process ids, directory listing orders, read and write sizes and interrupting signals',
     'A test runs once, in one environment; a dependence on uninitialised memory or timing shows only when these are varied.',
     ['src', 'lib/tinycc'], [('no use of uninitialised memory or time', 'src, lib/tinycc')], [], ['all outputs of two executions that differ only in the environment'])
prop('C15', 'Libraries are found where the search order says',
     'For cjit -l NAME, -L DIR, library files of the system configuration (/etc/ld.so.conf and its include directory) and the current directory, the library linked is the first match in search order, and linker scripts and symbolic links that stand for a library are followed to the real file. '
     'The choice does not depend on the order in which the system lists directories; files that cannot be read or are no libraries are skipped or reported, never linked in part.',
     ['configurations', 'schedules', 'fault_sequences'], 'all layouts of library directories, configuration files, symbolic link chains (relative, absolute, dangling, cyclic, long) and linker scripts, all directory listing orders and entry types',
     'Tests link one or two libraries from one layout.',
     ['src/elflinker.c', 'src/cjit.c', 'src/array.c', 'src/cwalk.c'], [('resolve_libs, ld_add_file, read_ldsoconf, read_ldsoconf_dir, new_solve_symlink', 'src/elflinker.c')], [('libpaths, libs, reallibs', 'search path and results', 'CJITState')], ['library files reported by -v', 'which library the program got'])
prop('C16', 'Parallel builds give the results of serial ones',
     'cjit processes that run at the same time in one directory with different inputs or outputs (compilations, links, archives, runs) give exactly the output files, diagnostics and exit statuses that they give one after another, in every interleaving.',
     ['schedules'], 'every interleaving of the system calls of two to five cjit processes that share the working directory, asset directory and sources',
     'Tests run one command at a time.',
     ['src/cjit.c', 'src/main.c', 'src/cjit-ar.c', 'lib/tinycc/tccelf.c'], [('no shared temporary files other than assets', 'src')], [], ['bytes of all outputs', 'exit statuses', 'stdout and stderr of each'])
prop('C17', 'Source read from standard input means the same as from a file',
     'A program given on standard input (by default or as "-") compiles and runs exactly as the same text in a file, however the input arrives: in any pieces, with pauses, with interrupted reads, with or without a final newline, with lines of any length. '
     'If reading fails before the end of the input, cjit exits nonzero and runs nothing.',
     ['schedules', 'fault_sequences', 'inputs'], 'all texts and all ways of splitting, delaying, interrupting and failing the reads of standard input, from files and from pipes with a concurrent writer',
     'Tests pipe one small program.',
     ['src/file.c', 'src/main.c', 'src/cjit.c'], [('load_stdin', 'src/file.c'), ('cjit_add_buffer', 'src/cjit.c')], [], ['program output', 'exit status'])
prop('C18', 'A failed build step can simply be run again',
     'After any history of build commands (compile to objects, archive, link, extract assets) in which commands were killed or failed through full disks or failing operations, running the failed commands again on a healthy system yields exactly the artefacts of a build that never failed, and no other files remain in the working directory.',
     ['histories', 'crash_points', 'fault_sequences'], 'every build history of up to eight commands with a crash or fault at any operation of any of them, followed by fault-free repetition of the commands that did not succeed',
     'Tests never interrupt a command.',
     ['src/cjit.c', 'src/cjit-ar.c', 'src/muntar.c', 'lib/tinycc/tccelf.c'], [('outputs are rewritten from scratch', 'tccelf.c tcc_write_elf_file, cjit-ar.c')], [], ['tree of the working directory', 'exit statuses'])
prop('C19', 'A program means the same by every route from its sources to its execution',
     'A program behaves the same (output, exit status, arguments) whether its parts are given to cjit as sources, as objects made by cjit -c with any CFLAGS (other than the -b and -bt instrumentation, whose support code is not shipped), as members of an archive made by cjit -ar, or as objects or shared libraries of another compiler, in any order the linking rules allow; '
     'and whether it is run directly, from standard input, through another entry function (-e), or linked to an executable by cjit -o or by the system compiler. '
     'An object of another compiler that needs something a route does not offer (such as thread-local data when run directly) is refused there with a message, never run wrongly. '
     'This holds after any history in which the steps were killed or failed and were repeated: a step that reported success is never the one that makes the program differ.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all programs, all ways of splitting them into sources, objects, archive members and libraries, all routes to execution, and all failures of the steps on the way',
     'Tests run a handful of programs by one route each and never compare routes.',
     ['src/cjit.c', 'src/file.c', 'src/cjit-ar.c', 'lib/tinycc/tccelf.c', 'lib/tinycc/tccrun.c', 'lib/tinycc/x86_64-link.c'],
     [('relocation for memory and file output', 'lib/tinycc/tccelf.c relocate_sections, x86_64-link.c relocate'), ('cjit_exec and entry lookup', 'src/cjit.c')], [('objects and archives on disk', 'hold a part between steps', 'lib/tinycc/tccelf.c')], ['program output', 'exit status of the program and of each step'])
prop('C20', 'Compiled code has the meaning of the C source', 'For every accepted C program the generated code behaves as the C language defines, independent of how it is run or linked.',
     ['programs'], 'all C programs', 'A finite set of programs is tested.', ['lib/tinycc/tccgen.c', 'lib/tinycc/x86_64-gen.c'], [('code generator', 'lib/tinycc')])
prop('C21', 'Options and arguments are parsed as documented', 'Every documented option takes effect regardless of position, and build-system options listed as ignored are dropped with their values and nothing else.',
     ['inputs'], 'all argument vectors', 'A few command lines are tested.', ['src/main.c', 'src/ketopt.h'], [('remove_args, ketopt', 'src/main.c')])
prop('C22', 'Arbitrary source text or object bytes never crash the compiler', 'For every byte string given as source, object, archive or library the compiler ends with a diagnostic or a result, without memory errors.',
     ['inputs'], 'all byte strings', 'Tests use valid inputs.', ['lib/tinycc'], [('parser and ELF reader checks', 'lib/tinycc')])
prop('C23', 'Windows, macOS and BSD builds give the same guarantees', 'The documented behaviour holds on every supported platform.',
     ['configurations'], 'all supported platforms', 'Only one platform runs here.', ['src/win-compat.c', 'src/winlinker.c', 'build'], [('platform branches', 'src')])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
open(path, 'w').write(''.join(json.dumps(p) + '\n' for p in P))
