#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (kept as code so that the fields stay consistent).
import json, os
S="CMakePasm/source/"
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Exit status 0 means the object file is complete on disk",
 "When an assembly run exits with status 0, the object file named by -o holds exactly the bytes that the same command produces when nothing fails, whatever write, flush, short-write, full-disk or close failures happened while it was being written. A run that could not store the whole object file exits non-zero and prints a diagnostic on standard error.",
 ["fault_sequences","inputs"],"every program and command line, and every sequence of open/write/close failures (transient or persistent, at any byte) on the object file",
 "The unit tests write to a healthy disk and compare a handful of object files; none makes a write, flush or close fail.",
 [S+"pass.cc",S+"genoutput.cc"],[("per-byte fwrite checks raising an error","genoutput.cc write_byte/write_word/write_string"),("closing the object file and exit status","pass.cc assemble")],
 ["process exit status","bytes of the object file","stderr"],[("total_bytes_written","bytes handed to the object stream","genoutput.cc")])
add("C02","Exit status 0 means symbol, listing and log files are complete",
 "When a run exits with status 0, every secondary output it was asked for (symbol file -s, listing -l, log -log) holds exactly the text the same command produces when nothing fails, whatever open, write, short-write, full-disk or close failures happened on those files. A run that could not store one of them in full exits non-zero and prints a diagnostic on standard error.",
 ["fault_sequences","inputs"],"every program with any combination of -s -l -log, and every sequence of open/write/close failures on those files",
 "No test requests these files on a failing disk; most do not look at them at all.",
 [S+"pass.cc",S+"genlist.cc",S+"sym.cc"],[("open checks and closes of the secondary files","pass.cc assemble"),("listing and symbol writers","genlist.cc generate_list_file, sym.cc dump_symbols")],
 ["process exit status","symbol/listing/log file bytes","stderr"])
add("C03","An unreadable source never becomes a different program",
 "If opening or reading any source or include file fails at any point of any pass, the run either still produces exactly the output of an undisturbed run or exits non-zero with a diagnostic; it never exits 0 having assembled a truncated or otherwise different program. (A name that truly does not exist where it is looked for is resolved from the next search directory instead.) This includes the re-reading of sources for diagnostics and for the listing.",
 ["fault_sequences","inputs"],"every program made of any number of nested source files, every open/read/seek failure (transient or persistent) at any call in any pass",
 "Tests only ever read intact files; a read error half way through a source is out of their reach.",
 [S+"file.cc",S+"pass.cc",S+"pasm.l",S+"genlist.cc"],[("open_include_file / open_file","file.cc"),("YY_INPUT fatal read error","generated lexer"),("read_file_lines","file.cc")],
 ["exit status","all output files","stderr"])
add("C04","Binary inclusion (.load) is all or nothing",
 "On success the bytes contributed by each .load are exactly the content of the named file, in order, for every content and length (empty, odd, any byte value) and wherever the file is found on the search path. If the file cannot be opened, sized, or read completely in any pass, the run exits non-zero with a diagnostic; it never emits invented, missing or repeated bytes and never crashes or loops.",
 ["fault_sequences","inputs"],"every binary file content and length up to the address space, every open/seek/read failure while it is loaded in any pass",
 "One test loads a small healthy file; read failures, seek failures, empty and odd-sized files under faults are not reachable from it.",
 [S+"expand.cc",S+"file.cc"],[("expand_operator_load_node","expand.cc"),("open_file","file.cc")],["object file bytes","exit status","stderr"])
add("C05","Results do not depend on how I/O is chunked or buffered",
 "Exit status, diagnostics and every output file are the same however the operating system splits reads and writes (short reads, one byte at a time, any buffer or block size). In particular no construct of the language may be affected by where a buffer or block boundary falls in a source, include or binary file, or by how much of a file one system call returns or accepts.",
 ["schedules","inputs"],"every program and every segmentation of each read and write stream",
 "Local disk reads in the tests always return full blocks, and test sources are far smaller than any buffer.",
 [S+"pasm.l",S+"file.cc",S+"error.cc",S+"expand.cc",S+"genoutput.cc"],[("flex buffering over stdio","pasm.l"),("yymessage re-reads the source through the lexer's stream","error.cc"),("fgets line reader","file.cc read_file_lines"),(".load reader","expand.cc")],
 ["exit status","stdout/stderr text","all output files"])
add("C06","Output is a function of the inputs, not of memory contents",
 "For a given command line and set of files, exit status, diagnostics and every output file are identical regardless of what freshly allocated or stack memory contains, where the allocator places or reuses blocks, what the environment variables are, and what the clock says. A run writes to no memory it has not requested or has given back.",
 ["schedules","inputs"],"every program and command line; every initial heap/stack content, allocator placement and reuse policy, environment and clock",
 "A test process starts from zeroed pages, so reading an uninitialised or freed field usually yields zero and the tests cannot tell.",
 [S+"memory.h",S+"node.cc",S+"sym.cc",S+"dictionary.cc",S+"stacks.cc",S+"genlist.cc",S+"expand.cc"],[("explicit initialisation of nodes, symbols, list entries","node.cc allocate_node, sym.cc add_symbol, genlist.cc add_list"),("scope and label buffers","expand.cc")],
 ["exit status","stdout/stderr text","all output files"])
add("C07","Out of memory is reported, never a crash or a wrong object",
 "If any memory request made during a run is refused, the run either still produces exactly the output of an undisturbed run or terminates by itself with a non-zero exit status and a diagnostic on standard error. It never dies from a signal, never hangs, and never exits 0 with different output.",
 ["fault_sequences","inputs"],"every program and every allocation of the run (single refusal, or every request from that one on)",
 "No test makes an allocation fail.",
 [S+"memory.h",S+"memory.cc",S+"node.cc",S+"sym.cc",S+"dictionary.cc",S+"stacks.cc",S+"genlist.cc",S+"expand.cc",S+"file.cc",S+"pasm.l"],[("error_out_of_memory checks after MALLOC/STRDUP/REALLOC","throughout"),("lexer fatal error on failed buffers","generated lexer")],
 ["exit status / signal","stderr","all output files"])
add("C08","Only the requested outputs are ever written",
 "A run creates, changes, truncates, renames or removes no file other than the ones named by -o, -s, -l and -log: sources, included files, loaded binaries, search-path directories and unrelated files keep their exact content and names, whatever the program says and whatever fails, also if the run is killed at any moment.",
 ["inputs","crash_points","fault_sequences"],"every program, command line, fault sequence and kill point; every file present in the directory tree",
 "Tests never inspect the rest of the file system, and never under failures or kills.",
 [S+"pass.cc",S+"file.cc",S+"genlist.cc"],[("outputs are opened only from assemble() by their command line names","pass.cc"),("all other opens are read-only","file.cc open_file")],["every file in the tree after the run"])
add("C09","A failed assembly leaves the previous outputs alone",
 "If a program is rejected before code generation starts (syntax error, unresolved or never-settling symbol, missing or unreadable source, too many passes, bad command line, refused memory in an earlier pass), object, symbol and listing files left by an earlier run keep their exact previous content. An object file is only replaced once the program has assembled without errors.",
 ["inputs","fault_sequences","histories"],"every erroneous program or failing environment up to the end of symbol resolution, with every previous state of the output files",
 "Tests do not run the assembler twice into the same files, and failing programs are not checked for their effect on older outputs.",
 [S+"pass.cc",S+"parseargs.cc"],[("object file opened only after the error-free resolution passes","pass.cc assemble")],["object/symbol/listing file bytes after a failed run"])
add("C10","A re-run is independent of every earlier run, crash or leftover",
 "Whatever earlier runs did - succeeded, failed, or were killed at any instant, including power loss that leaves outputs old, empty, truncated or partly written - the next undisturbed run of a command produces exactly the files, diagnostics and exit status it would produce in a fresh directory holding the same inputs. A killed run leaves its object file absent, as it was before, or a prefix of the correct object.",
 ["histories","crash_points"],"every sequence of runs over a changing source tree with kills at every system call (before, after, or part way through a write) and every subset of unflushed data lost",
 "Tests run each command once to completion; interrupted runs and leftovers are never produced.",
 [S+"pass.cc",S+"file.cc",S+"globals.cc"],[("outputs truncated and rewritten in order from scratch","pass.cc assemble")],["all files after each run","exit status","stdout/stderr"])
add("C11","Every run terminates by itself",
 "Every run terminates after a bounded amount of work with an exit status: for files that include themselves, symbols that never settle, code-emitting loops without end, truncated or garbage source text, and under any sequence of I/O failures, short transfers, interruptions or refused memory, including failures that never go away. (A loop of the source program itself that has no end and emits nothing is outside this promise.)",
 ["inputs","fault_sequences"],"every source text whose non-emitting loops terminate, every fault sequence; bound = a fixed multiple of the work of an undisturbed run of similar size",
 "Tests contain no never-ending fault and no adversarial source; a hang would need a watchdog and the right fault.",
 [S+"pass.cc",S+"expand.cc",S+"file.cc",S+"genlist.cc",S+"error.cc",S+"pasm.l"],[("max_passes limit","pass.cc"),("program counter limit in loops","expand.cc"),("end-of-file driven loops","file.cc, expand.cc .load, error.cc")],["termination","exit status"])
add("C12","Open files are bounded by nesting, not by program size",
 "The number of files a run holds open at the same time is bounded by the include nesting depth plus a small constant: it does not grow with the number of files included one after another, the number of .load directives, the number of diagnostics or the number of passes. Hence a program assembles under a small descriptor limit whenever its nesting fits, with the same result.",
 ["inputs","configurations"],"every program (any number of sequential includes, loads, input files, passes) and every descriptor limit at least nesting depth plus eight",
 "Tests include one or two files; exhausting descriptors needs hundreds of includes times passes.",
 [S+"file.cc",S+"pasm.l",S+"pass.cc",S+"expand.cc",S+"genlist.cc"],[("closing an included file at its end","pasm.l end-of-file rule"),("fclose of inputs and loads","pass.cc, expand.cc, file.cc")],["maximum number of simultaneously open descriptors","exit status and outputs under a descriptor limit"])
add("C13","Exit status agrees with the diagnostics in every pass",
 "A run exits 0 if and only if it reported no error: whenever an error diagnostic is printed in any pass or while any output is generated (including values found out of range only while emitting, and errors while writing the listing), the exit status is non-zero; whenever the exit status is non-zero, a diagnostic or usage text was printed. Warnings alone never change the exit status or the outputs, and none is printed once they are turned off (-nowarn).",
 ["inputs","fault_sequences"],"every program and command line, every point (command line, any pass, code generation, listing) at which an error can be raised, with and without I/O faults",
 "Tests call the engine in-process and look at output files or the error counter after early passes; errors that only occur in the last pass and the process exit status are not tied together.",
 [S+"pass.cc",S+"error.cc",S+"genoutput.cc",S+"main.cc",S+"parseargs.cc"],[("error_count tested between passes","pass.cc"),("main returns the result of assemble","main.cc")],["exit status","stderr"])
add("C14","Object, listing and symbol file describe the same program",
 "After a successful run with listing output on throughout, the bytes printed in the listing, in order and at the listed addresses, are exactly the bytes of the object file (after the load-address header, if any, which is the address of the first of them), each listed byte has the address after the one before it wherever no origin directive stands between, and, when the origin is set once, the addresses form the contiguous layout that starts at the header's load address. The values in the symbol file are the ones the emitted code uses, so that every label's value is the listed address of the code following it, however many passes and re-reads of the sources it took, inside sections too; and the size reported on the console is that of the object file.",
 ["inputs","fault_sequences","histories"],"every program without printing directives, for any number of resolution passes, source layouts over several files, and tolerated I/O disturbances (short transfers, interruptions that are retried, leftovers)",
 "Tests compare object files of fixed programs; nothing relates the three outputs, which are produced at different times from different data structures and re-reads.",
 [S+"pass.cc",S+"expand.cc",S+"node.cc",S+"genlist.cc",S+"genoutput.cc",S+"sym.cc"],[("final pass emits list entry and bytes for the same node","expand.cc"),("resolution passes until no symbol changes","pass.cc"),("symbol dump","sym.cc")],["object bytes","listing text","symbol file text"])
add("C15","The search path picks a fixed file, faults never switch it",
 "A source, include or load name is resolved first as given and then against the -dir entries strictly in order; the first existing file is used, identically in every pass and for the listing. An open that fails for a reason other than the file not being there (descriptor or memory exhaustion, I/O error, interruption) never makes the run succeed with a different file of the same name from a later directory.",
 ["inputs","fault_sequences","configurations"],"every set of directories with shadowed names, every -dir list, every open failure at any open call of any pass",
 "Tests use single-directory layouts and never fail an open transiently.",
 [S+"file.cc"],[("open_file / open_file_stream walk of the directory list","file.cc")],["object bytes","listing text","exit status"])
add("C16","The line-ending converter never loses a file's content",
 "At every instant, and after any read, write, close or rename failure, full disk, or kill of the end-of-line converter, each file of the samples tree holds either its complete original content or its complete converted content: never a truncated, empty or mixed version. Files outside the tree are never touched.",
 ["crash_points","fault_sequences","inputs"],"every tree of files, every kill point (before, after or inside any system call) and every I/O failure",
 "The converter has no tests at all; the build just runs it.",
 ["CMakePasm/eolconvert/eolconvert.cc"],[("replace_eol","eolconvert.cc"),("is_text_file decides what is rewritten","eolconvert.cc")],["content of every file of the tree after the run or crash"])
add("C17","Line-ending conversion preserves content and converges",
 "A completed conversion changes nothing but line-ending bytes: binary files and the sequence of all other bytes of text files are unchanged, every line ending becomes a single LF, the number of lines of consistently terminated files is kept, and converting again changes nothing. The result does not depend on directory order, directory-entry types, read/write segmentation or earlier interrupted conversions.",
 ["inputs","schedules","histories"],"every tree of text and binary files with LF, CRLF or CR line ends, every enumeration order and I/O segmentation, every prior interrupted run",
 "The converter has no tests; ordering and interruption are properties of the environment.",
 ["CMakePasm/eolconvert/eolconvert.cc"],[("replace_eol state machine","eolconvert.cc"),("process_directory collects into ordered sets","eolconvert.cc")],["content of every file of the tree after the run"])
add("C18","A broken console never damages results",
 "Failures while writing progress text, warnings, prints or verbose output to standard output or standard error (closed stream, full device, broken pipe reported as an error) never change the object, symbol, listing or log files and never turn a successful assembly into a failed one or the reverse.",
 ["fault_sequences","inputs"],"every program and option set, every failure sequence on the two console streams",
 "Tests always run with working streams.",
 [S+"pass.cc",S+"error.cc",S+"node.cc",S+"expand.cc"],[("console output is write-only and never consulted","throughout")],["exit status","all output files"])
add("C19","Outputs do not influence each other",
 "Which outputs a run is asked for and in which order the options are given changes nothing about the others: adding or dropping -s, -l, -log or -v, or moving options and inputs' options around on the command line, leaves the exit status and every output requested in both cases identical; so does dropping -o for a program that assembles. The tracing directives (.debug_token, .debug_bison, .debug_addlist, on or off) only add console text: object, symbol file and listing are those of the program without them. If an additional output cannot be opened or stored, every other output is either untouched or exactly the one an undisturbed run produces, never a mixture.",
 ["configurations","inputs","fault_sequences"],"every program, every pair of option sets and orders with the same inputs, definitions and directories, and every failure of one additional output",
 "Tests fix one set of outputs per case; none compares two command lines over one program, and none lets one of several outputs fail.",
 [S+"pass.cc",S+"parseargs.cc",S+"genlist.cc",S+"sym.cc",S+"node.cc"],[("list nodes are built from the same parse tree that is emitted, in the same pass","expand.cc, node.cc generate_list_node"),("outputs opened and written one after another","pass.cc assemble"),("option parsing","parseargs.cc")],["exit status","bytes of every output file"])
add("C20","How a program is divided over files does not matter",
 "Moving any run of complete statements at block level into an included file (wherever on the search path it lies and however it is named), including a file in place, or splitting and joining command-line inputs, changes neither exit status, object bytes, listed bytes nor symbol values, at any nesting, for correct and erroneous programs; nor does moving a constant definition between the head of the program and -d on the command line, in any notation, nor giving a processor or format option (-6502, -65c02, -i, -c64) instead of the directive at the head of the first input; and a mode directive (.6502, .65c02, .illegal, .warn) governs only what follows it, so that behind the last statement it changes nothing. (Each file has its own + and - labels; every file ends with a complete line.)",
 ["inputs","configurations","schedules"],"every program, every repeated division of it over inputs, includes and -d definitions, under every read segmentation and descriptor reuse",
 "Tests use a few fixed layouts; whether lexer, line and file state survive every include boundary needs many divisions of the same program.",
 [S+"file.cc",S+"pasm.l",S+"pass.cc",S+"parseargs.cc",S+"sym.cc"],[("include stack and end-of-file rule","file.cc open_include_file, pasm.l <<EOF>>"),("one parse per input with shared state","pass.cc parse_pass"),("-d definitions","parseargs.cc")],["exit status","object bytes","listing bytes","symbol values"])
add("C21","Diagnostics point at the statement they are about",
 "A diagnostic raised by a wrong statement names the file that statement is in and a line at it or at most two after it, also behind includes, comments, macros, nested conditionals, CR LF line ends and lines of any length; and every numbered source line quoted with any diagnostic is, character for character, that line of the named file. Reporting it does not disturb the reading of the rest of the program: further wrong statements are reported as well where they stand.",
 ["inputs","schedules"],"every program with one or several wrong statements anywhere at block level, every read segmentation and buffer size of the source streams (which the report re-reads and repositions)",
 "Tests count errors or look at none; the position and quotation depend on the include history, buffering and the repositioned stream.",
 [S+"error.cc",S+"pasm.l",S+"file.cc",S+"pass.cc"],[("yymessage rereads the source through the lexer's stream","error.cc"),("file_line stack restores name and line after an include","pasm.l <<EOF>>, file.cc")],["stderr","exit status"],[("yylineno / current_file_name","position the next diagnostic is attributed to","pasm.l")])
add("C22","Inactive text has no effect",
 "Comments anywhere between words, everything skipped by .ifdef/.ifndef (any text at all, including unbalanced quotes, block comments and further conditionals), well-formed statements in a branch of .if that is not taken, in a macro nobody calls and behind .end (also those naming symbols defined nowhere), and comment text that looks like a directive change nothing: same exit status, object, listed bytes and symbol values as without them; nothing in them is printed, defined, or looked up in the file system - a file named only there may be missing or unreadable. (Mode switches such as .c64 or .warn in an untaken .if branch do act; the symbol tested by .ifdef is defined before the test or nowhere.)",
 ["inputs","fault_sequences"],"every program and every insertion of inactive text, with every open of a file named only in it failing",
 "Tests hold a few conditionals with harmless contents; the skipping state has to survive arbitrary skipped text at every position, in every pass, across files.",
 [S+"pasm.l",S+"expand.cc",S+"file.cc"],[("IF_DEF and comment states of the scanner","pasm.l"),("untaken branches are not expanded","expand.cc")],["exit status","object bytes","symbol values","stdout","files opened"])
add("C23","Names and spelling do not matter",
 "Consistently renaming labels, constants, variables, macros, sections and command-line symbols - to names of any length, names differing only in digits, underscores or sharing long prefixes, names that begin like mnemonics or directives, colliding hash buckets - and changing the letter case of any name, mnemonic or directive leaves exit status, object and listed bytes unchanged, and the symbol file the same up to the renaming. Writing a + or - label as a named label instead, or plain unique names instead of names in sections, gives the same object, however many passes addresses take to settle.",
 ["inputs","histories"],"every program and every injective renaming and re-casing of its user-defined names; every program of + and - labels around the zero-page boundary",
 "Tests use one set of names each; order, hash placement and prefix effects only show with many namings of one program, and label settling needs programs whose sizes move between passes.",
 [S+"sym.cc",S+"dictionary.cc",S+"hash.cc",S+"pasm.l",S+"expand.cc"],[("case-insensitive symbol and macro dictionaries","dictionary.cc, hash.cc"),("plus/minus label tables","sym.cc"),("label and macro name recognition","pasm.l")],["exit status","object bytes","listing bytes","symbol file"])
add("C24","The listing shows every statement once, beside its bytes",
 "With listing output on throughout, the source text in the listing of a successful run is, per file and in order, exactly the lines of that file, each once, whatever their length, line ends and content, and the bytes listed beside a statement that emits code are the ones that statement emits.",
 ["inputs","schedules"],"every program read once per file, any line lengths, string contents and include structure, under every read segmentation, allocator and buffer size",
 "Tests do not read the listing text; it is produced after assembly by re-reading all sources and matching them with list nodes by name and line.",
 [S+"genlist.cc",S+"file.cc",S+"node.cc"],[("list nodes carry file and line","genlist.cc add_list"),("sources re-read into lines","file.cc read_file_lines"),("merging","genlist.cc generate_list_file")],["listing text"])

add("C25","Assemblies at the same time do not disturb each other",
 "Several assemblies running at the same time on one machine, in the same or in different directories, sharing sources, included and loaded files, end each exactly as they would alone, however their system calls interleave: same exit status, console text and output files. Assemblies of the same program writing the same outputs leave those outputs complete and correct. If one of them is killed, meets a fault or is refused, the others do not notice.",
 ["schedules","inputs","crash_points","fault_sequences"],"every set of command lines, every interleaving of their system calls, every fault in or kill of one of them",
 "Tests run one assembly at a time, one after another, because they share file names.",
 [S+"pass.cc",S+"file.cc",S+"pasm.l",S+"genlist.cc",S+"node.cc"],[("no scratch files, locks or other shared state; sources opened read-only, outputs opened by name","pass.cc assemble, file.cc open_file")],["exit status, stdout, stderr of every process","bytes of every output file"])
add("C26","Conversions at the same time and beside assemblies are safe",
 "While two end-of-line conversions work on the same tree at the same time, or a conversion works on the sources an assembly is reading, every file holds its complete original or complete converted content at every instant and the converted content at the end; no file appears or disappears; none of the conversions fails on account of the other, and the assembly ends with the exit status, object and symbols it has alone. This holds at every interleaving, also when one of them is killed, the machine stops or an access fails (then: old or converted content).",
 ["schedules","crash_points","fault_sequences","inputs"],"every tree, every interleaving of the system calls of the processes, every kill point, stop of the machine and failure",
 "The build starts the converter once; nothing tests two at once or one beside an assembly.",
 ["CMakePasm/eolconvert/eolconvert.cc",S+"file.cc",S+"pasm.l"],[("temporary file and rename","eolconvert.cc write_file"),("collecting the files of the tree","eolconvert.cc process_directory"),("sources re-opened in every pass","file.cc")],["content of every file of the tree","exit status of every process","object bytes"])
add("C27","The number of passes a program takes does not matter",
 "Definitions that depend on each other forwards, and so make the assembler take more passes to settle, change nothing about the rest of the program: exit status, object bytes, listed bytes and symbols are the same as if the values were written down directly, wherever the definitions stand and however many passes (up to the maximum of 20) they cost; statements using them get the settled value. (A branch found out of range in one pass stays a jump, so only where sizes do not move meanwhile.)",
 ["inputs","histories","fault_sequences"],"every program, every set of added definitions settling in 1 to 17 passes, every read segmentation and memory content, failures while the passes go on",
 "Tests take two or three passes; state left over from one pass only shows in the next ones.",
 [S+"pass.cc",S+"expand.cc",S+"sym.cc",S+"pasm.l",S+"node.cc"],[("loop over passes until nothing changes","pass.cc assemble"),("per-pass reset","pass.cc reset_lex, globals.cc"),("values set and compared","sym.cc set_symbol_value, expand.cc expand_operator_equ_node")],["exit status","object bytes","listing bytes","symbol file"])
add("C28","Macros, loops and expressions stand for their written-out form",
 "A macro call stands for the body with its arguments in place of the parameters - nested calls, arguments naming parameters of the caller and @-labels private to each of any number of calls included, wherever the macro is defined, and an uncalled macro for nothing; a name defined inside sections stands for its full name, wherever sections are nested, and a conditional branch (or bra) to a label out of its reach for the opposite branch around a jmp (or the jmp); .for, .while, .repeat and .do stand for their repetitions, .if for the branch taken, register loops for the load, step, compare and branch that run the body for every value; .var and assignments follow the order of execution; expressions, .fill and strings stand for their values: exit status and object bytes are those of the program with all of this written out as labels, numbers and single statements. (Only .downto 0 is left out: it branches on a carry nothing sets.)",
 ["inputs","histories","fault_sequences"],"every program of nested macros, loops, conditionals, variables, local labels and expressions, every read segmentation and memory content, read faults",
 "Tests hold one macro or one loop each, called once or twice; parameters, local names and variable values are state that has to survive every nesting, repetition and pass.",
 [S+"expand.cc",S+"node.cc",S+"sym.cc",S+"pasm.y",S+"pasm.l"],[("macro parameters pushed, set and popped","expand.cc expand_macro_expansion_node, sym.cc push_macro_params"),("names of local labels","sym.cc format_local_sym, node.cc label_node"),("loops and conditionals expanded from the parse tree","expand.cc"),("operators","expand.cc expand_operator_*_node")],["exit status","object bytes"])


NA=[
("C31","Instruction encoding","Every mnemonic and addressing mode assembles to the opcode and operand bytes of the selected processor (6502, 65C02, illegal opcodes), choosing the zero-page form exactly when the operand is known to fit, and combinations the processor lacks are rejected.",[S+"opcodes.cc",S+"node.cc",S+"genoutput.cc"],"get_op_code","encoding table lookup"),
("C32","Expression semantics","Expressions evaluate with the documented operators, precedence, number bases, character constants and byte selectors to the same value in operands, data, assignments and conditions.",[S+"pasm.y",S+"pasm.l",S+"expand.cc"],"expand_operator_*_node","operator evaluators"),
("C34","Section scoping","A symbol defined inside nested sections is visible by its short name inside and by its dotted name outside, and equal short names in different sections never collide.",[S+"sym.cc",S+"expand.cc"],"expand_operator_section_node","current_scope"),
("C35","Branch relaxation","A relative branch that reaches its target is encoded as a branch, and one that does not is replaced by an inverted branch around a jump with the same effect.",[S+"expand.cc",S+"genoutput.cc",S+"node.cc"],"expand_op_code_node","range test"),
("C36","Data and control directives","Data, string, fill, reserve, conditional, loop and register-loop directives emit exactly the bytes and addresses their documentation states.",[S+"expand.cc",S+"genoutput.cc",S+"str.cc"],"expand_operator_node","directive evaluators"),
("C37","Dictionary and stack containers","The internal dictionary returns the last value stored under a key after any sequence of insertions, deletions and growth, and the internal stack is last-in first-out for any sequence of operations.",[S+"dictionary.cc",S+"stacks.cc",S+"hash.cc"],"dict_insert/dict_search/push/pop","containers"),
]
for id,t,s,files,mn,mw in NA:
    add(id,t,s,["programs","inputs"],"every source program" if id!="C37" else "every operation sequence","The tests assemble a fixed set of programs and compare fixed bytes.",files,[(mn,mw)],["object file bytes" if id!="C37" else "container API"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
