import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)

p("C01","An image file reported as written is complete and correct",
 "Whenever a run exits 0 with an output image requested (raw binary, DragonDOS, CoCo, SREC or Intel HEX), the file on storage decodes to exactly the bytes the program places at each address, in address order, together with the program's exec address, with every length field, checksum and terminator right. If opening, writing or closing that file fails at any point - also when writes are accepted only in part, or the disk fills up in the last bytes - the run exits non-zero and prints an error naming the file.",
 ["inputs","fault_sequences","configurations"],
 "every program and output format, every point at which an open, write or close of the image file can fail or be cut short",
 "The tests compare three scripts' SREC output on a healthy disk; none looks at the exit status, the four other formats, spans out of order, or any failing write.",
 ["src/output.c","src/section.c","src/asm6809.c"],
 [m("section_coalesce_all sorts and merges the spans of all sections","src/section.c"),m("one writer per output format","src/output.c"),m("error level decides the exit status","src/asm6809.c main")],
 [s("section spans","bytes emitted so far with their put address","src/section.c")],["exit status","image file","stderr"])
p("C02","Listing, exports and symbols files are complete, true and agree with the image",
 "Whenever a run exits 0, each listing, exports and symbols file it was asked for is complete: the listing shows every assembled line in order, with the address it was assembled at and exactly the bytes that line contributed to the image; the symbols file gives every non-local symbol its final value and the exports file every exported name, and nothing else. If opening, writing or closing any of these files fails at any point, the run exits non-zero and prints an error naming that file.",
 ["inputs","fault_sequences","configurations"],
 "every program and combination of requested files, every point at which an open, write or close of one of them can fail or be cut short",
 "The tests write a listing but never look at it, never request exports or symbols, and never see a failing write.",
 ["src/listing.c","src/program.c","src/symbol.c","src/asm6809.c","src/assemble.c"],
 [m("listing lines refer to span data by offset","src/listing.c"),m("prog_print_exports, prog_print_symbols walk the dictionaries","src/program.c")],
 [s("listing_lines","lines of the last pass only","src/listing.c"),s("exports","names flagged by EXPORT","src/program.c")],["exit status","listing, exports and symbols files","stderr"])
p("C03","Input that cannot be read in full is never assembled as if it were",
 "If any source file, INCLUDE file or INCLUDEBIN file cannot be opened, or reading it fails before its end - at the first byte, in the middle, at the last line, in a later pass, or because it is a directory - the run exits non-zero with an error and creates or changes no output file. It never treats the part it could read as the whole file.",
 ["fault_sequences","inputs"],
 "every open and every read of every input, in every pass, failing with any error",
 "All files the tests use are readable; no test includes a file at all.",
 ["src/grammar.y","src/lex.l","src/assemble.c","src/program.c"],
 [m("read_line distinguishes end of file from error","src/lex.l"),m("INCLUDEBIN copies the file byte by byte in every pass","src/assemble.c pseudo_includebin")],
 [s("yyin, need_eol","position and pending state of the scanner","src/lex.l")],["exit status","stderr","output files"])
p("C04","The result does not depend on how the input text is delivered",
 "The same program text gives the same exit status and byte-identical image, exports and symbols whatever the sizes of the pieces in which reads return it, wherever lines fall relative to buffer boundaries and however long they are, whether lines end in LF or CR LF, whether the last line is terminated, and whether the text is one file, several files on the command line, or pieces of it - cut at any line outside conditionals and macro definitions, and ending in the section they start in - are pulled in with INCLUDE. Nor does it matter whether source files, each of which is read once, are files or come through pipes, and whether outputs go to files or into pipes.",
 ["inputs","schedules","configurations"],
 "every text and every way of cutting its delivery: read sizes, line-end style, file splits, INCLUDE nesting, files or pipes at either end",
 "Each test delivers one small LF file in one read.",
 ["src/lex.l","src/grammar.y","src/program.c","src/assemble.c"],
 [m("read_line gathers a line over several buffer fills and strips CR","src/lex.l"),m("files are parsed into one program each and assembled in order","src/asm6809.c, src/program.c")],
 [s("line, line_length, lines","text of lines queued for the grammar","src/lex.l")],["exit status","image, exports, symbols, listing text"])
p("C05","Damaged source text is never silently shortened, and never kills the assembler",
 "Whatever bytes a source file turns out to contain - cut off anywhere, with bits flipped, zeroed or overwritten blocks, NUL or non-ASCII bytes, binary junk - the run ends by itself with exit status 0 or 1, never by a signal. If it exits 0, every line delivered before an END was taken in: each appears in the listing, intact and in order, and none is dropped, merged or cut without an error.",
 ["inputs","fault_sequences"],
 "every byte sequence a source or include file can hold, in particular every truncation and every damaged position of a valid file",
 "The tests assemble well-formed files only.",
 ["src/lex.l","src/grammar.y","src/program.c","src/eval.c","src/instr.c","src/assemble.c"],
 [m("fgets-based scanner input","src/lex.l read_line"),m("error productions discard a bad line and raise a syntax error","src/grammar.y")],
 [s("lines","queue that pairs line text with parsed lines","src/lex.l")],["exit status or signal","listing","stderr"])
p("C06","Running out of memory fails cleanly",
 "Whichever memory allocation fails during a run - one only, or that one and all later ones - the run either still succeeds with exactly the outputs of an undisturbed run, or exits non-zero with a message on stderr. It never dies by a signal, never hangs, and never exits 0 with an output that is missing or differs.",
 ["fault_sequences","inputs"],
 "every allocation of every run failing, once or persistently",
 "No test makes an allocation fail.",
 ["gnulib/xalloc-die.c","dt101/slist.c","dt101/dict.c","src/lex.l","src/grammar.y","src/error.c"],
 [m("xmalloc and friends end the program on failure","gnulib/xmalloc.c, gnulib/xalloc-die.c")],
 [],["exit status or signal","stderr","output files"])
p("C07","A failed assembly leaves the previous outputs untouched",
 "When a run fails because of its sources - unreadable files, syntax errors, undefined or unstable symbols, values out of range - or is killed before it starts to write results, every file named as image, listing, exports or symbols output keeps the exact content it had before, or stays absent. Output files are opened for writing only after assembly has succeeded.",
 ["fault_sequences","crash_points","inputs"],
 "every failing program, every input fault, and every kill point up to the first output",
 "The tests have no failing program and never rerun over an existing output.",
 ["src/asm6809.c","src/output.c"],
 [m("errors are checked before any output file is opened","src/asm6809.c main")],
 [s("error_level","highest error of the pass","src/error.c")],["history of opens and writes","output files"])
p("C08","Output is a function of the sources and options alone",
 "Two runs with the same options on the same file contents give the same exit status and byte-identical outputs and diagnostics, whatever the addresses and previous contents of heap and stack memory, whether reallocations move, what freed memory holds, the value left in errno, the environment variables, the process id, the clock, or what files existed at the output names before.",
 ["schedules","configurations","inputs"],
 "every program and every pair of memory layouts, memory fill patterns and process environments",
 "A test sees one heap layout and zero-filled fresh memory; it cannot see that an uninitialised or address-dependent value reached the output.",
 ["src/section.c","src/output.c","src/node.c","src/eval.c","dt101/dict.c","gnulib/hash.c","src/asm6809.c"],
 [m("symbols and sections are kept in hash tables keyed by string contents","dt101/dict.c"),m("spans carry a sequence number to order equal addresses","src/section.c span_cmp")],
 [],["exit status","all output files","stderr"])
p("C09","Success means settled: one more pass would change nothing",
 "When a run exits 0, every symbol, local label, section start and emitted byte has the value it would have if yet another pass were made: evaluating the whole program once more with the final symbol and section positions reproduces the same outputs. So passes forced by something unrelated, a larger permitted number of passes, or a definition moved after its uses change no symbol and no byte that does not depend on them.",
 ["inputs","histories","schedules"],
 "every program (forward references, sections continued and chained, local labels, size-dependent addressing) and every history of passes that leads to success",
 "The tests settle in one or two passes and check one final image each; they cannot tell a settled result from one a further pass would change.",
 ["src/asm6809.c","src/symbol.c","src/section.c","src/assemble.c","src/error.c"],
 [m("a pass that finds an inconsistency triggers another","src/asm6809.c main, src/error.c"),m("symbol values are compared with the previous pass","src/symbol.c symbol_force_set, symbol_local_set"),m("section end addresses are compared with the previous pass","src/section.c section_finish_pass")],
 [s("symbol.pass and node","value and pass of last definition","src/symbol.c"),s("section.last_pc, last_put","end of the section in the previous pass","src/section.c"),s("local label table","positions per section, kept across passes","src/symbol.c")],["image, listing, symbols","number of times an INCLUDEBIN file is read"])
p("C10","Files that change while being assembled never yield a mixture",
 "If other processes rewrite source or include files during a run, each file that run assembles from is the content delivered by one single reading of it, used unchanged in every pass. If an INCLUDEBIN file changes between passes, an exit status of 0 means that the embedded bytes are those of its last reading and that all addresses, symbols and branch offsets in the outputs agree with that size.",
 ["schedules","histories"],
 "every interleaving of the assembler's opens and reads with rewrites, truncations and replacements by other processes",
 "No test changes a file while the assembler runs.",
 ["src/program.c","src/grammar.y","src/assemble.c","src/section.c"],
 [m("parsed files are cached by name for all passes","src/program.c prog_new_file"),m("inconsistent symbols and section ends force another pass","src/symbol.c, src/section.c")],
 [s("files","parsed programs by file name","src/program.c")],["image, listing, symbols","history of opens and reads"])
p("C11","Every run ends, within the permitted number of passes",
 "A run makes at most the permitted number of passes (--max-passes, 12 by default), and ends by itself in bounded time whatever its inputs do, including files that include each other, macros that expand themselves and binary inputs that change in every pass. If values have not settled in the last permitted pass it exits non-zero with an error and writes no output; if they settle within it, it succeeds, with the same result as under any larger limit.",
 ["histories","inputs","configurations"],
 "every limit from 2 to 255, every program, every sequence of changes to the inputs between passes",
 "The tests never set a limit, never need more than a few passes and never recurse.",
 ["src/asm6809.c","src/assemble.c","src/instr.c","src/error.c"],
 [m("pass loop bounded by max_passes","src/asm6809.c main"),m("nesting bounded by max_program_depth","src/assemble.c assemble_prog")],
 [s("max_passes, prog_depth","limits","src/asm6809.c, src/assemble.c")],["exit status","number of times an INCLUDEBIN file is read","output files","simulated steps used"])
p("C12","Assemblers running at the same time do not disturb each other",
 "Any number of runs started in one directory, on the same or different sources and with different output names, interleaved in any way, each produce exactly the exit status, diagnostics and outputs they would have produced alone. This also holds when some of them fail, are killed, or hit disk errors on their own files.",
 ["schedules","crash_points","fault_sequences"],
 "every interleaving of the file operations of several runs (as under make -j), with faults in any of them",
 "The tests run the assembler once at a time.",
 ["src/output.c","src/asm6809.c","src/grammar.y","src/assemble.c"],
 [m("no file other than the named inputs and outputs is used","whole program")],
 [],["history of file operations","outputs of each run"])
p("C13","Symbols and macros handed on by exports and symbols files keep their meaning",
 "A program that INCLUDEs an exports or symbols file produced by a successful run sees every name in it (that source text can spell) with the value it had in that run - integer, floating point or text - and every exported macro expands to the same code, also through a chain of such stages. This holds across stages that were killed, ran out of disk or failed and were repeated: a stage that consumes the file of a stage that exited 0 never sees a partial or stale one, and an export that cannot be written faithfully makes the run exit non-zero.",
 ["inputs","histories","crash_points","fault_sequences"],
 "every set of exported symbols and macros, every pipeline of stages, with a crash or fault at any point of any stage",
 "No test writes or reads back an exports or symbols file.",
 ["src/program.c","src/node.c","src/symbol.c","src/lex.l"],
 [m("print_exported, print_symbol, node_print render definitions as source text","src/program.c, src/node.c")],
 [],["exports and symbols files","image of the consuming stage"])
p("C14","After a crash, running again gives the same result, and inputs are safe",
 "A run killed at any instant, and any number of such runs, followed by one undisturbed run gives outputs identical to those of a single undisturbed run, whatever the killed runs or a power loss left at the output names. No run, finished, failed or killed, ever modifies or removes an input or creates or changes any file other than the outputs named on its command line.",
 ["crash_points","histories"],
 "every sequence of kill points over the file operations of a run, and every torn, empty or stale state of previous outputs",
 "The tests run each case once, on an empty directory, to completion.",
 ["src/output.c","src/asm6809.c","src/grammar.y","src/assemble.c"],
 [m("outputs are opened for truncation, inputs for reading","src/output.c, src/asm6809.c, src/grammar.y")],
 [],["history of file operations","all files"])
p("C15","Exit status and diagnostics always tell the same story",
 "A run exits 0 exactly when it printed no error, and exits 1 with at least one error message, each in the form naming the file and line at fault where there is one, otherwise; warnings alone never change the exit status or the outputs. This holds for errors found in any phase (options, parsing, any pass, output), in combination, with -q or -v, and the exit status stays the same when stderr itself cannot be written.",
 ["inputs","fault_sequences","configurations"],
 "every combination of erroneous and valid statements, faults in any phase, verbosity, and failing stderr",
 "The tests ignore the exit status and contain no erroneous program.",
 ["src/error.c","src/asm6809.c","src/symbol.c","src/program.c","src/assemble.c"],
 [m("error list and highest level decide what is printed and the exit status","src/error.c, src/asm6809.c")],
 [s("error_level, error_list","errors of the current pass","src/error.c")],["exit status","stderr"])
p("C21","The number of files a program is made of needs no more open files",
 "A program may be made of any number of source, INCLUDE and INCLUDEBIN files, read any number of times in any number of passes, nested as deep as inclusion may nest, and some of them missing, unreadable, erroneous or failing: a run never holds more than a handful of files open at once. So under a limit of eight open files, the standard streams included, it gives the same exit status, diagnostics and outputs as without a limit, and no open is ever refused because of files it read before.",
 ["inputs","configurations","fault_sequences","histories"],
 "every number and nesting of files, every number of passes, every way one of them can be unusable, under any limit",
 "The tests read one or two files each, in a few passes, with the system's default limit of about a thousand open files; they use neither INCLUDE nor INCLUDEBIN.",
 ["src/assemble.c","src/instr.c","src/program.c","src/lex.l","src/grammar.y","src/output.c","src/asm6809.c"],
 [m("each source file is read whole and closed before its lines are assembled","src/grammar.y, src/program.c"),m("INCLUDEBIN closes its file on every path","src/assemble.c, src/instr.c")],
 [],["history of opens and closes","exit status","stderr","output files"])
p("C22","The memory a run needs does not grow with the number of passes",
 "What each pass builds - evaluated operands, listing lines, code spans, error and warning messages, positions of symbols, macro variables, conditions, included binaries - is given back before the next one needs the like: the most memory in use at any time during a run that needs many passes is the same whether the limit on passes is 31 or three times that, whatever statements the program contains, including values that never settle and pieces that only some passes assemble.",
 ["inputs","histories","configurations"],
 "every program and every number of passes, including every statement in code that comes and goes from pass to pass",
 "The tests take two or three passes and do not look at memory.",
 ["src/asm6809.c","src/error.c","src/listing.c","src/section.c","src/symbol.c","src/assemble.c","src/eval.c","src/node.c","src/interp.c"],
 [m("error_clear_all, listing_free_all, section_finish_pass and node_free release what a pass made","src/asm6809.c main, src/error.c, src/listing.c, src/section.c, src/node.c")],
 [],["peak of the memory in use","exit status"])
# not applicable to this technique
p("C16","Every 6809 and 6309 instruction assembles to its documented machine code",
 "For every mnemonic, addressing mode, register combination and operand value of the 6809 and 6309, the emitted bytes are those of the processor's reference.",
 ["inputs"],"every instruction form and operand value","The tests cover one or a few operand values per form.",
 ["src/opcode.c","src/instr.c","src/register.c"],[m("opcode tables and per-mode emitters","src/opcode.c, src/instr.c")])
p("C17","Expressions evaluate as documented",
 "Every expression has the value the manual defines: operator precedence and associativity, integer versus floating point results, number bases, strings as integers, comparison and logical results.",
 ["inputs"],"every expression","No test targets expressions.",
 ["src/grammar.y","src/eval.c","src/lex.l"],[m("grammar precedence and eval_node","src/grammar.y, src/eval.c")])
p("C18","Conditional assembly and macros select and expand the documented lines",
 "IF, ELSIF, ELSE and ENDIF include exactly the documented branch, and macro expansion with positional variables yields exactly the documented text, at any nesting.",
 ["inputs"],"every nesting of conditionals and macros","One script samples a few conditionals; macros are untested.",
 ["src/assemble.c","src/interp.c","src/eval.c"],[m("cond_list and interp stack","src/assemble.c, src/interp.c")])
p("C19","The fastest or smallest encoding is chosen when the source leaves it open",
 "Where the source does not force a size, the addressing mode and offset size chosen is the fastest or smallest that can represent the operand under the current SETDP.",
 ["inputs"],"every operand value, register and SETDP","Tests sample boundary values of some forms.",
 ["src/instr.c"],[m("instr_address and instr_indexed","src/instr.c")])
p("C20","Command line options mean what the manual says",
 "Every option, in any order and repetition, short or long form, has exactly its documented effect.",
 ["inputs","configurations"],"every option vector","Tests use -S, -3, -l and -o only.",
 ["src/asm6809.c"],[m("getopt_long loop","src/asm6809.c main")])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
