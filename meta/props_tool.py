from props_vm import P
ASM = ["q3asm/q3asm.c", "q3asm/opstrings.h", "q3asm/cmdlib.c"]
QA = "q3asm/q3asm.c"
NOTE = "no claim for inputs not generated; sizes bounded as described in the evidence rule; trusts gcc/clang and the oracle in /verif/tool"
LNOTE = "well-defined programs only (no undefined behaviour, no dependence on unspecified order, finite floats); sizes bounded as described in the evidence rule; trusts gcc on the host and the oracle in /verif/tool"
LCC = ["lcc/src/simp.c", "lcc/src/enode.c", "lcc/src/expr.c", "lcc/src/dag.c", "lcc/src/stmt.c", "lcc/src/decl.c", "lcc/src/init.c", "lcc/src/types.c", "lcc/src/sym.c", "lcc/src/lex.c", "lcc/src/tree.c", "lcc/src/bytecode.c"]
CPPF = ["lcc/cpp/cpp.c", "lcc/cpp/cpplex.c", "lcc/cpp/eval.c", "lcc/cpp/hideset.c", "lcc/cpp/include.c", "lcc/cpp/macro.c", "lcc/cpp/tokens.c", "lcc/cpp/nlist.c", "lcc/cpp/unix.c"]
CPPNOTE = "files whose meaning C89 fixes and that end lines with LF; sizes bounded as described in the evidence rule; trusts the oracle in /verif/tool"
PROPS = [
P("A01", "The assembler encodes each source line as documented",
  "For every valid assembly file, the image q3asm writes is byte for byte what the format prescribes: header, one opcode byte per instruction with its operand, local and argument addresses relative to the frame of the enclosing procedure, argument stores numbered per call, code labels as instruction numbers, values in the data, literal or bss section with their size and alignment, and a reserved stack.",
  ["inputs"], "All valid source files; explored by random files with every operator, directive, operand form and spelling.",
  "The tests assemble the output of the compiler for three small programs and only look at what these print.",
  [("operator table", "q3asm/opstrings.h"), ("instruction and directive handlers", QA + " AssembleLine, TryAssemble*"), ("operand expressions", QA + " ParseExpression, atoiNoCap")],
  "property-based testing: generated source files against an independent reference assembler", NOTE, files=ASM, observe=["bytes of the .qvm file"]),
P("A02", "Linking several files binds every name to its definition",
  "For every set of valid assembly files, each use of a name refers to its one definition, whether defined earlier or later, in the same or another file and in whichever section; names that begin with $ belong to their own file and never meet equal names of other files; the size of the symbol table and the lengths and spelling of the names make no difference.",
  ["inputs", "configurations"], "All sets of files and names; explored with 2 to 40 files.",
  "The tests link two fixed files with few global names.",
  [("symbol table", QA + " DefineSymbol, LookupSymbol, hashtable_*"), ("section bases of the second pass", QA + " Assemble")],
  "property-based testing: generated multi-file programs against an independent reference assembler", NOTE, files=ASM, observe=["bytes of the .qvm file"]),
P("A03", "Assembly errors never go unnoticed and never leave an image",
  "For every input with an error (undefined or doubly defined name, unknown or unsupported token, frame or argument list that is too large, missing operand of an instruction or option, unknown option, missing or malformed list or input file), however many errors there are, q3asm reports the file, ends with a failure status and writes no image.",
  ["inputs"], "All inputs with at least one such error; explored with 1 to 512 errors of 13 kinds.",
  "No test assembles an invalid file.",
  [("error count and exit status", QA + " CodeError, main"), ("no image after errors", QA + " WriteVmFile")],
  "property-based testing: errors planted into generated valid files", NOTE, files=ASM, observe=["exit status", "messages", "existence of the image"]),
P("A04", "The assembler withstands any input text",
  "For every content of its source and list files and every symbol table size, q3asm comes to an end without a memory error; it either writes a well-formed image and exits with 0, or reports an error, exits with a failure status and leaves no image.",
  ["inputs"], "All byte strings as source or list files; explored by structured mutation of valid files.",
  "No test feeds it anything but compiler output.",
  [("line, token and list file parser", QA + " ExtractLine, Parse, ParseOptionFile; q3asm/cmdlib.c COM_Parse"), ("segment buffers", QA + " EmitByte, EmitInt, SkipBytes")],
  "fuzzing with structured mutation under AddressSanitizer", NOTE, files=ASM, observe=["sanitizer reports", "exit status", "image"]),
P("A05", "Assembler options, list files and map files do what they say",
  "In every arrangement, the options select the output name, the inputs (from the command line or a list file, with or without extension, quoted or commented), the map file and the verbosity; none of them changes the image; the map lists exactly the global symbols with their section and value in ascending order, and the stack symbols; assembling the same input twice gives the same bytes.",
  ["configurations", "inputs"], "All option arrangements and inputs; explored at random.",
  "The tests use one fixed command line and never look at the map file.",
  [("options", QA + " main, ParseOptionFile"), ("map file", QA + " WriteMapFile, sort_symbols"), ("file names", "q3asm/cmdlib.c DefaultExtension, StripExtension, CreatePath")],
  "property-based testing of command lines against the reference assembler", NOTE, files=ASM, observe=["image", "map file", "output"]),
P("L01", "Integer expressions have the value the C language gives them",
  "For every well-defined program, each integer expression evaluates to the value that C89 prescribes for 8-bit signed char, 16-bit short and 32-bit int and long: promotions and the usual arithmetic conversions, signed and unsigned operators, truncation on assignment, casts, arguments and returns, bit fields, comparisons, short circuit and conditional operators, increments, compound assignments and sizeof - whether the operands are constants, locals, parameters, globals or memory objects, and whether the result is used, branched on or dropped.",
  ["inputs"], "All well-defined integer expressions; explored up to 5 operators deep.",
  "The tests compile nothing with lcc but three fixed programs; the folding and rewriting rules meet countless operand types and shapes.",
  [("folding and algebraic rules", "lcc/src/simp.c simplify"), ("typing and conversion of operators", "lcc/src/expr.c, lcc/src/enode.c"), ("trees to code", "lcc/src/dag.c, lcc/src/bytecode.c"), ("arithmetic instructions", "src/vm/vm.c")],
  "property-based testing: generated expressions with values computed from the rules of C", LNOTE, files=LCC, observe=["values the program passes to the host"]),
P("L03", "Control flow of compiled programs follows the C statements",
  "For every well-defined program, the statements run in the order that C prescribes: if, for, while, do, switch with any set of case values of any integer type (negative, sparse, dense, duplicate-free tables, fall through, default anywhere), break, continue, goto in both directions and into blocks, return, nested blocks with their own names, static locals and initialisers of locals.",
  ["inputs"], "All well-defined programs; explored with up to 5 functions and 30 statements each, nested up to 4 deep.",
  "The three compiled programs of the tests have a handful of loops and no sparse switch or goto.",
  [("statements and switch tables", "lcc/src/stmt.c"), ("conditions", "lcc/src/dag.c listnodes"), ("branches and labels", "lcc/src/bytecode.c, q3asm/q3asm.c")],
  "property-based testing: generated programs, differential against the host's C compiler", LNOTE, files=LCC, observe=["values and text the program passes to the host"]),
P("L04", "Aggregates, pointers and static initialisers behave as in C",
  "For every well-defined program, structures, unions, arrays, bit fields and enumerations of any nesting keep each member apart from all others; initialisers (full, partial, nested, strings, static or automatic) give every member its value and zero the rest; indexing, member access, pointer arithmetic, comparison, structure assignment and addresses of parts reach exactly the object that C names.",
  ["inputs"], "All well-defined programs; explored with up to 8 global objects, 3 levels of nesting and pointers to all of them.",
  "The tests use a few plain arrays and no bit fields, unions or nested initialisers.",
  [("layout and initialisers", "lcc/src/types.c, lcc/src/init.c, lcc/src/decl.c"), ("member access and block copy", "lcc/src/enode.c, lcc/src/bytecode.c"), ("static data", "lcc/src/bytecode.c defconst, defstring, defaddress; q3asm")],
  "property-based testing: generated programs, differential against the host's C compiler", LNOTE, files=LCC, observe=["every scalar member of every object, printed at the end"]),
P("L06", "Float code computes IEEE single precision results",
  "For every well-defined program, float constants, variables, array elements, parameters and results carry the IEEE single precision value; the operators round once per operation, comparisons and conversions between float and the integer types follow C, also mixed with integers and inside conditions.",
  ["inputs"], "All well-defined programs whose results are finite; explored with random constants over the whole range including denormals and zeros of both signs.",
  "The tests print a few float values of one loop.",
  [("constants", "lcc/src/lex.c, lcc/src/sym.c constant, lcc/src/bytecode.c defconst"), ("conversions", "lcc/src/enode.c cast, lcc/src/simp.c"), ("float instructions", "src/vm/vm.c")],
  "property-based testing: generated programs, differential against the host's C compiler bit by bit", LNOTE, files=LCC, observe=["bits of every float the program passes to the host"]),
P("L07", "Calls pass arguments and return results intact",
  "For every well-defined program, each parameter of integer, float, pointer or structure type arrives with the value of its argument converted to the parameter's type, with prototypes and old style definitions, for direct calls, calls through function pointers and tables, and calls nested in arguments or conditions, for recursive calls and for variable argument lists; results including structures come back unchanged, and a call disturbs no local or pending value of the caller.",
  ["inputs"], "All well-defined programs; explored with up to 8 functions with up to 8 parameters.",
  "The tests call functions with one or two integer arguments.",
  [("argument lists", "lcc/src/enode.c call, lcc/src/bytecode.c dumptree, function"), ("structure results", "lcc/src/dag.c, lcc/src/expr.c"), ("frames and argument cells", "q3asm/q3asm.c, src/vm/vm.c")],
  "property-based testing: generated programs, differential against the host's C compiler", LNOTE, files=LCC, observe=["values and text the program passes to the host"]),
P("L02", "Constant expressions have the same value as at run time",
  "For every constant expression without overflow, its value is the same - the one C89 prescribes - wherever it stands: in an initialiser of a static object or array element, as case label, enumeration value, array size, bit field width, in a condition or in ordinary code, with its operands spelt as constants, enumeration constants, sizeof, casts of float constants, or held in variables; and the compiler accepts it in all these places.",
  ["inputs"], "All integer constant expressions; explored up to 4 operators deep.",
  "The tests contain a few literal constants only.",
  [("folding", "lcc/src/simp.c"), ("constants and literals", "lcc/src/lex.c icon, fcon; lcc/src/enode.c cnsttree, consttree"), ("constant contexts", "lcc/src/init.c, lcc/src/stmt.c caselabel, lcc/src/decl.c enumdcl, fields, dclr1")],
  "property-based testing: generated expressions with values computed from the rules of C, metamorphic over the contexts", LNOTE, files=LCC, observe=["values the program passes to the host"]),
P("L05", "Initialisers of every form give each member its value",
  "For every object of static or automatic storage and every initialiser C89 allows for it - with or without inner braces, shorter than the object, strings and wide strings, braces around scalars, trailing commas, address constants of parts of other objects, unknown array sizes, several compatible declarations - each member holds the value written for it, everything else is zero, and automatic objects are initialised anew on each entry.",
  ["inputs"], "All initialised objects; explored with up to 8 globals of up to 3 levels. Static objects of 16 bits, which q3asm refuses, are handed to it as the two bytes the compiler means.",
  "No test has a nested initialiser.",
  [("initialiser parser", "lcc/src/init.c"), ("static data", "lcc/src/bytecode.c defconst, defstring, defaddress, space"), ("declarations and tentative definitions", "lcc/src/decl.c dclglobal, dcllocal"), ("data directives", "q3asm/q3asm.c")],
  "property-based testing: generated programs, differential against the host's C compiler", LNOTE, files=LCC, observe=["every scalar member of every object"]),
P("L09", "Programs split over several files behave like one program",
  "For every well-defined program, its behaviour does not depend on how its objects and functions are spread over source files nor on the order in which these are given to the assembler: external names denote the same object everywhere, also through repeated, incomplete and extern declarations; static functions and objects, block scope statics and string literals stay private to their file.",
  ["inputs", "configurations"], "All well-defined programs and ways to split them; explored with 2 to 5 files.",
  "The tests link one file with one table of system calls.",
  [("linkage", "lcc/src/decl.c, lcc/src/sym.c"), ("import, export, local names", "lcc/src/bytecode.c import, export, defsymbol; q3asm/q3asm.c LookupSymbol, DefineSymbol")],
  "property-based testing: generated programs split at random, differential against the host's C compiler", LNOTE, files=LCC + ["q3asm/q3asm.c"], observe=["values and text the program passes to the host"]),
P("L10", "Layout, names, options and unused code do not change a program",
  "For every valid program, white space, line ends (LF, CR LF), line directives and pragmas, the way string literals are split, and compiling it again leave the assembly code unchanged; renaming identifiers consistently (to names of any length, differing only in case or their last character, or equal to assembler words), adding unused declarations and the options -g, -A, -w, -s and -e leave its behaviour unchanged.",
  ["inputs", "configurations"], "All valid programs and all such changes; explored at random.",
  "The tests compile one fixed text with one fixed command line.",
  [("scanner and input buffers", "lcc/src/lex.c, lcc/src/input.c, lcc/src/string.c"), ("options", "lcc/src/main.c"), ("symbols", "lcc/src/sym.c, lcc/src/bytecode.c, q3asm/q3asm.c HashString")],
  "metamorphic property-based testing of generated programs", LNOTE, files=LCC + ["lcc/src/input.c", "lcc/src/main.c", "lcc/src/string.c", "q3asm/q3asm.c"], observe=["assembly code", "values and text the program passes to the host"]),
P("L08", "The compiler reports violated rules with their position",
  "For every program that violates a constraint or the syntax of C89 in a place, the compiler prints a message with the file and line (as set by line directives) of that place, exactly the prescribed messages and no others for violated constraints, stops after the number of errors given with -e, and ends with a failure status; programs without a violation get no error message and status 0.",
  ["inputs", "configurations"], "All programs with such violations; explored with 230 kinds of violated constraints, 20 kinds of syntax errors and 64 valid forms close to them in random places of random programs.",
  "No test compiles an invalid program.",
  [("messages", "lcc/src/error.c, lcc/src/lex.c, lcc/src/input.c"), ("type rules", "lcc/src/enode.c, lcc/src/expr.c, lcc/src/types.c"), ("declarations and initialisers", "lcc/src/decl.c, lcc/src/init.c, lcc/src/sym.c"), ("statements", "lcc/src/stmt.c")],
  "property-based testing: errors planted into generated programs", NOTE, files=LCC + ["lcc/src/input.c", "lcc/src/error.c", "lcc/src/main.c"], observe=["exit status", "messages"]),
P("L11", "The compiler ends properly on any input",
  "For every input file, valid or not, and every option, the compiler ends in bounded time without crashing, failing an assertion or accessing memory it does not own, and refuses the file only with a message.",
  ["inputs", "configurations"], "All texts; explored with generated programs with up to 30 token changes, random token sequences, nesting up to 300 and changed bytes, under AddressSanitizer.",
  "The tests compile one valid file.",
  [("error recovery", "lcc/src/error.c, lcc/src/expr.c, lcc/src/decl.c, lcc/src/stmt.c, lcc/src/init.c"), ("buffers", "lcc/src/lex.c, lcc/src/input.c, lcc/src/output.c, lcc/src/alloc.c"), ("code generation", "lcc/src/dag.c, lcc/src/bytecode.c, lcc/src/gen.c")],
  "structured fuzzing under AddressSanitizer", NOTE, files=LCC + ["lcc/src/input.c", "lcc/src/error.c", "lcc/src/alloc.c", "lcc/src/output.c"], observe=["exit status", "sanitizer reports", "messages"]),
P("L13", "The compiler warns of suspicious code with its position",
  "For every valid program, the compiler prints a warning with file and line (as set by line directives) for each suspicious construct it knows at the chosen level of -A, and for nothing else; warnings never turn into a failure status, do not change the generated code, and -w silences all of them.",
  ["inputs", "configurations"], "All valid programs with such constructs; explored with 119 forms that deserve warnings and 73 that do not, in random places of random programs.",
  "No test looks at warnings.",
  [("messages", "lcc/src/error.c, lcc/src/input.c"), ("constant expressions", "lcc/src/simp.c, lcc/src/lex.c"), ("declarations", "lcc/src/decl.c, lcc/src/init.c, lcc/src/sym.c"), ("statements and expressions", "lcc/src/stmt.c, lcc/src/tree.c, lcc/src/enode.c, lcc/src/expr.c")],
  "property-based testing: suspicious forms planted into generated programs, against the messages without them", NOTE, files=LCC + ["lcc/src/input.c", "lcc/src/error.c", "lcc/src/main.c"], observe=["exit status", "messages", "generated code"]),
P("L14", "Declarations have the types they spell",
  "For every type that declarators, specifiers, qualifiers, typedefs and parameter lists can spell, the compiler accepts a further declaration, an assignment or an argument exactly if the C rules for compatible types and qualifiers allow it, whatever the spelling, gives the declared name the composite type, and with -P prints declarations of all functions and variables that declare the same types, without changing the code.",
  ["inputs"], "All declared types; explored with up to 5 levels of pointers, arrays and functions over 17 basic and tagged types.",
  "The tests compile one program.",
  [("types", "lcc/src/types.c eqtype, compose, qual, func, typestring, printproto"), ("declarations", "lcc/src/decl.c dclr, dclr1, parameters, specifier, dclglobal"), ("assignment", "lcc/src/enode.c assign, call")],
  "property-based testing against a model of compatible and composite types", NOTE, files=["lcc/src/types.c", "lcc/src/decl.c", "lcc/src/enode.c", "lcc/src/expr.c", "lcc/src/sym.c"], observe=["exit status", "messages", "printed declarations"]),
P("P01", "Macros are replaced as the C standard prescribes",
  "For every source file whose expansion the C89 standard fixes, the preprocessor's output has exactly the prescribed tokens: object-like and function-like macros, nested calls and arguments over several lines, # (spelling, spaces and escapes) and ##, rescanning together with the rest of the file, no expansion of a macro within its own expansion, #undef and identical redefinition, definitions from the command line.",
  ["inputs"], "All such files; explored with up to 14 definitions and 22 lines, chains of up to 60 macros, strings up to 480 characters.",
  "The tests preprocess one fixed program that uses a few simple macros.",
  [("definition and expansion", "lcc/cpp/macro.c"), ("hide sets", "lcc/cpp/hideset.c"), ("scanner", "lcc/cpp/cpplex.c"), ("token rows and their spacing", "lcc/cpp/tokens.c")],
  "property-based testing: generated files against a reference model of macro expansion and gcc -E", CPPNOTE, files=CPPF, observe=["tokens of the preprocessed text", "exit status"]),
P("P02", "Conditional groups are taken exactly when their conditions hold",
  "For every file with correctly nested conditional groups, exactly the lines of the taken groups appear in the output: conditions are computed with the precedence, grouping, signedness and short-circuit rules of C89, defined and macros in them work as prescribed, conditions after the taken group and directives, definitions and text in skipped groups have no effect, whatever the nesting.",
  ["inputs"], "All such files whose conditions have the same truth with 32 and 64 bit long; explored with nesting up to 8 and expressions with up to 60 open parentheses.",
  "The tests contain a handful of #ifdef lines.",
  [("expressions", "lcc/cpp/eval.c eval, evalop, tokval"), ("groups", "lcc/cpp/cpp.c control")],
  "property-based testing: generated files against an independent evaluator", CPPNOTE, files=CPPF, observe=["lines of the preprocessed text", "exit status"]),
P("P03", "Every line of source and headers comes out once, with its position",
  "For every set of source and header files, the text of each appears in the output exactly once per inclusion and in order, headers are found in the directory of the source file and the include directories in the order given, and the line directives of the output, __LINE__ and __FILE__ name the file and line where the text stands, through comments, spliced and empty lines, trigraphs, long lines, #line and calls over several lines, and whether the text comes from files or standard input.",
  ["inputs", "configurations"], "All file sets with line ends LF, lines up to 16000 characters and include depth up to 10; explored with up to 6 files and comments up to 70000 characters.",
  "The tests preprocess three small files and do not look at the line numbers.",
  [("input buffer, comments, splices", "lcc/cpp/cpplex.c gettokens, foldline, trigraph, fillbuf"), ("include files", "lcc/cpp/include.c, lcc/cpp/unix.c"), ("positions", "lcc/cpp/cpp.c process, lcc/cpp/include.c genline")],
  "property-based testing: generated file trees with markers against an independent walk", CPPNOTE, files=CPPF, observe=["preprocessed text with its line directives", "exit status"]),
P("P04", "The preprocessor handles any input without memory errors",
  "For every input text, set of headers and command line, the preprocessor ends by itself with status 0 or 1, reports an error whenever it fails, and never accesses memory outside of its objects, however long the tokens, lines and names, however deep the nesting and however broken the text.",
  ["inputs", "configurations"], "All byte sequences and options; explored by structured random text of up to a few hundred kilobytes with mutations.",
  "The tests preprocess three valid files.",
  [("fixed-size tables and buffers", "lcc/cpp/eval.c, lcc/cpp/macro.c, lcc/cpp/include.c, lcc/cpp/cpplex.c, lcc/cpp/tokens.c, lcc/cpp/unix.c")],
  "structured fuzzing under AddressSanitizer", NOTE, files=CPPF, observe=["exit status", "sanitizer reports", "messages"]),
P("P05", "The preprocessor reports every violated rule with its position",
  "For every file with an error the preprocessor has to diagnose (failing #error, missing header, wrong nesting of groups, malformed directive or expression, conflicting redefinition, wrong number of macro arguments, misplaced # or ##, unterminated literal), it names the file and line, and ends with a failure status; valid files get neither.",
  ["inputs"], "All files with at least one such error; explored with 24 kinds of error in a source file or header.",
  "No test preprocesses an invalid file.",
  [("directives", "lcc/cpp/cpp.c control, error"), ("macros", "lcc/cpp/macro.c dodefine, expand, doconcat"), ("conditions", "lcc/cpp/eval.c"), ("headers", "lcc/cpp/include.c doinclude")],
  "property-based testing: errors planted into generated files", NOTE, files=CPPF, observe=["exit status", "messages"]),
P("L12", "The driver runs preprocessor and compiler as its options say",
  "For every command line of lcc, each input is preprocessed and compiled exactly as if q3cpp and q3rcc were called with the options it passes on (in order, with the fixed ones), the result goes to the file named by -o or derived from the input's name, standard output and messages come through, a failure of any step gives a failure status without stopping the other inputs, and temporary files are private to the process and removed.",
  ["inputs", "configurations"], "All command lines and environments; explored with up to 5 inputs and 8 options.",
  "The tests use one command line.",
  [("options", "lcc/etc/lcc.c main, initinputs, compose, callsys"), ("commands", "lcc/etc/bytecodelcc.c")],
  "property-based testing of command lines against the commands called directly", NOTE, files=["lcc/etc/lcc.c", "lcc/etc/bytecodelcc.c"], observe=["files", "standard output and error", "exit status"]),
P("H01", "The q3vm program runs an image and serves its system calls safely",
  "For every file given to q3vm: if it is a valid image, vmMain runs with argument 0 and its result becomes the exit status; printf and error write exactly the string at the address, memset and memcpy (also overlapping) change exactly the range they name or refuse one that leaves the VM's memory, unknown calls are reported and give 0, and runtime errors end with their code and message after all earlier output. Any other file ends with a failure status and no crash.",
  ["inputs", "programs"], "All files; explored with images of up to 60 system calls and operations in memories up to 128 KB.",
  "The tests run two images whose calls all have valid arguments.",
  [("system calls", "src/main.c systemCalls"), ("image file", "src/main.c loadImage, main"), ("errors", "src/main.c Com_Error"), ("range check and address translation", "src/vm/vm.c VM_MemoryRangeValid, VM_ArgPtr")],
  "property-based testing: generated images against a model of the memory", NOTE, files=["src/main.c", "src/vm/vm.c"], observe=["standard output and error", "exit status", "sanitizer reports"]),
P("G01", "lburg's matchers find a cheapest cover of every tree",
  "For every valid specification of a tree grammar, the generated matcher compiles and computes, for every node of every subject tree and every nonterminal, the lowest cost of any derivation, names a rule that attains it, and gives the subtrees and nonterminals of that rule from left to right; rule numbers, templates, names, options -p and -T and the input and output files are as documented.",
  ["programs", "inputs"], "All specifications with lines up to 8000 characters and trees with costs below 32767; explored with up to 110 rules and trees of about 40 nodes.",
  "No test runs lburg.",
  [("rule and terminal tables", "lcc/lburg/lburg.c term, nonterm, tree, rule"), ("labeller", "lcc/lburg/lburg.c emitlabel, emitcase, emittest, emitcost, emitrecord, emitclosure"), ("reducer tables", "lcc/lburg/lburg.c emitkids, emitnts, emitrule, emitstring, emitstruct"), ("specification parser", "lcc/lburg/gram.y, lcc/lburg/gram.c")],
  "property-based testing: generated grammars and trees against dynamic programming", NOTE, files=["lcc/lburg/lburg.c", "lcc/lburg/gram.c", "lcc/lburg/gram.y"], observe=["costs, rules and kids computed by the generated matcher"]),
P("G02", "lburg reports errors with their line and withstands any input",
  "For every input, lburg ends without a memory error; a specification with an error (undefined, redefined or misused name, inconsistent arity, unreachable nonterminal, duplicate symbol number, computed cost of a chain rule, second start symbol, malformed line, missing quote) is reported with the line and the documented text and gives a failure status, and a valid one gives neither.",
  ["inputs"], "All byte sequences; explored with planted errors of 16 kinds and changed specifications.",
  "No test runs lburg.",
  [("messages", "lcc/lburg/gram.y yyerror, yylex"), ("rules about names", "lcc/lburg/lburg.c term, nonterm, tree, rule, ckreach, main")],
  "property-based testing: errors planted into generated specifications; fuzzing under AddressSanitizer", NOTE, files=["lcc/lburg/lburg.c", "lcc/lburg/gram.c", "lcc/lburg/gram.y"], observe=["exit status", "messages", "sanitizer reports"]),
]
