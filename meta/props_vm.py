VM = ["src/vm/vm.c", "src/vm/vm.h"]
def P(id, title, statement, over, text, why, mech, technique, note, files=VM, state=(), observe=(), level="exploration"):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None},
                technique=technique, note=note, level=level)
VMC = "src/vm/vm.c"
LOADER = "no claim for inputs not generated; sizes bounded as described in the evidence rule; trusts gcc/clang, the host and the model/oracle in /verif/vm"
PROPS = [
P("V01", "Every opcode computes its documented result",
  "For every well-formed bytecode image, running it gives exactly the return value, the sequence of system calls and the final memory contents that the documented meaning of the instructions prescribes (32-bit wrap-around integers, signed and unsigned variants, IEEE single floats, masked memory, calls, frames and branches).",
  ["programs", "inputs"], "All well-formed images and all argument values of the entry point; explored by random programs of up to some thousand executed instructions.",
  "The tests run two fixed programs; most operand values, opcode combinations, stack depths and branch conditions never occur.",
  [("interpreter loop, one block per opcode", VMC + " VM_CallInterpreted"), ("jump target translation", VMC + " VM_PrepareInterpreter")],
  "property-based testing: generated programs against an independent reference model", "Differential against a from-scratch model; " + LOADER,
  observe=["VM_Call result", "system call trace", "VM data memory"]),
P("V02", "Bytecode cannot escape the sandbox",
  "Whatever bytecode an accepted image contains and whatever arguments its calls and system calls get, running it reads and writes nothing of the host but the memory the VM allocated for its data, changes neither its code nor the image, and never crashes or traps the host process; the address helpers never hand the host a pointer outside of the VM's memory.",
  ["programs", "inputs"], "All accepted images, including hostile ones with wild addresses, frames, return addresses, sizes, jump targets, divisions and recursion through system calls.",
  "The tests contain one or two deliberate violations with fixed values; an escape needs a specific address, frame size or opcode sequence.",
  [("data mask on loads, stores and the program stack", VMC + " VM_CallInterpreted"), ("range checks of block copy, jump, call and leave", VMC), ("address translation", VMC + " VM_ArgPtr, VM_MemoryRangeValid")],
  "fuzzing with structured hostile programs under inaccessible guard regions and AddressSanitizer", "Escapes are observed as faults or changed bytes; " + LOADER,
  observe=["guard pages", "sanitizer reports", "host memory around the allocations"]),
P("V03", "Loading any byte string is safe and accepts exactly well-formed images",
  "Given any byte string as an image, loading either succeeds or returns an error after reporting it; it never reads outside of the given bytes, never writes to them and leaks nothing. A string with a malformed header, sections outside of the file, an unknown opcode, a cut off instruction or a branch to a non-existent instruction is refused, and a well-formed image is accepted.",
  ["inputs"], "All byte strings up to and beyond the size limit; explored by mutating well-formed images and by random bytes.",
  "The tests load a handful of fixed broken files; each header field, length and offset has its own boundary values.",
  [("header validation", VMC + " VM_LoadQVM"), ("instruction scan", VMC + " VM_PrepareInterpreter")],
  "fuzzing: mutated images against an independent accept/reject predicate, guard pages and AddressSanitizer", LOADER,
  observe=["VM_Create result", "Com_Error", "guard pages around the image"]),
P("V04", "A loaded image is laid out in memory as the file says",
  "After loading, the VM memory contains the data section, then the literals, then zeros; its size is the smallest power of two that holds all sections, every byte of it is readable and writable by bytecode, and it does not depend on the order of or gaps between the sections in the file.",
  ["inputs", "configurations"], "All section sizes, orders and gaps, in particular around powers of two.",
  "The tests load two images with one layout each.",
  [("allocation, copy and mask", VMC + " VM_LoadQVM")],
  "property-based testing: generated layouts, memory compared byte by byte", LOADER, observe=["VM data memory", "loads and stores of bytecode"]),
P("V05", "Invalid operations are always detected and reported",
  "A run that jumps or calls to a non-existent instruction, returns to an overwritten return address, executes an undefined instruction, divides an integer by zero, copies a block that leaves the memory or ends with an unbalanced operand stack is reported to the host's error callback with an error code stored in the VM, at that point and not later; nothing is reported for runs without such an operation.",
  ["programs", "inputs"], "All programs with such an operation at any place, reached for some arguments and not for others.",
  "The tests trigger three of these conditions, each in one place.",
  [("checks in OP_CALL, OP_JUMP, OP_LEAVE, division, VM_BlockCopy", VMC), ("stack check at the end of a call", VMC + " VM_CallInterpreted")],
  "property-based testing with planted faults: the model predicts where the run must stop", LOADER, observe=["Com_Error", "lastError", "state after the error"]),
P("V06", "Calls compose: any history of calls on a VM behaves like the model's",
  "For every sequence of entry point calls on one VM, including calls from within system calls and calls that fail, all thirteen arguments reach the bytecode, static memory persists from call to call, and each call gives the result that the sequence of earlier calls prescribes; a failed call leaves the VM usable.",
  ["histories"], "All histories of calls with nesting; explored up to 10 different calls, bursts of over 100 failing calls and nesting depth 3.",
  "The tests make two calls and one nested call; failing calls inside a history never occur.",
  [("argument frame and program stack", VMC + " VM_Call, VM_CallInterpreted")],
  "stateful property-based testing against a model", LOADER, observe=["VM_Call results", "VM data memory"]),
P("V07", "System calls transport identifier, arguments and result exactly",
  "Every call of the bytecode to a negative address invokes the host callback exactly once, in order, with this VM, the identifier and up to fifteen 32-bit arguments (integers or float bit patterns, sign extended); the low 32 bits of the callback's result arrive in the bytecode, and values on the operand stack below the call survive.",
  ["programs", "inputs"], "All identifiers, arities, argument and result values.",
  "The tests use four identifiers with up to four arguments.",
  [("system call branch of OP_CALL", VMC + " VM_CallInterpreted"), ("float helpers", VMC + " VM_IntToFloat, VM_FloatToInt")],
  "property-based testing", LOADER, observe=["system call callback"]),
P("V08", "Host helpers accept exactly ranges inside the VM memory",
  "For every address, length and memory size, the range check refuses each range that is not completely inside of the VM memory (also when address plus length wraps around) and accepts each non-null range that ends before the end of it, and address translation always gives a pointer into that memory equal to base plus address for valid addresses.",
  ["inputs"], "All addresses, lengths and memory sizes.",
  "The tests check a few fixed ranges of one VM.",
  [("range and address helpers", VMC + " VM_MemoryRangeValid, VM_ArgPtr")],
  "property-based testing against 64-bit interval arithmetic", LOADER + "; a range that ends exactly at the end of the memory may be refused or accepted", observe=["VM_MemoryRangeValid", "VM_ArgPtr"]),
P("V09", "VM instances do not influence each other",
  "With several VMs in one process, running, failing, freeing, reloading or calling one of them (even from a system call of another) changes nothing in the results, system calls and memory of the others.",
  ["histories", "programs"], "All interleavings of operations on several VMs; explored with 2 to 4 VMs.",
  "The tests only ever have one VM alive.",
  [("all interpreter state is in the vm structure and on the stack", VMC)],
  "stateful property-based testing: each VM against its own model", LOADER, observe=["results", "traces", "memory of all VMs"]),
P("V10", "Allocation failures are reported and nothing leaks or is freed twice",
  "Whichever allocations fail while loading, loading returns an error after reporting the failure, releases everything it had allocated and leaves a structure on which call and free are harmless; over every history of loads, calls and frees each block is released exactly once, with the type and VM it was requested for.",
  ["fault_sequences", "histories"], "All subsets of failing allocations in all histories of up to 14 operations on up to 3 VMs.",
  "The tests fail allocations one by one in a single load.",
  [("error paths", VMC + " VM_Create, VM_LoadQVM, VM_PrepareInterpreter"), ("release", VMC + " VM_Free")],
  "stateful property-based testing with injected allocation failures", LOADER, observe=["Com_malloc/Com_free log", "return codes", "lastError"]),
P("V11", "All build configurations of the interpreter behave the same",
  "The same image with the same arguments gives the same results, errors, system calls and memory in every build of the interpreter: computed gotos or switch dispatch, optimised or not, with or without the debug option.",
  ["configurations", "programs"], "All programs; five builds.",
  "The tests run one build.",
  [("two dispatch mechanisms, debug-only checks", VMC + " USE_COMPUTED_GOTOS, DEBUG_VM")],
  "differential property-based testing of five builds", LOADER, observe=["results", "errors", "traces", "memory"]),
P("V12", "API misuse is refused with the documented error",
  "For every history of API calls, operations on a null, unloaded or freed VM, loading without a callback or without valid bytecode, and freeing a running VM are refused with their documented error code, reported once to the callback and kept as the VM's last error, and they do not disturb what the VM or others were doing.",
  ["histories"], "All histories of API calls on two VM structures, with system calls that free or call VMs.",
  "The tests make each misuse once, in isolation.",
  [("guards at the start of each API function", VMC + " VM_Create, VM_Call, VM_Free, VM_ArgPtr")],
  "stateful property-based testing against a small state model", LOADER, observe=["return codes", "Com_Error", "lastError", "allocation log"]),
P("V13", "Bytecode observes nothing of the host but its inputs",
  "Everything observable of a run (results, system call arguments, errors, final VM memory) is determined by the image, the call arguments and the system call results: it never depends on what the host's stack, registers or heap happened to contain.",
  ["programs"], "All accepted images, including those that use values they never computed.",
  "A test compares results with constants; leftovers of the host only show when a program reads them and the leftovers change.",
  [("initialised operand stack", VMC + " VM_CallInterpreted"), ("zeroed data memory", VMC + " VM_LoadQVM")],
  "metamorphic fuzzing: two runs that differ only in host leftovers", LOADER, observe=["results", "traces", "memory"]),
P("V14", "The debug build survives any map file and changes no result",
  "With the debug option, loading, running and profiling a VM next to any file as its symbol map (well-formed or not) commits no memory error and leaks nothing, and the run gives the same result, system calls, errors and memory as the normal build.",
  ["inputs", "configurations"], "All map files, missing or of any content, with failing symbol allocations, at all debug levels.",
  "The debug build is not part of the tests.",
  [("map file parser", VMC + " VM_LoadSymbols, COM_Parse, loadImage"), ("profile output", VMC + " VM_VmProfile_f")],
  "fuzzing of map files under AddressSanitizer with a differential oracle", LOADER, observe=["sanitizer reports", "results", "allocation log"]),
P("V15", "Trace and profile of the debug build describe the run",
  "With the debug option and a map file as the assembler writes it next to the image, the VM loads the symbols of the code segment; VM_VmProfile_f then prints each of them, in ascending order, with the exact number of instructions executed since the last profile while the function it begins was running, their share and the total; at debug level 1 the trace shows, in order, each function entered and returned to by its symbol and each system call, at level 2 each instruction by its name, with the depth of calls and of the operand stack.",
  ["inputs", "histories", "configurations"], "All programs, map files with symbols in ascending order, call histories and debug levels; symbols directly behind an OP_ENTER and names of more than 1000 characters are left out.",
  "The debug build is not part of the tests.",
  [("symbol loading", VMC + " VM_LoadSymbols"), ("symbol lookup", VMC + " VM_ValueToSymbol, VM_ValueToFunctionSymbol"), ("trace", VMC + " VM_CallInterpreted"), ("profile output", VMC + " VM_VmProfile_f")],
  "model-based testing: the output of the debug build against a trace of the reference model", LOADER, observe=["standard output"]),
]
