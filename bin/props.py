"""Per-property configuration of the checks."""
TCB = ("trusted: g++/clang++ builds of /repo's library sources, the harness's coroutine scheduler and in-memory network "
       "stand-in, the harness's reference circuit interpreter")
GC_ASSUME = ["compiled from /repo's working tree at -O2, default project options (logging on)",
             "both parties run as coroutines in one process over an in-memory stream; RSA keys come from a fixed pool of two",
             TCB]
UTIL_ASSUME = ["compiled from /repo's working tree at -O2, default project options", TCB]
PROPS = {}


def prop(pid, level, technique, note, bounds, module="gc", assumptions=None, **kw):
    PROPS[pid] = dict(level=level, technique=technique, note=note, bounds=bounds, module=module,
                      assumptions=assumptions or GC_ASSUME, **kw)


MC = "explicit-state model checking: "
REPLAY = ("; every trace of the model (reference interpreter of circuit, registers, outputs and termination) "
          "is replayed on the real two-party implementation and compared")
EX = "bounded exhaustive enumeration of the implementation's executions: "

prop("C01", "model_checking",
     MC + "breadth of circuits x all input assignments" + REPLAY,
     "Exhaustive inside the stated circuit families and all their input assignments (run as consecutive cycles); circuits "
     "outside them are only covered through the small scope they are built from and through structured large families.",
     {"quick": "all 1-gate circuits over {2 public, 2 garbler, 2 evaluator wires, constants}; all 2-gate circuits with a "
               "dependent second gate; 3-gate circuits over {AND,XOR,ORN}; input widths 1..300 around 128/256; packed grids of "
               "all gate types; circuits whose wires, inputs, outputs, gates or readers of one wire cross 8 and 16 bits; gates that only feed unread gates; sessions of hundreds and tens of thousands of cycles; chains of up to 70000 gates; chains of 400000 gates that a public bit makes needless in every other cycle; "
               "all input assignments",
      "thorough": "as quick with the full 2-gate family, 3-gate circuits over seven types and more chains"})
prop("C02", "model_checking",
     MC + "circuits x inputs x the four memory/transfer combinations" + REPLAY,
     "The four combinations are run on every circuit and compared with the model and so with each other.",
     {"quick": "1-gate, reduced 2-gate and register families x 4 combinations x all inputs; label counts on both sides of 128 "
               "and of 768; 66000 transferred labels; circuits and cycle counts past 16 bits", "thorough": "full 2-gate and level-1 register families x 4 combinations"})
prop("C03", "model_checking",
     MC + "output lists x masks x modes" + REPLAY,
     "Both parties' revealed values are compared bit by bit with the model's owner assignment in every cycle.",
     {"quick": "all ordered lists of up to 3 of 12 kinds of output (private, public, constant, input, register, duplicate ...) "
               "x all masks x low memory x oblivious transfer; lists up to 66000 bits with structured masks; short masks",
      "thorough": "all ordered lists of up to 4 kinds"})
prop("C04", "model_checking",
     MC + "output widths x cycle counts x modes x masks" + REPLAY,
     "The printed result string is compared with the model's.",
     {"quick": "22 widths from 1 to 257 x cycle counts to 9 x 3 modes x 2 memory modes x 4 masks x 8 bit patterns; every value "
               "of outputs of up to 3 bits over up to 3 cycles; widths to 33000; 255..300 and 66000 cycles", "thorough": "cycle counts to 12"})
prop("C05", "model_checking",
     MC + "terminate signals x periods x all driving histories" + REPLAY,
     "Executed cycle counts and outputs of both parties are compared with the model; message order is checked by the run ending.",
     {"quick": "~14 kinds of terminate signal (public, constant, private, register, gate, input) x cycle limits to 5 x periods "
               "0..4 x all driving histories to 9 bits; counters of 2..4, 9 and 17 bits; periods of 256 and 65536; 4 memory/transfer combinations",
      "thorough": "cycle limits to 7 and driving histories to 11 bits"})
prop("C06", "model_checking",
     MC + "circuits x inputs x options, replayed on the plaintext evaluator (result and wire dump)",
     "Same families as C01 with the wire-value dump compared cell by cell.",
     {"quick": "the C01, register and terminate families; dump of every named wire in each completed cycle; wide circuits and long sessions past 16 bits",
      "thorough": "full families"}, module="scd", assumptions=UTIL_ASSUME)
prop("C07", "model_checking",
     MC + "enumerated netlists; the model is a direct interpreter of the netlist text, the implementation's trace is its "
     "translation run by the reference circuit interpreter on all inputs and cycles",
     "Exhaustive inside the netlist families; the harness also requires the translation to succeed and keep the port layout.",
     {"quick": "every cell x pin x kind of source; ordered pairs of cells in both file orders; flip-flops with all D/Q/I kinds; "
               "ports of widths to 130 and at 255..257, 1024, 65535..66000; assignment chains in all statement orders; terminate drivers; chains of up to 200000 cells of seven kinds",
      "thorough": "larger pair families and all permutations of longer assignment chains"}, module="scd", assumptions=UTIL_ASSUME)
prop("C08", "model_checking",
     MC + "all Bristol circuits up to 3 gates; model = interpreter of the Bristol text, implementation = its translation",
     "Exhaustive for tiny circuits, structured for large ones.",
     {"quick": "all circuits of up to 3 gates (AND, XOR, INV) over 3 inputs, all splits of inputs between the parties, adders and arrays to "
               "22000 bits, chains of up to 200000 gates", "thorough": "larger adders and 3-gate circuits with all output choices"}, module="scd", assumptions=UTIL_ASSUME)
prop("C09", "model_checking",
     MC + "all circuits of the families are written and read back; every field compared with the original",
     "Field-by-field comparison plus the map file against the wire numbering.",
     {"quick": "all circuit families in 3 storage orders of headers; every header count around its bounds; maps of the netlist "
               "families; circuits past 16 bits", "thorough": "full families"}, module="scd", assumptions=UTIL_ASSUME)
prop("C10", "model_checking",
     MC + "paired executions of the real garbler on every circuit and input differing in one bit; the offset they disclose is "
     "searched for in every 16-byte window and pair of windows of the traffic",
     "The offset is obtained from the garbler itself (same seed, one private input flipped), so the oracle does not read its "
     "internals. Cryptographic strength is outside model checking and assumed.",
     {"quick": "all one- and two-gate and register circuits, reuse sessions; circuits and cycle counts past 8 and 16 bits; permute bits over 128 seeds",
      "thorough": "full families; permute bits over 256 seeds"}, module="priv")
prop("C11", "model_checking",
     MC + "all private input assignments of every circuit of the family; the message sequence (direction, size) of every pair of "
     "executions is compared (self-composition)",
     "All assignments up to 8 private bits per circuit; several seeds per circuit.",
     {"quick": "one-gate, two-gate and register circuits x modes x all private assignments; sessions with 4 seeds; wide and long sessions on a few assignments",
      "thorough": "full families, 7 further assignments on large circuits"}, module="priv")
prop("C12", "model_checking",
     MC + "a model computing the necessary garbled gates of each circuit and public input bounds the bytes the real garbler sends",
     "The model is exact for gates with public, constant, equal or inverted inputs and for reachability of outputs.",
     {"quick": "one-, two- and three-gate, register and terminate families x public inputs x cycles x memory modes; gates that only feed unread gates; fanouts, circuits and cycle counts past 8 and 16 bits",
      "thorough": "full families"}, module="priv")
prop("C13", "model_checking",
     EX + "all choice vectors x message patterns x randomness kinds of the real two-party protocol",
     "Choice vectors exhaustive up to the stated length.",
     {"quick": "lengths to 6 with all choice vectors x 8 message patterns x 4 kinds of randomness; message widths to 2048; "
               "lengths to 520", "thorough": "lengths to 8"}, module="ot")
prop("C14", "model_checking",
     EX + "all choice vectors of the real extended protocol, all lengths around its block sizes",
     "Choice vectors exhaustive up to the stated length; structured beyond.",
     {"quick": "lengths to 7 with all choice vectors; lengths to 2049 around 8, 80, 128, 768, and 4097, 65537, 70001; widths 1..256",
      "thorough": "lengths to 9"}, module="ot")
prop("C15", "model_checking",
     EX + "for every choice vector and every other choice vector the exact receiver randomness witnessing the same sender's view "
     "is constructed and replayed; pads recomputed and compared over all transfers",
     "Witness existence is exact for the base protocol; the extension's masking is checked structurally. Computational "
     "indistinguishability of the hash is assumed.",
     {"quick": "base lengths to 3 with all pairs of choice vectors; extension lengths to 1100; sessions",
      "thorough": "base lengths to 4"}, module="ot")
prop("C16", "fault_enumeration",
     "fault enumeration under a controlled operating system stand-in: all sequences of answers (short, full, interrupted, end, "
     "error) to every read and write of a transfer",
     "Exhaustive per transfer up to the stated length; beyond it all schedules with few deviations.",
     {"quick": "all answer sequences for transfers of up to 7 bytes, up to 2 deviations to 40 bytes, transfers of up to 2^24+1 bytes, exchanges "
               "x buffer capacities x fragmentation", "thorough": "transfers of up to 9 bytes"}, module="net",
     rule="every choice point (answer of send/recv) branches over all its outcomes in depth-first order until the tree is done; "
          "beyond the exhaustive length, all trees with at most the stated number of non-default answers")
prop("C17", "fault_enumeration",
     "fault enumeration: one connection fault of each kind at every transport operation of each party of every session of the pool",
     "Exhaustive in the position and kind of a single fault for the session pool.",
     {"quick": "~30 sessions x 2 parties x every I/O operation x 7 kinds of fault (extension sessions at reduced positions)",
      "thorough": "all positions of all sessions"}, module="net",
     rule="for each session the fault-free run counts the transport operations of each party, then one run is made per (party, "
          "operation, fault kind)")
prop("C18", "model_checking",
     "stateless model checking of the two real parties under a controlled scheduler and transport: preemption-bounded "
     "interleavings x buffer capacities x fragmentation",
     "All schedules within the preemption bound; the only shared state is the stream, so the bound is on its operations.",
     {"quick": "capacities {unbounded,1,2,3,8,16,17,48,64} x 3 kinds of fragmentation x up to 2 preemptions on the session pool",
      "thorough": "more capacities and one more preemption"}, module="net")
prop("C19", "model_checking",
     EX + "numbers and labels x stream fragmentation through the real send and receive code",
     "All small byte patterns, structured large ones.",
     {"quick": "numbers of 0..1100 bits and up to 600000 x patterns (zero, one, powers, leading zero bytes, all ones) x fragmentation; labels with "
               "every byte position", "thorough": "numbers to 2100 bits"}, module="ot")
prop("C20", "exploration", EX + "conversion functions on all values of small widths and all lengths around word boundaries",
     "Compared with independently written conversions in the harness.",
     {"quick": "all values of widths up to 10 bits, all lengths to 300 with structured values, all small matrices",
      "thorough": "all values to 14 bits and larger matrices"}, module="util", assumptions=UTIL_ASSUME,
     rule="every (width, value) pair up to the width bound, then for each greater width a fixed list of structured values (0, 1, "
          "all ones, single bits, alternating), each through every conversion and back")
prop("C21", "exploration", EX + "all digit strings of small length, every byte value at every position, every declared length; files",
     "Compared with an independently written parser of the documented format.",
     {"quick": "all strings of up to 3 characters over the accepted and a set of rejected characters x lengths; all 256 byte "
               "values at each position; files with every split into lines; files with lines of every size around a power of two up to 64k", "thorough": "strings of up to 4 characters, lines of up to 1M characters"},
     module="util", assumptions=UTIL_ASSUME,
     rule="every string over the alphabet up to the length bound x every requested bit length up to 4n+5, then structured long "
          "strings; each also as a file split at every position")
prop("C22", "model_checking",
     EX + "gate types x label relations x all permute bits x all values on the real garbling and evaluation functions",
     "Labels are samples (24 or 400 sets), the finite part (types, relations, colours, values) is exhaustive.",
     {"quick": "11 types x 24 label sets x 7 relations x 4 colourings x 4 values x identifiers", "thorough": "400 label sets"},
     module="gate", assumptions=UTIL_ASSUME)
prop("C23", "exploration", EX + "keys (of all three lengths, placed at the end of mapped memory) and blocks of structured families against an independent AES from the standard",
     "Every byte value at every position of key and block; every number of blocks per call.",
     {"quick": "standard vectors; keys of 128, 192 and 256 bits: every byte value x position (quick: every fifth) of key and of block; every single bit; calls of 0..70 blocks; encryption and decryption",
      "thorough": "more keys per block family"}, module="util", assumptions=UTIL_ASSUME,
     rule="(position, byte value) pairs in key and in block over several base vectors, all one-bit keys and blocks, "
          "all call sizes; compared with a table-free reference implementation")
prop("C24", "exploration",
     EX + "bundled programs compiled natively from source, and the shipped memory images on an ARMv2a interpreter, on all small "
     "and structured inputs",
     "All inputs inside the generator's small scope; outputs compared with independently written functions.",
     {"quick": "13 programs: all inputs over small alphabets plus word-boundary values; images on a fixed stride of the same inputs",
      "thorough": "larger alphabets; images on all inputs"}, module="a23", a23=True, assumptions=UTIL_ASSUME,
     rule="per program: the full cross product of a list of boundary words over its inputs (all permutations and duplicates for "
          "sorting, all small graphs for shortest paths, all single and double bits for ciphers); images use every k-th tuple")

prop("C25", "exploration",
     "the explorers of the other checks rerun on an AddressSanitizer build; only memory error reports count",
     "Covers every execution those explorers make, with red zones; uninitialised reads are C27's subject.",
     {"quick": "the quick executions of C03-C09, C13-C17, C19-C24, C28, C30, C31 (one in six of the largest sessions)", "thorough": "also C01, C02, C27 and the "
      "plaintext part of C28, all at thorough bounds"},
     memonly=True, variant="asan", hang=120,
     rule="same enumerations as the listed checks; a case is a violation if AddressSanitizer reports an error during it",
     parts=[{"prop": p, "module": m} for p, m in (
         ("C03", "gc"), ("C04", "gc"), ("C05", "gc"), ("C28", "gc"), ("C30", "gc"), ("C16", "net"), ("C17", "net"),
         ("C06", "scd"), ("C07", "scd"), ("C08", "scd"), ("C09", "scd"),
         ("C13", "ot"), ("C14", "ot"), ("C15", "ot"), ("C19", "ot"), ("C20", "util"), ("C21", "util"), ("C23", "util"),
         ("C22", "gate"), ("C31", "cfg"), ("C24", "a23"))]
         + [{"prop": p, "module": m, "thorough_only": True} for p, m in (("C01", "gc"), ("C02", "gc"), ("C28P", "scd"))]
         + [{"prop": "C27", "module": "priv", "thorough_only": True}])
prop("C26", "exploration",
     "bounded exhaustive enumeration of command lines run as real processes over loopback, output and exit status compared with "
     "an independent interpreter of the circuit files",
     "All combinations of the option values listed; one run per combination (scheduling of the real processes is the kernel's; C18 "
     "covers schedules).",
     {"quick": "1726 command lines of the four programs", "thorough": "8763 command lines"},
     py="cli", assumptions=["the programs are built from /repo's working tree with the project's default options",
                            "two processes per session over the loopback network", "trusted: the Python circuit interpreter"],
     rule="cross product of circuits, input forms (hexadecimal, file, absent), init, cycle count, mask, output mode, terminate "
          "period, memory and transfer options; for invalid usage one case per malformed value of each option")
prop("C27", "model_checking",
     EX + "heap contents before allocation and seeds are the explored environment; results and bytes of all executions compared",
     "Two-party sessions, plaintext evaluation (result and wire dump) and both translators; an allocator stand-in fills every fresh "
     "block with the chosen content.",
     {"quick": "session pool and circuit families x heap fillings (0x00, 0xff, 0xaa, 0x01, 0x5b) x seeds; plaintext runs with every "
               "terminate kind and mode; every netlist of C07's and C08's quick families translated under 4 fillings; wide and long sessions",
      "thorough": "full families and more seeds"},
     parts=[{"module": "priv", "pre": "mem:"}, {"prop": "C27P", "module": "scd", "pre": "p"}])
prop("C28", "model_checking",
     MC + "register circuits x de Bruijn input histories (all histories of the register depth)" + REPLAY,
     "Covers two-party execution in all memory/transfer modes and the plaintext evaluator.",
     {"quick": "register families with every kind of D and I wire, every initial value, shift registers to 129 bits; circuits with up to 66000 registers",
      "thorough": "level-1 families with three registers"},
     parts=[{"pre": "gc:"}, {"prop": "C28P", "module": "scd", "pre": "pt:"}])
prop("C29", "model_checking",
     MC + "sessions that keep labels across cycles and gates; every 16-byte aligned message of the traffic compared with all others",
     "Repetition is decided on the actual bytes of every execution.",
     {"quick": "reuse sessions (registers holding values, equal gates on equal labels, three-way cancellation), 66000 cycles, 140000 gates, "
               "pairs of seeds", "thorough": "more circuits and seeds"}, module="priv")
prop("C30", "model_checking",
     EX + "all ordered sequences of sessions of the pool over one connection",
     "Sequence length is the bound; the pool covers every option.",
     {"quick": "all ordered pairs and a reduced set of triples of the session pool", "thorough": "all triples, reduced quadruples"})
prop("C31", "exploration",
     EX + "malformed requests: circuit files cut at every token, malformed strings in every field and option, netlists and Bristol circuits with loops, cuts, undriven or doubly driven wires, wrong pins, cells and counts",
     "A refused request must be reported as failure; a crash or hang is a violation.",
     {"quick": "cuts of several circuit files at every token; bad strings x fields x options; loops of length up to 24 x 6 cells; "
               "cell kind x pin x 8 faults x 3 places; netlists and Bristol circuits cut after each token; "
               "circuit files with each number replaced by 18 others; missing inputs and files", "thorough": "loops to 60 and more files"}, module="cfg",
     rule="every token prefix of every circuit file of the list, every (field, malformed string, option) triple, every loop "
          "length x cell kind x position")

HDL = ["the Verilog front end of /verif/bin (elaboration to gates, executed on bit planes), which C34's jobs bind to the real translator, evaluator "
       "and two-party programs", "registers take their reset value in the first cycle, as the asynchronous reset of the library flip-flop gives"]
prop("C32", "exploration",
     "bounded exhaustive enumeration of circuit executions: every hardware description is elaborated from its source and run, many input vectors "
     "at a time, on all inputs of small parameter values and a grid of boundary values for larger ones, against independent definitions",
     "Exhaustive for the small parameter values stated; larger widths through grids of boundary values. The commercial blocks behind div/ "
     "and float/ have no source: stand-ins decide how the wrappers connect them.",
     {"quick": "library cells and arithmetic with all operands up to 6 or 8 bits and boundary grids to 64 or 128; sum, compare, hamming, mult and "
               "matrix_mult in every supported split into cycles; AES and SHA3 against reference ciphers over boundary states; modmult, modexp, knns, "
               "stable match, argmax, encoder, cordic, stack machine on all inputs of small instances",
      "thorough": "wider exhaustive operands, more parameter values, all start values of undefined state"},
     py="hdl", assumptions=HDL,
     rule="all input vectors of the exhaustive instances; all pairs of boundary values (0, 1, all ones, single bits, alternating) of the wide ones; "
          "an input history of one elaborated design counts once")
prop("C33", "exploration",
     "bounded exhaustive enumeration of instruction encodings, operands and instruction sequences run on the elaborated processors, every lane "
     "compared with an independent instruction-level interpreter; the documented flow replayed on the real programs",
     "Every instruction form with boundary operands, all sequences of three instructions of a pool, and the shipped programs; interrupts, "
     "coprocessors, SWI, SWP (not in the cores) are outside.",
     {"quick": "MIPS: all instructions x boundary operands, all register pairs, sequences, shipped hamming program; ARM: 16 operations x shift "
               "forms x operands x flags, all conditions x flags x instruction kinds, all addressing modes, multiple transfers, branches, calls and "
               "recursion, 4096 triples; nine shipped images; processor netlist through translator, evaluator and two parties",
      "thorough": "all 32 shift amounts of every kind, all flag patterns, larger sequence pool, two longer images, more programs through two parties"},
     py="hdl", assumptions=HDL, rule="cross products as listed; one program with its memory contents counts once")
prop("C34", "exploration",
     "bounded exhaustive enumeration: all inputs of every library cell, techmap cell and arithmetic macro; whole designs translated by the real "
     "tools and compared with the design on enumerated input histories, in the plaintext evaluator and between two real processes",
     "Cells are exhaustive; macros exhaustive to the stated width; designs on enumerated histories.",
     {"quick": "techmap macros to 5 and 6 bits, every cell of three liberty files and of the simulation library, 21 designs up to 31000 cells",
      "thorough": "techmap macros to 7 bits"},
     py="hdl", assumptions=HDL + ["two processes per session over the loopback network"],
     rule="cross products as listed; one input history of one design counts once")
prop("C35", "model_checking",
     EX + "the explorers of the other checks rerun on every build configuration of the project; each execution's return values, results, files and bytes on the wire "
     "compared with the same execution of the default build",
     "Every execution those explorers make (the largest sessions left out), in each configuration; self-composition over configurations.",
     {"quick": "the quick executions of C03, C05-C09, C13, C14, C16, C17, C19-C23, C28, C30, C31 x {default, debug without optimisation, release without logging}, and of C03, "
               "C05, C13, C22, C28, C30 with the dump feature compiled in", "thorough": "also C01, C02, C10, C12, C15 and the plaintext part of C28"},
     py="variants", assumptions=["compiled by g++ from /repo's working tree with the project's options of each configuration (debug: -O0 -DDEBUG with logging; release: -O3 "
                                 "-DNDEBUG without logging; dump: ENABLE_DUMP, -O1 -DDEBUG)", TCB])
prop("C36", "exploration",
     "bounded exhaustive enumeration of sessions of the main program built with the dump feature, as real processes; both parties' dump files compared with each other and "
     "with an independent interpreter of the circuit",
     "All combinations of the option values listed; the labels of public wires mean nothing and are not compared.",
     {"quick": "5 circuits x 2 inputs x cycle counts {1,2,5,9,30} x transfer x memory modes x terminate periods x {own directory, shared directory, with and without a slash at the end}; builds and runs "
               "without the feature write nothing", "thorough": "six input assignments, cycle counts to 100"},
     py="dump", assumptions=["the program is built from /repo's working tree with ENABLE_DUMP", "two processes per session over the loopback network",
                             "trusted: the Python circuit interpreter"],
     rule="cross product as listed")

prop("C37", "fault_enumeration",
     "stateless model checking of the connection functions on the real loopback interface: all histories of operations to a depth x all placements of failing operating-system calls up to a "
     "bound, descriptor table and traffic compared with what each operation may do",
     "Exhaustive in histories and fault placements within the bounds; one port and loopback addresses stand for all.",
     {"quick": "all histories of up to 3 of 13 operations (server with a client that stays or leaves, two clients, port in use, client by address, name and other address, server that leaves, nobody "
               "listening, ports out of range) x descriptor 0 open or closed x every placement of one failing call (two in histories of 2 operations, four in those of one) x 2-4 kinds of failure",
      "thorough": "histories of up to 4 operations, two failing calls in those of up to 3"}, module="conn",
     rule="depth-first over the answers of every operating-system call the library makes (success or a kind of failure), bounded in the number of failures",
     assumptions=["g++ builds of /repo's library from the working tree", "the operating system's loopback sockets", TCB])
