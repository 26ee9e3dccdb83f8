#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below. Run after editing it."""
import importlib, json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

TECHNIQUE = "deterministic simulation with fault injection"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, hook=None, state=()):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "observe_at": observe, "hook_needed": hook}}, note))


prop("C01", "Collection and object placement never change what a program computes",
     "Whatever the points at which storage is reclaimed, and wherever objects are placed in memory, a program produces the same values, output and errors as it does when nothing is reclaimed. "
     "No object that the program can still reach is reclaimed, and none is released twice.",
     ["programs", "schedules"], "every program; every subset of allocation requests at which a collection may happen; every placement of objects",
     "The tests run each program with one collector schedule (a 16 MiB threshold that most never reach) and one heap layout; a collection between two particular allocations is practically never observed.",
     ["src/kernel/collector.cpp", "include/meevax/kernel/collector.hpp", "include/meevax/memory/allocator.hpp", "include/meevax/memory/pointer_set.hpp", "src/kernel/dynamic_environment.cpp"],
     [("mark and sweep over registered references", "src/kernel/collector.cpp"), ("roots are references outside of every object", "src/kernel/collector.cpp"), ("set of addresses with lower_bound", "include/meevax/memory/pointer_set.hpp")],
     ["values, output and errors of a program run without and with forced collections"],
     "differential: the same generated program without the collector and with seeded collections, placement and base address; freed storage is poisoned",
     "whether a collection happens at an allocation request (MEEVAX_SIMULATION in collector.cpp), and notice of releases (allocator.hpp)",
     [("objects", "addresses of all references", "src/kernel/collector.cpp"), ("data", "addresses of all objects", "src/kernel/collector.cpp")])

prop("C03", "Text is read in full and unchanged however the source delivers it",
     "A program that reads characters, lines, strings or data from a textual source observes exactly the characters of the source and then its end, however many bytes each read of the source delivers, whether reads are interrupted, and whether or not the source can seek. "
     "Peeking any number of times consumes nothing.",
     ["inputs", "schedules"], "every UTF-8 text; every sequence of reading operations; every division of the text into deliveries, with interruptions",
     "The tests read short ASCII files and string ports, which arrive in one piece; characters that straddle a delivery, and sources that cannot seek, are never seen.",
     ["src/kernel/textual_input_port.cpp", "src/kernel/input_file_port.cpp", "src/kernel/standard_input_port.cpp", "src/kernel/input_string_port.cpp"],
     [("decoding of UTF-8 from a byte stream", "src/kernel/textual_input_port.cpp: take_character"), ("one character of look-ahead", "src/kernel/textual_input_port.cpp: peek_character")],
     ["results of read-char, peek-char, read-line, read-string, char-ready? and read on files, pipes, standard input and string ports"],
     "reference model of a character cursor over the text, under seeded chunked, interrupted and non-seekable delivery")

prop("C04", "Bytes are read in full and unchanged however the source delivers them",
     "A program that reads bytes from a binary source observes exactly the bytes of the source and then its end, however many bytes each read of the source delivers; partial and bounded reads report exactly the bytes stored. "
     "Nothing outside of the range given is modified.",
     ["inputs", "schedules"], "every sequence of bytes; every sequence of reading operations; every division into deliveries",
     "The tests read a handful of bytes from memory in one piece; the value that marks the end, ends that fall inside a request, and short deliveries are not combined.",
     ["src/kernel/binary_input_file_port.cpp", "src/kernel/input_u8vector_port.cpp", "library/r7rs.ss"],
     [("bounded reads from a byte stream", "src/kernel/binary_input_file_port.cpp"), ("read-bytevector!", "library/r7rs.ss")],
     ["results of read-u8, peek-u8, u8-ready?, read-bytevector, read-bytevector! on files and bytevector ports"],
     "reference model of a byte cursor, under seeded chunked and interrupted delivery")

prop("C05", "Flushed output is on the disk; closed output is complete and in order",
     "What a program wrote to a port before flushing or closing it is on the storage once that call has returned, in the order written, and stays there if the process or machine stops at any later point. "
     "Output that was not flushed may be missing at its end but is never reordered, repeated or altered.",
     ["schedules", "crash_points", "fault_sequences"], "every sequence of writes, flushes and closes on several ports; every division of the writes by the system; every point at which the machine stops",
     "The tests never stop a process between a write and a close, and the system accepts every write in full.",
     ["src/kernel/output_file_port.cpp", "src/kernel/binary_output_file_port.cpp", "src/kernel/textual_output_port.cpp", "src/kernel/standard_output_port.cpp", "library/r7rs.ss"],
     [("flush and close of buffered streams", "src/kernel/output_file_port.cpp, src/kernel/binary_output_file_port.cpp")],
     ["contents of the simulated disk after each flush, close, and crash"],
     "reference model of each file as written and flushed prefixes, checked at every flush, close and crash point under partial and interrupted writes")

prop("C06", "A failing file operation is reported as a file error, and only then",
     "Each operation on a file or standard input that cannot be carried out (missing or unreadable file, failing read, write, close, open or removal, full disk, no descriptors left) raises an object that satisfies file-error? at the operation or at the close of its port, and the program continues. "
     "Nothing is reported when nothing failed, no failure is mistaken for the end of a file, and no descriptor stays open.",
     ["fault_sequences", "inputs"], "every sequence of file operations and every assignment of failures to the system calls they make",
     "The tests only open a missing file; no read, write or close ever fails under them.",
     ["src/kernel/textual_input_port.cpp", "src/kernel/textual_output_port.cpp", "src/kernel/binary_input_file_port.cpp", "src/kernel/binary_output_file_port.cpp", "src/kernel/environment.cpp", "src/kernel/boot.cpp", "library/r4rs.ss", "library/r7rs.ss"],
     [("stream states become file errors", "src/kernel/textual_input_port.cpp, src/kernel/*_file_port.cpp"), ("file errors", "include/meevax/kernel/error.hpp")],
     ["what guard and with-exception-handler receive, contents of the disk, open descriptors"],
     "seeded errors at the n-th system call on a path, with the outcome required of every operation")

prop("C08", "Dynamic extents are left and entered once each, in order, on every jump",
     "When control moves to a continuation, the after thunks of the extents being left run once each from inside to outside, then the before thunks of those being entered run once each from outside to inside, each with the extents, handlers and parameters of its own dynamic-wind call. "
     "This holds for jumps in and out, repeated re-entry, and jumps, exceptions and captures inside the thunks themselves.",
     ["programs", "schedules", "fault_sequences"], "every nesting of extents and every sequence of jumps and exceptions, including within before and after thunks",
     "The tests walk the two examples of the standard; they never raise or jump inside a thunk, nor re-enter an extent from another top-level form.",
     ["library/meevax.ss", "library/srfi-34.ss", "library/srfi-39.ss", "src/kernel/dynamic_environment.cpp"],
     [("dynamic-wind, unwind! and windup!", "library/meevax.ss: (meevax continuation)"), ("registers of extents, bindings and handlers", "include/meevax/kernel/dynamic_environment.hpp")],
     ["order of logged before, after and body events"],
     "refinement of a reference interpreter on generated programs, with control operations injected at seeded points")

prop("C09", "A continuation resumes exactly the rest of the computation, any number of times",
     "Calling a continuation with one value delivers it to the point of capture and runs the rest of that computation, whether it is called inside its extent, after it returned, from another top-level form, or many times; variables keep the values they have at the time of the call. "
     "Threads of control built from continuations therefore run as their scheduler decides, without disturbing one another.",
     ["programs", "schedules"], "every program that captures and calls continuations, and every order in which threads built from them are resumed",
     "The tests use continuations once, to leave; re-entry and interleavings are sampled by a few fixed generators.",
     ["src/kernel/dynamic_environment.cpp", "include/meevax/kernel/dynamic_environment.hpp", "library/meevax.ss", "src/kernel/continuation.cpp"],
     [("capture and reinstatement of the registers of the machine", "src/kernel/dynamic_environment.cpp"), ("call-with-current-continuation", "library/meevax.ss")],
     ["order of logged events of threads and re-entered computations"],
     "refinement of a reference interpreter; a seeded scheduler decides the interleaving of threads built from continuations")

prop("C10", "A parameter has the innermost value bound where control is",
     "Reading a parameter gives the value bound by the innermost parameterize whose extent control is in, converted exactly once when it was bound, and otherwise its initial value; leaving an extent in any way ends its bindings and re-entering it restores them. "
     "If a conversion raises or jumps, no binding takes effect.",
     ["programs", "schedules"], "every nesting of parameterize with jumps and exceptions, including inside conversions",
     "The tests read parameters inside and after one parameterize that returns normally.",
     ["library/srfi-39.ss", "library/meevax.ss", "src/kernel/dynamic_environment.cpp"],
     [("association list of bindings in a register, installed by dynamic-wind", "library/srfi-39.ss")],
     ["values read at seeded points after jumps, exceptions and thread switches"],
     "refinement of a reference interpreter on generated programs, with control operations injected at seeded points")

prop("C11", "Exceptions reach the right handler, with the right handlers installed",
     "An exception (raised by the program, or by a failing primitive) is given to the innermost handler installed where it was raised, which runs with the outer handlers; returning from it continues raise-continuable and otherwise raises again in the outer handlers. "
     "guard selects its clause outside of its body and, with none, raises again from where the exception came; an exception that no handler takes ends its top-level form only, and the following forms run as if it had not happened.",
     ["programs", "schedules", "fault_sequences"], "every nesting of handlers and guards and every point and kind of exception",
     "The tests raise once in one handler; nested re-raises, handlers that raise or jump, failures of primitives inside thunks, and what follows an uncaught exception are not explored.",
     ["library/srfi-34.ss", "library/srfi-23.ss", "src/kernel/dynamic_environment.cpp", "include/meevax/kernel/dynamic_environment.hpp", "src/kernel/error.cpp"],
     [("stack of handlers in a register", "library/srfi-34.ss"), ("errors of the kernel call the handler", "include/meevax/kernel/dynamic_environment.hpp")],
     ["order of logged events in handlers, clauses and bodies; how each top-level form ends"],
     "refinement of a reference interpreter; exceptions of five kinds injected at seeded points")

prop("C16", "A promise is computed at most once to completion and keeps its first value",
     "Forcing a promise evaluates its expression until it first completes and ever after gives that value, also when the evaluation forces the same promise again, when it is left by a jump or an exception and forced anew, or when it is re-entered. "
     "A promise that stands for another shares its value, so neither is computed twice.",
     ["programs", "schedules", "fault_sequences"], "every graph of promises, and every point at which forcing them is interrupted and resumed",
     "The tests force each promise from one place without interruptions; sharing between promises and resumption after exceptions are not observed.",
     ["library/srfi-45.ss", "library/r7rs.ss"],
     [("promises share a box", "library/srfi-45.ss: promise-update!")],
     ["number and order of evaluations and the values delivered"],
     "refinement of a reference interpreter; forcing is interrupted by exceptions, jumps and thread switches at seeded points")

prop("C02", "Storage is bounded by what the program can still reach",
     "A program whose reachable data stay bounded runs for any length of time in bounded storage, whatever it allocates and drops: lists, closures, continuations, strings, ports, promises, cyclic lists, evaluated definitions. "
     "A collection reclaims what cannot be reached, wherever objects are placed.",
     ["programs", "schedules"], "every program with bounded reachable data, at every length of run, collection schedule and placement of objects",
     "The tests end before the first collection, so that a leak, however large, changes no result.",
     ["src/kernel/collector.cpp", "include/meevax/kernel/collector.hpp", "include/meevax/memory/pointer_set.hpp", "src/kernel/dynamic_environment.cpp"],
     [("mark and sweep over registered references", "src/kernel/collector.cpp"), ("registry of objects and of references", "include/meevax/memory/pointer_set.hpp")],
     ["number of live objects and bytes after collections in successive phases of the same work"],
     "the same generated phase of work repeated; live objects and bytes counted by the simulated allocator must stop growing",
     "notice of objects and bytes (MEEVAX_SIMULATION in allocator.hpp and collector.cpp)")

prop("C07", "Reading any bytes ends in the data they denote, a read error or the end",
     "Whatever bytes a source delivers (cut short, damaged, or not Scheme at all), read returns the datum that the notation denotes, raises an error that satisfies read-error?, or reports the end; it never stops the process, loops without consuming, or makes up data. "
     "After an error the program continues, later data are read, and nothing depends on how the bytes were divided into deliveries.",
     ["inputs", "fault_sequences"], "every sequence of bytes, every cut, damage or failing read within it, and every division into deliveries",
     "The tests read well-formed data from memory; the ends and errors inside of every kind of token, and recovery after them, are not tried.",
     ["src/kernel/textual_input_port.cpp", "src/kernel/character.cpp", "src/kernel/number.cpp", "src/kernel/environment.cpp"],
     [("recursive descent with exceptions for closing tokens", "src/kernel/textual_input_port.cpp: read")],
     ["data, errors and ends observed by read and load on damaged sources"],
     "a reference reader of the external notation, on generated data with seeded cuts, damage, lost and repeated blocks, failing reads and deliveries")

prop("C13", "Time is read from the clock at the moment of the call",
     "current-second and current-jiffy report the clocks as they are at the call: jiffies never decrease and advance with elapsed time at jiffies-per-second to the second, and the second reported is that of the wall clock, also when it is stepped, when calls are far apart, or when values are large.",
     ["schedules", "fault_sequences"], "every sequence of calls and every behaviour of the clocks between and during them, including jumps and stalls",
     "The tests run in real time, within milliseconds, on a clock that never jumps.",
     ["src/kernel/boot.cpp", "library/r7rs.ss"],
     [("current-jiffy and current-second", "src/kernel/boot.cpp")],
     ["values of current-second and current-jiffy against the simulated clocks"],
     "the simulated clocks, with seeded jumps, stalls and steps, are the reference for every value reported")

prop("C20", "Data written to storage are read back the same",
     "A datum written with write, write-shared or write-simple and read again, possibly by another run of the interpreter after the first one stopped, is the same datum: equal in value and exactness, with the same characters, the same symbols, and for write-shared the same sharing. "
     "Data written completely before the machine stopped are all there, in order, and none is made up.",
     ["inputs", "crash_points", "histories"], "every datum with a notation; every division of writes and reads by the system; every point at which the machine stops",
     "The tests write a handful of ASCII data to a string and compare the text; they never read back, and no datum has unusual characters, names, numbers or sharing.",
     ["src/kernel/textual_input_port.cpp", "src/kernel/string.cpp", "src/kernel/symbol.cpp", "src/kernel/character.cpp", "src/kernel/number.cpp", "src/kernel/complex.cpp", "src/kernel/pair.cpp", "src/kernel/vector.cpp", "library/srfi-38.ss"],
     [("notation of each type", "operator << of src/kernel/*.cpp"), ("reader", "src/kernel/textual_input_port.cpp: read")],
     ["comparison, by a second run of the interpreter, of what was read with the datum built without the notation"],
     "a journal of generated data is written under seeded short and interrupted writes and machine stops, and read by a second run under seeded delivery")

prop("C14", "A session on the command line does what its arguments and input say",
     "The program evaluates its options (on their own or joined, with any text for an operand) and files (each a program of its own) once each and in order, then, if it is interactive, the expressions on standard input; what they write and the values reported come out in that order. "
     "An error in an option or file is reported, stops the rest and gives a failing status; an error in an interactive expression is reported and leaves the definitions, parameters, handlers and extents of the session as they were, so that the next expression is evaluated as if it had not happened; exit gives the status asked for.",
     ["inputs", "histories", "fault_sequences"], "every command line, every sequence of interactive expressions with errors anywhere among them, every delivery of input and failing read",
     "The tests run files through the program with one or two fixed command lines; no test has a session that continues after an error, or a command line of several options.",
     ["src/main.cpp", "src/kernel/configuration.cpp", "src/kernel/environment.cpp", "src/kernel/error.cpp", "src/kernel/dynamic_environment.cpp"],
     [("order and operands of options", "src/kernel/configuration.cpp: configure"), ("recovery of a session", "src/main.cpp: interact")],
     ["standard output, standard error and exit status of sessions"],
     "generated command lines and sessions are run by the program itself under seeded delivery, failing reads and collections, and compared with a model of sessions")

prop("C18", "Leaving the process keeps what was written and gives the status",
     "exit unwinds every extent that is in effect, in order, flushes what was written to open files and to the terminal, and gives the status it was called with, wherever it is called from: within nested extents, handlers, parameterizations or continuations; emergency-exit gives the status without unwinding. "
     "Collections at any point, and short or interrupted writes, change nothing of that, and the process ends without failing.",
     ["inputs", "schedules", "fault_sequences"], "every program that leaves at any point of any control state, every collection schedule, every division of writes",
     "No test leaves from within extents, handlers or a captured continuation, or looks at what had been written by then.",
     ["src/kernel/boot.cpp", "library/meevax.ss", "src/kernel/output_file_port.cpp", "src/kernel/standard_output_port.cpp", "src/kernel/collector.cpp", "src/main.cpp"],
     [("exit runs the after thunks, then emergency-exit", "library/meevax.ss"), ("status as a C++ exception", "src/kernel/boot.cpp: emergency-exit")],
     ["events logged before leaving, journal file, terminal output and exit status"],
     "generated control-flow programs that leave are run against a reference interpreter; their journal, terminal and status are compared under short and interrupted writes")

prop("C12", "Libraries are instantiated once, in order, and give the names imported",
     "Importing a library, directly or through other libraries, from the program or from a file found by its name, evaluates its declarations once in the whole run, in order and before the importer continues; all importers share that instance. "
     "An import set made of only, except, prefix and rename binds exactly the names it denotes, to the bindings of the library; other names of the library stay private, and two different bindings of one name are an error. If the file cannot be read or a declaration fails, the import is an error, what was there before is unaffected, and a later import resolves the library again.",
     ["inputs", "histories", "fault_sequences", "schedules"], "every graph of libraries and order of imports, every import set, every failure of a file or body and retry, every collection schedule",
     "The tests import a handful of small libraries, once each, without nesting import sets, without failures and without collections in the meantime.",
     ["src/kernel/library.cpp", "src/kernel/environment.cpp", "src/kernel/conditional_expand.cpp", "src/kernel/textual_context.cpp", "src/kernel/identity.cpp"],
     [("instantiation on first import", "src/kernel/library.cpp: library::import_set"), ("import sets", "src/kernel/environment.cpp: import_set")],
     ["record of instantiations, and what names evaluate to in environments"],
     "generated graphs of libraries with failing files and bodies are compared with a model of libraries, under seeded faults and collections")

prop("C17", "Files that are included, loaded and imported are found where the text says",
     "A file named by include, include-ci or a library name is looked for at the path itself, beside the file whose text names it, in the current directory, then in the library directories in their order, each time with the extensions of sources; the first that exists is read in full, and its contents take the place of the form, in order. "
     "That depends on the file in which the form is written only, not on collections, failures in the meantime, where it is nested, or who started the program. A file that is not found or cannot be read is an error.",
     ["inputs", "fault_sequences", "schedules"], "every tree of files that include, load and import each other; every failure of an open or read; every collection schedule and reuse of addresses",
     "The tests include one file beside the test program; equal names in several directories, nesting over directories and the reuse of addresses of forms do not occur.",
     ["src/kernel/textual_context.cpp", "include/meevax/kernel/textual_context.hpp", "src/kernel/expander.cpp", "src/kernel/syntactic_environment.cpp", "src/kernel/collector.cpp", "src/kernel/configuration.cpp", "src/kernel/library.cpp"],
     [("which file a form was read from, by the address of its pair", "src/kernel/textual_context.cpp: proxies"), ("search", "src/kernel/textual_context.cpp: locate")],
     ["marks written by the files that were evaluated, and the status"],
     "generated trees of files are compared with a model of the search, under collections that reuse the addresses of forms, and failing opens and reads")

prop("C15", "Iteration takes constant space; long data need storage, not stack",
     "A computation that goes on by calls in tail position, by continuations, promises or threads takes constant space, in objects, stack and descriptors, however long it goes on, whatever each step does and finishes: catching errors of every kind, escaping, entering and leaving extents, forcing promises, reading, writing, evaluating. "
     "Recursion, and operations on long lists, strings, vectors, tokens and comments, are limited by the storage there is, not by the stack of the process.",
     ["programs", "schedules", "configurations"], "every composition of loops, tail positions, steps and surroundings; every length of data; every collection schedule, with a small stack",
     "The tests stop after a few iterations and handle short data, for which any implementation has space enough.",
     ["src/kernel/expander.cpp", "src/kernel/dynamic_environment.cpp", "library/meevax.ss", "src/kernel/textual_input_port.cpp", "src/kernel/comparator.cpp", "src/kernel/list.cpp", "src/kernel/number.cpp", "src/kernel/collector.cpp"],
     [("tail calls", "src/kernel/dynamic_environment.cpp: tail_call, tail_select"), ("errors of the kernel are handled after leaving the C++ handler", "src/kernel/dynamic_environment.cpp: run"), ("reading of lists without recursion", "src/kernel/textual_input_port.cpp: read")],
     ["number of reachable objects, depth of the stack and open descriptors, measured while the program iterates"],
     "seeded compositions of loops, tail positions and steps run under a small stack; objects, stack and descriptors are measured as they iterate")

prop("C19", "Asking for more storage than there is, is an error like any other",
     "When a program asks for a vector, string or bytevector for which there is no storage, an error object is raised at that point, in the handlers that are installed there; the program can catch it, extents are left as for any error, and it goes on with everything it had: no variable, object or port has another content than before, and nothing more is occupied than before. "
     "Without a handler it is reported like any uncaught error.",
     ["programs", "fault_sequences", "schedules"], "every program and every point at which a large request fails, within any control state",
     "The tests never run out of storage.",
     ["src/kernel/dynamic_environment.cpp", "src/kernel/boot.cpp", "src/kernel/vector.cpp", "src/kernel/string.cpp", "include/meevax/kernel/homogeneous_vector.hpp", "library/meevax.ss"],
     [("C++ exceptions become error objects at the point of the call", "src/kernel/dynamic_environment.cpp: run")],
     ["events, contents of the store, reachable objects"],
     "requests above a limit fail in operator new; control flow is compared with a reference interpreter and the contents of a store with a model")

prop("C24", "Text goes to and comes from the port that is current where control is",
     "Output and input without a port use the port that parameterize, with-output-to-file or the like has made current in the dynamic extent where control is, and the ports outside again when the extent is left in any way, by return, jump, exception or thread switch, and those inside when it is entered again. "
     "Every string, file and the terminal thus has exactly what was written while it was current, in order; every source gives its text once, in order; with-output-to-file leaves its file complete and closed, and writing to it after that is an error.",
     ["programs", "schedules"], "every nesting of redirections, every way of leaving and entering them, every division of the data into deliveries",
     "The tests redirect the ports a dozen times, and leave each redirection in the normal way.",
     ["library/r4rs.ss", "library/r7rs.ss", "library/srfi-39.ss", "library/meevax.ss", "src/kernel/textual_output_port.cpp", "src/kernel/textual_input_port.cpp"],
     [("current ports as parameters", "library/r4rs.ss: current-input-port, current-output-port"), ("with-output-to-file", "library/r4rs.ss"), ("default ports of the procedures of output and input", "library/r7rs.ss")],
     ["contents of strings, files and the terminal", "order of logged events"],
     "refinement of a reference interpreter extended by ports; the scheduler injects jumps, exceptions and thread switches into redirected extents")

prop("C25", "An object holds what was last stored in it, and nothing else changes it",
     "Whatever the order of the operations that threads of control perform on shared vectors, strings, bytevectors, lists, records, boxes, string and bytevector ports and closures, each location has the value last stored there: an operation modifies exactly the locations its arguments denote, also when source and destination overlap; "
     "what an operation copies, in whole or for a range, is a new object that later stores to the original do not reach, and what it shares stays shared; predicates and comparisons see the present contents. A request that fails for lack of storage, and collections, change nothing.",
     ["schedules", "histories"], "every history of operations, every interleaving of the threads that perform them, collections at any point",
     "The tests use each procedure on a few literal arguments, mostly on fresh objects, once.",
     ["src/kernel/boot.cpp", "include/meevax/kernel/homogeneous_vector.hpp", "src/kernel/comparator.cpp", "library/r7rs.ss", "library/meevax.ss", "library/srfi-9.ss", "library/srfi-111.ss"],
     [("vectors, strings, bytevectors", "src/kernel/boot.cpp"), ("records", "library/srfi-9.ss"), ("apply", "library/meevax.ss")],
     ["values read", "everything that can be reached, with its sharing"],
     "refinement of a reference model of the heap, with the operations divided among coroutines that a seeded scheduler interleaves, forced collections and failing requests for storage")

prop("C26", "Evaluation sees the current bindings of its own environment, and of no other",
     "Each environment has bindings of its own: what is defined, assigned or defined as a macro in one, by `eval`, by `load` or by the program itself, is seen by everything that was or will be compiled in it, and by nothing in another one; a procedure keeps the environment it was made in, wherever it is called from and whether or not anything else refers to that environment still; a macro that is defined again applies to what is compiled from then on, and what its template inserts means what it means where it was defined, whether that is defined before or after it; every name refers to the innermost binding around it. "
     "A sequence or a file that fails in the middle has had exactly the effects of what came before the failure, and can be evaluated or loaded again.",
     ["histories", "fault_sequences"], "every history of definitions and evaluations in any number of environments, read failures at any point of a file, collections at any point",
     "The tests evaluate expressions in one environment, mostly once.",
     ["src/kernel/environment.cpp", "src/kernel/syntactic_environment.cpp", "include/meevax/kernel/syntactic_environment.hpp", "src/kernel/expander.cpp", "src/kernel/syntactic_closure.cpp", "src/kernel/boot.cpp", "library/meevax.ss"],
     [("environments", "src/kernel/environment.cpp"), ("bindings", "include/meevax/kernel/syntactic_environment.hpp")],
     ["values of expressions", "all variables at the end"],
     "refinement of a reference model of environments, procedures and macros over seeded histories with failing loads and forced collections")

prop("C21", "Arithmetic is exact on exact numbers and well rounded on flonums",
     "Operations on integers, ratios and flonums give the mathematically exact result for exact operands of any size and the nearest flonum otherwise; exactness, comparison and conversion to and from text agree with it.",
     ["inputs"], "every operand",
     "The tests evaluate a list of examples.",
     ["src/kernel/number.cpp", "src/kernel/large_integer.cpp", "src/kernel/ratio.cpp", "src/kernel/complex.cpp"],
     [("numeric tower", "src/kernel/number.cpp")], ["results of numeric procedures"], "")

prop("C22", "Macros are hygienic",
     "A use of a macro made with syntax-rules or a renaming transformer refers, for every name its template inserts, to the binding at the definition of the macro, and never captures or is captured by bindings at its use.",
     ["programs"], "every macro and every use",
     "The tests expand a list of examples.",
     ["src/kernel/syntactic_closure.cpp", "src/kernel/syntactic_environment.cpp", "library/srfi-149.ss"],
     [("syntactic closures", "src/kernel/syntactic_closure.cpp")], ["values of programs with macros"], "")

prop("C23", "eq?, eqv? and equal? are equivalence relations that refine each other",
     "eqv? and equal? are reflexive, symmetric and transitive, eq? implies eqv? implies equal?, and equal? ends on circular data.",
     ["inputs"], "every pair of objects",
     "The tests compare a list of examples.",
     ["src/kernel/comparator.cpp", "src/kernel/number.cpp"],
     [("comparison", "src/kernel/comparator.cpp")], ["results of the predicates"], "")

HOOKS = {"guard": "MEEVAX_SIMULATION", "enable": "python3 sim/build.py compiles /repo's sources with -DMEEVAX_SIMULATION into /verif/build", "source_commits": ["070f50f"]}

PURE = ("a pure function of its operands: no schedule, clock, input, output, allocation failure or other party decides its result, so that there is nothing to simulate or to fail, "
        "and drawing operands would be testing of functions, not simulation; ")
NOT_APPLICABLE = [{"property": "C21", "reason": PURE + "what depends on collections (storage of large integers and ratios) is part of C01"},
                  {"property": "C22", "reason": PURE + "expansion depends on the text alone; what depends on collections (syntactic closures, environments) is part of C01, on files part of C17"},
                  {"property": "C23", "reason": PURE + "what depends on the place of objects in memory is part of C01"}]


if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, missing = [], []
    for p, note in P:
        if os.path.exists(os.path.join(ROOT, "dst/props", p["id"].lower() + ".py")):
            module = importlib.import_module("dst.props." + p["id"].lower()).PROPERTY
            checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                           "technique": TECHNIQUE + ": " + note, "level": module.level,
                           "level_note": "seeded search over executions of the real interpreter under the simulator; what a run covered is in its evidence file"})
        elif p["id"] not in [n["property"] for n in NOT_APPLICABLE]:
            missing.append({"property": p["id"], "reason": "no check is claimed yet"})
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", "070f50f"], capture_output=True, text=True).stdout.strip()
    HOOKS["source_commits"] = [full]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 sim/build.py", "hooks": HOOKS, "checks": checks,
                   "not_applicable": NOT_APPLICABLE + missing}, f, indent=1, ensure_ascii=False)
        f.write("\n")
