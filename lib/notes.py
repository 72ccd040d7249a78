"""Texts for MANIFEST.json."""
INP = "Every input of the stated table is run on the real library, each against an independent model of the documented result."
TECH = {
 "C19": ("exhaustive enumeration of object trees, exceptions and form pairs on the real code", "Every tree of objects up to the stated number of nodes, over all kinds of allocation, delete statement and exception, is built and destroyed on the real library; the trace, the leak report and the diagnostics are compared with the locations of the statements, and another thread must get the lock afterwards. Nesting chains to the documented maximum, every allocation form with every release form. Destructors that wait for other threads are not covered."),
 "C14": ("exhaustive enumeration of copy and fill operations on the real code, page-map and content oracle", "All source and destination positions, lengths and contents within the bounds, for every public form, executed on the real library in forked processes. Bounds in the evidence file."),
 "C16": ("exhaustive enumeration of configurations x operation histories on the real code", "Every documented setting alone with every value of a table reaching past each boundary of its type, every pair (thorough: triple) of settings, all together, every near-miss name and every position in the environment; under each, every operation history to depth 2-4 is executed and compared with a model of the documented meaning. Numeric values outside the table are not enumerated."),
 "C20": ("exhaustive enumeration of messages x outputs x failures of write on the real code", "Every message kind under all combinations of outputs, with write cut short, interrupted and refused at every call, values at all boundaries of every field, every way to end a process. Text layout is not prescribed beyond the documented contents."),
 "C21": ("exhaustive enumeration of macro uses on the real code, every value of the 8- and 16-bit types and all boundaries of the wider ones", "The header's macros are compiled by two compilers as C and C++ of several standards and executed for every index, size, element type, condition value and overwritten return address of the table. Function protection against overwriting is decided for unoptimised code only: compilers remove the second reading of the return address when optimising."),
 "C22": ("exhaustive enumeration of build configurations x operation histories on the real code", "Every single option, every pair, every all-but-one and all together (thorough: all 2048 static and 64 shared combinations) is configured and compiled from the working tree; under each, operation histories to depth 2-3 over allocation, accesses, padding, bad releases and table growth, programs that know nothing of DUMA with the library preloaded, copies, and whole processes with their exit report are executed and compared with the models of the other properties, less the feature the option names. Always -O0, as the makefile builds."),
 "C23": ("exhaustive enumeration of first calls x histories on the real code", "Every public operation as the first call, before the library's constructor and before the C library is set up, followed by every history to the stated depth."),
 "C26": ("exhaustive enumeration of simulated machines, stop points and option sets on the real generator and library", "createconf, compiled from the working tree with every memory access reported to our own runtime, runs on every machine of the family (alignment needed by 2, 4, 8 and 16 byte accesses x page size), is stopped at every write, and is configured with every set of up to 2 options and every complement of up to 1 (thorough: 4 and 3); each result is included by probe programs and compared with a model of the documentation. Stops inside the C library's own output functions, and Windows-only kinds of library, are not covered."),
 "C24": ("exhaustive enumeration of macro uses x contexts x languages x configurations x header orders, compiled and executed", "Every public macro in every syntactic context of a table and every allocation form, in every C and C++ standard of two compilers, under every configuration and header order of a table, is compiled with DUMA_NO_DUMA, linked without the library and run; the output is compared with the one the standard prescribes. Only uses that debug code accepts are demanded. Programs that use the replaced names for themselves are built and run after noduma.h. The state space is the table: uses outside of it are not covered."),
}
NOTE = {}
LEVEL = {}
