#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here in readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

DC, DP, PR, SI = "src/duma.c", "src/dumapp.cpp", "src/print.c", "src/sem_inc.c"
HL, PG, DH, PH, ND = "duma_hlp.h", "paging.h", "duma.h", "dumapp.h", "noduma.h"

p("C01", "Every heap overrun faults at the first possible byte",
  "With default placement, every byte of a live block is readable and writable, and the first byte after the block - after rounding its end up to the block's own alignment, and to no more than that - lies on an inaccessible page, whichever allocation interface produced the block and whatever its size. This stays so for the whole life of the block, whatever other allocations, frees, reallocations, checks or growth of the allocator's own tables happen meanwhile.",
  ["inputs", "histories", "configurations"],
  "every allocation interface x every size x every alignment setting; every operation history between the allocation and the access",
  "dumatest tries two fixed sizes on one block; no test varies entry point, size and alignment together, or looks at an old block after later operations.",
  [DC, PG], [("placement of the user block against the dead page", "src/duma.c:_duma_allocate"), ("page protection", "paging.h:Page_AllowAccess/Page_DenyAccess")],
  [("protAddress", "start of the dead page", "src/duma.c")], ["returned pointer", "page permissions of the process", "SIGSEGV on access"])

p("C02", "With protect-below every heap underrun faults at the first byte",
  "A block allocated while protect-below is in force starts exactly at a page boundary and the page before it is inaccessible for the block's whole life, while the block itself is fully accessible, for every interface, size and alignment. Switching the mode (environment or macro) decides the placement of later allocations only: existing blocks keep the protection they were given.",
  ["inputs", "histories", "configurations"],
  "every interface, size, alignment and every history of mode switches, allocations and frees",
  "dumatest probes one block after one switch; alignments above a page, mixed-mode histories and reuse of chunks are never exercised.",
  [DC, PG, DH], [("protect-below placement", "src/duma.c:_duma_allocate"), ("mode switch", "duma.h:DUMA_SET_PROTECT_BELOW")],
  (), ["returned pointer", "page permissions", "SIGSEGV on access"])

p("C03", "Freed memory is inaccessible at once and never handed out again",
  "With the default settings, from the moment a block is released (free, delete, realloc) any access to any of its bytes faults, no later allocation ever overlaps it, and this holds until the process ends. With protection of freed memory disabled or limited, freed memory is still never accessible until an allocation returns it anew.",
  ["histories", "configurations"],
  "every sequence of allocations, reallocations and releases, in every PROTECT_FREE mode, from fresh and from well-filled heaps",
  "dumatest reads one freed byte right after one free; nothing looks at freed blocks after later allocations or under PROTECT_FREE limits.",
  [DC, HL, PG], [("protecting instead of releasing freed memory", "src/duma.c:_duma_deallocate"), ("reclaiming protected memory", "duma_hlp.h:reduceProtectedMemory")],
  [("slot state ALL_PROTECTED / BEGIN_PROTECTED", "freed but remembered", "src/duma.c")], ["page permissions", "returned pointers", "SIGSEGV on access"])

p("C04", "Blocks are disjoint and keep exactly the bytes the program wrote",
  "Any two live blocks occupy disjoint bytes and every live block keeps its contents until it is released, whatever the rest of the program allocates, frees or checks. Fresh memory holds the configured fill byte (zeroes from calloc), realloc preserves the common prefix, zeroes the extension and leaves the old block untouched if it fails, strdup copies the string, and the usable size reported for a block is exactly the size requested.",
  ["histories", "inputs"],
  "every operation sequence up to the depth bound from empty, table-full and chunk-full heaps; every (old size, new size) pair of realloc",
  "tstheap is a random soak that only touches the first bytes; growth of the internal table and realloc size pairs are hit by chance.",
  [DC], [("slot search and splitting", "src/duma.c:_duma_allocate"), ("table growth", "src/duma.c:allocateMoreSlots"), ("realloc copy", "src/duma.c:_duma_realloc")],
  [("allocation list", "table of all blocks", "src/duma.c")], ["block contents", "returned pointers"])

p("C05", "Addresses honour the requested or configured alignment",
  "memalign, posix_memalign and valloc return addresses that are multiples of the requested alignment (the page size for valloc) and every other interface returns addresses that are multiples of the configured alignment, or of the next lower power of two of the size for smaller blocks. A request for an alignment that is not a power of two never yields a block: posix_memalign returns EINVAL (also for alignments below the pointer size) leaving the heap unchanged, the others abort with a diagnostic.",
  ["inputs", "configurations"],
  "every alignment 0..2^20 (all values near powers of two), every size class, both placements, every configured alignment",
  "Tests call memalign once with one alignment.",
  [DC, DH, "createconf.c"], [("alignment computation", "src/duma.c:_duma_allocate"), ("argument check", "src/duma.c:_duma_posix_memalign")],
  (), ["returned pointer", "return code", "diagnostic"])

p("C06", "Any write into the no-man's-land is reported, and nothing else is",
  "If the program changes any byte of the accessible padding around a live block, the next release or reallocation of that block, an explicit check of that block or of all blocks, or the next periodic check aborts the process with a diagnostic naming that block, its size and where it was allocated. If only bytes inside blocks were written, no check ever reports anything.",
  ["inputs", "histories", "configurations"],
  "every padding byte offset and value of every block shape, both placements, every checking operation, every check frequency, every history before and after the write",
  "No existing test writes into the padding.",
  [DC, HL], [("filling the padding", "duma_hlp.h:_duma_init_slack"), ("checking it", "duma_hlp.h:_duma_check_slack, _duma_check_all_slacks"), ("periodic checks", "src/duma.c:_duma_allocate/_duma_deallocate")],
  [("check counter", "operations since last periodic check", "src/duma.c")], ["process abort", "diagnostic text"])

p("C07", "Only the start address of a live block can be released or checked",
  "Passing to free, delete, realloc, the usable-size query or the block check any address that is not the start of a live block - interior, one past the end, in the padding or guard, stack, static, foreign or already released - ends the process with a diagnostic or a fault and never disturbs another block or returns normally. Null pointers, and pointers from zero-size requests, are accepted by free and delete.",
  ["inputs", "histories"],
  "every address class x every releasing/checking interface x every history before it (including reuse of internal tables after the first release)",
  "dumatest has one double free and no wild frees; later histories are not covered.",
  [DC, HL], [("exact lookup", "duma_hlp.h:slotForUserAddress"), ("nearest-block diagnostics", "duma_hlp.h:nearestSlotForUserAddress"), ("state check", "src/duma.c:_duma_deallocate")],
  (), ["process abort", "diagnostic text"])

p("C08", "Allocator and deallocator families must match",
  "Memory may be released only by its own family - the C functions among each other, scalar new with scalar delete, array new with array delete, member new with member delete of the same form - in every throwing, nothrow and file/line variant. A matching pair is always accepted; every other pair aborts with a diagnostic naming both the allocator and the deallocator used.",
  ["inputs", "histories"],
  "the complete matrix of allocation interfaces x releasing interfaces",
  "testoperators checks only a handful of pairs.",
  [DC, DP, PH], [("type comparison", "src/duma.c:_duma_deallocate"), ("allocator table", "src/duma.c:_duma_allocDesc")],
  (), ["process abort", "diagnostic text"])

p("C09", "The leak report names exactly the blocks still live",
  "At normal process exit and at every explicit request, the leak report lists each live block with source information exactly once, with its address, size, kind and the file and line that allocated (or last reallocated) it, and no released block; blocks without source information are listed too when all leaks are requested and otherwise only counted. The totals printed are those of the live blocks, the report is silent when nothing is live, and the reported allocation count minus deallocation count is the number of live blocks (requests that yielded no block may be counted too).",
  ["histories", "configurations"],
  "every operation history up to the depth bound, at every point of it, in every report mode",
  "No test reads the report.",
  [DC, DH, PH], [("scan and report", "src/duma.c:DUMA_delFrame"), ("exit hook", "src/duma.c:_duma_exit"), ("recording file/line", "src/duma.c:_duma_allocate")],
  [("numAllocs/numDeallocs", "operation counters", "src/duma.c")], ["leak report text"])

p("C10", "Concurrent heap use behaves as if operations ran one at a time",
  "However threads interleave allocations, releases, reallocations, size queries, checks and leak reports, every operation completes with a result some one-at-a-time order would give: no crash or false report, no deadlock, no block handed out twice, no lost block, count or protection. Afterwards the heap is fully consistent and protected.",
  ["schedules"],
  "every interleaving of 2-3 threads x 1-2 operations up to the preemption bound, for every pair of operation kinds",
  "thread-test and testmt run whatever schedules the OS happens to produce and check only that nothing crashed.",
  [DC, SI, DP, PG], [("lock", "src/sem_inc.c:DUMA_get_sem/DUMA_rel_sem"), ("locking in each operation", "src/duma.c")],
  [("mutex owner/depth", "recursive ownership", "src/sem_inc.c")], ["results of operations", "page permissions", "diagnostics"])

p("C11", "Zero-size requests follow the selected strategy",
  "A C request for zero bytes aborts, yields NULL, yields one fixed inaccessible address or (default) yields a fresh address distinct from every live block with no accessible byte, as the zero-size strategy selects; C++ new follows its own strategy and never yields NULL. Every pointer so returned can be released, reallocated, queried (usable size 0) and checked like any other, and is counted as a block only when it is one.",
  ["inputs", "histories", "configurations"],
  "every allocation interface with size 0 x every strategy x every follow-up history",
  "dumatest performs one malloc(0) under the default strategy only.",
  [DC, DP, DH], [("strategy switch", "src/duma.c:_duma_allocate"), ("environment", "src/duma.c:duma_getenvvars")],
  [("null_addr", "the fixed address", "duma.h")], ["returned pointer", "page permissions"])

p("C12", "Out-of-memory is reported as configured and leaves the heap intact",
  "When the operating system refuses memory at any point of any operation, the request either fails the way its interface promises (NULL, ENOMEM, bad_alloc, nothrow null, repeated calls of the installed new-handler until it succeeds or throws) or, when exit-on-failure is set, ends the process with a diagnostic. All existing blocks, their contents, protection and later operations are unaffected by a failed request.",
  ["fault_sequences", "histories", "configurations"],
  "every memory-obtaining system call of every history failed once, failed from there on, and failed in pairs",
  "testmemlimit sets one rlimit and allocates until failure in one configuration.",
  [DC, DP, PG], [("failure path", "src/duma.c:_duma_allocate"), ("new-handler loop", "src/dumapp.cpp:duma_new_operator"), ("mmap wrapper", "paging.h:Page_Create")],
  (), ["return values", "exceptions", "page permissions", "block contents"])

p("C13", "Huge or overflowing sizes never yield an undersized block",
  "For every size, element count and alignment representable in the arguments, a non-null result is a block whose every byte up to the requested (mathematical, not wrapped) size is accessible and guarded; a request that cannot be represented or satisfied fails as any other out-of-memory request. No such request crashes the process or damages existing blocks.",
  ["inputs"],
  "every size, count and alignment within a window around 0, 2^31, 2^32, 2^63 and 2^64 and products crossing them, from every heap state class",
  "testmemlimit tries one oversize request; multiplication and rounding overflow is not tested.",
  [DC, PG], [("size arithmetic", "src/duma.c:_duma_allocate"), ("calloc product", "src/duma.c:_duma_calloc"), ("mmap size", "paging.h:Page_Create")],
  (), ["return values", "page permissions"])

p("C14", "Memory and string functions compute exactly the standard result",
  "For every non-overlapping argument (any overlap for memmove; overlap towards lower addresses for memcpy when allowed), memcpy, memmove, strcpy, strncpy, strcat, strncat and strdup write exactly the bytes the C standard prescribes and no other byte, read no byte beyond what they must, and return the standard result.",
  ["inputs"],
  "every length, offset, count and content over a small alphabet within the buffer bound, with source and destination against guard pages; counts beyond 2^32",
  "Tests call each function at most once with one string.",
  [DC], [("replacement functions", "src/duma.c:_duma_memcpy .. _duma_strncat")],
  (), ["buffer contents", "return value", "SIGSEGV"])

p("C15", "Overlapping copies are reported exactly when they overlap",
  "memcpy with overlapping regions (in the forbidden direction when overlap is allowed by configuration), and strcpy, strncpy, strcat and strncat whose copying would overwrite source bytes before they are read, abort with a diagnostic naming the function; calls whose regions do not overlap never do.",
  ["inputs", "configurations"],
  "every pair of offsets, length, count and string content within the buffer bound, both overlap settings",
  "No test calls any of them with overlapping regions.",
  [DC], [("overlap tests", "src/duma.c:_duma_memcpy .. _duma_strncat")],
  (), ["process abort", "diagnostic text"])

p("C16", "Every documented environment setting takes effect as documented",
  "Each documented DUMA_* environment variable, alone or in combination, changes exactly the behaviour its documentation describes for each documented value, and unset, the documented default applies. Settings for alignment, placement and fill made by the program through the macros override the environment for later allocations only.",
  ["configurations"],
  "every documented variable x every documented value and its neighbours, and all pairs of variables",
  "Tests run with the default environment, apart from LD_PRELOAD.",
  [DC, PR, "duma.3", "README.md"], [("environment parsing", "src/duma.c:duma_getenvvars"), ("environment lookup", "src/duma.c:duma_getenv")],
  (), ["behaviour of allocations", "diagnostic output"])

p("C17", "The protected-memory budget is respected and bookkeeping stays bounded",
  "With a positive limit N kB on protected freed memory, a released block that still fits under the limit stays protected, and the total kept protected never exceeds the limit; when room is needed, earlier protected memory is given back to the system. For any history with bounded live memory, a limit of zero or N - or a total-allocation limit - bounds the process's address-space use, including the allocator's own tables, independently of how long the program runs.",
  ["histories", "configurations"],
  "every sequence of allocations and frees up to the depth bound and every small limit, plus cyclic histories followed until the footprint repeats",
  "No test sets DUMA_PROTECT_FREE or DUMA_MAX_ALLOC.",
  [DC, HL], [("budget check", "src/duma.c:_duma_deallocate"), ("reclaim", "duma_hlp.h:reduceProtectedMemory"), ("table growth", "src/duma.c:allocateMoreSlots")],
  [("sumProtectedMem", "kB protected", "src/duma.c"), ("unUsedSlots", "free table entries", "src/duma.c")], ["mapped and protected bytes of the process"])

p("C18", "Between calls the program can reach nothing but its own live blocks",
  "Whenever no allocator call is in progress, the only accessible pages of allocator memory are those of live blocks; the allocator's own bookkeeping, unused memory, guards and freed memory are all inaccessible, so a stray access to them faults and can never corrupt the heap unnoticed. This holds after every operation, successful or failed, from every entry point.",
  ["histories", "fault_sequences", "configurations"],
  "the state after every operation of every history up to the depth bound, including table growth, failed requests, checks, reports and nested calls",
  "Tests never look at page permissions.",
  [DC, PG], [("opening and closing the allocation list around each call", "src/duma.c"), ("dead pages", "paging.h")],
  (), ["page permissions of the process"])

p("C19", "C++ new and delete work as the language and the macros promise",
  "Every new form returns usable memory or throws / returns null as its form promises; every delete form releases exactly the object given, destructors run once, deletes nested in destructors to any depth below the documented maximum keep the right file and line for each level, and the lock is free again afterwards. Reports and mismatch diagnostics name the file and line of the new or delete expression in the user's source.",
  ["programs", "histories"],
  "every new/delete form and every nesting tree of destructors up to the depth bound, macro and explicit file/line forms",
  "dumatestpp and testoperators exercise single-level new/delete only and never read file/line information.",
  [DP, PH, DC, SI], [("delete macro", "dumapp.h"), ("operators", "src/dumapp.cpp")],
  [("DelPtr/DelFile/DelLine", "stack of delete locations", "duma.h")], ["diagnostics", "leak report", "lock state"])

p("C20", "Every message reaches exactly the configured outputs, formatted right",
  "Banner, allocation trace, warnings, reports and abort messages are written completely and once to each enabled output (stderr by default, stdout, append to a file) and to no other, and every number, address, character and string in them is the value it stands for. Printing never allocates and an abort always ends the process.",
  ["inputs", "configurations"],
  "all 8 output combinations x every message kind; every integer and address boundary value; every format directive",
  "Tests do not read DUMA's output.",
  [PR, DC], [("formatting", "src/print.c:DUMA_vsprintf"), ("routing", "src/print.c:DUMA_Print")],
  (), ["bytes on stdout, stderr and the output file"])

p("C21", "Assertion, checked-array and function-protection macros are exact",
  "DUMA_ASSERT, CA_REF and the function-protection macros let the program continue if and only if the condition holds, the index is within the declared array, or the return address is intact, evaluating their argument exactly once; otherwise they report the failing expression with file and line and stop the process.",
  ["inputs"],
  "every index in a window around both bounds and around the extreme values of every integer type, as read and as write, for every array size up to the bound",
  "tests use CA_REF in one loop with one out-of-range index.",
  [DH, DC], [("macros", "duma.h"), ("stop", "src/duma.c:_duma_assert")],
  (), ["process stop", "diagnostic text", "side effects of the index expression"])

p("C22", "Every supported build configuration keeps the guarantees it does not drop",
  "Each combination of documented build options, as static and as preloaded shared library, compiles and keeps overrun, underrun, freed-memory, no-man's-land, double-free and content guarantees; an option removes only the feature it names.",
  ["configurations"],
  "every combination of the documented build options of the configuration generator, in static and shared form",
  "Only one configuration is built by the tests.",
  ["createconf.c", DC, DP, SI, PR, DH, PH], [("configuration generator", "createconf.c"), ("conditional code", "src/duma.c")],
  (), ["build result", "core scenario under each build"])

p("C23", "Any operation may come first",
  "Whatever the program's first use of the allocator is - any C or C++ allocation, release of null, size query, check, report, copy function, from a static constructor, before main or from a thread - it behaves exactly as it would later, with the environment settings already in force, and initialisation happens once.",
  ["histories", "schedules"],
  "every operation as the very first call before the library's own constructor has run, followed by every second operation; every interleaving of two threads racing to be first",
  "In the tests the first call always comes after the library's constructor.",
  [DC, DP], [("lazy initialisation", "src/duma.c:_duma_init, duma_init"), ("constructor", "src/duma.c:_duma_init")],
  [("init_state", "progress of initialisation", "src/duma.c")], ["results", "page permissions", "banner count"])

p("C24", "A release build with DUMA disabled is unaffected by the headers",
  "With the library disabled by its documented preprocessor definition, C and C++ programs using the headers and all their macros compile, link without the library and behave as if the macros did nothing and the standard allocation functions and operators were used; after noduma.h every replaced name belongs to the program again.",
  ["programs", "configurations"],
  "every public macro and every allocation form, in C and in C++ (each standard version), both header orders",
  "No test compiles with DUMA_NO_DUMA.",
  [DH, PH, ND], [("disabled branch of the headers", "duma.h, dumapp.h")],
  (), ["compilation and linking", "program output"])

p("C25", "A refused page-protection call is never ignored",
  "If the operating system refuses to change the protection of pages at any point of any operation, the process stops with a diagnostic before the operation returns; if it refuses to unmap memory, that memory is made inaccessible instead. No operation ever returns success while a guard, a freed block or bookkeeping is left accessible.",
  ["fault_sequences", "histories"],
  "every page-protection and unmap call of every history failed once, and failed from there on",
  "Tests cannot make these system calls fail.",
  [PG, DC], [("failure of mprotect", "paging.h:mprotectFailed"), ("failure of munmap", "paging.h:Page_Delete")],
  (), ["process stop", "diagnostic text", "page permissions"])

p("C26", "The generated configuration describes the machine and the chosen options",
  "The configuration createconf generates states the page size the system reports, unsigned types as wide as a pointer and as size_t, and the smallest alignment at which every basic type can be accessed; whichever probing access stops the program, what it left behind is complete and usable. Every documented build option given is in force in exactly the kinds of library it is documented for and every other option is off there, whatever the compiling program defines. The library refuses, with a diagnostic, to run with pages of another size, and uses the configured alignment as its default.",
  ["configurations", "crash_points", "inputs"],
  "every machine of a family (alignment needed by each width of access x page size), a stop at every memory access, every set of build options x kind of library x definitions of the compiling program",
  "The tests run one configuration on one machine, where no probing access can fail.",
  ["createconf.c", "GNUmakefile", DC, "duma_hlp.h"], [("probing accesses", "createconf.c:testAlignment"), ("writing the configuration before the next probe", "createconf.c:main, writeFile"), ("page size check", "src/duma.c:_duma_init")],
  (), ["duma_config.h as a program including it sees it", "result addresses", "process stop"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=True) + "\n")
print(len(P), "properties")
