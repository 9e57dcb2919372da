-------------------------------- MODULE Heap --------------------------------
(* The heap as the caller and the library see it.  Memory changes hands at   *)
(* calls only: while a function of the library is running (depth > 0), the   *)
(* heap does not change.                                                     *)
EXTENDS Integers, FiniteSets
Allocators == {"malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc",
    "strdup", "strndup", "wcsdup", "__strdup", "__strndup", "asprintf", "vasprintf", "__asprintf_chk", "__vasprintf_chk", "getline", "getdelim", "__getdelim", "open_memstream", "fmemopen", "tempnam",
    "fopen", "fopen64", "fdopen", "freopen", "freopen64", "popen", "tmpfile", "opendir", "scandir", "qsort", "qsort_r", "regcomp", "getaddrinfo", "mmap", "mmap64", "munmap", "brk", "sbrk", "setvbuf",
    "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "__cxa_allocate_exception"}
NoAllocator(imports) == imports \cap Allocators = {}
\* one step of a run: state [depth, live]
Start == [depth |-> 0, live |-> 0]
Enter(s) == [s EXCEPT !.depth = s.depth + 1]
Leave(s) == [s EXCEPT !.depth = s.depth - 1]
Allowed(s) == s.depth = 0
=============================================================================
