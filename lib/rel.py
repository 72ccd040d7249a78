"""C24: programs built with DUMA_NO_DUMA: every macro in every place, every allocation form, without the library."""
import itertools, re
from .profiles import *
from . import drv

CONFS = {"default": [], "no leak detection": ["-DDUMA_LIB_NO_LEAKDETECTION"], "explicit init": ["-DDUMA_EXPLICIT_INIT"], "old macros": ["-DDUMA_OLD_NEW_MACRO", "-DDUMA_OLD_DEL_MACRO"],
         "no C++ support": ["-DDUMA_LIB_NO_CPP_SUPPORT"], "no global malloc": ["-DDUMA_NO_GLOBAL_MALLOC_FREE", "-DDUMA_NO_THREAD_SAFETY"]}
# statement macros; se() counts evaluations: with DUMA disabled nothing is evaluated
STMT = ["DUMA_newFrame()", "DUMA_delFrame()", "DUMA_SET_ALIGNMENT(8)", "DUMA_SET_PROTECT_BELOW(se())", "DUMA_SET_FILL(se())", "DUMA_ASSERT(se() == 1)", "DUMA_ASSERT(c)", "DUMA_CHECK(p)", "DUMA_CHECKALL()", "DUMA_ASSERT((se(), 0) || c < 9)"]
# contexts: @ is the macro; out() prints what the surrounding program does
CTX = [
    ("statement", "@; out(1);", "1"),
    ("two statements", "@; @; out(2);", "2"),
    ("if else", "for (c = 0; c < 2; ++c) { if (c) @; else out(5); if (!c) out(6); else @; }", "56"),
    ("nested if", "for (c = 0; c < 2; ++c) for (d = 0; d < 2; ++d) if (c) if (d) @; else out(10 + c * 2 + d); else out(20 + c * 2 + d);", "202112"),
    ("for body", "for (c = 0; c < 3; ++c) @; out(c);", "3"),
    ("while body", "while (c++ < 3) @; out(c);", "4"),
    ("do body", "do @; while (c++ < 2); out(c);", "3"),
    ("switch", "for (c = 0; c < 3; ++c) switch (c) { case 0: @; break; case 1: out(7); default: @; out(8); }", "788"),
    ("label", "goto l; c = 9; l: @; out(c);", "0"),
    ("comma", "d = (@, 5); out(d);", "5"),
    ("comma in condition", "if (@, c == 0) out(3);", "3"),
    ("for clauses", "for (@; c < 2; @, ++c) out(c);", "01"),
    ("cast to void", "(void)(@); out(4);", "4"),
    ("macro argument", "TWICE(@); out(1);", "1"),
    ("argument of a macro in a condition", "if (PASS(@)) out(2);", "2"),
    ("block", "{ @; } out(1);", "1"),
    ("after a declaration", "{ int q = 3; @; out(q); }", "3"),
]
XCTX = [
    ("constructor initialiser", "struct Q { int a; Q(int c, void *p) : a((@, 4)) { (void)c; (void)p; } }; out(Q(c, p).a);", "4"),
    ("destructor", "struct Q { int c; void *p; ~Q() { @; out(5); } }; { Q q; q.c = 1; q.p = p; (void)q; } out(6);", "56"),
    ("catch", "try { throw 3; } catch (int e) { @; out(e); }", "3"),
    ("class member function", "struct Q { static int f(int c, void *p) { (void)c; (void)p; @; return 6; } }; out(Q::f(c, p));", "6"),
]
X11 = [("lambda", "auto f = [&]() { @; return 7; }; (void)p; out(f());", "7"), ("lambda returning with comma", "auto f = [&]() { return (@, 8); }; out(f());", "8"), ("range for", "int a[3] = {1, 2, 3}; for (int v : a) { @; out(v); }", "123")]

C_USES = [  # name, file scope, body, output; @ becomes a prefix of its own
    ("malloc", "", "char *q = (char *)malloc(10); q[9] = 1; free(q); out(1);", "1"),
    ("malloc(0)", "", "free(malloc(0)); free(0); out(1);", "1"),
    ("calloc", "", "int *q = (int *)calloc(4, sizeof(int)); out(q[3]); free(q);", "0"),
    ("realloc", "", "char *q = (char *)realloc(0, 4); q[3] = 7; q = (char *)realloc(q, 4000); out(q[3]); free(q);", "7"),
    ("memalign", "", "void *q = memalign(64, 10); out((int)((unsigned long)q % 64)); free(q);", "0"),
    ("posix_memalign", "", "void *q; out(posix_memalign(&q, 64, 10)); out((int)((unsigned long)q % 64)); free(q); out(posix_memalign(&q, 3, 10) == 22);", "001"),
    ("valloc", "", "void *q = valloc(9); out((int)((unsigned long)q % 4096)); free(q);", "0"),
    ("malloc_usable_size", "", "void *q = malloc(9); out(malloc_usable_size(q) >= 9); free(q);", "1"),
    ("strdup", "", "char *q = strdup(\"abc\"); out(q[2] == 'c' && !q[3]); free(q);", "1"),
    ("addresses of functions", "", "void *(*f)(size_t) = malloc; void (*g)(void *) = free; void *q = f(3); g(q); out(q != 0);", "1"),
    ("names in parentheses", "", "void *q = (malloc)(3); (free)(q); out(q != 0);", "1"),
    ("members called like the functions", "struct @ops { void *(*malloc)(size_t); void (*free)(void *); int calloc; };", "struct @ops o; o.malloc = malloc; o.free = free; o.calloc = 4; out(o.calloc);", "4"),
    ("memcpy", "", "char a[4] = \"abc\", b[4]; memcpy(b, a, 4); out(b[1] == 'b');", "1"),
    ("overlapping memmove", "", "char a[8] = \"abcdef\"; memmove(a + 1, a, 5); out(a[5] == 'e');", "1"),
    ("strcpy strcat", "", "char a[8]; strcpy(a, \"ab\"); strcat(a, \"cd\"); out(a[3] == 'd' && !a[4]);", "1"),
    ("strncpy strncat", "", "char a[8]; strncpy(a, \"ab\", 8); strncat(a, \"cdef\", 2); out(a[3] == 'd' && !a[4] && !a[7]);", "1"),
    ("checked array", "CA_DEFINE(int, @arr, 5);", "int i = 0; CA_REF(@arr, 2) = 6; CA_REF(@arr, i++) = 3; CA_REF(@arr, i + 1) += 1; out(i); out(@arr[0]); out(*&CA_REF(@arr, 2)); out(sizeof(@arr) == 5 * sizeof(int));", "1371"),
    ("checked array in function", "", "CA_DEFINE(char, arr, 5); CA_REF(arr, 4) = 2; out(CA_REF(arr, 4)); out(CA_REF(arr, 2 + 2) + 1);", "23"),
    ("static checked array", "static CA_DEFINE(double, @arr, 5 + 1);", "out((int)CA_REF(@arr, 5)); out((int)(sizeof(@arr) / sizeof(@arr[0])));", "06"),
    ("checked array declared later", "static int @arr[7]; CA_DECLARE(@arr, 7);", "CA_REF(@arr, 6) = 1; out(CA_REF(@arr, 6)); out(CA_REF(@arr, 5 + 1));", "11"),
    ("checked array declared in function", "", "short arr[3] = {1, 2, 3}; CA_DECLARE(arr, 3); int i; for (i = 0; i < 3; ++i) out(CA_REF(arr, i));", "123"),
    ("two declared in one scope", "", "short arr[3] = {1, 2, 3}, brr[2] = {4, 5}; CA_DECLARE(arr, 3); CA_DECLARE(brr, 2); out(CA_REF(arr, CA_REF(brr, 0) - 2)); { CA_DECLARE(arr, 3); out(CA_REF(arr, 0)); }", "31"),
    ("array of pointers", "", "int v = 8; CA_DEFINE(int *, arr, 2); CA_REF(arr, 1) = &v; *CA_REF(arr, 1) += 1; out(v);", "9"),
    ("array of structs", "struct @S { int a, b; };", "CA_DEFINE(struct @S, arr, 2); CA_REF(arr, 1).b = 4; out(CA_REF(arr, 1).b); out((int)sizeof CA_REF(arr, 0) == 2 * (int)sizeof(int));", "41"),
    ("reference in condition", "", "CA_DEFINE(int, arr, 2); CA_REF(arr, 0) = 0; if (CA_REF(arr, 0)) out(1); else out(2); out(CA_REF(arr, 0) ? 3 : 4);", "24"),
    ("index evaluated once, in order", "static int @n; static int @f(void) { return @n++; }", "CA_DEFINE(int, arr, 4); arr[0] = 5; arr[1] = 6; out(CA_REF(arr, @f())); out(CA_REF(arr, @f())); out(@n);", "562"),
    ("function protection", "static int @f(int a) { DUMA_FN_PROT_START int b = a; if (b > 3) DUMA_FN_PROT_RET(b * 2); else b += 1; DUMA_FN_PROT_RET(b + 1); DUMA_FN_PROT_END return 0; }", "out(@f(4)); out(@f(1));", "83"),
    ("function protection, void", "static void @f(int *a) { DUMA_FN_PROT_START *a += 1; if (*a > 3) DUMA_FN_PROT_RET_VOID(); *a += 1; DUMA_FN_PROT_END }", "int v = 1; @f(&v); out(v); @f(&v); out(v);", "34"),
    ("function protection, return from a loop", "static int @f(int a) { DUMA_FN_PROT_START while (a) { if (a == 2) DUMA_FN_PROT_RET(a + 7); --a; } DUMA_FN_PROT_END return 1; }", "out(@f(4)); out(@f(1));", "91"),
    ("function protection, struct", "struct @T { int x; }; static struct @T @f(void) { DUMA_FN_PROT_START struct @T t; t.x = 4; DUMA_FN_PROT_RET(t); DUMA_FN_PROT_END }", "out(@f().x);", "4"),
    ("function protection, pointer and comma", "static char *@f(char *s) { DUMA_FN_PROT_START DUMA_FN_PROT_RET((s += 1, s)); DUMA_FN_PROT_END }", "char a[3] = \"xy\"; out(*@f(a) == 'y');", "1"),
    ("function protection, operators in the result", "static int @f(int a, int b) { DUMA_FN_PROT_START DUMA_FN_PROT_RET(a ? b : a + 1); DUMA_FN_PROT_END }", "out(@f(1, 4)); out(@f(0, 4));", "41"),
    ("function protection, nested blocks and declarations", "static int @f(int a) { DUMA_FN_PROT_START int b = a; { int b = 3; a += b; } DUMA_FN_PROT_RET(a + b); DUMA_FN_PROT_END; return 7; }", "out(@f(1));", "5"),
    ("two protected parts", "static int @f(int a) { { DUMA_FN_PROT_START a += 1; DUMA_FN_PROT_END } { DUMA_FN_PROT_START a += 2; DUMA_FN_PROT_END } return a; }", "out(@f(1));", "4"),
    ("same name inside and outside of the protected part", "static int @f(int a) { int b = 5; DUMA_FN_PROT_START int b = a; a += b; DUMA_FN_PROT_END return a + b; }", "out(@f(1));", "7"),
]
X_USES = [
    ("new delete", "", "int *q = new int(5); out(*q); delete q; q = new int[4]; delete[] q;", "5"),
    ("new of a type with arguments", "struct @S { int a, b; @S(int x, int y) : a(x), b(y) {} };", "@S *q = new @S(3, 4); out(q->b); delete q;", "4"),
    ("new nothrow", "", "int *q = NTNEW int; out(q != 0); delete q;", "1"),
    ("destructors", "struct @S { ~@S() { out(1); } };", "@S *q = new @S[3]; delete[] q; @S *z = 0; delete z; delete new @S;", "1111"),
    ("delete in if else", "", "for (c = 0; c < 2; ++c) { int *q = new int; if (c) delete q; else delete q; out(c); }", "01"),
    ("delete in a loop", "", "int *a[3]; for (c = 0; c < 3; ++c) a[c] = new int(c); for (c = 0; c < 3; ++c) delete a[c]; out(c);", "3"),
    ("delete in switch", "", "int *q = new int; switch (c) { case 0: delete q; break; default: out(9); } out(1);", "1"),
    ("templates", "template <class T> struct @P { T *p; @P() : p(new T()) {} ~@P() { delete p; } }; template <class T> struct @A { T *p; @A(int n) : p(new T[n]) {} ~@A() { delete[] p; } };", "@P<int> a; @A<double> b(3); *a.p = 4; out(*a.p); b.p[2] = 1;", "4"),
    ("bad_alloc", "", "try { volatile size_t z = ~(size_t)0 / 4; char *q = new char[z]; out(*q); } catch (std::bad_alloc &) { out(3); }", "3"),
    ("new-handler", "static void @h() { throw 5; }", "std::new_handler o = std::set_new_handler(@h); try { volatile size_t z = ~(size_t)0 / 4; char *q = new char[z]; out(*q); } catch (int e) { out(e); } std::set_new_handler(o);", "5"),
    ("virtual destructor", "struct @B { virtual ~@B() { out(1); } }; struct @D : @B { ~@D() { out(2); } };", "@B *q = new @D; delete q;", "21"),
    ("conversion in delete", "struct @S { int *p; operator int *() { return p; } };", "@S s; s.p = new int; delete s; out(1);", "1"),
    ("delete of an expression", "struct @S { int v; @S(int x) : v(x) {} ~@S() { out(v); } };", "@S *a = new @S(1), *b = new @S(2); delete (c ? a : b); delete (c ? b : a); @S *q[2]; q[0] = new @S(3); c = 0; delete q[c++]; out(c);", "2131"),
    ("checked array member", "struct @S { int a[3]; int get(int i) { CA_DECLARE(a, 3); return CA_REF(a, i); } };", "@S s; s.a[2] = 5; out(s.get(2));", "5"),
    ("function protection, reference", "static int &@f(int &a) { DUMA_FN_PROT_START DUMA_FN_PROT_RET(a); DUMA_FN_PROT_END }", "int v = 4; @f(v) += 1; out(v);", "5"),
    ("function protection, class", "struct @S { ~@S() { out(2); } }; static int @f() { DUMA_FN_PROT_START @S s; (void)s; DUMA_FN_PROT_RET(7); DUMA_FN_PROT_END }", "out(@f());", "27"),
    ("function protection, template", "template <class T> T @f(T a) { DUMA_FN_PROT_START if (a > T()) DUMA_FN_PROT_RET(a); DUMA_FN_PROT_END return T(9); }", "out(@f(4)); out((int)@f(-1.5));", "49"),
    ("malloc in C++", "", "char *q = static_cast<char *>(malloc(3)); q[2] = 1; free(q); out((long)strlen(\"ab\"));", "2"),
]
# the macros for programs that don't want the keywords replaced: they exist in debug code with the old macros only
OLD_USES = [
    ("NEW_ELEM", "struct @S { int a, b; @S(int x, int y) : a(x), b(y) {} ~@S() { out(b); } };", "int *q = NEW_ELEM(int); *q = 6; out(*q); DEL_ELEM(q); @S *s = NEW_ELEM(@S(3, 4)); DEL_ELEM(s);", "64"),
    ("NEW_ARRAY", "struct @S { ~@S() { out(1); } };", "@S *q = NEW_ARRAY(@S, 1 + 2); DEL_ARRAY(q); DEL_ARRAY((@S *)0);", "111"),
    ("NEW_ELEM_NOTHROW", "", "int *q = NEW_ELEM_NOTHROW(int); DEL_ELEM_NOTHROW(q); q = NEW_ARRAY_NOTHROW(int, 4); DEL_ARRAY_NOTHROW(q); out(q != 0);", "1"),
    ("NEW_ELEM, no memory", "struct @S { char x[1]; };", "volatile size_t z = ~(size_t)0 / 4; out(NEW_ARRAY_NOTHROW(@S, z) == 0); try { @S *q = NEW_ARRAY(@S, z); out(q->x[0]); } catch (std::bad_alloc &) { out(4); }", "14"),
    ("DEL_ELEM of a choice", "struct @S { int v; @S(int x) : v(x) {} ~@S() { out(v); } };", "@S *a = NEW_ELEM(@S(1)), *b = NEW_ELEM(@S(2)); DEL_ELEM(c ? a : b); DEL_ELEM(c ? b : a);", "21"),
    ("DEL_ARRAY of a choice", "struct @S { int v; @S() : v(3) {} ~@S() { out(v); } };", "@S *a = NEW_ARRAY(@S, 2), *b = NEW_ARRAY(@S, 1); DEL_ARRAY(c ? a : b); out(0); DEL_ARRAY_NOTHROW(c ? b : a); a = NEW_ELEM(@S); DEL_ELEM_NOTHROW(c ? b : a);", "30333"),
    ("DEL_ELEM in if else", "struct @S { int v; @S(int x) : v(x) {} ~@S() { out(v); } };", "@S *a[2]; a[0] = NEW_ELEM(@S(1)); a[1] = NEW_ELEM(@S(2)); for (c = 0; c < 2; ++c) if (c) DEL_ELEM(a[0]); else DEL_ELEM(a[1]);", "21"),
    ("DEL_ELEM of arithmetic and assignments", "struct @S { int v; @S(int x) : v(x) {} ~@S() { out(v); } };", "@S *a = NEW_ELEM(@S(4)), *q; DEL_ELEM(q = a); a = NEW_ELEM(@S(5)) + 1; DEL_ELEM(a - 1); out(q != 0);", "451"),
    ("NEW_ELEM of a pointer type", "", "int **q = NEW_ELEM(int *); *q = 0; out(*q == 0); DEL_ELEM(q); q = NEW_ARRAY(int *, 2); DEL_ARRAY(q);", "1"),
]
OLD_USES += [(n + " (nothrow)", d, re.sub(r"\b(DEL_ELEM|DEL_ARRAY)\(", r"\1_NOTHROW(", b), e) for n, d, b, e in OLD_USES if re.search(r"\bDEL_(ELEM|ARRAY)\(", b)]
OLDNAMES = {u[0] for u in OLD_USES}
# after noduma.h: the names belong to the program again, in debug code too
NAMES = "malloc calloc free memalign posix_memalign realloc valloc malloc_usable_size aligned_alloc strdup memcpy memmove strcpy strncpy strcat strncat".split()
XNAMES = "new delete new_NOTHROW NEW_ELEM NEW_ARRAY NEW_ELEM_NOTHROW NEW_ARRAY_NOTHROW DEL_ELEM DEL_ARRAY DEL_ELEM_NOTHROW DEL_ARRAY_NOTHROW".split()
MNAMES = "DUMA_SET_ALIGNMENT DUMA_SET_PROTECT_BELOW DUMA_SET_FILL DUMA_FN_PROT_START DUMA_FN_PROT_END DUMA_FN_PROT_RET DUMA_FN_PROT_RET_VOID CA_DECLARE CA_DEFINE CA_REF".split()
AFTER = {"c": [("duma.h", "noduma.h"), ("noduma.h", "duma.h", "noduma.h"), ("duma.h", "duma.h", "noduma.h", "noduma.h")],
         "c++": [("dumapp.h", "noduma.h"), ("duma.h", "dumapp.h", "noduma.h"), ("duma.h", "noduma.h"), ("dumapp.h", "noduma.h", "dumapp.h", "duma.h", "noduma.h")]}


def foreign(lang, std, order, late):
    """A program that uses all the replaced names for itself."""
    new = std not in ("c++98", "gnu++98")
    inc = ["<%s>" % h for h in (SYS[lang] if not late else SYS[lang][:1])] + ['"%s"' % h for h in order] + (["<%s>" % h for h in LATE[lang]] if late else [])
    s = "#define _GNU_SOURCE 1\n" + "".join("#include %s\n" % h for h in inc)
    for n in NAMES:
        s += "struct s_%s { int %s; int (*f)(int); }; static int g_%s(struct s_%s *s, int v) { s->%s = v; return s->%s; }\n" % (n, n, n, n, n, n)
    for n in MNAMES + (XNAMES[2:] if lang == "c++" else []):
        s += "static int %s(int a) { return a + %d; }\n" % (n, len(n))
    if lang == "c++":
        s += """struct Own { static int n; int v; void *operator new(size_t z) { ++n; return ::operator new(z); } void *operator new(size_t, void *p) { return p; } void *operator new[](size_t z, int) { n += 10; return ::operator new[](z); }
  void operator delete(void *p) { n += 100; ::operator delete(p); } void operator delete[](void *p) { n += 1000; ::operator delete[](p); } void operator delete[](void *p, int) { ::operator delete[](p); } };
int Own::n;
struct Al { void *malloc(size_t n) { return ::operator new(n); } void free(void *p) { ::operator delete(p); } };
template <class T> T *make(T v) { return new (std::nothrow) T(v); }
"""
        if new:
            s += "struct No { No() = default; No(const No &) = delete; void operator=(const No &) = delete; int v = 3; };\n"
    s += "int main(void) {\n"
    for n in NAMES:
        s += "  { struct s_%s s; printf(\"%%d \", g_%s(&s, %d)); }\n" % (n, n, len(n))
    for n in MNAMES + (XNAMES[2:] if lang == "c++" else []):
        s += "  printf(\"%%d \", %s(1));\n" % n
    if lang == "c++":
        s += """  { char b[sizeof(Own)]; Own *o = new (b) Own; o->v = 4; Own *q = new Own, *r = new (7) Own[2]; delete q; delete[] r; printf("%d %d ", o->v, Own::n); }
  { Al a; a.free(a.malloc(3)); int *p = make<int>(4); printf("%d ", *p); delete p; void *v = operator new(3, std::nothrow); operator delete(v); }
"""
        if new:
            s += "  { No *q = new No; printf(\"%d \", q->v); delete q; }\n"
    s += "  { void *a = malloc(3); a = (realloc)(a, 9); memset(a, 0, 9); free(a); }\n  return 0;\n}\n"
    exp = [str(len(n)) for n in NAMES] + [str(1 + len(n)) for n in MNAMES + (XNAMES[2:] if lang == "c++" else [])] + (["4", "1111", "4"] + (["3"] if new else []) if lang == "c++" else [])
    return s, " ".join(exp)


PRELUDE = '''
static void out(long v) { printf("%ld", v); }
static int sen; static int se(void) { return ++sen; }
#define TWICE(X) X; X
#define PASS(X) (X, 1)
'''
SYS = {"c": ["stdlib.h", "string.h", "malloc.h", "stdio.h"], "c++": ["new", "cstdlib", "cstring", "malloc.h", "cstdio"]}
LATE = {"c": ["stdio.h", "string.h", "malloc.h", "time.h", "search.h", "glob.h", "pthread.h", "wchar.h"], "c++": ["vector", "memory", "map", "string", "iostream", "algorithm", "cstring", "malloc.h", "cstdio"]}
ORDERS = {"c": [("duma.h",), ("duma.h", "duma.h"), ("duma.h", "noduma.h", "duma.h"), ("noduma.h", "duma.h")],
          "c++": [("dumapp.h",), ("duma.h", "dumapp.h"), ("dumapp.h", "duma.h"), ("dumapp.h", "noduma.h", "dumapp.h"), ("noduma.h", "duma.h", "dumapp.h"), ("dumapp.h", "dumapp.h"), ("duma.h", "dumapp.h", "noduma.h", "dumapp.h", "duma.h")]}


def uses(lang, std):
    new = std not in ("c++98", "gnu++98")
    r = []
    for m in STMT:
        for name, body, exp in CTX + (XCTX if lang == "c++" else []) + (X11 if lang == "c++" and new else []):
            r.append(("%s: %s" % (m, name), "", "int c = 0, d = 0; void *p = &c; (void)p; (void)d; (void)se; " + body.replace("@", m) + " (void)c; (void)d;", exp))
    r += C_USES
    if lang == "c++":
        r += [(n, d, "int c = 0; (void)c; " + b, e) for n, d, b, e in X_USES + OLD_USES]
    return r


def source(lang, order, late, us, debug):
    s = "#define _GNU_SOURCE 1\n"
    inc = ["<%s>" % h for h in SYS[lang]] if not late else []
    inc += ['"%s"' % h for h in order]
    if late:
        inc += ["<%s>" % h for h in LATE[lang]]
    s += "".join("#include %s\n" % h for h in inc) + PRELUDE + ("#define NTNEW new%s\n" % ("" if debug else " (std::nothrow)"))
    for i, (n, d, b, e) in enumerate(us):
        s += "%s\nstatic void u%d_t(void) { %s }\n" % (d.replace("@", "u%d_" % i), i, b.replace("@", "u%d_" % i))
    return s + "int main(void) {\n" + "".join('  printf("%d: "); u%d_t(); if (sen) printf(" evaluated"); sen = 0; printf("\\n");\n' % (i, i) for i in range(len(us))) + "  return 0;\n}\n"


def compile_(cc, lang, std, d, inc, src, more, out=None):
    f = os.path.join(d, "p." + ("c" if lang == "c" else "cpp"))
    with open(f, "w") as h:
        h.write(src)
    return drv.sh([cc, "-x", lang, "-std=" + std, "-w", "-O0", "-fno-builtin", "-I" + inc] + list(more) + ([f, "-o", out] if out else ["-fsyntax-only", f]), check=False)


def check_C24():
    c = Check("C24", {"compile", "output", "symbol"})
    w, t = c.work, c.thorough
    inc = {}

    def conf(k):
        d = os.path.join(w.dir, "inc-" + k.replace(" ", "-"))
        os.makedirs(d)
        for f in glob.glob(os.path.join(drv.REPO, "*.h")):
            if os.path.basename(f) != "duma_config.h":
                shutil.copy(f, d)
        shutil.copy(os.path.join(drv.REPO, "createconf.c"), d)
        drv.sh(["gcc"] + CONFS[k] + ["createconf.c", "-o", "createconf"], cwd=d)
        drv.sh(["./createconf"], cwd=d, check=False, env=BASEENV)
        inc[k] = d
    with ThreadPoolExecutor(drv.CPUS) as ex:
        list(ex.map(conf, CONFS))
    plan = []
    LANGS = [("c", s, cc) for s in ("gnu89", "gnu99", "gnu11", "gnu17", "gnu2x") for cc in ("gcc", "clang")] + [("c++", s, cc) for s in ("c++98", "c++11", "c++14", "c++17", "c++20", "c++23", "gnu++17") for cc in ("g++", "clang++")]
    for lang, std, cc in LANGS:
        for k in CONFS:
            for oi, order in enumerate(ORDERS[lang]):
                for late in (0, 1):
                    lead = cc in ("gcc", "g++") and std in ("gnu89", "gnu17", "c++98", "c++17")
                    if t or lead and (k in ("default", "old macros") or oi == 0) or k == "default" and oi < 2 or (oi == 0 and not late and cc in ("clang", "clang++")):
                        plan.append((lang, std, cc, k, order, late))
    legal, isolated = {}, [0]

    def legal_one(a):
        """Which uses debug code accepts."""
        lang, std = a
        cc = "gcc" if lang == "c" else "g++"
        d = tempfile.mkdtemp(dir=w.dir)
        us, res = uses(lang, std), {}
        for k in ("default", "old macros"):
            todo = [u for u in us if (u[0] in OLDNAMES) == (k == "old macros")]
            rc, txt = compile_(cc, lang, std, d, inc[k], source(lang, ORDERS[lang][0], 0, todo, k == "default"), [])
            for u in todo:
                res[u[0]] = rc == 0 or compile_(cc, lang, std, d, inc[k], source(lang, ORDERS[lang][0], 0, [u], k == "default"), [])[0] == 0
        legal[a] = res

    def one(a):
        lang, std, cc, k, order, late = a
        lab = "%s -std=%s, %s, %s, %s" % (cc, std, k, " then ".join(order), "system headers after" if late else "system headers before")
        us = [u for u in uses(lang, std) if legal[(lang, std)][u[0]]]
        d = tempfile.mkdtemp(dir=w.dir)
        exe = os.path.join(d, "p")
        rc, txt = compile_(cc, lang, std, d, inc[k], source(lang, order, late, us, False), ["-DDUMA_NO_DUMA"], exe)
        r = []
        if rc:
            def err(txt):
                return " | ".join([l.split("error: ", 1)[-1] for l in txt.splitlines() if "error: " in l or "undefined" in l][:3] or [txt[-300:]])

            def bad_uses(us):
                """Up to three uses that don't build alone."""
                rc1, txt1 = compile_(cc, lang, std, d, inc[k], source(lang, order, late, us, False), ["-DDUMA_NO_DUMA"], exe)
                if not rc1 or len(r) > 2:
                    return
                if len(us) == 1:
                    r.append(("compile", "does not build with DUMA_NO_DUMA, although debug code accepts it: " + err(txt1), "%s (%s)" % (us[0][0], lab)))
                else:
                    bad_uses(us[:len(us) // 2])
                    bad_uses(us[len(us) // 2:])
            if isolated[0] < 24:
                isolated[0] += 1
                bad_uses(us)
            if not r:
                r.append(("compile", "all uses together do not build: " + err(txt), lab))
        else:
            p = subprocess.run([exe], env=BASEENV, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            got = p.stdout.decode("utf-8", "replace").splitlines()
            for i, u in enumerate(us):
                g = got[i] if i < len(got) else "(nothing)"
                if g != "%d: %s" % (i, u[3]):
                    r.append(("output", "the program printed '%s' instead of '%s'" % (g, u[3]), "%s (%s)" % (u[0], lab)))
            if p.returncode or p.stderr:
                r.append(("output", "the program ended with status %s: %r" % (p.returncode, p.stderr[-200:]), lab))
            n = drv.sh(["nm", "-C", exe])[1]
            bad = [l for l in n.splitlines() if re.search(r"duma", l, re.I) or re.search(r" [TtWV] operator (new|delete)\b", l)]
            if bad:
                r.append(("symbol", "the program contains or needs %s" % bad[:3], lab))
        shutil.rmtree(d)
        return r, len(us)
    ls = sorted({(p[0], p[1]) for p in plan})
    with ThreadPoolExecutor(drv.CPUS) as ex:
        list(ex.map(legal_one, ls))
        res = list(ex.map(one, plan))
    for k in legal:
        miss = [u for u in legal[k] if not legal[k][u]]
        if miss:
            c.cov.setdefault("uses_debug_code_does_not_accept", {})[" ".join(k)] = miss
    for r, n in res:
        for v in r:
            c.violation(*v)
    aft = [(lang, std, cc, k, order, late, nd) for lang, std, cc in LANGS for k in CONFS for order in AFTER[lang] for late in (0, 1) for nd in (0, 1)
           if t or cc in ("gcc", "g++") and (k in ("default", "old macros") or order == AFTER[lang][0] and not late) or k == "default" and order == AFTER[lang][0]]

    def after(a):
        lang, std, cc, k, order, late, nd = a
        lab = "%s -std=%s, %s, %s, %s, %s" % (cc, std, k, " then ".join(order), "system headers after" if late else "system headers before", "DUMA_NO_DUMA" if nd else "debug code")
        d = tempfile.mkdtemp(dir=w.dir)
        exe = os.path.join(d, "p")
        src, exp = foreign(lang, std, order, late)
        rc, txt = compile_(cc, lang, std, d, inc[k], src, ["-DDUMA_NO_DUMA"] if nd else [], exe) if nd else compile_(cc, lang, std, d, inc[k], src, [])
        r = []
        if rc:
            r.append(("compile", "a program with names of its own does not build after noduma.h: " + " | ".join([l.split("error: ", 1)[-1] for l in txt.splitlines() if "error: " in l or "undefined" in l][:3] or [txt[-300:]]), lab))
        elif nd:
            p = subprocess.run([exe], env=BASEENV, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            if p.returncode or p.stdout.decode().split() != exp.split():
                r.append(("output", "after noduma.h the program printed %r instead of %r" % (p.stdout.decode()[-200:], exp[-200:]), lab))
        shutil.rmtree(d)
        return r
    with ThreadPoolExecutor(drv.CPUS) as ex:
        for r in ex.map(after, aft):
            for v in r:
                c.violation(*v)
    c.add("names free again after noduma.h", transitions=len(aft), traces=len(aft), states=len(aft), sample="programs using every replaced name, class operators, placement new, deleted functions; DUMA_NO_DUMA and debug code")
    tot = sum(n for r, n in res)
    c.add("uses x languages x configurations x header orders", transitions=tot, traces=len(plan), states=tot, sample="%d uses in each of %d builds" % (tot // max(1, len(plan)), len(plan)))
    return c.finish()
