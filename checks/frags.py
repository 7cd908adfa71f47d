"""Program fragments of known value that lean on different parts of compiler, linker and runtime.

Each takes (rng, unique number) and returns (source A, source B or '', value); source A defines
int fr_N(void), which yields the value; source B may live in another translation unit."""

ATT = '#undef __attribute__\n'   # glibc's headers define it away for compilers that are not gcc

def strtab(rng, u):
    a = 'static const char *names_%d[] = { "alpha" + 1, "beta", "gam" "ma" };\nstatic const char **pp_%d = &names_%d[1];\nint fr_%d(void) { return names_%d[0][0] * 10000 + pp_%d[0][2] * 100 + pp_%d[1][4]; }\n' % ((u,) * 7)
    return a, '', ord('l') * 10000 + ord('t') * 100 + ord('a')

def bss(rng, u):
    n = rng.choice([1000, 5000, 70000])
    a = 'static int z_%d[%d]; static char after_%d;\nint fr_%d(void) { int i, t = after_%d; for (i = 0; i < %d; i++) t += z_%d[i] != 0; z_%d[%d - 1] = 7; return t + z_%d[%d - 1]; }\n' % (u, n, u, u, u, n, u, u, n, u, n)
    return a, '', 7

def common(rng, u):
    v = rng.randrange(1, 9999)
    return 'int com_%d; void set_%d(void);\nint fr_%d(void) { set_%d(); return com_%d; }\n' % ((u,) * 5), 'int com_%d;\nvoid set_%d(void) { com_%d = %d; }\n' % (u, u, u, v), v

def comdef(rng, u):
    v = rng.randrange(1, 9999)
    return 'int cd_%d;\nint fr_%d(void) { return cd_%d; }\n' % (u, u, u), 'int cd_%d = %d;\n' % (u, v), v

def weakstrong(rng, u):
    v = rng.randrange(1, 9999)
    return ATT + '__attribute__((weak)) int ws_%d(void) { return 0; }\nint fr_%d(void) { return ws_%d(); }\n' % (u, u, u), 'int ws_%d(void) { return %d; }\n' % (u, v), v

def alias(rng, u):
    v = rng.randrange(1, 9999)
    return 'int al_%d(void);\nint fr_%d(void) { return al_%d() + 1; }\n' % (u, u, u), ATT + 'int real_%d(void) { return %d; }\nint al_%d(void) __attribute__((alias("real_%d")));\n' % (u, v, u, u), v + 1

def datareloc(rng, u):
    n = rng.randrange(3, 40)
    k = rng.randrange(1, n)
    return 'extern int dr_%d[]; static int *p_%d = &dr_%d[%d]; static long d_%d = (long)&dr_%d[1];\nint fr_%d(void) { return *p_%d * 3 + *(int *)d_%d; }\n' % (u, u, u, k, u, u, u, u, u), 'int dr_%d[] = { %s };\n' % (u, ', '.join(str(i * 11) for i in range(n))), k * 33 + 11

def fptrs(rng, u):
    a = 'extern int (*const fp_%d[3])(int);\nint fr_%d(void) { int i, t = 1; for (i = 0; i < 3; i++) t = fp_%d[i](t); return t; }\n' % (u, u, u)
    b = 'static int a_%d(int x) { return x + 4; }\nint b_%d(int x) { return x * 6; }\nstatic int c_%d(int x) { return x - 9; }\nint (*const fp_%d[3])(int) = { a_%d, b_%d, c_%d };\n' % ((u,) * 7)
    return a, b, (1 + 4) * 6 - 9

def structs(rng, u):
    x, y, z = (rng.randrange(1, 500) for _ in range(3))
    t = '#ifndef ST_%d\n#define ST_%d\nstruct s2_%d { double a, b; }; struct s3_%d { long a, b, c; }; struct sm_%d { int a; float b; char c; };\n#endif\n' % (u, u, u, u, u)
    a = t + 'struct s2_%d m2_%d(struct s3_%d, struct sm_%d); struct s3_%d m3_%d(struct s2_%d, int);\nint fr_%d(void) { struct s3_%d q = { %d, %d, %d }; struct sm_%d m = { 3, 0.5f, 7 }; struct s2_%d r = m2_%d(q, m); q = m3_%d(r, 2); return (int)(q.a + q.b * 10 + q.c * 100); }\n' % (u, u, u, u, u, u, u, u, u, x, y, z, u, u, u, u)
    b = t + 'struct s2_%d m2_%d(struct s3_%d q, struct sm_%d m) { struct s2_%d r; r.a = q.a + q.b * m.b; r.b = q.c + m.a * m.c; return r; }\nstruct s3_%d m3_%d(struct s2_%d r, int n) { struct s3_%d q; q.a = (long)(r.a * 2); q.b = (long)r.b; q.c = n; return q; }\n' % ((u,) * 9)
    return a, b, int((x + y * .5) * 2) + (z + 21) * 10 + 200

def vargs(rng, u):
    a = '#include <stdarg.h>\nint va_%d(const char *, ...);\nint fr_%d(void) { return va_%d("idlsdi", 3, 2.5, 100000000000L, "xyz", 1e3, -4); }\n' % (u, u, u)
    b = '#include <stdarg.h>\nint va_%d(const char *f, ...) { va_list ap, aq; int t = 0; va_start(ap, f); va_copy(aq, ap); for (; *f; f++) switch (*f) { case 105: t += va_arg(ap, int); break; case 100: t += (int)(va_arg(ap, double) * 2); break; case 108: t += (int)(va_arg(ap, long) / 10000000000L); break; default: t += va_arg(ap, char *)[2]; } t += va_arg(aq, int) * 7; va_end(aq); va_end(ap); return t; }\n' % u
    return a, b, 3 + 5 + 10 + ord('z') + 2000 - 4 + 21

def floats(rng, u):
    k = rng.randrange(2, 200)
    a = 'int fr_%d(void) { float f = %d.25f; double d = f * 3; long double l = d / 2; unsigned long long q = 0x8000000000000000ULL; double e = (double)q; return (int)(l * 8) + (int)(e / 1152921504606846976.0) + (d > f) + (int)-1.9f + (f != f) + (unsigned)3000000000.0 / 1000000000u; }\n' % (u, k)
    return a, '', int((k + .25) * 3 / 2 * 8) + 8 + 1 - 1 + 3

def switchtab(rng, u):
    n = rng.randrange(5, 60)
    a = 'static int sw_%d(int x) { switch (x) {%s default: return -1; } }\nint fr_%d(void) { int i, t = 0; for (i = -2; i < %d; i++) t += sw_%d(i); return t; }\n' % (u, ''.join(' case %d: return %d;' % (i, i * i % 17) for i in range(n)), u, n + 3, u)
    return a, '', sum(i * i % 17 for i in range(n)) - 5

def gotos(rng, u):
    return 'int fr_%d(void) { static void *t[] = { &&a, &&b, &&c }; int n = 0, i = 0; goto *t[1]; a: n += 1; if (++i < 3) goto *t[2]; return n; b: n += 10; goto *t[0]; c: n += 100; goto *t[i %% 2]; }\n' % u, '', None

def vla(rng, u):
    n = rng.randrange(3, 300)
    return '#include <alloca.h>\nint fr_%d(void) { int n = %d, i, t = 0; int v[n]; char *p = alloca(n + 13); for (i = 0; i < n; i++) { v[i] = i; p[i] = i & 15; } for (i = 0; i < n; i++) t += v[i] + p[i]; return t + sizeof v; }\n' % (u, n), '', sum(i + (i & 15) for i in range(n)) + 4 * n

def bitfields(rng, u):
    a, b, c = rng.randrange(8), rng.randrange(-16, 16), rng.randrange(1 << 11)
    return ATT + 'struct bf_%d { unsigned a : 3; int b : 5; unsigned long long c : 40; unsigned d : 1; } __attribute__((packed)); static struct bf_%d bf_%d = { %d, %d, %dULL, 1 };\nint fr_%d(void) { bf_%d.c += 5; return bf_%d.a + bf_%d.b * 10 + (int)(bf_%d.c >> 20) + bf_%d.d * 7 + sizeof(struct bf_%d) * 100000; }\n' % (u, u, u, a, b, c << 20, u, u, u, u, u, u, u), '', a + b * 10 + c + 7 + 700000

def designated(rng, u):
    n = rng.randrange(5, 50)
    return 'struct de_%d { int a, b[3]; struct { short x, y; } in; const char *s; };\nstatic struct de_%d de_%d[] = { [%d] = { .in.y = 4, .b[1] = 5, .s = "q" }, [2].a = 9, [3] = { .b = { 1, 2, 3 } } };\nint fr_%d(void) { int i, t = 0, n = sizeof de_%d / sizeof de_%d[0]; for (i = 0; i < n; i++) t += de_%d[i].a + de_%d[i].b[1] * 10 + de_%d[i].in.y * 100 + (de_%d[i].s ? *de_%d[i].s : 0); return t * 100 + n; }\n' % (u, u, u, n, u, u, u, u, u, u, u, u), '', (9 + (50 + 20) + 400 + ord('q')) * 100 + n + 1

def generic(rng, u):
    return '#define K_%d(x) _Generic((x), int: 1, double: 20, char *: 300, default: 4000)\nint fr_%d(void) { char c[2] = "a"; return K_%d(5) + K_%d(2.0) + K_%d(&c[0]) + K_%d(5L) + ((struct { int a, b; }){ 6, 70000 }).b + ({ int y = 3; y * y; }); }\n' % ((u,) * 6), '', 4321 + 70000 + 9

def statics(rng, u):
    n = rng.randrange(2, 30)
    return 'static int st_%d(void) { static int n = 5; static int *p = &n; *p += 3; return n; }\nint fr_%d(void) { int i, t = 0; for (i = 0; i < %d; i++) t = st_%d(); return t; }\n' % (u, u, n, u), '', 5 + 3 * n

def recur(rng, u):
    n = rng.randrange(5, 18)
    f = [0, 1]
    while len(f) <= n:
        f.append(f[-1] + f[-2])
    return 'int ra_%d(int);\nint rb_%d(int n) { return n < 2 ? n : ra_%d(n - 1) + rb_%d(n - 2); }\nint fr_%d(void) { return rb_%d(%d); }\n' % (u, u, u, u, u, u, n), 'int rb_%d(int);\nint ra_%d(int n) { return n < 2 ? n : rb_%d(n - 1) + ra_%d(n - 2); }\n' % ((u,) * 4), f[n]

def ints(rng, u):
    a, b = rng.randrange(1 << 40, 1 << 62), rng.randrange(3, 1 << 20)
    return 'unsigned long long ia_%d = %dULL; long long ib_%d = -%dLL;\nint fr_%d(void) { return (int)(ia_%d / %du %% 1000003) + (int)(ib_%d / %d %% 1000) + (int)(ia_%d >> 33 & 0xffff) + (int)(ib_%d >> 40 & 0xff) + (unsigned char)ia_%d + (signed char)0x85; }\n' % (u, a, u, a, u, u, b, u, b, u, u, u), '', \
        a // b % 1000003 - (a // b) % 1000 + (a >> 33 & 0xffff) + ((-a) >> 40 & 0xff) + (a & 255) - 123

def aligned(rng, u):
    al = rng.choice([16, 32, 64, 128, 4096])
    return ATT + 'char oa_%d = 3; int av_%d __attribute__((aligned(%d))) = 5; static char ob_%d; static double aw_%d[3] __attribute__((aligned(%d)));\nint fr_%d(void) { return (int)((unsigned long)&av_%d %% %d) + (int)((unsigned long)aw_%d %% %d) + oa_%d + ob_%d + av_%d; }\n' % (u, u, al, u, u, al, u, u, al, u, al, u, u, u), '', 8

def callback(rng, u):
    n = rng.randrange(2, 40)
    v = [(i * 37 + 11) % 101 for i in range(n)]
    return '#include <stdlib.h>\nstatic int cmp_%d(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }\nint fr_%d(void) { int v[] = { %s }, i, t = 0; qsort(v, %d, sizeof v[0], cmp_%d); for (i = 0; i < %d; i++) t = (t * 7 + v[i]) %% 100003; return t; }\n' % (u, u, ', '.join(map(str, v)), n, u, n), '', _h(sorted(v))

def _h(v):
    t = 0
    for x in v:
        t = (t * 7 + x) % 100003
    return t

def jumps(rng, u):
    return '#include <setjmp.h>\nstatic jmp_buf jb_%d; static void deep_%d(int n) { if (n) deep_%d(n - 1); else longjmp(jb_%d, 42); }\nint fr_%d(void) { volatile int k = 5; int r = setjmp(jb_%d); if (!r) { k = 6; deep_%d(20); } return r * 10 + k; }\n' % ((u,) * 7), '', 426

def libcdata(rng, u):
    return '#include <stdio.h>\n#include <errno.h>\n#include <string.h>\n#include <ctype.h>\nint fr_%d(void) { char b[40]; FILE *f = stderr; errno = 0; snprintf(b, sizeof b, "%%5.2f|%%-4d|%%s", 3.14159, 42, "end"); return (f != 0) + errno + (int)strlen(b) + (isalpha(65) != 0) + toupper(97); }\n' % u, '', 1 + 14 + 1 + 65

def macros(rng, u):
    return '#define CAT_(a, b) a##b\n#define CAT(a, b) CAT_(a, b)\n#define STR_(x) #x\n#define STR(x) STR_(x)\n#define SUM_%d(a, ...) (a + sum_%d(__VA_ARGS__, 0))\n#include <stdarg.h>\nstatic int sum_%d(int x, ...) { va_list ap; int t = 0; va_start(ap, x); while (x) { t += x; x = va_arg(ap, int); } va_end(ap); return t; }\n#line 700\nint fr_%d(void) { int CAT(v, 7) = __LINE__; return v7 + sizeof(STR(a b  c)) + SUM_%d(5, 6, 7)\n#if defined(__TINYC__) && (1 ? 2 : 3) == 2 && !defined(NOPE_%d)\n+ 1000\n#endif\n; }\n#undef CAT\n#undef CAT_\n#undef STR\n#undef STR_\n' % ((u,) * 6), '', 700 + 6 + 18 + 1000

def bigframe(rng, u):
    n = rng.choice([5000, 60000])
    return 'static int bf2_%d(char *p, int n) { int i, t = 0; for (i = 0; i < n; i += 97) t += p[i]; return t; }\nint fr_%d(void) { char b[%d]; int i; for (i = 0; i < %d; i++) b[i] = i %% 5; return bf2_%d(b, %d); }\n' % (u, u, n, n, u, n), '', sum(i % 5 for i in range(0, n, 97))

def manyfns(rng, u):
    n = rng.choice([30, 260, 600])
    return 'int mf_%d_%d(int);\nint fr_%d(void) { return mf_%d_%d(1); }\n' % (u, n - 1, u, u, n - 1), 'int mf_%d_0(int x) { return x; }\n' % u + ''.join('int mf_%d_%d(int x) { return mf_%d_%d(x) + 1; }\n' % (u, i, u, i - 1) for i in range(1, n)), n

def longnames(rng, u):
    nm = 'a_rather_long_name_' + 'x' * rng.choice([1, 60, 230, 900]) + '_%d' % u
    return 'extern int %s;\nint fr_%d(void) { return %s; }\n' % (nm, u, nm), 'int %s = 77;\n' % nm, 77

def strings(rng, u):
    n = rng.choice([300, 5000, 20000])
    return 'static const char ls_%d[] = "%s"; const unsigned short wide_%d[] = { 1, 2, 3 };\nint fr_%d(void) { int i, t = 0; for (i = 0; ls_%d[i]; i++) t += ls_%d[i]; return t + sizeof ls_%d + L\'\\x41\' + wide_%d[2] + "a\\0b\\x7f\\101"[3]; }\n' % (u, ''.join(chr(97 + i % 26) for i in range(n)), u, u, u, u, u, u), '', sum(97 + i % 26 for i in range(n)) + n + 1 + 0x41 + 3 + 127

def idents(rng, u):
    return 'static int gr\u00f6\u00dfe_%d(int $x) { int \u03c0 = $x + 3, _\u00e9t\u00e9 = 2; return \u03c0 * _\u00e9t\u00e9; }\nint fr_%d(void) { return gr\u00f6\u00dfe_%d(%d); }\n' % (u, u, u, u), '', (u + 3) * 2

def counter(rng, u):
    return 'enum { c0_%d = __COUNTER__, c1_%d = __COUNTER__, c2_%d = __COUNTER__ };\nint fr_%d(void) { return (c1_%d - c0_%d) * 10 + c2_%d - c1_%d; }\n' % ((u,) * 8), '', 11

def ctor(rng, u):
    v = rng.randrange(1, 999)
    return ATT + 'extern int cv_%d; static int cw_%d; __attribute__((constructor)) static void ci_%d(int argc, char **argv, char **envp) { cw_%d = argc > 0 && argv[0] && envp; }\nint fr_%d(void) { return cv_%d * 10 + cw_%d; }\n' % ((u,) * 7), \
        ATT + 'int cv_%d = 2; __attribute__((constructor)) void cj_%d(void) { cv_%d += %d; }\n' % (u, u, u, v), (v + 2) * 10 + 1

def dtor(rng, u):
    """Has more to say when main has returned: see gen_prog."""
    return ATT + '#include <stdio.h>\n#include <stdlib.h>\nstatic int dv_%d; __attribute__((destructor)) static void de_%d(void) { printf("dtor %%d\\n", dv_%d); }\nstatic void ex_%d(void) { dv_%d += 4; }\nint fr_%d(void) { dv_%d = 30; return atexit(ex_%d); }\n' % ((u,) * 8), '', 0

def named(rng, u):
    v, w, k = rng.randrange(1, 999), rng.randrange(1, 999), rng.randrange(1, 99)
    d = ATT + '#ifndef IN_%d\nstruct ns_%d { int k; const char *s; };\n#define IN_%d __attribute__((section("set_%d")))\n#endif\n' % (u, u, u, u)
    a = d + 'extern struct ns_%d __start_set_%d[], __stop_set_%d[]; extern int nv_%d, nz_%d; int nf_%d(int);\nstruct ns_%d na_%d IN_%d = { %d, "a" };\nint fr_%d(void) { struct ns_%d *p; int t = 0; nv_%d += 3; nz_%d++; for (p = __start_set_%d; p < __stop_set_%d; p++) t += p->k++; return t * 100 + nf_%d(nv_%d + nz_%d); }\n' % (u, u, u, u, u, u, u, u, u, v, u, u, u, u, u, u, u, u, u)
    b = d + 'struct ns_%d nb_%d IN_%d = { %d, "b" };\n__attribute__((section("ro_%d"))) const int nc_%d = %d; __attribute__((section("rw_%d"))) int nv_%d = 4; __attribute__((section("rw_%d"))) int nz_%d;\n__attribute__((section("text_%d"))) int nf_%d(int x) { return x + nc_%d; }\n' % (u, u, u, w, u, u, k, u, u, u, u, u, u, u)
    return a, b, (v + w) * 100 + 8 + k

def asmtop(rng, u):
    k, w = rng.randrange(1, 999), rng.randrange(1, 999)
    a = 'extern int av_%d[], ab_%d[]; extern const char *as_%d[]; long af_%d(long), ac_%d(const char *), al_%d(long); int aw_%d(void);\nint fr_%d(void) { ab_%d[3] += 4; return av_%d[1] + ab_%d[3] + (int)af_%d(4) + (int)ac_%d("abcd") + (int)((long (*)(long))as_%d[1])(1) + as_%d[0][1] + aw_%d(); }\n' % ((u,) * 16)
    l = ['.data', '.globl av_%d' % u, 'av_%d:' % u, ' .long %d, %d' % (k, w), '.text', '.globl af_%d' % u, 'af_%d:' % u, ' lea 3(%rdi), %rax', ' ret', '.weak aw_%d' % u, 'aw_%d:' % u, ' mov $5, %eax', ' ret',
         '.section .rodata', 'at_%d:' % u, ' .asciz "text"', '.data', '.align 8', '.globl as_%d' % u, 'as_%d:' % u, ' .quad at_%d, af_%d' % (u, u), '.text', '.globl ac_%d' % u, 'ac_%d:' % u, ' push %rbp', ' call strlen', ' pop %rbp', ' ret', '.bss', '.align 4', '.globl ab_%d' % u, 'ab_%d:' % u, ' .space 100', '.text']
    return a, '#include <string.h>\nstatic int ax_%d(void) { return (int)strlen("x"); }\nint (*const ay_%d)(void) = ax_%d;\n__asm__(\n%s);\n' % (u, u, u, '\n'.join('"%s\\n"' % x.replace('"', '\\"') for x in l)), w + 4 + 7 + 4 + 4 + ord('e') + 5

def cleanups(rng, u):
    k = rng.randrange(2, 6)
    return ATT + 'static int cl_%d; static double cd_%d = 1.5; static void cf_%d(int *p) { cl_%d = cl_%d * 10 + *p; cd_%d += 1; }\nstatic double ch_%d(void) { int q __attribute__((cleanup(cf_%d))) = 0; return cd_%d; }\nstatic int cg_%d(int n) { int q __attribute__((cleanup(cf_%d))) = 4; { int r __attribute__((cleanup(cf_%d))) = 5; if (n == 1) return cl_%d; } while (n) { int s __attribute__((cleanup(cf_%d))) = 6; if (n-- == 2) break; } return n; }\nint fr_%d(void) { int d = ch_%d() * 2, a = cg_%d(1), b = cg_%d(%d); return cl_%d + a + b + d; }\n' % ((u,) * 18 + (k, u)), '', int('54' + '5' + '6' * (k - 1) + '4') + 0 + 1 + 3

def atomics(rng, u):
    n = rng.randrange(1, 900)
    return '#include <stdatomic.h>\nstatic _Atomic int at_%d = 3; static atomic_long au_%d; static _Atomic unsigned short aw_%d = 7; static atomic_flag ax_%d = ATOMIC_FLAG_INIT;\nint fr_%d(void) { int e = 24, r, f; atomic_fetch_add(&at_%d, 4); at_%d++; at_%d *= 3; r = atomic_compare_exchange_strong(&at_%d, &e, %d); atomic_fetch_sub(&au_%d, 9); aw_%d -= 8; f = atomic_flag_test_and_set(&ax_%d); f = f * 2 + atomic_flag_test_and_set(&ax_%d); return atomic_exchange(&at_%d, 12) + at_%d + r + (int)au_%d + aw_%d + f; }\n' % ((u,) * 9 + (n,) + (u,) * 8), '', n + 12 + 1 - 9 + 65535 + 1

def divs(rng, u):
    k = rng.randrange(20, 9999)
    return '#include <stdlib.h>\n#include <string.h>\n#include <time.h>\nint fr_%d(void) { div_t d = div(%d, 7); ldiv_t l = ldiv(-%dL, 10L); struct tm t; time_t z = 86400L * 365; char b[30], *q; memset(&t, 0, sizeof t); gmtime_r(&z, &t); strcpy(b, "12,34"); return d.quot * 7 + d.rem + (int)(l.quot * 10 + l.rem) + t.tm_year + (int)strtol(b, &q, 10) + (int)strtod(q + 1, 0) + (int)(atof("2.5") * 2); }\n' % (u, k, k), '', 71 + 12 + 34 + 5

def ranges(rng, u):
    n = rng.randrange(3, 30)
    return 'static int ra_%d[] = { [0 ... %d] = 7, [2] = 9, [%d] = 1 }; static struct { int n; int v[]; } rf_%d = { 2, { 5, 6 } }; static int *rc_%d = (int[]){ 1, 2, 3 };\nstatic int rk_%d(a, b) int a; char b; { return a + b; }\nstatic int rs_%d(int x) { switch (x) { case -5 ... 4: return 1; case 5 ... 9: return 2; } return 3; }\nint fr_%d(void) { int i, t = 0; for (i = 0; i < (int)(sizeof ra_%d / sizeof *ra_%d); i++) t += ra_%d[i]; return t + rf_%d.v[1] + rc_%d[2] + rk_%d(3, 4) + rs_%d(-5) * 100 + rs_%d(9) * 10 + rs_%d(10) + ({ int y = t; y ?: 5; }) - t; }\n' % ((u, n - 1, n) + (u,) * 14), '', 7 * n + 2 + 1 + 6 + 3 + 7 + 123

def signals(rng, u):
    return '#include <signal.h>\n#include <setjmp.h>\n#include <string.h>\nstatic sigjmp_buf sj_%d; static volatile sig_atomic_t sg_%d; static void sh_%d(int s, siginfo_t *i, void *c) { sg_%d += i->si_signo; if (s == SIGUSR2) siglongjmp(sj_%d, 5); }\nint fr_%d(void) { struct sigaction sa, o; volatile int n = 0; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sh_%d; sa.sa_flags = SA_SIGINFO; sigaction(SIGUSR1, &sa, &o); n = o.sa_handler == SIG_DFL; sigaction(SIGUSR2, &sa, 0); raise(SIGUSR1); if (sigsetjmp(sj_%d, 1) == 0) { raise(SIGUSR2); n += 100; } else n += 10; signal(SIGUSR1, SIG_DFL); signal(SIGUSR2, SIG_DFL); return n * 1000 + sg_%d; }\n' % ((u,) * 9), '', 11022

FRAGS = [asmtop, cleanups, atomics, divs, ranges, signals, named, ctor, dtor, idents, counter, strtab, bss, common, comdef, weakstrong, alias, datareloc, fptrs, structs, vargs, floats, switchtab, vla, bitfields, designated, generic, statics, recur, ints, aligned, callback, jumps, libcdata, macros, bigframe, manyfns, longnames, strings]
