"""Histories of libtcc calls: sources, state life cycles, and running them."""
from builds import *

# Each template: text with @ for a number that makes names unique; functions to call.
T = [
('int fib@(int n){return n<2?n:fib@(n-1)+fib@(n-2);}\nint g@=7;int fa@(int x){g@+=x;return fib@(x%12)*g@;}\n', ['fa@', 'fib@']),
('#include <stdarg.h>\nint sum@(int n,...){va_list a;va_start(a,n);int s=0;while(n--)s+=va_arg(a,int);va_end(a);return s;}\nint fb@(int x){return sum@(5,x,x+1,2,3,@)+sum@(9,1,2,3,4,5,6,7,8,x);}\n', ['fb@']),
('#define CAT_(a,b) a##b\n#define CAT(a,b) CAT_(a,b)\n#define STR_(x) #x\n#define STR(x) STR_(x)\n#define MAXX(a,b) ((a)>(b)?(a):(b))\n#define VA(f,...) f(__VA_ARGS__)\nint CAT(fc,@)(int x){const char*s=STR(CAT(q,@) + MAXX(1,2));int n=0;while(*s)n+=*s++;return VA(MAXX,n,x)+__COUNTER__;}\n', ['fc@']),
('struct p@{int a:3,b:9;long long c;union{double d;char s[12];}u;};\nstatic struct p@ t@[]={{1,200,-3,{1.5}},{.c=@,.b=3,.u.s="abc"},[4]={.a=-1}};\nint fd@(int x){int s=0;for(int i=0;i<sizeof t@/sizeof*t@;i++)s+=t@[i].a*3+t@[i].b+(int)t@[i].c+(x&t@[i].u.s[1]);return s;}\n', ['fd@']),
('int fe@(int x){int r=0;switch(x%9){case 0:r=1;break;case 1 ... 3:r=x*2;case 4:r+=5;break;default:for(;;){if(r++>x)break;if(r%3)continue;}}do{r^=@;}while(r<0);L:if(r&1){r++;goto L;}return r;}\n', ['fe@']),
('typedef int (*op@)(int,int);static int ad@(int a,int b){return a+b;}static int mu@(int a,int b){return a*b;}\nop@ tab@[]={ad@,mu@};int ff@(int x){int v[x%7+1];for(int i=0;i<x%7+1;i++)v[i]=tab@[i&1](i,x);int s=0;for(int i=0;i<x%7+1;i++)s+=v[i];return s+({int z=s;z*2;});}\n', ['ff@']),
('double fl@(double a){return a*1.25+3;}long double ld@=1.5L;int fg@(int x){float f=x/3.0f;unsigned long long u=x;u<<=33;return (int)(fl@(f)*ld@)+(int)(u>>31)+(int)(x/7.0);}\n', ['fg@']),
('static inline int in@(int a){return a*@+1;}\nstatic inline int unused@(int a){return in@(a)*in@(a);}\nint fh@(int x){static int k;return in@(x)+k++;}\n', ['fh@', 'fh@']),
('int fi@(int x){int r;__asm__("movl %1,%0\\n\\taddl $3,%0":"=r"(r):"r"(x):"cc");return r+@;}\n__asm__(".globl lbl@\\nlbl@: .long @,2,3\\n");extern int lbl@[];int fj@(int x){return lbl@[x%3];}\n', ['fi@', 'fj@']),
('#define T@(x) _Generic((x),int:1,double:2,char*:3,default:4)\n_Static_assert(sizeof(int)==4,"i");enum e@{A@=5,B@,C@=B@+@};\nint fk@(int x){return T@(x)*1000+T@(1.0)*100+T@("s")*10+T@(x?x:1LL)+C@;}\n', ['fk@']),
('#pragma pack(push,1)\nstruct k@{char a;int b;short c;};\n#pragma pack(pop)\n#pragma push_macro("M@")\n#define M@ 3\n#pragma pop_macro("M@")\n#ifndef M@\n#define M@ 11\n#endif\nint fm@(int x){return sizeof(struct k@)*x+M@;}\n', ['fm@']),
('const char*s@="long" "er \\x41\\101 \\u00e9" "string";static char buf@[64];int fn@(int x){char*d=buf@;const char*q=s@;while((*d++=*q++));return buf@[x%16]+sizeof("abc")+L"wide"[1];}\n', ['fn@']),
('int emit(int);int fo@(int x){int s=0;for(int i=0;i<x%5+1;i++)s+=emit(x*i+@);return s;}\n', ['fo@']),
('#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\nint fp@(int x){char b[40];snprintf(b,sizeof b,"%d-%s",x,"q@");char*p=malloc(60);strcpy(p,b);int n=strlen(p)+atoi(p);free(p);return n;}\n', ['fp@']),
('struct big@{int a[20];};struct big@ mk@(int x){struct big@ b;for(int i=0;i<20;i++)b.a[i]=x*i;return b;}int use@(struct big@ b,int k){return b.a[k];}int fq@(int x){return use@(mk@(x),x%20)+((struct big@){{1,2,3}}).a[1];}\n', ['fq@']),
('void cl@(int*p){*p+=1;}int cnt@;int fr@(int x){{int v __attribute__((cleanup(cl@)))=x;cnt@+=v;}__attribute__((unused)) int z=0;return cnt@;}\n', ['fr@', 'fr@']),
('int cm@;int cm@;extern int cm@;static int ta@[];static int ta@[3]={1,2,3};int wk@(void) __attribute__((weak));int wk@(void){return 4;}int fs@(int x){return cm@+++ta@[x%3]+wk@();}\n', ['fs@', 'fs@']),
('#if defined(V@) && V@ > 2\nint ft@(int x){return x+V@;}\n#elif (1+2*3)==7 && !defined(NOPE@)\nint ft@(int x){return x-1;}\n#else\n#error no\n#endif\n#line 77 "ln@.c"\nint fu@(int x){return __LINE__+x;}\n', ['ft@', 'fu@']),
('int co@[2];static void __attribute__((constructor)) ini@(void){co@[0]=@;}int fv@(int x){return co@[0]+x;}\n', ['fv@']),
('_Alignas(32) char al@[40];int fw@(int x){return (int)((unsigned long)al@%32)+_Alignof(double)+__builtin_constant_p(3)+__builtin_choose_expr(1,x,0)+sizeof(__typeof__(x+1LL));}\n', ['fw@']),
('static long tl@=4;int fx@(int x){tl@+=x;return tl@;}\n', ['fx@']),
('#include "h@.h"\nint fy@(int x){return hv@(x)+HM@;}\n', ['fy@']),
('_Bool bo@;unsigned char uc@=250;int fz@(int x){bo@=x;uc@+=x;signed char c=uc@;return bo@*2+uc@+c+(x<<3|x>>1)+(x&&bo@||uc@);}\n', ['fz@']),
('int ga@(int x){__asm__ goto("cmpl $5,%0\\n\\tjg %l[big]"::"r"(x):"cc":big);return @;big:return x;}\n__asm__(".section .sec@,\\"aw\\"\\n.long @\\n.previous\\n");\n', ['ga@']),
('int pg@(int a,...);struct v@{struct{int x,y;}p[2];}v@a={{{1,2},{3,4}}};int gb@(int x){struct v@ l=v@a,m={.p[1].y=x};static int first=1;if(first){first=0;x++;}return (struct v@){{{x,2}}}.p[0].x+l.p[1].x+m.p[1].y+(int[]){1,x,3}[x%3];}\n', ['gb@', 'gb@']),
('_Complex_not_used_@;\n', []),
]
HDR = '#ifndef H@\n#define H@\n#define HM@ 31\nstatic int hv@(int x){return x*@;}\n#endif\n'
ASM = ['.globl as@\n.text\nas@:\n movl %edi,%eax\n addl $@,%eax\n ret\n.data\n.globl ad@\nad@: .long @,7\n.align 8\n.byte 1,2,3\n.ascii "xyz"\n',
       '#define K @\n.globl as@\nas@:\n lea K(%rdi),%rax\n 1: cmp $5,%eax\n jge 2f\n inc %eax\n jmp 1b\n2: ret\n.section .foo,"aw"\n.quad as@\n.previous\n']
# sources that must be rejected
BAD = ['int b@(int x){return x+;}\n', 'int b@(void){return undefinedname@;}\n', '#include "nothere@.h"\nint b@;\n', '#if 1\nint b@;\n',
       'int b@ = "str" 3;\n', 'static int b@[3]={,12,3};\n', 'int b@(void){static struct{int a[2];}s[]={{{1,},{2,3}},;return 1;}\n', '__asm__(".previous");int b@;\n', '__asm__(".section .sx@\\n nonsense1 nonsense2");\n', 'int b@(void){return ((struct{int x;}[]){{1},2,{3,}}}[0].x;}\n', '#error stop @\n', '#define F(a,b) a b\nint b@(void){return F(1;}\n', 'int b@(void){ {int a[3]={1,2,3,4};} goto nowhere; }\n',
       'struct s@ {int a;}; struct s@ {int b;};\n', 'int b@(void){ /* never ends\n', 'char *b@ = "never ends\n', 'int b@(int x){switch(x){case 1:case 1:return 0;}}\n',
       '_Static_assert(0,"no@");\n', 'int b@(void){return sizeof(struct nope@);}\n', '__asm__("bogus @ %%zzz,,");\n', 'int b@(int x){__asm__("mov %9,%0":"=r"(x));return x;}\n',
       '#include "loop@.h"\n', 'int b@(void){int v[-1];return v;}\n', 'int b@(void) {return 1;} int b@(void){return 2;}\n', '#define A@ B@(\n#define B@(x) x\nint b@ = A@ 1 ;;;) );\n',
       'int b@(int n){ typedef int T; { enum{T} ; return T; } } #endif\n', '#if 1/0\n#endif\n', '#if (1\n#endif\nint b@;\n', '#define X(a) #b\nint c;\n', 'int b@(void){ int x = ({ int y; y; ; return 1; }}\n',
       'static inline int q@(int a){return a+;}\nint b@(void){return q@(1);}\n', 'int b@[] = { [3] = 1, [2 ... ] = 5 };\n', '#pragma pack(push,3)\nint b@;\n', 'int f(int a,a){}\nint b@(void){return _Generic(1,double:1);}\n',
       '#define R@ R@ x\n#undef\nint R@ = = 1;\n', 'extern int e@; int b@(void){e@++; return nof@(1,) ;}\n', '#include <stdio.h>\nint b@(void){printf("%d", ; }\n', '#ifdef\n#endif\n', "int b@ = 'unfinished\n;", '#include <"odd\nint b@;\n',
       'int b@(void){ void (*f)(int) = 0; { struct { int a[3]; } v = { { 1, 2 }, 3, 4 }; } if (1) else; }\n']
BADASM = ['.globl x@\nmovl %eax\n', '.text\n foo bar,baz\n', '.section\n', 'jmp nolabel@f+\n1: jmp 3q\n', '.rept 3\n nop\n', '.if 1\n nop\n', '.long 1,\n,', '.set x,\n', '.org -5\n', '.previous\n nop\n', '.pushsection .ps@\n .byte 1\n bogus1 bogus2\n', '.popsection\n', '.section .xx@\n .long 5\n bogus\n']
WORDS = ['int', '(', ')', '{', '}', ';', '"', "'", '#', '##', ',', '*', '&', '=', '+', 'if', 'while', 'return', 'struct', 'typedef', 'static', '[', ']', '0', '1.5e', '0x', '\\', '\n', '#if 1\n', '#endif\n', '\n#define Z(x) x\n', 'Z(', 'switch', 'case', 'goto', 'asm(', '_Generic(', 'sizeof', 'enum', '...', '->', '.', ':', '?', 'inline', '__attribute__((', '/*', '*/', '//']

def damage(rng, s):
    """A source with a small random mistake; it may still be valid."""
    t = re.findall(r'\w+|\s+|[^\w\s]', s)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(t) + 1)
        k = rng.choice(['cut', 'del', 'ins', 'ins', 'dup', 'swap'])
        if k == 'cut':
            t = t[:i]
        elif k == 'del':
            del t[i:i + rng.choice([1, 1, 3])]
        elif k == 'ins':
            t.insert(i, rng.choice(WORDS))
        elif k == 'dup' and i < len(t):
            t.insert(i, t[i])
        elif i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
    return ''.join(t)

class Hist:
    """One state's life: its operations and the files it reads."""
    def __init__(self):
        self.ops, self.files, self.outs = [], {}, []
        self.clean = True      # no randomly damaged source: nothing may crash
    def on(self, tid, sid):
        return ['%d %d %s' % (tid, sid, o) for o in self.ops]

CONF = ['opt -Wall', 'opt -w', 'opt -Werror', 'opt -g', 'opt -std=c11', 'opt -funsigned-char', 'opt -Wall -Wno-unsupported', 'opt -fcommon', 'opt -DV1=5 -UV2', 'opt -I/w/inc -L/w/lib', 'opt -Wl,-rpath=/x', 'opt -Wl,-soname=so.1',
        'opt -fno-builtin', 'opt -O2', 'opt -gdwarf', 'opt -nostdinc', 'opt -include /w/inc/pre.h', 'opt -Wunsupported -Wwrite-strings', 'opt -b', 'opt -bt5', 'opt -Wno-error', 'opt -fleading-underscore', 'opt -Wl,--export-all-symbols', 'opt -rdynamic', 'opt -bogusoption', 'opt -fnosuch', 'opt -ftest-coverage', 'opt -mno-sse']
PRE = '/w/inc/pre.h'

def helper(ctx, v):
    """An object defining hlp0 and hlp1, and an archive with it; the value says which one was taken."""
    o = ref_obj(ctx, {'h.c': 'int hlp0(int x) { return x * 3 + %d; }\nint hlp1 = %d;\n' % (v, v)}, 'h.c', [])
    return o, ref_ar(ctx, {'hlp.o': o, 'not.o': ref_obj(ctx, {'n.c': 'int not_needed(void) { return 1; }\n'}, 'n.c', [])})

def add_helper(ctx, rng, h, base, fns):
    """The state loads an object, archive or linker script of its own; names are the same in all states."""
    v = rng.randrange(1, 16)
    o, a = helper(ctx, v)
    kind = rng.choice(['obj', 'arfile', 'ar', 'ar', 'ar', 'dirs', 'dirs', 'script', 'script', 'late'])
    name = rng.choice(['hlp', 'hlp', 'hlp%d' % rng.randrange(4)])
    use = 'str extern int hlp0(int),hlp1;int fhl(int x){return hlp0(x)+hlp1;}'
    ops = [use]
    if kind == 'obj':
        h.files[base + '/hlp.o'] = o
        ops.append('file %s/hlp.o' % base)
    elif kind == 'arfile':
        h.files[base + '/lib/libhlp.a'] = a
        ops.append('file %s/lib/libhlp.a' % base)
    elif kind == 'script':
        h.files['%s/lib/lib%s.so' % (base, name)] = rng.choice(['INPUT ( %s/real.a )\n', '/* GNU ld script */\nOUTPUT_FORMAT(elf64-x86-64)\nGROUP ( AS_NEEDED ( %s/none.a ) %s/real.a )\n'.replace('AS_NEEDED ( %s/none.a )', ''), 'INPUT ( -lreal )\n']).replace('%s', base)
        h.files[base + '/real.a'] = a
        h.files[base + '/lib/libreal.a'] = a
        ops += ['libpath %s/lib' % base, 'lib ' + name]
    else:
        d = rng.choice(['lib', 'a/rather/long/directory/name/of/libraries'])
        h.files['%s/%s/lib%s.a' % (base, d, name)] = a
        if kind == 'dirs':
            ops.append('libpath %s/none:%s/none2' % (base, base))
            if rng.random() < .5:
                h.files['%s/zz/lib%s.a' % (base, name)] = helper(ctx, v % 15 + 1)[1]
        ops += ['libpath %s/%s' % (base, d), 'lib ' + name]
        if kind == 'dirs':
            ops.insert(len(ops) - 1, 'libpath %s/zz' % base)
        elif kind == 'late':
            ops.append(ops.pop(0))      # the library first: its member is not wanted yet
    fns.append('fhl')
    return ops

def gen_hist(rng, base, errors=.35, dam=.25, calls=True, ctx=None):
    """base: this state's own directory."""
    h = Hist()
    o = h.ops
    o += ['new', 'libdir /tmp/cjit-']
    h.files[PRE] = '#define PRE 1\n'
    ot = rng.choice([1, 1, 1, 1, 2, 2, 4, 3, 3, 5])
    conf = rng.sample(CONF, rng.choice([0, 0, 1, 1, 2, 4]))
    noinc = 'opt -nostdinc' in conf
    if 'opt -ftest-coverage' in conf and ot == 1 or 'opt -fleading-underscore' in conf and ot == 1:
        conf = []
    if ot == 1:
        conf = [c for c in conf if c != 'opt -b']   # its run-time memory belongs to the program
    o += conf
    if rng.random() < .08:
        h.ops.append('del')
        return h
    o.append('type %d' % ot)
    if ot == 5 and rng.random() < .5:
        o.append('opt -E -o %s/pp.i' % base)   # where a preprocessed text goes is libtcc's own affair
    o.append('inc %s/inc:/w/inc' % base)
    for _ in range(rng.choice([0, 0, 1, 3])):
        o.append(rng.choice(['def V%d 7' % rng.randrange(9), 'undef V1', 'def NOPE2', 'sysinc /w/sys', 'libpath %s' % base, 'lib nosuchlib%d' % rng.randrange(5), 'def DD=3', 'opt -DEE="x"', 'bt']))
    nums = rng.sample(range(1, 60), 6)
    fns = []
    broken = False
    for j in range(rng.choice([1, 1, 2, 2, 3, 4])):
        n = str(nums[j])
        r = rng.random()
        name = '%s/m%s.c' % (base, n)
        if r < errors:
            src = rng.choice(BAD)
            if rng.random() < .6:
                src = rng.choice(T[:-1])[0] + src
            if rng.random() < .3:
                src += rng.choice(T[:-1])[0]
            broken = True
        elif r < errors + dam:
            src = damage(rng, ''.join(x[0] for x in rng.sample(T[:-1], rng.choice([1, 2, 3]))))
            h.clean = False
            broken = True
        elif r < errors + dam + .08:
            src, name = rng.choice(ASM), '%s/m%s.S' % (base, n)
            if rng.random() < .3:
                src, broken = src + rng.choice(BADASM), True
            elif rng.random() < .2:
                src, h.clean, broken = damage(rng, src), False, True
            else:
                fns.append('as' + n)
        else:
            ts = rng.sample(T[:-1], rng.choice([1, 1, 2, 4]))
            src = ''.join(x[0] for x in ts)
            for x in ts:
                fns += [f.replace('@', n) for f in x[1]]
        src = src.replace('@', n)
        h.files['%s/inc/h%s.h' % (base, n)] = HDR.replace('@', n)
        h.files['%s/inc/loop%s.h' % (base, n)] = '#include "loop%s.h"\n' % n
        if name.endswith('.S') or rng.random() < .5:
            h.files[name] = src
            o.append('file ' + name)
        else:
            o.append('str ' + src)
        if ot in (1, 2, 4) and rng.random() < .15:
            o.append(rng.choice(['file %s/missing.c' % base, 'file %s/missing.o' % base, 'file %s/junk.o' % base, 'file %s/junk.a' % base, 'lib extq', 'file %s/trunc.o' % base]))
            h.files[base + '/junk.o'] = 'this is no object\n'
            h.files[base + '/junk.a'] = b'!<arch>\n' + b'x' * 40
            h.files[base + '/trunc.o'] = b'\x7fELF\x02\x01\x01' + bytes(9) + b'\x01\x00\x3e\x00' + bytes(40)
            broken = True
    if ctx and ot in (1, 2, 3, 4) and rng.random() < .45:
        ops = add_helper(ctx, rng, h, base, fns)
        if ot == 3:
            ops = [x for x in ops if x[:4] in ('str ', 'file')]
        o += ops
    if rng.random() < .12:
        # libraries named by the source; most are not there
        o.append('str ' + ''.join('#pragma comment(%s, "%s")\n' % rng.choice([('lib', 'hlp'), ('lib', 'hlp'), ('lib', 'nosuch'), ('option', '-w'), ('option', '-Wall')]) for _ in range(rng.choice([1, 1, 2, 3]))) + 'int pragma_was_here;\n')
        broken = True
    if any('emit' in x for x in o + list(h.files.values()) if isinstance(x, str)) and ot != 5 and rng.random() < .9:
        o.append('add emit')
    if rng.random() < .1:
        o.append('del')
        return h
    if ot == 1:
        if rng.random() < .25 and not broken:
            n = str(nums[5])
            k = rng.choice(['return %d+c;', 'exit(%d);', 'abort0();', 'atexit(bye);return %d+c;', 'return rec(%d);'])
            k = k.replace('%d', str(rng.choice([0, 1, 7, 255])))
            o.append('str extern void exit(int);int atexit(void(*)(void));int emit(int);static void abort0(void){exit(3);}static int rec(int n){if(n>3)return rec(n-1)+1;emit(n);exit(n+9);}static void bye(void){emit(99);}int main(int c,char**v){emit(c);%s}' % k)
            if 'add emit' not in o:
                o.append('add emit')
            o.append('run' + rng.choice(['', ' a', ' a b c']))
        else:
            o.append('reloc')
            if rng.random() < .3:
                o.append('list')
            if not broken and calls:
                for f in fns:
                    o.append('call %s %d' % (f, rng.randrange(0, 40)))
            for f in fns[:3]:
                o.append('get ' + f)
            o.append('get nosuchsymbol')
    elif ot == 5:
        pass
    else:
        p = base + '/' + rng.choice(['out', 'nodir/out', 'out.o'])
        h.outs.append(p)
        o.append('out ' + p)
        if rng.random() < .2:
            o.append('get main')
    o.append('del')
    return h

SUPPORT = ('runmain.o', 'bcheck.o', 'bt-exe.o', 'bt-log.o')
def api_world(ctx, w, hists, dirs=()):
    preload_assets(ctx, w)
    for f in SUPPORT:
        p = os.path.join(ctx.k.build, 'src/lib/tinycc', f)
        if os.path.exists(p):
            w.file(ADIR + '/' + f, open(p, 'rb').read())
    for h in hists:
        for f, d in h.files.items():
            w.file(f, d)
    for d in dirs:
        w.dir(d)

def api_results(p):
    """[(done, ret, text)] or None when the driver did not get to its end."""
    ls = p['out'].split(b'\n')
    if p['exit'] != 0 or p['sig'] is not None:
        return None
    out = []
    for l in ls:
        f = l.split(b' ', 2)
        if len(f) == 3 and f[0] in (b'0', b'1'):
            out.append((int(f[0]), int(f[1]), f[2].decode('latin-1')))
    return out
