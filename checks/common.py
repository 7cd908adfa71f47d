"""Workloads, fault mixes and oracles shared by the checks."""
import gzip, io, os, random, re, tarfile
import frags

ADIR = '/tmp/cjit-'
REAL = 'the whole cjit program (src, lib/tinycc, embedded assets) compiled from the working tree; the compiled programs it runs'
STUB = 'libc I/O, heap, process, signal, thread, clock and dynamic-loading entry points; file system, process table, scheduler, disk, terminal'
ASSUME = ['the simulated POSIX calls behave like Linux for the operations cjit uses', 'a crash is the death of a process; power loss is not modelled',
          'gcc and libc compute correctly', 'x86-64 GNU/Linux build only']

# ----------------------------------------------------------------- assets
def expected_assets(k):
    """The embedded archives of the build, decoded here and not by cjit: path -> bytes or None (directory)."""
    if 'assets' in k.cache:
        return k.cache['assets']
    out = {}
    src = os.path.join(k.build, 'src', 'src')
    for f in sorted(os.listdir(src)):
        if f.startswith('embed_') and f.endswith('.c'):
            t = open(os.path.join(src, f)).read()
            raw = bytes(int(x, 16) for x in re.findall(r'0x([0-9a-fA-F]{2})', t[t.index('{'):t.index('}')]))
            if raw[:2] != b'\x1f\x8b':
                continue
            with tarfile.open(fileobj=io.BytesIO(gzip.decompress(raw))) as tf:
                for m in tf:
                    if m.isdir():
                        out[m.name.rstrip('/')] = None
                    elif m.isreg():
                        out[m.name] = tf.extractfile(m).read()
    assert 'libtcc1.a' in out and 'include/stdarg.h' in out
    k.cache['assets'] = out
    return out

def asset_tree(ctx, force=False):
    """Everything a clean launch leaves in the asset directory."""
    k = ctx.k
    if 'atree' not in k.cache:
        w = ctx.world(faulty=False)
        w.file('/w/z.c', 'int main(){return 0;}\n')
        w.launch(['cjit', '-q', 'z.c'])
        w.run()
        k.cache['atree'] = {p: v for p, v in w.tree(ADIR).items()}
    return k.cache['atree']

def preload_assets(ctx, w):
    for p, v in asset_tree(ctx).items():
        if v[0] == 'd':
            w.dir(p, v[1])
        elif v[0] == 'f':
            w.file(p, bytes.fromhex(v[2]), v[1])

def assets_wrong(ctx, w, base=ADIR):
    """None, or what is missing or different in an asset tree."""
    have = w.tree(base)
    for p, d in expected_assets(ctx.k).items():
        v = have.get(base + '/' + p)
        if v is None:
            return '%s is missing' % p
        if (v[0] == 'd') != (d is None):
            return '%s has the wrong type' % p
        if d is not None and bytes.fromhex(v[2]) != d:
            return '%s has %d bytes, not the %d expected, or differs' % (p, len(v[2]) // 2, len(d))
    return None

# --------------------------------------------------------------- programs
class Prog:
    """A C program with a result known from its construction."""
    def __init__(self):
        self.files, self.sources, self.opts, self.objs = {}, [], [], []
        self.out, self.exit, self.args, self.env = b'', 0, [], []
        self.stdin = b''
    def install(self, w, only=None):
        for f, d in self.files.items():
            if only is None or f in only:
                w.file('/w/' + f if f[0] != '/' else f, d)
    def argv(self, sep=None):
        a = ['cjit', '-q'] + self.opts + self.sources
        if self.args or sep:
            a += ['--'] + self.args
        return a

def filler(rng, n):
    return ''.join('/* %s */\n' % ''.join(rng.choice('abcdefgh ,;{}()"') for _ in range(60)) for _ in range(n // 66))

LEFTASM = '__asm__(".data\\n.long 5\\n.section .left,\\"aw\\"\\n.long 6");\n'
LEFT = ['#pragma pack(1)\n', '#pragma pack(push, 2)\n', '#define LEFT 1\n#undef BIAS\n#define BIAS 77\n', '#define MUL2 3\n#pragma push_macro("MUL2")\n#undef MUL2\n#define LEFT2(x) x\n', LEFTASM,
        '#line 9999 "left.c"\nint left_line(void);\n', 'typedef long long leftint; static leftint left_obj = 8;\n', '#define int short\n#define static\n', '/* end */ #define LEFT2\n', '#if 0\n#else\n#define LEFT\n#endif', '//\\\n no newline']

def gen_prog(rng, nsrc=None, big=None, args=None, dirs=True, simple=False, fragp=.35):
    p = Prog()
    n = nsrc or rng.choice([1, 1, 2, 2, 3])
    if big is None:
        big = rng.random() < .3
    vals = p.vals = [rng.randrange(1, 30000) for _ in range(n)]
    names = []
    for i in range(n):
        names.append(rng.choice(['m%d.c', 'part%d.c', 'u%d.C', 'mod%d.cc', 'x%d.cxx'])[:] % i if i and not simple else 'm%d.c' % i)
    tail = {i: filler(rng, rng.choice([200, 9000, 20000])) if big and rng.random() < .6 else '' for i in range(n)}
    hdr = rng.random() < .75 and not simple
    hname = 'defs.h'
    hpath = hname
    mul = rng.randrange(3, 97)
    if hdr:
        mode = rng.choice(['same', 'I', 'sub'])
        if mode == 'I':
            hpath = 'inc/' + hname
            p.opts += rng.choice([['-I', 'inc'], ['-Iinc'], ['-I', './inc'], ['-I', '/w/inc']])
        elif mode == 'sub':
            hpath = 'sub/' + hname
            hname = 'sub/defs.h'
        body = '#ifndef DEFS_H\n#define DEFS_H\n#define MUL %d\n' % mul
        body += ''.join('int f%d(int x);\n' % i for i in range(n))
        body += (filler(rng, rng.choice([100, 8100, 17000])) if big else '')
        adds = ['int tab%d = %d;\n' % (j, j) for j in range(0)]
        body += '#define ADD %d\n#endif\n' % (mul + 5)
        p.files[hpath] = body
        if mode == 'I' or rng.random() < .3:   # a header of the same name further down the search path
            p.files['alt/defs.h'] = body.replace('#define MUL %d' % mul, '#define MUL 1').replace('#define ADD %d' % (mul + 5), '#define ADD 0')
            p.opts += ['-I', 'alt']
        if rng.random() < .3:
            p.opts.append('-DBIAS=%d' % 7); bias = 7
        else:
            bias = 0
    else:
        bias = 0
    add = mul + 5
    for i in range(n):
        s = ''
        s += '#include <stdio.h>\n#include <stdarg.h>\n#include <stddef.h>\n' + ('#include <stdbool.h>\n#include <stdlib.h>\n#include <string.h>\n' if i == 0 else '')
        if hdr:
            s += '#include "%s"\n' % hname
        else:
            s += '#define MUL %d\n#define ADD %d\n' % (mul, add) + ''.join('int f%d(int x);\n' % j for j in range(n))
        s += '#ifndef BIAS\n#define BIAS 0\n#endif\n'
        s += tail[i] if i % 2 else ''
        s += 'static int loc(int n, ...) { va_list ap; int t = 0; va_start(ap, n); while (n--) t += va_arg(ap, int); va_end(ap); return t; }\n'
        s += 'int f%d(int x) { double d = (double)x * 2.0; unsigned long long u = (unsigned long long)d; long double q = (long double)u; return loc(3, (int)(q / 2), MUL * %d, ADD + BIAS); }\n' % (i, vals[i])
        if i == 0:
            s += tail[0]
            if rng.random() < .4:
                s += '#include <errno.h>\nextern char **environ;\nint main(int argc, char **argv, char **envp) {\n'
                s += '\tbool ok = sizeof(size_t) == 8 && errno == 0 && envp && envp[0] == environ[0] && !argv[argc];\n\tint i, t = 0;\n'
            else:
                s += 'int main(int argc, char **argv) {\n'
                s += '\tbool ok = sizeof(size_t) == 8;\n\tint i, t = 0;\n'
            for j in range(n):
                s += '\tt = f%d(t); printf("f%d %%d\\n", t);\n' % (j, j)
            s += '\tfor (i = 1; i < argc; i++) printf("arg %d [%s]\\n", i, argv[i]);\n'
            s += '\tputs(ok ? "ok" : "bad");\n'
            code = rng.choice([0, 0, 1, 3, 42, 127, 128, 200, 255])
            how = rng.choice(['return %d', 'exit(%d)'])
            s += '\t' + how % code + ';\n}\n'
            p.exit = code
        s += '/* end %d */\n' % i
        p.files[names[i]] = s
    fr = []
    p.frags = []
    if not simple and rng.random() < fragp:
        pool = [f for f in frags.FRAGS if n > 1 or f is not frags.weakstrong]
        for u, f in enumerate(rng.sample(pool, rng.choice([1, 2, 3, 6]))):
            a, bb, v = f(rng, u)
            i, j = (0, rng.randrange(n)) if rng.random() < .5 else (rng.randrange(n), rng.randrange(n))
            if i == j and f is frags.weakstrong:
                j = (i + 1) % n
            p.files[names[i]] += a
            p.files[names[j]] += bb
            fr.append((u, v)); p.frags.append((f.__name__, i, j))
        m0 = p.files[names[0]]
        m0 = m0.replace('#include <stdio.h>\n', '#include <stdio.h>\n' + ''.join('int fr_%d(void);\n' % u for u, v in fr), 1)
        p.files[names[0]] = m0.replace('\tputs(ok ?', ''.join('\tprintf("fr %%d\\n", fr_%d());\n' % u for u, v in fr) + '\tputs(ok ?', 1)
    if dirs and not simple and n > 1 and rng.random() < .3:
        # sources in other directories, with headers beside them
        for i in range(1, n):
            if rng.random() < .6:
                d = rng.choice(['src/', 'src/', 'lib/core/'])
                nn = d + names[i]
                txt = p.files.pop(names[i])
                k = rng.randrange(1, 999)
                if rng.random() < .7:
                    p.files[os.path.normpath(d) + '/local%d.h' % i] = '#define LOCAL%d %d\n' % (i, k)
                    txt = txt.replace('#include <stdio.h>\n', '#include <stdio.h>\n#include "local%d.h"\n' % i, 1).replace('MUL * %d,' % vals[i], 'MUL * %d + LOCAL%d - %d,' % (vals[i], i, k), 1)
                p.files[os.path.normpath(nn)] = txt
                names[i] = nn
        if hdr and [q for q in names if '/' in q] and mode != 'I':
            p.opts = rng.choice([['-I', '.'], ['-I.'], ['-I', '/w']]) + p.opts
    if not simple and n > 1 and rng.random() < .3:
        # what a source leaves behind at its end is no matter of the next one
        for i in rng.sample(range(n), rng.choice([1, 1, n])):
            f = names[i] if names[i] in p.files else os.path.normpath(names[i])
            p.files[f] += rng.choice(LEFT)
        k = rng.randrange(n)
        f = names[k] if names[k] in p.files else os.path.normpath(names[k])
        p.files[f] = p.files[f].replace('static int loc(', '#if defined(LEFT) || defined(LEFT2)\n#error left\n#endif\nstruct left { char a; int b; }; typedef char leftq[sizeof(struct left) == 8 ? 1 : -1]; static int left_in_data = 5;\nstatic int loc(', 1)
    p.sources = list(names)
    t, out = 0, ''
    last = 'dtor 34\n' if 'dtor' in [f[0] for f in p.frags] else ''
    for j in range(n):
        t = t + mul * vals[j] + add + bias
        out += 'f%d %d\n' % (j, t)
    if args is None:
        args = [rng.choice(['a', 'bc', '-x', '--y=1', 'with space', '-', '-c', '-o', '-Wall', '-O2', '*', '%d', 'é']) + str(rng.randrange(10)) for _ in range(rng.choice([0, 0, 1, 3]))]
    p.args = args
    for j, a in enumerate(args):
        out += 'arg %d [%s]\n' % (j + 1, a)
    out += ''.join('fr %d\n' % v for u, v in fr)
    out += 'ok\n' + last
    p.out = out.encode()
    return p

# ----------------------------------------------------------------- outcomes
def parent(r, launch):
    return next(p for p in r['procs'] if p['launch'] == launch and p['par'] < 0)

def children(r, launch):
    return [p for p in r['procs'] if p['launch'] == launch and p['par'] >= 0]

def diseased(ctx, r, what='', allow_sig=()):
    """Faults no run may show: memory damage, crash signals, no end."""
    if r['status'] == 'deadlock':
        ctx.fail('deadlock', '%s: all parties wait for ever' % what); return True
    if r['status'] in ('steplimit', 'timeout'):
        ctx.fail('no-end', '%s: no end within the step bound (%s)' % (what, r['status'])); return True
    for p in r['procs']:
        for n in p['notes']:
            if n.startswith('heap:'):
                ctx.fail('heap', '%s: memory damage, %s' % (what, n)); return True
            if n == 'steplimit':
                ctx.fail('no-end', '%s: a process does not end within the step bound' % what); return True
        if p['sig'] in (11, 7, 4, 8, 6) and p['sig'] not in allow_sig:
            ctx.fail('crash', '%s: process %d (%s) died of signal %d; stderr: %s' % (what, p['idx'], 'cjit' if p['par'] < 0 else 'program', p['sig'], (p.get('err') or b'')[-200:]))
            return True
    return False

def killed_by_sim(r, p, kinds=('kill', 'killafter', 'term', 'intr')):
    return any(f[0] == p['idx'] and f[2].split(':')[1] in kinds for f in r['faults'])

def check_run(ctx, w, r, launch, prog, what, faulty=True, extra_out=None):
    """A run of a program of known result: exact, or (only when faulty) failed without running it."""
    p = parent(r, launch)
    ch = children(r, launch)
    out = p['out']
    killed = p['sig'] is not None
    if len(ch) > 1:
        ctx.fail('ran-twice', '%s: the program was started %d times' % (what, len(ch))); return
    if p['sig'] is None and p['exit'] == prog.exit and out == prog.out and ch and ch[0]['exit'] == prog.exit:
        return 'exact'
    d = 'exit %s sig %s, expected %d; output %r, expected %r; stderr %r' % (p['exit'], p['sig'], prog.exit, out[:200], prog.out[:200], p['err'][-300:])
    if not faulty:
        ctx.fail('wrong-result', '%s: fault-free run: %s' % (what, d)); return
    if ch and ch[0]['sig'] is None and (ch[0]['exit'] != prog.exit or out != prog.out):
        ctx.fail('wrong-program', '%s: another program ran: %s' % (what, d)); return
    if not prog.out.startswith(out):
        ctx.fail('wrong-program', '%s: wrong program output: %s' % (what, d)); return
    if killed:
        return 'killed'
    if ch and ch[0]['sig'] is not None and not killed_by_sim(r, ch[0]):
        ctx.fail('program-died', '%s: program died of signal %d: %s' % (what, ch[0]['sig'], d)); return
    if ch:
        if ch[0]['sig'] is None and not killed:
            ctx.fail('wrong-status', '%s: the program ran correctly but cjit says otherwise: %s' % (what, d)); return
        return 'killed'
    if p['exit'] == 0:
        ctx.fail('false-success', '%s: exit 0 although the program did not run: %s' % (what, d)); return
    return 'failed'

# ------------------------------------------------------------------- faults
ERR = {'OPEN': ['EIO', 'EMFILE', 'ENFILE', 'ENOMEM', 'EACCES'], 'READ': ['EIO', 'EINTR', 'short', 'short'], 'WRITE': ['EIO', 'ENOSPC', 'EDQUOT', 'short', 'EINTR'],
       'CLOSE': ['EIO', 'ENOSPC', 'EDQUOT'], 'MKDIR': ['ENOSPC', 'EACCES', 'EIO', 'EROFS'], 'RENAME': ['EIO', 'ENOSPC', 'EACCES', 'EROFS'], 'UNLINK': ['EIO', 'EACCES'],
       'LSEEK': ['EIO'], 'FSTAT': ['EIO'], 'STAT': ['EIO', 'EACCES'], 'LSTAT': ['EIO', 'EACCES'], 'READDIR': ['EIO', 'ENOMEM'], 'READLINK': ['EIO'], 'GETCWD': ['ENOENT'],
       'FORK': ['EAGAIN', 'ENOMEM'], 'WAITPID': ['EINTR'], 'MPROTECT': ['ENOMEM', 'EACCES'], 'MMAP': ['ENOMEM'], 'DLOPEN': ['EIO', 'ENOMEM'], 'CHMOD': ['EPERM', 'EIO'], 'FSYNC': ['EIO'],
       'ACCESS': ['EIO'], 'REALPATH': ['EIO', 'ENOMEM'], 'FTRUNCATE': ['EIO'], 'LOCK': ['ENOLCK', 'EINTR'], 'SEMWAIT': ['EINTR'], 'TRUNCATE': ['EIO']}

LOGLINE = re.compile(r'^\d+ p(\d+)\.0 #(\d+) ([A-Z0-9]+) (-?\d+),(-?\d+) (\S*) h[0-9a-f]+ -> (-?\d+)')
def oplist(ctx, key, setup, launch, proc=0):
    """Operations of one process of a fault-free run: [(opno, name, path, ret)]; cached under key."""
    ck = ('ops', key)
    if ck in ctx.cache:
        return ctx.cache[ck]
    asset_tree(ctx)     # needs a reference world of its own
    w = ctx.world(faulty=False)
    w.k.send('set log 1')
    setup(w)
    launch(w)
    w.run()
    v = []
    for l in w.log().splitlines():
        m = LOGLINE.match(l)
        if m and int(m.group(1)) == proc:
            v.append((int(m.group(2)), m.group(3), os.path.normpath(m.group(6)) if m.group(6)[:1] == '/' else m.group(6), int(m.group(7))))
    if len(ctx.cache) > 600:
        for q in [q for q in ctx.cache if isinstance(q, tuple) and q[0] == 'ops'][:300]:
            del ctx.cache[q]
    ctx.cache[ck] = v
    return v

def target_fault(ctx, w, proc, ops, kinds=None, pred=None, kill=False):
    """One fault at one operation of a known fault-free history."""
    rng = ctx.rng
    cand = [o for o in ops if (kill or o[1] in ERR) and (kinds is None or o[1] in kinds) and (pred is None or pred(o))]
    if not cand:
        return None
    # weigh successful operations higher than failing look-ups
    hot = [o for o in cand if o[3] >= 0]
    o = rng.choice(hot if hot and rng.random() < .85 else cand)
    if kill:
        eff, arg = rng.choice(['kill', 'kill', 'killafter']), 0
    else:
        eff = rng.choice(ERR[o[1]])
        arg = rng.choice([1, 2, 3, 7, 64, 511, 512, 513, 4095, rng.randrange(1, 9000), max(1, o[3] - rng.randrange(1, 9)), max(1, o[3] - 1)]) if eff == 'short' else 0
    w.at(proc, o[0], 'any:' + eff, arg)
    if eff == 'short' and rng.random() < .4:     # the rest then fails
        w.at(proc, o[0] + 1, 'any:' + rng.choice(['EIO', 'EIO', 'ENOSPC'] if o[1] == 'WRITE' else ['EIO']))
    return (o, eff)

def clean_faults(cls):
    return [f for f in cls]

def add_rules(ctx, w, proc, mix, prefix='*', scale=1.0):
    """Swarm: a random subset of fault kinds at random rates."""
    rng = ctx.rng
    chosen = rng.sample(mix, min(len(mix), rng.choice([1, 1, 2, 3])))
    for cls, eff in chosen:
        ppm = int(rng.choice([300, 1000, 4000, 15000, 60000]) * scale)
        w.rule(cls, eff, min(ppm, 1000000), rng.choice([1, 1, 2, -1]), proc, prefix)
    return chosen
