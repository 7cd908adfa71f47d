"""Build workloads: programs spread over sources, headers, objects, archives and shared libraries."""
import fcntl, hashlib, subprocess
from common import *

MAGIC = 0x7a5c3d1e
SONAME = 'sonameQQQQQQ.so'
def so_template(k, name, fn):
    """A shared library, made by the host compiler, with int FN(void) returning a patchable value."""
    ck = ('so', name, fn)
    if ck not in k.cache:
        d = os.path.join(k.build, 'libs')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.so' % (name, fn))
        with open(os.path.join(d, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(p):
                c = os.path.join(d, '%s-%s.c' % (name, fn))
                open(c, 'w').write('volatile int %s_magic = %d;\nint %s(void) { return %s_magic; }\n' % (fn, MAGIC, fn, fn))
                subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-nostdlib', '-Wl,-soname,' + SONAME, '-o', p + '.tmp', c], check=True, capture_output=True)
                os.rename(p + '.tmp', p)
        b = open(p, 'rb').read()
        assert b.count(MAGIC.to_bytes(4, 'little')) == 1 and b.count(SONAME.encode()) == 1
        k.cache[ck] = b
    return k.cache[ck]

def soname(value):
    return 'soname%06d.so' % (value % 1000000)

def so_lib(k, fn, value, name='ext'):
    """The library with its value and a soname made from it."""
    return so_template(k, name, fn).replace(MAGIC.to_bytes(4, 'little'), value.to_bytes(4, 'little', signed=True)).replace(SONAME.encode(), soname(value).encode())

def so_many(k, fns):
    """A shared library whose i-th function returns 77770 + i."""
    ck = ('somany', tuple(fns))
    if ck not in k.cache:
        d = os.path.join(k.build, 'libs')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'many-%s.so' % '-'.join(fns))
        with open(os.path.join(d, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(p):
                open(p + '.c', 'w').write(''.join('int %s(void) { return %d; }\n' % (f, 77770 + i) for i, f in enumerate(fns)))
                subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-nostdlib', '-Wl,-soname,libfall.so', '-o', p + '.tmp', p + '.c'], check=True, capture_output=True)
                os.rename(p + '.tmp', p)
        k.cache[ck] = open(p, 'rb').read()
    return k.cache[ck]

def elf_needed(b):
    """DT_NEEDED names of an executable."""
    import struct
    phoff, = struct.unpack('<Q', b[32:40])
    es, n = struct.unpack('<HH', b[54:58])
    ph = [struct.unpack('<IIQQQQQQ', b[phoff + i * es:phoff + i * es + 56]) for i in range(n)]
    def off(va):
        for t, f, o, v, pa, fs, ms, al in ph:
            if t == 1 and v <= va < v + fs:
                return o + va - v
    dyn = next((p for p in ph if p[0] == 2), None)
    if dyn is None:
        return []
    ents = [struct.unpack('<QQ', b[dyn[2] + i:dyn[2] + i + 16]) for i in range(0, dyn[5], 16)]
    st = off(next(v for t, v in ents if t == 5))
    return [b[st + v:b.index(b'\0', st + v)].decode() for t, v in ents if t == 1]

def ref_run(ctx, files, argv, outs, env=(), assets=True):
    """Runs cjit fault-free in a reference world; returns (proc, {path: data}, world)."""
    asset_tree(ctx)
    w = ctx.world(faulty=False)
    if assets:
        preload_assets(ctx, w)
    for f, d in files.items():
        w.file('/w/' + f if f[0] != '/' else f, d)
    w.launch(argv, env=env)
    r = w.run()
    return parent(r, 1), {o: w.read('/w/' + o if o[0] != '/' else o) for o in outs}, w

def ref_obj(ctx, files, src, opts):
    """The object file cjit makes of a source in a fault-free world."""
    ck = ('obj', hashlib.sha256(repr((sorted(files.items()), src, opts)).encode()).digest())
    if ck not in ctx.cache:
        p, o, w = ref_run(ctx, files, ['cjit', '-q'] + opts + ['-c', src, '-o', 'ref.o'], ['ref.o'])
        if p['exit'] != 0 or not o['ref.o']:
            raise RuntimeError('reference compilation of %s failed: exit %s %r' % (src, p['exit'], p['err'][-400:]))
        trim(ctx)
        ctx.cache[ck] = o['ref.o']
    return ctx.cache[ck]

def ref_ar(ctx, objs, name='lib.a'):
    ck = ('ar', hashlib.sha256(repr(sorted(objs.items())).encode()).digest())
    if ck not in ctx.cache:
        p, o, w = ref_run(ctx, objs, ['cjit', '-ar', 'rcs', name] + list(objs), [name])
        if p['exit'] != 0 or not o[name]:
            raise RuntimeError('reference archive failed: %r' % p['err'][-400:])
        trim(ctx)
        ctx.cache[ck] = o[name]
    return ctx.cache[ck]

def trim(ctx):
    if len(ctx.cache) > 800:
        for q in [q for q in ctx.cache if isinstance(q, tuple) and q[0] in ('obj', 'ar', 'ops', 'exe')][:400]:
            del ctx.cache[q]

class Build:
    """A program and the command line inputs that denote it."""

def gen_build(ctx, libs=True, objs=True, nsrc=None, big=None, simple=False, dirs=True):
    """files (inputs), inputs (arguments in order), opts, prog (expected result), kinds."""
    rng = ctx.rng
    p = gen_prog(rng, nsrc=nsrc, big=big, simple=simple, dirs=dirs)
    b = Build()
    b.prog, b.opts, b.files = p, list(p.opts), dict(p.files)
    b.inputs, b.kinds, b.lopts = [p.sources[0]], {p.sources[0]: 'src'}, []
    b.decoys = set(f for f in b.files if f.startswith('alt/'))
    arch = {}
    for i, s in enumerate(p.sources[1:]):
        kind = rng.choice(['src', 'src', 'obj', 'ar']) if objs else 'src'
        if kind == 'src':
            b.inputs.append(s); b.kinds[s] = 'src'
            continue
        # sources in other places include their headers the same way
        if not s.endswith('.c'):    # -c takes .c files only
            b.files[os.path.splitext(s)[0] + '.c'] = b.files.pop(s)
            s = os.path.splitext(s)[0] + '.c'
        o = ref_obj(ctx, b.files, s, b.opts)
        on = ('o/' if rng.random() < .3 else '') + 'mod%d.o' % (i + 1)
        del b.files[s]
        b.files.pop(os.path.dirname(s) + '/local%d.h' % (i + 1), None)
        if kind == 'obj':
            b.files[on] = o; b.kinds[on] = 'obj'
            b.inputs.append(on)
        else:
            arch['am%d.o' % (i + 1)] = o
    if arch:
        if rng.random() < .5:
            extra = 'int never_used_%d(int x) { return x; }\n' % rng.randrange(3)
            arch['unused.o'] = ref_obj(ctx, {'unused.c': extra}, 'unused.c', [])
        b.files['libparts.a'] = ref_ar(ctx, arch)
        b.kinds['libparts.a'] = 'ar'
        b.inputs.append('libparts.a')
    # parts whose loss would not show as an undefined symbol
    b.fallback = False
    if rng.random() < .3:
        v = rng.randrange(1, 9999)
        hs = 'int hookval = %d;\n' % v
        if objs and rng.random() < .4:
            b.files['hook.o'] = ref_obj(ctx, {'hook.c': hs}, 'hook.c', []); b.kinds['hook.o'] = 'obj'
            hn = 'hook.o'
        else:
            hn = rng.choice(['hook.c', 'src/hook.c', 'lib/x/hook.c']) if dirs else 'hook.c'
            b.files[hn] = hs; b.kinds[hn] = 'src'
        if nsrc != 1 or objs:
            b.inputs.insert(rng.randrange(1, len(b.inputs) + 1), hn)
            m0 = p.sources[0]
            b.files[m0] = b.files[m0].replace('#include <stdio.h>\n', '#include <stdio.h>\n%sint hookval;\n' % rng.choice(['', '__attribute__((weak)) ']), 1).replace('\tputs(ok ?', '\tprintf("hook %d\\n", hookval);\n\tputs(ok ?', 1)
            p.out = p.out.replace(b'ok\n', b'hook %d\nok\n' % v)
        else:
            del b.files[hn], b.kinds[hn]
    if objs and len(p.sources) > 1 and rng.random() < .5:
        # other definitions of the same functions, which the real ones come before
        b.fallback = True
        fo = {}
        for i in range(1, len(p.sources)):
            fs = 'int f%d(int x) { return x - %d; }\n' % (i, i)
            if rng.random() < .3:
                fs = '__attribute__((weak)) ' + fs
            fo['fb%d.o' % i] = ref_obj(ctx, {'fb.c': fs}, 'fb.c', [])
        b.files['libfall.a'] = ref_ar(ctx, fo)
        b.kinds['libfall.a'] = 'ar'
        b.decoys.add('libfall.a')
        b.inputs.append('libfall.a')
    if libs and rng.random() < .4:
        val = rng.randrange(1, 1 << 30)
        m0 = p.sources[0]
        t = b.files[m0].replace('#include <stdio.h>\n', '#include <stdio.h>\nint ext0(void);\n', 1)
        t = t.replace('\tputs(ok ?', '\tprintf("ext %d\\n", ext0());\n\tputs(ok ?', 1)
        b.files[m0] = t
        p.out = p.out.replace(b'ok\n', b'ext %d\nok\n' % val)
        so = so_lib(ctx.k, 'ext0', val)
        bad = so_lib(ctx.k, 'ext0', val ^ 1)
        how = rng.choice(['file', 'L', 'L2', 'cwd'])
        if how == 'file':
            b.files['libext.so'] = so; b.inputs.append('./libext.so'); b.kinds['libext.so'] = 'so'
        elif how == 'cwd':
            b.files['libext.so'] = so; b.lopts += ['-l', 'ext']; b.kinds['libext.so'] = 'so'
        else:
            b.files['l1/libext.so'] = so; b.kinds['l1/libext.so'] = 'so'
            b.lopts += ['-L', 'l1']
            if how == 'L2':
                b.files['l2/libext.so'] = bad; b.decoys.add('l2/libext.so')
                b.lopts += ['-L', 'l2']
            b.lopts += ['-lext']
        b.libhow = how
    return b

def install(w, files, skip=()):
    for f, d in files.items():
        if f not in skip:
            w.file('/w/' + f if f[0] != '/' else f, d)

def run_argv(b, extra=()):
    a = ['cjit', '-q'] + list(extra) + b.opts + b.lopts + b.inputs
    if b.prog.args:
        a += ['--'] + b.prog.args
    return a

IN_MIX = [('read', 'EIO'), ('read', 'short'), ('read', 'EINTR'), ('open', 'EIO'), ('open', 'EACCES'), ('open', 'EMFILE'), ('open', 'ENFILE'), ('open', 'ENOMEM'), ('close', 'EIO'), ('lseek', 'EIO'), ('fstat', 'EIO'),
          ('stat', 'EIO'), ('stat', 'EACCES'), ('readdir', 'EIO'), ('mmap', 'ENOMEM'), ('mprotect', 'ENOMEM'), ('dlopen', 'EIO'), ('getcwd', 'ENOENT')]
