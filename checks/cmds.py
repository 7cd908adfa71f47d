"""One cjit command of every kind over generated inputs, with its fault-free outcome."""
from builds import *
import c_extract, c_archive

class Cmd:
    """kind, argv, files {abs path: data}, dirs, links, modes, stdin, env, prog (runs only)"""
    def __init__(self, kind):
        self.kind, self.argv, self.files, self.dirs, self.links, self.modes = kind, [], {}, ['/w'], {}, {}
        self.stdin, self.env, self.prog, self.assets = 'null', [], None, True
    def setup(self, ctx, w):
        if self.assets:
            preload_assets(ctx, w)
        for d in self.dirs:
            w.dir(d)
        for f, d in self.files.items():
            w.file(f if f[0] == '/' else '/w/' + f, d, self.modes.get(f, 0o644))
        for f, t in self.links.items():
            w.symlink(f, t)
    def launch(self, w, **par):
        return w.launch(self.argv, stdin=self.stdin, env=self.env, **par)
    def key(self):
        return hashlib.sha256(repr((self.kind, self.argv, sorted(self.files.items()), self.links, self.modes, self.stdin, self.env, self.assets)).encode()).hexdigest()

KINDS = ['run', 'run', 'stdin', 'c', 'exe', 'exe', 'ar', 't', 'x', 'xtgz', 'xass', 'lib', 'badsrc', 'show']

def gen_cmd(ctx, kind, rng):
    """rng replaces the case's stream, so that workloads can be drawn from a limited family."""
    saved, ctx.rng = ctx.rng, rng
    try:
        return gen_cmd_(ctx, kind, rng)
    finally:
        ctx.rng = saved

def gen_cmd_(ctx, kind, rng):
    c = Cmd(kind)
    c.assets = rng.random() < .75
    if kind in ('run', 'exe', 'stdin', 'badsrc'):
        b = gen_build(ctx, libs=kind != 'stdin', nsrc=rng.choice([1, 1, 2, 3]), dirs=kind != 'stdin')
        c.files = dict(b.files)
        if kind == 'exe':
            c.argv = ['cjit'] + rng.choice([['-q'], []]) + b.opts + b.lopts + ['-o', 'prog'] + b.inputs
        else:
            c.argv = run_argv(b)
            c.prog = b.prog
            if kind == 'stdin':
                m = b.inputs[0]
                c.stdin = c.files.pop(m)
                c.stdin = c.stdin if isinstance(c.stdin, bytes) else c.stdin.encode()
                i = c.argv.index(m)
                if len(b.inputs) == 1 and not b.prog.args and rng.random() < .5:
                    del c.argv[i]
                else:
                    c.argv[i] = '-'
            if kind == 'badsrc':
                m = rng.choice([f for f in b.files if f.endswith(('.c', '.cc', '.cxx', '.C', '.h')) and f not in b.decoys])
                t = c.files[m] if isinstance(c.files[m], str) else c.files[m].decode()
                L = t.split('\n')
                L.insert(rng.choice([0, len(L)]), rng.choice(['int broken(;', '#error stop', '#include "nothere.h"', 'int x = undeclared_name;', 'struct s { int a; } v = { .b = 1 };', 'int f( { }', 'char c = "str" - ;', '#if', '#warning odd', 'long long long y;',
                                                          'int dup1(void){return 0;} int dup1(void){return 1;}']))
                c.files[m] = '\n'.join(L)
                c.prog = None
                if rng.random() < .4:
                    c.argv = ['cjit', '-q'] + b.opts + b.lopts + ['-o', 'prog'] + b.inputs
        if rng.random() < .15:
            c.env = ['CFLAGS=-DENVFLAG=1 -I inc']
    elif kind == 'c':
        b = gen_build(ctx, libs=False, objs=False, nsrc=1)
        c.files = dict(b.files)
        c.argv = ['cjit'] + rng.choice([['-q'], []]) + b.opts + ['-c', b.inputs[0]] + rng.choice([[], ['-o', 'out.o']])
    elif kind in ('ar', 't', 'x'):
        n = rng.choice([1, 2, 4])
        src, vals = c_archive.member_sources(rng, n)
        objs = {'%s%d.o' % (rng.choice(['m', 'a_rather_long_member_name_', 'x' * 14]), i): ref_obj(ctx, {'s.c': s}, 's.c', []) for i, s in enumerate(src)}
        if kind == 'ar':
            c.files = objs
            c.argv = ['cjit', '-ar', rng.choice(['rcs', 'rcsv']), 'lib.a'] + list(objs)
        else:
            c.files = {'lib.a': ref_ar(ctx, objs)}
            c.argv = ['cjit', '-ar', kind + rng.choice(['', 'v']), 'lib.a']
    elif kind == 'xtgz':
        a = c_extract.gen_archive(rng)
        z, hl = c_extract.gz(rng, b''.join(a.ents) + a.end)
        c.files = {'in/pkg.tgz': z}
        c.argv = ['cjit', '--xtgz', 'in/pkg.tgz']
    elif kind == 'xass':
        c.assets = rng.random() < .3
        c.argv = ['cjit'] + rng.choice([['--xass=out'], ['--xass'], ['--xass=a/b/c'], ['-q', '--xass=/w/abs']])
    elif kind == 'lib':
        v = rng.randrange(1, 1 << 30)
        so, bad = so_lib(ctx.k, 'ext0', v), so_lib(ctx.k, 'ext0', v ^ 5)
        p = c.prog = Prog()
        c.files['main.c'] = '#include <stdio.h>\nint ext0(void);\nint main(void) { printf("%d\\n", ext0()); return 3; }\n'
        p.out, p.exit = b'%d\n' % v, 3
        how = rng.choice(['script', 'ldconf', 'confd', 'link', 'plain'])
        opts = []
        c.files['zz/libext.so'] = bad
        if how == 'script':
            c.files['l1/libext.so'] = '/* GNU ld script */\nGROUP ( /w/real/libthing.so AS_NEEDED ( ) )\n'
            c.files['real/libthing.so'] = so
            opts = ['-L', 'l1', '-L', 'zz']
        elif how == 'ldconf':
            c.files['/etc/ld.so.conf'] = 'include /etc/ld.so.conf.d/*.conf\n# x\n/w/l1\n/w/zz\n'
            c.files['l1/libext.so'] = so
        elif how == 'confd':
            c.files['/etc/ld.so.conf'] = 'include /etc/ld.so.conf.d/*.conf\n'
            for i, n in enumerate(['a.conf', 'b.conf', 'c.conf', 'd.conf']):
                c.files['/etc/ld.so.conf.d/' + n] = ['/w/none\n', '/w/l1\n', '/w/zz\n', '/w/zz\n'][i]
            c.files['l1/libext.so'] = so
        elif how == 'link':
            c.files['l1/libext.so.1'] = so
            c.links['/w/l1/libext.so'] = 'libext.so.1'
            opts = ['-Ll1', '-Lzz']
        else:
            c.files['l1/libext.so'] = so
            opts = ['-L', 'none', '-L', 'l1', '-L', 'zz']
        libs = ['-lext']
        if rng.random() < .5:       # a library that would do if the right one were lost
            c.files['libfall.so'] = bad
            libs += rng.choice([['-lfall'], ['-l', 'fall']])
        c.argv = ['cjit'] + rng.choice([['-q'], []]) + opts + libs + ['main.c']
    elif kind == 'show':
        c.argv = ['cjit'] + rng.choice([['-v'], ['--version'], ['-h'], ['--help'], ['-q', 'nothere.c'], ['-c'], ['-ar'], ['-ar', 'x', 'nothere.a'], ['--xtgz', 'nothere.tgz'], ['-o', 'x'], ['-v', 'ok.c'], ['--xass=ok.c']])
        c.files['ok.c'] = 'int main(void) { return 0; }\n'
    return c

def tree_of(w, base='/w'):
    return {p: tuple(v) for p, v in w.tree(base).items()}

def alloc_sites(notes):
    """{site: [numbers of the allocations made there]}"""
    v = {}
    for n in notes:
        if n.startswith('sites:'):
            for i, s in enumerate(n[6:].rstrip(',').split(',')):
                v.setdefault(s, []).append(i + 1)
    return v

def pick_alloc(rng, sites):
    """An allocation: each place in the program, or each in its outer functions, is as likely as any other."""
    of = sorted(sites)
    q = rng.random()
    if q < .45:
        of = [s for s in of if int(s, 16) & 63 <= 11] or of
    elif q < .65:
        depth = sorted(set(int(s, 16) & 63 for s in of))[:8]
        d = rng.choice(depth)
        of = [s for s in of if int(s, 16) & 63 == d]
    l = sites[rng.choice(of)]
    return rng.choice([l[0], l[-1], rng.choice(l), rng.choice(l)])

def ref_cmd(ctx, c):
    """Outcome of the command on a healthy machine: dict with exit, out, err, tree, allocs, peak, ran, sites."""
    ck = ('cmd', c.key())
    if ck not in ctx.cache:
        asset_tree(ctx)
        w = ctx.world(faulty=False)
        c.setup(ctx, w)
        c.launch(w, asites=1)
        r = w.run()
        p = parent(r, 1)
        if len(ctx.cache) > 600:
            for q in [q for q in ctx.cache if isinstance(q, tuple) and q[0] == 'cmd'][:200]:
                del ctx.cache[q]
        ctx.cache[ck] = {'exit': p['exit'], 'sig': p['sig'], 'out': p['out'], 'err': p['err'], 'tree': tree_of(w), 'allocs': p['heap'][2], 'peak': p['heap'][3], 'ran': len(children(r, 1)), 'tmp': tree_of(w, ADIR), 'status': r['status'], 'sites': alloc_sites(p['notes'])}
    return ctx.cache[ck]

def tree_diff(a, b):
    """First difference of two trees, in words."""
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            x, y = a.get(p), b.get(p)
            return '%s: %s, should be %s' % (p, x and (x[0], oct(x[1]), len(x[2]) // 2 if x[0] == 'f' else x[2:]), y and (y[0], oct(y[1]), len(y[2]) // 2 if y[0] == 'f' else y[2:]))
    return None
