"""A small project (headers, modules, a main program, data package) and the build commands on it."""
from cmds import *

class Step:
    def __init__(self, name, argv, outs, needs=(), cwd='/w', stdin='null', prog=None, dirs=()):
        self.name, self.argv, self.outs, self.needs, self.cwd, self.stdin, self.prog, self.dirs = name, argv, list(outs), list(needs), cwd, stdin, prog, list(dirs)

class Project:
    pass

def gen_project(rng):
    """sources {path: text}, steps by name; every output path is made by one step."""
    P = Project()
    n = rng.choice([2, 3, 4])
    mul = rng.randrange(3, 99)
    big = filler(rng, rng.choice([50, 9000])) if rng.random() < .4 else ''
    P.files = {'common.h': '#ifndef COMMON_H\n#define COMMON_H\n#include <stddef.h>\n#include "sub/conf.h"\n' + ''.join('int mod%d(int x);\n' % i for i in range(n)) + big + '#endif\n',
               'inc/sub/conf.h': '#define MUL %d\n' % mul}
    P.n = n
    vals = [rng.randrange(1, 9999) for _ in range(n)]
    for i in range(n):
        P.files['mod%d.c' % i] = '#include "common.h"\n%sstatic int k%d = %d;\nconst char name%d[] = "mod%d";\nint mod%d(int x) { return x + MUL * k%d; }\n%s' % (
            filler(rng, 8300) if rng.random() < .2 else '', i, vals[i], i, i, i, i, ''.join('int aux%d_%d(void) { return %d; }\n' % (i, j, j) for j in range(rng.choice([0, 3, 40]))))
    P.files['main.c'] = '#include <stdio.h>\n#include "common.h"\nint main(int argc, char **argv) {\n int t = argc - 1;\n' + ''.join(' t = mod%d(t);\n' % i for i in range(n)) + ' printf("%d\\n", t);\n for (int i = 1; i < argc; i++) puts(argv[i]);\n return t % 200;\n}\n'
    P.total = mul * sum(vals)
    c_extract_tree = {'pkg/readme': b'read me\n' * rng.randrange(1, 300), 'pkg/data/blob': bytes((i * 31) & 255 for i in range(rng.randrange(1, 30000))), 'pkg/empty': b''}
    ents = [c_extract.ustar(b'pkg/data/', typ=b'5')] + [c_extract.ustar(k.encode(), v) for k, v in c_extract_tree.items()]
    P.files['pkg.tgz'] = gzip.compress(b''.join(ents) + bytes(1024), mtime=0)
    inc = rng.choice([['-I', 'inc'], ['-Iinc'], ['-I', '/w/inc']])
    q = ['cjit', '-q']
    S = P.steps = {}
    for i in range(n):
        out = rng.choice(['mod%d.o', 'mod%d.o', 'obj/mod%d.o', 'x mod%d.obj' if False else 'mod%d.o']) % i
        S['c%d' % i] = Step('c%d' % i, (q if rng.random() < .5 else ['cjit']) + inc + (['-c', 'mod%d.c' % i] if out == 'mod%d.o' % i else ['-c', 'mod%d.c' % i, '-o', out]), [out])
    objs = [S['c%d' % i].outs[0] for i in range(n)]
    k = rng.randrange(1, n + 1)      # modules 0..k-1 in the archive
    lib = rng.choice(['libp.a', 'lib/libp.a'])
    S['ar'] = Step('ar', ['cjit', '-ar', rng.choice(['rcs', 'rcsv']), lib] + objs[:k], [lib], ['c%d' % i for i in range(k)])
    S['ar2'] = Step('ar2', ['cjit', '-ar', 'rcs', 'libq.a'] + objs[::-1], ['libq.a'], ['c%d' % i for i in range(n)])
    ins = ['main.c'] + objs[k:] + [lib]
    need = ['ar'] + ['c%d' % i for i in range(k, n)]
    S['link'] = Step('link', q + inc + ['-o', 'prog'] + ins, ['prog'], need)
    S['link2'] = Step('link2', q + inc + ['-o', 'bin/prog2', 'main.c', 'libq.a'], ['bin/prog2'], ['ar2'])
    S['link3'] = Step('link3', q + inc + ['-o', 'prog3', 'main.c'] + ['mod%d.c' % i for i in range(n)], ['prog3'])
    S['link4'] = Step('link4', q + inc + ['-o', 'prog4'] + ['mod%d.c' % i for i in range(n)][::-1] + ['main.c'], ['prog4'])
    for nm, inputs, nd in (('run', ins, need), ('run2', ['main.c'] + ['mod%d.c' % i for i in range(n)], []), ('run3', ['main.c', 'libq.a'], ['ar2'])):
        a = [rng.choice(['x', '-o', 'y z'])] * rng.randrange(0, 3)
        pr = Prog()
        t = P.total + len(a)
        pr.out, pr.exit = b'%d\n' % t + b''.join(x.encode() + b'\n' for x in a), t % 200
        S[nm] = Step(nm, q + inc + inputs + (['--'] + a if a else []), [], nd, prog=pr)
    S['xass'] = Step('xass', ['cjit', '--xass=rt/assets'], [], dirs=['rt'])
    S['xtgz'] = Step('xtgz', ['cjit', '--xtgz', '/w/pkg.tgz'], [], cwd='/w/ext')
    S['t'] = Step('t', ['cjit', '-ar', 't', lib], [], ['ar'])
    S['x'] = Step('x', ['cjit', '-ar', 'x', '/w/' + lib], [], ['ar'], cwd='/w/xt')
    P.dirs = ['/w', '/w/obj', '/w/lib', '/w/bin', '/w/rt', '/w/ext', '/w/xt']
    return P

def proj_setup(ctx, w, P, extra={}, assets=True):
    if assets:
        preload_assets(ctx, w)
    for d in P.dirs:
        w.dir(d)
    for f, d in list(P.files.items()) + list(extra.items()):
        w.file(f if f[0] == '/' else '/w/' + f, d)

def proj_refs(ctx, P, key):
    """Every step's fault-free outcome and new files, from a serial build; cached by key."""
    ck = ('proj', key)
    if ck not in ctx.cache:
        asset_tree(ctx)
        w = ctx.world(faulty=False)
        proj_setup(ctx, w, P)
        before = tree_of(w)
        res, l = {}, 0
        done = set()
        def do(nm):
            nonlocal before, l
            if nm in done:
                return
            s = P.steps[nm]
            for x in s.needs:
                do(x)
            done.add(nm)
            w.launch(s.argv, cwd=s.cwd, stdin=s.stdin)
            r = w.run()
            l += 1
            p = parent(r, l)
            t = tree_of(w)
            if p['sig'] is not None or (s.prog is None and p['exit'] != 0) or (s.prog and (p['exit'], p['out']) != (s.prog.exit, s.prog.out)):
                raise RuntimeError('project step %s %r: exit %s out %r err %r' % (nm, s.argv, p['exit'], p['out'], p['err'][-300:]))
            res[nm] = {'exit': p['exit'], 'out': p['out'], 'err': p['err'], 'new': {q: v for q, v in t.items() if before.get(q) != v}}
            for o in s.outs:
                if '/w/' + o not in res[nm]['new']:
                    raise RuntimeError('project step %s made no %s' % (nm, o))
            before = t
        for nm in P.steps:
            do(nm)
        if len([q for q in ctx.cache if isinstance(q, tuple) and q[0] == 'proj']) > 120:
            for q in [q for q in ctx.cache if isinstance(q, tuple) and q[0] == 'proj'][:60]:
                del ctx.cache[q]
        ctx.cache[ck] = res
    return ctx.cache[ck]

def mutate_project(P, rng):
    """The next version of the sources; the build commands stay the same."""
    Q = Project()
    Q.__dict__.update(P.__dict__)
    Q.files = dict(P.files)
    add = 0
    for i in range(P.n):
        if rng.random() < .6:
            t = Q.files['mod%d.c' % i]
            old = int(re.search(r'static int k%d = (\d+);' % i, t).group(1))
            new = rng.randrange(1, 9999)
            t = t.replace('static int k%d = %d;' % (i, old), 'static int k%d = %d;' % (i, new))
            if rng.random() < .5:
                t = re.sub(r'int aux\d+_\d+\(void\) \{ return \d+; \}\n', '', t)
            else:
                t += ''.join('int more%d_%d(void) { return %d; }\n' % (i, j, j) for j in range(rng.choice([1, 30])))
            Q.files['mod%d.c' % i] = t
            add += new - old
    mul = int(Q.files['inc/sub/conf.h'].split()[-1])
    Q.total = P.total + mul * add
    Q.steps = {}
    for nm, s in P.steps.items():
        s2 = Step(s.name, s.argv, s.outs, s.needs, s.cwd, s.stdin, s.prog, s.dirs)
        if s.prog:
            pr = Prog()
            lines = s.prog.out.split(b'\n', 1)
            t = Q.total + int(lines[0]) - P.total
            pr.out, pr.exit = b'%d\n' % t + lines[1], t % 200
            s2.prog = pr
        Q.steps[nm] = s2
    return Q
