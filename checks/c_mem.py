from cmds import *

class C10:
    ID = 'C10'
    TITLE = 'Running out of memory is a clean failure'
    BUDGET = {'quick': (18000, 120), 'thorough': (150000, 1300)}
    RULE = 'a case is one cjit command (run, run from standard input, -c, -o, -ar rcs/t/x, --xtgz, --xass, library resolution, compile error) in which the n-th allocation fails, or all from the n-th on, or all beyond a heap size, or memory-related system calls fail, with seeded heap garbage and guarded blocks; non-trivial when a failure was delivered; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over commands and failing allocations; the oracle is the fault-free outcome of the same command. Samples positions, does not enumerate them; failures inside libc and the dynamic loader are delivered as failing calls only.'
    def case(self, ctx):
        rng = ctx.rng
        kind = rng.choice(['run', 'run', 'run', 'stdin', 'c', 'c', 'exe', 'exe', 'ar', 't', 'x', 'xtgz', 'xass', 'lib', 'lib', 'badsrc', 'show'])
        c = gen_cmd(ctx, kind, random.Random('%s/%d' % (kind, rng.randrange(60 if ctx.tier == 'quick' else 600))))
        ref = ref_cmd(ctx, c)
        if ref['sig'] is not None or ref['status'] != 'ok':
            ctx.fail('reference', '%r: %s' % (c.argv, ref)); return
        if c.prog and (ref['exit'], ref['out']) != (c.prog.exit, c.prog.out):
            ctx.fail('reference', '%r: exit %s out %r err %r' % (c.argv, ref['exit'], ref['out'], ref['err'])); return
        w = ctx.world()
        c.setup(ctx, w)
        par = {'garbage': rng.randrange(1, 99)}
        if rng.random() < .15:
            par['guard'] = rng.choice([1, 4, 20])
        n = max(1, ref['allocs'])
        mode = rng.choice(['one', 'one', 'one', 'one', 'one', 'after', 'after', 'limit', 'calls', 'big'])
        k = rng.choice([rng.randrange(1, n + 1), rng.randrange(1, n + 1), rng.randrange(1, min(n, 60) + 1), max(1, n - rng.randrange(0, 40))])
        if ref['sites'] and rng.random() < .75:
            k = pick_alloc(rng, ref['sites'])
        if mode == 'one':
            par['allocfail'] = k
        elif mode == 'after':
            par['allocfailafter'] = k
        elif mode in ('limit', 'big'):
            par['memlimit'] = max(1, rng.choice([rng.randrange(1, ref['peak'] + 1), ref['peak'] - rng.randrange(0, 2000), rng.randrange(1, 200000)]))
        idx = c.launch(w, **par)
        if mode == 'calls':
            for cls, eff in rng.sample([('mmap', 'ENOMEM'), ('mprotect', 'ENOMEM'), ('fork', 'ENOMEM'), ('open', 'ENOMEM'), ('dlopen', 'ENOMEM'), ('readdir', 'ENOMEM'), ('realpath', 'ENOMEM')], 2):
                w.rule(cls, eff, rng.choice([20000, 100000, 500000]), rng.choice([1, 1, -1]), idx)
        r = w.run()
        d0 = '%s %r of %d allocations, %r' % (mode, {a: b for a, b in par.items() if a != 'garbage'}, n, c.argv[:10])
        ctx.tag('%s %s' % (kind, mode))
        if diseased(ctx, r, d0):
            return
        p = parent(r, 1)
        ch = children(r, 1)
        t = tree_of(w)
        d = '%s: exit %s sig %s, out %r, stderr %r' % (d0, p['exit'], p['sig'], p['out'][:80], p['err'][-250:])
        same = p['exit'] == ref['exit'] and p['out'] == ref['out'] and t == ref['tree'] and len(ch) == ref['ran']
        if not r['faults']:
            if not same:
                ctx.fail('unforced-change', '%s; fault-free: exit %s out %r; %s' % (d, ref['exit'], ref['out'][:80], tree_diff(t, ref['tree'])))
            ctx.tag('-> not reached')
            return
        if p['sig'] is not None:
            ctx.fail('crash', d); return
        if same:
            ctx.tag('-> exact'); return
        if ch:
            # a program ran: it must be the right one, and cjit must say so
            if c.prog is None or ch[0]['exit'] != c.prog.exit or not c.prog.out.startswith(p['out']) or len(ch) > 1:
                ctx.fail('wrong-program', d); return
            ctx.fail('wrong-status', d); return
        if p['exit'] == 0:
            ctx.fail('false-success', d + '; ' + str(tree_diff(t, ref['tree']))); return
        if not p['err'].strip():
            ctx.fail('silent', d); return
        ctx.tag('-> nonzero')
        if rng.random() < .01:
            ctx.sample = {'kind': kind, 'mode': mode, 'argv': c.argv[:12], 'params': par, 'exit': p['exit']}

CHECKS = [C10()]
