from cmds import *

class C14:
    ID = 'C14'
    TITLE = 'The same inputs always give the same outputs'
    BUDGET = {'quick': (6000, 100), 'thorough': (100000, 1300)}
    RULE = 'a case is one cjit command over generated inputs, executed in two worlds that differ in clock, process ids, heap contents, heap/stack/mapping addresses, block placement, what earlier calls left on the stack, inode creation and directory order, directory entry types, splitting of reads and writes and in having a terminal; every case is non-trivial; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Differential: exit status, standard output and error, and every file left behind must be equal in both worlds. Seeded search, samples only; the addresses of the cjit binary itself and of the host C library stay fixed.'
    def case(self, ctx):
        rng = ctx.rng
        kind = rng.choice(KINDS + ['c', 'exe', 'ar', 'lib', 'badsrc'])
        c = gen_cmd(ctx, kind, random.Random('%s/%d' % (kind, rng.randrange(100 if ctx.tier == 'quick' else 1500))))
        ref = ref_cmd(ctx, c)
        if ref['sig'] is not None or ref['status'] != 'ok':
            ctx.fail('reference', '%r: %s' % (c.argv, {k: ref[k] for k in ('sig', 'status', 'err')})); return
        w = ctx.world()
        w.set('time', rng.choice([0, 1, 86399 * 10**6, rng.randrange(1, 4 * 10**9) * 10**6]))
        w.set('optime', rng.choice([0, 1, 1000, 5 * 10**6]))
        w.set('pid', rng.choice([1, 9, 99, 32000, 4194000, rng.randrange(2, 4000000)]))
        w.set('dirseed', rng.randrange(1, 1 << 30))
        if rng.random() < .3:
            w.set('dtunknown', 1)
        names = list(c.files)
        rng.shuffle(names)
        c2 = Cmd(c.kind)
        c2.__dict__.update(c.__dict__)
        c2.files = {n: c.files[n] for n in names}
        c2.setup(ctx, w)
        par = {'garbage': rng.randrange(1, 1 << 20), 'shift': rng.randrange(1, 1 << 20)}
        if rng.random() < .3:
            par['guard'] = rng.choice([1, 2, 7, 30])
            par['preseed'] = rng.randrange(1, 1 << 30)
        if rng.random() < .6:
            par['smear'] = rng.randrange(1, 1 << 30)
        tty = rng.random() < .3
        idx = w.launch(c.argv, stdin=c.stdin, env=c.env, tty=tty, **par)
        split = rng.choice(['no', 'no', 'read', 'write', 'both'])
        for op in ('read', 'write'):
            if split in (op, 'both'):
                w.rule(op, 'short', rng.choice([30000, 300000, 900000]), -1, idx, '*', rng.choice([0, 0, 1, 7]) if ref['exit'] is None else 0)
        ctx.nontrivial = True
        r = w.run()
        ctx.tag(kind)
        p = parent(r, 1)
        d0 = '%r with %r, split %s, tty %s' % (c.argv[:12], par, split, tty)
        if diseased(ctx, r, d0):
            return
        if (p['exit'], p['sig']) != (ref['exit'], ref['sig']):
            ctx.fail('exit-differs', '%s: exit %s sig %s, other world %s; stderr %r / %r' % (d0, p['exit'], p['sig'], ref['exit'], p['err'][-200:], ref['err'][-200:])); return
        if p['out'] != ref['out']:
            ctx.fail('output-differs', '%s: %r / %r' % (d0, p['out'][:300], ref['out'][:300])); return
        # on a terminal cjit is chattier; what it says otherwise must all be there
        it = iter(p['err'].split(b'\n'))
        if p['err'] != ref['err'] and not (tty and all(l in it for l in ref['err'].split(b'\n'))):
            ctx.fail('diagnostics-differ', '%s: %r / %r' % (d0, p['err'][-400:], ref['err'][-400:])); return
        t = tree_diff(tree_of(w), ref['tree']) or tree_diff(tree_of(w, ADIR), ref['tmp'])
        if t:
            ctx.fail('files-differ', '%s: %s' % (d0, t)); return
        if rng.random() < .01:
            ctx.sample = {'kind': kind, 'argv': c.argv[:12], 'params': par, 'split': split, 'exit': p['exit']}

CHECKS = [C14()]
