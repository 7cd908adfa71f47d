from proj import *

MIX = [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EACCES'), ('creat', 'ENOSPC'), ('creat', 'EMFILE'), ('close', 'EIO'), ('close', 'ENOSPC'), ('read', 'EIO'), ('read', 'short'), ('open', 'EIO'), ('open', 'EMFILE'),
       ('lseek', 'EIO'), ('rename', 'EIO'), ('chmod', 'EPERM'), ('mkdir', 'ENOSPC'), ('any', 'kill'), ('any', 'kill'), ('any', 'killafter'), ('any', 'intr'), ('any', 'term')]

class C18:
    ID = 'C18'
    TITLE = 'A failed build step can simply be run again'
    BUDGET = {'quick': (2400, 110), 'thorough': (45000, 1300)}
    RULE = 'a case is a build of a generated project (compile, archive, link, run, extract, list, assets, package), sometimes over the outputs of an older version, in which steps are killed, get signals, fail on a full disk, failing operations or allocations, are run again (possibly failing again) and finally succeed on a healthy system; non-trivial when a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over build histories and faults; the final tree must equal, file by file, that of a serial build that never failed. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        pk = rng.randrange(10 if ctx.tier == 'quick' else 200)
        P0 = gen_project(random.Random('proj/%d' % pk))
        P, vk = P0, 0
        if rng.random() < .5:
            vk = rng.randrange(1, 4)
            P = mutate_project(P0, random.Random('proj/%d/%d' % (pk, vk)))
        ref = proj_refs(ctx, P, (pk, vk))
        goal = rng.sample(sorted(P.steps), rng.choice([1, 2, 3, 5]))
        order, done = [], set()
        def add(nm):
            for x in P.steps[nm].needs:
                add(x)
            if nm not in done:
                done.add(nm); order.append(nm)
        for nm in goal:
            add(nm)
        assets = rng.random() < .7
        w = ctx.world()
        have = {}
        if vk:      # outputs of the older version
            old = proj_refs(ctx, P0, (pk, 0))
            for nm in order:
                if rng.random() < .8:
                    have.update({q: v for q, v in old[nm]['new'].items()})
        def setup(v, upto=None):
            proj_setup(ctx, v, P, assets=assets)
            for q, x in sorted(have.items()):
                if x[0] == 'f':
                    v.file(q, bytes.fromhex(x[2]), x[1])
                elif x[0] == 'd':
                    v.dir(q, x[1])
            if upto:
                for nm in order[:order.index(upto)]:
                    for q, x in sorted(ref[nm]['new'].items()):
                        if x[0] == 'f':
                            v.file(q, bytes.fromhex(x[2]), x[1])
                        elif x[0] == 'd':
                            v.dir(q, x[1])
        setup(w)
        exp = tree_of(w)
        launch = 0
        hist = []
        faulty = set(rng.sample(order, min(len(order), rng.choice([1, 1, 2, 3]))))
        for nm in order:
            s = P.steps[nm]
            tries = rng.choice([1, 1, 2]) if nm in faulty else 0
            while True:
                mode = 'healthy'
                par = {'garbage': rng.randrange(1, 99)}
                if tries:
                    mode = rng.choice(['kill', 'kill', 'kill', 'target', 'target', 'rules', 'quota', 'alloc'])
                if mode == 'alloc':
                    par[rng.choice(['allocfail', 'allocfailafter'])] = rng.randrange(1, 300)
                idx = w.launch(s.argv, cwd=s.cwd, stdin=s.stdin, **par)
                if mode in ('kill', 'target'):
                    ops = oplist(ctx, 'retry%s/%s/%s/%s/%s' % (pk, vk, nm, assets, sorted((q, len(x[2])) for q, x in have.items() if x[0] == 'f')), lambda v: setup(v, nm), lambda v: v.launch(s.argv, cwd=s.cwd, stdin=s.stdin))
                    own = rng.random() < .8
                    target_fault(ctx, w, idx, ops, pred=lambda o: (not own or o[2].startswith('/w') or o[2] == '') and not o[2].startswith('std:'), kill=mode == 'kill')
                elif mode == 'rules':
                    add_rules(ctx, w, idx, MIX, prefix=rng.choice(['/w/', '!std:']), scale=4)
                elif mode == 'quota':
                    w.set('quota', rng.choice([0, 1, rng.randrange(0, 3000), rng.randrange(0, 90000)]))
                r = w.run()
                launch += 1
                p = parent(r, launch)
                w.clear()
                hist.append('%s:%s->%s' % (nm, mode, p['exit'] if p['sig'] is None else 'sig%d' % p['sig']))
                d = '%s; %s %r: exit %s sig %s, out %r, stderr %r' % (' '.join(hist), nm, s.argv, p['exit'], p['sig'], p['out'][:100], p['err'][-300:])
                if diseased(ctx, r, ' '.join(hist)):
                    return
                ok = p['exit'] == ref[nm]['exit'] and p['out'] == ref[nm]['out']
                if mode == 'healthy':
                    if not ok:
                        ctx.fail('retry-fails', d + '; a build that never failed: exit %s out %r' % (ref[nm]['exit'], ref[nm]['out'][:100])); return
                    break
                tries -= 1
                ctx.tag('%s %s %s' % (nm.rstrip('0123456789'), mode, 'failed' if not ok else 'ok'))
                if ok and not tries and rng.random() < .7 or (p['exit'] == 0 and not s.prog):
                    break       # reported success: taken at its word
            exp.update(ref[nm]['new'])
        x = tree_diff(tree_of(w), exp)
        if x:
            ctx.fail('artefacts', '%s: %s' % (' '.join(hist), x)); return
        if any(P.steps[nm].argv[1] != '-ar' and nm not in ('xass', 'xtgz') for nm in order):
            x = tree_diff(tree_of(w, ADIR), {q: tuple(v) for q, v in asset_tree(ctx).items()})
            if x:
                ctx.fail('assets', '%s: %s' % (' '.join(hist), x)); return
        other = [q for q in w.tree('/tmp', data=False) if q != '/tmp' and not q.startswith(ADIR)]
        if other:
            ctx.fail('elsewhere', '%s: files elsewhere: %r' % (' '.join(hist), other[:4])); return
        if rng.random() < .02:
            ctx.sample = {'history': hist, 'assets': assets, 'version': vk}

CHECKS = [C18()]
