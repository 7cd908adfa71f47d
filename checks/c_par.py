from proj import *

class C16:
    ID = 'C16'
    TITLE = 'Parallel builds give the results of serial ones'
    BUDGET = {'quick': (3000, 110), 'thorough': (60000, 1300)}
    RULE = 'a case runs 2-6 commands of a generated project (compile, archive, link, run, list, extract, assets, package) at the same time in one directory under a seeded scheduler, runtime assets present or absent, in some cases with one of them killed or hit by a fault; non-trivial when the schedule preempted or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over schedules at operation granularity; each command is compared (exit status, output, diagnostics, files) with its own outcome in a serial build. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        pk = rng.randrange(12 if ctx.tier == 'quick' else 300)
        P = gen_project(random.Random('proj/%d' % pk))
        ref = proj_refs(ctx, P, pk)
        names = rng.sample(sorted(P.steps), rng.choice([3, 3, 4, 5, 8]))
        if rng.random() < .3:       # similar commands, side by side
            fam = rng.choice(['link', 'c', 'run', 'ar'])
            names = [nm for nm in sorted(P.steps) if nm.startswith(fam)] + names[:rng.randrange(3)]
            names = list(dict.fromkeys(names))
            rng.shuffle(names)
        if rng.random() < .25:      # the same read-only command several times
            names += [nm for nm in names if nm[:3] == 'run'][:2]
        assets = rng.random() < .8
        w = ctx.world()
        # what the chosen commands need lies there already
        have = {}
        def need(nm):
            for x in P.steps[nm].needs:
                need(x)
                if x not in names:
                    have.update({q: v for q, v in ref[x]['new'].items() if v[0] == 'f'})
        chosen = []
        for nm in names:        # a command whose inputs another one is making has to wait in any build
            deps, todo = set(), [nm]
            while todo:
                for x in P.steps[todo.pop()].needs:
                    if x not in deps:
                        deps.add(x); todo.append(x)
            if not (deps & set(names)):
                chosen.append(nm)
        names = chosen if len(chosen) > 1 else [names[0], rng.choice([x for x in ('xass', 'xtgz', 'run2', 'link3') if x != names[0]])]
        for nm in names:
            need(nm)
        # old outputs may lie there already
        for nm in names:
            for o in P.steps[nm].outs:
                if rng.random() < .3:
                    have['/w/' + o] = ('f', 0o755 if 'prog' in o else 0o644, rng.choice([b'old', b'o' * 40000]).hex())
        proj_setup(ctx, w, P, assets=assets)
        for q, v in have.items():
            w.file(q, bytes.fromhex(v[2]), v[1])
        before = tree_of(w)
        # commands held up in the middle of making their outputs while the others go on
        if rng.random() < .6:
            for cls in rng.sample(['write', 'rename', 'unlink', 'creat', 'close', 'mkdir', 'chmod', 'open', 'read'], rng.choice([1, 2, 3])):
                w.rule(cls, 'stop', rng.choice([60000, 300000, 1000000]), rng.choice([1, 2, 3, 6]), rng.choice([-1, -1, 0, 1]), rng.choice(['/w/', '/w/', ADIR]), rng.choice([60, 600, 4000]))
        w.preempt(rng.choice([5000, 30000, 100000, 300000, 500000]))
        victim = rng.randrange(len(names)) if len(names) > 1 and rng.random() < .35 else None
        hit = None
        for i, nm in enumerate(names):
            s = P.steps[nm]
            idx = w.launch(s.argv, cwd=s.cwd, stdin=s.stdin, garbage=i + 1)
            if i == victim:
                def setup(v, s=s):
                    proj_setup(ctx, v, P, assets=assets)
                    for q, x in have.items():
                        v.file(q, bytes.fromhex(x[2]), x[1])
                ops = oplist(ctx, 'par%s/%s/%s/%s' % (pk, nm, assets, sorted((q, len(x[2])) for q, x in have.items())), setup, lambda v, s=s: v.launch(s.argv, cwd=s.cwd, stdin=s.stdin))
                hit = target_fault(ctx, w, idx, ops, pred=lambda o: not o[2].startswith('std:'), kill=rng.random() < .6)
        r = w.run()
        ctx.tag('%d commands%s%s' % (len(names), '' if assets else ', no assets', ', one failing' if victim is not None else ''))
        what = 'concurrent %s, assets %s, victim %s' % (' '.join(names), assets, victim is not None and (names[victim], hit))
        if diseased(ctx, r, what):
            return
        exp = dict(before)
        loose = set()
        for i, nm in enumerate(names):
            new = ref[nm]['new']
            p = parent(r, i + 1)
            s = P.steps[nm]
            d = '%s: %s %r: exit %s sig %s out %r err %r' % (what, nm, s.argv, p['exit'], p['sig'], p['out'][:100], p['err'][-200:])
            ok = p['exit'] == ref[nm]['exit'] and p['out'] == ref[nm]['out']
            if i == victim and [f for f in r['faults'] if not f[2].endswith(':stop')] and not (ok and not s.prog and p['exit'] == 0):
                loose |= set(new)
                if s.prog is None and p['exit'] == 0:
                    ctx.fail('victim-false-success', d); return
                continue
            if not ok:
                ctx.fail('result', d + '; alone: exit %s out %r' % (ref[nm]['exit'], ref[nm]['out'][:100])); return
            if p['err'] != ref[nm]['err'] and i != victim:
                ctx.fail('diagnostics', d + '; alone: %r' % ref[nm]['err'][-200:]); return
            if s.prog and len(children(r, i + 1)) != 1:
                ctx.fail('ran', d); return
            exp.update(new)
        t = tree_of(w)
        if victim is not None:
            for q in list(t):
                if q in loose or q not in exp:
                    t.pop(q)
            for q in loose:
                exp.pop(q, None)
        x = tree_diff(t, exp)
        if x:
            ctx.fail('files', '%s: %s' % (what, x)); return
        if not (victim is not None and len(names) == 1) and any(i != victim for i in range(len(names))):
            if any(P.steps[nm].argv[1] != '-ar' and nm not in ('xass', 'xtgz') for i, nm in enumerate(names) if i != victim):
                bad = assets_wrong(ctx, w)
                if bad:
                    ctx.fail('assets', '%s: %s' % (what, bad)); return
        if rng.random() < .02:
            ctx.sample = {'commands': names, 'assets': assets, 'victim': victim, 'preemptions': len(w.sched)}

CHECKS = [C16()]
