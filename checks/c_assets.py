from common import *

MIX = [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EMFILE'), ('creat', 'EACCES'), ('creat', 'ENOSPC'), ('mkdir', 'ENOSPC'), ('mkdir', 'EACCES'),
       ('close', 'EIO'), ('close', 'ENOSPC'), ('rename', 'EIO'), ('any', 'kill'), ('disk', 'kill'), ('disk', 'killafter'), ('disk', 'EIO'), ('unlink', 'EIO'), ('stat', 'EIO'), ('stat', 'EACCES'),
       ('any', 'term'), ('any', 'intr'), ('open', 'ENFILE')]

def asset_ops(ctx, kind):
    def setup(w):
        w.file('/w/z.c', 'int main(){return 0;}\n')
    argv = {'run': ['cjit', '-q', 'z.c'], 'obj': ['cjit', '-c', 'z.c'], 'xass': ['cjit', '--xass']}[kind]
    ops = oplist(ctx, 'assets-' + kind, setup, lambda w: w.launch(argv))
    return [o for o in ops if o[2].startswith('/tmp')] or ops

class C01:
    ID = 'C01'
    TITLE = 'A launch interrupted while unpacking assets never poisons later launches'
    BUDGET = {'quick': (6000, 110), 'thorough': (90000, 1500)}
    RULE = 'a case is 1-3 launches (run, -c, --xass) on a machine with no, partial or complete assets, each with one fault or crash placed at an operation on the asset directory, seeded fault rules, a full disk or a failing allocation, then a fault-free launch; non-trivial when at least one fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over crash points and fault sequences of asset set-up with the real program; the expected asset tree is decoded independently from the embedded archives. Samples, does not enumerate; process crashes only.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        prog = gen_prog(rng, nsrc=rng.choice([1, 1, 2]), big=False)
        prog.install(w)
        w.file('/w/z.c', 'int main(){return 0;}\n')
        n = rng.choice([1, 1, 1, 2, 3])
        hist = []
        for i in range(n):
            kind = rng.choice(['run', 'run', 'obj', 'xass'])
            argv = {'run': prog.argv(), 'obj': ['cjit', '-c', 'z.c'], 'xass': ['cjit', '--xass']}[kind]
            par = {}
            mode = rng.choice(['target', 'target', 'target', 'kill', 'kill', 'rules', 'quota', 'alloc'])
            if mode == 'alloc':
                par['allocfail'] = rng.randrange(1, 60)
            if mode == 'quota':
                w.set('quota', rng.choice([0, 1, 500, rng.randrange(0, 90000), rng.randrange(0, 90000)])) if ctx.plans is None or True else None
            idx = w.launch(argv, garbage=rng.randrange(1, 99), **par)
            if mode == 'target':
                target_fault(ctx, w, idx, asset_ops(ctx, kind))
            elif mode == 'kill':
                target_fault(ctx, w, idx, asset_ops(ctx, kind), kill=True)
            elif mode == 'rules':
                add_rules(ctx, w, idx, MIX, scale=4)
            r = w.run()
            w.clear()
            hist.append((kind, mode, [f[4] + ' ' + f[2] for f in r['faults']]))
            what = 'faulty launch %d of %d (%s)' % (i + 1, n, kind)
            ctx.tag(kind + '/' + mode)
            if diseased(ctx, {**r, 'procs': [p for p in r['procs'] if p['launch'] == i + 1]}, what):
                break
            p = parent(r, i + 1)
            if kind == 'run':
                check_run(ctx, w, r, i + 1, prog, what)
            elif kind == 'xass' and p['exit'] == 0 and p['sig'] is None:
                bad = assets_wrong(ctx, w)
                if bad:
                    ctx.fail('xass-success', '%s exited 0 but %s' % (what, bad))
            if ctx.bad:
                break
        if not ctx.bad:
            idx = w.launch(prog.argv(), garbage=rng.randrange(1, 99))
            r = w.run()
            last = n + 1
            what = 'fault-free launch after %r' % (hist,)
            if not diseased(ctx, {**r, 'procs': [p for p in r['procs'] if p['launch'] == last]}, what):
                check_run(ctx, w, r, last, prog, what, faulty=False)
                bad = assets_wrong(ctx, w)
                if bad:
                    ctx.fail('assets-incomplete', '%s: %s' % (what, bad))
        if rng.random() < .02:
            ctx.sample = {'history': hist, 'argv': prog.argv()}

class C02:
    ID = 'C02'
    TITLE = 'Concurrent first launches never see half-written assets'
    BUDGET = {'quick': (4000, 110), 'thorough': (60000, 1500)}
    RULE = 'a case is 2-4 first launches (runs, -c, --xass) started together under a seeded schedule, in part with one of them killed, then a later launch; non-trivial when the schedule deviates from run-to-completion; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over interleavings of the system calls of several real first launches. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        n = rng.choice([2, 2, 2, 3, 4])
        progs, kinds = [], []
        kills = rng.random() < .3
        stalls = rng.random() < .5
        w.preempt(rng.choice([5000, 30000, 100000, 300000, 500000]))
        for i in range(n):
            pr = gen_prog(rng, nsrc=1, big=False, args=['p%d' % i], simple=True)
            pr.files = {'p%d.c' % i: pr.files['m0.c']}
            pr.sources = ['p%d.c' % i]
            pr.install(w)
            progs.append(pr)
            kind = rng.choice(['run', 'run', 'run', 'obj', 'xass'])
            kinds.append(kind)
            argv = {'run': pr.argv(), 'obj': ['cjit', '-c', 'p%d.c' % i], 'xass': ['cjit', '--xass']}[kind]
            idx = w.launch(argv, garbage=i + 1)
            if kills and i == 0:
                target_fault(ctx, w, idx, asset_ops(ctx, kind), kill=True)
            elif stalls and rng.random() < .6:
                # one of them stands still for long, between two operations on the assets
                ops = asset_ops(ctx, kind)
                o = rng.choice(ops[:5] if rng.random() < .7 else ops)
                w.at(idx, o[0], 'any:stop', rng.choice([60, 200, 350, 500, 800, 4000]))
        if stalls and rng.random() < .6:
            # or in the middle of writing a file
            w.rule(rng.choice(['write', 'close', 'disk']), 'stop', rng.choice([3000, 20000, 100000]), rng.choice([2, 4, 8]), -1, '/tmp/', rng.choice([60, 300]))
        if rng.random() < .2:
            w.rule('write', 'short', 300000, -1, -1, '/tmp/')
        r = w.run()
        ctx.tag('%d processes%s' % (n, ' with a kill' if kills else ''))
        killed = [p['launch'] for p in r['procs'] if p['par'] < 0 and killed_by_sim(r, p)]
        if diseased(ctx, r, 'concurrent launches'):
            return
        for i in range(n):
            l = i + 1
            p = parent(r, l)
            what = 'launch %d of %d concurrent (%s)' % (l, n, ', '.join(kinds))
            if l in killed:
                continue
            if kinds[i] == 'run':
                check_run(ctx, w, r, l, progs[i], what, faulty=False)
            else:
                if p['exit'] != 0:
                    ctx.fail('failed', '%s exited %s: %s' % (what, p['exit'], p['err'][-300:]))
                elif kinds[i] == 'obj' and w.read('/w/p%d.o' % i) != obj_ref(ctx, 'p%d.c' % i, progs[i].files['p%d.c' % i]):
                    ctx.fail('object', '%s made a different object file' % what)
            if ctx.bad:
                return
        if len(killed) < n:
            bad = assets_wrong(ctx, w)
            if bad:
                ctx.fail('assets-incomplete', 'after %d concurrent launches %s' % (n, bad)); return
        w.clear()
        w.launch(progs[0].argv())
        r = w.run()
        check_run(ctx, w, r, n + 1, progs[0], 'launch after %d concurrent first launches' % n, faulty=False)
        bad = assets_wrong(ctx, w)
        if bad:
            ctx.fail('assets-incomplete', 'after %d concurrent launches and one more %s' % (n, bad))
        if rng.random() < .02:
            ctx.sample = {'kinds': kinds, 'killed': killed, 'preemptions': len(w.sched)}

def obj_ref(ctx, name, text):
    w = ctx.world(faulty=False)
    preload_assets(ctx, w)
    w.file('/w/' + name, text)
    w.launch(['cjit', '-c', name])
    w.run()
    return w.read('/w/' + name.rsplit('.', 1)[0] + '.o')

CHECKS = [C01(), C02()]
