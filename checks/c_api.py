from apih import *

def launch(w, mode, lines, **par):
    return w.launch(['api', mode] + lines, actor='api', **par)

def results(p, n):
    if p['exit'] != 0 or p['sig'] is not None:
        return None
    ls = p['out'].split(b'\n')[:-1][-n:]
    out = []
    for l in ls:
        f = l.split(b' ', 2)
        if len(f) != 3 or f[0] not in (b'0', b'1'):
            return None
        out.append((int(f[0]), int(f[1]), f[2].decode('latin-1')))
    return out if len(out) == n else None

def merge(rng, lists, burst):
    """Random interleaving keeping each list's order; burst: how long one list goes on."""
    lists = [list(l) for l in lists if l]
    out = []
    cur = None
    while lists:
        if cur is None or cur not in lists or rng.random() < 1 / burst:
            cur = rng.choice(lists)
        out.append(cur.pop(0))
        if not cur:
            lists = [l for l in lists if l]
            cur = None
    return out

class ApiCheck:
    REAL = 'libtcc (lib/tinycc) compiled from the working tree, its runtime objects, the programs it compiles'
    STUB = STUB + '; the application using libtcc is a driver of ours'
    ASSUME = ASSUME

class C11(ApiCheck):
    ID = 'C11'
    TITLE = 'libtcc gives back everything it took'
    BUDGET = {'quick': (12000, 100), 'thorough': (200000, 1300)}
    RULE = 'a case is a history of 1-6 libtcc states in one process (in sequence or interleaved; valid, rejected and randomly damaged sources, missing and damaged files, all output types, early deletion) with failing opens, reads, writes, seeks, mprotect and dlopen; non-trivial when a call failed or a fault was delivered; distinct by event-log hash'
    NOTE = 'Live heap blocks and bytes, open descriptors and open library handles must be back at their first value when all states are deleted. Seeded search over call histories; what compiled programs allocate themselves is not counted against libtcc.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        k = rng.choice([1, 1, 2, 3, 4])
        hs = [gen_hist(rng, '/w/s%d' % i, ctx=ctx) for i in range(k)]
        api_world(ctx, w, hs)
        rounds = rng.choice([1, 1, 2])
        inter = rng.random() < .4
        lines = ['0 0 mem']
        for r in range(rounds):
            ls = [h.on(0, i) for i, h in enumerate(hs)]
            lines += merge(rng, ls, rng.choice([1, 3])) if inter else sum(ls, [])
            lines.append('0 0 mem')
        par = {'garbage': rng.randrange(1, 99)}
        if rng.random() < .1:
            par['guard'] = rng.choice([1, 4])
        faulty = rng.random() < .5
        idx = launch(w, 'inline', lines, **par)
        if faulty:
            for _ in range(rng.choice([1, 1, 2, 3])):
                cls, eff = rng.choice([('read', 'EIO'), ('read', 'EIO'), ('read', 'short'), ('open', 'EIO'), ('open', 'EMFILE'), ('open', 'ENOENT'), ('open', 'EACCES'), ('lseek', 'EIO'), ('write', 'ENOSPC'), ('write', 'short'), ('close', 'EIO'), ('mprotect', 'ENOMEM'), ('dlopen', 'ENOMEM'), ('read', 'EINTR')])
                w.rule(cls, eff, rng.choice([5000, 50000, 300000]), rng.choice([1, 2, -1]), idx, rng.choice(['/', '/w', ADIR]))
        r = w.run()
        p = parent(r, 1)
        strict = all(h.clean for h in hs)
        d0 = 'faulty %s inter %s ops %r' % (faulty, inter, lines)
        if not strict and results(p, len(lines)) is None and any(not h.clean and alone(ctx, h, (), [])[1] is None for h in hs):
            ctx.tag('text the compiler does not survive'); return   # crashing on garbage text is another matter
        if diseased(ctx, r, d0):
            return
        res = results(p, len(lines))
        if res is None:
            ctx.fail('died', 'exit %s sig %s err %r; %s' % (p['exit'], p['sig'], p['err'][-300:], d0)); return
        if r['faults'] or any(x[1] < 0 for x in res):
            ctx.nontrivial = True
        base = res[0][2]
        for i, l in enumerate(lines):
            if l.endswith(' mem') and res[i][2] != base:
                ctx.fail('leak', 'blocks bytes fds libraries: %s before, %s after; %s; messages %r' % (base, res[i][2], d0, [x[2] for x in res if x[2]][:6])); return
        ctx.tag('%d states%s%s' % (k, ' interleaved' if inter else '', ' faulty' if r['faults'] else ''))
        if rng.random() < .01:
            ctx.sample = {'ops': [l[:60] for l in lines[:12]], 'faults': len(r['faults'])}

def alone(ctx, h, dirs, faults, rep=1):
    """What this history yields in a process of its own."""
    key = ('alone', tuple(h.ops), tuple(sorted(h.files)), tuple(faults), rep)
    asset_tree(ctx)
    w = ctx.world(faulty=False)
    api_world(ctx, w, [h], dirs)
    idx = launch(w, 'inline', h.on(0, 0) * rep)
    for f in faults:
        w.rule(f[0], f[1], 1000000, -1, idx, f[2])
    r = w.run()
    p = parent(r, 1)
    return p, results(p, len(h.ops) * rep), {o: (w.read(o)) for o in h.outs}

def pick_faults(rng, hs):
    """Faults tied to one state's own files, so they are the same whatever else happens."""
    out = []
    if rng.random() < .3:
        h = rng.choice(hs)
        fs = [f for f in h.files if f.startswith('/w/s')]
        if fs:
            out.append((rng.choice(['read', 'open']), rng.choice(['EIO', 'EACCES']), rng.choice(fs)))
    return out

def compare(ctx, i, h, got, ref, d):
    for j, (g, x) in enumerate(zip(got, ref)):
        if g != x:
            ctx.fail('differs', 'state %d, %r: %r, alone %r; %s' % (i, h.ops[j % len(h.ops)][:300], g, x, d))
            return True

class C12(ApiCheck):
    ID = 'C12'
    TITLE = 'Compiler states do not influence each other'
    BUDGET = {'quick': (6000, 100), 'thorough': (100000, 1300)}
    RULE = 'a case is 2-5 libtcc states of one process whose calls are interleaved call by call in one thread, with rejected sources and failing files in some; every case is non-trivial; distinct by event-log hash'
    NOTE = 'Each call must yield the result, messages, program results and output file it yields when its state is alone in a process. Seeded search over histories and interleavings; objects, archives and linker scripts of their own included; shared libraries loaded into the process are global by design and not used.'
    def case(self, ctx):
        rng = ctx.rng
        k = rng.choice([2, 2, 3, 4, 5])
        hs = [gen_hist(rng, '/w/s%d' % i, errors=rng.choice([.1, .35]), dam=.1, ctx=ctx) for i in range(k)]
        faults = pick_faults(rng, hs)
        refs = [alone(ctx, h, (), faults) for h in hs]
        for h, (p, res, outs) in zip(hs, refs):
            if res is None:
                if h.clean:
                    ctx.fail('reference', 'exit %s sig %s err %r: %r' % (p['exit'], p['sig'], p['err'][-300:], h.ops)); return
                ctx.tag('skipped'); return
        ctx.nontrivial = True
        w = ctx.world()
        api_world(ctx, w, hs)
        ls = [h.on(0, i) for i, h in enumerate(hs)]
        burst = rng.choice([1, 1, 2, 4])
        tagged = [[(i, j, l) for j, l in enumerate(x)] for i, x in enumerate(ls)]
        m = merge(rng, tagged, burst)
        idx = launch(w, 'inline', [x[2] for x in m], garbage=rng.randrange(1, 99))
        for f in faults:
            w.rule(f[0], f[1], 1000000, -1, idx, f[2])
        r = w.run()
        p = parent(r, 1)
        d = 'faults %r, order %r' % (faults, [x[2] for x in m])
        if diseased(ctx, r, d):
            return
        res = results(p, len(m))
        if res is None:
            ctx.fail('died', 'exit %s sig %s err %r; %s' % (p['exit'], p['sig'], p['err'][-300:], d)); return
        got = [[None] * len(x) for x in ls]
        for x, y in zip(m, res):
            got[x[0]][x[1]] = y
        for i, h in enumerate(hs):
            if compare(ctx, i, h, got[i], refs[i][1], d):
                return
            for o in h.outs:
                if w.read(o) != refs[i][2][o]:
                    ctx.fail('output-differs', '%s; %s' % (o, d)); return
        ctx.tag('%d states' % k)
        if rng.random() < .01:
            ctx.sample = {'ops': [l[2][:60] for l in m[:12]], 'faults': faults}

class C13(ApiCheck):
    ID = 'C13'
    TITLE = 'Threads may use different compiler states at the same time'
    BUDGET = {'quick': (6000, 110), 'thorough': (100000, 1300)}
    RULE = 'a case is 2-4 threads, each taking its own libtcc states through whole life cycles, preempted by a seeded scheduler at calls and at basic blocks of libtcc; every case is non-trivial; distinct by event-log hash'
    NOTE = 'Each call must yield what it yields when its state is alone in a process; all threads must finish. Threads switch at system calls, lock operations and basic-block boundaries of the instrumented library, sequentially consistent memory; seeded samples of interleavings, not all of them.'
    def case(self, ctx):
        rng = ctx.rng
        k = rng.choice([2, 2, 3, 4])
        hs = [gen_hist(rng, '/w/s%d' % i, errors=rng.choice([.1, .4]), dam=.05, ctx=ctx) for i in range(k)]
        rep = rng.choice([1, 1, 2])
        faults = pick_faults(rng, hs)
        refs = [alone(ctx, h, (), faults, rep) for h in hs]
        for h, (p, res, outs) in zip(hs, refs):
            if res is None:
                if h.clean:
                    ctx.fail('reference', 'exit %s sig %s err %r: %r' % (p['exit'], p['sig'], p['err'][-300:], h.ops)); return
                ctx.tag('skipped'); return
        ctx.nontrivial = True
        w = ctx.world()
        api_world(ctx, w, hs)
        lines, owner = [], []
        for i, h in enumerate(hs):
            x = h.on(i, i) * rep
            lines += x
            owner += [i] * len(x)
        pre = rng.choice([0, 0, 2, 5, 20, 100, 1000, 20000])
        gap, bur = (0, 0) if pre >= 20000 else (rng.choice([3000, 10000, 50000, 200000]), rng.choice([3, 10, 40]))
        w.preempt(rng.choice([50000, 300000, 700000]))
        idx = launch(w, 'threads', lines, garbage=rng.randrange(1, 99), preempt=pre, pregap=gap, preburst=bur, preseed=rng.randrange(1, 1 << 30))
        for f in faults:
            w.rule(f[0], f[1], 1000000, -1, idx, f[2])
        if rng.random() < .2:
            w.rule('sem', 'EINTR', 200000, 20, idx)
        r = w.run()
        p = parent(r, 1)
        d = 'preempt %d/%d/%d, faults %r, ops %r' % (pre, gap, bur, faults, lines)
        if diseased(ctx, r, d):
            return
        res = results(p, len(lines))
        if res is None:
            ctx.fail('died', 'exit %s sig %s err %r; %s' % (p['exit'], p['sig'], p['err'][-300:], d)); return
        for i, h in enumerate(hs):
            got = [y for o, y in zip(owner, res) if o == i]
            if compare(ctx, i, h, got, refs[i][1], d):
                return
            for o in h.outs:
                if w.read(o) != refs[i][2][o]:
                    ctx.fail('output-differs', '%s; %s' % (o, d)); return
        ctx.tag('%d threads, preempt %d' % (k, pre))
        if rng.random() < .01:
            ctx.sample = {'ops': [l[:60] for l in lines[:12]], 'preempt': pre, 'faults': faults}

CHECKS = [C11(), C12(), C13()]
