from builds import *

class C17:
    ID = 'C17'
    TITLE = 'Source read from standard input means the same as from a file'
    BUDGET = {'quick': (6000, 100), 'thorough': (100000, 1300)}
    RULE = 'a case gives a generated source (sizes around buffer limits, very long lines, no final newline, CRLF, compile errors, empty) on standard input, alone or as "-" among other inputs, arriving whole or in seeded pieces, with interrupted or failing reads or failing allocations; non-trivial when it arrived in pieces or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Differential: the same text in a file, on a healthy machine, gives the expected exit status and output. Seeded search, samples only.'
    def text(self, rng, t):
        """A text of the same meaning in another shape."""
        tr = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(['nonl', 'crlf', 'longcomment', 'longstring', 'longinit', 'pad', 'pad', 'lastcomment', 'tail', 'cont', 'blank', 'onelinefn', 'bs'])
            tr.append(k)
            if k == 'nonl':
                t = t.rstrip('\n')
            elif k == 'crlf':
                t = t.replace('\r\n', '\n').replace('\n', '\r\n')
            elif k == 'longcomment':
                t = rng.choice(['/*%s*/\n', '//%s\n']) % ('c' * rng.choice([4090, 8200, 70000, 300000])) + t
            elif k == 'longstring':
                t = 'const char long_%d[] = "%s";\n' % (len(tr), 's' * rng.choice([4000, 8190, 8192, 66000])) + t
            elif k == 'longinit':
                t = 'int arr_%d[] = {%s};\n' % (len(tr), ','.join(str(i) for i in range(rng.choice([1500, 9000])))) + t
            elif k == 'pad':
                # the text ends exactly at or next to a buffer limit
                want = rng.choice([4096, 8192, 16384, 32768, 65536]) + rng.choice([-2, -1, 0, 1, 2])
                n = want - len(t.encode())
                if n > 4:
                    t = rng.choice(['/*' + 'p' * (n - 4) + '*/' + t, t + '/*' + 'p' * (n - 4) + '*/', t + ' ' * n, t + '\n' * n])
            elif k == 'lastcomment':
                t += '// the end'
            elif k == 'tail':
                t += rng.choice(['\n#if 0\n#endif', '\n#define LAST 1', '\t \t', '\n;\n', '\f\v\n'])
            elif k == 'cont':
                t = '#define C%d(x) \\\n  ((x) + \\\n   1)\n' % len(tr) + t
            elif k == 'blank':
                t = '\n' * rng.choice([1, 500, 9000]) + t
            elif k == 'onelinefn':
                t += '\n' + ''.join('int fn%d_%d(void){return %d;}' % (len(tr), i, i) for i in range(rng.choice([10, 400])))
            elif k == 'bs':
                t += '\nint bs%d = 1 \\\n + 1;\n' % len(tr)
        return t, tr
    def case(self, ctx):
        rng = ctx.rng
        wl = random.Random('stdin/%d' % rng.randrange(150 if ctx.tier == 'quick' else 3000))
        saved, ctx.rng = ctx.rng, wl
        b = gen_build(ctx, libs=False, nsrc=wl.choice([1, 1, 1, 2, 3]), dirs=False)
        ctx.rng = saved
        # which of the sources comes on standard input
        srcs = [f for f in b.inputs if b.kinds.get(f) == 'src']
        main = srcs[0] if rng.random() < .7 else rng.choice(srcs)
        t = b.files[main]
        t = t if isinstance(t, str) else t.decode()
        err = '' if rng.random() < .7 else rng.choice(['syntax', 'empty', 'cut', 'unclosed', 'bom', 'undef'])
        t, tr = self.text(rng, t)
        if err == 'syntax':
            t = rng.choice([t + '\nint broken(;\n', 'int ){\n' + t, t + '\n#error no\n'])
        elif err == 'empty':
            t = rng.choice(['', '\n', ' ', '/* nothing */'])
        elif err == 'cut':
            t = t[:rng.randrange(len(t))]
        elif err == 'unclosed':
            t += rng.choice(['\n/* never closed', '\nchar *s = "never closed', '\n#if 1\nint y;', '\nint f9(void) {'])
        elif err == 'bom':
            t = '\ufeff' + t
        elif err == 'undef':
            t += '\nint missing_fn(void); int call_missing(void) { return missing_fn(); }\n'
        raw = t.encode()
        other = [f for f in b.inputs if f != main]
        files = dict(b.files)
        files.pop(main)
        ext = os.path.splitext(main)[1]
        entry = []
        def argv(x):
            a = ['cjit', '-q'] + b.opts + entry + [x if f == main else f for f in b.inputs if x is not None or f != main]
            return a + (['--'] + b.prog.args if b.prog.args else [])
        # the same text in a file, on a healthy machine
        ck = ('stdin', hashlib.sha256(repr((sorted(files.items()), raw, argv(main))).encode()).digest())
        if ck not in ctx.cache:
            fw = dict(files)
            fw[main] = raw
            p, o, w0 = ref_run(ctx, fw, argv(main), [])
            if len([q for q in ctx.cache if q[0] == 'stdin']) > 500:
                for q in [q for q in ctx.cache if q[0] == 'stdin'][:200]:
                    del ctx.cache[q]
            ctx.cache[ck] = (p['exit'], p['sig'], p['out'], len(children(w0.last, 1)), p['err'])
        rexit, rsig, rout, rran, rerr = ctx.cache[ck]
        if not err and 'crlf' not in tr and not (rexit == b.prog.exit and rout == b.prog.out):
            ctx.fail('reference', '%r %r as a file: exit %s out %r err %r' % (argv(main), tr, rexit, rout[:100], rerr[-300:])); return
        implicit = len(b.inputs) == 1 and not b.prog.args and rng.random() < .6
        a = argv(None if implicit else '-')
        mode = rng.choice(['whole', 'pieces', 'pieces', 'bytes', 'eintr', 'eintr', 'eio', 'eio', 'alloc', 'rules'])
        w = ctx.world()
        preload_assets(ctx, w)
        install(w, files)
        par = {'garbage': rng.randrange(1, 99)}
        if mode == 'alloc':
            par[rng.choice(['allocfail', 'allocfailafter'])] = rng.randrange(1, 60)
        if rng.random() < .2:
            par['guard'] = 1
        # how it comes: everything waiting in a pipe, from a writer with pauses, or a redirected file
        how = rng.choice(['pipe', 'pipe', 'feed', 'feed', 'feed', 'file'])
        stdin = raw
        if how == 'feed':
            k = rng.choice([1, 2, 2, 3, 5, 12])
            cuts = sorted(rng.choice([rng.randrange(len(raw) + 1), min(len(raw), rng.choice([1, 4095, 4096, 4097, 8191, 8192, 8193, 65536]))]) for _ in range(k - 1))
            if rng.random() < .3:      # at line ends, as a person types
                nl = [i + 1 for i, c in enumerate(raw) if c == 10]
                cuts = sorted(rng.choice(nl) for _ in range(k - 1)) if nl else cuts
            pieces = [raw[x:y] for x, y in zip([0] + cuts, cuts + [len(raw)])]
            stdin = 'feed:' + ','.join('%s@%d' % (x.hex(), rng.choice([0, 0, 50, 3000, 250000, 1500000, 40000000, 400000000])) for x in pieces)
            if rng.random() < .5:      # the end comes later than the last bytes
                stdin += ',@%d' % rng.choice([10, 100000, 5000000, 90000000])
        elif how == 'file':
            off = rng.choice([0, 0, 5, 4096])
            w.file('/w/in.txt', b'x' * off + raw)
            stdin = 'file:/w/in.txt@%d' % off
        idx = w.launch(a, stdin=stdin, **par)
        if mode == 'pieces':
            w.rule('read', 'short', rng.choice([300000, 900000, 1000000]), -1, idx, 'std:in', rng.choice([0, 0, 1, 7, 100, 4095, 4096, 4097]))
        elif mode == 'bytes':
            if len(raw) > 20000:
                w.rule('read', 'short', 1000000, -1, idx, 'std:in', 61)
            else:
                w.rule('read', 'short', 1000000, -1, idx, 'std:in', 1)
        elif mode == 'eintr':
            w.rule('read', 'EINTR', rng.choice([100000, 400000]), -1, idx, 'std:in')
            w.rule('read', 'short', 500000, -1, idx, 'std:in')
        elif mode == 'eio':
            w.rule('read', 'EIO', rng.choice([60000, 300000, 1000000]), 1, idx, 'std:in')
            w.rule('read', 'short', rng.choice([300000, 900000]), -1, idx, 'std:in')
        elif mode == 'rules':
            add_rules(ctx, w, idx, IN_MIX, prefix='!std:', scale=4)
        r = w.run()
        ctx.tag('by ' + how)
        ctx.tag('%s%s' % (mode, ' ' + err if err else ''))
        for x in tr:
            ctx.tag('text ' + x)
        p = parent(r, 1)
        ch = children(r, 1)
        d = '%s %s %r, %d bytes, %r: exit %s sig %s, out %r, stderr %r; as a file: exit %s sig %s out %r' % (mode, err, tr, len(raw), a[1:12], p['exit'], p['sig'], p['out'][:100], p['err'][-300:], rexit, rsig, rout[:100])
        if diseased(ctx, r, d):
            return
        hard = [f for f in r['faults'] if f[2].split(':')[1] not in ('short', 'EINTR')]
        failed = [f for f in hard if f[2].endswith(':EIO') and f[4].startswith('READ std:in')]
        same = p['exit'] == rexit and p['sig'] == rsig and p['out'] == rout and len(ch) == rran
        if failed:
            if ch or p['exit'] == 0:
                ctx.fail('ran-after-failed-read', d); return
            if not p['err'].strip():
                ctx.fail('silent', d); return
            ctx.tag('-> failed'); return
        eintr_elsewhere = any(f[2].endswith(':EINTR') and not f[4].startswith('READ std:in') for f in r['faults'])
        if hard or mode == 'alloc' or eintr_elsewhere:
            if same:
                ctx.tag('-> same'); return
            if ch:
                ctx.fail('wrong-program', d); return
            if p['exit'] == 0:
                ctx.fail('false-success', d); return
            ctx.tag('-> failed'); return
        if rran == 0 and rexit != 0:      # an error as a file is an error here
            if ch or p['exit'] == 0:
                ctx.fail('ran-in-error', d)
            elif not p['err'].strip():
                ctx.fail('silent', d)
            ctx.tag('-> error as in a file'); return
        if not same:
            ctx.fail('differs', d); return
        ctx.tag('-> same')
        if rng.random() < .01:
            ctx.sample = {'mode': mode, 'text': tr, 'bytes': len(raw), 'argv': a[:12], 'exit': p['exit']}

CHECKS = [C17()]
