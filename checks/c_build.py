from builds import *

def damage(ctx, b):
    """One input is made missing, unreadable, wrong or incomplete. Returns (what, certain) or None."""
    rng = ctx.rng
    cand = [f for f in b.files if f not in b.decoys]
    f = rng.choice(cand)
    kind = b.kinds.get(f, 'hdr')
    decoyed = any(os.path.basename(d) == os.path.basename(f) for d in b.decoys)
    how = rng.choice({'src': ['missing', 'unreadable', 'syntax', 'syntax', 'directory', 'bom'], 'hdr': ['missing', 'unreadable', 'syntax', 'directory'], 'obj': ['missing', 'unreadable', 'truncate', 'truncate', 'empty', 'directory', 'junk'],
                      'ar': ['missing', 'unreadable', 'truncate', 'truncate', 'directory', 'junk', 'empty'], 'so': ['missing', 'unreadable', 'short', 'directory']}[kind])
    if how == 'empty' and (b.fallback or f == 'hook.o'):
        how = 'truncate'    # to the linker, as to GNU ld, an empty file is an empty linker script
    d = b.files[f]
    certain = True
    if how == 'missing':
        del b.files[f]
        if decoyed:
            return None     # the inputs now denote another program
    elif how == 'unreadable':
        b.mode = {f: 0}
        if kind in ('so',) and b.lopts:
            certain = False
    elif how == 'syntax':
        bad = rng.choice(['int broken(;\n', '#error stop here\n', '#include "no_such_header.h"\n', 'int ){\n', '"unterminated\n', 'struct nope { struct nope2 x; };\n', 'int dup1(void){return 0;}\nint dup1(void){return 1;}\n'])
        t = d if isinstance(d, str) else d.decode()
        lines = t.split('\n')
        # at file scope: after the includes at the top, or at the very end
        at = rng.choice([0, len(lines)])
        b.files[f] = '\n'.join(lines[:at] + [bad] + lines[at:])
        if kind == 'hdr' and at:
            b.files[f] = bad + t
    elif how == 'directory':
        del b.files[f]
        b.dirs = [f]
        if decoyed:
            return None   # a directory is no header or library: the search may go on
        if kind == 'so' and b.lopts:
            certain = False
    elif how == 'bom':
        b.files[f] = b'\xef\xbb\xbf' + d.encode()
    elif how == 'truncate':
        n = rng.choice([rng.randrange(1, len(d)), len(d) - 1, rng.randrange(1, min(200, len(d)))])
        if kind == 'ar' and n == 8:
            n = 9       # eight bytes are a valid archive without members
        b.files[f] = d[:n]
        certain = False
    elif how == 'short':
        b.files[f] = d[:rng.randrange(0, 64)]   # the dynamic loader itself does not survive longer pieces
        certain = False
    elif how == 'empty':
        b.files[f] = b''
        certain = kind == 'obj'
    elif how == 'junk':
        b.files[f] = bytes(rng.randrange(256) for _ in range(4)) + d[4:]
        certain = False
    if kind == 'ar' and how in ('directory', 'empty', 'junk'):
        certain = True
    return '%s %s %s' % (how, kind, f), certain

class C05:
    ID = 'C05'
    TITLE = 'A program runs only from its complete, error-free inputs'
    BUDGET = {'quick': (9000, 110), 'thorough': (120000, 1300)}
    RULE = 'a case is one run of a generated program spread over sources, headers (with same-named ones later in the search path), objects, archives and shared libraries, with one input damaged (missing, unreadable, truncated, in error) or faults placed at or spread over the operations on inputs; non-trivial when an input is damaged or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB + '; shared libraries given to -l are made by the host compiler', ASSUME
    NOTE = 'Seeded search over input sets, damages and fault placements with the real program; the expected output follows from how the program was generated. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        b = gen_build(ctx)
        mode = rng.choice(['damage', 'damage', 'target', 'target', 'target', 'rules', 'rules', 'clean', 'short'])
        b.mode, b.dirs = {}, []
        dm = None
        if mode == 'damage':
            dm = damage(ctx, b)
            if dm is None:
                mode = 'clean'
                return
        def setup(w):
            preload_assets(ctx, w)
            for f, d in b.files.items():
                w.file('/w/' + f, d, b.mode.get(f, 0o644))
            for d in b.dirs:
                w.dir('/w/' + d)
        argv = run_argv(b)
        w = ctx.world()
        setup(w)
        par = {'garbage': rng.randrange(1, 99)}
        idx = w.launch(argv, **par)
        hit = None
        if mode == 'target':
            key = hashlib.sha256(repr((argv, sorted(b.files.items()))).encode()).hexdigest()
            ops = oplist(ctx, key, setup, lambda v: v.launch(argv))
            own = rng.random() < .7
            hit = target_fault(ctx, w, idx, ops, pred=lambda o: o[2].startswith('/w/') if own else not o[2].startswith('std:'))
        elif mode == 'rules':
            add_rules(ctx, w, idx, IN_MIX, prefix='/w/' if rng.random() < .6 else '!std:', scale=4)
        elif mode == 'short':
            w.rule('read', 'short', rng.choice([50000, 300000, 900000]), -1, idx, '*')
            if rng.random() < .5:
                w.rule('read', 'EINTR', 100000, 3, idx, '/w/')
        r = w.run()
        ctx.tag(mode + (' ' + dm[0].rsplit(' ', 1)[0] if dm else ''))
        what = '%s of %r' % (dm[0] if dm else mode, argv[2:12])
        if dm:
            ctx.nontrivial = True
        if diseased(ctx, r, what):
            return
        got = check_run(ctx, w, r, 1, b.prog, what, faulty=mode != 'clean')
        p = parent(r, 1)
        if got == 'exact' and dm and dm[1]:
            ctx.fail('damaged-input-used', '%s: the program ran although an input is damaged' % what)
        if got == 'failed' and not p['err'].strip():
            ctx.fail('silent', '%s: exit %s without any message' % (what, p['exit']))
        if got:
            ctx.tag('-> ' + got)
        if rng.random() < .01:
            ctx.sample = {'mode': mode, 'argv': argv[:14], 'outcome': got, 'damage': dm and dm[0]}

def exe_ref(ctx, files, argv, out, dirs=()):
    ck = ('exe', hashlib.sha256(repr((sorted(files.items()), argv)).encode()).digest())
    if ck not in ctx.cache:
        asset_tree(ctx)
        w = ctx.world(faulty=False)
        preload_assets(ctx, w)
        install(w, files)
        w.dir('/w/out')
        w.launch(argv)
        r = w.run()
        t = w.tree('/w').get(out if out[0] == '/' else '/w/' + out)
        trim(ctx)
        ctx.cache[ck] = (parent(r, 1), t and (t[1], bytes.fromhex(t[2])))
    return ctx.cache[ck]

OUT_MIX = IN_MIX + [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EACCES'), ('creat', 'ENOSPC'), ('creat', 'EMFILE'), ('close', 'EIO'), ('close', 'ENOSPC'), ('chmod', 'EPERM'), ('unlink', 'EACCES'), ('lseek', 'EIO'), ('rename', 'EIO')]

class C06:
    ID = 'C06'
    TITLE = 'Exit status 0 of a compilation means a complete, correct output file'
    BUDGET = {'quick': (6000, 120), 'thorough': (90000, 1300)}
    RULE = 'a case is one cjit -c or cjit -o over generated inputs, with or without an older output file, with a damaged input, a fault placed at an operation on inputs or output, fault rules or a full disk; non-trivial when an input is damaged or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB + '; system startup files and libc for linking are the host\'s', ASSUME
    NOTE = 'Seeded search over inputs, damages, fault placements and disk sizes; the oracle is the output of a fault-free run of the same tree plus the exit status of generated defects. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        what = rng.choice(['c', 'c', 'c-o', 'exe', 'exe', 'exe'])
        b = gen_build(ctx, libs=what[0] != 'c', objs=what[0] != 'c', nsrc=1 if what[0] == 'c' else None)
        b.mode, b.dirs = {}, []
        mode = rng.choice(['damage', 'damage', 'target', 'target', 'target', 'target', 'rules', 'quota', 'clean', 'short'])
        if what[0] == 'c':
            src = b.inputs[0]
            if rng.random() < .3:
                new = rng.choice(['sub dir/file one.c', 'x.y.c', './m.c', 'deep/er/q.c', '/w/abs.c'])
                n2 = new[3:] if new.startswith('/w/') else new
                b.files[os.path.normpath(n2)] = b.files.pop(src)
                b.kinds[os.path.normpath(n2)] = 'src'
                src = new
                if '"sub/defs.h"' in str(b.files) or '"defs.h"' in str(b.files):
                    b.opts = ['-I', '.'] + b.opts
            out = os.path.splitext(os.path.basename(src))[0] + '.o'
            argv = ['cjit', '-q'] + b.opts + ['-c', src]
            if what == 'c-o':
                out = rng.choice(['out.o', 'out/deep.o', './x.obj', '/w/abs.o', 'noext', 'exact.o'])
                argv = rng.choice([argv + ['-o', out], ['cjit'] + b.opts + ['-o', out, '-c', src]])
        else:
            out = rng.choice(['prog', 'prog', 'a.out', 'out/prog', '/w/prog', 'x.exe'])
            argv = ['cjit', '-q'] + b.opts + b.lopts + ['-o', out] + b.inputs
        ref, good = exe_ref(ctx, b.files, argv, os.path.normpath(out))
        if ref['exit'] != 0 or not good:
            ctx.fail('reference', 'fault-free %r fails: exit %s %r' % (argv, ref['exit'], ref['err'][-300:])); return
        path = os.path.normpath(os.path.join('/w', out))
        if what == 'exe' and not good[0] & 0o111:
            ctx.fail('not-executable', '%r: mode %o' % (argv, good[0])); return
        old = None
        if rng.random() < .5:
            old = rng.choice([b'old output\n', b'O' * (len(good[1]) + 1000), good[1][:-1] + b'?', b''])
        dm = damage(ctx, b) if mode == 'damage' else None
        if mode == 'damage' and dm is None:
            return
        omode = rng.choice([0o755, 0o755, 0o644, 0o600, 0o444] if what == 'exe' else [0o644, 0o644, 0o755, 0o444])
        odir = old is not None and mode == 'clean' and rng.random() < .2     # a directory in the way
        olink = old is not None and not odir and rng.random() < .15       # the name is a link to a file elsewhere
        def setup(w):
            preload_assets(ctx, w)
            for f, d in b.files.items():
                w.file('/w/' + f, d, b.mode.get(f, 0o644))
            for d in b.dirs:
                w.dir('/w/' + d)
            w.dir('/w/out')
            if odir:
                w.dir(path)
            elif olink:
                w.file('/w/real/old', old, omode)
                w.symlink(path, '/w/real/old')
            elif old is not None:
                w.file(path, old, omode)
        w = ctx.world()
        setup(w)
        inputs_only = mode in ('damage',)
        idx = w.launch(argv, garbage=rng.randrange(1, 99))
        if mode == 'target':
            key = hashlib.sha256(repr((argv, sorted(b.files.items()), old, omode, olink)).encode()).hexdigest()
            ops = oplist(ctx, key, setup, lambda v: v.launch(argv))
            which = rng.choice(['out', 'out', 'in', 'any'])
            hit = target_fault(ctx, w, idx, ops, pred=(lambda o: o[2] == path) if which == 'out' else (lambda o: o[2] != path and o[2].startswith('/w/')) if which == 'in' else (lambda o: not o[2].startswith('std:')))
            inputs_only = which == 'in'
        elif mode == 'rules':
            add_rules(ctx, w, idx, OUT_MIX, prefix=rng.choice(['/w/', path, '!std:']), scale=4)
        elif mode == 'quota':
            w.set('quota', rng.choice([0, 1, rng.randrange(0, len(good[1]) + 1), len(good[1]) - 1, len(good[1])]))
        elif mode == 'short':
            w.rule(rng.choice(['read', 'write']), 'short', rng.choice([50000, 300000, 900000]), -1, idx)
        r = w.run()
        ctx.tag(what + ' ' + mode)
        d0 = '%s: %r' % (dm[0] if dm else mode, argv[1:12])
        if dm:
            ctx.nontrivial = True
        if diseased(ctx, r, d0):
            return
        p = parent(r, 1)
        tr = w.tree('/w')
        t = tr.get(path)
        if t and t[0] == 'l':
            t = tr.get(t[2])
        have = (t[1], bytes.fromhex(t[2])) if t and t[0] == 'f' else None
        d = '%s: exit %s, output %s bytes (good one %d), stderr %r' % (d0, p['exit'], have and len(have[1]), len(good[1]), p['err'][-250:])
        if p['exit'] == 0:
            if dm and dm[1]:
                ctx.fail('success-on-damaged-input', d); return
            if have is None or have[1] != good[1]:
                ctx.fail('success-without-output', d); return
            if what == 'exe' and not have[0] & 0o111:
                ctx.fail('not-executable', d); return
        else:
            if mode in ('clean',) and not odir:
                ctx.fail('failed', d); return
            if not p['err'].strip():
                ctx.fail('silent', d); return
            if inputs_only and old is not None and (have is None or have[1] != old):
                ctx.fail('old-output-lost', d); return
        if [q for q in r['procs'] if q['par'] >= 0]:
            ctx.fail('ran', '%s: compiling started a program' % d); return
        ctx.tag('-> exit 0' if p['exit'] == 0 else '-> nonzero')
        if rng.random() < .01:
            ctx.sample = {'mode': mode, 'argv': argv[:14], 'exit': p['exit'], 'damage': dm and dm[0]}

CHECKS = [C05(), C06()]
