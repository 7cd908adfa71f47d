from builds import *

LMIX = [('read', 'EIO'), ('read', 'EINTR'), ('open', 'EIO'), ('open', 'EACCES'), ('open', 'EMFILE'), ('stat', 'EIO'), ('stat', 'EACCES'), ('lstat', 'EIO'), ('readlink', 'EIO'), ('readdir', 'EIO'), ('lseek', 'EIO'), ('dlopen', 'EIO'), ('getcwd', 'ENOENT'), ('close', 'EIO'), ('mmap', 'ENOMEM')]

class C15:
    ID = 'C15'
    TITLE = 'Libraries are found where the search order says'
    BUDGET = {'quick': (9000, 110), 'thorough': (150000, 1300)}
    RULE = 'a case links a program against 1-3 libraries that lie in several directories of the search order as files, links, link chains, linker scripts or things that are no libraries, with the system listing directories in a seeded order, entry types known or not, and optionally faults at or spread over the operations of the search; non-trivial when a decoy lies in the search order or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB + '; the shared libraries are made by the host compiler and loaded by the host loader', ASSUME
    NOTE = 'Seeded search over search paths, their contents, listing orders and faults against a small model of the search order (-L in order, current directory, ld.so.conf, ld.so.conf.d sorted by name). Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        nlib = rng.choice([1, 1, 2, 3])
        names = rng.sample(['ext', 'x', 'foo-bar', 'z9', 'm_n', 'a.b'], nlib)
        # ------------------------------------------------ the search order
        spell = {'/w/l0': ['l0', './l0', '/w/l0', '../w/l0', 'l0/', 'l0/../l0'], '/opt/l1': ['/opt/l1', '/opt//l1', '../opt/l1', '/opt/l1/'], '/w/deep/l2': ['deep/l2', './deep/l2', 'deep/./l2', '/w/deep/l2'],
                 '/w': ['.', '/w', './'], '/w/none': ['none', '/w/none']}
        ldirs = rng.sample(sorted(spell), rng.choice([0, 1, 2, 3]))
        confs, files = [], {}
        cl = []
        for i in range(rng.choice([0, 0, 1, 2])):
            cl.append('/srv/conf%d' % i)
        conf0 = None
        if cl or rng.random() < .4:
            noise = ['# comment\n', 'include /etc/ld.so.conf.d/*.conf\n', '\n', 'relative/dir\n', ' /srv/indented\n', '/srv/missing\n']
            t = ''
            for c in cl:
                t += rng.choice(noise) if rng.random() < .5 else ''
                t += c + '\n'
            if rng.random() < .3:
                t += rng.choice(noise)
            if rng.random() < .2:
                t = t[:-1]
            conf0 = t
            files['/etc/ld.so.conf'] = t
        confdirs = []
        nd = rng.choice([0, 0, 1, 2, 3])
        ents = rng.sample(['a.conf', 'b.conf', '00-first.conf', 'x86_64.conf', 'zz.conf', 'B.conf', 'libc.conf', 'noext'], nd)
        for e in ents:
            ds = ['/srv/d-%s-%d' % (e, j) for j in range(rng.choice([1, 1, 2]))]
            confdirs.append((e, ds))
            files['/etc/ld.so.conf.d/' + e] = ('# x\n' if rng.random() < .3 else '') + ''.join(d + '\n' for d in ds)
        order = list(ldirs)
        order.append('/w')
        order += cl
        for e, ds in sorted(confdirs, key=lambda x: x[0].encode()):
            order += ds
        # ------------------------------------------------ their contents
        links, dirs, modes = {}, set(), {}
        expect, decoys = {}, 0
        for li, n in enumerate(names):
            fn = 'fn%d' % li
            def val(d):
                return (li + 1) * 100000 + 1 + order.index(d)
            state, nextok = None, None
            seen = []
            for d in sorted(set(order)):
                if d == '/w/none':
                    continue
                dirs.add(d)
            for d in dict.fromkeys(order):
                if d == '/w/none':
                    continue
                kind = rng.choice(['absent'] * 7 + ['so'] * 6 + ['rel', 'relsub', 'abs', 'chain', 'dangling', 'dir', 'script', 'scriptrel', 'scriptl', 'unread', 'junk', 'text', 'empty', 'ar', 'loop', 'arscript'])
                p = '%s/lib%s.so' % (d, n)
                v = val(d)
                so = so_lib(ctx.k, fn, v, name='l%d' % li)
                res = v
                if kind == 'absent':
                    continue
                elif kind == 'so':
                    files[p] = so
                elif kind == 'rel':
                    files['%s/lib%s.so.1.2' % (d, n)] = so; links[p] = 'lib%s.so.1.2' % n
                elif kind == 'relsub':
                    files['%s/real/lib%s.so.5' % (d, n)] = so; links[p] = rng.choice(['real/lib%s.so.5', './real/lib%s.so.5', '../%s/real/lib%%s.so.5' % os.path.basename(d)]) % n
                elif kind == 'abs':
                    files['/store/%d/lib%s.so' % (order.index(d), n)] = so; links[p] = '/store/%d/lib%s.so' % (order.index(d), n)
                elif kind == 'chain':
                    files['%s/lib%s.so.1.2.3' % (d, n)] = so; links[p] = 'lib%s.so.1' % n
                    links['%s/lib%s.so.1' % (d, n)] = rng.choice(['lib%s.so.1.2.3' % n, '%s/lib%s.so.1.2.3' % (d, n)])
                elif kind == 'dangling':
                    links[p] = rng.choice(['nowhere.so', '/nowhere/x.so']); res = 'none'
                elif kind == 'loop':
                    links[p] = 'lib%s.so' % n; res = 'bad'
                elif kind == 'dir':
                    dirs.add(p); res = 'skip'
                elif kind in ('script', 'scriptrel', 'scriptl', 'arscript'):
                    q = '/store/s%d/libreal-%s.so' % (order.index(d), n)
                    files[q] = so
                    ref = q
                    if kind == 'scriptrel':
                        # found by its own name along the search order; unique here
                        q2 = '%s/libreal-%s-%d.so' % (rng.choice([o for o in order if o != '/w/none']), n, order.index(d))
                        files[q2] = so; ref = os.path.basename(q2)
                    elif kind == 'scriptl':
                        nm = 'real-%s-%d' % (n, order.index(d))
                        files['%s/lib%s.so' % (rng.choice([o for o in order if o != '/w/none']), nm)] = so; ref = '-l' + nm
                    elif kind == 'arscript':
                        ref = '/store/s%d/libar-%s.a' % (order.index(d), n)
                        files[ref] = ref_ar(ctx, {'m.o': ref_obj(ctx, {'m.c': 'int %s(void) { return %d; }\n' % (fn, v)}, 'm.c', [])})
                    files[p] = rng.choice(['/* GNU ld script */\n', '', '/* GNU ld script\n   Use the shared library. */\nOUTPUT_FORMAT(elf64-x86-64)\n', '/* see /usr/share/doc, a/b * c **\n GROUP ( nothing/here.so ) */\n', '\t/***/ /* / * */\n\n']) + rng.choice(['GROUP ( %s )\n', 'INPUT(%s)\n', 'GROUP ( AS_NEEDED ( %s ) )\n', 'INPUT ( %s )'] if ref[0] != '-' else ['INPUT(%s)\n', 'GROUP ( %s )\n']) % ref
                elif kind == 'unread':
                    files[p] = so; modes[p] = 0; res = 'bad'
                elif kind == 'junk':
                    files[p] = bytes([0x89, 0xff, 0xfe, 0, 1, 2, 3]) * 30; res = 'bad'
                elif kind == 'text':
                    files[p] = rng.choice(['this is not a library\n', 'GROUP ( unclosed', 'INPUT no\n', '{}\n']); res = 'bad'
                elif kind == 'empty':
                    files[p] = b''; res = 'bad'
                elif kind == 'ar':
                    files['%s/lib%s.a' % (d, n)] = b'!<arch>\n'; res = 'none'
                if res == 'none':
                    continue
                seen.append((d, kind, res))
            # a first match decides; what is no library may be skipped or reported
            ok = set()
            for d, kind, res in seen:
                if res in ('bad', 'skip'):
                    if res == 'bad':
                        ok.add('fail')
                    continue
                ok.add(res)
                break
            else:
                ok.add('fail')
            expect[n] = (fn, ok, seen)
            if len(seen) > 1 or 'fail' in ok:
                decoys += 1
        # ------------------------------------------------ the program
        body = '#include <stdio.h>\n' + ''.join('int fn%d(void);\n' % i for i in range(nlib)) + 'int main(void) {\n' + ''.join('printf("%%d\\n", fn%d());\n' % i for i in range(nlib)) + 'return 9; }\n'
        files['/w/main.c'] = body
        mode = rng.choice(['clean', 'clean', 'clean', 'target', 'rules'])
        exe = rng.random() < .3
        opts = []
        for d in ldirs:
            s = rng.choice(spell[d])
            opts.append(['-L', s] if rng.random() < .5 else ['-L' + s])
        for n in names:
            opts.append(rng.choice([['-l' + n], ['-l', n]]))
        fb = rng.random() < .4      # a last library with other definitions of the same functions
        if fb:
            files['/w/lfb/libfall.so'] = so_many(ctx.k, ['fn0', 'fn1', 'fn2'])
            dirs.add('/w/lfb')
            opts += [['-L', '/w/lfb'], ['-lfall']]
        if rng.random() < .4:      # -L relative order counts, position does not
            ls = [o for o in opts if o[0].startswith('-L')]
            mixed = [o for o in opts if not o[0].startswith('-L')]
            out = []
            while ls or mixed:
                src = ls if ls and (not mixed or rng.random() < .5) else mixed
                out.append(src.pop(0))
            opts = out
        argv = ['cjit'] + rng.choice([['-q'], ['-q'], [], ['-v'], ['--verb']])
        rest = [x for o in opts for x in o]
        argv += rest + ['main.c'] if rng.random() < .7 else ['main.c'] + rest
        if exe:
            argv += ['-o', 'prog']
        def setup(v):
            preload_assets(ctx, v)
            for d in sorted(dirs):
                v.dir(d)
            l = sorted(files)
            random.Random(ctx.seed).shuffle(l)    # order of creation
            for f in l:
                v.file(f, files[f], modes.get(f, 0o644))
            for f in sorted(links):
                v.symlink(f, links[f])
            v.symlink('/etc/ld.so.conf.d/ignored.conf', '/etc/none') if confdirs else None
        setup(w)
        w.set('dirseed', rng.randrange(1, 1 << 30))
        if rng.random() < .4:
            w.set('dtunknown', 1)
        idx = w.launch(argv, garbage=rng.randrange(1, 99))
        if mode == 'target':
            key = hashlib.sha256(repr((argv, sorted(files.items()), links)).encode()).hexdigest()
            pred = lambda o: not o[2].startswith(('/tmp', 'std:')) and 'main.c' not in o[2]
            target_fault(ctx, w, idx, oplist(ctx, key, setup, lambda v: v.launch(argv)), pred=pred)
        elif mode == 'rules':
            add_rules(ctx, w, idx, LMIX, prefix='!std:', scale=4)
        r = w.run()
        faulty = mode != 'clean'
        if decoys:
            ctx.nontrivial = True
        ctx.tag('%s%s' % (mode, ' -o' if exe else ''))
        p = parent(r, 1)
        d = '%s %r, search order %r, found %r: exit %s, out %r, stderr %r' % (mode, argv[1:14], order, [(n, expect[n][2]) for n in names], p['exit'], p['out'][:100], p['err'][-350:])
        if diseased(ctx, r, d):
            return
        if b'ld.so.conf' in p['err'] and b'Permission denied' in p['err'] and any('EACCES' in f[2] and '/etc/ld.so.conf' in f[4] for f in r['faults']):
            ctx.tag('-> configuration denied'); return # allowed to be unreadable, reported and passed over
        ok = [expect[n][1] for n in names]
        if exe:
            b = w.read('/w/prog')
            if p['exit'] == 0:
                if b is None:
                    ctx.fail('no-output', d); return
                need = elf_needed(b)
                for n in names:
                    vals = [v for v in expect[n][1] if v != 'fail']
                    got = [x for x in need if x.startswith('soname%d' % (names.index(n) + 1))]
                    ars = [k for dd, k, v in expect[n][2] if v in vals and k == 'arscript']
                    if len(got) > 1 or (got and got[0] not in [soname(v) for v in vals]) or (not got and not ars and not (fb and 'fail' in expect[n][1])):
                        ctx.fail('wrong-library', '%s; needs %r' % (d, need)); return
                ctx.tag('-> linked')
            else:
                if not faulty and not any('fail' in o for o in ok):
                    ctx.fail('failed', d); return
                ctx.tag('-> failed')
        else:
            ch = children(r, 1)
            if ch and ch[0]['exit'] == 9:
                try:
                    vals = [int(x) for x in p['out'].split()]
                except ValueError:
                    vals = []
                if len(vals) != nlib or any(v not in o and not (fb and v == 77770 + i and 'fail' in o) for i, (v, o) in enumerate(zip(vals, ok))):
                    ctx.fail('wrong-library', d); return
                if p['exit'] != 9 and not (p['exit'] and any(f[4].startswith('WAITPID') for f in r['faults'])):
                    ctx.fail('wrong-status', d); return
                ctx.tag('-> ran')
            elif ch:
                ctx.fail('program-died', d); return
            else:
                if p['exit'] == 0:
                    ctx.fail('false-success', d); return
                if not faulty and not any('fail' in o for o in ok):
                    ctx.fail('failed', d); return
                if not p['err'].strip():
                    ctx.fail('silent', d); return
                ctx.tag('-> failed')
        if rng.random() < .005:
            ctx.sample = {'mode': mode, 'argv': argv, 'order': order, 'candidates': [(n, [(x, k) for x, k, _ in expect[n][2]]) for n in names], 'exit': p['exit']}

CHECKS = [C15()]
