"""One program taken from its sources to its execution by different routes."""
import resource, shutil, tempfile
from builds import *
from frags import ATT

NOBODY = 65534
def native(files, argv, exe):
    """Runs a produced executable natively: unprivileged, in a scratch directory of its own."""
    d = tempfile.mkdtemp(prefix='route-')
    try:
        os.chmod(d, 0o755)
        for f, b in files.items():
            q = os.path.join(d, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            fd = os.open(q, os.O_CREAT | os.O_WRONLY, 0o755)
            with os.fdopen(fd, 'wb') as h:
                h.write(b)
            os.chmod(q, 0o755)
        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (10, 10))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if os.getuid() == 0:
                os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        for _ in range(20):
            try:
                r = subprocess.run([os.path.join(d, exe)] + argv, cwd=d, env={'LD_LIBRARY_PATH': d, 'PATH': '/bin'}, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, preexec_fn=pre)
                return r.returncode, r.stdout, r.stderr
            except OSError as e:
                if e.errno != 26:   # a descriptor inherited by a sibling's fork
                    return 'not started: %s' % e, b'', b''
        return 'busy', b'', b''
    except subprocess.TimeoutExpired:
        return 'no end', b'', b''
    finally:
        shutil.rmtree(d, ignore_errors=True)

HOST = [['gcc', '-O0'], ['gcc', '-O2'], ['gcc', '-O1', '-fPIC'], ['gcc', '-O2', '-fno-pie'], ['gcc', '-O0', '-fno-pie', '-g'], ['gcc', '-Os', '-ffunction-sections', '-fdata-sections'], ['clang', '-O2', '-fPIC'], ['clang', '-O0'], ['clang', '-O2', '-fno-pie'],
        ['gcc', '-O3', '-mavx2'], ['gcc', '-O2', '-mcmodel=large'], ['gcc', '-g3', '-gz'], ['gcc', '-O2', '-fno-plt', '-fPIC'], ['gcc', '-O1', '-fstack-protector-all'], ['gcc', '-O2', '-fvisibility=hidden', '-fPIC'], ['gcc', '-O2', '-fno-semantic-interposition', '-fPIC', '-g'], ['clang', '-O3', '-fPIC', '-ffunction-sections'], ['gcc', '-Og', '-fno-common'], ['gcc', '-O2', '-fmerge-all-constants', '-fcf-protection=full']]
ODD = {
    'tls': 'static __thread int od%(i)d = %(k)d; static __thread char oz%(i)d[40]; ',
    'tlsg': '__thread int oe%(i)d[3] = { 1, %(k)d }; __thread long og%(i)d; ',
    'ifunc': 'static int or%(i)d(void) { return %(k)d; } static void *os%(i)d(void) { return or%(i)d; } __attribute__((ifunc("os%(i)d"))) int oi%(i)d(void); ',
    'prio': 'static int op%(i)d; __attribute__((constructor(200))) static void oc%(i)d(void) { op%(i)d = %(k)d; } '}
ODDUSE = {'tls': 'od%(i)d++ + oz%(i)d[7] - %(k)d', 'tlsg': 'oe%(i)d[1] + (int)(og%(i)d++) - %(k)d', 'ifunc': 'oi%(i)d() - %(k)d', 'prio': 'op%(i)d - %(k)d'}
HOSTF = ['-w', '-fcommon', '-std=gnu11', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-fno-builtin']
def host(ctx, files, cmd, outs):
    """Runs the host's compiler over files; returns the outputs."""
    ck = ('ops', 'host', hashlib.sha256(repr((sorted(files.items()), cmd)).encode()).digest())
    if ck not in ctx.cache:
        d = tempfile.mkdtemp(prefix='host-')
        try:
            for f, b in files.items():
                q = os.path.join(d, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, 'wb').write(b if isinstance(b, bytes) else b.encode())
            r = subprocess.run([a.replace('/w/', d + '/') if a.startswith('-I') else d if a == '/w' else d + a[2:] if a.startswith('/w/') else a for a in cmd], cwd=d, capture_output=True, timeout=120)
            v = r.returncode, r.stderr, {o: open(os.path.join(d, o), 'rb').read() if os.path.exists(os.path.join(d, o)) else None for o in outs}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        trim(ctx)
        ctx.cache[ck] = v
    return ctx.cache[ck]

CFL = ['', '', '', '-g', '-b', '-bt', '-pthread', '-std=c99', '-rdynamic', '-g -std=c11', '-Wall', '-fno-common']
MIX = IN_MIX + [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EACCES'), ('close', 'EIO'), ('lseek', 'EIO'), ('any', 'kill'), ('any', 'killafter')]

class C19:
    ID = 'C19'
    TITLE = 'A program means the same by every route from its sources to its execution'
    BUDGET = {'quick': (6000, 120), 'thorough': (90000, 1300)}
    RULE = 'a case takes a generated program of known result from its sources to its execution: each part as source, object (with any CFLAGS), archive member, object or shared library of the host compiler; in any order; run directly, from standard input, by another entry function, or linked to an executable by cjit or by gcc; steps may be killed or fail and are then repeated; non-trivial when a part is precompiled, linked or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB + '; finished executables run natively, outside the simulation', ASSUME + ['objects made by the installed gcc and clang are correct']
    NOTE = 'Seeded search over programs, routes and faults with a result known from how the program was generated. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        wl = random.Random('route/%d' % rng.randrange(400 if ctx.tier == 'quick' else 20000))
        p = gen_prog(wl, nsrc=wl.choice([1, 2, 2, 3, 3, 4]), fragp=.85)
        n = len(p.sources)
        goal = rng.choice(['run', 'run', 'run', 'exe', 'exe', 'exe', 'gcc', 'stdin', 'entry'])
        if goal == 'stdin':
            if n > 1 or [f for f in p.files if '/' in f and f.endswith('.h')] and '"sub/' in str(p.files):
                goal = 'run'
        files = dict(p.files)
        fn = {f[0] for f in p.frags}
        srcs = []
        for s in p.sources:     # -c takes .c files only
            srcs.append(s)
        # the form of each part
        forms = []
        for i in range(n):
            mine = {f[0] for f in p.frags if i in f[1:]}
            c = ['src', 'src', 'obj', 'obj', 'obj']
            if i:
                c += ['ar', 'ar']
            if 'macros' not in mine:
                c += ['host']
            if i and goal in ('run', 'exe') and not mine & {'macros', 'recur', 'weakstrong', 'comdef', 'common', 'dtor', 'named', 'asmtop'} and goal == 'exe':
                c += ['so']
            if i and 'macros' not in mine and goal in ('run', 'exe', 'entry'):
                c += ['har']
            if goal == 'gcc':
                c = ['obj', 'obj', 'obj', 'ghost'] if 'macros' not in mine else ['obj']
            forms.append(rng.choice(c) if goal != 'stdin' else 'src')
        if 'so' in forms and {'recur', 'weakstrong', 'comdef', 'common', 'named', 'asmtop'} & fn:
            forms = ['src' if f == 'so' else f for f in forms]
        if goal == 'gcc' and {'comdef', 'common', 'weakstrong'} & fn:
            goal = 'exe'
        if goal == 'gcc' and 'obj' not in forms:
            forms[rng.randrange(n)] = 'obj'
        if goal == 'entry':
            if forms[0] == 'host':
                forms[0] = 'obj'
            m = files[srcs[0]]
            files[srcs[0]] = m.replace('/* end 0 */', 'int other_entry(int argc, char **argv, char **envp) { return main(argc, argv%s); }\n' % (', envp' if 'char **envp) {\n\tbool' in m else ''), 1)
        steps, inputs, tail, solib, nopie, refuse, may, large = [], [], [], {}, False, b'', [], False
        mem = []
        for i, f in enumerate(forms):
            s = srcs[i]
            if f in ('obj', 'ar'):
                if not s.endswith('.c'):
                    t = os.path.splitext(s)[0] + '.c'
                    files[t] = files.pop(s)
                    s = t
                o = 'part%d.o' % i
                steps.append((['cjit', '-q'] + p.opts + ['-c', s, '-o', o], rng.choice(CFL), o))
                if f == 'obj':
                    inputs.append(o)
                else:
                    mem.append(o)
            elif f in ('host', 'ghost', 'so', 'har'):
                t = os.path.splitext(s)[0] + '.c'
                src = {q: v for q, v in files.items() if q.endswith('.h')}
                src[t] = files[s].replace(LEFTASM, '')     # it would go amid gcc's own output
                cc = rng.choice(HOST)
                large |= '-mcmodel=large' in cc     # gcc itself cannot link it statically
                odd = rng.choice(list(ODD)) if rng.random() < .3 else ''
                if odd == 'ifunc' and '-mcmodel=large' in cc:
                    odd = 'prio'        # GNU ld has no such relocation
                if odd:
                    at, use = 'int f%d(int x) {' % i, 'MUL * %d' % p.vals[i]
                    if src[t].count(at) != 1 or src[t].count(use) != 1:
                        raise RuntimeError('odd')
                    d = {'i': i, 'k': rng.randrange(1, 9999)}
                    src[t] = src[t].replace(at, ATT + ODD[odd] % d + '\n' + at).replace(use, use + ' + ' + ODDUSE[odd] % d)
                    if odd[:3] == 'tls' and rng.random() < .4 and f != 'so':
                        cc = cc + ['-ftls-model=' + rng.choice(['initial-exec', 'local-exec'] if '-fPIC' not in cc else ['initial-exec'])]
                    ctx.tag('odd ' + odd)
                    # thread-local variables need an executable; the others are not for cjit's linker
                    if f != 'so' and (goal in ('run', 'entry') if odd[:3] == 'tls' else goal != 'gcc'):
                        refuse = b'is not supported'
                    if odd[:3] == 'tls' and ('-fno-plt' in cc or '-mcmodel=large' in cc):
                        may.append(b' pattern')     # not every sequence is known to cjit
                if f != 'so' and '-fPIC' not in cc and goal in ('run', 'entry'):
                    may.append(b"of a library is out of reach, compile with -fPIC")
                nopie |= f != 'so' and '-fno-pie' in cc     # made for low memory: cjit must refuse to run it there
                if f == 'so':
                    o = 'libpart%d.so' % i
                    rc, e, out = host(ctx, src, cc[:2] + ['-fPIC', '-shared', '-nostdlib', '-Wl,-soname,' + o] + HOSTF + p.opts + [t, '-o', o], [o])
                else:
                    o = 'host%d.o' % i
                    rc, e, out = host(ctx, src, cc + HOSTF + p.opts + ['-c', t, '-o', o], [o])
                if rc or not out[o]:
                    raise RuntimeError('host compiler: %r' % e[-500:])
                files.pop(s)
                files[o] = out[o]
                if f == 'so':
                    solib[o] = out[o]
                    tail.append('./' + o)
                elif f == 'har':
                    mem.append(o)
                else:
                    inputs.append(o)
            else:
                inputs.append(s)
        if rng.random() < .4:
            rng.shuffle(inputs)
        if mem:
            steps.append((['cjit', '-ar', 'rcs', 'libmem.a'] + mem, '', 'libmem.a'))
            inputs.append('libmem.a')
        inputs += tail
        bad_b = [q for q in steps if q[1] in ('-b', '-bt')]
        for q in bad_b:     # objects with bounds or backtrace code need support files that cjit does not carry
            if '-b' == q[1] or goal == 'gcc':
                steps[steps.index(q)] = (q[0], '', q[2])
        cf = rng.choice(CFL)
        if cf in ('-b', '-bt'):
            cf = ''
        final = ['cjit', '-q'] + p.opts + inputs
        prog_args = ['--'] + p.args if p.args else []
        if goal == 'exe':
            steps.append((['cjit', '-q'] + p.opts + rng.choice([['-o', 'prog'] + inputs, inputs + ['-o', 'prog']]), cf, 'prog'))
        elif goal == 'entry':
            final = ['cjit', '-q'] + p.opts + ['-e', 'other_entry'] + inputs + prog_args
        elif goal == 'stdin':
            final = ['cjit', '-q'] + p.opts + ['-'] + prog_args
        else:
            final += prog_args
        faulty = rng.random() < .5
        w = ctx.world()
        def setup(v):
            preload_assets(ctx, v)
            install(v, files)
        setup(w)
        launch, hist = 0, []
        ctx.tag('%s %s' % (goal, '+'.join(sorted(set(forms)))))
        ctx.nontrivial = bool(steps) or 'host' in forms or 'har' in forms
        done = []
        for argv, cflags, out in steps + ([(final, cf, None)] if goal in ('run', 'entry', 'stdin') else []):
            tries = rng.choice([0, 0, 1, 1, 2]) if faulty else 0
            while True:
                env = ['CFLAGS=' + cflags] if cflags else []
                par = {'garbage': rng.randrange(1, 99)}
                si = 'null'
                if goal == 'stdin' and out is None:
                    si = files[srcs[0]].encode()
                mode = rng.choice(['kill', 'target', 'target', 'rules', 'alloc', 'short', 'quota']) if tries else 'healthy'
                if mode == 'alloc':
                    par[rng.choice(['allocfail', 'allocfailafter'])] = rng.randrange(1, 400)
                idx = w.launch(argv, env=env, stdin=si, **par)
                if mode in ('kill', 'target'):
                    def setup2(v):
                        setup(v)
                        for o in done:
                            v.file('/w/' + o, w.read('/w/' + o))
                    key = 'route' + hashlib.sha256(repr((argv, cflags, sorted(files.items()), done)).encode()).hexdigest()
                    ops = oplist(ctx, key, setup2, lambda v: v.launch(argv, env=env, stdin=si))
                    target_fault(ctx, w, idx, ops, pred=lambda o: o[2].startswith('/w/') or o[2] == '', kill=mode == 'kill')
                elif mode == 'rules':
                    add_rules(ctx, w, idx, MIX, prefix=rng.choice(['/w/', '!std:']), scale=4)
                elif mode == 'short':
                    w.rule(rng.choice(['read', 'write']), 'short', rng.choice([50000, 300000, 900000]), -1, idx)
                elif mode == 'quota':
                    w.set('quota', rng.choice([0, rng.randrange(0, 20000)]))
                r = w.run()
                launch += 1
                w.clear()
                hist.append('%s%s:%s' % (cflags and 'CFLAGS=%s ' % cflags, ' '.join(argv[1:])[-90:], mode))
                what = ' ; '.join(hist[-6:])
                if diseased(ctx, r, what):
                    return
                q = parent(r, launch)
                if out is None:
                    got = check_run(ctx, w, r, launch, p, what, faulty=mode != 'healthy' or nopie or bool(refuse or may))
                    if (nopie or refuse or may) and got == 'failed' and mode == 'healthy' and not (nopie and b'-fPIC' in q['err'] or refuse and refuse in q['err'] or [m for m in may if m in q['err']]):
                        ctx.fail('silent', '%s: exit %s, stderr %r' % (what, q['exit'], q['err'][-300:])); return
                    if got is None:
                        return
                    if got == 'exact' or mode == 'healthy':
                        break
                else:
                    if out == 'prog' and q['exit'] and q['sig'] is None and (refuse and refuse in q['err'] or [m for m in may if m in q['err']]):
                        return
                    if q['exit'] == 0 and q['sig'] is None:
                        done.append(out)
                        break       # reported success: taken at its word
                    if mode == 'healthy':
                        ctx.fail('step-fails', '%s: exit %s sig %s, stderr %r' % (what, q['exit'], q['sig'], q['err'][-300:])); return
                tries -= 1
        what = ' ; '.join(hist[-6:])
        if goal == 'exe':
            t = w.tree('/w').get('/w/prog')
            if not t or t[0] != 'f':
                ctx.fail('no-executable', what); return
            rc, out, err = native(dict(solib, prog=bytes.fromhex(t[2])), p.args, 'prog')
        elif goal == 'gcc':
            objs = {o: w.read('/w/' + o) or b'' for o in done if o.endswith('.o')}
            objs.update({o: d for o, d in files.items() if o.endswith('.o')})
            lib = expected_assets(ctx.k)['libtcc1.a']
            rc, e, o = host(ctx, dict(objs, **{'libtcc1.a': lib}), ['gcc'] + rng.choice([['-no-pie'] if nopie else [], ['-no-pie'], ['-static'] if not large else []]) + sorted(objs) + ['libtcc1.a', '-o', 'prog'], ['prog'])
            if rc:
                ctx.fail('object-rejected', '%s: gcc does not link the objects: %r' % (what, e[-300:])); return
            rc, out, err = native({'prog': o['prog']}, p.args, 'prog')
        else:
            return
        if rc != p.exit or out != p.out:
            ctx.fail('executable-differs', '%s: the executable gives %s %r %r, expected %d %r' % (what, rc, out[:300], err[-200:], p.exit, p.out[:300]))
        if rng.random() < .02:
            ctx.sample = {'history': hist, 'forms': forms, 'goal': goal}

CHECKS = [C19()]
