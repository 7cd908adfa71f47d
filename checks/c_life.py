from common import *

SIGS = {'abort();': 6, 'raise(SIGTERM);': 15, 'kill(getpid(), SIGKILL);': 9, 'raise(SIGUSR1);': 10, 'raise(SIGHUP);': 1, 'raise(SIGALRM);': 14, 'raise(SIGPIPE);': 13, '*(volatile int *)0 = 1;': 11,
        '{ volatile int z = 0; z = 1 / z; }': 8, '__builtin_trap();': 4}
SIGS.pop('__builtin_trap();')
for n, k in dict(INT=2, QUIT=3, TRAP=5, BUS=7, USR2=12, STKFLT=16, XCPU=24, XFSZ=25, VTALRM=26, PROF=27, IO=29, PWR=30, SYS=31).items():
    SIGS['raise(SIG%s);' % n] = k
SIGS['kill(getpid(), 34);'] = 34
SIGS['kill(getpid(), 64);'] = 64

def fnvs(b):
    h = 2166136261
    for c in b:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h

class Life:
    """A program whose whole observable life is known from its construction."""
    pass

def gen_life(rng, small=False):
    p = Life()
    p.entry = rng.choice(['main', 'main', 'main', 'main', 'start', 'run_me', 'x', '_entry2', 'main2'])
    p.args = [rng.choice(['a', 'bc', '-x', '--y=1', 'with space', '-', '-c', '-o', '-Wall', '-O2', '-fPIC', '-g', '-M', '-l', '-I.', '-q', '*', '%d', 'é', '"', '\\', '$HOME', '-s', '-shared', '--', '-p', 'x.c', '', '-h', '-v', '-ar', '--xass', 'a' * 300]) + rng.choice(['', '', str(rng.randrange(10))])
              for _ in range(rng.choice([0, 0, 1, 2, 3, 6, 40 if not small else 4]))]
    p.env = ['%s=%s' % (n, rng.choice(['', '1', 'a b', 'x=y', 'ü', 'z' * 200])) for n in rng.sample(['HOME', 'LANG', 'FOO', 'BAR_1', 'PATH', 'TERM', 'X', 'USER', 'EDITOR', 'TMPDIR'], rng.choice([0, 1, 2, 5]))]
    p.stdin = b''
    if rng.random() < .6:
        p.stdin = bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 100, 4095, 4096, 5000, 20000 if not small else 700])))
        if rng.random() < .5:
            p.stdin = b'\n'.join(b'line %d' % i for i in range(rng.choice([1, 3, 900 if not small else 30]))) + rng.choice([b'', b'\n'])
    s = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <sys/wait.h>\nextern char **environ;\n'
    s += 'static unsigned fnv(unsigned h, const char *b, int n) { int i; for (i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 16777619u; return h; }\n'
    s += 'extern void sim_note(const char *);\nstatic void leave(int c) { exit(c); }\nstatic void bye(void) { printf("atexit\\n"); }\n'
    out, err = b'', b''
    b = '\tint rf = 0; sim_note("ran");\n'
    atex = False
    if rng.random() < .2:
        atex = True
        b += '\tatexit(bye);\n'
    parts = rng.sample(['args', 'env', 'stdin', 'big', 'raw', 'err', 'cwd', 'sleep', 'fork', 'nonl', 'stop', 'sleep2'], rng.randrange(1, 8 if not small else 4))
    ctor, dtor, envp = rng.random() < .2, rng.random() < .2, rng.random() < .4
    at = '__attribute__((%s)) static void %s(%s) { %s }\n'
    if ctor or dtor:
        s += '#undef __attribute__\n'     # glibc's headers define it away
    if ctor:
        s += 'static int before;\n' + at % ('constructor', 'early', 'int argc, char **argv, char **e', 'before = argc * 10 + (e == environ) + !!argv[0]; printf("constructor\\n");')
        b += '\tprintf("before %d\\n", before - argc * 10);\n'
        out += b'constructor\nbefore 2\n'
    elif rng.random() < .4:
        s += '#include <errno.h>\n'
        b += '\tprintf("errno %d\\n", errno);\n'
        out += b'errno 0\n'
    if dtor:
        s += at % ('destructor', 'late', 'void', 'printf("destructor\\n");')
    for x in ['args', 'env'] if rng.random() < .5 else ['args']:
        if x not in parts:
            parts.append(x)
    for x in parts:
        if x == 'args':
            b += '\t{ int i; printf("argc %d\\n", argc - 1); for (i = 1; i < argc; i++) printf("[%s]\\n", argv[i]); printf("%d\\n", argv[argc] == 0); }\n'
            out += b'argc %d\n' % len(p.args) + b''.join(b'[' + a.encode() + b']\n' for a in p.args) + b'1\n'
        elif x == 'env':
            b += '\t{ char **e; for (e = ' + ('envp' if envp else 'environ') + '; *e; e++) printf("env %s\\n", *e); }\n'
            out += b''.join(b'env ' + e.encode() + b'\n' for e in p.env)
        elif x == 'stdin':
            how = rng.choice(['getchar', 'fread', 'read', 'fgets' if b'\0' not in p.stdin else 'fread'])
            if how == 'getchar':
                b += '\t{ unsigned h = 2166136261u; int n = 0, c; while ((c = getchar()) != EOF) { char k = c; h = fnv(h, &k, 1); n++; } printf("in %d %u\\n", n, h); }\n'
            elif how == 'read':
                b += '\t{ unsigned h = 2166136261u; int n = 0, c; char t[300]; while ((c = read(0, t, sizeof t)) > 0) { h = fnv(h, t, c); n += c; } printf("in %d %u\\n", n, h); }\n'
            elif how == 'fread':
                b += '\t{ unsigned h = 2166136261u; int n = 0, c; char t[777]; while ((c = fread(t, 1, sizeof t, stdin)) > 0) { h = fnv(h, t, c); n += c; } printf("in %d %u\\n", n, h); }\n'
            else:
                b += '\t{ unsigned h = 2166136261u; int n = 0; char t[100]; while (fgets(t, sizeof t, stdin)) { h = fnv(h, t, strlen(t)); n += strlen(t); } printf("in %d %u\\n", n, h); }\n'
            out += b'in %d %d\n' % (len(p.stdin), fnvs(p.stdin))
        elif x == 'big':
            n = rng.choice([50, 1000, 6000 if not small else 60])
            b += '\t{ int i; for (i = 0; i < %d; i++) printf("line %%d of output\\n", i); }\n' % n
            out += b''.join(b'line %d of output\n' % i for i in range(n))
        elif x == 'raw':
            b += '\tfflush(stdout); write(1, "raw\\0bytes\\n", 10);\n'
            out += b'raw\0bytes\n'
        elif x == 'err':
            b += '\tfprintf(stderr, "to stderr %d\\n", 5);\n'
            err += b'to stderr 5\n'
        elif x == 'cwd':
            b += '\t{ char t[500]; printf("cwd %s\\n", getcwd(t, sizeof t)); }\n'
            out += b'cwd /w\n'
        elif x in ('sleep', 'sleep2'):
            b += rng.choice(['\tusleep(1000);\n', '\tsleep(1);\n'])
        elif x == 'nonl':
            b += '\tprintf("no newline");\n'
            out += b'no newline'
        elif x == 'stop':
            b += '\tkill(getpid(), SIGSTOP);\n'
        elif x == 'fork':
            b += '\t{ int st = 0; pid_t k; fflush(stdout); k = fork(); if (k == 0) { usleep(10); _exit(7); } waitpid(k, &st, 0); printf("child %d\\n", st >> 8); }\n'
            out += b'child 7\n'
    p.sig = None
    p.code = rng.choice([0, 0, 0, 1, 2, 3, 42, 126, 127, 128, 137, 139, 200, 254, 255])
    if rng.random() < .25:
        k = rng.choice(sorted(SIGS))
        b += '\tfflush(stdout);\n\t' + k + '\n\treturn 98;\n'
        p.sig = SIGS[k]
    else:
        raw = p.code
        if rng.random() < .1:
            raw = p.code + 256 * rng.choice([1, 3])
        b += '\t' + rng.choice(['return %d;', 'exit(%d);', 'leave(%d);', 'fflush(stdout); _exit(%d);' if not atex and not dtor else 'return %d;']) % raw + '\n'
        if atex:
            out += b'atexit\n'
        if dtor:
            out += b'destructor\n'
    p.status = p.sig if p.sig is not None else p.code
    s += 'int %s(int argc, char **argv%s) {\n%s}\n' % (p.entry, ', char **envp' if envp else '', b)
    if p.entry != 'main' and rng.random() < .7:
        s += 'int main(int argc, char **argv) { puts("wrong entry"); return 77; }\n'
    p.src, p.out, p.err = s, out, err
    return p

def life_launch(ctx, w, p, opts=(), name='prog.c', **par):
    rng = ctx.rng
    w.file('/w/' + name, p.src)
    argv = ['cjit'] + rng.choice([['-q'], ['-q'], [], ['--verb']]) + list(opts)
    e = ['-e', p.entry] if p.entry != 'main' or rng.random() < .1 else []
    if rng.random() < .5:
        argv += e + [name]
    else:
        argv += ['-q'] * (len(argv) == 1) + e + [name]
    if p.args or rng.random() < .2:
        argv += ['--'] + p.args
    stdin = p.stdin
    if p.stdin:
        if rng.random() < .4:
            w.file('/w/stdin.txt', p.stdin)
            stdin = 'file:/w/stdin.txt'
        elif rng.random() < .4:     # a writer with pauses
            k = rng.choice([2, 3, 9])
            cut = [0] + sorted(rng.randrange(len(p.stdin) + 1) for _ in range(k - 1)) + [len(p.stdin)]
            stdin = 'feed:' + ','.join('%s@%d' % (p.stdin[x:y].hex(), rng.choice([0, 40, 2000, 1200000])) for x, y in zip(cut, cut[1:]))
    else:
        stdin = 'null' if rng.random() < .5 else b''
    return w.launch(argv, stdin=stdin, tty=rng.random() < .2, env=p.env, garbage=rng.randrange(1, 99), **par), argv

def ran_count(r):
    return sum(p['notes'].count('ran') for p in r['procs'])

def check_life(ctx, w, r, launch, p, what, expect):
    """expect: 'exact' or 'start' (the program may be refused, visibly, before it starts)."""
    par = parent(r, launch)
    kids = [c for c in r['procs'] if c['launch'] == launch and c['par'] == par['idx']]
    nran = ran_count(r)
    d = 'exit %s sig %s (expected %d), stdout %r (expected %r), stderr %r' % (par['exit'], par['sig'], p.status, par['out'][-160:], p.out[-160:], par['err'][-200:])
    if nran > 1 or len(kids) > 1:
        ctx.fail('ran-twice', '%s: the program ran %d times; %s' % (what, nran, d)); return
    if nran == 0:
        if expect == 'exact':
            ctx.fail('not-run', '%s: the program did not run; %s' % (what, d)); return
        if par['sig'] is None and par['exit'] == 0:
            ctx.fail('false-success', '%s: exit 0 without running the program; %s' % (what, d)); return
        if not par['err'].strip():
            ctx.fail('silent', '%s: the program could not be started and cjit says nothing; %s' % (what, d)); return
        if par['sig'] is None and par['out']:
            ctx.fail('output', '%s: output without a program: %s' % (what, d)); return
        return 'refused'
    if not kids or kids[0]['end'] > par['end']:
        ctx.fail('early-end', '%s: cjit ended before the program (step %s, program %s); %s' % (what, par['end'], kids and kids[0]['end'], d)); return
    if 'ran' not in kids[0]['notes']:
        ctx.fail('ran-elsewhere', '%s: the program ran in another process; %s' % (what, d)); return
    if par['sig'] is not None or par['exit'] != p.status:
        ctx.fail('status', '%s: %s' % (what, d)); return
    if par['out'] != p.out:
        ctx.fail('output', '%s: %s' % (what, d)); return
    if p.err not in par['err']:
        ctx.fail('stderr', '%s: the program\'s stderr is not passed through; %s' % (what, d)); return
    return 'exact'

class C03:
    ID = 'C03'
    TITLE = "cjit ends with the program's own result, and never before the program has ended"
    BUDGET = {'quick': (9000, 100), 'thorough': (150000, 1200)}
    RULE = 'a case is one run of a generated program of known life (arguments, environment, standard input, output, stops, forks, exit or death by signal) under a seeded schedule of launcher and program, interrupted waits, stop/continue of either, refused fork or memory protection, or an entry or symbol that does not exist; non-trivial when a fault fired or the schedule deviates; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over programs, schedules and interruptions with the real launcher code; samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        w.set('core', rng.random() < .5)
        preload_assets(ctx, w)
        p = gen_life(rng)
        mode = rng.choice(['sched', 'sched', 'intr', 'stop', 'stop', 'refuse', 'refuse', 'absent', 'mix'])
        expect = 'exact'
        w.preempt(rng.choice([0, 50000, 300000, 700000]))
        if mode in ('intr', 'mix'):
            w.rule('wait', 'EINTR', rng.choice([300000, 1000000]), rng.choice([1, 2, 5, 30]), 0)
        if mode in ('stop', 'mix'):
            w.rule('any', rng.choice(['stop', 'stop', 'tstp']), rng.choice([2000, 20000, 60000]), rng.choice([1, 2, 4]), rng.choice([0, 1, 1, -1]), '*', rng.choice([3, 40, 200]))
            if rng.random() < .5:
                w.rule('wait', rng.choice(['stop', 'tstp']), 1000000, 1, 0, '*', 30)
        if mode == 'refuse':
            cls, effs = rng.choice([('fork', ['EAGAIN', 'ENOMEM']), ('fork', ['EAGAIN', 'ENOMEM']), ('mprotect', ['ENOMEM', 'EACCES']), ('mmap', ['ENOMEM'])])
            w.rule(cls, rng.choice(effs), 1000000, rng.choice([1, 1, -1]), 0)
            if 'k = fork()' in p.src:
                pass
            expect = 'start'
        if mode == 'absent':
            if rng.random() < .5:
                p.src = p.src.replace('int rf = 0;', 'extern int missing_fn(int); int rf = 0; if (argc > 1000) missing_fn(1);')
            else:
                old, p.entry = p.entry, 'nowhere'
            expect = 'refused'
        launch, argv = life_launch(ctx, w, p)
        r = w.run()
        ctx.tag(mode)
        what = '%s of %r' % (mode, argv[:8])
        if diseased(ctx, r, what, allow_sig=(p.sig,)):
            return
        got = check_life(ctx, w, r, 1, p, what, 'start' if expect != 'exact' else 'exact')
        if expect == 'refused' and got == 'exact':
            ctx.fail('ran-anyway', '%s: a program with a missing symbol or entry ran' % what)
        if got:
            ctx.tag(got)
        if rng.random() < .01:
            ctx.sample = {'mode': mode, 'argv': argv[:10], 'status': p.status, 'steps': r['steps']}

class C04:
    ID = 'C04'
    TITLE = 'The pid file names the running program, or the launch fails visibly'
    BUDGET = {'quick': (9000, 90), 'thorough': (120000, 900)}
    RULE = 'a case is 1-3 runs with -p FILE (new, existing, linked, unwritable or impossible FILE) with seeded schedules and refused, failing or short operations on FILE, a full disk, interrupted waits or a killed launcher; non-trivial when a fault fired, FILE is impossible or the schedule deviates; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over FILE states, faults on it and schedules; samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        w = ctx.world()
        w.set('pid', rng.choice([1000, 1000, 1, 8, 98, 9998, 99998, 999998, 4194000, rng.randrange(2, 4000000)]))
        w.set('core', rng.random() < .5)
        preload_assets(ctx, w)
        path = rng.choice(['pid', '/w/run.pid', './a/b.pid', '/tmp/x.pid', 'nodir/x.pid', 'adir', 'link', 'dangling', 'ro.pid', '/dev/full', 'rodir/p', 'pid', 'pid', '/w/p' + 'q' * 120])
        w.dir('/w/a')
        w.dir('/w/adir')
        w.dir('/w/rodir', 0o555)
        w.file('/w/ro.pid', '1\n', 0o444)
        w.symlink('/w/link', 'a/target')
        w.file('/w/a/target', 'old content that is longer\n')
        w.symlink('/w/dangling', 'a/new')
        if rng.random() < .5 and path in ('pid', '/w/run.pid', './a/b.pid', '/tmp/x.pid'):
            w.file(os.path.normpath(os.path.join('/w', path)), rng.choice(['', '1\n', '123456789012\nmore\n', 'x' * 5000]))
        where = {'link': '/w/a/target', 'dangling': '/w/a/new'}.get(path, os.path.normpath(os.path.join('/w', path)))
        impossible = path in ('nodir/x.pid', 'adir', 'ro.pid', '/dev/full', 'rodir/p')
        n = rng.choice([1, 1, 1, 2, 3])
        launch = 0
        for i in range(n):
            p = gen_life(rng, small=True)
            before = w.read(where)
            w.preempt(rng.choice([0, 100000, 500000]))
            mode = rng.choice(['none', 'none', 'file', 'file', 'file', 'full', 'intr', 'kill', 'stop'])
            base = len(w.procs) if w.phases else 0
            if mode == 'file':
                cls, eff = rng.choice([('creat', 'EACCES'), ('creat', 'ENOSPC'), ('creat', 'EMFILE'), ('creat', 'EROFS'), ('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('close', 'EIO'), ('close', 'ENOSPC'), ('close', 'EDQUOT')])
                w.rule(cls, eff, rng.choice([500000, 1000000]), rng.choice([1, 1, -1]), -1, where)
            elif mode == 'full':
                w.set('quota', rng.choice([0, 1, 2, 3, 4, 5]))
            elif mode == 'intr':
                w.rule('wait', 'EINTR', 500000, 5, base)
            elif mode == 'kill':
                w.rule('wait', 'kill', 300000, 1, base)
            elif mode == 'stop':
                w.rule('any', 'stop', 20000, 3, -1, '*', 60)
            idx, argv = life_launch(ctx, w, p, rng.choice([['-p', path], ['-p', path], ['-p' + path]]), name='prog%d.c' % i)
            launch += 1
            r = w.run()
            w.clear()
            ctx.tag(mode + ('/impossible' if impossible else ''))
            if impossible:
                ctx.nontrivial = True
            r = {**r, 'procs': [q for q in r['procs'] if q['launch'] == launch]}
            what = 'run %d with -p %s (%s)' % (i + 1, path[:30], mode)
            if diseased(ctx, r, what, allow_sig=(p.sig,)):
                return
            par = parent(r, launch)
            kids = [c for c in r['procs'] if c['par'] == par['idx']]
            now = w.read(where)
            ran = ran_count(r) or None
            d = 'FILE holds %r, exit %s sig %s (expected %d), stderr %r' % (now, par['exit'], par['sig'], p.status, par['err'][-200:])
            right = bool(kids) and now == b'%d\n' % kids[0]['pid']
            if par['sig'] is not None:   # the launcher was killed
                if ran is not None and not right and mode != 'full':
                    ctx.fail('no-pid-killed', '%s: the program ran but FILE does not name it: %s' % (what, d)); return
                continue
            if impossible or not right:
                if ran is not None:
                    # it may only have been started if it has also ended, and the failure is reported
                    if kids and kids[0]['end'] > par['end']:
                        ctx.fail('left-running', '%s: FILE could not be written but the program was left running: %s' % (what, d)); return
                    if not impossible and mode in ('none', 'intr', 'stop'):
                        ctx.fail('wrong-pid', '%s: FILE does not name the program: %s' % (what, d)); return
                if par['exit'] == 0:
                    ctx.fail('unreported', '%s: FILE was not written but cjit exits 0: %s' % (what, d)); return
                if ran is not None and par['exit'] == p.status and b'pid' not in par['err'] and where.encode()[-20:] not in par['err'] and path.encode()[-20:] not in par['err']:
                    ctx.fail('unreported', '%s: FILE was not written and nothing says so: %s' % (what, d)); return
                if not par['err'].strip():
                    ctx.fail('silent', '%s: FILE was not written and cjit says nothing: %s' % (what, d)); return
                if not impossible and mode in ('none', 'intr', 'stop'):
                    ctx.fail('wrong-pid', '%s: FILE does not name the program: %s' % (what, d)); return
                continue
            if ran is None:
                if mode in ('none', 'intr', 'stop'):
                    ctx.fail('not-run', '%s: the program did not run: %s' % (what, d)); return
                if par['exit'] == 0:
                    ctx.fail('false-success', '%s: exit 0 without running the program: %s' % (what, d)); return
                continue
            got = check_life(ctx, w, r, launch, p, what, 'exact')
            if not got:
                return
        if rng.random() < .01:
            ctx.sample = {'file': path, 'runs': n, 'last_mode': mode}

CHECKS = [C03(), C04()]
