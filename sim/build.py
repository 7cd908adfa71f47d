#!/usr/bin/env python3
"""Builds the simulator and the actors from /repo's current working tree.

The sources are copied out of /repo (nothing is written there), the
repository's own makefiles build the objects with coverage callbacks, the
objects are merged and their libc references redirected to the simulated ones.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('SIM_REPO', '/repo')
TOP = ('src', 'lib/tinycc', 'build', 'assets', 'GNUmakefile')

class BuildError(Exception):
    pass

def repo_files():
    try:
        out = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z', '--', *TOP],
                             check=True, capture_output=True).stdout
        fs = [f for f in out.decode().split('\0') if f]
    except (OSError, subprocess.CalledProcessError):
        fs = []
        for t in TOP:
            p = os.path.join(REPO, t)
            if os.path.isfile(p):
                fs.append(t)
            for d, _, names in os.walk(p):
                fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names]
    keep = []
    for f in fs:
        b = os.path.basename(f)
        if f.startswith('lib/tinycc/tests/') or b.endswith(('.o', '.a', '.so')):
            continue
        if b.startswith('embed_') and f.startswith('src/') or f in ('src/assets.c', 'src/assets.h'):
            continue
        if f in ('lib/tinycc/config.h', 'lib/tinycc/config.mak', 'lib/tinycc/tccdefs_.h'):
            continue
        if os.path.isfile(os.path.join(REPO, f)) or os.path.islink(os.path.join(REPO, f)):
            keep.append(f)
    return sorted(set(keep))

def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b'\0')
        h.update(os.readlink(p).encode() if os.path.islink(p) else open(p, 'rb').read())
    for f in sorted(os.listdir(SIM)):
        p = os.path.join(SIM, f)
        if os.path.isfile(p) and not f.endswith('.pyc'):
            h.update(f.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()[:16]

def run(cmd, cwd=None, env=None, log=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if log is not None:
        log.write(('$ %s\n' % ' '.join(cmd)).encode() + r.stdout)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')

def build(verbose=False):
    """Returns the directory holding simk and the actors."""
    os.makedirs(BUILD, exist_ok=True)
    files = repo_files()
    h = tree_hash(files)
    dst = os.path.join(BUILD, h)
    if os.path.exists(os.path.join(dst, 'OK')):
        return dst
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(os.path.join(dst, 'OK')):
        return dst
    t0 = time.time()
    for old in os.listdir(BUILD):  # keep the cache small
        p = os.path.join(BUILD, old)
        if os.path.isdir(p) and old != h and time.time() - os.path.getmtime(p) > 3 * 3600:
            shutil.rmtree(p, ignore_errors=True)
    shutil.rmtree(dst, ignore_errors=True)
    cp = os.path.join(dst, 'src')
    for f in files:
        d = os.path.join(cp, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, f), d, follow_symlinks=False)
    log = open(os.path.join(dst, 'build.log'), 'wb')
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': dst, 'LC_ALL': 'C.UTF-8',
           'GIT_DIR': '/nonexistent', 'GIT_CEILING_DIRECTORIES': '/', 'OSTYPE': 'linux-gnu'}
    stub = os.path.join(dst, 'covstub.o')
    sc = os.path.join(dst, 'covstub.c')
    open(sc, 'w').write('void __sanitizer_cov_trace_pc(void){}\n')
    run(['gcc', '-O2', '-c', sc, '-o', stub], log=log)
    cf = '-O1 -g -fno-omit-frame-pointer -fno-inline-small-functions -fsanitize-coverage=trace-pc -fstack-protector-strong -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2'
    mk = ['make', '-f', 'build/linux.mk', 'CC=gcc', 'CFLAGS=' + cf, 'ldflags=' + stub]
    run(mk + ['-j8', 'lib/tinycc/libtcc1.a'], cwd=cp, env=env, log=log)
    run(mk + ['embed-posix'], cwd=cp, env=env, log=log)
    run(mk + ['-j8', 'cjit'], cwd=cp, env=env, log=log)
    objs = sorted(os.path.join(cp, 'src', f) for f in os.listdir(os.path.join(cp, 'src')) if f.endswith('.o'))
    lib = os.path.join(cp, 'lib/tinycc/libtcc.a')
    syms = [s for s in open(os.path.join(SIM, 'syms.txt')).read().split() if s]
    redef = os.path.join(dst, 'redef.txt')
    open(redef, 'w').write(''.join('%s sim_%s\n' % (s, s) for s in syms) + 'main actor_main\n')
    open(os.path.join(dst, 'simtab.h'), 'w').write(''.join('S(%s)\n' % s for s in syms))
    # cjit actor: every object of the program; api actor: libtcc alone
    run(['ld', '-r', '-o', dst + '/cjit0.o', *objs, '--whole-archive', lib], log=log)
    run(['ld', '-r', '-o', dst + '/tcc0.o', '--whole-archive', lib], log=log)
    for n in ('cjit', 'tcc'):
        run(['objcopy', '--redefine-syms=' + redef, '%s/%s0.o' % (dst, n), '%s/%s1.o' % (dst, n)], log=log)
    inc = ['-I' + dst, '-I' + SIM, '-I' + os.path.join(cp, 'lib/tinycc'), '-I' + os.path.join(cp, 'src')]
    ps = []
    def par(cmd):
        ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    par(['g++', '-O2', '-o', dst + '/simk', SIM + '/simk.cc'])
    par(['gcc', '-O2', '-g', '-w', '-fno-omit-frame-pointer', *inc, '-c', SIM + '/simrt.c', '-o', dst + '/simrt.o'])
    if os.path.exists(SIM + '/apidrv.c'):
        par(['gcc', '-O1', '-g', '-w', *inc, '-c', SIM + '/apidrv.c', '-o', dst + '/apidrv0.o'])
    for cmd, p in ps:
        out = p.communicate()[0]
        log.write(out)
        if p.returncode:
            raise BuildError('command failed: %s\n%s' % (' '.join(cmd), out.decode(errors='replace')[-3000:]))
    und = run(['nm', '-u', dst + '/cjit1.o']).split()
    open(os.path.join(dst, 'libc_passthrough.txt'), 'w').write('\n'.join(sorted(s for s in und if s not in ('U', 'w', 'v') and not s.startswith('sim_'))))
    L = ['-ldl', '-lm', '-lpthread', '-no-pie', '-rdynamic']
    L = ['-ldl', '-lm', '-lpthread', '-rdynamic']
    run(['gcc', '-o', dst + '/actor_cjit', dst + '/cjit1.o', dst + '/simrt.o', *L], log=log)
    if os.path.exists(SIM + '/apidrv.c'):
        run(['objcopy', '--redefine-syms=' + redef, dst + '/apidrv0.o', dst + '/apidrv.o'], log=log)
        run(['gcc', '-o', dst + '/actor_api', dst + '/apidrv.o', dst + '/tcc1.o', dst + '/simrt.o', *L], log=log)
    open(os.path.join(dst, 'OK'), 'w').write('%.1f\n' % (time.time() - t0))
    return dst

if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write(str(e) + '\n')
        sys.exit(2)
