"""Python face of the simulator kernel: worlds, launches, faults, results."""
import json, os, subprocess, sys
from urllib.parse import quote_from_bytes

def q(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogateescape')
    return quote_from_bytes(s, safe='/.,_-+=:;@!#$^&*()[]{}<>?|~\'"\\')

class SimDied(Exception):
    pass

class Kernel:
    """One simulator process; worlds are made in it one after another."""
    def __init__(self, build, cpu=None):
        self.build, self.cpu, self.ref = build, cpu, None
        def pre():
            if cpu is not None:
                try:
                    os.sched_setaffinity(0, {cpu})
                except OSError:
                    pass
        self.p = subprocess.Popen([build + '/simk'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.devnull, 'w') if not os.environ.get('SIM_STDERR') else None, preexec_fn=pre)
    def send(self, line):
        self.p.stdin.write(line.encode('utf-8', 'surrogateescape') + b'\n')
    def ask(self, line):
        self.send(line)
        try:
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except OSError:
            r = b''
        if not r:
            raise SimDied('simulator kernel died on: ' + line[:200])
        v = json.loads(r)
        if isinstance(v, dict) and 'error' in v:
            raise SimDied(v['error'])
        return v
    def close(self):
        if self.ref is not None:
            self.ref.close()
            self.ref = None
        try:
            self.send('quit')
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()

class Proc(dict):
    @property
    def exit(self):
        return self['exit']
    @property
    def sig(self):
        return self['sig']

class World:
    """A simulated machine with a history of launches (phases)."""
    def __init__(self, k, seed, plan=None, log=False):
        """plan: None (seeded faults and schedule) or a recorded trace
        {"faults": [[proc, op, kind, arg]...], "sched": [[step, chan]...]} per world."""
        self.k, self.seed, self.plan = k, seed, plan
        self.faults, self.sched, self.phases = [], [], 0
        self.steps = self.simus = 0
        self.hashes = []
        self.history = []
        self.smear = 0     # seed of the garbage left on the stack
        k.send('world %d' % (seed & 0x7fffffffffffffff))
        if log:
            k.send('set log 1')
        if plan is not None:
            k.send('pre')
            for f in plan.get('faults', []):
                if not f[2].startswith('alloc:'):
                    k.send('at %d %d %s %d' % (f[0], f[1], f[2], f[3]))
            for s in plan.get('sched', []):
                k.send('pre %d %d' % (s[0], s[1]))
    # -- building
    def file(self, path, data=b'', mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        self.k.send('file %s %d %s' % (q(path), mode, data.hex()))
    def dir(self, path, mode=0o755):
        self.k.send('dir %s %d' % (q(path), mode))
    def symlink(self, path, target):
        self.k.send('link %s %s' % (q(path), q(target)))
    def rm(self, path):
        self.k.send('rm %s' % q(path))
    def set(self, key, val):
        self.k.send('set %s %d' % (key, val))
    # -- faults and schedule
    def rule(self, op, eff, ppm, maxn=-1, proc=-1, prefix='*', arg=0):
        if eff == 'EINTR' and maxn < 0 and ppm > 500000:
            maxn = 7     # signals that never stop coming are no fault a retry could survive
        if self.plan is None:
            self.k.send('rule %s %s %d %d %d %s %d' % (op, eff, ppm, maxn, proc, q(prefix), arg))
    def at(self, proc, op, kind, arg=0):
        if self.plan is None:
            self.k.send('at %d %d %s %d' % (proc, op, kind, arg))
    def preempt(self, ppm):
        if self.plan is None:
            self.set('preppm', ppm)
    def clear(self):
        """Faults stop: rules, planned faults, disk quota and preemption are cleared."""
        if self.plan is None:
            self.k.send('fclear')
        else:
            self.k.send('set quota -1')
    # -- running
    def launch(self, argv, actor='cjit', cwd='/w', stdin='null', tty=False, env=(), **params):
        if isinstance(stdin, bytes):
            stdin = 'data:' + stdin.hex()
        params.setdefault('maxsteps', 400000000)
        if self.smear:
            params.setdefault('smear', self.smear)
        if os.environ.get('SIM_STDERR'):
            params['btrace'] = 1
        ps = ','.join('%s=%d' % (a, b) for a, b in params.items())
        args = ' '.join(q(a) for a in argv)   # an empty argument is an empty token
        envs = ' '.join(q(e) for e in env)
        r = self.k.ask('launch %s %s %s %d %s %d %s %d %s' % (
            q(self.k.build + '/actor_' + actor), q(cwd), stdin, int(tty), ps, len(argv), args, len(env), envs))
        return r['proc']
    def run(self, maxsteps=2000000):
        r = self.k.ask('run %d' % maxsteps)
        self.phases += 1
        self.faults += r['faults']
        self.sched += r['sched']
        self.steps += r['steps']
        self.simus += r['simus']
        self.hashes.append(r['hash'])
        r['procs'] = [Proc(p) for p in r['procs']]
        for p in r['procs']:
            for s in ('out', 'err'):
                if s in p:
                    p[s] = p[s].encode('latin-1')
        self.procs = r['procs']
        self.last = r
        return r
    def tree(self, path, data=True):
        return self.k.ask('tree %s %d' % (q(path), int(data)))
    def read(self, path):
        v = self.k.ask('read %s' % q(path))
        return None if v is None else bytes.fromhex(v)
    def log(self):
        return self.k.ask('log')
    def ops(self):
        return self.k.ask('ops')
    @property
    def hash(self):
        return self.hashes[-1] if self.hashes else '0'
    def trace(self):
        return {'faults': [f[:4] for f in self.faults], 'sched': self.sched}
