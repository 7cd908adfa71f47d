"""Seeded search: runs cases on all cores, confirms, minimises and records
violations, writes the evidence file and the verdict."""
import hashlib, json, multiprocessing as mp, os, queue, random, signal, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, 'sim'), os.path.join(VERIF, 'lib')]
import build as simbuild
from world import Kernel, World, SimDied

class Ctx:
    """One case: a seed, its private random stream and the worlds it runs."""
    def __init__(self, kernel, check, seed, tier='quick', plans=None, log=False):
        self.k, self.check, self.seed, self.tier, self.plans, self.log = kernel, check, seed, tier, plans, log
        self.rng = random.Random('%s/%d' % (check.ID, seed))
        self.worlds, self.bad = [], []
        self.nontrivial = False
        self.tags = {}
        self.sample = {}
        self.cache = kernel.cache
    def world(self, faulty=True):
        """faulty=False: a fault-free reference world, outside the recorded trace."""
        if not faulty:
            if self.k.ref is None:   # one world per kernel, so references get a kernel of their own
                self.k.ref = Kernel(self.k.build, self.k.cpu)
            return World(self.k.ref, 12345)
        i = len(self.worlds)
        plan = None
        if self.plans is not None:
            plan = self.plans[i] if i < len(self.plans) else {'faults': [], 'sched': []}
        s = int.from_bytes(hashlib.sha256(('%s/%d/%d' % (self.check.ID, self.seed, i)).encode()).digest()[:7], 'big')
        w = World(self.k, s, plan=plan, log=self.log)
        if s % 3 == 0:
            w.smear = s % 1000003 + 1
        self.worlds.append(w)
        return w
    def fail(self, key, msg):
        self.bad.append((key, msg))
    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

def run_case(kernel, check, seed, tier, plans=None, log=False):
    c = Ctx(kernel, check, seed, tier, plans, log)
    check.case(c)
    hs = [h for w in c.worlds for h in w.hashes]
    faults = {}
    nf = ns = 0
    for w in c.worlds:
        for f in w.faults:
            faults[f[2]] = faults.get(f[2], 0) + 1
            nf += 1
        ns += len(w.sched)
    return {'seed': seed, 'bad': c.bad, 'hash': hashlib.sha256(','.join(hs).encode()).hexdigest()[:16],
            'faults': faults, 'nf': nf, 'ns': ns, 'worlds': len(c.worlds), 'steps': sum(w.steps for w in c.worlds),
            'simus': sum(w.simus for w in c.worlds), 'tags': c.tags, 'sample': c.sample,
            'nontrivial': bool(c.nontrivial or nf or ns), 'trace': [w.trace() for w in c.worlds],
            'where': [w.faults for w in c.worlds],
            'sched': hashlib.sha256(repr([w.sched for w in c.worlds]).encode()).hexdigest()[:12] if ns else '', 'logs': None}

def new_kernel(bdir, cpu=None):
    k = Kernel(bdir, cpu)
    k.cache = {}
    k.ref = None
    return k

def worker(bdir, check, tier, cpu, inq, outq, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    k = new_kernel(bdir, cpu)
    try:
        while True:
            job = inq.get()
            if job is None:
                break
            for seed in job:
                if time.time() > deadline:
                    outq.put(('skip', seed))
                    continue
                for attempt in (0, 1):
                    try:
                        r = run_case(k, check, seed, tier)
                        if not r['bad']:
                            r['trace'] = None
                            if not r['sample']:
                                r['where'] = r['where'] if seed % 50 == 0 else None
                        outq.put(('ok', r))
                        break
                    except SimDied as e:
                        k.close()
                        k = new_kernel(bdir, cpu)
                        if attempt:
                            outq.put(('err', (seed, 'simulator: %s' % e)))
                    except Exception:
                        k.close()
                        k = new_kernel(bdir, cpu)
                        if attempt:
                            outq.put(('err', (seed, traceback.format_exc()[-2000:])))
        cov = k.ask('cov 1')
        outq.put(('cov', cov[1]))
    except Exception:
        outq.put(('err', (-1, traceback.format_exc()[-2000:])))
        outq.put(('cov', ''))
    k.close()

def minimise(bdir, check, seed, tier, key, plans, budget=45.0):
    """Drops faults and preemptions while the same violation remains."""
    t0 = time.time()
    k = new_kernel(bdir)
    tries = 0
    def holds(p):
        nonlocal tries, k
        tries += 1
        try:
            r = run_case(k, check, seed, tier, plans=p)
        except SimDied:
            k.close(); k = new_kernel(bdir)
            return False
        return any(b[0] == key for b in r['bad'])
    cur = json.loads(json.dumps(plans))
    if holds(cur):
        for part in ('sched', 'faults'):
            for wi in range(len(cur)):
                items = cur[wi][part]
                n = max(1, len(items) // 2)
                while items and n >= 1 and time.time() - t0 < budget:
                    i = 0
                    while i < len(items) and time.time() - t0 < budget:
                        trial = items[:i] + items[i + n:]
                        cand = [dict(x) for x in cur]
                        cand[wi] = dict(cur[wi]); cand[wi][part] = trial
                        if holds(cand):
                            items = trial; cur = cand
                        else:
                            i += n
                    n //= 2
    k.close()
    return cur, tries

def confirm(bdir, check, seed, tier, key, first):
    """The violation must come back from its seed and from its recorded trace."""
    k = new_kernel(bdir)
    try:
        r1 = run_case(k, check, seed, tier)
        k.close()
        k = new_kernel(bdir)
        r2 = run_case(k, check, seed, tier, plans=r1['trace'])
    except SimDied:
        return None
    finally:
        k.close()
    ok1 = any(b[0] == key for b in r1['bad']) and r1['hash'] == first['hash']
    ok2 = any(b[0] == key for b in r2['bad']) and r2['hash'] == r1['hash']
    return (ok1, ok2, r1)

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c.get('level', 'exploration')
    except Exception:
        pass
    return 'exploration'

def main_check(check, tier, seed, replay_dir=None, cases=None):
    t0 = time.time()
    try:
        bdir = simbuild.build()
    except simbuild.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    build_s = time.time() - t0
    ncase, cap = check.BUDGET[tier]
    if cases:
        ncase = cases
    ncpu = min(8, os.cpu_count() or 1)
    inq, outq = mp.Queue(), mp.Queue()
    deadline = time.time() + cap
    base = seed * 1000003
    seeds = [base + i for i in range(ncase)]
    step = max(1, min(20, ncase // (ncpu * 4) or 1))
    for i in range(0, ncase, step):
        inq.put(seeds[i:i + step])
    for _ in range(ncpu):
        inq.put(None)
    ws = [mp.Process(target=worker, args=(bdir, check, tier, i, inq, outq, deadline), daemon=True) for i in range(ncpu)]
    for w in ws:
        w.start()
    st = {'cases': 0, 'skip': 0, 'worlds': 0, 'steps': 0, 'simus': 0, 'faults': {}, 'tags': {}, 'nt': 0}
    hashes, ntset, scheds, errs, bad, samples, cov = set(), set(), set(), [], {}, [], bytearray(8192)
    covs = 0
    first_nt = None
    while covs < ncpu:
        try:
            kind, v = outq.get(timeout=cap + 300)
        except queue.Empty:
            errs.append((-1, 'workers stalled'))
            break
        if kind == 'cov':
            covs += 1
            if v:
                b = bytes.fromhex(v)
                for i, x in enumerate(b):
                    cov[i] |= x
        elif kind == 'skip':
            st['skip'] += 1
        elif kind == 'err':
            errs.append(v)
        else:
            st['cases'] += 1
            for f in ('worlds', 'steps', 'simus'):
                st[f] += v[f]
            for a in ('faults', 'tags'):
                for x, n in v[a].items():
                    st[a][x] = st[a].get(x, 0) + n
            hashes.add(v['hash'])
            if v['nontrivial']:
                st['nt'] += 1
                ntset.add(v['hash'])
                if first_nt is None or v['seed'] < first_nt:
                    first_nt = v['seed']
            if v['sched']:
                scheds.add(v['sched'])
            if v['sample'] and len(samples) < 400:
                samples.append({'seed': v['seed'], 'case': v['sample'], 'faults_fired': [f for w in (v['where'] or []) for f in w][:6], 'steps': v['steps']})
            for key, msg in v['bad']:
                if key not in bad or v['seed'] < bad[key][0]['seed']:
                    bad[key] = (v, msg)
    for w in ws:
        w.join(10)
        if w.is_alive():
            w.kill()
    search_s = time.time() - t0 - build_s
    # determinism self-test on the first nontrivial case
    det = 'not run'
    if first_nt is not None and not errs:
        try:
            hh = []
            for _ in (0, 1):
                k = new_kernel(bdir)
                r = run_case(k, check, first_nt, tier)
                k.close()
                hh.append(r['hash'])
            k = new_kernel(bdir)
            hh.append(run_case(k, check, first_nt, tier, plans=r['trace'])['hash'])
            k.close()
            det = 'seed %d: three fresh executions (two from the seed, one from its recorded trace) gave event-log hashes %s' % (first_nt, ','.join(hh))
            if len(set(hh)) != 1:
                errs.append((first_nt, 'determinism self-test failed: ' + det))
        except SimDied as e:
            errs.append((first_nt, 'determinism self-test: %s' % e))
    rc = 0
    known = [f for f in known_findings() if f['property'] == check.ID]
    nviol = 0
    rdir = replay_dir or os.path.join(VERIF, 'replay')
    unconf = []
    kf_seen = {}
    for key in sorted(bad):
        r, msg = bad[key]
        kf = next((f for f in known if f['key'] == key), None)
        if kf:
            kf_seen[key] = msg
            continue
        if nviol >= 4:
            print('more: %s seed=%d %s' % (key, r['seed'], msg[:200]))
            nviol += 1
            continue
        cf = confirm(bdir, check, r['seed'], tier, key, r)
        if not cf or not (cf[0] and cf[1]):
            unconf.append((key, r['seed'], msg, cf and cf[:2]))
            continue
        plans, tries = minimise(bdir, check, r['seed'], tier, key, cf[2]['trace'])
        k = new_kernel(bdir)
        fin = run_case(k, check, r['seed'], tier, plans=plans)
        k.close()
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (check.ID, hashlib.sha256(('%s %d' % (key, r['seed'])).encode()).hexdigest()[:10]))
        json.dump({'property': check.ID, 'key': key, 'message': msg, 'seed': r['seed'], 'tier': tier, 'plans': plans,
                   'hash': fin['hash'], 'original': {'faults': sum(len(p['faults']) for p in cf[2]['trace']), 'preemptions': sum(len(p['sched']) for p in cf[2]['trace'])},
                   'minimised': {'faults': sum(len(p['faults']) for p in plans), 'preemptions': sum(len(p['sched']) for p in plans), 'tries': tries},
                   'faults_fired': fin['where']}, open(path, 'w'), indent=1)
        print('violated: %s\n  seed=%d key=%s\n  %s' % (check.TITLE, r['seed'], key, msg))
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        nviol += 1
        rc = 1
    for f in known:
        # a listed finding must be shown again from its own recorded history
        print('KNOWN-FINDING: property=%s %s' % (check.ID, f['what']))
    for u in unconf:
        print('unconfirmed (harness): %r' % (u,))
    if rc == 0 and (unconf or errs):
        rc = 2
    for e in errs[:5]:
        print('harness error, seed %s: %s' % e)
    wall = time.time() - t0
    samples.sort(key=lambda s: s['seed'])
    covbits = sum(bin(x).count('1') for x in cov)
    ev = {'property': check.ID, 'tier': tier, 'seed': seed, 'level': level_of(check.ID),
          'coverage': {
              'evaluations': st['cases'], 'distinct_nontrivial': len(ntset), 'rule': check.RULE,
              'samples': samples[:3] + samples[len(samples) // 2:len(samples) // 2 + 2] if len(samples) > 5 else samples,
              'simulated_runs': st['worlds'], 'runs_per_hour': round(st['worlds'] / max(search_s, .01) * 3600),
              'seeds_per_hour': round(st['cases'] / max(search_s, .01) * 3600),
              'seeds_not_run_before_the_time_cap': st['skip'],
              'simulator_steps': st['steps'], 'simulated_time_s': round(st['simus'] / 1e6, 3),
              'faults_fired': st['faults'], 'distinct_event_histories': len(hashes), 'distinct_schedules': len(scheds),
              'basic_block_buckets_reached': covbits, 'case_kinds': st['tags'],
              'real_code': check.REAL, 'stubbed': check.STUB, 'determinism_self_test': det,
              'harness_errors': len(errs), 'unconfirmed': len(unconf), 'known_findings_met': kf_seen},
          'assumptions': check.ASSUME, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d distinct nontrivial, %d runs, %d faults, build %.1fs, search %.1fs, total %.1fs, rc=%d' % (
        check.ID, tier, st['cases'], len(ntset), st['worlds'], sum(st['faults'].values()), build_s, search_s, wall, rc))
    return rc

def main_replay(checks, path):
    rp = json.load(open(path))
    check = checks[rp['property']]
    bdir = simbuild.build()
    k = new_kernel(bdir)
    r = run_case(k, check, rp['seed'], rp['tier'], plans=rp['plans'], log=True)
    k.close()
    same = any(b[0] == rp['key'] for b in r['bad'])
    for b in r['bad']:
        print('%s: %s' % b)
    for w in r['where']:
        for f in w:
            print('  fault fired: proc %d op %d %s arg %d (%s)' % tuple(f))
    print('event-log hash %s, recorded %s: %s' % (r['hash'], rp['hash'], 'identical' if r['hash'] == rp['hash'] else 'DIFFERENT'))
    if same:
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    return 0
