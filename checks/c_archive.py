import struct
from builds import *

# ------------------------------------------- independent readers of ar and ELF
class Malformed(Exception):
    pass

def ar_parse(b, strict=False):
    """(symbol index [(name, member offset)], members [(name, data, offset)])"""
    if b[:8] != b'!<arch>\n':
        raise Malformed('magic')
    pos, idx, longs, mem = 8, [], None, []
    while pos < len(b):
        h = b[pos:pos + 60]
        if len(h) < 60 or h[58:] != b'`\n':
            raise Malformed('header at %d' % pos)
        try:
            size = int(h[48:58].decode().strip())
        except ValueError:
            raise Malformed('size at %d' % pos)
        if size < 0 or pos + 60 + size > len(b):
            raise Malformed('truncated member at %d' % pos)
        d = b[pos + 60:pos + 60 + size]
        if strict:
            for o, l, dig in ((16, 12, b'0123456789'), (28, 6, b'0123456789'), (34, 6, b'0123456789'), (40, 8, b'01234567')):
                f = h[o:o + l].rstrip(b' ')
                if f.strip(dig):
                    raise Malformed('header field %r at %d' % (f, pos))
            if size & 1 and b[pos + 60 + size:pos + 61 + size] not in (b'\n', b'\0'):
                raise Malformed('no padding at %d' % (pos + 60 + size))
        n = h[:16].rstrip(b' ')
        if n == b'/':
            c = struct.unpack('>I', d[:4])[0]
            offs = struct.unpack('>%dI' % c, d[4:4 + 4 * c])
            names = d[4 + 4 * c:].split(b'\0')
            idx = list(zip(names[:c], offs))
        elif n == b'//':
            longs = d
        elif n == b'/SYM64/':
            pass
        else:
            if n[:1] == b'/':
                if longs is None:
                    raise Malformed('long name at %d' % pos)
                try:
                    o = int(n[1:])
                except ValueError:
                    raise Malformed('long name at %d' % pos)
                if not 0 <= o < len(longs):
                    raise Malformed('long name at %d' % pos)
                n = longs[o:].split(b'\n')[0].split(b'\0')[0]
            if n.endswith(b'/'):
                n = n[:-1]
            mem.append((n, d, pos))
        pos += 60 + size + (size & 1)
    return idx, mem

def elf_globals(b):
    shoff, = struct.unpack('<Q', b[40:48])
    es, n = struct.unpack('<HH', b[58:62])
    secs = [struct.unpack('<IIQQQQIIQQ', b[shoff + i * es:shoff + i * es + 64]) for i in range(n)]
    out = []
    for s in secs:
        if s[1] == 2:
            st = secs[s[6]]
            tab = b[st[4]:st[4] + st[5]]
            for o in range(s[4] + 24, s[4] + s[5], 24):
                nm, info, oth, shndx, val, sz = struct.unpack('<IBBHQQ', b[o:o + 24])
                if shndx and info >> 4 in (1, 2) and info & 15 in (0, 1, 2):
                    out.append(tab[nm:tab.index(b'\0', nm)])
    return out

def ar_wrong(b, objs):
    """None, or how archive bytes differ from the wanted [(name, data)]"""
    try:
        idx, mem = ar_parse(b, True)
    except Malformed as e:
        return 'malformed: %s' % e
    if [m[0] for m in mem] != [n.encode() for n, d in objs]:
        return 'members are %r' % [m[0] for m in mem]
    for m, (n, d) in zip(mem, objs):
        if m[1] != d:
            return 'member %s has other contents (%d bytes for %d)' % (n, len(m[1]), len(d))
    want = []
    for m, (n, d) in zip(mem, objs):
        want += [(s, m[2]) for s in elf_globals(d)]
    if sorted(idx) != sorted(want):
        return 'symbol index differs: %r' % sorted(set(idx) ^ set(want))[:4]
    return None

AMIX = [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EACCES'), ('creat', 'ENOSPC'), ('creat', 'EMFILE'), ('close', 'EIO'), ('close', 'ENOSPC'), ('read', 'EIO'), ('read', 'short'), ('read', 'EINTR'),
        ('open', 'EIO'), ('open', 'EMFILE'), ('lseek', 'EIO'), ('unlink', 'EACCES'), ('any', 'intr')]

def member_sources(rng, n):
    src, vals = [], []
    for i in range(n):
        v = rng.randrange(1, 10000)
        k = rng.choice([0, 0, 0, 3, 3, 90, 260, 510] if i == 0 else [0, 0, 2, 5])
        dep = rng.randrange(0, n) if rng.random() < .5 else i
        s = 'static int hidden(int x) { return x + %d; }\nextern int g%d(void);\n' % (v, dep)
        s += 'int v%d = %d; int common%d; const char text%d[] = "member %d";\n' % (i, v, i, i, i)
        s += 'int g%d(void) { return v%d; }\nint f%d(int x) { return hidden(x)%s; }\n' % (i, i, i, ' + g%d()' % dep if dep != i else '')
        s += '__attribute__((weak)) int w%d(void) { return %d; }\n' % (i, i)
        s += ''.join('int pad%d_%d(void){return %d;}\n' % (i, j, j) for j in range(k))
        vals.append((v, dep if dep != i else None))
        src.append(s)
    return src, vals

class C08:
    ID = 'C08'
    TITLE = 'Archives made, listed and extracted by cjit -ar are exact, or it fails visibly'
    BUDGET = {'quick': (9000, 110), 'thorough': (150000, 1300)}
    RULE = 'a case makes, lists, extracts or links an archive of generated objects (name lengths, odd sizes, many symbols) with a damaged object or archive, a fault placed at an operation, fault rules, a full disk or failing allocations; what is left is then listed, extracted and linked on a healthy system; non-trivial when damaged or a fault fired; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over archives, damages and faults; archives and objects are read back by an independent ar and ELF reader. Samples, does not enumerate.'
    def objects(self, ctx, rng):
        n = rng.choice([1, 1, 2, 3, 5])
        src, vals = member_sources(random.Random(rng.randrange(150)), n)   # few, so that objects are cached
        objs, used = [], set()
        for i in range(n):
            d = ref_obj(ctx, {'s.c': src[i]}, 's.c', [])
            if rng.random() < .3:
                d += bytes(rng.randrange(1, 9))
            while True:
                l = rng.choice([1, 4, 8, 12, 13, 14, 15, 20, 60])
                nm = ''.join(rng.choice('abcxyz019_. ') for _ in range(l)).strip(' .-') or 'm'
                nm = ('o' + nm)[:l] + rng.choice(['.o', '.o', '.o', '.obj', ''])
                if '.' not in nm:
                    nm += '.o'
                if nm not in used:
                    break
            used.add(nm)
            objs.append((rng.choice(['', '', 'd/', './', '/w/d/e/']), nm, d))
        return src, vals, objs
    def case(self, ctx):
        rng = ctx.rng
        src, vals, objs = self.objects(ctx, rng)
        want = [(n, d) for _, n, d in objs]
        lib = rng.choice(['lib.a', 'libx.a', 'd/libq.a', '/w/d/abs.a'])
        lp = os.path.normpath(os.path.join('/w', lib))
        paths = [p + n for p, n, d in objs]
        op = rng.choice(['make'] * 6 + ['t', 'x', 'x', 'link'] * 1 + ['bad-t', 'bad-x', 'bad-link'])
        mode = rng.choice(['clean', 'target', 'target', 'target', 'target', 'rules', 'rules', 'quota', 'alloc', 'short'])
        dmg = None
        if op == 'make' and rng.random() < .25:
            mode = 'clean'
            dmg = rng.choice(['missing', 'unreadable', 'directory', 'cut', 'cut', 'cut', 'empty', 'text', 'class', 'shoff', 'secoff', 'strlink', 'stname', 'archive'])
        use = sorted(rng.sample(range(len(objs)), rng.randrange(1, len(objs) + 1)))
        main = '#include <stdio.h>\n' + ''.join('int f%d(int);\n' % i for i in use) + 'int main(void) { int t = 0;\n' + ''.join('t = f%d(t);\n' % i for i in use) + 'printf("total %d\\n", t); return 5; }\n'
        t = 0
        for i in use:
            t = t + vals[i][0] + (vals[vals[i][1]][0] if vals[i][1] is not None else 0)
        prog = Prog()
        prog.out, prog.exit = b'total %d\n' % t, 5
        good = None
        if op != 'make':
            good = ref_ar(ctx, {n: d for n, d in want})
        at = rng.randrange(len(objs))
        def base(w):
            preload_assets(ctx, w)
            w.dir('/w/d/e')
            w.file('/w/main.c', main)
        def setup(w):
            base(w)
            if op == 'make':
                for (p, n, d), q in zip(objs, paths):
                    w.file(os.path.normpath(os.path.join('/w', q)), d)
                if old is not None:
                    w.file(lp, old)
            else:
                w.file(lp, good)
        old = rng.choice([None, None, b'!<arch>\n', b'old', b'x' * 30000]) if op == 'make' else None
        w = ctx.world()
        setup(w)
        what = op
        if dmg:
            ctx.nontrivial = True
            q = os.path.normpath(os.path.join('/w', paths[at])); d = bytearray(objs[at][2])
            shoff, = struct.unpack('<Q', d[40:48])
            if dmg == 'missing':
                w.rm(q)
            elif dmg == 'unreadable':
                w.file(q, bytes(d), 0)
            elif dmg == 'directory':
                w.rm(q); w.dir(q)
            else:
                if dmg == 'cut':
                    # the section table comes last: any cut inside of it or before loses sections
                    d = d[:rng.choice([rng.randrange(0, 64), rng.randrange(0, shoff + 64), rng.randrange(shoff, shoff + 64)])]
                elif dmg == 'empty':
                    d = b''
                elif dmg == 'text':
                    d = b'int main(){}\n'
                elif dmg == 'class':
                    d[rng.choice([0, 1, 3, 4])] ^= 3
                elif dmg == 'shoff':
                    d[40:48] = struct.pack('<Q', rng.choice([len(d), len(d) + 1, 1 << 40, (1 << 64) - 64, len(d) - 10]))
                elif dmg == 'archive':
                    d = b'!<arch>\n'
                else:
                    es, n = struct.unpack('<HH', d[58:62])
                    for i in range(n):
                        o = shoff + i * es
                        ty, = struct.unpack('<I', d[o + 4:o + 8])
                        if ty == 2:
                            if dmg == 'secoff':
                                d[o + 24:o + 32] = struct.pack('<Q', rng.choice([len(d) - 8, 1 << 33, (1 << 64) - 8]))
                            elif dmg == 'strlink':
                                d[o + 40:o + 44] = struct.pack('<I', rng.choice([n, 200, 1 << 31]))
                            else:
                                so, sz = struct.unpack('<QQ', d[o + 24:o + 40])
                                for k in range(so + 24, so + sz, 24):
                                    if d[k + 4] >> 4:
                                        d[k:k + 4] = struct.pack('<I', rng.choice([1 << 20, 0x7fffffff, 0xffffffff]))
                w.file(q, bytes(d))
            what = 'make, object %s' % dmg
        bad_list = 'ok'
        if op.startswith('bad'):
            ctx.nontrivial = True
            mode = 'clean'
            b = bytearray(good)
            how = rng.choice(['cut', 'cut', 'cut', 'fmag', 'size', 'magic', 'long', 'sizejunk'])
            if how == 'cut':
                b = b[:rng.randrange(0, len(b))]
            elif how == 'magic':
                b[rng.randrange(8)] ^= 1
            else:
                idx, mem = ar_parse(good)
                o = rng.choice(mem)[2]
                if how == 'fmag':
                    b[o + 58 + rng.randrange(2)] ^= 1
                elif how == 'size':
                    b[o + 48:o + 58] = b'%-10d' % rng.choice([len(b), 999999999, -1, -60, 2147483647])
                elif how == 'sizejunk':
                    b[o + 48:o + 58] = rng.choice([b'abc       ', b'          '])
                elif how == 'long':
                    b[o:o + 16] = b'%-16s' % (b'/%d' % rng.choice([99999, 5000, -3]))
            w.file(lp, bytes(b))
            try:
                bad_list = [m for m in ar_parse(bytes(b))[1]]
            except Malformed as e:
                bad_list = None
            what = '%s (%s)' % (op, how)
        kind = op.replace('bad-', '')
        opts = rng.choice(['rcs', 'rcs', 'rcs', 'cr', '-rcs', 'rcsv', 'crs'])
        argv = {'make': ['cjit', '-ar', opts, lib] + paths, 't': ['cjit', '-ar', 't', lib], 'x': ['cjit', '-ar', 'x', lib],
                'link': ['cjit', '-q', 'main.c', lib]}[kind]
        par = {'garbage': rng.randrange(1, 99)}
        if rng.random() < .3:
            par['guard'] = 1
        if kind != 'link':
            par['memlimit'] = 200 << 20
        if mode == 'alloc':
            par[rng.choice(['allocfail', 'allocfailafter'])] = rng.randrange(1, 40)
        idx = w.launch(argv, **par)
        if mode == 'target':
            key = hashlib.sha256(repr((argv, want, good, old)).encode()).hexdigest()
            target_fault(ctx, w, idx, oplist(ctx, key, setup, lambda v: v.launch(argv)), pred=lambda o: not o[2].startswith('/tmp'))
        elif mode == 'rules':
            add_rules(ctx, w, idx, AMIX, prefix='/w/', scale=8)
        elif mode == 'quota':
            tot = 2 * sum(len(d) for n, d in want)
            w.set('quota', rng.choice([0, 1, rng.randrange(0, tot + 600), rng.randrange(0, tot + 600)]))
        elif mode == 'short':
            w.rule(rng.choice(['read', 'write']), 'short', rng.choice([100000, 600000]), -1, idx, '/w/')
        r = w.run()
        ctx.tag('%s %s' % (what, mode))
        d0 = '%s, %s: %r' % (what, mode, argv[1:6])
        if diseased(ctx, r, d0):
            return
        p = parent(r, 1)
        def files(sub='/w'):
            return {q: v for q, v in w.tree(sub).items()}
        d = '%s: exit %s sig %s, out %r, stderr %r' % (d0, p['exit'], p['sig'], p['out'][:80], p['err'][-250:])
        if p['exit'] not in (0, None) and not p['err'].strip():
            ctx.fail('silent', d); return
        unl = any(f[4].startswith('UNLINK') for f in r['faults'])
        if kind == 'make':
            have = w.read(lp)
            if p['exit'] == 0:
                bad = ar_wrong(have, want) if have is not None else 'missing'
                if dmg:
                    ctx.fail('made-from-damaged', d)
                elif bad:
                    ctx.fail('bad-archive', d + ': archive ' + bad)
            else:
                if mode in ('clean', 'short') and not dmg and p['sig'] is None:
                    ctx.fail('failed', d)
            if w.tree('/w').get(lp + '.tmp') and p['sig'] is None and not unl and mode != 'alloc':
                ctx.fail('temp-left', d + ': temporary file left')
            if ctx.bad:
                return
            ctx.tag('-> made' if p['exit'] == 0 else '-> not made')
            w.clear()
            # what is left, seen by later commands on a healthy system
            later = rng.choice(['t', 'x', 'link'])
            w.launch({'t': ['cjit', '-ar', 't', lib], 'x': ['cjit', '-ar', rng.choice(['x', 'xv']), lib], 'link': ['cjit', '-q', 'main.c', lib]}[later], cwd='/w/d/e' if later == 'x' and lib[0] == '/' else '/w')
            if later == 'x':
                for q in paths:
                    w.rm(os.path.normpath(os.path.join('/w', q)))
            r = w.run()
            p2 = parent(r, 2)
            d = '%s then %s: exit %s, out %r, stderr %r' % (d0, later, p2['exit'], p2['out'][:200], p2['err'][-250:])
            if diseased(ctx, r, d):
                return
            if p['exit'] == 0:
                if later == 'link':
                    check_run(ctx, w, r, 2, prog, d0 + ' then link', faulty=False)
                elif p2['exit'] != 0:
                    ctx.fail('unusable', d)
                else:
                    self.judge(ctx, w, later, p2, want, d, '/w/d/e' if later == 'x' and lib[0] == '/' else '/w')
            elif p['sig'] is None and not unl and have is not None and have != old:
                if mode != 'alloc' and ar_wrong(have, want):
                    ctx.fail('partial-left', d0 + ': a partial archive is left: ' + ar_wrong(have, want))
                if later != 'link' and p2['exit'] == 0 and ar_wrong(have, want):
                    ctx.fail("partial-accepted", d)
            return
        if p['sig'] is not None:
            return
        ctx.tag('-> exit 0' if p['exit'] == 0 else '-> nonzero')
        if kind == 'link':
            if op == 'bad-link':
                if p['exit'] == prog.exit and bad_list is None:
                    # only what the index leads to need be sound
                    pass
                elif p['exit'] == 0 or (p['out'] and p['out'] != prog.out):
                    ctx.fail('wrong-program', d)
                return
            check_run(ctx, w, r, 1, prog, d0, faulty=mode not in ('clean', 'short'))
            return
        if p['exit'] == 0:
            if bad_list is None:
                ctx.fail('malformed-accepted', d); return
            l = want if bad_list == 'ok' else [(m[0].decode('latin-1'), m[1]) for m in bad_list]
            self.judge(ctx, w, kind, p, l, d, '/w')
        elif mode in ('clean', 'short') and bad_list == 'ok':
            ctx.fail('failed', d)
        if rng.random() < .01:
            ctx.sample = {'op': what, 'mode': mode, 'argv': argv[:8], 'exit': p['exit']}
    def judge(self, ctx, w, kind, p, want, d, cwd):
        if kind == 't':
            if p['out'].split(b'\n') != [n.encode('latin-1') for n, _ in want] + [b'']:
                ctx.fail('wrong-list', d)
        else:
            for n, b in dict(want).items():
                if w.read(cwd + '/' + n) != b:
                    ctx.fail('wrong-extract', '%s: %s differs' % (d, n)); return

CHECKS = [C08()]
