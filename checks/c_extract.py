import hashlib, struct, zlib
from common import *

# ------------------------------------------------------------ archives
def ustar(name, data=b'', typ=b'0', mode=0o644, size=None, prefix=b'', link=b'', magic=b'ustar\0', version=b'00', sizef=None, bad=None, chkfmt='%06o\0 '):
    """One tar entry, made here field by field."""
    n = len(data) if size is None else size
    h = bytearray(512)
    def put(o, b):
        h[o:o + len(b)] = b
    put(0, name); put(100, b'%07o\0' % mode); put(108, b'0001750\0'); put(116, b'0001750\0')
    put(124, sizef if sizef is not None else b'%011o\0' % n)
    put(136, b'14371234567\0'); put(156, typ); put(157, link); put(257, magic); put(263, version)
    put(265, b'user'); put(297, b'group'); put(329, b'0000000\0'); put(337, b'0000000\0'); put(345, prefix)
    h[148:156] = b' ' * 8
    put(148, (chkfmt % sum(h)).encode())
    if bad is not None:
        h[bad[0]] ^= bad[1]
    return bytes(h) + data + b'\0' * (-len(data) % 512)

def gz(rng, raw):
    lvl = rng.randrange(0, 10)
    strat = rng.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_HUFFMAN_ONLY, zlib.Z_FIXED, zlib.Z_RLE, zlib.Z_FILTERED])
    c = zlib.compressobj(lvl, zlib.DEFLATED, -rng.choice([9, 12, 15]), rng.choice([1, 8, 9]), strat)
    body = b''
    step = rng.choice([len(raw) + 1, 700, 5000])
    for i in range(0, len(raw), step):
        body += c.compress(raw[i:i + step])
        if step < len(raw) and rng.random() < .2:
            body += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH]))
    body += c.flush()
    flg, extra = 0, b''
    if rng.random() < .3:
        flg |= 4; extra += struct.pack('<H', 5) + b'abcde'
    if rng.random() < .5:
        flg |= 8; extra += b'archive.tar\0'
    if rng.random() < .3:
        flg |= 16; extra += b'a comment\0'
    head = b'\x1f\x8b\x08' + bytes([flg]) + struct.pack('<I', rng.randrange(1 << 32)) + bytes([rng.choice([0, 2, 4]), 3]) + extra
    if rng.random() < .2:
        head = head[:3] + bytes([flg | 2]) + head[4:]
        head += struct.pack('<H', zlib.crc32(head) & 0xffff)
    return head + body + struct.pack('<II', zlib.crc32(raw), len(raw) & 0xffffffff), len(head)

def blob(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes(rng.getrandbits(8) for _ in range(min(n, 3000))) * (n // 3000 + 1) if n > 3000 else bytes(rng.getrandbits(8) for _ in range(n))
    if k == 1:
        return (b'int line_%d(void) { return 0; }\n' % rng.randrange(99) * (n // 20 + 1))[:n]
    if k == 2:
        return b'\0' * n
    return bytes((i * 7 + (i >> 8)) & 255 for i in range(n))

def long_name(rng, n, used):
    while True:
        s = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_-. ') for _ in range(n))
        s = 'n' + s[1:-1] + 'e' if n > 2 else 'q%d' % rng.randrange(1000)
        if s not in used:
            used.add(s)
            return s

class Arch:
    pass

def gen_archive(rng):
    """entries in order and the tree {path: bytes or None} they denote."""
    a = Arch()
    a.tree, a.ents, used, dirs = {}, [], set(), ['']
    for _ in range(rng.choice([1, 2, 4, 7, 12])):
        kind = rng.choice(['file'] * 4 + ['dir', 'deep', 'long', 'prefix', 'again', 'abs', 'old'])
        d = rng.choice(dirs)
        size = rng.choice([0, 1, 100, 511, 512, 513, 1024, rng.randrange(0, 5000), rng.randrange(0, 70000)])
        data = blob(rng, size)[:size]
        name, prefix, typ = d + long_name(rng, rng.choice([3, 8, 20]), used), '', b'0'
        if kind == 'dir':
            if rng.random() < .5 or len(name) > 90:
                name = d + 'dir%d' % len(a.ents)
            a.tree[name] = None
            dirs.append(name + '/')
            a.ents.append(ustar((name + rng.choice(['/', '/', ''])).encode(), typ=b'5', mode=rng.choice([0o755, 0o700, 0o500])))
            continue
        if kind == 'deep':
            name = d + 'p%d/q/r/' % len(a.ents) + 'f'
        elif kind == 'long':
            name = long_name(rng, rng.choice([98, 99, 100]), used)
        elif kind == 'prefix':
            prefix = long_name(rng, rng.choice([5, 60, 77]), used) + '/' + long_name(rng, rng.choice([5, 60, 77]), used)
            name = long_name(rng, rng.choice([5, 60, 100]), used)
        elif kind == 'abs':
            name = '/rooted%d' % len(a.ents) if rng.random() < .5 else './dotted%d' % len(a.ents)
        elif kind == 'old':
            typ = b'\0'
        elif kind == 'again' and [p for p in a.tree if a.tree[p] is not None and len(p) <= 100]:
            name = rng.choice([p for p in a.tree if a.tree[p] is not None and len(p) <= 100])
        if len(name) > 100:
            name = name[-90:].lstrip('/')
            if '/' in name:
                name = name.replace('/', '_')
        a.ents.append(ustar(name.encode(), data, typ=typ, prefix=prefix.encode(), mode=rng.choice([0o644, 0o755, 0o600, 0o444]),
                            chkfmt=rng.choice(['%06o\0 ', '%06o\0 ', '%07o\0']), sizef=rng.choice([None, None, b'%011o ' % len(data)])))
        full = os.path.normpath(((prefix + '/' if prefix else '') + name).lstrip('/'))
        parts = full.split('/')
        for i in range(1, len(parts)):
            a.tree.setdefault('/'.join(parts[:i]), None)
        a.tree[full] = data
    if rng.random() < .2:
        g = b'52 comment=%s\n' % (b'c' * 40)
        a.ents.insert(0, ustar(b'pax_global_header', g, typ=b'g'))
    a.end = b'\0' * rng.choice([1024, 1024, 512, 10240])
    return a

def tardamage(rng, a):
    """Damages one entry before compression; exit 0 is then wrong in any case."""
    i = rng.randrange(len(a.ents))
    e = bytearray(a.ents[i])
    how = rng.choice(['flip', 'flip', 'chk0', 'trunc', 'trunchdr', 'cutpad', 'cut', 'cut', 'symlink', 'hardlink', 'fifo', 'paxx', 'gnulong', 'magic', 'toobig', 'base256', 'dotdot', 'badsize'])
    d = blob(rng, rng.choice([3, 200, 900]))
    if how == 'flip':
        e[rng.choice([rng.randrange(0, 6), rng.randrange(124, 135), rng.randrange(257, 262), rng.randrange(148, 154)])] ^= 1 << rng.randrange(3)
    elif how == 'chk0':
        e[148] = 0
    elif how == 'trunc':
        big = ustar(b'cut', blob(rng, 3000))
        a.ents = a.ents[:i] + [big[:512 + rng.randrange(1, 2900)]]
        a.end = b''
        return how
    elif how == 'cutpad':     # behind the data of the last entry, inside its padding
        n = rng.randrange(1, 512)
        a.ents.append(ustar(b'cut', blob(rng, n)[:n])[:512 + rng.randrange(n, 512)])
        a.end = b''
        return how
    elif how == 'cut':        # anywhere before the end of the record of null bytes
        raw = b''.join(a.ents)
        ends = [sum(map(len, a.ents[:k])) for k in range(1, len(a.ents) + 1)]
        raw += b'\0' * 511
        n = rng.choice([rng.randrange(0, len(raw) + 1), max(0, rng.choice(ends) + rng.choice([-513, -512, -511, -1, 0, 1, 511, 512])), len(raw) - rng.randrange(0, 512)])
        n = min(n, len(raw))
        if n in ends:         # like tar, cjit does without the record at the end
            n -= 1
        a.ents, a.end = [raw[:n]], b''
        return how
    elif how == 'trunchdr':
        a.ents = a.ents[:i + 1] + [ustar(b'cut', d)[:rng.randrange(1, 511)]]
        a.end = b''
        return how
    elif how == 'toobig':
        a.ents = a.ents[:i] + [ustar(b'huge', d, size=rng.choice([1 << 33 - 1, 1 << 20, len(d) + 20000]))]
        return how
    else:
        x = {'symlink': lambda: ustar(b'sym', typ=b'2', link=b'target'), 'hardlink': lambda: ustar(b'hard', typ=b'1', link=b'target'), 'fifo': lambda: ustar(b'pipe', typ=b'6'),
             'paxx': lambda: ustar(b'PaxHeaders/x', b'30 path=another/name-for-file\n', typ=b'x') + ustar(b'px', d), 'gnulong': lambda: ustar(b'././@LongLink', b'L' * 150 + b'\0', typ=b'L') + ustar(b'L' * 100, d),
             'magic': lambda: ustar(b'gnu', d, magic=b'ustar ', version=b' \0'), 'base256': lambda: ustar(b'b256', d, sizef=b'\x80' + b'\0' * 7 + struct.pack('>I', len(d))),
             'dotdot': lambda: ustar(rng.choice([b'../escape', b'a/../../escape', b'..', b'x/..']), d, typ=rng.choice([b'0', b'5'])) if True else None,
             'badsize': lambda: ustar(b'bs', d, sizef=rng.choice([b'\0' * 12, b'00000x00005\0', b'-0000000005\0']))}[how]()
        a.ents.insert(rng.randrange(len(a.ents) + 1), x)
        return how
    a.ents[i] = bytes(e)
    return how

XMIX = [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'short'), ('write', 'EINTR'), ('creat', 'EACCES'), ('creat', 'ENOSPC'), ('creat', 'EMFILE'), ('mkdir', 'ENOSPC'), ('mkdir', 'EACCES'), ('close', 'EIO'), ('close', 'ENOSPC'),
        ('read', 'EIO'), ('read', 'short'), ('read', 'EINTR'), ('open', 'EIO'), ('open', 'EMFILE'), ('lseek', 'EIO'), ('fstat', 'EIO'), ('stat', 'EIO')]

def tree_wrong(w, want, base='/w'):
    have = w.tree(base)
    for p, d in want.items():
        v = have.get(base + '/' + p)
        if v is None:
            return '%r is missing' % p[:60]
        if (v[0] == 'd') != (d is None):
            return '%r has the wrong type' % p[:60]
        if d is not None and bytes.fromhex(v[2]) != d:
            return '%r has %d bytes, not the %d archived, or differs' % (p[:60], len(v[2]) // 2, len(d))
    return None

class C07:
    ID = 'C07'
    TITLE = '--xtgz extracts every file exactly, or fails visibly'
    BUDGET = {'quick': (16000, 90), 'thorough': (250000, 1300)}
    RULE = 'a case is one cjit --xtgz of a generated archive (entry kinds, name lengths, prefixes, compression strategies, gzip header fields), intact or damaged in the tar or the gzip layer, over an empty or used directory, with faults placed at operations, fault rules, a full disk or failing allocations and guarded heap blocks; non-trivial when damaged or a fault fired; distinct by event-log hash and archive'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over archives, damages and faults; archives and their expected trees are made independently of cjit, field by field. Out-of-bounds accesses are seen through guarded heap blocks only. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        a = gen_archive(rng)
        mode = rng.choice(['clean', 'tar', 'tar', 'tar', 'gz', 'gz', 'target', 'target', 'target', 'target', 'rules', 'rules', 'quota', 'alloc', 'noarch', 'short'])
        must = False
        how = ''
        if mode == 'tar':
            how = tardamage(rng, a)
            must = True
        raw = b''.join(a.ents) + a.end
        z, hl = gz(rng, raw)
        if mode == 'gz':
            how = rng.choice(['cut', 'cut', 'flip', 'flip', 'flip', 'tail', 'isize', 'crc', 'method', 'empty', 'head', 'double'])
            b = bytearray(z)
            if how == 'cut':
                b = b[:rng.choice([rng.randrange(0, len(b)), len(b) - 1, len(b) - rng.randrange(1, 9)])]
            elif how == 'flip':
                b[rng.randrange(hl, len(b))] ^= 1 << rng.randrange(8)
            elif how == 'tail':
                b += bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 40)))
            elif how == 'isize':
                b[-4:] = struct.pack('<I', rng.choice([0, 1, len(raw) - 1, len(raw) + 1, len(raw) - 512, max(0, len(raw) - 1024), 0xffffffff, 0x7fffffff]))
            elif how == 'crc':
                b[-8] ^= 255
            elif how == 'method':
                b[rng.choice([0, 1, 2])] ^= 3
            elif how == 'empty':
                b = b''
            elif how == 'head':
                b[3] |= rng.choice([0x20, 0x40, 0x80])
            elif how == 'double':
                a2 = ustar(b'second', b'second')
                b += gzip.compress(a2 + bytes(1024))
            z = bytes(b)
        arch = rng.choice(['a.tar.gz', 'a.tgz', '/w/in/x.tar.gz', './z', '../w/in/up.tgz'])
        ap = os.path.normpath(os.path.join('/w', arch))
        if any(t.split('/')[0] == ap.split('/')[2] for t in a.tree):
            return
        old = {}
        for p, d in a.tree.items():
            if d is not None and rng.random() < .15:
                old[p] = rng.choice([b'', b'old', blob(rng, len(d) + 700)])
        block = rng.choice([None] * 8 + ['filedir', 'dirfile', 'rodir'])
        def setup(w):
            w.dir('/w/in')
            if mode != 'noarch':
                w.file(ap, z, 0 if mode == 'noread' else 0o644)
            elif rng.random() < .5:
                w.dir(ap)
            for p, d in old.items():
                w.file('/w/' + p, d)
            w.file('/w/bystander', b'stays')
            if block == 'filedir' and any(v is None for v in a.tree.values()):
                p = next(p for p in a.tree if a.tree[p] is None)
                if not [q for q in old if q.startswith(p + '/')]:
                    w.file('/w/' + p, b'in the way')
            elif block == 'dirfile' and any(v is not None for v in a.tree.values()):
                w.rm('/w/' + next(p for p in a.tree if a.tree[p] is not None))
                w.dir('/w/' + next(p for p in a.tree if a.tree[p] is not None))
        w = ctx.world()
        setup(w)
        before = {p: v for p, v in w.tree('/').items() if not p.startswith('//w')}
        argv = ['cjit', '--xtgz', arch] if rng.random() < .8 else ['cjit', '-q', '--xtgz=' + arch]
        par = {'garbage': rng.randrange(1, 99), 'memlimit': 200 << 20}
        if rng.random() < .6:
            par['guard'] = 1
        if mode == 'alloc':
            par[rng.choice(['allocfail', 'allocfail', 'allocfailafter'])] = rng.randrange(1, 60)
        idx = w.launch(argv, **par)
        if mode == 'target':
            key = hashlib.sha256(repr((argv, z, sorted(old.items()), block)).encode()).hexdigest()
            target_fault(ctx, w, idx, oplist(ctx, key, setup, lambda v: v.launch(argv)))
        elif mode == 'rules':
            add_rules(ctx, w, idx, XMIX, prefix='!std:', scale=8)
        elif mode == 'quota':
            tot = sum(len(d) for d in a.tree.values() if d)
            w.set('quota', rng.choice([0, 1, rng.randrange(0, tot + 1), max(0, tot - 1), tot]))
        elif mode == 'short':
            w.rule(rng.choice(['read', 'write']), 'short', rng.choice([100000, 600000]), -1, idx)
        r = w.run()
        ctx.tag(mode + (' ' + how if how else '') + (' over ' + block if block else ''))
        if mode in ('tar', 'gz', 'noarch'):
            ctx.nontrivial = True
        d0 = '%s %s %s' % (mode, how, argv[-1])
        if diseased(ctx, r, d0):
            return
        p = parent(r, 1)
        bad = tree_wrong(w, a.tree)
        d = '%s: exit %s, tree: %s, stderr %r' % (d0, p['exit'], bad or 'exact', p['err'][-250:])
        if p['exit'] == 0:
            if must:
                ctx.fail('success-on-damage', d)
            elif bad:
                ctx.fail('success-without-files', d)
            elif how == 'double' and w.read('/w/second') != b'second':
                ctx.fail('success-without-files', d + ' (second gzip member)')
            ctx.tag('-> exit 0')
        else:
            if mode in ('clean', 'short') and not block:
                ctx.fail('failed', d)
            if not p['err'].strip():
                ctx.fail('silent', d)
            ctx.tag('-> nonzero')
        after = {p: v for p, v in w.tree('/').items() if not p.startswith('//w')}
        if after != before or w.read('/w/bystander') != b'stays':
            ctx.fail('outside', d0 + ': files elsewhere changed: %r' % sorted(set(after) ^ set(before))[:3])
        if rng.random() < .004:
            ctx.sample = {'mode': mode, 'damage': how, 'argv': argv, 'entries': len(a.ents), 'exit': p['exit']}

class C09:
    ID = 'C09'
    TITLE = '--xass=PATH extracts a complete asset tree, or fails visibly'
    BUDGET = {'quick': (5000, 90), 'thorough': (80000, 1300)}
    RULE = 'a case is one cjit --xass or --xass=PATH over path shapes and earlier contents (none, partial, stale, foreign, in the way) with a fault placed at an operation, fault rules, a full disk, a kill or failing allocations, then the same command on a healthy system; non-trivial when a fault fired or the path cannot be used; distinct by event-log hash'
    REAL, STUB, ASSUME = REAL, STUB, ASSUME
    NOTE = 'Seeded search over paths, histories and faults; the expected tree is decoded independently from the embedded archives. Samples, does not enumerate.'
    def case(self, ctx):
        rng = ctx.rng
        assets = expected_assets(ctx.k)
        arg = rng.choice([None, None, 'x', './x', 'x/', 'a/b', 'a//b/./c', '/w/abs', '../w/up', 'a/../y', '.', '/w', 'sp ace', 'x.y-z', 'link', 'in/the/way', 'file', 'missing/sub', '/tmp/elsewhere', 'ro/x'] + ['long'] * 4)
        kind = arg
        if arg == 'long':
            # the parents exist, their names are long and reached in roundabout ways
            arg = rng.choice(['', '/w/', './'])
            size = rng.choice([240, 250, 255, 258, 259, 260, 261, 300, 500, 512, 520, 900, rng.randrange(100, 900), 1000, 1010, 1020, 1024, 1100, 2000, 4000])
            while len(arg) < size:
                n = min(rng.choice([1, 9, 40, 200, 254, 255]), max(1, size - len(arg)))
                arg += 'n' * n + rng.choice(['/'] * 9 + ['//', '/./', '/../' + 'n' * n + '/'])
            arg = arg.rstrip('/')
            arg = arg[:-2] if arg.endswith('/.') else arg
        shown = '/tmp/cjit-' if arg is None else os.path.normpath(arg)
        path = os.path.normpath(os.path.join('/w', shown))
        unfit = len(path) > 900 or arg is not None and len(arg) > 4000 # may be refused
        hopeless = arg in ('file', 'missing/sub', 'in/the/way', 'ro/x')
        hist = rng.choice(['none', 'none', 'partial', 'stale', 'complete', 'foreign', 'marked', 'emptymark'])
        def setup(w):
            w.dir('/w/a'); w.dir('/w/a/b' if arg and arg.startswith('a//') else '/w/a')
            w.file('/w/file', b'a file'); w.dir('/w/in'); w.file('/w/in/the', b'a file'); w.dir('/w/ro', 0o555)
            if kind == 'long':
                ps = path.split('/')
                for i in range(2, len(ps)):
                    w.dir('/'.join(ps[:i]))
            if arg == 'link':
                w.dir('/w/real'); w.symlink('/w/link', 'real')
            if hist != 'none' and not hopeless:
                hp = '/w/real' if arg == 'link' else path
                w.dir(hp)
                hr = random.Random('%d/h' % ctx.seed)
                keep = [q for q in assets if hist in ('complete', 'marked') or hr.random() < .5]
                for q in keep:
                    ps = q.split('/')
                    for i in range(1, len(ps)):
                        w.dir(hp + '/' + '/'.join(ps[:i]))
                    d = assets[q]
                    if d is None:
                        w.dir(hp + '/' + q)
                    elif hist in ('complete', 'marked') or hr.random() < .3:
                        if hist == 'marked' and hr.random() < .2 and arg is not None:
                            d = d[:-1]
                        w.file(hp + '/' + q, d)
                    else:
                        w.file(hp + '/' + q, hr.choice([b'', d[:len(d) // 2], b'x' + d[1:], d + b'\nmore', d[:512]]))
                if hist in ('marked',) or (hist == 'complete' and arg is None):
                    w.file(hp + '/.complete', b'1')
                elif hist == 'emptymark':
                    w.file(hp + '/.complete', b'')
        argv = ['cjit'] + rng.choice([[], ['-q'], ['-v']]) + ['--xass' + ('=' + arg if arg is not None else '')]
        mode = rng.choice(['clean', 'target', 'target', 'target', 'kill', 'rules', 'quota', 'alloc', 'stdout', 'short'])
        w = ctx.world()
        setup(w)
        w.file('/w/z.c', 'int main(){return 0;}\n')
        par = {'garbage': rng.randrange(1, 99)}
        if mode == 'alloc':
            par[rng.choice(['allocfail', 'allocfailafter'])] = rng.randrange(1, 70)
        idx = w.launch(argv, **par)
        if mode in ('target', 'kill'):
            key = hashlib.sha256(repr((argv, hist, ctx.seed if hist in ('partial', 'stale', 'foreign', 'marked', 'emptymark') else 0)).encode()).hexdigest()
            target_fault(ctx, w, idx, oplist(ctx, key, setup, lambda v: v.launch(argv)), kill=mode == 'kill')
        elif mode == 'rules':
            add_rules(ctx, w, idx, XMIX, prefix='!std:', scale=4)
        elif mode == 'quota':
            w.set('quota', rng.choice([0, 1, 500, rng.randrange(0, 90000), rng.randrange(0, 90000)]))
        elif mode == 'stdout':
            w.rule('write', rng.choice(['EIO', 'ENOSPC', 'short', 'EINTR']), 1000000, rng.choice([1, 1, -1]), idx, 'std:out', 3)
        elif mode == 'short':
            w.rule('write', 'short', 300000, -1, idx)
        r = w.run()
        ctx.tag('%s %s' % (mode, hist)); ctx.tag('path ' + str(kind))
        if hopeless:
            ctx.nontrivial = True
        d0 = '%s over %s: %r' % (mode, hist, argv)
        if diseased(ctx, r, d0):
            return
        def judge(p, must, what):
            bad = assets_wrong(ctx, w, path if arg != 'link' else '/w/real')
            d = '%s %s: exit %s, out %r, tree %s, stderr %r' % (d0, what, p['exit'], p['out'], bad or 'exact', p['err'][-250:])
            if p['sig'] is not None:
                return
            if p['exit'] == 0:
                if hopeless:
                    ctx.fail('success-impossible', d)
                elif bad:
                    ctx.fail('success-without-tree', d)
                elif p['out'] not in (shown.encode() + b'\n', os.path.join('/w', shown).encode() + b'\n', path.encode() + b'\n'):
                    ctx.fail('path-not-printed', d)
                ctx.tag('-> exit 0')
            else:
                if must and not hopeless and not unfit:
                    ctx.fail('failed', d)
                elif not p['err'].strip() and not w.last.get('x') and mode != 'stdout':
                    ctx.fail('silent', d)
                ctx.tag('-> nonzero')
        judge(parent(r, 1), mode == 'clean', 'first')
        if ctx.bad:
            return
        w.clear()
        w.launch(argv, garbage=rng.randrange(1, 99))
        r = w.run()
        if diseased(ctx, r, d0 + ' again'):
            return
        judge(parent(r, 2), True, 'again')
        if not ctx.bad and arg is None and rng.random() < .3:
            w.launch(['cjit', '-q', 'z.c'])
            r = w.run()
            if parent(r, 3)['exit'] != 0:
                ctx.fail('unusable', '%s: a program does not run afterwards: %r' % (d0, parent(r, 3)['err'][-200:]))
        if rng.random() < .01:
            ctx.sample = {'mode': mode, 'history': hist, 'argv': argv}

CHECKS = [C07(), C09()]
