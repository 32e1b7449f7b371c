"""C08: generated table sources, compiled by bsdconv-mktable, behave as a plain longest-match reading of them."""
import shutil
import random
import os, subprocess
from ..core import Part, Violation
from ..client import Req, asan_env
from .. import tables, util

PROPERTY = 'C08'
RULE = 'non-trivial: the table has at least 3 entries of which two share a prefix (or a wildcard or letter-case entry), and an entry matched in at least one input'
ASSUMPTIONS = ['lines shorter than 1000 characters ending in a newline, an entry has a sequence, a separator and a possibly empty result', 'entries with callbacks belong to codecs with code and are out of scope',
               'cells are not empty']
KIND = {'from': '%s:PASS', 'inter': 'PASS:%s:PASS', 'to': 'PASS:%s'}
ALPHA = [0x41, 0x61, 0x42, 0x62, 0x5a, 0x7a, 0x00, 0xff, 0x80, 0x01, 0x40, 0x5b, 0x30]


def gen_key(s, keys, kind, al):
    """a token list; the wildcard is -1, the separator 256"""
    def tok(q):
        m = q.n(99)
        if m < 12:
            return tables.ANYTOK
        if kind != 'from' and m < 30:
            return tables.SEP
        return q.pick(al)
    if keys and s.chance(60):
        k = list(s.pick(keys))
        m = s.n(4)
        if m == 0:
            k = k + [tok(s) for _ in range(1 + s.n(2))]
        elif m == 1:
            k = k[:1 + s.n(len(k) - 1)]
        elif m == 2:
            k[s.n(len(k) - 1)] = tok(s)
        elif m == 3:
            k[s.n(len(k) - 1)] = tables.ANYTOK
    else:
        k = s.list(tok, 5, 1)
    if kind != 'from':
        # no empty cells
        out = []
        for t in k:
            if t == tables.SEP and (not out or out[-1] == tables.SEP):
                t = al[0]
            out.append(t)
        if out[-1] == tables.SEP:
            out[-1] = al[0]
        k = out
    # a wildcard stands for 257 values: more than two together take long to compile
    w = [i for i, t in enumerate(k) if t == tables.ANYTOK]
    for i in w[2:]:
        k[i] = al[0]
    return k[:7]


def gen(s, env):
    kind = s.pick(['from', 'inter', 'to'])
    long = s.chance(12)
    al = [s.pick(ALPHA) for _ in range(2 + s.n(3))]
    keys, lines = [], []
    wild = 0
    for _ in range(1 + s.n(11)):
        if s.chance(12):
            lines.append('#' + s.pick(['', ' comment', '4141 4242', '!']) * (1 if not long else 1 + s.n(90)))
            continue
        k = gen_key(s, keys, kind, al)
        w = sum(t == tables.ANYTOK for t in k)
        if wild + (w == 2) > 2:
            k = [al[0] if t == tables.ANYTOK else t for t in k]
        else:
            wild += w == 2
        keys.append(k)
        ci = s.chance(20)
        val = s.list(lambda q: bytes([q.pick([1, 0x41, 0x61, 0, 0xff, q.n(255)]) for _ in range(1 + q.n(2))]), 3)
        if long and s.chance(40):
            m = s.n(2)
            if m == 0:
                k = [t for t in k if t not in (tables.ANYTOK, tables.SEP)] or [al[0]]
                k = (k * 60)[:40 + s.n(300)]
                keys[-1] = k
                ci = False    # two to the power of the letters
            elif m == 1:
                val = [bytes([(i + j) & 255 for j in range(1 + s.n(60))]) for i in range(1 + s.n(7))]
            else:
                val = (val + [b'\1A'])[:1] * (20 + s.n(140))
        up = s.n(1)
        f = ('%02X' if up else '%02x')
        l = '!' if ci else ''
        l += ''.join('*' if t == tables.ANYTOK else ',' if t == tables.SEP else f % t for t in k)
        l += s.pick(['\t', ' ', '\t\t', ' \t '])
        l += ','.join(''.join(f % b for b in c) for c in val)
        l += s.pick(['', '', ' # note', '\t#', '#x', '\r'])
        if len(l) > 990:
            keys.pop()
            continue
        lines.append(l)

    def one(q):
        if keys and q.chance(70):
            k = list(q.pick(keys))
            if q.chance(30):
                k = k[:1 + q.n(len(k) - 1)]
            if q.chance(20):
                k[q.n(len(k) - 1)] = q.pick(al)
            return [q.pick(al + [q.n(255)]) if t == tables.ANYTOK else t ^ 0x20 if t < 256 and chr(t & 0x7f).isalpha() and q.chance(25) else t for t in k]
        return [q.pick(al)]
    inputs = []
    for _ in range(6):
        ps = s.list(one, 6, 1)
        if kind == 'from':
            inputs.append(bytes(t for p in ps for t in p if t != tables.SEP))
        else:
            cells, cur = [], []
            for p in ps:
                for t in p:
                    if t == tables.SEP:
                        cells.append(bytes(cur))
                        cur = []
                    else:
                        cur.append(t)
                if s.chance(70):
                    cells.append(bytes(cur))
                    cur = []
            cells.append(bytes(cur))
            inputs.append([c for c in cells if c])
    return {'kind': kind, 'lines': lines, 'inputs': inputs}


def gen_large(s, env):
    """hundreds of entries over all byte values"""
    kind = s.pick(['from', 'inter', 'to'])
    n = s.pick([60, 150, 255, 256, 257, 400, 900])
    seed = s.n(1 << 30)
    q = random.Random(seed)
    heads = [bytes(q.randrange(256) for _ in range(1 + q.randrange(2))) for _ in range(1 + q.randrange(40))]
    keys, lines = [], []
    for i in range(n):
        if keys and q.random() < 0.15:
            k = q.choice(keys) + bytes(q.randrange(256) for _ in range(1 + q.randrange(3)))
        else:
            k = q.choice(heads) + bytes(q.randrange(256) for _ in range(q.randrange(3)))
        keys.append(k)
        val = [bytes(q.randrange(256) for _ in range(1 + q.randrange(3))) for _ in range(q.choice([1, 1, 1, 2, 3, 20]))]
        lines.append(k.hex().upper() + '\t' + ','.join(v.hex().upper() for v in val))
    inputs = []
    for _ in range(6):
        ps = [q.choice(keys) if q.random() < 0.8 else bytes([q.randrange(256)]) if q.random() < 0.5 else q.choice(keys)[:-1] or b'a' for _ in range(40)]
        inputs.append(b''.join(ps) if kind == 'from' else [x for x in ps if x])
    return {'kind': kind, 'lines': lines, 'inputs': inputs}


def place(env):
    """a private module directory next to which generated tables are put"""
    d = os.path.join(env.tmp, 'tables')
    if not os.path.isdir(d):
        for k in ('from', 'inter', 'to'):
            os.makedirs(os.path.join(d, 'share/bsdconv', k))
        src = os.path.join(env.root, env.kind, 'share/bsdconv')
        for f in ('from/PASS', 'inter/PASS', 'to/PASS', 'inter/ALIAS-FROM', 'inter/ALIAS-TO', 'inter/ALIAS-INTER', 'from/_UTF-8', 'from/ASCII', 'to/_UTF-8', 'to/ASCII', 'from/BSDCONV-KEYWORD', 'to/BSDCONV-KEYWORD', 'from/BSDCONV', 'to/BSDCONV',
                  'inter/ALIAS-FILTER', 'inter/UPPER'):
            for g in (f, f + '.so'):
                if os.path.exists(os.path.join(src, g)):
                    os.symlink(os.path.join(src, g), os.path.join(d, 'share/bsdconv', g))
    return d


def compile_table(env, kind, src, out):
    b = os.path.join(env.root, kind)
    e = asan_env(b)
    if kind == 'plain':
        e['MALLOC_PERTURB_'] = '165'
    p = subprocess.run([os.path.join(b, 'bin/bsdconv-mktable'), src, out], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=60)
    if p.returncode:
        raise Violation('bsdconv-mktable ends with %d: %s' % (p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:]))


def run(env, case):
    kind, inputs = case['kind'], case['inputs']
    d = place(env)
    src = os.path.join(env.tmp, 'T.txt')
    with open(src, 'w') as f:
        f.write(''.join(l + '\n' for l in case['lines']))
    entries = tables.read(src)
    env.cache['n'] = env.cache.get('n', 0) + 1
    out = os.path.join(d, 'share/bsdconv', kind, 'T%d' % env.cache['n'])
    two = os.path.join(env.tmp, 'T2')
    try:
        compile_table(env, 'asan', src, out)
        compile_table(env, 'plain', src, two)
        with open(out, 'rb') as f, open(two, 'rb') as g:
            if f.read() != g.read():
                raise Violation('the same source compiles to different bytes')
        r = Req()
        r.setenv('BSDCONV_PATH', d)
        k = r.create(0, KIND[kind] % os.path.basename(out))
        r.init(0)
        fs = []
        for x in inputs:
            fs.append((r.cells(0, [x] if kind == 'from' else x), r.errs(0)))
        r.destroy(0)
        r.setenv('BSDCONV_PATH', os.path.join(env.root, env.kind))
        rep = env.call(r)
    finally:
        for p in (out, two):
            if os.path.exists(p):
                os.unlink(p)
    if not rep[k][0]:
        raise Violation('compiled table cannot be loaded: %r' % (rep[k],))
    hit = False
    ie = oe = 0
    for x, (f, c) in zip(inputs, fs):
        want, err = tables.general_ref(kind, entries, x)
        if rep[f] != want:
            raise Violation('%s table %r maps %s to %s instead of %s' % (kind, case['lines'], show(x), show(rep[f]), show(want)))
        if kind == 'from':
            ie += err
        elif kind == 'to':
            oe += err
        util.same(tuple(rep[c]), (ie, oe), '%s table %r, %s: errors' % (kind, case['lines'], show(x)))
        hit = hit or want != (x if kind == 'inter' else [])
    ks = [e.key for e in entries]
    rich = any(e.ci or tables.ANYTOK in e.key for e in entries) or any(a != b and a[:1] == b[:1] for a in ks for b in ks)
    labels = [kind] + (['long lines'] if any(len(l) > 255 for l in case['lines']) else []) + (['wildcard'] if any(tables.ANYTOK in k for k in ks) else []) + (['letter-case'] if any(e.ci for e in entries) else []) + (['duplicate'] if len(set(ks)) < len(ks) else [])
    return len(entries) >= 3 and rich and hit, labels


def show(x):
    return x.hex() if isinstance(x, (bytes, bytearray)) else ','.join(c.hex() for c in x)


# ------------------------------------------------------------------ files

def gen_files(s, env):
    return {'lines': gen(s, env)['lines'], 'old': s.pick([None, b'', b'x', bytes(200000)]), 'how': s.pick(['good', 'good', 'good', 'no source', 'no directory', 'is a directory', 'arguments', 'source is a directory', 'full'])}


def run_files(env, case):
    """the command: where it reads and writes, and what it leaves behind"""
    d = os.path.join(env.tmp, 'files')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'dir'))
    text = ''.join(l + '\n' for l in case['lines'])
    with open(os.path.join(d, 'T.txt'), 'w') as f:
        f.write(text)
    if case['old'] is not None:
        with open(os.path.join(d, 'T'), 'wb') as f:
            f.write(case['old'])
    how = case['how']
    args = {'good': ['T.txt', 'T'], 'no source': ['U.txt', 'T'], 'no directory': ['T.txt', 'none/T'], 'is a directory': ['T.txt', 'dir'], 'arguments': ['T.txt'], 'source is a directory': ['dir', 'T'], 'full': ['T.txt', 'full']}[how]
    if how == 'full':
        os.symlink('/dev/full', os.path.join(d, 'full'))
    res = []
    for kind in ('plain', 'asan'):
        b = os.path.join(env.root, kind)
        p = subprocess.run([os.path.join(b, 'bin/bsdconv-mktable')] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=asan_env(b), timeout=60)
        if p.returncode < 0 or p.returncode == 77:
            raise Violation('bsdconv-mktable %s (%s) ends with %d: %s' % (' '.join(args), how, p.returncode, p.stdout.decode('utf-8', 'replace')[-800:]))
        if (p.returncode == 0) != (how == 'good'):
            raise Violation('bsdconv-mktable %s (%s) ends with status %d' % (' '.join(args), how, p.returncode))
        left = sorted(os.path.relpath(os.path.join(x, n), d) for x, ds, fs in os.walk(d) for n in fs if n != 'full')
        want = ['T', 'T.txt'] if how == 'good' or case['old'] is not None else ['T.txt']
        if left != want:
            raise Violation('bsdconv-mktable %s (%s) leaves %s' % (' '.join(args), how, left))
        with open(os.path.join(d, 'T.txt'), newline='') as f:
            util.same(f.read(), text, 'the source after bsdconv-mktable (%s)' % how)
        if 'T' in left:
            with open(os.path.join(d, 'T'), 'rb') as f:
                res.append(f.read())
            if how != 'good':
                util.same(res[-1], case['old'], 'another table after bsdconv-mktable (%s)' % how)
    if how == 'good':
        fresh = os.path.join(d, 'fresh')
        compile_table(env, 'plain', os.path.join(d, 'T.txt'), fresh)
        with open(fresh, 'rb') as f:
            res.append(f.read())
        if len(set(res)) != 1:
            raise Violation('the table compiled over a file of %s bytes differs from the one compiled to a new file' % (None if case['old'] is None else len(case['old'])))
    return len(case['lines']) >= 2, how


PARTS = [Part('tables', gen, run, 3200), Part('large', gen_large, run, 160), Part('files', gen_files, run_files, 800)]
