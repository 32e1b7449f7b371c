"""C27: stages that keep records (logs, training of the score table) record exactly what passes.

Histories of instances that log, train and score over a few files; a model of every file's content is compared with
the file after each step."""
import os
from ..core import Part, Violation, Discard
from ..client import Req, AUTO
from .. import pipes, util

PROPERTY = 'C27'
RULE = 'non-trivial: at least two cells or bytes were recorded or scored, and at least two steps ran'
ASSUMPTIONS = ['the mark " ( FREE )" behind a cell in a log tells how its memory is managed and is not judged',
               'a score file is used by one instance at a time; code points up to U+10FFFF']
EINVAL = 22
CTL_SCORE, CTL_LIST = 0, 3
SCORES = ['s0', 's1', 'home/.bsdconv.score']


def u(c):
    n = 1 if c <= 0xff else 2 if c <= 0xffff else 3
    return b'\x01' + c.to_bytes(n, 'big')


def ch(s):
    return s.weighted([(6, 0x41 + s.n(3)), (3, s.n(0x1ff)), (1, 0x4e00 + s.n(40)), (1, s.pick([0, 0xff, 0x100, 0xffff, 0x10000, 0x1f600])), (0 if s.n(60) else 1, 0x10ffff)])


def cell(s):
    if s.chance(80):
        return u(ch(s))
    return s.pick([b'\x03\x41', b'\x1b[1m', b'\x02\x01\x02', b'\x00A', b'\x01', b'\x01\x00', b'\x01\x00\x41', b'\x04', b'\xff\x41'])


def gen_cells(s, hi=12):
    return [s.list(lambda q: cell(q), hi, 1) for _ in range(1 + s.n(2))]


def gen(s, env):
    init = {}
    for n in SCORES + ['att']:
        k = s.n(3)
        init[n] = None if k == 0 and n != 'att' else b'' if k < 2 else bytes(s.pick([0, 0, 1, 2, 3, 4, 200, 255]) for _ in range(s.pick([1, 0x41, 0x43, 0x60, 0x101])))
    for n in ('tl', 'fl'):
        init[n] = s.pick([None, None, b'', b'earlier\n'])
    steps = []
    for _ in range(1 + s.n(5)):
        k = s.weighted([(4, 'train'), (3, 'score'), (2, 'tolog'), (2, 'fromlog'), (1, 'nofile')])
        if k in ('train', 'score'):
            st = {'do': k, 'file': s.pick(['s0', 's0', 's1', None]), 'att': s.chance(25), 'list': k == 'train' and s.chance(50), 'text': s.chance(30), 'again': s.chance(20),
                  'name': s.pick([None, None, 'points', 'SCORE']) if k == 'score' else None, 'word': s.pick(['TRAINED', 'trained', 'Trained'])}
            st['cells'] = [[c for c in p if c[0] == 1 and len(c) > 1 and (c[1] or len(c) == 2) and int.from_bytes(c[1:], 'big') not in (0,)] or [u(0x41)] for p in gen_cells(s)] if st['text'] else gen_cells(s)
        elif k == 'tolog':
            st = {'do': k, 'list': s.pick(['BSDCONV-LOG', 'ASCII,BSDCONV-LOG', 'bsdconv-log', 'UTF-8,BSDCONV-LOG']), 'cells': gen_cells(s), 'two': s.chance(30)}
        elif k == 'fromlog':
            st = {'do': k, 'list': s.pick(['BSDCONV-LOG', 'ASCII,BSDCONV-LOG', 'UTF-8,BSDCONV-LOG', 'bsdconv-log']), 'pieces': [bytes(s.pick([s.n(255), 0x41 + s.n(9), 0xe4, 0xb8, 0x80]) for _ in range(s.n(8))) for _ in range(1 + s.n(2))]}
        else:
            st = {'do': k, 'what': s.pick(['tolog', 'fromlog', 'train']), 'bad': s.n(1)}
        steps.append(st)
    return {'init': init, 'steps': steps}


def log(cells):
    return b''.join(c.hex().upper().encode() + b'\n' for c in cells)


def strip_marks(b):
    return b''.join(l.split(b' (')[0] + b'\n' for l in b.split(b'\n')[:-1]) + b.split(b'\n')[-1]


def train(f, cells, seen):
    for c in cells:
        if c[:1] != b'\x01':
            continue
        p = int.from_bytes(c[1:], 'big')
        v = f[p] if p < len(f) else 0
        if v == 0:
            seen += p.to_bytes(4, 'big')
        if v < 3:
            if p >= len(f):
                f.extend(bytes(p + 1 - len(f)))
            f[p] = v + 1


def total(f, cells):
    return sum(f[p] for p in (int.from_bytes(c[1:], 'big') for c in cells if c[:1] == b'\x01') if p < len(f)) if f is not None else 0


def to_cells(pieces, first):
    """what an ASCII or UTF-8 decoder leaves to the log behind it: (bytes logged in order, text of the others)"""
    data = b''.join(pieces)
    if first is None:
        return data, ''
    left = bytearray()
    text = ''
    i = 0
    while i < len(data):
        n = 0
        if 0 < data[i] < 0x80:
            n = 1
        elif first == 'UTF-8' and data[i] >= 0x80:
            for k in (2, 3, 4):
                try:
                    t = data[i:i + k].decode('utf-8')
                except UnicodeDecodeError:
                    continue
                if len(t) == 1:
                    n = k
                break
        if n:
            text += data[i:i + n].decode('utf-8')
            i += n
        else:
            left.append(data[i])
            i += 1
    return bytes(left), text


def run(env, case):
    d = os.path.join(env.tmp, 'c27')
    os.makedirs(os.path.join(d, 'home'), exist_ok=True)
    path = lambda n: os.path.join(d, n)
    model = {}
    for n in list(case['init']) + ['list']:
        if os.path.lexists(path(n)):
            os.unlink(path(n))
        v = case['init'].get(n)
        model[n] = None if v is None else bytearray(v)
        if v is not None:
            with open(path(n), 'wb') as f:
                f.write(v)
    r = Req()
    checks = []  # (reply index, function of the reply)
    say = lambda what: ['%d files' % len(model), what]
    r.setenv('HOME', path('home'))
    count = 0

    def want(ix, val, what, conv=lambda x: x):
        checks.append((ix, val, what, conv))

    def files(what):
        for n, v in model.items():
            want(r.file(path(n)), None if v is None else bytes(v), '%s: file %s' % (what, n), (lambda x: x and strip_marks(x)) if n in ('tl',) else lambda x: x)

    def created(conv, what):
        want(r.create(0, conv), 1, what + ': created', lambda x: x[0])
        r.init(0)

    for k, st in enumerate(case['steps']):
        do = st['do']
        what = 'step %d, %s' % (k, do)
        if do in ('train', 'score'):
            r.setenv('BSDCONV_SCORE', path(st['file']) if st['file'] else None)
            own = st['file'] or 'home/.bsdconv.score'
            stage = 'SCORE-TRAIN' if do == 'train' else 'SCORE#WITH=%s%s' % (st['word'], '&AS=' + st['name'] if st['name'] else '')
            conv = ('UTF-8:%s:UTF-8' if st['text'] else 'PASS:%s:PASS') % stage
            created(conv, what)
            if do == 'train' and model[own] is None:
                model[own] = bytearray()
            use = own
            if st['att']:
                r.ctl(0, CTL_SCORE, path('att'))
                use = 'att'
            if st['list']:
                r.ctl(0, CTL_LIST, path('list'))
                model['list'] = bytearray()
            sum_ = 0
            for rep in range(2 if st['again'] else 1):
                if rep:
                    r.init(0)
                for i, p in enumerate(st['cells']):
                    last = i == len(st['cells']) - 1
                    if st['text']:
                        b = ''.join(chr(int.from_bytes(c[1:], 'big')) for c in p)
                        if any(0xd800 <= ord(x) <= 0xdfff for x in b):
                            raise Discard('surrogate')
                        want(r.feed(0, b.encode('utf-8'), flush=last), b.encode('utf-8'), what + ': text', lambda x: x[2])
                    else:
                        want(r.cells(0, p, flush=last), [c.hex() for c in p], what + ': cells', lambda x: [c.hex() for c in x if c])
                    count += len(p)
                    if do == 'train':
                        train(model[use], p, model['list'] if st['list'] else bytearray())
                    else:
                        sum_ += total(model[use], p)
            if do == 'score':
                n = (st['name'] or 'SCORE').upper()
                want(r.counters(0), {n: sum_} if sum_ else {}, what + ': counters', util.clean)
            r.destroy(0)
            r.fflush()
        elif do == 'tolog':
            r.setenv('BSDCONV_TO_LOG', path('tl'))
            first = st['list'].split(',')[0] if ',' in st['list'] else None
            created('PASS:' + st['list'], what)
            if model['tl'] is None:
                model['tl'] = bytearray()
            slots = [0]
            if st['two']:
                r.create(1, 'PASS:' + st['list'])
                r.init(1)
                slots = [0, 1]
            for i, p in enumerate(st['cells']):
                out = []
                logged = []
                for c in p:
                    cp = int.from_bytes(c[1:], 'big') if c[0] == 1 and len(c) > 1 and (c[1] or len(c) == 2) else -1
                    if first == 'ASCII' and 0 < cp < 0x80:
                        out.append(bytes([cp]))
                    elif first == 'UTF-8' and c[0] == 1:
                        if not (0 < cp <= 0x10ffff) or 0xd800 <= cp <= 0xdfff:
                            raise Discard('not for the UTF-8 encoder')
                        out.append(chr(cp).encode('utf-8'))
                    else:
                        logged.append(c)
                for sl in slots:
                    want(r.feed(sl, b'', flush=False), b'', what, lambda x: x[2])
                    ix = r.cells(sl, p, flush=i == len(st['cells']) - 1)
                    want(ix, b''.join(out), what + ': output', lambda x: b''.join(x))
                    model['tl'] += log(logged)
                    files(what)
                    count += len(logged)
            for sl in slots:
                want(r.counters(sl), {}, what + ': counters', util.clean)
                r.destroy(sl)
        elif do == 'fromlog':
            r.setenv('BSDCONV_FROM_LOG', path('fl'))
            first = st['list'].split(',')[0] if ',' in st['list'] else None
            created(st['list'] + ':UTF-8', what)
            if model['fl'] is None:
                model['fl'] = bytearray()
            ix = []
            for i, p in enumerate(st['pieces']):
                ix.append(r.feed(0, p, flush=i == len(st['pieces']) - 1))
            left, text = to_cells(st['pieces'], first)
            model['fl'] += log([bytes([b]) for b in left])
            count += len(left)
            checks.append((ix, text.encode('utf-8'), what + ': output', lambda xs: b''.join(x[2] for x in xs)))
            want(r.counters(0), {}, what + ': counters', util.clean)
            files(what)
            r.destroy(0)
        else:
            w = st['what']
            r.setenv({'tolog': 'BSDCONV_TO_LOG', 'fromlog': 'BSDCONV_FROM_LOG', 'train': 'BSDCONV_SCORE'}[w], path('none/there') if st['bad'] or w == 'train' else None)
            want(r.create(0, {'tolog': 'UTF-8:BSDCONV-LOG', 'fromlog': 'BSDCONV-LOG:UTF-8', 'train': 'UTF-8:SCORE-TRAIN:UTF-8'}[w]), (0, EINVAL), what + ' ' + w, lambda x: tuple(x[:2]))
            r.destroy(0)
        files(what)
    rep = env.call(r)
    for ix, val, what, f in checks:
        got = f([rep[i] for i in ix] if isinstance(ix, list) else rep[ix])
        if got != val:
            util.same(got, val, what)
    return count >= 2 and len(case['steps']) >= 2, [st['do'] for st in case['steps']]


# ------------------------------------------------------------------ the command line

def gen_cli(s, env):
    return {'arg': s.pick(['', '', '#STDOUT', '#stderr', '#STDERR', '#stdout']), 'text': ''.join(s.list(lambda q: chr(q.weighted([(4, 0x41 + q.n(5)), (1, 10), (1, 0x4e00 + q.n(99)), (1, 0x1f600)])), 12)),
            'list': s.pick(['', 'ASCII,'])}


def run_cli(env, case):
    import subprocess
    b = os.path.join(env.root, 'plain')
    e = {'PATH': os.environ['PATH'], 'BSDCONV_PATH': b, 'LD_LIBRARY_PATH': os.path.join(b, 'lib'), 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
    p = subprocess.run([os.path.join(b, 'bin/bsdconv'), 'UTF-8:%sBSDCONV-OUTPUT%s' % (case['list'], case['arg'])], input=case['text'].encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
    if p.returncode:
        raise Violation('exit status %d' % p.returncode)
    cells = [u(ord(c)) for c in case['text'] if not case['list'] or ord(c) >= 0x80]
    plain = ''.join(c for c in case['text'] if case['list'] and ord(c) < 0x80).encode()
    to_err = case['arg'].upper() == '#STDERR'
    if to_err:
        util.same(p.stdout, plain, 'standard output')
        util.same(strip_marks(p.stderr), log(cells), 'standard error of %r' % case)
    elif not plain:
        util.same(strip_marks(p.stdout), log(cells), 'standard output of %r' % case)
    else:
        # the output is written through the same stream when the tool gets it
        util.same(sorted(strip_marks(p.stdout)), sorted(plain + log(cells)), 'standard output of %r' % case)
    return len(cells) >= 2, 'stderr' if to_err else 'stdout'


PARTS = [Part('histories', gen, run, 30000), Part('listing', gen_cli, run_cli, 1500)]
