"""C02: an initialised instance behaves like a new one, whatever happened before."""
from ..core import Part, scaled
from ..client import Req, AUTO, HOLD, PRE, PREQ, FILE_, FD, NULL_
from .. import pipes, util

PROPERTY = 'C02'
RULE = 'non-trivial: the conversion was created, something was fed before the initialisation and the later input produced output or counts'
ASSUMPTIONS = ['modules that write to files or standard error are left out']


def gen(s, env, c=None, inp=pipes.input_for):
    c = c or pipes.conv(s, env)
    hist = []
    for _ in range(1 + s.n(2)):
        d = inp(s, env, c)
        if s.chance(30) and d:
            d = d[:1 + s.n(len(d) - 1)]   # abandoned inside something
        ps = pipes.split(s, d, 3)
        fl = s.n(1)
        hist.append([[p, 1 if fl and i == len(ps) - 1 else 0, s.weighted([(5, AUTO), (3, HOLD), (2, PRE), (1, PREQ), (1, NULL_), (1, FILE_)]), s.n(6)] for i, p in enumerate(ps)])
    d2 = inp(s, env, c)
    return {'conv': c, 'hist': hist, 'data': d2, 'reset': s.n(1), 'split': pipes.split(s, d2, 3) if s.chance(30) else None}


def gen_single(s, env):
    k = s.n(2)
    fr = pipes.codec(s, env, 'from', alias=10) if k == 0 else s.pick(pipes.COMMON_FROM)
    mid = pipes.codec(s, env, 'inter', alias=30) if k == 1 else None
    to = pipes.codec(s, env, 'to', alias=10) if k == 2 else s.pick(pipes.COMMON_TO)
    return gen(s, env, ':'.join(x for x in (fr, mid, to) if x))


def gen_state(s, env):
    return gen(s, env, pipes.stateful(s, env), pipes.runs)


def run(env, case):
    pieces = case['split'] or [case['data']]
    r = Req()
    k = r.create(0, case['conv'])
    r.init(0)
    fs = util.feed_all(r, 0, pieces)
    c = r.counters(0)
    r.destroy(0)
    r.create(1, case['conv'])
    n = 0
    for h in case['hist']:
        r.init(1)
        for p, fl, mode, par in h:
            r.feed(1, p, flush=bool(fl), mode=mode, param=par)
            n += len(p)
    before = r.counters(1)
    r.init(1)
    if case['reset']:
        r.counter_reset(1, None)
    gs = util.feed_all(r, 1, pieces)
    after = r.counters(1)
    r.destroy(1)
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    want = b''.join(rep[i][2] for i in fs)
    got = b''.join(rep[i][2] for i in gs)
    cw = util.clean(rep[c])
    b = {} if case['reset'] else {x.upper(): v for x, v in rep[before].items()}
    a = {x.upper(): v for x, v in rep[after].items()}
    cg = {x: v - b.get(x, 0) for x, v in a.items() if v != b.get(x, 0)}
    util.same(got, want, '%s used again for %r' % (case['conv'], pieces))
    util.same(cg, cw, 'counter increments of %s used again for %r' % (case['conv'], pieces))
    return n > 0 and bool(want or cw), 'ok'


PARTS = [Part('pipelines', gen, run, 24000), Part('single', gen_single, run, 32000), Part('stateful', gen_state, run, 40000), Part('long', scaled(gen, 20, 100), run, 1500),
         Part('long stateful', scaled(gen_state, 20, 100, 300), run, 2000)]
