"""C01: the result does not depend on how the input is cut into calls."""
from ..core import Part
from ..client import Req, AUTO, HOLD, PRE, PREQ, FILE_, FD
from .. import pipes, util

PROPERTY = 'C01'
RULE = 'non-trivial: the conversion was created, the input has at least 2 bytes and was cut at least once (in two or more non-empty pieces), and something came out or was counted'
ASSUMPTIONS = ['PASS as the very first decoder is left out: it passes whole buffers through', 'modules that write to files or standard error are left out']
RAWPASS = ('PASS', 'SKIP')


def first_is_pass(env, conv):
    return any(n in RAWPASS for n in pipes.flat_from(env, conv))


def gen(s, env, c=None, inp=pipes.input_for):
    c = c or pipes.conv(s, env, exclude=())
    d = inp(s, env, c)
    pieces = pipes.split(s, d)
    # empty pieces anywhere, input buffers handed over or kept
    out = []
    for p in pieces:
        if s.chance(8):
            out.append([b'', s.n(1)])
        if s.chance(4):
            out.append([None, 0])
        out.append([p, s.n(1)])
    return {'conv': c, 'pieces': out, 'extra': s.n(1)}


def gen_single(s, env):
    """one codec under test in a plain neighbourhood"""
    k = s.n(2)
    fr = pipes.codec(s, env, 'from', alias=10) if k == 0 else s.pick(pipes.COMMON_FROM)
    mid = pipes.codec(s, env, 'inter', alias=20) if k == 1 else None
    to = pipes.codec(s, env, 'to', alias=10) if k == 2 else s.pick(pipes.COMMON_TO)
    return gen(s, env, ':'.join(x for x in (fr, mid, to) if x))


def gen_state(s, env):
    return gen(s, env, pipes.stateful(s, env), pipes.runs)


def gen_long(s, env):
    c = pipes.conv(s, env, exclude=()) if s.chance(50) else pipes.stateful(s, env)
    rle = pipes.long_input(s, env, c)
    n = len(pipes.expand(rle))
    cuts = sorted(min(n, s.weighted([(3, pipes.big(s)), (2, s.n(n)), (1, n - 1 - s.n(3))])) for _ in range(1 + s.n(3)))
    return {'conv': c, 'rle': rle, 'cuts': [max(0, x) for x in cuts], 'extra': s.n(1)}


def run_long(env, case):
    d = pipes.expand(case['rle'])
    cuts = [0] + case['cuts'] + [len(d)]
    return run(env, {'conv': case['conv'], 'pieces': [[d[a:b], 0] for a, b in zip(cuts, cuts[1:])], 'extra': case['extra']})


def run(env, case):
    if first_is_pass(env, case['conv']):
        return False, 'excluded'
    data = b''.join(p[0] or b'' for p in case['pieces'])
    r = Req()
    k = r.create(0, case['conv'])
    r.init(0)
    f = r.feed(0, data, flush=True)
    c = r.counters(0)
    r.destroy(0)
    r.create(1, case['conv'])
    r.init(1)
    ix = []
    last = len(case['pieces']) - 1
    for i, (p, fr) in enumerate(case['pieces']):
        ix.append(r.feed(1, p, flush=(i == last and not case['extra']), free=bool(fr)))
    if case['extra']:
        ix.append(r.feed(1, None, flush=True))
    c2 = r.counters(1)
    r.destroy(1)
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    whole, cw = rep[f][2], util.clean(rep[c])
    got, cg = b''.join(rep[i][2] for i in ix), util.clean(rep[c2])
    util.same(got, whole, '%s fed in pieces %r' % (case['conv'], [p[0] for p in case['pieces']]))
    util.same(cg, cw, 'counters of %s fed in pieces %r' % (case['conv'], [p[0] for p in case['pieces']]))
    return len(data) >= 2 and sum(1 for p in case['pieces'] if p[0]) >= 2 and bool(whole or cw), 'ok'


PARTS = [Part('pipelines', gen, run, 36000), Part('single', gen_single, run, 45000), Part('stateful', gen_state, run, 45000), Part('long', gen_long, run_long, 3000)]
