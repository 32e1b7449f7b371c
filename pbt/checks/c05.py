"""C05: every way of collecting the output delivers the same bytes."""
from ..core import Part, Violation, scaled
from ..client import Req, AUTO, HOLD, PRE, PREQ, FILE_, FD, NULL_, PASS_, SLOWFD
from .. import pipes, util

PROPERTY = 'C05'
RULE = 'non-trivial: at least two different output modes were used in one history and the conversion produced at least 2 bytes; for part pass, both instances exist and the second produced output'
ASSUMPTIONS = ['a caller-provided buffer may be left partly unfilled when the next unit of output does not fit', 'a caller-provided buffer of length 0 only asks for the length']
NAMES = {HOLD: 'hold', AUTO: 'auto', PRE: 'buffer', PREQ: 'query', FILE_: 'stream', FD: 'fd', NULL_: 'null', SLOWFD: 'slow fd'}


def gen(s, env):
    c = pipes.conv(s, env)
    d = pipes.input_for(s, env, c)
    pieces = pipes.split(s, d)
    calls = []
    for i, p in enumerate(pieces):
        calls.append([p, 1 if i == len(pieces) - 1 else 0, s.weighted([(3, AUTO), (3, HOLD), (5, PRE), (2, PREQ), (2, FILE_), (2, FD), (1, NULL_)]), s.size(40)])
    for _ in range(s.size(6)):
        calls.append([None, 0, s.weighted([(2, AUTO), (2, HOLD), (6, PRE), (3, PREQ), (2, FILE_), (2, FD)]), s.size(40)])
    return {'conv': c, 'calls': calls}


def run(env, case):
    r = Req()
    k = r.create(0, case['conv'])
    r.init(0)
    ref = [r.feed(0, p, flush=bool(fl)) for p, fl, m, par in case['calls']]
    r.destroy(0)
    r.create(1, case['conv'])
    r.init(1)
    got = [r.feed(1, p, flush=bool(fl), mode=m, param=par) for p, fl, m, par in case['calls']]
    q = r.feed(1, None, mode=PREQ)
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    pend = b''
    total = 0
    for (p, fl, m, par), a, b in zip(case['calls'], ref, got):
        new = rep[a][2]
        total += len(new)
        pend += new
        ln, flags, out = rep[b]
        what = '%s, mode %s(%d)' % (case['conv'], NAMES[m], par)
        if rep[a][0] != len(new):
            raise Violation('automatic buffer reports %d for %d bytes' % (rep[a][0], len(new)))
        if m == HOLD:
            util.same(ln, 0, what + ' reported length')
        elif m == PREQ or (m == PRE and par == 0):
            util.same(ln, len(pend), what + ' reports waiting')
        elif m == PRE:
            if ln > par:
                raise Violation('%s reports %d bytes' % (what, ln))
            if pend[:ln] != out:
                raise Violation('%s delivers %s of %s' % (what, util.short(out), util.short(pend)))
            if len(pend) <= par and ln != len(pend):
                raise Violation('%s delivers %d of %d bytes' % (what, ln, len(pend)))
            pend = pend[ln:]
        elif m == NULL_:
            pend = b''
        else:
            if out != pend:
                raise Violation('%s delivers %s instead of %s' % (what, util.short(out), util.short(pend)))
            if m == AUTO:
                util.same(ln, len(out), what + ' reported length')
            pend = b''
    util.same(rep[q][0], len(pend), 'bytes waiting at the end')
    # exactly the reported size is enough
    if pend:
        r = Req()
        r.create(1, case['conv'])
        r.init(1)
        for p, fl, m, par in case['calls']:
            r.feed(1, p, flush=bool(fl), mode=m, param=par)
        z = r.feed(1, None, mode=PRE, param=len(pend))
        rep = env.call(r)
        util.same(rep[z][2], pend, '%s, rest in a buffer of the reported size' % case['conv'])
    return total >= 2 and len(set(m for p, fl, m, par in case['calls'])) >= 2, 'ok'


def gen_pass(s, env):
    c1 = pipes.conv(s, env)
    c2 = pipes.conv(s, env)
    d = pipes.input_for(s, env, c1)
    if s.chance(50):
        ph = c1.split(':')
        c1 = ':'.join(ph[:-1] + [s.pick(['UTF-8', 'UTF-8,BYTE', 'BSDCONV', 'UTF-16LE'])])
    return {'c1': c1, 'c2': c2, 'pieces': pipes.split(s, d), 'each': s.n(1)}


def run_pass(env, case):
    names = pipes.flat_from(env, case['c2'])
    if 'PASS' in names or any(n == 'PASS' and kind == 'to' for kind, n in pipes.flat_all(env, case['c1'])):
        return False, 'excluded'
    r = Req()
    k1 = r.create(0, case['c1'])
    r.init(0)
    k2 = r.create(1, case['c2'])
    r.init(1)
    rep = env.call(r)
    if not rep[k1][0] or not rep[k2][0]:
        return False, 'rejected'
    r = Req()
    r.create(0, case['c1'])
    r.init(0)
    f = util.feed_all(r, 0, case['pieces'])
    c1 = r.counters(0)
    rep = env.call(r)
    mid, cw1 = b''.join(rep[i][2] for i in f), util.clean(rep[c1])
    want, cw2 = util.convert(env, case['c2'], mid)
    r = Req()
    r.create(0, case['c1'])
    r.init(0)
    r.create(1, case['c2'])
    r.init(1)
    out = []
    last = len(case['pieces']) - 1
    for i, p in enumerate(case['pieces']):
        fl = i == last
        if case['each'] or fl:
            r.feed(0, p, flush=fl, mode=PASS_, param=1)
            out.append(r.feed(1, None, flush=fl))
        else:
            r.feed(0, p, flush=fl, mode=HOLD)
    c1, c2 = r.counters(0), r.counters(1)
    rep = env.call(r)
    got = b''.join(rep[i][2] for i in out)
    util.same(got, want, '%s passed on to %s' % (case['c1'], case['c2']))
    util.same(util.clean(rep[c1]), cw1, 'counters of the first of %s, %s' % (case['c1'], case['c2']))
    util.same(util.clean(rep[c2]), cw2, 'counters of the second of %s, %s' % (case['c1'], case['c2']))
    return bool(mid) and bool(want or cw2), 'ok'


def gen_slow(s, env):
    """through a pipe that is full and read slowly, while signals interrupt the writing"""
    if s.chance(50):
        c = s.pick(['UTF-8:ANY#' + '41' * 300, 'UTF-8:UTF-8', 'BYTE:ANY#' + '4142' * 900, 'UTF-8:INSERT#AFTER=0141:UTF-8', 'UTF-8:ESCAPE', 'PASS:PASS'])
        d = bytes(0x61 + s.n(20) for _ in range(1 + s.n(60)))
    else:
        c = pipes.conv(s, env)
        d = pipes.input_for(s, env, c, 40)
    return {'conv': c, 'calls': [[p, 0, s.pick([SLOWFD, HOLD]), 0] for p in pipes.split(s, d, 2)[:-1]] + [[d, 1, SLOWFD, s.pick([0, 2048, 4000, 4090, 4096]) << 16 | s.pick([199, 999, 2500, 4094]) << 4 | 1 + s.n(3)]]}


def run_slow(env, case):
    r = Req()
    k = r.create(0, case['conv'])
    r.init(0)
    ref = [r.feed(0, p, flush=bool(fl)) for p, fl, m, par in case['calls']]
    r.destroy(0)
    r.create(1, case['conv'])
    r.init(1)
    got = [r.feed(1, p, flush=bool(fl), mode=m, param=par) for p, fl, m, par in case['calls']]
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    want = b''.join(rep[x][2] for x in ref)
    have = b''.join(rep[x][2] for x in got)
    if have != want:
        n = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
        raise Violation('%s to a slow descriptor, with signals: %d bytes instead of %d, different from byte %d' % (case['conv'][:60], len(have), len(want), n))
    return len(want) >= 2, 'over 1000' if len(want) > 1000 else 'short'


PARTS = [Part('modes', gen, run, 30000), Part('pass', gen_pass, run_pass, 15000), Part('long modes', scaled(gen, 20, 100, 300), run, 1500),
         Part('long pass', scaled(gen_pass, 20, 100), run_pass, 800),
         Part('interrupted', gen_slow, run_slow, 3000, schedule=True)]
