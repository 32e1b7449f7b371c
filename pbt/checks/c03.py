"""C03: any input through any pipeline is memory safe and terminates (sanitized library, CPU limit per request)."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req, HOLD, AUTO, PRE, PREQ, FILE_, FD, NULL_
from .. import pipes

PROPERTY = 'C03'
KINDS = ('msan',)
RULE = 'non-trivial: the conversion was created and at least 2 bytes (or cells of 2 bytes) went through it'
ASSUMPTIONS = ['clang AddressSanitizer and MemorySanitizer observe the memory errors', 'non-termination means more than 10 s of CPU time for one short request']


def ops(s, data):
    """history: list of [op, ...]"""
    out = []
    pieces = pipes.split(s, data)
    k = s.weighted([(6, 'flush'), (1, 'noflush'), (1, 'emptyflush')])
    for i, p in enumerate(pieces):
        fl = 1 if k == 'flush' and i == len(pieces) - 1 else 0
        out.append(['f', p, fl, s.weighted([(6, AUTO), (1, HOLD), (1, PRE), (1, PREQ), (1, FILE_), (1, FD), (1, NULL_)]), s.n(8), s.n(1)])
        if s.chance(3):
            out.append(['i'])
    if k == 'emptyflush':
        out.append(['f', None, 1, AUTO, 0, 0])
    if s.chance(20):
        out.append(['i'])
        out.append(['f', data[:4], 1, AUTO, 0, 0])
    return out


def gen(s, env):
    c = pipes.conv(s, env)
    return {'conv': c, 'ops': ops(s, pipes.input_for(s, env, c))}


def gen_single(s, env):
    """one codec in each role, no alias, long inputs of its own corpus"""
    k = s.n(2)
    fr = pipes.codec(s, env, 'from', alias=0) if k == 0 else s.pick(pipes.COMMON_FROM)
    mid = pipes.codec(s, env, 'inter', alias=0) if k == 1 else None
    to = pipes.codec(s, env, 'to', alias=0) if k == 2 else s.pick(pipes.COMMON_TO)
    c = ':'.join(x for x in (fr, mid, to) if x)
    return {'conv': c, 'ops': ops(s, pipes.input_for(s, env, c, hi=60))}


def gen_cells(s, env):
    """arbitrary cells (any type byte, any length, empty ones) through the middle and last phases"""
    def cell(q):
        t = q.weighted([(4, 1), (2, 3), (1, 2), (1, 0x1b), (1, 0), (1, q.n(255))])
        n = q.weighted([(4, 1), (4, 2), (2, 3), (1, 4), (1, 5), (1, 0)])
        return bytes([t]) + bytes(q.n(255) if q.n(1) else q.pick([0, 0x20, 0x41, 0xa0, 0xff, 0xd8, 0xdc]) for _ in range(n))
    cells = s.list(cell, 12)
    mid = [pipes.phase(s, env, 'inter', maxc=2) for _ in range(s.n(2))]
    to = pipes.phase(s, env, 'to')
    c = ':'.join(['BSDCONV-KEYWORD,BSDCONV'] + mid + [to])
    data = b','.join(x.hex().upper().encode() for x in cells)
    return {'conv': c, 'ops': ops(s, data)}


def run(env, case, server=None):
    r = Req()
    k = r.create(0, case['conv'])
    r.init(0)
    n = 0
    for o in case['ops']:
        if o[0] == 'f':
            r.feed(0, o[1], flush=bool(o[2]), mode=o[3], param=o[4], free=bool(o[5]))
            n += len(o[1] or b'')
        else:
            r.init(0)
    r.counters(0)
    r.destroy(0)
    rep = (server or env).call(r)
    if not rep[k][0]:
        return False, 'rejected'
    return n >= 2, 'ok'


def gen_any(s, env):
    return s.pick([gen, gen_single, gen_cells])(s, env)


def run_msan(env, case):
    try:
        sv = env.server('msan')
        if sv.p is None:
            sv.start()
    except RuntimeError:
        raise Discard('MemorySanitizer does not run here')
    return run(env, case, sv)


PARTS = [Part('pipelines', gen, run, 72000, 500000), Part('single', gen_single, run, 120000, 800000), Part('cells', gen_cells, run, 100000, 600000),
         Part('uninitialised', gen_any, run_msan, 60000, 500000),
         Part('long', scaled(gen, 20, 100, 400), run, 3000, 36000), Part('long single', scaled(gen_single, 20, 100, 400), run, 5000, 60000), Part('long cells', scaled(gen_cells, 20, 100), run, 3000, 36000)]
