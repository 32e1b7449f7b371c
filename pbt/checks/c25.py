"""C25: conversions are functions of their conversion string and input.

Histories of several instances are run interleaved and apart, before and after other work, over memory filled with
different bytes, and in a process (MemorySanitizer) that stops when something depends on uninitialised memory."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req, AUTO, HOLD, PRE, PREQ, FILE_, FD, NULL_
from .. import pipes, util
from . import c04

PROPERTY = 'C25'
KINDS = ('msan',)
RULE = 'non-trivial: at least two instances produced output, or one instance and the other work ran (parts interleaved, after); at least 2 bytes went through the conversion (parts recycled, uninitialised)'
ASSUMPTIONS = ['threads: instances are created one after the other and converted with at the same time; the schedule is the operating system\'s', 'what uninitialised memory means is decided by clang MemorySanitizer and by filling fresh and freed memory with different bytes',
               'codecs whose purpose is the outside (log, output, score training, locale) are left out, PASS mode (one instance feeding another) too']
MODES = [(8, AUTO), (2, HOLD), (2, PRE), (1, FILE_), (1, FD), (1, PREQ)]


def gen_conv(s, env):
    return pipes.stateful(s, env) if s.chance(45) else pipes.conv(s, env)


def gen_data(s, env, c):
    return pipes.runs(s, env, c) if s.n(1) else pipes.input_for(s, env, c)


def gen_ops(s, env, c, hi=4):
    """calls on one instance"""
    ops = []
    for _ in range(1 + s.weighted([(5, 0), (2, 1)])):
        ps = pipes.split(s, gen_data(s, env, c), hi)
        fl = s.chance(85)
        for i, p in enumerate(ps):
            ops.append(['f', p, 1 if fl and i == len(ps) - 1 else 0, s.weighted(MODES), s.n(12)])
            if s.chance(6):
                ops.append(['c'])
        if s.chance(30):
            ops.append(s.pick([['i'], ['z'], ['s', s.pick(['X', 'IERR', 'CJK']), s.n(9)], ['h', s.pick(['k', 'l']), s.n(9)], ['g', s.pick(['k', 'l'])]]))
    ops.append(['c'])
    return ops


def emit(r, slot, o, ix):
    if o[0] == 'n':
        ix.append(('n', r.create(slot, o[1])))
        r.init(slot)
    elif o[0] == 'f':
        ix.append(('f', r.feed(slot, o[1], flush=bool(o[2]), mode=o[3], param=o[4])))
    elif o[0] == 'i':
        r.init(slot)
    elif o[0] == 'z':
        r.counter_reset(slot, None)
    elif o[0] == 's':
        r.counter_set(slot, o[1], o[2])
    elif o[0] == 'h':
        ix.append(('h', r.hash_op('set', slot, o[1], o[2])))
    elif o[0] == 'g':
        ix.append(('h', r.hash_op('get', slot, o[1], 0)))
    elif o[0] == 'c':
        ix.append(('c', r.counters(slot)))


def seen(rep, ix):
    return [util.clean(rep[i]) if k == 'c' else (rep[i][0] if k == 'n' else rep[i]) for k, i in ix]


def compare(conv, a, b, what):
    for x, y in zip(a, b):
        if x != y:
            f = lambda v: util.short(v[2]) + ' (%d bytes)' % v[0] if isinstance(v, tuple) and len(v) == 3 else repr(v)[:200]
            raise Violation('%s: %s %s, alone %s' % (conv, what, f(x), f(y)))
    if len(a) != len(b):
        raise Violation('%s: %s %d observations, alone %d' % (conv, what, len(a), len(b)))


# ------------------------------------------------------------------ interleaved instances

def gen_inter(s, env):
    n = 2 + s.weighted([(5, 0), (2, 1), (1, 2)])
    convs = [gen_conv(s, env)]
    for _ in range(n - 1):
        convs.append(s.pick(convs) if s.chance(60) else gen_conv(s, env))
    sched = []
    rest = [[['n', c]] + gen_ops(s, env, c) + ([['d']] if s.chance(30) else []) for c in convs]
    left = [len(x) for x in rest]
    while any(left):
        # choose among the unfinished
        live = [i for i in range(n) if left[i]]
        i = s.pick(live)
        for _ in range(min(left[i], 1 + s.weighted([(6, 0), (2, 1), (1, 4)]))):
            left[i] -= 1
            sched.append(i)
    return {'insts': rest, 'sched': sched}


def run_inter(env, case):
    n = len(case['insts'])
    alone = []
    for ops in case['insts']:
        r = Req()
        ix = []
        for o in ops:
            if o[0] == 'd':
                r.destroy(0)
            else:
                emit(r, 0, o, ix)
        alone.append(seen(env.call(r), ix))
    r = Req()
    at = [0] * n
    ixs = [[] for _ in range(n)]
    for i in case['sched']:
        o = case['insts'][i][at[i]]
        at[i] += 1
        if o[0] == 'd':
            r.destroy(i)
        else:
            emit(r, i, o, ixs[i])
    rep = env.call(r)
    out = 0
    for i in range(n):
        compare(case['insts'][i][0][1], seen(rep, ixs[i]), alone[i], 'among %d instances' % n)
        out += any(isinstance(x, tuple) and len(x) == 3 and x[2] for x in alone[i])
    return out >= 2, ['same' if len({x[0][1] for x in case['insts']}) < n else 'different'] + (['all created'] if all(a[0] for a in alone) else [])


# ------------------------------------------------------------------ after other work in the same process

def gen_after(s, env):
    c = gen_conv(s, env)
    before = []
    for _ in range(1 + s.n(3)):
        o = c if s.chance(50) else gen_conv(s, env)
        if s.chance(15):
            o = c04.gen_mut(s, env)['conv'].replace('\0', '')
        before.append([['n', o]] + gen_ops(s, env, o) + ([['d']] if s.n(1) else []))
    return {'before': before, 'conv': c, 'ops': gen_ops(s, env, c), 'preload': s.n(1)}


def run_after(env, case):
    """the process that has done nothing else is new for every case"""
    new = env.server('asan', preload=bool(case['preload']), fill=0x77)
    new.stop()
    ops = [['n', case['conv']]] + case['ops']
    r = Req()
    a = []
    for o in ops:
        emit(r, 0, o, a)
    first = seen(new.call(r), a)
    r = Req()
    junk = []
    for k, b in enumerate(case['before']):
        for o in b:
            if o[0] == 'd':
                r.destroy(k)
            else:
                emit(r, k, [o[0], o[1].encode('utf-8', 'surrogateescape')] if o[0] == 'n' else o, junk)
    ix = []
    for o in ops:
        emit(r, 7, o, ix)
    r.destroy(7)
    ix2 = []
    for o in ops:
        emit(r, 7, o, ix2)
    rep = new.call(r)
    compare(case['conv'], seen(rep, ix), first, 'after other work')
    compare(case['conv'], seen(rep, ix2), first, 'a second time')
    return any(isinstance(x, tuple) and len(x) == 3 and x[2] for x in first), 'created' if first[0] else 'rejected'


# ------------------------------------------------------------------ several threads

REPS = 120


def gen_threads(s, env):
    n = 2 + s.n(2)
    convs = [gen_conv(s, env)]
    for _ in range(n - 1):
        convs.append(s.pick(convs) if s.chance(70) else gen_conv(s, env))
    jobs = []
    for c in convs:
        d = gen_data(s, env, c)[:200]
        jobs.append([c, s.n(len(d)), d])
    return {'jobs': jobs}


def run_threads(env, case):
    """instances created one after the other, then used at the same time, each in a thread of its own"""
    alone = []
    made = []
    for c, cut, d in case['jobs']:
        r = Req()
        a = r.create(0, c)
        r.init(0)
        f = [r.feed(0, d[:cut], mode=AUTO), r.feed(0, d[cut:], flush=True, mode=AUTO)]
        e = r.errs(0)
        rep = env.call(r)
        made.append(bool(rep[a][0]))
        alone.append((rep[e][0], rep[e][1], b''.join(rep[i][2] for i in f)))
    if sum(made) < 2:
        return False, 'fewer than two'
    r = Req()
    jobs = []
    at = []
    for k, ((c, cut, d), m) in enumerate(zip(case['jobs'], made)):
        if m:
            r.create(k, c)
            jobs.append((k, cut, d))
            at.append(k)
    t = r.threads(jobs, REPS)
    for _ in range(env.tries):
        for k, (first, other) in zip(at, env.call(r)[t]):
            for x in (first, other):
                if x is None or x == alone[k]:
                    continue
                raise Violation('%s: while %d other threads use their own instances: %s, %d/%d errors, alone %s, %d/%d errors'
                                % (case['jobs'][k][0], len(jobs) - 1, util.short(x[2]), x[0], x[1], util.short(alone[k][2]), alone[k][0], alone[k][1]))
    return sum(len(alone[k][2]) > 0 for k in at) >= 2, ['same' if len({case['jobs'][k][0] for k in at}) < len(at) else 'different']


# ------------------------------------------------------------------ memory

def gen_mem(s, env):
    c = gen_conv(s, env)
    return {'conv': c, 'ops': gen_ops(s, env, c)}


def size(case):
    return sum(len(o[1] or b'') for o in case['ops'] if o[0] == 'f')


def run_recycled(env, case):
    res = []
    for f in (0xff, 0x00, 0x01, 0x41):
        r = Req()
        ix = []
        emit(r, 0, ['n', case['conv']], ix)
        for o in case['ops']:
            emit(r, 0, o, ix)
        rep = env.server('asan', fill=f).call(r)
        res.append(seen(rep, ix))
    for f, x in zip((0x00, 0x01, 0x41), res[1:]):
        if x != res[0]:
            compare(case['conv'], x, res[0], 'over memory filled with %02x' % f)
    return bool(res[0][0]) and size(case) >= 2, 'created' if res[0][0] else 'rejected'


def run_msan(env, case):
    try:
        sv = env.server('msan')
        if sv.p is None:
            sv.start()
    except RuntimeError:
        raise Discard('MemorySanitizer does not run here')
    r = Req()
    ix = []
    emit(r, 0, ['n', case['conv']], ix)
    for o in case['ops']:
        emit(r, 0, o, ix)
    rep = sv.call(r)
    a = seen(rep, ix)
    r2 = Req()
    ix = []
    emit(r2, 0, ['n', case['conv']], ix)
    for o in case['ops']:
        emit(r2, 0, o, ix)
    compare(case['conv'], seen(env.call(r2), ix), a, 'in another build')
    return bool(a[0]) and size(case) >= 2, 'created' if a[0] else 'rejected'


def gen_rejected(s, env):
    c = (c04.gen_args if s.n(1) else c04.gen_mut)(s, env)
    return {'conv': c['conv'].replace('\0', ''), 'ops': [['f', c['data'], 1, AUTO, 0], ['c']]}


PARTS = [Part('interleaved', gen_inter, run_inter, 24000), Part('after', gen_after, run_after, 8000), Part('threads', gen_threads, run_threads, 6000, schedule=True), Part('recycled', gen_mem, run_recycled, 16000),
         Part('uninitialised', gen_mem, run_msan, 40000), Part('uninitialised arguments', gen_rejected, run_msan, 24000), Part('long interleaved', scaled(gen_inter, 20, 60), run_inter, 1000)]
