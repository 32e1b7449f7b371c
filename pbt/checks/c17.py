"""C17: counters and the instance hash behave as maps."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req
from .. import pipes, util

PROPERTY = 'C17'
RULE = 'non-trivial: the history reads a key or counter that was written before in it'
ASSUMPTIONS = ['counter names ignore the letter case of ASCII letters, hash keys do not', 'keys used by stages themselves (white space queue) are not touched by the history']

CONVS = ['UTF-8:UTF-8', 'UTF-8,ANY#013F&ERROR:UTF-8', 'UTF-8,ANY#013F&ERROR=E1:COUNT#FOR=CJK&N:WIDTH:ASCII,ANY#3F&ERROR=e2', 'UTF-8:WIDTH:SCORE#WITH=CJK&AS=SC:ASCII',
         'UTF-8:WHITESPACE-DERAIL:UPPER:WHITESPACE-RERAIL:UTF-8', 'ASCII:COUNT:TRIM-WIDTH#5:ASCII', 'UTF-8:NFC:WIDTH:UTF-8', 'UPPER', 'UTF-8:COUNT#FOR=LATIN1:WIDTH:PASS|PASS#UNMARK,UTF-8:COUNT#X:UTF-8']
KEYS = ['', 'a', 'A', 'ab', 'b', 'aa', 'key', 'KEY', 'Key', 'IERR', 'OERR', 'ierr', '\u00e9', 'x' * 300, 'x' * 299 + 'y', ' ', 'a b', 'c', 'd', 'e', 'f', 'COUNT', 'count', 'FULL', 'half', 'e1', 'SC']
INPUTS = [b'', b'abc', b'\xff', '\u6e2c\u8a66 a'.encode(), b'a \xe6', b'  x\t y ', 'e\u0301\u4e00'.encode(), b'\xe6\xb8\xac\xff\xc0', '\u4e00' .encode() * 9]


def gen(s, env):
    slots = [s.pick(CONVS), s.pick(CONVS)]
    pal = [s.pick(KEYS) for _ in range(1 + s.n(7))]

    def key(q):
        return q.pick(pal) if not q.chance(10) else ''.join(chr(0x61 + q.n(2)) for _ in range(q.n(3)))

    def ckey(q):
        return key(q).replace('\u00e9', 'eacute')

    def op(q):
        k = q.n(15)
        sl = q.n(1)
        if k < 3:
            return ['set', sl, key(q), q.n(2 ** 40) if q.chance(50) else q.n(3)]
        if k < 5:
            return ['get', sl, key(q)]
        if k < 7:
            return ['has', sl, key(q)]
        if k < 9:
            return ['del', sl, key(q)]
        if k < 10:
            return ['cset', sl, ckey(q), q.n(2 ** 40)]
        if k < 11:
            return ['cget', sl, ckey(q)]
        if k < 12:
            return ['reset', sl, None if q.chance(30) else ckey(q)]
        if k < 13:
            return ['keep', sl, q.n(7), ckey(q)]
        if k < 14:
            return ['kget', q.n(7)] if q.chance(50) else ['kset', q.n(7), q.n(1000)]
        if k < 15:
            return ['conv', sl, q.pick(INPUTS)]
        return ['init', sl]
    return {'slots': slots, 'ops': s.list(op, 60, 10)}


def up(k):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in k)


def run(env, case):
    r = Req()
    for i, c in enumerate(case['slots']):
        r.create(i, c)
        r.init(i)
    H, C, kept, addr = [{}, {}], [{}, {}], {}, {}
    steps = []
    seen = False
    for o in case['ops']:
        k = o[0]
        if k == 'set':
            r.hash_op('set', o[1], o[2], o[3])
            H[o[1]][o[2]] = o[3]
        elif k in ('get', 'has'):
            w = H[o[1]].get(o[2], 0) if k == 'get' else int(o[2] in H[o[1]])
            seen = seen or o[2] in H[o[1]]
            steps.append((o, r.hash_op(k, o[1], o[2]), w))
        elif k == 'del':
            r.hash_op('del', o[1], o[2])
            H[o[1]].pop(o[2], None)
        elif k == 'cset':
            r.counter_set(o[1], o[2], o[3])
            C[o[1]][up(o[2])] = ('set', o[3])
            steps.append((o, None, ('w', o[1], up(o[2]), o[3])))
        elif k == 'cget':
            seen = seen or up(o[2]) in C[o[1]]
            steps.append((o, r.counter(o[1], o[2]), ('c', o[1], up(o[2]))))
        elif k == 'reset':
            r.counter_reset(o[1], o[2])
            steps.append((o, None, ('z', o[1], o[2] if o[2] is None else up(o[2]))))
        elif k == 'keep':
            steps.append((o, r.counter_keep(o[2], o[1], o[3]), ('k', o[1], up(o[3]))))
            kept[o[2]] = (o[1], up(o[3]))
        elif k == 'kget' and o[1] in kept:
            seen = True
            steps.append((o, r.kept_get(o[1]), ('c',) + kept[o[1]]))
        elif k == 'kset' and o[1] in kept:
            r.kept_set(o[1], o[2])
            steps.append((o, None, ('w',) + kept[o[1]] + (o[2],)))
        elif k == 'init':
            r.init(o[1])
        elif k == 'conv':
            c = case['slots'][o[1]]
            r.init(o[1])
            f = r.feed(o[1], o[2], flush=True)
            r.create(3, c)
            r.init(3)
            f2 = r.feed(3, o[2], flush=True)
            n2 = r.counters(3)
            r.destroy(3)
            steps.append((o, None, ('f', o[1], f, f2, n2)))
        steps.append((o, r.counters(o[1]) if k not in ('kget', 'kset') else None, 'all'))
    # at the end every key ever named is what it should be
    for i in (0, 1):
        for key in sorted({o[2] for o in case['ops'] if o[0] in ('set', 'get', 'has', 'del') and o[1] == i}):
            steps.append((['final', i, key], r.hash_op('has', i, key), int(key in H[i])))
            steps.append((['final', i, key], r.hash_op('get', i, key), H[i].get(key, 0)))
    rep = env.call(r)
    M = [{}, {}]
    for o, k, w in steps:
        if w == 'all':
            if k is not None:
                util.same(util.clean(rep[k]), util.clean(M[o[1]]), 'counters after %r' % (o,))
        elif isinstance(w, int):
            util.same(rep[k], w, 'hash %r' % (o,))
        elif w[0] == 'w':
            M[w[1]][w[2]] = w[3]
        elif w[0] == 'c':
            util.same(rep[k], M[w[1]].get(w[2], 0), 'counter %r' % (o,))
        elif w[0] == 'z':
            M[w[1]] = {} if w[2] is None else {a: b for a, b in M[w[1]].items() if a != w[2]}
        elif w[0] == 'k':
            a = addr.setdefault(w[1:], rep[k])
            if a != rep[k]:
                raise Violation('counter %r moved' % (o,))
            for other, b in addr.items():
                if b == rep[k] and other != w[1:]:
                    raise Violation('counters %r and %r share a place' % (other, w[1:]))
        elif w[0] == 'f':
            util.same(rep[w[2]], rep[w[3]], 'conversion within the history, %r' % (o,))
            for a, b in util.clean(rep[w[4]]).items():
                M[w[1]][a] = M[w[1]].get(a, 0) + b
    return seen, 'history'


PARTS = [Part('histories', gen, run, 80000), Part('long histories', scaled(gen, 10, 40), run, 800)]
