"""C29: what a conversion occupies does not grow with what it has converted."""
from ..core import Part, Violation, Discard, scaled
from ..client import Req, AUTO
from .. import pipes, util

PROPERTY = 'C29'
PLAIN = False   # only the sanitizer tells what is allocated
RULE = 'non-trivial: the conversion was created, the input produced output or counts, and (for a stream) nothing of it was still pending at its end'
ASSUMPTIONS = ['modules that write to files or standard error are left out', 'no input at all, again and again, is not a stream', 'a stream whose repeated input ends inside of something that is still undecided may be kept']

STREAM, AGAIN, ABANDON = 0, 1, 2


def case(s, env, c, d):
    d = d or s.pick([b'a', b'\n', b'\0', b'\xff'])
    return {'conv': c, 'data': d, 'how': s.pick([STREAM, STREAM, AGAIN, ABANDON]), 'out': s.weighted([(4, 0), (3, 1), (3, 2)]), 'to': s.pick(['UTF-8:UTF-8', 'UTF-8:UPPER:UTF-16LE', 'ASCII,BYTE:PASS', 'UTF-8,ANY#013f:ASCII,ESCAPE#PREFIX=2575'])}


def gen(s, env):
    c = pipes.conv(s, env)
    return case(s, env, c, pipes.input_for(s, env, c) + s.pick([b'', b'', b'\n', b'a\n', b'.\r\n']))


def gen_state(s, env):
    c = pipes.stateful(s, env)
    return case(s, env, c, pipes.runs(s, env, c) + s.pick([b'', b'', b'\n', b'a\n', b'.\r\n']))


def gen_single(s, env):
    k = s.n(2)
    fr = pipes.codec(s, env, 'from', alias=10) if k == 0 else s.pick(pipes.COMMON_FROM)
    mid = pipes.codec(s, env, 'inter', alias=30) if k == 1 else None
    to = pipes.codec(s, env, 'to', alias=10) if k == 2 else s.pick(pipes.COMMON_TO)
    c = ':'.join(x for x in (fr, mid, to) if x)
    return case(s, env, c, pipes.input_for(s, env, c) + s.pick([b'', b'', b'\n', b'a\n']))


def gen_strings(s, env):
    f, kept, cut = s.pick([(None, ['a', 'xyz', '\u4e2d', ' '], ['\x01', '\n', '\x7f']), ('GREEK', ['\u03b1', '\u03b2'], ['a', ' ', '\n']), ('CJK', ['\u4e2d', '\u6587'], ['a', '\n']), ('PRINT', ['a', '~'], ['\r\n', '\x1b'])])
    o = (['FOR=' + f] if f else []) + (['MIN-LEN=%d' % s.n(4)] if s.chance(70) else []) + (['AFTER=%s' % s.pick(['010A', '013B.010A'])] if s.chance(30) else []) + (['BEFORE=0128'] if s.chance(30) else [])
    c = 'UTF-8:STRINGS%s:%s' % ('#' + '&'.join(o) if o else '', s.pick(['UTF-8', 'UTF-16LE', 'BYTE,ANY#013f', 'UPPER:UTF-8']))
    x = ''.join(s.list(lambda s: s.pick(kept) if s.chance(70) else s.pick(cut), 8)) + s.pick(cut)
    return dict(case(s, env, c, x.encode()), cut=1)


def gen_rails(s, env):
    st = ':'.join(s.list(lambda s: s.pick(['UPPER', 'FULL', 'ZHTW', 'NFD', 'NFC', 'INSERT#AFTER=010021', 'REPLACE#0161=0162', 'AMBIGUOUS-PAD', 'WIDTH', 'PASS', 'COUNT', 'KANA-PHONETIC', 'FULL,HALF']), 3, 1))
    x = ''.join(s.list(lambda s: s.pick([' ', ' ', '\n', '\t', '\r', 'a', 'b', '\u4e2d', '\u3042', '\u0301', '\xa1', 'word']), 12))
    if 'NFC' in st:
        x = x.replace('\u0301', 'c')   # where characters become fewer, white space gets behind more and more
    return case(s, env, '%s:WHITESPACE-DERAIL:%s:WHITESPACE-RERAIL:%s' % (s.pick(['UTF-8', 'UTF-8,ASCII']), st, s.pick(['UTF-8', 'UTF-16LE', 'ANY#013f'])), x.encode())


def run(env, case):
    conv, x, how, out = case['conv'], case['data'], case['how'], case['out']
    if 'WHITESPACE-DERAIL' in conv.upper() and ':WHITESPACE-RERAIL' not in conv.upper().split('WHITESPACE-DERAIL')[-1].split('|')[0]:
        raise Discard()   # white space is put aside for ever
    if how == STREAM and any('BSDCONV' in c.split(':')[0] and (i or not x.endswith(b',')) for i, c in enumerate(conv.upper().split('|'))):
        raise Discard()   # a cell goes on until a comma
    if how == STREAM and 'STRINGS' in conv.upper() and not case.get('cut'):
        raise Discard()   # a string goes on until something else
    if how == STREAM and pipes.odd(env, conv):
        raise Discard()   # codecs which do not work in these places
    r = Req()
    k = r.create(0, conv)
    r.create(1, case['to'])
    fs, cs = [], []
    for n in (2, 4, 6):
        r.init(0)
        r.counter_reset(0, None)
        fs.append([r.feed(0, x) for _ in range(n)])
        a = r.counters(0)
        e = r.feed(0, None, flush=True)
        cs.append((a, e, r.counters(0)))

    def soak(q, reps):
        q.init(0)
        q.init(1)
        return q.soak(0, x, reps, how, out, 1)
    m = soak(r, 40)
    r.destroy(0)
    r.destroy(1)
    rep = env.call(r)
    if not rep[k][0]:
        return False, 'rejected'
    # what is decided only by what follows: as much of it after six repetitions as after two and four
    late = [(len(rep[e][2]), {c: v - rep[a].get(c, 0) for c, v in rep[b].items() if v != rep[a].get(c, 0)}) for a, e, b in cs]
    pending = not late[0] == late[1] == late[2]
    made = any(rep[f][2] for f in fs[0]) or any(util.clean(rep[a]) for a, e, b in cs)
    label = ['stream', 'used again', 'abandoned'][how] + (' (pending)' if pending and how == STREAM else '')
    if how == STREAM and pending:
        return False, label
    if grows(rep[m]):
        r = Req()
        r.create(0, conv)
        r.create(1, case['to'])
        m2 = soak(r, 400)
        r.destroy(0)
        r.destroy(1)
        b = env.call(r)[m2]
        if grows(b) and b[3] - b[1] >= 4 * (rep[m][3] - rep[m][1]):
            raise Violation('%s, %s %r: %s bytes more are allocated after 200 more repetitions' % (conv, ('one stream of', 'used again and again for', 'given up again and again inside')[how], x[:40], b[3] - b[1]))
    return made, label


def grows(m):
    return m[0] < m[1] < m[2] < m[3]


PARTS = [Part('pipelines', gen, run, 16000), Part('single', gen_single, run, 16000), Part('stateful', gen_state, run, 20000), Part('rails', gen_rails, run, 4000), Part('strings', gen_strings, run, 3000), Part('long', scaled(gen, 10, 30), run, 800)]
