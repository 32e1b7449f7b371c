"""C04: any conversion string is accepted or rejected cleanly."""
import os
from ..core import Discard, Part, Violation
from ..client import Req, AUTO
from .. import pipes, util
from . import c15

PROPERTY = 'C04'
RULE = 'spelling: the two spellings differ and the string is rejected or gives output; otherwise '
RULE += 'non-trivial: the string contains a separator or argument and is either accepted, or rejected with at least one syntactically valid codec name in it'
ASSUMPTIONS = ['strings are zero-terminated', 'errno values EDOOFUS/EOPNOTSUPP/ENOMEM/EINVAL are the documented failures (bsdconv_error)']

KEYWORDS = ['FOR', 'LIMIT', 'MARK', 'UNMARK', 'AFTER', 'BEFORE', 'MIN-LEN', 'WITH', 'AS', 'MODE', 'PREFIX', 'SUFFIX', 'ERROR', 'DROP', 'CESU', 'LOOSE', 'NUL', 'OVERLONG', 'SUPER', 'AMBI-AS-WIDE', 'STDERR', 'SEP', 'X']
VALUES = ['', '3F', '013F', '013', '01FFFD.0161', 'UNICODE', 'BYTE', 'CJK', 'ANSI', 'UTF-8', 'NOSUCH', '0', '1', '16', '8', '10', '-1', '99999999999', 'x', 'zz', '5C', '.', '..', '0161.', 'latin1', 'cjk', '/', 'TRAINED', '7F', '%s', '1B']


def arg(s):
    k = s.n(5)
    if k == 0:
        return s.pick(VALUES)
    if k == 1:
        return s.pick(KEYWORDS)
    a = s.pick(KEYWORDS) + '=' + s.pick(VALUES)
    return a.lower() if s.chance(10) else a


CELLS = ['0161', '0161.0162', '014E00.010A', '01FFFD', '3F', '', '0161.']
BADCELLS = ['zz', '0161.zz', '01g1', '0161.0162.x', '.zz', '-']
FILT = ['CJK', 'ANSI', 'LATIN1', 'cjk', '01', 'BYTE']
BADFILT = ['NOSUCH', '', '../CJK', 'CJK.so']
NUM = ['0', '1', '3', '-1', '99999999999', '12x']
BADNUM = ['x', '', 'zz', '.']
OWN = {
    'from': {'ANY': [('', CELLS, BADCELLS), ('ERROR', ['', 'E1'], []), ('DROP', [''], [])], 'PASS': [('UNMARK', [''], []), ('FOR', FILT, BADFILT)], '_UTF-8': [(k, [''], []) for k in ('CESU', 'LOOSE', 'NUL', 'OVERLONG', 'SUPER')]},
    'inter': {'INSERT': [('AFTER', CELLS, BADCELLS), ('BEFORE', CELLS, BADCELLS)], 'REPLACE': [(None, CELLS, BADCELLS)], 'PASS': [('FOR', FILT, BADFILT), ('LIMIT', NUM, BADNUM)],
              'COUNT': [('FOR', FILT, BADFILT), ('', ['N', 'K2'], [])], 'STRINGS': [('FOR', FILT, BADFILT), ('MIN-LEN', NUM, BADNUM), ('AFTER', CELLS, BADCELLS), ('BEFORE', CELLS, BADCELLS)],
              'TRIM-WIDTH': [('', NUM, BADNUM), ('AMBI-AS-WIDE', [''], [])], 'SCORE': [('WITH', ['CJK', 'LATIN1', 'cjk'], ['NOSUCH', '']), ('AS', ['SC', ''], [])]},
    'to': {'ANY': [('', CELLS, BADCELLS), ('ERROR', ['', 'E1'], []), ('DROP', [''], [])], 'PASS': [('MARK', [''], []), ('FOR', FILT, BADFILT)], '_UTF-8': [(k, [''], []) for k in ('CESU', 'LOOSE', 'SUPER')],
           'ESCAPE': [('PREFIX', ['5C', '2575', ''], ['zz', '5']), ('SUFFIX', ['3B', ''], ['zz', '5']), ('MODE', ['16', 'HEX', '10', '8', 'OCT'], ['7', '', 'x']), ('FOR', ['UNICODE', 'BYTE', '1', '3'], ['CJK', ''])]},
}


def own_args(s):
    """a codec with arguments it knows, in any order, any number of times, with good and bad values -> (kind, codec)"""
    kind = s.pick(['inter', 'to', 'from', 'inter'])
    n = s.pick(sorted(OWN[kind]))
    bad = s.chance(60)
    out = []
    for _ in range(1 + s.n(3)):
        k, good, ng = s.pick(OWN[kind][n])
        v = s.pick(ng) if bad and ng and s.chance(40) else s.pick(good)
        if k is None:
            k, v = v, s.pick(CELLS if s.chance(70) else BADCELLS)
        out.append(k + '=' + v if k and (v or s.chance(30)) else k or v)
    if s.chance(15):
        out.insert(s.n(len(out)), 'X')
    return kind, n + '#' + '&'.join(out)


def gen_own(s, env):
    kind, c = own_args(s)
    if s.chance(20):
        k2, c2 = own_args(s)
        if k2 == kind:
            c += ',' + c2
    return {'conv': ':'.join({'from': [c, 'UTF-8'], 'inter': ['UTF-8', c, 'UTF-8'], 'to': ['UTF-8,BYTE', c]}[kind]), 'data': pipes.to_utf8(pipes.text(s, 8))}


def gen_args(s, env):
    """a codec that takes arguments with arbitrary ones"""
    if s.chance(50):
        return gen_own(s, env)
    reg = pipes.registry(env.repo)
    kind = s.pick(['inter', 'to', 'from'])
    m = {'from': pipes.FROM_ARGS, 'inter': pipes.INTER_ARGS, 'to': pipes.TO_ARGS}[kind]
    names = sorted(m)
    if kind == 'inter':
        names = names + ['SCORE-TRAIN']
    if kind == 'to':
        names = names + ['BSDCONV-OUTPUT', 'BSDCONV-LOG']
    if kind == 'from':
        names = names + ['BSDCONV-LOG']
    n = s.pick(names) if s.chance(85) else s.pick(reg[kind])
    args = s.list(arg, 4)
    c = n + ('#' + '&'.join(args) if args or s.chance(20) else '')
    if s.chance(20):
        c = c + ',' + c
    ph = {'from': [c, 'UTF-8'], 'inter': ['UTF-8', c, 'UTF-8'], 'to': ['UTF-8,BYTE', c]}[kind]
    return {'conv': ':'.join(ph), 'data': pipes.to_utf8(pipes.text(s, 8))}


def gen_mut(s, env):
    """valid conversions with characters inserted, deleted, doubled, case-changed"""
    t = pipes.conv(s, env) if s.chance(80) else ''
    for _ in range(s.size(5)):
        p = s.n(len(t))
        k = s.n(6)
        if k == 0:
            t = t[:p] + t[p + 1:]
        elif k == 1:
            t = t[:p] + s.pick(['|', ':', ',', '#', '&', '=', '.', ' ', '\t', '\n', '_', '-', '/', '*', '0', 'A', '\x7f', '\xe9', '\\', '%s', '"', "'"]) + t[p:]
        elif k == 2:
            t = t[:p] + t[p:].lower()
        elif k == 3:
            q = s.n(len(t))
            a, b = min(p, q), max(p, q)
            t = t[:a] + t[a:b] + t[a:]
        elif k == 4:
            t = t[:p]
        elif k == 5:
            t = s.pick(['utf-8', ':', '|', ',', '..', '../to/UTF-8', 'NOSUCH', 'FROM', '.', 'alias', 'A' * 300]) + t
        else:
            t = t[:p] + s.pick(['UTF-8', '_UTF-8', 'BIG5', 'UPPER', 'ANY', 'PASS', 'NFC', 'URL', '..', '.', 'utf_8', 'alias']) + t[p:]
    return {'conv': t[:900].encode('utf-8', 'surrogateescape').replace(b'\0', b'').decode('utf-8', 'surrogateescape'), 'data': pipes.to_utf8(pipes.text(s, 6))}


def gen_raw(s, env):
    al = [':', '|', ',', '#', '&', '=', ' ', 'utf-8', 'ascii', 'upper', 'any', '3f', '01', '.', '/', 'x', 'big5', 'nfd', 'pass']
    return {'conv': ''.join(s.list(lambda q: q.pick(al) if q.chance(90) else chr(1 + q.n(254)), 16)), 'data': b'a\xe6\xb8\xac\n'}


def gen_long(s, env):
    """long names, long arguments, a great many arguments, codecs, phases or joints"""
    g = s.pick([gen_own, gen_args, gen_mut, gen_raw])(s, env)
    c = g['conv']
    n = pipes.big(s, 13, 5)
    k = s.n(5)
    if k == 0:
        p = s.n(len(c))
        c = c[:p] + s.pick(['A', 'a', '0', '01', '.', '/', ' ', '0161.', '&', '&x', ',ASCII', ',PASS', '%', '..', '../', '\xe9', '=']) * n + c[p:]
    elif k == 1:
        sep = s.pick([':', '|', ',', '&', '#', '=', '.'])
        c = sep.join([c] * min(n, 2 + 1200 // (len(c) + 1))) if c else sep * n
    else:
        sep = s.pick([':', '|', ',', '&', '.'])
        ps = c.split(sep)
        i = s.n(len(ps) - 1)
        ps[i:i + 1] = [ps[i]] * min(n, 2 + 1200 // (len(ps[i]) + 1))
        c = sep.join(ps)
    # many stages that insert something would not end
    return {'conv': c, 'data': g['data'] if k == 0 else b''}


def gen_enormous(s, env):
    """a conversion of up to some million characters; the case holds how it is made"""
    unit = s.pick([':', '|', ',', 'UTF-8:', 'a|', 'UTF-8,', 'X#y:', ' ', '\t\n', 'A', '&', '.'])
    return {'pre': s.pick(['', 'UTF-8', 'UTF-8:', 'UTF-8:UTF-8|', 'ASCII#']), 'unit': unit, 'n': [0, 1000, 65600, 300000, 1200000, 2500000][s.n(5)] + s.n(20), 'post': s.pick(['', ':', '::UTF-8', ',', 'UTF-8:UTF-8', ':UTF-8'])}


def run_enormous(env, case):
    conv = case['pre'] + case['unit'] * case['n'] + case['post']
    if len(conv) > 20000 and conv.count(':') + conv.count('|') + conv.count(',') > 20000 and not ('::' in conv or '||' in conv or ',,' in conv or conv[0] in ':|,' or conv[-1] in ':|,'):
        # looking up so many codecs takes a while
        raise Discard
    return run(env, {'conv': conv, 'data': b'aB'})


# ------------------------------------------------------------------ what is to be expected

WS = b' \t\r\n\f'
NEEDS = {'from': {'ANY'}, 'inter': {'REPLACE', 'TRIM-WIDTH', 'SCORE', 'INSERT'}, 'to': {'ANY', 'ESCAPE'}}   # codecs which may want arguments


def expected(env, conv):
    """reasons for which a conversion may be rejected; None stands for 'accepted'"""
    b = bytes(x for x in conv.encode('utf-8', 'surrogateescape').split(b'\0')[0] if x not in WS)
    c = b.decode('utf-8', 'surrogateescape')
    reg = pipes.registry(env.repo)
    parts = [st.split(':') for st in c.split('|')]
    if any(x.split('#')[0] == '' for st in parts for p in st for x in p.split(',')):
        return {22}
    sure = True
    for st in parts:
        for i, p in enumerate(st):
            kind = 'inter' if len(st) == 1 else 'from' if i == 0 else 'to' if i == len(st) - 1 else 'inter'
            for x in p.split(','):
                names, args = known(env, reg, kind, x)
                if names is None:
                    # several alias names in one are a known finding of C22; they end in a rejection
                    return {95, 22} if any(a in up(x) for a in reg['alias'][kind]) else {95}
                if args or set(names) & NEEDS[kind] or any(n in pipes.ENVDEP or 'LOCALE' in n for n in names):
                    sure = False
                if len(st) == 1 and (':' in c15.expand_all(env, 'inter', x) or ':' in c15.expand_all(env, 'inter', x.split('#')[0])):
                    return {None, 22, 95}
    return {None} if sure else {None, 22, 95, 12}


def up(x):
    return ''.join(chr(ord(ch) - 32) if 'a' <= ch <= 'z' else ch for ch in x)


def known(env, reg, kind, x):
    """-> (names of codecs, whether there are arguments), (None, _) when the name is not known"""
    n = up(x.split('#')[0])
    args = '#' in x
    if n in reg[kind]:
        return [n], args
    al = reg['alias'][kind]
    if n in al:
        out = []
        for p in al[n].split(':'):
            for y in p.split(','):
                m = y.split('#')[0]
                if m == n and '#' not in y:
                    return None, args
                k, a = known(env, reg, kind, y)
                if k is None:
                    return None, args
                out += k
        return out, args
    if n == 'LOCALE' or kind == 'inter' and n == 'UNICODE':
        return [n, 'LOCALE'], args
    return None, args


def run(env, case):
    r = Req()
    x0 = r.resources()
    k = r.create(0, case['conv'].encode('utf-8', 'surrogateescape'))
    r.init(0)
    f = r.feed(0, case['data'], flush=True)
    f2 = r.feed(0, case['data'][:2])
    r.pack(0)
    x1 = r.resources()
    rep = env.call(r)
    ok, err, msg = rep[k]
    want = expected(env, case['conv'])
    if ok and None not in want:
        raise Violation('%r is accepted, although it %s' % (case['conv'], 'has an empty phase or codec' if 22 in want else 'names an unknown codec'))
    if not ok and err not in want:
        raise Violation('%r is rejected with error %d%s' % (case['conv'], err, '' if want == {None} else ' instead of %s' % sorted(x for x in want if x)))
    if not ok:
        if err not in (88, 95, 12, 22):
            raise Violation('creation failed with undocumented error %d' % err)
        if rep[f][0] != -1:
            raise Violation('rejected conversion has an instance')
    if rep[x0][2] != rep[x1][2]:
        raise Violation('working directory changed to %r' % rep[x1][2])
    c = case['conv']
    nt = any(ch in c for ch in ':|#,') and (ok or any(ch.isalnum() for ch in c))
    return nt, ('accepted' if ok else 'rejected %d' % err)


# ------------------------------------------------------------------ white space and letter case

def gen_spelling(s, env):
    k = s.n(9)
    if k < 5:
        c = pipes.conv(s, env)
        d = pipes.input_for(s, env, c)
    else:
        g = (gen_args if k < 7 else gen_mut if k < 9 else gen_raw)(s, env)
        c, d = g['conv'], g['data']
    c2 = c
    if s.chance(50):
        # names in another letter case
        out, name = '', True
        for ch in c2:
            name = False if ch == '#' else True if ch in ':|,' else name
            out += (ch.swapcase() if name and ch.isascii() and s.n(1) else ch)
        c2 = out
    for _ in range(s.n(4)):
        p = s.n(len(c2))
        c2 = c2[:p] + s.pick([' ', '\t', '\n', '\r', '\f', ' \r\n', '\f\t ', ' ' * 40]) + c2[p:]
    return {'conv': c.replace('\0', ''), 'conv2': c2.replace('\0', ''), 'data': d}


def run_spelling(env, case):
    r = Req()
    got = []
    for c in (case['conv'], case['conv2']):
        k = r.create(0, c.encode('utf-8', 'surrogateescape'))
        r.init(0)
        f = r.feed(0, case['data'], flush=True)
        n = r.counters(0)
        p = r.pack(0)
        r.destroy(0)
        got.append((k, f, n, p))
    rep = env.call(r)
    a, b = got
    what = '%r and %r' % (case['conv'], case['conv2'])
    util.same(rep[b[0]][:2], rep[a[0]][:2], what + ': created, error')
    if not rep[a[0]][0]:
        return case['conv'] != case['conv2'], 'rejected'
    util.same(rep[b[1]], rep[a[1]], what + ' of %r' % case['data'])
    util.same(util.clean(rep[b[2]]), util.clean(rep[a[2]]), what + ': counters')
    return case['conv'] != case['conv2'] and bool(rep[a[1]][2]), 'accepted'


# ------------------------------------------------------------------ an installation that is not there, or lacks what every alias needs

GONE = ['nowhere', 'empty', 'bare', 'file', '']
VITAL = [('from', 'ASCII'), ('to', 'ASCII'), ('inter', 'COUNT'), ('inter', 'ALIAS-FROM'), ('inter', 'ALIAS-INTER'), ('inter', 'ALIAS-TO')]


def table_names(env, kind):
    """(modules without code of their own, aliases for which this goes all the way)"""
    key = 'c04-tables-' + kind
    if key not in env.cache:
        reg = pipes.registry(env.repo)
        code = os.path.join(env.repo, 'modules', kind)
        mods = sorted(n for n in reg[kind] if not os.path.exists(os.path.join(code, n + '.c')) or n == '_UTF-8')
        al = []
        for a in sorted(reg['alias'][kind]):
            k, args = known(env, reg, kind, a)
            if k and not args and all(n in mods for n in k) and '#' not in c15.expand_all(env, kind, a) and ':' not in c15.expand_all(env, kind, a):
                al.append(a)
        env.cache[key] = mods, al
    return env.cache[key]


def gen_install(s, env):
    phases = []
    for kind in ['from'] + ['inter'] * s.n(2) + ['to']:
        mods, al = table_names(env, kind)
        phases.append(','.join(s.pick(al) if al and s.chance(40) else s.pick(mods) if s.chance(90) else 'NOSUCH' for _ in range(1 + (s.n(2) if s.n(1) else 0))))
    c = ':'.join(phases)
    if s.chance(15):
        c = c[:s.n(len(c))]
    return {'conv': c.lower() if s.n(1) else c, 'lack': s.n(len(VITAL) - 1) if s.chance(75) else s.pick(GONE), 'data': b'a\xe6\xb8\xac\n'}


def run_install(env, case):
    lack, conv = case['lack'], case['conv']
    d = os.path.join(env.tmp, 'lack-%s' % lack)
    full = os.path.join(env.root, env.kind)
    if lack not in env.cache.setdefault('lacking', set()):
        env.cache['lacking'].add(lack)
        if lack == 'file':
            open(d, 'w').close()
        elif lack not in ('nowhere', ''):
            os.makedirs(d)
            for k in () if lack == 'empty' else ('from', 'inter', 'to', 'filter', 'scorer'):
                os.makedirs(os.path.join(d, 'share/bsdconv', k))
                for n in os.listdir(os.path.join(full, 'share/bsdconv', k)) if isinstance(lack, int) else ():
                    if (k, n.replace('.so', '')) != VITAL[lack]:
                        os.symlink(os.path.join(full, 'share/bsdconv', k, n), os.path.join(d, 'share/bsdconv', k, n))
    r = Req()
    x0 = r.resources()
    r.setenv('BSDCONV_PATH', d if lack != '' else '')
    k = r.create(0, conv)
    r.init(0)
    f = r.feed(0, case['data'], flush=True)
    r.destroy(0)
    r.setenv('BSDCONV_PATH', full)
    x1 = r.resources()
    w = r.create(1, conv)
    r.init(1)
    g = r.feed(1, case['data'], flush=True)
    rep = env.call(r)
    what = '%r without %s' % (conv, '/'.join(VITAL[lack]) if isinstance(lack, int) else 'an installation (%s)' % lack)
    util.same(rep[x1][1:], rep[x0][1:], what + ': descriptors and working directory')
    parts = conv.split(':')
    needs = False
    reg = pipes.registry(env.repo)
    for i, p in enumerate(parts):
        kind = 'inter' if len(parts) == 1 else 'from' if i == 0 else 'to' if i == len(parts) - 1 else 'inter'
        for x in p.split(','):
            module = up(x) in reg[kind]
            if not isinstance(lack, int) or (kind, up(x)) == VITAL[lack] or not module and (VITAL[lack][1] in ('ASCII', 'COUNT') or VITAL[lack][1] == 'ALIAS-' + kind.upper()):
                needs = True
    if rep[w][0] and not needs:
        util.same(rep[k][0], rep[w][0], what + ': created')
        util.same(rep[f], rep[g], what)
    elif rep[k][0]:
        raise Violation(what + ' is accepted')
    elif not rep[w][0] and rep[w][1] == 22:
        util.same(rep[k][1], 22, what + ': error')
    elif rep[k][1] not in (95, 88):
        raise Violation('%s: error %d' % (what, rep[k][1]))
    return rep[w][0], ('accepted' if rep[k][0] else 'rejected')


PARTS = [Part('spelling', gen_spelling, run_spelling, 40000), Part('arguments', gen_args, run, 150000), Part('mutated', gen_mut, run, 120000), Part('raw', gen_raw, run, 50000),
         Part('installation', gen_install, run_install, 16000),
         Part('long', gen_long, run, 4000), Part('enormous', gen_enormous, run_enormous, 400)]
