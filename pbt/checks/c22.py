"""C22: module discovery is consistent with what can be created.

Oracle: the set of modules and aliases in the source tree, or (directories) in a generated directory."""
import os, shutil, subprocess, tempfile
from ..core import Part, Violation, Discard
from ..client import Req, Crash, asan_env, summary, FROM, INTER, TO, FILTER, SCORER
from .. import pipes, util

PROPERTY = 'C22'
RULE = 'non-trivial: at least one of the names asked about exists and one does not (names, directories), or a listed name was looked up and created (listed)'
ASSUMPTIONS = ['module files and alias names are upper-case words of letters, digits, - and _', 'the CNS11643 aliases need modules that are distributed separately', 'LOCALE (from, to) and UNICODE (inter) are computed by the alias modules and not listed', 'BSDCONV_PATH names a directory with the usual layout; the working directory exists',
               'codecs that cannot be created without arguments (REPLACE, TRIM-WIDTH, SCORE-TRAIN, BSDCONV-LOG) are created with some']
TYPES = {'from': FROM, 'inter': INTER, 'to': TO, 'filter': FILTER, 'scorer': SCORER}
WRAP = {'from': '%s:UTF-8', 'inter': 'UTF-8:%s:UTF-8', 'to': 'UTF-8:%s', 'filter': 'UTF-8:PASS#FOR=%s:UTF-8', 'scorer': 'UTF-8:SCORE#WITH=%s:UTF-8'}
WHAT = list(TYPES)
NEED = {'REPLACE': '#0161=0162', 'TRIM-WIDTH': '#5'}
OTHERS = {('from', 'BSDCONV-LOG'), ('to', 'BSDCONV-LOG'), ('inter', 'SCORE-TRAIN')}
SEPARATE = {'CNS11643'}
# computed aliases: the character set of the locale, and the inter stage for Unicode (nothing to do in this build)
COMPUTED = {('from', 'LOCALE'), ('to', 'LOCALE'), ('inter', 'UNICODE')}


def modules(env, kind):
    return set(pipes.registry(env.repo)[kind])


def aliases(env, kind):
    return pipes.registry(env.repo)['alias'].get(kind, {})


# ------------------------------------------------------------------ every listed name

def all_names(env):
    out = [{'kind': k, 'name': None} for k in WHAT] + [{'kind': k, 'name': None, 'type': t} for k in ['none'] for t in (-1, 0, 6, 99)]
    for k in WHAT:
        out += [{'kind': k, 'name': n} for n in sorted(modules(env, k) | set(aliases(env, k)))]
    return out


def variants(n):
    return [n, n.lower(), ''.join(c.lower() if i % 2 else c for i, c in enumerate(n)), n[:1].lower() + n[1:], n[:-1] + n[-1:].lower()]


def run_listed(env, case):
    kind, name = case['kind'], case['name']
    r = Req()
    if name is None:
        t = TYPES.get(kind, case.get('type'))
        a, b = r.modules_list(t), r.codecs_list(t)
        rep = env.call(r)
        want = sorted(modules(env, kind) | set(aliases(env, kind))) if kind in TYPES else []
        for x in (a, b):
            util.same(rep[x], want, 'list of type %s' % kind)
        return True, 'list'
    t = TYPES[kind]
    x0 = r.resources()
    ix = [(v, r.module_check(t, v), r.codec_check(t, v), r.solve_alias(t, v), r.create(0, WRAP[kind] % (v + NEED.get(name, ''))), r.destroy(0)) for v in variants(name)]
    x1 = r.resources()
    rep = env.call(r)
    mod, al = name in modules(env, kind), aliases(env, kind).get(name)
    for v, m, c, s, k, _ in ix:
        what = '%s %s: ' % (kind, v)
        util.same(rep[m], 1 if mod else 0, what + 'module check')
        util.same(rep[c], 1 if mod else 0, what + 'codec check')
        util.same(rep[s], al and al.encode(), what + 'alias')
        if name in SEPARATE or (kind, name) in OTHERS:
            continue
        if not rep[k][0]:
            raise Violation(what + 'is listed but cannot be created (%s)' % rep[k][2])
    util.same(rep[x1][1:], rep[x0][1:], 'descriptors and working directory after looking for %s %s' % (kind, name))
    return True, kind


def gen_listed(s, env):
    return s.pick(env.cache.setdefault('c22all', None) or env.cache.__setitem__('c22all', all_names(env)) or env.cache['c22all'])


# ------------------------------------------------------------------ any name

PATHS = ['', '.', '..', '/', '../to/UTF-8', '../from/ASCII', './ASCII', 'ASCII/', '/etc/passwd', 'alias', 'ALIAS', 'from/ASCII', 'ASCII.so', 'ESCAPE.so', 'ESCAPE.SO', 'UNICODE.so', '..\\x', '~', '*', '?', '-', '_', '%s%n', 'a' * 5000, 'A' * 255, '\xe9', '\u6587', 'UTF-8\xe9', '\xff', 'UTF_8', 'UTF8', 'UTF-8-', '-UTF-8', 'NULL', 'CON', 'ASCII.', 'ASCII:', 'ASCII,', 'ASCII|', 'ASCII#', 'CJK&', '4E00', '0141', '?3F', '3f', '01', '1b', '$HOME', '`ls`']


def gen_name(s, env):
    k = s.n(11)
    kind = s.pick(WHAT[:4])
    pool = sorted(modules(env, kind)) + sorted(aliases(env, kind))
    if k < 3:
        n = s.pick(pool)
    elif k < 7:
        n = s.pick(pool)
        i = s.n(len(n) - 1)
        n = s.weighted([(2, n[:i] + n[i + 1:]), (2, n[:i] + s.pick('AZ09-_ \tx.') + n[i + 1:]), (2, n[:i] + s.pick('AZ09-_x.') + n[i:]), (1, n + s.pick(['0', '-', '8', 'X'])), (1, n[:i])])
    elif k < 9:
        n = s.pick(PATHS)
    else:
        n = ''.join(s.pick('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_') for _ in range(s.n(12)))
    m = s.n(3)
    return n if m < 2 else n.lower() if m == 2 else ''.join(c.lower() if s.n(1) else c for c in n)


def gen_names(s, env):
    return {'names': [gen_name(s, env) for _ in range(1 + s.n(5))]}


PLAIN = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_')


def up(n):
    return ''.join(c.upper() if 'a' <= c <= 'z' else c for c in n)


def joined(env, kind, n):
    """several alias names written together"""
    if n in aliases(env, kind):
        return False
    ok = {0}
    for i in range(1, len(n) + 1):
        if any(j in ok and n[j:i] in aliases(env, kind) for j in range(i)):
            ok.add(i)
    return len(n) in ok and n != ''


def run_names(env, case):
    r = Req()
    x0 = r.resources()
    ix = []
    for n in case['names']:
        if '\0' in n:
            continue
        for kind, t in TYPES.items():
            # more than a name: the conversion string would mean something else
            whole = set(up(n)) <= PLAIN
            ix.append((n, kind, r.module_check(t, n), r.codec_check(t, n), r.solve_alias(t, n), r.create(0, WRAP[kind] % n) if whole else None))
            r.destroy(0)
    x1 = r.resources()
    rep = env.call(r)
    some = [0, 0]
    for n, kind, m, c, s, k in ix:
        what = '%s %r: ' % (kind, n[:100])
        N = up(n)
        mod, al = N in modules(env, kind), aliases(env, kind).get(N)
        if joined(env, kind, N) or (kind, N) in COMPUTED:
            continue
        some[1 if mod or al else 0] += 1
        util.same(rep[m], 1 if mod else 0, what + 'module check')
        util.same(rep[c], 1 if mod else 0, what + 'codec check')
        util.same(rep[s], al and al.encode(), what + 'alias')
        if k is None or N in SEPARATE or N in NEED or (kind, N) in OTHERS:
            continue
        util.same(rep[k][0], 1 if mod or al else 0, what + 'created')
        if not rep[k][0]:
            util.same(rep[k][2], b'Unsupported charset/encoding or filter' if N else rep[k][2], what + 'error')
    util.same(rep[x1][1:], rep[x0][1:], 'descriptors and working directory after looking for %r' % [n[:60] for n in case['names']])
    return some[0] and some[1], 'names'


# ------------------------------------------------------------------ alias names written together

def pairs(env):
    out = []
    for kind in WHAT[:4]:
        al = sorted(aliases(env, kind))
        for i, a in enumerate(al):
            b = al[(i * 7 + 3) % len(al)]
            if a + b not in aliases(env, kind) and a + b not in modules(env, kind):
                out.append({'kind': kind, 'name': a + b})
    return out


def run_joined(env, case):
    kind, n = case['kind'], case['name']
    r = Req()
    s = r.solve_alias(TYPES[kind], n)
    k = r.create(0, WRAP[kind] % n)
    rep = env.call(r)
    if rep[k][0]:
        raise Violation('%s %s can be created' % (kind, n))
    if rep[s] is not None:
        raise Violation('%s %s: alias names written together have the expansion %r' % (kind, n, rep[s]))
    return True, kind


def gen_joined(s, env):
    return s.pick(pairs(env))


# ------------------------------------------------------------------ generated directories

def word(s):
    return s.pick('ABXYZ_') + ''.join(s.pick('ABCXYZ019-_') for _ in range(s.n(6)))


def gen_dir(s, env):
    n = s.pick([0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33]) if s.chance(60) else s.n(40) if s.chance(90) else pipes.big(s, 8, 6)
    kind = s.pick(WHAT)
    mods = [word(s) for _ in range(n)]
    lines = []
    for _ in range(s.weighted([(3, s.n(4)), (3, 8 - n % 8), (2, 0), (1, s.n(30)), (0 if s.chance(95) else 1, 200 + s.n(100))])):
        lines.append(s.weighted([(12, ['alias', word(s), '\t' * (1 + s.n(3)), word(s)]), (2, ['comment', '#' + word(s)]), (2, ['blank', '']), (1, ['long', word(s), '\t', 'X' * s.pick([200, 253, 254, 255, 256, 300, 600]) + ',A']), (1, ['comment', '# ' + 'y' * 400]), (1, ['same', s.pick(mods) if mods else 'A', '\t', 'B'])]))
    return {'kind': kind, 'modules': mods, 'lines': lines, 'eof': s.n(1), 'alias': s.chance(85) and 1 or 0, 'extra': [s.pick(['X.txt', 'Y.so.bak' if kind in WHAT[:3] else 'Y.c', '.hidden', 'README.md', 'Z.map']) for _ in range(s.n(2))], 'ask': [word(s) for _ in range(3)], 'relative': s.n(1)}


def run_dir(env, case):
    kind = case['kind']
    soext = kind in ('filter', 'scorer')
    d = tempfile.mkdtemp(dir=env.tmp)
    try:
        p = os.path.join(d, 'share', 'bsdconv', kind)
        os.makedirs(p)
        for k in WHAT:
            os.makedirs(os.path.join(d, 'share', 'bsdconv', k), exist_ok=True)
        mods = set(case['modules'])
        for m in mods:
            open(os.path.join(p, m + ('.so' if soext else '')), 'w').close()
            if not soext and len(m) % 2:
                open(os.path.join(p, m + '.so'), 'w').close()
        for x in case['extra']:
            open(os.path.join(p, x), 'w').close()
        names = set()
        if case['alias']:
            with open(os.path.join(p, 'alias'), 'w') as f:
                f.write('\n'.join(''.join(l[1:]) for l in case['lines']) + ('\n' if case['eof'] else ''))
            names = {l[1] for l in case['lines'] if l[0] in ('alias', 'long', 'same')}
        t = TYPES[kind]
        r = Req()
        r.setenv('BSDCONV_PATH', d)
        x0 = r.resources()
        a, b = r.modules_list(t), r.codecs_list(t)
        ask = sorted(mods | names)[:20] + case['ask'] + [n.lower() for n in sorted(mods)[:5]] + ['../' + kind + '/' + n for n in sorted(mods)[:2]] + [n + '.so' for n in sorted(mods)[:2]] + ['alias', '']
        ix = [(n, r.module_check(t, n)) for n in ask]
        x1 = r.resources()
        rep = env.call(r)
        want = sorted(mods | names)
        util.same(rep[a], want, 'list of %d modules and %d aliases (%s)' % (len(mods), len(names), kind))
        util.same(rep[b], want, 'codec list (%s)' % kind)
        for n, m in ix:
            util.same(rep[m], 1 if up(n) in mods else 0, 'module check of %s %r' % (kind, n))
        util.same(rep[x1][1:], rep[x0][1:], 'descriptors and working directory after listing')
        return bool(want), kind
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ the tools built on it

def tool(env, name, args, asan):
    root = os.path.join(env.root, 'asan' if asan else 'plain')
    d = tempfile.mkdtemp(dir=env.tmp)
    try:
        p = subprocess.run([os.path.join(root, 'bin', name)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=asan_env(root, 0xff), cwd=d, timeout=60)
    finally:
        shutil.rmtree(d)
    if p.returncode < 0 or b'ERROR: AddressSanitizer' in p.stderr or b'runtime error:' in p.stderr:
        raise Crash(summary(p.returncode, p.stderr.decode('utf-8', 'replace')))
    return p.returncode, p.stdout.decode('utf-8', 'surrogateescape'), p.stderr


def listed(env, kind):
    return sorted(modules(env, kind) | set(aliases(env, kind)))


def gen_tool(s, env):
    k = s.weighted([(12, 'complete'), (3, 'man'), (1, 'list')])
    if k == 'list':
        return {'tool': k, 'asan': s.n(1)}
    if k == 'man':
        kind = s.pick(WHAT[:4])
        n = s.pick(listed(env, kind)) if s.chance(60) else gen_name(s, env)
        return {'tool': k, 'kind': kind, 'name': n, 'two': s.n(1), 'case': s.n(2), 'asan': s.chance(15) and 1 or 0}
    c = pipes.conv(s, env) if s.chance(80) else s.pick(['', ':', '|', 'UTF-8:', 'utf-8:z', 'UTF-8,', '_', "\'", '"', 'utf-8|', 'UTF-8:UPPER:', 'a', '#'])
    c = c[:s.n(len(c))]
    return {'tool': k, 'text': c, 'quote': s.pick(['', '', "'", '"']), 'end': s.n(1), 'asan': s.chance(15) and 1 or 0}


def run_tool(env, case):
    k, asan = case['tool'], case['asan']
    if k == 'list':
        rc, out, err = tool(env, 'bsdconv', ['-l'], asan)
        want = ''
        for kind in WHAT:
            want += '[%s]\n' % kind.capitalize() + ''.join('\t%s\n' % n for n in listed(env, kind))
        util.same((rc, out), (0, want), 'bsdconv -l')
        return True, k
    if k == 'man':
        kind, n = case['kind'], case['name']
        if '\0' in n or '/' in n:
            raise Discard('not a name')
        kd = [kind, kind.upper(), kind.capitalize()][case['case']]
        rc, out, err = tool(env, 'bsdconv-man', [kd, n] if case['two'] else [kd + '/' + n], asan)
        N = up(n)
        if joined(env, kind, N) or (kind, N) in COMPUTED or n == '':
            raise Discard('alias names written together')
        what = 'bsdconv-man %s %r' % (kd, n)
        page = os.path.exists(os.path.join(env.root, 'plain', 'share', 'bsdconv', kind, N + '.man'))
        util.same(rc, 0, what + ': exit status')
        exists = N in modules(env, kind) or N in aliases(env, kind)
        if not page:
            util.same('No such codec' in out, not exists, what + ': %r: unknown' % out[:100])
        if N in aliases(env, kind) and not page:
            util.same(out, '%s/%s:\nAlias to %s\n' % (kind.upper(), N, aliases(env, kind)[N]), what)
        return exists, k
    t = case['text']
    if '\0' in t or t[-1:] in ('"', "'") or t[:1] in ('"', "'"):
        raise Discard('quotes')
    arg = case['quote'] + t + (case['quote'] if case['end'] else '')
    rc, out, err = tool(env, 'bsdconv-completion', [arg.encode('utf-8', 'surrogateescape')], asan)
    T = up(t)
    cut = max(T.rfind(c) for c in ':|,') + 1
    # the phase being written: the first one of its stage, or a later one
    kind = 'to' if T.rfind(':') > T.rfind('|') else 'from'
    want = sorted({T[:cut] + n for q in ('inter', kind) for n in listed(env, q) if n.startswith(T[cut:])})
    got = out.split('\n')
    util.same(got.pop(), '', 'completion of %r: end' % arg)
    util.same(sorted(got), want, 'completion of %r' % arg)
    util.same(rc, 0, 'completion of %r: exit status' % arg)
    return bool(want), k


PARTS = [Part('tools', gen_tool, run_tool, 2500), Part('listed', gen_listed, run_listed, 0, 0, exhaustive=all_names), Part('names', gen_names, run_names, 3000), Part('joined', gen_joined, run_joined, 0, 0, exhaustive=pairs), Part('directories', gen_dir, run_dir, 8000)]
