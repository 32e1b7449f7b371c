"""C21: the command line converts files of any size faithfully.

Oracle: the library, called once with the whole content (through the server process); the tool is run on
scratch files as a user would run it: through standard input, on named files, in place."""
import os, re, resource, shutil, signal, subprocess, tempfile
from ..core import Part, Violation, Discard
from ..client import Req, Crash, asan_env, summary
from .. import pipes, util
from .c01 import first_is_pass

PROPERTY = 'C21'
RULE = 'non-trivial: the conversion exists and at least one file was converted to something other than an empty file (faithful, faults), or the conversion does not exist (rejected)'
ASSUMPTIONS = ['in-place conversion of links to files is left out', 'a conversion string is one argument without U+0000', 'scratch files only; the tool runs as root on absolute paths and on names relative to the scratch directory']
SIZES = [0, 1, 2, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 5120, 8192, 8193]
NAMES = ['a', 'b', 'c.txt', 'two words', '\u6587\u5b57.txt', 'x.XXXXXX', 'XXXXXX', '.hidden', 'sub/d', 'sub/deeper/e', 'a.b.c', '%s', 'n' * 200, '~', '*']


def gen_file(s, env, c, big):
    unit = pipes.input_for(s, env, c, 16) or b'a'
    k = s.n(9)
    if k < 2:
        size = len(unit)
    elif k < 7:
        size = s.pick(SIZES)
    elif k < 9 or not big:
        size = s.n(6000)
    else:
        size = s.pick([10240, 65535, 65536, 65537, 100000])
    lead = pipes.input_for(s, env, c, 4) if s.chance(50) else b''
    return {'lead': lead, 'unit': unit, 'size': size}


def content(f):
    n = f['size']
    d = f['lead'] + f['unit'] * ((n // max(1, len(f['unit']))) + 1)
    return d[:n]


SIMPLE = ['UTF-8:UTF-16LE', 'BIG5:UTF-8', 'UTF-8:BIG5', 'GBK:UTF-8', 'UTF-8:UTF-8', 'UTF-8,BYTE:UPPER:UTF-8,BYTE', 'BSDCONV:UTF-8', 'UTF-16BE:WIN:UTF-8', 'ANSI-CONTROL,BIG5:BIG5-DEFRAG:BYTE,ANSI-CONTROL|SKIP,BIG5:UTF-8', 'UTF-8:NFC:UTF-8', 'BYTE:BYTE', 'UTF-8:STRINGS:UTF-8', 'JIS:UTF-8', 'UTF-8:IBM-930', 'UTF-8:ESCAPE', 'UTF-8:COUNT#FOR=CJK:UTF-8']


def gen_conv(s, env):
    for _ in range(6):
        c = s.pick(SIMPLE) if s.chance(30) else pipes.conv(s, env)
        if not pipes.odd(env, c) and not first_is_pass(env, c) and '\0' not in c:
            return c
    return 'UTF-8:UTF-16LE'


def gen_files(s, env, c, big, hi=3):
    n = 1 + s.weighted([(5, 0), (3, 1), (2, 2)])
    out = []
    for _ in range(min(n, hi)):
        f = gen_file(s, env, c, big and n == 1)
        f['name'] = s.pick(NAMES)
        f['mode'] = s.pick([0o644, 0o600, 0o755, 0o400, 0o444, 0o640, 0o777, 0o666, 0o4755, 0o2711, 0])
        f['owner'] = s.pick([[0, 0], [0, 0], [1, 1], [0, 5], [65534, 65534]])
        out.append(f)
    return out


def gen(s, env):
    c = gen_conv(s, env)
    big = c in SIMPLE
    return {'conv': c, 'files': gen_files(s, env, c, big), 'abs': s.n(1), 'asan': s.chance(8) and 1 or 0, 'umask': s.pick([0o22, 0, 0o77]), 'again': s.chance(15) and 1 or 0, 'pipe': s.n(1)}


# ------------------------------------------------------------------ running the tool

class Box:
    """a scratch directory holding the case's files"""

    def __init__(self, env, case, files):
        self.env, self.case = env, case
        self.dir = tempfile.mkdtemp(dir=env.tmp)
        self.files = []
        for f in files:
            if f['name'] in [g['name'] for g in self.files]:
                continue
            self.files.append(f)
            p = os.path.join(self.dir, f['name'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if 'dir' in f:
                os.mkdir(p)
                continue
            with open(p, 'wb') as h:
                h.write(content(f))
            os.chown(p, *f['owner'])
            os.chmod(p, f['mode'])

    def close(self):
        assert self.dir.startswith(self.env.tmp)
        shutil.rmtree(self.dir)

    def arg(self, f):
        return os.path.join(self.dir, f['name']) if self.case['abs'] else f['name']

    def state(self):
        st = {}
        for d, ds, fs in os.walk(self.dir):
            for x in ds + fs:
                p = os.path.join(d, x)
                i = os.lstat(p)
                st[os.path.relpath(p, self.dir)] = (None if x in ds else open(p, 'rb').read(), i.st_mode, i.st_uid, i.st_gid)
        return st

    def run(self, args, data=None, limit=None, out=None):
        kind = 'asan' if self.case.get('asan') else 'plain'
        root = os.path.join(self.env.root, kind)
        e = asan_env(root, 0xff)

        def pre():
            os.umask(self.case.get('umask', 0o22))
            resource.setrlimit(resource.RLIMIT_CPU, (20, 21))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        of = out if out is not None else subprocess.PIPE
        p = subprocess.Popen([os.path.join(root, 'bin/bsdconv'), self.case['conv'].encode('utf-8', 'surrogateescape')] + args, stdin=subprocess.PIPE if data is not None else subprocess.DEVNULL, stdout=of, stderr=subprocess.PIPE, cwd=self.dir, env=e, preexec_fn=pre)
        so, se = p.communicate(data)
        if p.returncode < 0 or b'ERROR: AddressSanitizer' in se or b'runtime error:' in se:
            raise Crash(summary(p.returncode, se.decode('utf-8', 'replace')))
        return p.returncode, so, se


def reports(text):
    """standard error -> [(file or None, {counter: value})]"""
    out, cur = [], None
    for line in text.decode('utf-8', 'surrogateescape').split('\n'):
        if line.startswith('File: '):
            cur = (line[6:], {})
            out.append(cur)
        elif line:
            m = re.fullmatch(r'(.*): (\d+)', line)
            if m:
                if cur is None:
                    cur = (None, {})
                    out.append(cur)
                k = m.group(1).upper()
                if k in cur[1]:
                    raise Violation('%s is reported twice: %r' % (k, text))
                cur[1][k] = int(m.group(2))
            else:
                raise Violation('unexpected message %r' % line)
    return [(a, b) for a, b in out if b]


def expected(env, conv, datas):
    r = Req()
    ix = []
    for d in datas:
        k = r.create(0, conv)
        r.init(0)
        f = r.feed(0, d, flush=True)
        c = r.counters(0)
        r.destroy(0)
        ix.append((k, f, c))
    rep = env.call(r)
    return [(rep[f][2], util.clean(rep[c])) if rep[k][0] else None for k, f, c in ix]


def check_state(before, after, want, what):
    """want: name -> new content"""
    for n in sorted(set(before) | set(after)):
        if n not in after:
            raise Violation('%s: %r is gone' % (what, n))
        if n not in before:
            raise Violation('%s leaves a file %r behind' % (what, n))
        util.same(after[n][0], want.get(n, before[n][0]), '%s: content of %r' % (what, n))
        util.same([oct(after[n][1]), after[n][2], after[n][3]], [oct(before[n][1]), before[n][2], before[n][3]], '%s: permissions and owner of %r' % (what, n))


def excluded(env, case):
    c = case['conv']
    return pipes.odd(env, c) or first_is_pass(env, c) or '\0' in c


def run(env, case):
    if excluded(env, case):
        raise Discard('excluded')
    b = Box(env, case, case['files'])
    try:
        conv = case['conv']
        datas = [content(f) for f in b.files]
        exp = expected(env, conv, datas)
        if exp[0] is None:
            raise Discard('rejected')
        before = b.state()
        # standard input
        rc, so, se = b.run([], datas[0])
        what = '%s of standard input (%d bytes)' % (conv, len(datas[0]))
        util.same(rc, 0, what + ': exit status')
        util.same(so, exp[0][0], what)
        util.same(reports(se), [(None, exp[0][1])] if exp[0][1] else [], what + ': counts')
        # named files
        args = [b.arg(f) for f in b.files]
        rc, so, se = b.run(args)
        what = '%s of files of %s bytes' % (conv, [len(d) for d in datas])
        util.same(rc, 0, what + ': exit status')
        util.same(so, b''.join(x[0] for x in exp), what)
        util.same(reports(se), [(a, x[1]) for a, x in zip(args, exp) if x[1]], what + ': counts')
        check_state(before, b.state(), {}, what)
        # in place
        files, ex = list(b.files), list(exp)
        if case['again']:
            second = expected(env, conv, [exp[0][0]])[0]
            files.append(files[0])
            ex.append(second)
        args = [b.arg(f) for f in files]
        rc, so, se = b.run(['-i'] + args)
        what = '%s in place of files of %s bytes' % (conv, [len(d) for d in datas])
        util.same(rc, 0, what + ': exit status')
        util.same(so, b'', what + ': standard output')
        util.same(reports(se), [(a, x[1]) for a, x in zip(args, ex) if x[1]], what + ': counts')
        check_state(before, b.state(), {f['name']: x[0] for f, x in zip(files, ex)}, what)
        n = len(datas)
        return any(x[0] for x in exp), ['%s file%s' % (n, '' if n == 1 else 's')] + (['over 1024'] if any(len(d) > 1024 for d in datas) else []) + (['multiple of 1024'] if any(d and len(d) % 1024 == 0 for d in datas) else []) + (['counts'] if any(x[1] for x in exp) else [])
    finally:
        b.close()


# ------------------------------------------------------------------ invalid conversions

BAD = ['', 'UTF-8', ':UTF-8', 'UTF-8:', 'UTF-8::', 'UTF-8:NOPE', 'NOPE:UTF-8', 'UTF-8:NOPE:UTF-8', 'UTF-8:UPPER', 'UTF-8:UTF-8|', 'UTF-8:UTF-8|NOPE:UTF-8', 'UTF-8:UTF-8#NOPE', 'UTF-8,:UTF-8', 'UPPER:UTF-8', 'ANY:ANY', 'UTF-8:ESCAPE#FOR=CJK', 'UTF-8:REPLACE#:UTF-8', 'ANY#XYZ:UTF-8', 'UTF-8:SCORE#WITH=NOPE:UTF-8', 'UTF-8:PASS#FOR=NOPE:UTF-8', 'a' * 3000, 'UTF-8:' + 'UPPER:' * 500 + 'NOPE', 'UTF-8:../to/UTF-8', '-x', '--help', 'UTF-8 UTF-8']


def gen_bad(s, env):
    if s.chance(60):
        c = s.pick(BAD)
    else:
        c = pipes.conv(s, env)
        i = s.n(len(c) - 1)
        c = c[:i] + s.pick(['', 'Q', ':', ',', '#', '|', '\xff']) + c[i + s.n(2):]
    return {'conv': c, 'files': gen_files(s, env, 'UTF-8:UTF-8', False), 'abs': s.n(1), 'how': s.n(2), 'asan': s.chance(20) and 1 or 0}


def run_bad(env, case):
    if '\0' in case['conv'] or case['conv'] == '-l':
        raise Discard('not an argument')
    b = Box(env, case, case['files'])
    try:
        if expected(env, case['conv'], [b''])[0] is not None:
            raise Discard('valid')
        before = b.state()
        args = ([] if case['how'] == 0 else ['-i'] if case['how'] == 2 else []) + ([b.arg(f) for f in b.files] if case['how'] else [])
        rc, so, se = b.run(args, b'abc' if not case['how'] else None)
        what = 'invalid conversion %r (%s)' % (case['conv'][:80], ['standard input', 'files', 'in place'][case['how']])
        if rc == 0:
            raise Violation(what + ': exit status 0')
        util.same(so, b'', what + ': standard output')
        if not se.strip():
            raise Violation(what + ': no message')
        check_state(before, b.state(), {}, what)
        return True, ['standard input', 'files', 'in place'][case['how']]
    finally:
        b.close()


# ------------------------------------------------------------------ files that cannot be read or written

def gen_fault(s, env):
    c = s.pick(SIMPLE) if s.chance(60) else gen_conv(s, env)
    fs = gen_files(s, env, c, False)
    return {'conv': c, 'files': fs, 'abs': s.n(1), 'fault': s.pick(['limit', 'limit', 'full', 'directory', 'missing', 'missing']), 'at': s.n(len(fs)), 'limit': s.pick([0, 1, 100, 1023, 1024, 1025, 2048, 4096, 8192]) if s.chance(60) else s.n(6000), 'inplace': s.n(1)}


def run_fault(env, case):
    if excluded(env, case):
        raise Discard('excluded')
    fs = list(case['files'])
    fault = case['fault']
    at = min(case['at'], len(fs))
    if fault == 'directory':
        fs.insert(at, {'name': 'a directory', 'dir': 1})
    b = Box(env, case, fs)
    try:
        conv = case['conv']
        plain = [f for f in b.files if 'dir' not in f]
        datas = [content(f) for f in plain]
        e = expected(env, conv, datas)
        if e[0] is None:
            raise Discard('rejected')
        exp = {f['name']: x[0] for f, x in zip(plain, e)}
        args = [b.arg(f) for f in b.files]
        if fault == 'missing':
            args.insert(at, 'is/not/there' if case['limit'] % 2 else 'none')
        before = b.state()
        what = '%s, %s' % (conv, fault)
        if fault == 'full' or fault == 'limit' and not case['inplace']:
            total = b''.join(x[0] for x in e)
            sink = os.open('/dev/full', os.O_WRONLY) if fault == 'full' else os.open(os.path.join(env.tmp, 'sink'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            try:
                rc, so, se = b.run(args, limit=case['limit'] if fault == 'limit' else None, out=sink)
            finally:
                os.close(sink)
            bad = len(total) > case['limit'] if fault == 'limit' else bool(total)
            what += ' (%d bytes of output)' % len(total)
            if bool(rc) != bad:
                raise Violation('%s: exit status %d' % (what, rc))
            check_state(before, b.state(), {}, what)
            if fault == 'limit' and not bad:
                util.same(open(os.path.join(env.tmp, 'sink'), 'rb').read(), total, what)
            return bool(total), [fault + ' output', 'fails' if bad else 'fits']
        if not case['inplace']:
            rc, so, se = b.run(args)
            if rc == 0:
                raise Violation('%s: exit status 0' % what)
            check_state(before, b.state(), {}, what)
            return True, fault
        rc, so, se = b.run(['-i'] + args, limit=case['limit'] if fault == 'limit' else None)
        after = b.state()
        if fault == 'limit':
            bad = [f['name'] for f in plain if len(exp[f['name']]) > case['limit']]
            what += ' %d' % case['limit']
        else:
            bad = [1]
        if bool(rc) != bool(bad):
            raise Violation('%s: exit status %d' % (what, rc))
        # every file holds either all of its old or all of its new content; those before the failure the new one
        want = {}
        failed = False
        for i, f in enumerate(b.files):
            n = f['name']
            if fault == 'missing' and i == at or fault == 'directory' and 'dir' in f:
                failed = True
                if 'dir' in f:
                    continue
            if fault == 'limit' and n in bad:
                failed = True
                continue
            want[n] = exp[n] if not failed or after.get(n, (None,))[0] == exp[n] else before[n][0]
        check_state(before, after, want, what + ', in place')
        return True, [fault + ' in place', 'fails' if bad else 'fits']
    finally:
        b.close()


# ------------------------------------------------------------------ killed, or a system call fails, at any point

ERRORS = {'read': ['EIO', 'EISDIR', 'EINTR'], 'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR'], 'openat': ['EACCES', 'EMFILE', 'ENOSPC', 'EROFS'], 'close': ['EIO', 'ENOSPC'], 'rename': ['EACCES', 'EIO', 'EROFS', 'EXDEV'], 'renameat': ['EIO'], 'renameat2': ['EIO'], 'fsync': ['EIO'], 'fdatasync': ['EIO'], 'link': ['EIO'], 'linkat': ['EIO'], 'ftruncate': ['EIO'], 'pwrite64': ['EIO'], 'pread64': ['EIO']}
STRACE = ['/usr/bin/strace', '-f', '-qq', '-e', 'signal=none']
USABLE = []


def traced(box, args, log, inject=None):
    """run the tool under strace; -> (status, stderr)"""
    root = os.path.join(box.env.root, 'plain')
    e = asan_env(root, 0xff)
    cmd = STRACE + ['-o', log]
    if inject:
        cmd += ['-e', 'trace=' + inject.split(':')[0], '-e', 'inject=' + inject]
    else:
        cmd += ['-e', 'trace=%file,%desc']
    p = subprocess.run(cmd + ['--', os.path.join(root, 'bin/bsdconv'), box.case['conv'].encode('utf-8', 'surrogateescape')] + args, stdin=subprocess.DEVNULL, stdout=open(os.path.join(box.env.tmp, 'out'), 'wb'), stderr=subprocess.PIPE, cwd=box.dir, env=e, timeout=60)
    return p.returncode, p.stderr


def usable(env):
    """can this sandbox trace a process of its own?  (when not, the part reports discarded cases)"""
    if not USABLE:
        log = os.path.join(env.tmp, 'probe')
        try:
            ok = subprocess.run(STRACE + ['-o', log, '-e', 'trace=write', '-e', 'inject=write:error=EIO:when=1', '--', '/bin/echo', 'x'], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 1 and 'INJECTED' in open(log).read()
        except (OSError, subprocess.SubprocessError):
            ok = False
        USABLE.append(ok)
    return USABLE[0]


def gen_crash(s, env):
    c = s.pick(SIMPLE) if s.chance(70) else gen_conv(s, env)
    return {'conv': c, 'files': gen_files(s, env, c, False), 'abs': s.n(1), 'how': s.pick(['kill', 'error']), 'inplace': s.weighted([(4, 1), (1, 0)]), 'at': s.n(999), 'error': s.n(9), 'early': s.chance(8) and 1 or 0}


def calls(log, how):
    """-> ([(system call, its number among those of the same name)], index of the first after loading the codecs)"""
    out, seen, first = [], {}, 0
    for line in open(log, errors='replace'):
        m = re.match(r'\d+\s+(\w+)\(', line)
        if not m:
            continue
        n = m.group(1)
        seen[n] = seen.get(n, 0) + 1
        if 'share/bsdconv' in line or 'codecs' in line:
            first = len(out)
        if n != 'execve' and (how == 'kill' or n in ERRORS):
            out.append((n, seen[n]))
    return out, first


def run_crash(env, case):
    if excluded(env, case):
        raise Discard('excluded')
    if not usable(env):
        raise Discard('no tracing here')
    b = Box(env, case, case['files'])
    log = os.path.join(env.tmp, 'trace')
    how = case['how']
    try:
        conv = case['conv']
        datas = [content(f) for f in b.files]
        e = expected(env, conv, datas)
        if e[0] is None:
            raise Discard('rejected')
        exp = {f['name']: x[0] for f, x in zip(b.files, e)}
        opt = ['-i'] if case['inplace'] else []
        rc, se = traced(b, opt + [b.arg(f) for f in b.files], log)
        util.same(rc, 0, '%s: exit status' % conv)
        cs, first = calls(log, how)
    finally:
        b.close()
    if case['early'] or first >= len(cs):
        first = 0
    name, number = cs[first + case['at'] % (len(cs) - first)]
    b = Box(env, case, case['files'])
    try:
        before = b.state()
        error = 'killed' if how == 'kill' else ERRORS[name][case['error'] % len(ERRORS[name])]
        inject = '%s:%s:when=%d' % (name, 'signal=KILL' if how == 'kill' else 'error=' + error, number)
        rc, se = traced(b, opt + [b.arg(f) for f in b.files], log, inject)
        after = b.state()
        what = '%s%s of files of %s bytes, %s at call %d of %s' % (conv, ' in place' if opt else '', [len(d) for d in datas], error, number, name)
        total = b''.join(x[0] for x in e)
        written = open(os.path.join(env.tmp, 'out'), 'rb').read()
        if how == 'kill' and rc == 0 or rc < 0 and (how == 'error' or rc != -9):
            raise Violation('%s: exit status %d' % (what, rc))
        if not opt:
            check_state(before, after, {}, what)
            if rc == 0:
                util.same(written, total, what + ', which exits with 0')
            return True, [error, 'to standard output']
        util.same(written, b'', what + ': standard output')
        # each file holds its whole old or its whole new content, and the files are replaced in their order
        left = [n for n in after if n not in before]
        if left and (how == 'error' or len(left) > 1 or not any(re.fullmatch(re.escape(f['name']) + r'\..{6}', left[0]) for f in b.files)):
            raise Violation('%s leaves %r behind' % (what, left))
        want, stopped = {}, False
        for f in b.files:
            n = f['name']
            if n not in after:
                raise Violation('%s: %r is gone' % (what, n))
            if not stopped and after[n][0] == exp[n]:
                want[n] = exp[n]
            else:
                stopped = True
                want[n] = before[n][0]
            if rc == 0:
                want[n] = exp[n]
        check_state(before, {n: x for n, x in after.items() if n not in left}, want, what + (', exit status %d' % rc))
        # what is left can be converted afterwards
        n = b.files[-1]['name']
        if after[n][0] == before[n][0] and before[n][0] != exp[n]:
            rc, so, se = b.run(['-i', b.arg(b.files[-1])])
            util.same(rc, 0, what + ', and again: exit status')
            util.same(b.state()[n][0], exp[n], what + ', and again')
        return True, [error, 'some replaced' if want != {n: before[n][0] for n in want} else 'none replaced'] + (['a temporary file left'] if left else [])
    finally:
        b.close()


PARTS = [Part('faithful', gen, run, 4000), Part('rejected', gen_bad, run_bad, 2000), Part('faults', gen_fault, run_fault, 3000), Part('interrupted', gen_crash, run_crash, 4000)]
