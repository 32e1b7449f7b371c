"""Python side of server.c: builds request scripts, decodes replies, notices crashes and hangs."""
import os, resource, select, struct, subprocess, tempfile, time

FROM, INTER, TO, FILTER, SCORER = 1, 2, 3, 4, 5
HOLD, AUTO, PRE, PREQ, FILE_, FD, NULL_, PASS_, SLOWFD = range(9)
FLUSH, FREE = 1, 2


class Crash(Exception):
    """The code under test died, was stopped by the sanitizer or did not terminate."""


def I(v):
    return struct.pack('<q', v)


def B(b):
    if b is None:
        return b'\xff\xff\xff\xff'
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return struct.pack('<I', len(b)) + bytes(b)


class Req:
    """A script; each method appends one call and returns its index in the reply list."""

    def __init__(self):
        self.b = bytearray()
        self.dec = []

    def _add(self, op, body, dec):
        self.b += op + body
        self.dec.append(dec)
        return len(self.dec) - 1

    def create(self, slot, conv):
        return self._add(b'C', I(slot) + B(conv), 'iis')

    def destroy(self, slot):
        return self._add(b'D', I(slot), 'i')

    def init(self, slot):
        return self._add(b'I', I(slot), 'i')

    def feed(self, slot, data, flush=False, mode=AUTO, param=0, free=False):
        return self._add(b'F', I(slot) + I((FLUSH if flush else 0) | (FREE if free else 0)) + I(mode) + I(param) + B(data), 'iib')

    def soak(self, slot, data, reps, how, out=0, to=0):
        """the same input over and over; reply: bytes allocated after each quarter, descriptors at the end"""
        return self._add(b'%', I(slot) + I(reps) + I(how) + I(out) + I(to) + B(data), 'iiiii')

    def cells(self, slot, cells, flush=True):
        """cells in, cells out"""
        return self._add(b'G', I(slot) + I(1 if flush else 0) + I(len(cells)) + b''.join(B(c) for c in cells), 'cells')

    def threads(self, jobs, reps):
        """jobs: [(slot, where to cut, data)], all run at the same time; reply: per job [(ierr, oerr, output), the same of a differing repetition or None]"""
        return self._add(b'Z', I(len(jobs)) + I(reps) + b''.join(I(k) + I(c) + B(d) for k, c, d in jobs), 'threads')

    def counters(self, slot):
        return self._add(b'K', I(slot), 'counters')

    def counter(self, slot, name):
        return self._add(b'k', I(slot) + B(name), 'i')

    def counter_set(self, slot, name, v):
        return self._add(b'S', I(slot) + B(name) + I(v), 'i')

    def counter_keep(self, ix, slot, name):
        """remembers the address of a counter; the reply is the address"""
        return self._add(b'J', I(ix) + I(slot) + B(name), 'i')

    def kept_get(self, ix):
        return self._add(b'j', I(ix), 'i')

    def kept_set(self, ix, v):
        return self._add(b'W', I(ix) + I(v), 'i')

    def errs(self, slot):
        return self._add(b'i', I(slot), 'ii')

    def counter_reset(self, slot, name):
        return self._add(b'R', I(slot) + B(name), 'i')

    def hash_op(self, op, slot, key, val=0):
        return self._add(b'H', I({'set': 0, 'get': 1, 'has': 2, 'del': 3}[op]) + I(slot) + B(key) + I(val), 'i')

    def pack(self, slot):
        return self._add(b'P', I(slot), 's')

    def edit(self, op, conv, codec, a, b):
        return self._add(b'U', I({'insert_phase': 0, 'insert_codec': 1, 'replace_phase': 2, 'replace_codec': 3}[op]) + B(conv) + B(codec) + I(a) + I(b), 's')

    def module_check(self, t, name):
        return self._add(b'M', I(t) + B(name), 'i')

    def codec_check(self, t, name):
        return self._add(b'm', I(t) + B(name), 'i')

    def solve_alias(self, t, name):
        return self._add(b'A', I(t) + B(name), 's')

    def modules_list(self, t):
        return self._add(b'L', I(t), 'list')

    def codecs_list(self, t):
        return self._add(b'l', I(t), 'list')

    def ctl(self, slot, action, arg, v=0):
        return self._add(b'T', I(slot) + I(action) + B(arg) + I(v), 'i')

    def fflush(self):
        return self._add(b'Y', b'', 'i')

    def resources(self):
        return self._add(b'X', b'', 'iis')

    def modules_mapped(self):
        return self._add(b'x', b'', 'i')

    def nofile(self, k=-1):
        """from here on only k descriptors are free (-1: as many as at first)"""
        return self._add(b'z', I(k), 'i')

    def file(self, path):
        """what the file holds at this point, None without one"""
        return self._add(b'f', B(path), 's')

    def setenv(self, k, v):
        return self._add(b'E', B(k) + B(v), 'i')

    def shape(self, slot):
        return self._add(b'Q', I(slot), 'shape')

    def index(self, slot, p, c):
        return self._add(b'g', I(slot) + I(p) + I(c), 'ii')

    def str2datum(self, s):
        return self._add(b'd', B(s), 'ib')

    def str2data(self, slot, s):
        return self._add(b'e', I(slot) + B(s), 'datas')

    def filt(self, name, cell):
        return self._add(b'v', B(name) + B(cell), 'i')

    def filt_range(self, name, a, b):
        return self._add(b'V', B(name) + I(a) + I(b), 'ib0')

    def score(self, name, cell):
        return self._add(b'w', B(name) + B(cell), 'i')


class _R:
    def __init__(self, b):
        self.b, self.o = b, 0

    def i(self):
        v = struct.unpack_from('<q', self.b, self.o)[0]
        self.o += 8
        return v

    def bytes(self):
        n = struct.unpack_from('<I', self.b, self.o)[0]
        self.o += 4
        if n == 0xffffffff:
            return None
        v = bytes(self.b[self.o:self.o + n])
        self.o += n
        return v

    def one(self, d):
        if d == 'i':
            return self.i()
        if d == 's':
            return self.bytes()
        if d == 'counters':
            return {k: v for k, v in [(self.bytes().decode('latin-1'), self.i()) for _ in range(self.i())]}
        if d == 'cells':
            n = self.i()
            return None if n < 0 else [self.bytes() for _ in range(n)]
        if d == 'threads':
            r = [[(self.i(), self.i(), self.bytes()) for _ in range(2)] for _ in range(self.i())]
            return [(a, b if b[2] is not None else None) for a, b in r]
        if d == 'list':
            n = self.i()
            return None if n < 0 else [self.bytes().decode('utf-8', 'surrogateescape') for _ in range(n)]
        if d == 'shape':
            n = self.i()
            return None if n < 0 else [(self.i(), self.i()) for _ in range(n)]
        if d == 'datas':
            e, n = self.i(), self.i()
            return e, [self.bytes() for _ in range(n)]
        if d == 'ib0':
            e = self.i()
            return (e, b'') if e < 0 else (e, self.bytes())
        return tuple(self.i() if c == 'i' else self.bytes() for c in d)


def asan_env(build, fill=0xbe, extra=''):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'TMPDIR')}
    env.update(MSAN_OPTIONS='exitcode=77:symbolize=1', BSDCONV_PATH=build, LD_LIBRARY_PATH=os.path.join(build, 'lib'), LC_ALL='C.UTF-8', HOME='/nonexistent',
               ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3000:max_malloc_fill_size=65536:'
                            'malloc_fill_byte=%d:allocator_may_return_null=0:detect_stack_use_after_return=0:'
                            'handle_abort=1:symbolize=%d%s' % (fill, 1 if os.path.exists('/usr/bin/llvm-symbolizer') or os.path.exists('/usr/bin/llvm-symbolizer-18') else 0, extra))
    return env


def limit_memory():
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))


class Server:
    def __init__(self, root, kind='asan', cpu=20, fill=0xff, env=None, preload=True):
        self.build = os.path.join(root, kind)
        self.cpu, self.fill, self.env, self.preload = cpu, fill, env or {}, preload
        self.p = None
        self.restarts = 0
        self.requests = 0

    def start(self):
        self.stop()
        self.tmp = tempfile.TemporaryDirectory(prefix='pbt')
        self.err = open(os.path.join(self.tmp.name, 'stderr'), 'w+b')
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = asan_env(self.build, self.fill)
        if not self.preload:
            env['PBT_NOPRELOAD'] = '1'
        lim = None
        if self.build.endswith('/plain'):
            env['MALLOC_PERTURB_'] = str(self.fill ^ 0xff or 1)
            lim = limit_memory
        env.update(self.env)
        self.p = subprocess.Popen([os.path.join(self.build, 'bin/server'), str(self.cpu), str(r1), str(w2)], stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=self.err, env=env, cwd=self.tmp.name, pass_fds=(r1, w2), preexec_fn=lim)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.restarts += 1
        if self._read(4, 60) != b'\0\0\0\0':
            raise RuntimeError('server did not start: ' + self._log())

    def stop(self):
        if self.p is not None:
            os.close(self.w)
            os.close(self.r)
            try:
                self.p.wait(0.5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.err.close()
            self.tmp.cleanup()
            self.p = None

    def _log(self):
        self.err.flush()
        with open(os.path.join(self.tmp.name, 'stderr'), 'rb') as f:
            t = f.read()
        return t[-8000:].decode('utf-8', 'replace')

    def _read(self, n, timeout):
        out = b''
        end = time.monotonic() + timeout
        while len(out) < n:
            rl, _, _ = select.select([self.r], [], [], max(0.01, end - time.monotonic()))
            if not rl:
                if time.monotonic() >= end:
                    raise TimeoutError
                continue
            c = os.read(self.r, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out

    def call(self, req):
        """Runs the script; returns the list of decoded replies.  Raises Crash."""
        if self.p is None:
            self.start()
        self.requests += 1
        msg = struct.pack('<I', len(req.b)) + bytes(req.b)
        try:
            # replies are only produced after the whole request was read
            mv = memoryview(msg)
            while mv:
                mv = mv[os.write(self.w, mv):]
            n = struct.unpack('<I', self._read(4, 600))[0]
            body = self._read(n, 600)
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            log = self._log()
            self.stop()
            if 'server protocol error' in log:
                raise RuntimeError(log)
            raise Crash(summary(rc, log)) from None
        except TimeoutError:
            self.p.kill()
            self.stop()
            raise RuntimeError('server silent for 600 s without using CPU time') from None
        r = _R(body)
        return [r.one(d) for d in req.dec]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def summary(rc, log):
    import re
    if rc == -27:
        return 'does not terminate (CPU time limit)'
    m = re.search(r'(?:ERROR|WARNING): (AddressSanitizer|LeakSanitizer|MemorySanitizer)[^\n]*', log) or re.search(r'hard rss limit[^\n]*', log)
    s = m.group(0) if m else 'exit status %s' % rc
    s = re.sub(r'0x[0-9a-f]{6,}', '0x..', s)
    s = re.sub(r'==\d+==', '', s)
    fr = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+)', log) if not f.startswith(('__', 'free', 'malloc', 'realloc', 'calloc', 'memcpy', 'strdup'))][:5]
    return s + (' in ' + ' < '.join(fr) if fr else '')
