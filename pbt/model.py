"""Reference converter: what single codecs accept at a position, and how lists and phases combine them.

A decoder is unit(data, pos) -> (cells, new position) or None; an encoder or stage is unit(cells, pos) ->
(bytes or cells, new position) or None.  Everything is written from the documented meaning of the codec or from its
table read as plain text; nothing is shared with the library."""
from . import pipes, tables
from .core import Discard
from .tables import u
from .checks.c09 import accept, cell

# ------------------------------------------------------------------ names and arguments


def hexcells(t):
    """0161.0162 -> cells"""
    return [bytes.fromhex(x if len(x) % 2 == 0 else '0' + x) for x in t.split('.')] if t else []


def parse(spec):
    """NAME#A&B=C -> (NAME, [(A, None), (B, C)])"""
    n, _, a = spec.partition('#')
    args = []
    if a:
        for x in a.split('&'):
            k, e, v = x.partition('=')
            args.append((k, v if e else None))
    return n.upper(), args


def expand(repo, kind, spec, depth=0):
    """codec list a name in a list stands for; None when it stands for several phases"""
    reg = pipes.registry(repo)
    n, _, a = spec.partition('#')
    al = reg['alias'][kind]
    t = al.get(n.upper())
    if t is None:
        return [spec]
    if ':' in t or depth > 8:
        return None
    out = []
    parts = t.split(',')
    for p in parts:
        e = expand(repo, kind, p, depth + 1)
        if e is None:
            return None
        out += e
    return out if not a else None


def phase_codecs(repo, kind, text):
    out = []
    for p in text.split(','):
        e = expand(repo, kind, p)
        if e is None:
            raise Discard('alias of several phases')
        out += e
    return out


# ------------------------------------------------------------------ decoders

def d_table(repo, name):
    tr = tables.trie(repo, 'from', name)
    if tr is None:
        return None
    if not tr.lit:
        if any(e.callback for e in tr.entries):
            return None
        by = {}
        for o, e in enumerate(tr.entries):
            by.setdefault(e.key[0], []).append((o, e))

        def unit(d, i):
            best = None
            for o, e in by.get(d[i], ()):
                lv = tables.tok_level(e, d[i:i + len(e.key)], 0)
                if lv is not None and (best is None or (len(e.key), lv, -o) > best[0]):
                    best = ((len(e.key), lv, -o), e)
            return (best[1].val, i + len(best[1].key)) if best else None
        return None if any(e.key[0] == tables.ANYTOK or e.ci and chr(e.key[0]).isalpha() for e in tr.entries) else unit
    m, pre = tr.map, tr.prefix

    def unit(d, i):
        j, n, best = i + 1, len(d), None
        while True:
            k = tuple(d[i:j])
            if k in m:
                best = (m[k].val, j)
            if k not in pre or j >= n:
                return best
            j += 1
    return unit


def d_utf8(args):
    o = {k.upper() for k, v in args}
    if 'ASCII' in o:
        return None

    def unit(d, i):
        if d[i] < 0x80:
            return None
        r = accept(d, i, o)
        return ([cell(v) for v in r[0]], i + r[1]) if r else None
    return unit


def d_utf16(order):
    def unit(d, i):
        if i + 2 > len(d):
            return None
        v = int.from_bytes(d[i:i + 2], order)
        if 0xd800 <= v <= 0xdbff:
            w = int.from_bytes(d[i + 2:i + 4], order) if i + 4 <= len(d) else 0
            return ([u(0x10000 + ((v - 0xd800) << 10 | w - 0xdc00))], i + 4) if 0xdc00 <= w <= 0xdfff else None
        return [u(v)], i + 2
    return unit


def d_utf32(order):
    def unit(d, i):
        if i + 4 > len(d):
            return None
        v = int.from_bytes(d[i:i + 4], order)
        if v > 0x10ffff:
            raise Discard('not a code point')
        return [u(v)], i + 4
    return unit


def d_any(args):
    val, counter = [u(0x3f)], None
    for k, v in args:
        if k.upper() == 'ERROR':
            counter = (v or 'IERR').upper()
        elif k.upper() == 'DROP':
            val = []
        else:
            val = hexcells(k)

    def unit(d, i):
        return val, i + 1, counter
    return unit


DEC, HEX, OCT = b'0123456789', b'0123456789abcdefABCDEF', b'01234567'


def d_entity(d, i):
    """&#65; and &#x41;"""
    if d[i:i + 2] != b'&#':
        return None
    j = d.find(b';', i + 2)
    if j < 0:
        return None
    t = d[i + 2:j]
    hx = t[:1] == b'x'
    t = t[1:] if hx else t
    if not t or any(c not in (HEX if hx else DEC) for c in t):
        return None
    v = int(t, 16 if hx else 10)
    return ([u(v)], j + 1) if v <= 0x10ffff else None


def d_escape(d, i):
    """%41 %u6e2c \\x41 \\101 \\u6e2c"""
    def dig(a, n, al):
        t = d[a:a + n]
        return t if len(t) == n and all(c in al for c in t) else None
    c, e = d[i:i + 1], d[i + 1:i + 2]
    if c not in (b'%', b'\\'):
        return None
    if e == b'u':
        t = dig(i + 2, 4, HEX)
        return ([u(int(t, 16))], i + 6) if t else None
    if c == b'%':
        t = dig(i + 1, 2, HEX)
        return ([bytes([3, int(t, 16)])], i + 3) if t else None
    if e == b'x':
        t = dig(i + 2, 2, HEX)
        return ([bytes([3, int(t, 16)])], i + 4) if t else None
    t = dig(i + 1, 3, OCT)
    return ([bytes([3, int(t, 8)])], i + 4) if t and int(t, 8) < 256 else None


def d_uda(d, i):
    """the user-defined area of code page 950"""
    h = d[i]
    for lo, hi, base in ((0xfa, 0xfe, 0xe000), (0x8e, 0xa0, 0xe311), (0x81, 0x8d, 0xeeb8), (0xc6, 0xc8, 0xf672)):
        if lo <= h <= hi:
            break
    else:
        return None
    if i + 1 >= len(d):
        return None
    t = d[i + 1]
    if not (0x40 <= t <= 0x7e or 0xa1 <= t <= 0xfe) or h == 0xc6 and t < 0xa1:
        return None
    return [u(base + 157 * (h - lo) + (t - 0x40 if t < 0x80 else t - 0x62))], i + 2


def d_gb18030(repo):
    tr = tables.trie(repo, 'from', '_GB18030')
    m = {e.key: e for e in tr.entries if not e.callback and tables.ANYTOK not in e.key}

    def unit(d, i):
        for n in (4, 2, 1):
            k = tuple(d[i:i + n])
            if len(k) == n and k in m:
                return m[k].val, i + n
        q = d[i:i + 4]
        if len(q) == 4 and 0x81 <= q[0] <= 0xfe and 0x30 <= q[1] <= 0x39 and 0x81 <= q[2] <= 0xfe and 0x30 <= q[3] <= 0x39:
            try:
                return [u(ord(q.decode('gb18030')))], i + 4
            except (UnicodeDecodeError, TypeError):
                return None
        return None
    return unit


_memo = {}


def decoder(repo, spec):
    k = (repo, 'from', spec)
    if k not in _memo:
        _memo[k] = _decoder(repo, spec)
    return _memo[k]


def _decoder(repo, spec):
    n, args = parse(spec)
    if n == '_UTF-8':
        return d_utf8(args)
    if n == 'ANY':
        return d_any(args)
    if args:
        return None
    if n in ('UTF-16BE', 'UTF-16LE'):
        return d_utf16('big' if n.endswith('BE') else 'little')
    if n in ('UTF-32BE', 'UTF-32LE'):
        return d_utf32('big' if n.endswith('BE') else 'little')
    if n == 'ASCII-NUMERIC-HTML-ENTITY':
        return d_entity
    if n == 'ESCAPE':
        return d_escape
    if n == 'CP950-UDA':
        return d_uda
    if n == '_GB18030':
        return d_gb18030(repo)
    return d_table(repo, n)


# ------------------------------------------------------------------ stages and encoders

def c_table(repo, kind, name):
    tr = tables.trie(repo, kind, name)
    if tr is None or not tr.lit:
        return None
    m, pre = tr.map, tr.prefix

    def unit(cells, i):
        key, j, n, best = tuple(cells[i]), i + 1, len(cells), None
        while True:
            if key in m:
                best = (m[key].val, j)
            if j >= n:
                return best
            k2 = key + (tables.SEP,)
            if k2 not in pre:
                return best
            key = k2 + tuple(cells[j])
            if key not in pre and key not in m:
                return best
            j += 1
    return unit


def scalar(c):
    if c[:1] != b'\x01' or len(c) < 2:
        return None
    v = int.from_bytes(c[1:], 'big')
    if v > 0x10ffff:
        raise Discard('not a code point')
    return v


def e_utf(enc):
    def unit(cells, i):
        v = scalar(cells[i])
        return ([chr(v).encode(enc, 'surrogatepass')], i + 1) if v is not None else None
    return unit


def e_utf8(cells, i):
    v = scalar(cells[i])
    return ([chr(v).encode('utf-8', 'surrogatepass')], i + 1) if v is not None and v > 0x7f else None


def e_ucs2(order):
    def unit(cells, i):
        v = scalar(cells[i])
        return ([v.to_bytes(2, order)], i + 1) if v is not None and v < 0x10000 else None
    return unit


def e_gb18030(repo):
    tr = tables.trie(repo, 'to', '_GB18030')
    m = {e.key: e for e in tr.entries if not e.callback and tables.ANYTOK not in e.key}

    def unit(cells, i):
        c = cells[i]
        if tuple(c) in m:
            return m[tuple(c)].val, i + 1
        v = scalar(c)
        if v is None or 0xd800 <= v <= 0xdfff:
            return None
        q = chr(v).encode('gb18030')
        return ([q], i + 1) if len(q) == 4 else None
    return unit


def e_escape(args):
    kind, mode, pre, suf = 1, 16, b'%u', b''
    for k, v in args:
        k = k.upper()
        if k == 'PREFIX':
            pre = bytes.fromhex(v)
        elif k == 'SUFFIX':
            suf = bytes.fromhex(v)
        elif k == 'MODE':
            mode = {'HEX': 16, '16': 16, 'DEC': 10, '10': 10, 'OCT': 8, '8': 8}[v.upper()]
        elif k == 'FOR':
            kind = {'UNICODE': 1, '1': 1, '01': 1, 'BYTE': 3, '3': 3, '03': 3}[v.upper()]

    def unit(cells, i):
        c = cells[i]
        if c[0] != kind or len(c) < 2 or kind == 3 and len(c) != 2:
            return None
        v = int.from_bytes(c[1:], 'big')
        if mode == 16:
            t = c[1:].hex().upper()
            if kind == 1 and not suf:
                t = t.rjust(4, '0')
        elif mode == 10:
            t = str(v)
        elif kind == 3:
            t = '%03o' % v
        else:
            return None
        return [pre + t.encode() + suf], i + 1
    return unit


def e_any(args):
    val, counter = [b'?'], None
    for k, v in args:
        if k.upper() == 'ERROR':
            counter = (v or 'OERR').upper()
        elif k.upper() == 'DROP':
            val = []
        else:
            val = hexcells(k)

    def unit(cells, i):
        return val, i + 1, counter
    return unit


def encoder(repo, spec):
    k = (repo, 'to', spec)
    if k not in _memo:
        _memo[k] = _encoder(repo, spec)
    return _memo[k]


def _encoder(repo, spec):
    n, args = parse(spec)
    if n == 'ESCAPE':
        return e_escape(args)
    if n == 'ANY':
        return e_any(args)
    if args:
        return None
    if n == '_UTF-8':
        return e_utf8
    if n in ('UTF-16BE', 'UTF-16LE', 'UTF-32BE', 'UTF-32LE'):
        return e_utf(n.lower().replace('utf-16', 'utf-16-').replace('utf-32', 'utf-32-'))
    if n in ('UCS-2BE', 'UCS-2LE'):
        return e_ucs2('big' if n.endswith('BE') else 'little')
    if n == '_GB18030':
        return e_gb18030(repo)
    if n == 'RAW':
        return lambda c, i: ([c[i][1:]], i + 1)
    if n == 'NULL':
        return lambda c, i: ([], i + 1)
    if n == 'PASS':
        return lambda c, i: ([c[i]], i + 1)
    if n == 'BSDCONV':
        return lambda c, i: ([c[i].hex().upper().encode()], i + 1)
    return c_table(repo, 'to', n)


def stage(repo, spec):
    k = (repo, 'inter', spec)
    if k not in _memo:
        n, args = parse(spec)
        r = None
        if not args and n not in pipes.HOLDING:
            if n == 'NULL':
                r = lambda c, i: ([], i + 1)
            elif n == 'PASS':
                r = lambda c, i: ([c[i]], i + 1)
            else:
                r = c_table(repo, 'inter', n)
        _memo[k] = r
    return _memo[k]


MAKE = {'from': decoder, 'inter': stage, 'to': encoder}


def modelled(repo, kind):
    """names (with the argument variants the generators use) that have a reference"""
    k = (repo, kind, 'modelled')
    if k not in _memo:
        reg = pipes.registry(repo)
        out = []
        for n in reg[kind]:
            if n in pipes.ENVDEP:
                continue
            out += [n + a for a in pipes.args_for(kind, n) if MAKE[kind](repo, n + a) is not None]
        al = []
        for n in reg['alias'][kind]:
            e = expand(repo, kind, n)
            if e and all(x.split('#')[0] in reg[kind] and MAKE[kind](repo, x) is not None for x in e):
                al.append(n)
        _memo[k] = (out, al)
    return _memo[k]


# ------------------------------------------------------------------ lists, phases, pipelines

def run_list(units, data, drop):
    """-> (results, errors, other counters, indices of the codecs used)"""
    out, err, cnt, used, i = [], 0, {}, [], 0
    n = len(data)
    while i < n:
        for k, f in enumerate(units):
            r = f(data, i)
            if r is not None:
                out += r[0]
                i = r[1]
                used.append(k)
                if len(r) > 2 and r[2]:
                    cnt[r[2]] = cnt.get(r[2], 0) + 1
                break
        else:
            used.append(-1)
            err += 1
            if not drop:
                out.append(data[i])
            i += 1
    return out, err, cnt, used


def units_of(repo, kind, text):
    us = [MAKE[kind](repo, c) for c in phase_codecs(repo, kind, text)]
    if None in us:
        raise Discard('no reference for ' + text)
    return us


def convert(repo, conv, data):
    """-> (output, counters, [codecs used per phase])"""
    cnt = {}
    trace = []

    def add(c):
        for k, v in c.items():
            if v:
                cnt[k] = cnt.get(k, 0) + v
    for st in conv.split('|'):
        ph = st.split(':')
        cells, e, c, us = run_list(units_of(repo, 'from', ph[0]), data, True)
        add(c)
        add({'IERR': e})
        trace.append(us)
        for x in ph[1:-1]:
            cells, e, c, us = run_list(units_of(repo, 'inter', x), [x for x in cells if x], False)
            trace.append(us)
        out, e, c, us = run_list(units_of(repo, 'to', ph[-1]), [x for x in cells if x], True)
        add(c)
        add({'OERR': e})
        trace.append(us)
        data = b''.join(out)
    return data, cnt, trace
