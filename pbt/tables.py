"""Independent reading of the modules/*/*.txt tables (the language bsdconv-mktable compiles)."""
import os

SEP = 256
ANYTOK = -1


class Entry:
    __slots__ = ('key', 'val', 'callback', 'ci', 'line')

    def __init__(self, key, val, callback, ci, line):
        self.key, self.val, self.callback, self.ci, self.line = key, val, callback, ci, line


def hexbyte(s):
    """two digits; like mktable, what is not a digit counts as 0"""
    v = 0
    for c in s:
        k = '0123456789abcdef'.find(c.lower())
        v = v * 16 + max(k, 0)
    return v & 0xff


def parse_line(line):
    """-> Entry or None for a comment"""
    if line.startswith('#'):
        return None
    body = line.rstrip('\r\n')
    if body.startswith('Source:'):
        return None  # provenance note without its '#'
    k = 0
    while k < len(body) and body[k] not in '\t ':
        k += 1
    f = body[:k]
    while k < len(body) and body[k] in '\t ':
        k += 1
    t = ''
    while k < len(body) and body[k] not in '\t\r\n# ':
        t += body[k]
        k += 1
    if not f and not t:
        return None
    ci = f.startswith('!')
    if ci:
        f = f[1:]
    key = []
    i = 0
    while i < len(f):
        if f[i] == '*':
            key.append(ANYTOK)
            i += 1
        elif f[i] == ',':
            key.append(SEP)
            i += 1
        else:
            key.append(hexbyte(f[i:i + 2]))
            i += 2
    cb = t.startswith('?')
    if cb:
        t = t[1:]
    val = [bytes(hexbyte(c[j:j + 2]) for j in range(0, len(c), 2)) for c in t.split(',')] if t else []
    return Entry(tuple(key), val, cb, ci, line)


def read(path):
    out = []
    with open(path, encoding='utf-8', errors='surrogateescape') as f:
        for line in f:
            e = parse_line(line)
            if e:
                out.append(e)
    return out


_cache = {}


def table(env_repo, kind, name):
    p = os.path.join(env_repo, 'modules', kind, name + '.txt')
    if p not in _cache:
        if not os.path.exists(p):
            _cache[p] = None
        else:
            _cache[p] = read(p)
    return _cache[p]


def literal_keys(env_repo, kind, name):
    """keys without wildcards: bytes for from tables, tuples of cells for inter/to tables"""
    k = (env_repo, kind, name, 'keys')
    if k in _cache:
        return _cache[k]
    t = table(env_repo, kind, name) or []
    out = []
    for e in t:
        if ANYTOK in e.key:
            continue
        if kind == 'from':
            out.append(bytes(e.key))
        else:
            cells, cur = [], []
            for x in e.key:
                if x == SEP:
                    cells.append(bytes(cur))
                    cur = []
                else:
                    cur.append(x)
            cells.append(bytes(cur))
            out.append(tuple(cells))
    _cache[k] = out
    return out


class Trie:
    """Reference automaton: deterministic, highest specificity wins, earlier lines win ties."""

    def __init__(self, entries):
        self.entries = entries
        # states: dict token -> (state); value at state: (level, idx)
        self.root = {}
        self.lit = all(ANYTOK not in e.key and not e.ci and not e.callback for e in entries)
        if self.lit:
            self.map = {}
            self.prefix = set()
            for e in entries:
                if e.key not in self.map:
                    self.map[e.key] = e
                for i in range(1, len(e.key)):
                    self.prefix.add(e.key[:i])


def decode_ref(trie, data, default_byte_error=True):
    """longest-match decode of bytes with a purely literal from-table. -> (cells, errors)"""
    out, err, i, n = [], 0, 0, len(data)
    m, pre = trie.map, trie.prefix
    while i < n:
        j = i + 1
        best = None
        while True:
            k = tuple(data[i:j])
            if k in m:
                best = j
            if k not in pre or j >= n:
                break
            j += 1
        if best is None:
            err += 1
            i += 1
        else:
            out += m[tuple(data[i:best])].val
            i = best
    return out, err


def cells_tokens(cells):
    """token stream of a cell list with a separator after each cell"""
    out = []
    for c in cells:
        out.append(tuple(c))
    return out


def inter_ref(trie, cells):
    """longest-match rewriting of a cell sequence; unmatched cells pass. Keys compare as tuples joined by SEP"""
    out, i, n = [], 0, len(cells)
    m, pre = trie.map, trie.prefix
    while i < n:
        key = tuple(cells[i])
        best, bj = None, None
        j = i + 1
        while True:
            if key in m:
                best, bj = m[key], j
            if j >= n:
                break
            key2 = key + (SEP,)
            if key2 not in pre:
                break
            key3 = key2 + tuple(cells[j])
            if key3 not in pre and key3 not in m:
                break
            key = key3
            j += 1
        if best is None:
            out.append(cells[i])
            i += 1
        else:
            out += best.val
            i = bj
    return out


def to_ref(trie, cells):
    out, err, i, n = [], 0, 0, len(cells)
    m, pre = trie.map, trie.prefix
    while i < n:
        key = tuple(cells[i])
        best, bj = None, None
        j = i + 1
        while True:
            if key in m:
                best, bj = m[key], j
            if j >= n:
                break
            key2 = key + (SEP,)
            if key2 not in pre:
                break
            key3 = key2 + tuple(cells[j])
            if key3 not in pre and key3 not in m:
                break
            key = key3
            j += 1
        if best is None:
            err += 1
            i += 1
        else:
            out += best.val
            i = bj
    return out, err


def trie(env_repo, kind, name):
    k = (env_repo, kind, name, 'trie')
    if k not in _cache:
        t = table(env_repo, kind, name)
        _cache[k] = Trie(t) if t is not None else None
    return _cache[k]


def u(cp):
    """Unicode cell: type 01, big endian without leading zero bytes"""
    if cp > 0xffff:
        return b'\x01' + cp.to_bytes(3, 'big')
    if cp > 0xff:
        return b'\x01' + cp.to_bytes(2, 'big')
    return bytes([1, cp])


def cp_of(cell):
    return int.from_bytes(cell[1:], 'big') if cell[:1] == b'\x01' else None


# ------------------------------------------------------------------ general interpretation (wildcards, letter case)

def tok_level(e, tokens, i):
    """how well entry e matches tokens[i:]: None, or the number of tokens matched exactly or by a wildcard"""
    if i + len(e.key) > len(tokens):
        return None
    lv = 0
    for k, t in zip(e.key, tokens[i:i + len(e.key)]):
        if k == ANYTOK or k == t:
            lv += 1
        elif e.ci and k < 128 and t < 128 and chr(k).isalpha() and chr(k).swapcase() == chr(t):
            pass
        else:
            return None
    return lv


def general_ref(kind, entries, data):
    """longest match over a whole table.  from: data is bytes; inter/to: data is a list of non-empty cells.
    Among entries matching the same text the one matching most exactly wins, then the earliest.
    -> (cells, number of units no entry matches)"""
    tokens, ends = [], set()
    starts = {}
    if kind == 'from':
        tokens = list(data)
        ends = set(range(1, len(tokens) + 1))
    else:
        for n, c in enumerate(data):
            if n:
                tokens.append(SEP)
            starts[len(tokens)] = n
            tokens += list(c)
            ends.add(len(tokens))
        starts[len(tokens) + 1] = len(data)
    out, err, i = [], 0, 0
    n = len(tokens)
    while i < n:
        best = None
        for o, e in enumerate(entries):
            if i + len(e.key) not in ends:
                continue
            lv = tok_level(e, tokens, i)
            if lv is None:
                continue
            q = (len(e.key), lv, -o)
            if best is None or q > best[0]:
                best = (q, e)
        if best is None:
            err += 1
            if kind == 'from':
                i += 1
            else:
                c = data[starts[i]]
                if kind == 'inter':
                    out.append(c)
                i += len(c) + 1
        else:
            out += best[1].val
            i += len(best[1].key) + (0 if kind == 'from' else 1)
    return out, err
