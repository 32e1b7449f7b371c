"""Independent definitions of the character sets: Python's codecs and the C library's iconv."""
import ctypes, json, os

_libc = None


def libc():
    global _libc
    if _libc is None:
        l = ctypes.CDLL(None)
        l.iconv_open.restype = ctypes.c_void_p
        l.iconv.restype = ctypes.c_size_t
        l.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
        _libc = l
    return _libc


class Py:
    def __init__(self, name):
        self.name = name

    def dec(self, b):
        try:
            return b.decode(self.name)
        except UnicodeDecodeError:
            return None

    def enc(self, c):
        try:
            return c.encode(self.name)
        except UnicodeEncodeError:
            return None


class GL(Py):
    """the two-byte set of an EUC charset in its seven-bit form"""
    lead = b''

    def dec(self, b):
        return Py.dec(self, self.lead + bytes(x | 128 for x in b)) if len(b) == 2 and max(b) < 128 else None

    def enc(self, c):
        r = Py.enc(self, c)
        n = len(self.lead)
        return bytes(x & 127 for x in r[n:]) if r and len(r) == 2 + n and r.startswith(self.lead) and r[n] > 127 and r[0] != 0x8e else None


class Jis0212(GL):
    lead = b'\x8f'


class Iconv:
    """stateful EBCDIC: sequences are wrapped in SO and SI"""

    def __init__(self, name):
        self.name, self.h = name, None

    def go(self, i, b):
        if self.h is None:
            self.h = (libc().iconv_open(b'UTF-32BE', self.name.encode()), libc().iconv_open(self.name.encode(), b'UTF-32BE'))
            if ctypes.c_void_p(-1).value in self.h:
                raise RuntimeError('iconv does not know ' + self.name)
        cd = ctypes.c_void_p(self.h[i])
        libc().iconv(cd, None, None, None, None)
        n = 8 * len(b) + 64
        ib, ob = ctypes.create_string_buffer(b, len(b)), ctypes.create_string_buffer(n)
        ip, il = ctypes.c_void_p(ctypes.addressof(ib)), ctypes.c_size_t(len(b))
        op, ol = ctypes.c_void_p(ctypes.addressof(ob)), ctypes.c_size_t(n)
        # anything but 0: an error or a substitution
        if libc().iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol)) != 0:
            return None
        libc().iconv(cd, None, None, ctypes.byref(op), ctypes.byref(ol))
        return ob.raw[:n - ol.value]

    def text(self, b):
        r = self.go(0, b)
        return None if r is None else r.decode('utf-32be')

    def dec(self, b):
        if b[:1] in (b'\x0e', b'\x0f') or len(b) > 1 and b[1:2] in (b'\x0e', b'\x0f'):
            return None
        return self.text(b if len(b) == 1 else b'\x0e' + b + b'\x0f')

    def enc(self, c):
        return None if c in '\x0e\x0f' else self.go(1, c.encode('utf-32be', 'surrogatepass'))


REF = {'_ISO-8859-1': Py('latin-1'), '_CP874': Py('cp874'), '_CP932': Py('cp932'), '_CP936': Py('gbk'), '_CP949': Py('cp949'), '_CP950': Py('cp950'), '_GBK': Py('gbk'),
       '_GB2312': GL('gb2312'), '_GB18030': Py('gb18030'), '_HKSCS2001': Py('big5hkscs'), '_HKSCS2004': Py('big5hkscs'), '_SHIFT-JIS': Py('shift_jis'), 'IBM-37': Py('cp037'),
       '_JIS0212': Jis0212('euc_jp'), '_JIS0208': GL('euc_jp'), '_BIG5-ETEN': Py('big5'), '_BIG5-2003': Py('big5'), '_BIG5E': Py('big5'), '_UAO250': Py('cp950'), '_UAO241': Py('cp950')}
for _i in range(1251, 1259):
    REF['_CP%d' % _i] = Py('cp%d' % _i)
for _n in ('930', '933', '935', '937', '939'):
    REF['IBM-' + _n] = Iconv('IBM' + _n)
SINGLE = ['_ISO-8859-1', '_CP874', 'IBM-37'] + ['_CP%d' % i for i in range(1251, 1259)]
EBCDIC = ['IBM-930', 'IBM-933', 'IBM-935', 'IBM-937', 'IBM-939']


def ranges(xs):
    out = []
    for x in sorted(xs):
        if out and x == out[-1][1] + 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def expand(rs):
    return {x for a, b in rs for x in range(a, b + 1)}


_data = None


def data():
    """pinned differences between the shipped tables and the references; written by tools_charsets.py"""
    global _data
    if _data is None:
        p = os.path.join(os.path.dirname(__file__), 'data/charsets.json')
        d = json.load(open(p)) if os.path.exists(p) else {}
        for v in d.values():
            for k in ('missing', 'oneway', 'lost'):
                if k in v:
                    v[k] = expand(v[k])
        _data = d
    return _data
