"""Small helpers shared by the checks."""
from .client import Req, AUTO
from .core import Violation, Discard


def clean(counters):
    """counters that are zero are indistinguishable from counters not yet named"""
    return {k.upper(): v for k, v in counters.items() if v}


def feed_all(r, slot, pieces, last_flush=True):
    """-> indices of the feed replies"""
    ix = []
    for i, p in enumerate(pieces):
        ix.append(r.feed(slot, p, flush=last_flush and i == len(pieces) - 1))
    return ix


def convert(env, conv, data, server=None):
    """-> (output, counters) or None when the conversion cannot be created"""
    r = Req()
    k = r.create(0, conv)
    r.init(0)
    f = r.feed(0, data, flush=True)
    c = r.counters(0)
    rep = (server or env).call(r)
    if not rep[k][0]:
        return None
    return rep[f][2], clean(rep[c])


def convert_many(env, pairs):
    """one request for several (conv, data); -> list of (output, counters) or None"""
    r = Req()
    ix = []
    for conv, data in pairs:
        k = r.create(0, conv)
        r.init(0)
        f = r.feed(0, data, flush=True)
        c = r.counters(0)
        r.destroy(0)
        ix.append((k, f, c))
    rep = env.call(r)
    return [(rep[f][2], clean(rep[c])) if rep[k][0] else None for k, f, c in ix]


def need(x, what='conversion not available'):
    if x is None:
        raise Discard(what)
    return x


def short(b, n=120):
    return repr(b if len(b) <= n else b[:n] + b'...')


def same(a, b, what):
    if a != b:
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            raise Violation('%s: %s instead of %s' % (what, short(a), short(b)))
        raise Violation('%s: %r instead of %r' % (what, a, b))
