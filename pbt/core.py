"""Property-based testing core: choice-sequence generators with integrated shrinking, sharded
search, confirmation by replay, evidence.

A check is a module pbt/checks/cNN.py with PROPERTY = 'CNN' and PARTS = [Part(...), ...].  A part has a
generator gen(s, env) -> case (built from the choices of a Src), and run(env, case) -> (nontrivial, label)
which raises Violation (or lets Crash through) when the property does not hold for the case.
Cases are plain values (ints, strings, bytes, lists, dicts) so that they can be written to a replay file.
"""
import hashlib, importlib, json, multiprocessing as mp, os, random, resource, signal, sys, tempfile, time, traceback

from . import build as _build
from .client import Crash, Server

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NSHARD = 8


class Violation(Exception):
    def __init__(self, msg=''):
        super().__init__(msg if len(msg) < 1600 else msg[:700] + ' ... ' + msg[-800:])


class Discard(Exception):
    """The generated case is outside the property's domain."""


# ---------------------------------------------------------------- generation

class Src:
    """Source of choices.  Small choices mean simple values; a recorded list replays (and shrinks)."""
    __slots__ = ('rng', 'pre', 'rec', 'grow')

    def __init__(self, rng, pre=()):
        self.rng, self.pre, self.rec = rng, pre, []
        self.grow = 1  # lists (the outermost ones) are that many times longer

    def n(self, hi):
        """integer in 0..hi, uniformly"""
        k = len(self.rec)
        if k < len(self.pre):
            v = self.pre[k]
            if v > hi:
                v = hi
        elif self.rng is None:
            v = 0
        else:
            v = int(self.rng.random() * (hi + 1)) if hi < (1 << 40) else self.rng.randint(0, hi)
        self.rec.append(v)
        return v

    def chance(self, num, den=100):
        """True with probability num/den; shrinks to False"""
        return self.n(den - 1) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value); put the simplest first"""
        t = 0
        for w, _ in pairs:
            t += w
        x = self.n(t - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def rng_int(self, lo, hi):
        return lo + self.n(hi - lo)

    def size(self, hi, mean=None):
        """a length in 0..hi, small ones more often"""
        k = self.n(9)
        if k < 2:
            return self.n(min(hi, 2))
        if k < 7:
            return self.n(min(hi, 8))
        return self.n(hi)

    def list(self, f, hi, lo=0):
        """list of f(self) with a continuation choice per element, so that elements can be deleted"""
        grow = self.grow
        if grow > 1:
            hi *= grow
            k = max(lo, hi // 4 + self.n(hi - hi // 4) if self.n(2) else self.size(hi))
            self.grow = 1
        else:
            k = max(lo, self.size(hi))
        # length is re-encoded as continue flags: deleting (flag, element) shrinks the list
        out = []
        base = len(self.rec)
        if self.rng is None or base < len(self.pre):
            while len(out) < hi and self.n(1 << 20):
                out.append(f(self))
        else:
            for _ in range(k):
                self.rec.append(1)
                out.append(f(self))
            if k < hi:
                self.rec.append(0)
        # the size choices stay recorded but are ignored on replay beyond keeping alignment
        if len(out) < lo:
            out += [f(self) for _ in range(lo - len(out))]
        self.grow = grow
        return out

    def blob(self, hi):
        return bytes(self.list(lambda s: s.n(255), hi))


def scaled(gen, *factors):
    """the same cases with lists many times as long"""
    def g(s, env):
        s.grow = s.pick(factors)
        return gen(s, env)
    return g


class Part:
    def __init__(self, name, gen, run, quick, thorough=None, weight=None, rule='', exhaustive=None, schedule=False):
        self.name, self.gen, self.run, self.quick = name, gen, run, quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule
        self.schedule = schedule  # the outcome depends on how threads are scheduled: a failing case is tried env.tries times when it is checked again
        self.exhaustive = exhaustive  # list factory: env -> cases, all of which are run (every tier)


# ---------------------------------------------------------------- encoding

def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {'~b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if set(v) == {'~b'}:
            return bytes.fromhex(v['~b'])
        return {k: dec(x) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- environment

class Env:
    """What a run may use: the built tree, lazily started servers, a scratch directory."""

    def __init__(self, root, tier='quick', cpu=None, kind='asan'):
        self.root, self.tier, self.kind = root, tier, kind
        self.cpu = cpu or int(os.environ.get('PBT_CPU', 20))
        self.repo = os.path.join(root, 'src')
        self.servers = {}
        self._tmp = None
        self.cache = {}
        self.tries = 1

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.TemporaryDirectory(prefix='pbtenv')
        return self._tmp.name

    def server(self, kind=None, fill=0xff, **kw):
        kind = kind or self.kind
        k = (kind, fill, tuple(sorted(kw.items())))
        s = self.servers.get(k)
        if s is None:
            s = self.servers[k] = Server(self.root, kind, cpu=self.cpu, fill=fill, **kw)
        return s

    def call(self, req):
        return self.server().call(req)

    def fresh(self):
        """forget every server process"""
        for s in self.servers.values():
            s.stop()

    def close(self):
        self.fresh()
        if self._tmp is not None:
            self._tmp.cleanup()
            self._tmp = None


def run_case(part, env, case):
    """-> None if the property held (or the case was discarded), else a message"""
    try:
        part.run(env, case)
    except Discard:
        return None
    except Violation as e:
        return str(e) or 'violation'
    except Crash as e:
        return 'crash: ' + str(e)
    return None


def canon(case):
    """what replays is the decoded JSON form"""
    return dec(json.loads(json.dumps(enc(case))))


# ---------------------------------------------------------------- shrinking

def shrink(part, env, choices, message, budget, known=None, fresh=False):
    """Greedy choice-sequence reduction: delete blocks, zero blocks, lower values."""
    end = time.monotonic() + budget
    best = list(choices)
    best_case = None
    best_msg = message
    tried = set()
    slow = 'does not terminate' in message
    left = [8 if slow else 3000]

    def ok(c):
        nonlocal best, best_case, best_msg
        t = tuple(c)
        if t in tried or time.monotonic() > end or left[0] <= 0:
            return False
        tried.add(t)
        left[0] -= 1
        s = Src(None, c)
        try:
            case = canon(part.gen(s, env))
        except Discard:
            return False
        if fresh:
            env.fresh()
        m = run_case(part, env, case)
        if m is None or (known and known(case, m)):
            return False
        r = s.rec
        if (len(r), r) >= (len(best), best) and best_case is not None:
            return False
        best, best_case, best_msg = list(r), case, m
        return True

    ok(best)
    improved = True
    while improved and time.monotonic() < end and left[0] > 0:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best) and ok(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
        for size in (16, 4, 1):
            i = 0
            while i + size <= len(best):
                if any(best[i:i + size]) and ok(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i += size
        i = 0
        while i < len(best):
            lo, hi = 0, best[i]
            while i < len(best) and hi - lo > 1 and time.monotonic() < end:
                mid = (lo + hi) // 2
                if ok(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid
            if i < len(best) and best[i] > 0 and ok(best[:i] + [best[i] - 1] + best[i + 1:]):
                improved = True
            i += 1
    return best, best_case, best_msg


# ---------------------------------------------------------------- worker

def load(prop):
    return importlib.import_module('pbt.checks.' + prop.lower())


def worker(prop, root, tier, seed, shard, outq, stop, deadline, only):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env = Env(root, tier)
    # ASAN never hands out freed memory again: the last shard runs the library as it is shipped
    plain = shard == NSHARD - 1 and getattr(load(prop), 'PLAIN', True)
    res = {'shard': shard, 'parts': {}, 'violation': None, 'error': None}
    known = [k for k in known_findings() if k['property'] == prop]
    try:
        mod = load(prop)
        if hasattr(mod, 'setup'):
            mod.setup(env)
        for part in mod.PARTS:
            if only and part.name not in only:
                continue
            st = {'evaluations': 0, 'discarded': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'truncated': False, 'wall': 0.0}
            res['parts'][part.name] = st
            seen = set()
            t0 = time.monotonic()
            quota = part.quick if tier == 'quick' else part.thorough
            ex = part.exhaustive(env) if part.exhaustive else None
            env.kind = 'plain' if plain and ex is None else 'asan'
            total = len(ex) if ex is not None else quota
            history = []
            for idx in range(shard, total, NSHARD):
                if stop.is_set():
                    st['truncated'] = True
                    break
                if time.time() > deadline:
                    st['truncated'] = True
                    break
                if ex is not None:
                    s = None
                    case = ex[idx]
                else:
                    s = Src(random.Random('%s/%s/%d/%d' % (prop, part.name, seed, idx)))
                    try:
                        case = part.gen(s, env)
                    except Discard:
                        st['discarded'] += 1
                        continue
                msg = None
                try:
                    r = part.run(env, case)
                    st['evaluations'] += 1
                    nt, label = r if isinstance(r, tuple) else (r, None)
                    if label is not None:
                        for l in (label if isinstance(label, (list, tuple)) else (label,)):
                            st['labels'][l] = st['labels'].get(l, 0) + 1
                    if nt:
                        e = json.dumps(enc(case), sort_keys=True)
                        h = hashlib.blake2b(e.encode(), digest_size=8).digest()
                        if h not in seen:
                            seen.add(h)
                            if len(st['samples']) < 2 and len(e) < 1500 and (len(st['samples']) == 0 or idx > total // 2):
                                st['samples'].append(enc(case))
                except Discard:
                    st['discarded'] += 1
                    continue
                except Violation as e:
                    msg = str(e) or 'violation'
                except Crash as e:
                    msg = 'crash: ' + str(e)
                history.append(idx)
                if msg is not None:
                    st['evaluations'] += 1
                    if is_known(known, part, enc(case), msg):
                        st['labels']['known finding'] = st['labels'].get('known finding', 0) + 1
                        env.fresh()
                        continue
                    v = {'part': part.name, 'index': idx, 'message': msg, 'case': enc(case), 'choices': s.rec if s else None, 'history': None, 'kind': env.kind}
                    env.fresh()
                    case = canon(case)
                    env.tries = 40
                    m1 = run_case(part, env, case)
                    if m1 is None and part.schedule:
                        env.tries = 1
                        res.setdefault('flaky', []).append(v)
                        if len(res['flaky']) > 20:
                            break
                        continue
                    if m1 is None:
                        # not reproducible alone: does it need what the process did before?
                        def rerun(hist):
                            env.fresh()
                            cs = []
                            for j in hist:
                                cs.append(canon(ex[j]) if ex is not None else canon(regen(prop, part, seed, j, env)))
                            m = None
                            for c in cs:
                                m = run_case(part, env, c)
                            return m
                        n = 2
                        while n <= 2048:
                            h = history[-n:]
                            m = rerun(h)
                            if m is not None:
                                # drop what is not needed
                                k = 0
                                t_end = time.monotonic() + 40
                                while k < len(h) - 1 and time.monotonic() < t_end:
                                    h2 = h[:k] + h[k + 1:]
                                    m2 = rerun(h2)
                                    if m2 is not None:
                                        h, m = h2, m2
                                    else:
                                        k += 1
                                v['history'] = [enc(ex[j]) if ex is not None else enc(regen(prop, part, seed, j, env)) for j in h]
                                v['message'] = m + ' (needs the preceding calls in the same process)'
                                break
                            if n >= len(history):
                                break
                            n *= 4
                        else:
                            pass
                        if v['history'] is None:
                            res.setdefault('flaky', []).append(v)
                            if len(res['flaky']) > 20:
                                break
                            continue
                    elif s is not None:
                        # short budget when a big thing is being shrunk elsewhere is handled by the parent
                        c, cs, m = shrink(part, env, s.rec, msg, 45, lambda c, m: is_known(known, part, enc(c), m))
                        # a process that keeps what earlier cases left behind can shrink to a case that needs it
                        env.fresh()
                        if cs is not None and run_case(part, env, cs) is None:
                            c, cs, m = shrink(part, env, s.rec, msg, 45, lambda c, m: is_known(known, part, enc(c), m), fresh=True)
                        if cs is not None:
                            v.update(choices=c, case=enc(cs), message=m)
                    res['violation'] = v
                    break
            st['nontrivial'] = [h.hex() for h in seen]
            st['wall'] = time.monotonic() - t0
            if res['violation']:
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    try:
        env.close()
    except Exception:
        pass
    outq.put(res)


def regen(prop, part, seed, idx, env):
    s = Src(random.Random('%s/%s/%d/%d' % (prop, part.name, seed, idx)))
    return part.gen(s, env)


# ---------------------------------------------------------------- known findings

def known_findings():
    """entries of known_findings.json: {property, part, match (substring of the case JSON or message), what} suppress;
    'fixed' entries are documentation only"""
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def is_known(known, part, case, msg):
    return any(k['part'] == part.name and (k['match'] in json.dumps(case) or k['match'] in msg) for k in known)


# ---------------------------------------------------------------- runner

def kinds_of(mod):
    return ('asan', 'plain') + tuple(getattr(mod, 'KINDS', ()))


def replay_file(prop, path, root=None, quiet=False):
    v = json.load(open(path))
    mod = load(prop)
    root = root or _build.build(kinds=kinds_of(mod))
    part = next(p for p in mod.PARTS if p.name == v['part'])
    env = Env(root, v.get('tier', 'quick'), kind=v.get('kind', 'asan'), cpu=60)
    env.tries = 400
    try:
        if hasattr(mod, 'setup'):
            mod.setup(env)
        cases = [dec(c) for c in v['history']] if v.get('history') else [dec(v['case'])]
        m = None
        for c in cases:
            m = run_case(part, env, c)
        return m
    finally:
        env.close()


def confirm_child(prop, path, root, q):
    try:
        q.put(replay_file(prop, path, root))
    except BaseException:
        q.put('ERROR ' + traceback.format_exc())


def main(argv):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    prop = argv[0]
    tier = 'quick'
    only = None
    i = 1
    while i < len(argv):
        if argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        elif argv[i] == '--replay':
            m = replay_file(prop, argv[i + 1])
            print('replay: ' + (m or 'property holds'))
            return 1 if m else 0
        elif argv[i] == '--only':
            only = argv[i + 1].split(',')
            i += 1
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    try:
        root = _build.build(kinds=kinds_of(mod))
    except _build.BuildError as e:
        print('build failed:\n%s' % e)
        return 2
    deadline = t0 + float(os.environ.get('PBT_DEADLINE', 480 if tier == 'quick' else 3000))
    ctx = mp.get_context('fork')
    q, stop = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=worker, args=(prop, root, tier, seed, sh, q, stop, deadline, only)) for sh in range(NSHARD)]
    for p in ps:
        p.start()
    results = []
    first = None
    import queue
    while len(results) < len(ps):
        try:
            r = q.get(timeout=1)
            results.append(r)
            if r['violation'] and first is None:
                first = time.time()
                stop.set()
        except queue.Empty:
            if first and time.time() - first > 60:
                break
            if not any(p.is_alive() for p in ps):
                try:
                    while True:
                        results.append(q.get(timeout=1))
                except queue.Empty:
                    break
            if time.time() > deadline + 180:
                break
    missing = len(ps) - len(results)
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.terminate()
            p.join(2)
            if p.is_alive():
                p.kill()
    errors = [r['error'] for r in results if r['error']]
    viol = [r['violation'] for r in results if r['violation']]
    flaky = [f for r in results for f in r.get('flaky', [])]
    # merge
    parts = {}
    for part in mod.PARTS:
        if only and part.name not in only:
            continue
        m = {'evaluations': 0, 'discarded': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'truncated': False, 'wall': 0.0}
        for r in results:
            st = r['parts'].get(part.name)
            if not st:
                continue
            m['evaluations'] += st['evaluations']
            m['discarded'] += st['discarded']
            m['nontrivial'].update(st['nontrivial'])
            m['samples'] += st['samples']
            m['truncated'] |= st['truncated']
            m['wall'] = max(m['wall'], st['wall'])
            for k, v in st['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
        parts[part.name] = m
    status = 0
    confirmed = None
    viol.sort(key=lambda v: (v['history'] is not None, len(json.dumps(v['case'])) if not v['choices'] else len(v['choices']), len(json.dumps(v['case']))))
    known = [k for k in known_findings() if k['property'] == prop]
    rdir = os.path.join(VERIF, 'build', 'replays')
    for v in viol:
        if any(k['part'] == v['part'] and (k['match'] in json.dumps(v['case']) or k['match'] in v['message']) for k in known):
            continue
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        v = dict(v, property=prop, seed=seed, tier=tier)
        json.dump(v, open(path, 'w'), indent=1)
        good = 0
        for _ in range(3):
            cq = ctx.Queue()
            p = ctx.Process(target=confirm_child, args=(prop, path, root, cq))
            p.start()
            try:
                m = cq.get(timeout=300)
            except queue.Empty:
                m = None
            p.join(5)
            if p.is_alive():
                p.kill()
            if m is not None and not m.startswith('ERROR '):
                good += 1
            else:
                if m:
                    errors.append(m)
                break
        if good == 3:
            confirmed = (path, v)
            break
        else:
            flaky.append(v)
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(p['evaluations'] for p in parts.values()),
                       'distinct_nontrivial': sum(len(p['nontrivial']) for p in parts.values()),
                       'rule': getattr(mod, 'RULE', ''), 'samples': [{'part': n, 'case': s} for n, p in parts.items() for s in p['samples'][:3]][:24],
                       'parts': {n: {'evaluations': p['evaluations'], 'discarded': p['discarded'], 'distinct_nontrivial': len(p['nontrivial']), 'wall_s': round(p['wall'], 1),
                                     'stopped_early': p['truncated'], 'labels': dict(sorted(p['labels'].items(), key=lambda x: -x[1])[:60])} for n, p in parts.items()},
                       'not_reproducible': len(flaky)},
          'wall_s': round(wall, 1), 'violations': 1 if confirmed else 0, 'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not os.environ.get('PBT_NO_EVIDENCE'):
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=True)
    for n, p in parts.items():
        print('%s %-22s %7d cases, %7d distinct non-trivial, %5d discarded, %6.1f s%s' % (prop, n, p['evaluations'], len(p['nontrivial']), p['discarded'], p['wall'], ' (stopped early)' if p['truncated'] else ''))
        if os.environ.get('PBT_LABELS'):
            for k, c in sorted(p['labels'].items(), key=lambda x: -x[1]):
                print('      %7d %s' % (c, k))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for f in flaky[:3]:
        print('note: not reproducible, not reported: part %s: %s' % (f['part'], f['message'][:300]))
        if os.environ.get('PBT_FLAKY'):
            print('   ', json.dumps(f['case'])[:1500])
    if confirmed:
        path, v = confirmed
        print('%s violated in part %s: %s' % (prop, v['part'], v['message'][:2000]))
        print('minimal case: %s' % json.dumps(v['history'] or v['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        status = 1
    elif errors or missing:
        print('internal error in the check:\n' + '\n'.join(errors[:3]) + (' %d workers lost' % missing if missing else ''))
        status = 2
    print('%s %s seed=%d: %.1f s' % (prop, tier, seed, wall))
    return status


if __name__ == '__main__':
    from pbt.core import main as _main  # the checks must see the same classes
    sys.exit(_main(sys.argv[1:]))
