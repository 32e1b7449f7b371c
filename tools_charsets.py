"""Writes pbt/data/charsets.json: where the shipped tables differ from the references. Run once by hand; the result was reviewed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core, build, charsets, pipes, tables
from pbt.checks import c12
from pbt.charsets import REF, EBCDIC, SINGLE, ranges
env = core.Env(build.build())
out = {}
for n in c12.names(env, 'from'):
    miss, diff, extra, agree = [], {}, 0, 0
    for case in c12.leads(env):
        if case['codec'] != n:
            continue
        seqs = c12.sequences(case)
        for s, g in zip(seqs, c12.decode_all(env, n, seqs)):
            w = REF[n].dec(s)
            if w is not None and len(s) == 2 and n not in EBCDIC and REF[n].dec(s[:1]) is not None:
                continue
            if w == g:
                agree += g is not None
            elif g is None:
                miss.append(c12.key(s))
            elif w is None:
                extra += 1
            else:
                diff[s.hex()] = g
    out['from/' + n] = {'agree': agree, 'exact': extra == 0, 'extra': extra, 'missing': ranges(miss), 'diff': diff}
    print('from', n, agree, extra, len(miss), len(diff), flush=True)
for n in c12.names(env, 'to'):
    miss, diff, extra, agree, one = [], {}, 0, 0, []
    for case in c12.blocks(env):
        if case['codec'] != n:
            continue
        chars = [chr(c) for c in range(case['at'], case['at'] + c12.BLOCK)]
        got = c12.encode_all(env, n, chars)
        for c, g in zip(chars, got):
            w = REF[n].enc(c)
            if n in EBCDIC and w is not None and w.startswith(b'\x0e') and g:
                w, g = w.rstrip(b'\x0f'), g.rstrip(b'\x0f')
            if w == g:
                agree += g is not None
            elif g is None:
                miss.append(ord(c))
            elif w is None:
                extra += 1
            else:
                diff['%X' % ord(c)] = g.hex()
        if n in pipes.registry(env.repo)['from']:
            b = [(c, g) for c, g in zip(chars, got) if g is not None]
            for (c, g), t in zip(b, c12.decode_raw(env, n, [g for c, g in b])):
                if t != c:
                    one.append(ord(c))
    out['to/' + n] = {'agree': agree, 'exact': extra == 0, 'extra': extra, 'missing': ranges(miss), 'diff': diff, 'oneway': ranges(one)}
    print('to', n, agree, extra, len(miss), len(diff), 'one way', len(one), [hex(x) for x in one[:20]], flush=True)
for n in c12.SELF:
    lost = []
    for case in c12.self_chunks(env):
        if case['codec'] != n:
            continue
        ks = c12.keys(env, n)[case['at']:case['at'] + c12.STEP]
        todo = [(k, t) for k, t in zip(ks, c12.decode_all(env, n, ks)) if t is not None and len(t) == 1]
        enc = c12.encode_all(env, n, [t for k, t in todo])
        back = c12.decode_raw(env, n, [e or b'' for e in enc])
        lost += [ord(t) for (k, t), e, b in zip(todo, enc, back) if b != t]
    out['self/' + n] = {'lost': ranges(set(lost))}
    print('self', n, len(lost), [hex(x) for x in lost[:20]], flush=True)
os.makedirs('pbt/data', exist_ok=True)
json.dump(out, open('pbt/data/charsets.json', 'w'), separators=(',', ':'))
