"""Regenerates MANIFEST.json and known_findings.json."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(HERE, 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'pbt/checks/%s.py' % i.lower())):
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i, 'technique': t, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': TECH.get(i, ['', 'The check for this property is not built yet.'])[1]})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m pbt.build', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

# property each repair belongs to, by a fragment of the commit's subject
OWN = [('unpack writes one', 'C03'), ('hash_get', 'C17'), ('hash_del', 'C17'), ('str2datum', 'C04'), ('modules_list of an unknown', 'C22'), ('module_check accepts', 'C22'),
       ('unpack leaks', 'C24'), ('arguments of an alias', 'C04'), ('half-made instance', 'C04'), ('failed create leaks', 'C24'), ('input passed as a list', 'C01'), ('after the match of a decoder', 'C01'),
       ('lone lead surrogate', 'C09'), ('CESU surrogate', 'C09'), ('without SUPER', 'C09'), ('BSDCONV decoder frees', 'C02'), ('keeps a lead byte', 'C02'), ('leaks its state when', 'C24'),
       ('keeps its mode', 'C02'), ('unknown escape sequence', 'C12'), ('incomplete unit that was flushed', 'C02'), ('octal escapes', 'C18'), ('escaped U+0000', 'C03'), ('U+0000 from', 'C10'),
       ('flags of characters over', 'C25'), ('numeric entities without', 'C18'), ('EBCDIC decoder swallows', 'C13'), ('EBCDIC encoder drops', 'C13'), ('NFC uses a freed', 'C02'), ('reordered marks', 'C02'),
       ('Hangul decomposition drops', 'C11'), ('too short twice', 'C03'), ('negative MIN-LEN', 'C19'), ('without their value', 'C04'), ('rejecting their arguments leak', 'C24'), ('named by the environment', 'C04'),
       ('REPLACE crashes', 'C19'), ('AMBIGUOUS-UNPAD drops', 'C26'), ('BIG5-DEFRAG loses', 'C26'), ('case-insensitive table', 'C08'), ('replacing the result', 'C08'), ('own flush took is examined', 'C14'),
       ('CNS 11643 plane', 'C03'), ('take what is no code point', 'C10'), ('longer than a code point', 'C03'), ('does not terminate', 'C03'), ('loses white space', 'C26'),
       ('after an input error', 'C01'), ('four-byte sequences of its table', 'C12')]
more = os.path.join(HERE, 'fix_owners.json')
if os.path.exists(more):
    OWN += [tuple(x) for x in json.load(open(more))]
fixed = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ea78cef..'], stdout=subprocess.PIPE, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    own = [o for f, o in OWN if f in s]
    if not own:
        raise SystemExit('no property for ' + line)
    fixed.append('fixed: property=%s %s %s' % (own[-1], h, s[5:]))
kf = os.path.join(HERE, 'known_findings.json')
known = json.load(open(kf))['known'] if os.path.exists(kf) else []
json.dump({'known': known, 'fixed': fixed}, open(kf, 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed', len(fixed), 'fixed', len(known), 'known')
