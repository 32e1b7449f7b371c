"""Writes pbt/data/unicode.json: facts about characters the checks compare with (run by hand, once; not part of any check).

Blocks come from perl's copy of Blocks.txt, the characters of Unicode 13.0 from perl's Age property.  Which blocks make
up a filter is the documented meaning of the filter (the comments of its source at the pinned commit)."""
import glob, json, os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
blocks = {}
for l in open(glob.glob('/usr/share/perl/5.38*/unicore/Blocks.txt')[0]):
    m = re.match(r'([0-9A-F]+)\.\.([0-9A-F]+); (.*)', l)
    if m:
        blocks[m[3].strip()] = [int(m[1], 16), int(m[2], 16)]
blocks['Egyptian Hieroglyph Format Controls'] = [0x13430, 0x1343f]  # as of 13.0
filters = {}
for f in sorted(glob.glob(REPO + '/modules/filter/*.c')):
    n = os.path.basename(f)[:-2]
    s = open(f).read()
    if n in ('type', 'unicode_range') or '#define TYPE' in s:
        continue
    rs = []
    for a, b, c in re.findall(r'\{ *0x([0-9A-Fa-f]+), *0x([0-9A-Fa-f]+) *\},?(?: *// *(.*))?', s):
        r = [int(a, 16), int(b, 16)]
        if c:
            assert blocks[c.strip()] == r, (n, c, r)
        rs.append(r)
    filters[n] = rs
scorers = {}
for n in ('CJK', 'LATIN1'):
    s = open(REPO + '/modules/scorer/%s.c' % n).read()
    scorers[n] = [[int(a, 16), int(b, 16), int(c)] for a, b, c in re.findall(r'\{ *0x([0-9A-Fa-f]+), *0x([0-9A-Fa-f]+), *(\d+) *\}', s)]
t = subprocess.run(['perl', '-e', 'for($c=0;$c<0x110000;$c++){no warnings; print chr($c)=~/\\p{Present_In: 13.0}/?1:0}'], stdout=subprocess.PIPE).stdout.decode()
present = []
for m in re.finditer('1+', t):
    present.append([m.start(), m.end() - 1])
json.dump({'present13': present, 'filters': filters, 'scorers': scorers}, open(os.path.join(HERE, 'pbt', 'data', 'unicode.json'), 'w'))
print(len(present), len(filters), filters['PRINT'], filters['ROMAN'])
