#!/usr/bin/env python3
"""Authoring helper: insert annotations into a woven contracts file.  ins.py FILE < dsl
  % KEY            select the item whose key ends with KEY (function or const)
  p: TEXT          //@pre TEXT in front of it
  s: TEXT          //@spec TEXT after the header line (or after the anchor line: loop)
  h: TEXT          //@hdr
  e: TEXT          //@ens TEXT (const)
  @ LINE           anchor: line equal (whitespace-normalized) to LINE in the selected item; `@2 LINE` the second one; `@ ^` start of body
  i: TEXT          //@ TEXT after the anchor
  ~: / ~N: TEXT    //@~N TEXT
"""
import sys, re
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import weave
f = sys.argv[1]
text = open(f).read()
lines = text.split('\n')
inserts = {}   # line idx -> list inserted after
before = {}
items = weave.parse(text, annotated=True)
ml = weave.mask(text).split('\n')
def find(key):
    c = [it for it in items if weave.fnkey(it) == key] or [it for it in items if weave.fnkey(it).endswith(key)]
    if len(c) != 1: sys.exit('ambiguous or missing key %r: %s' % (key, [weave.fnkey(x) for x in c]))
    return c[0]
def bounds(it):
    i = it.line; d = 0; p = 0; hdr_end = None
    j = i
    while True:
        for ch in ml[j]:
            if ch in '([': p += 1
            elif ch in ')]': p -= 1
            elif ch == '{':
                if d == 0 and p == 0 and hdr_end is None: hdr_end = j
                d += 1
            elif ch == '}':
                d -= 1
                if d == 0 and it.kind not in ('const',): return i, hdr_end, j
            elif ch == ';' and d == 0 and p == 0: return i, (hdr_end if hdr_end is not None else j), j
        j += 1
cur = None; pos = None; ind = ''
for raw in sys.stdin.read().split('\n'):
    if not raw.strip(): continue
    if raw.startswith('% '):
        cur = find(raw[2:].strip()); st, he, en = bounds(cur); pos = he
        ind = re.match(r'\s*', lines[st]).group(0)
        continue
    m = re.match(r'@(\d*) (.*)$', raw)
    if m:
        n = int(m.group(1) or 1); want = m.group(2).strip()
        if want == '^': pos = he; continue
        k = 0; pos = None
        for j in range(st, en + 1):
            if weave.norm(weave.strip_comments(lines[j])) == weave.norm(want) and not lines[j].strip().startswith('//@'):
                k += 1
                if k == n: pos = j; break
        if pos is None: sys.exit('no anchor %r in %s' % (want, weave.fnkey(cur)))
        continue
    m = re.match(r'(p|s|i|h|e|~\d*):\s?(.*)$', raw)
    if not m: sys.exit('bad line ' + raw)
    k, t = m.groups()
    if k in 'pe': before.setdefault(st, []).append(ind + ('//@pre ' if k == 'p' else '//@ens ') + t)
    else:
        tag = {'s': '//@spec ', 'i': '//@ ', 'h': '//@hdr '}.get(k) or '//@' + k + ' '
        inserts.setdefault(pos, []).append(ind + '    ' + tag + t)
out = []
for i, l in enumerate(lines):
    # before: place after attributes (directly in front of the item line)
    out += before.get(i, [])
    out.append(l)
    out += inserts.get(i, [])
open(f, 'w').write('\n'.join(out))
