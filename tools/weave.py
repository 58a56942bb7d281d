#!/usr/bin/env python3
"""Weave committed annotations (contracts/*.rs) into the functions of /repo's current source.

The woven files under contracts/ are the source text of /repo plus annotation lines:

  //@spec TEXT      clause (requires/ensures/invariant/decreases ..) of the function or loop whose header line precedes
  //@ TEXT          a line (proof block, ghost variable, attribute ..) inserted at this place
  //@~ TEXT         the preceding source line is replaced by TEXT (//@~3 replaces the preceding three lines).
                    Consecutive //@~ lines form one replacement.
  //@hdr TEXT       the function header (everything up to the body's brace) is replaced by TEXT
  //@pre TEXT       attribute in front of the function
  //@ret NAME       name of the result in the contract (default r)

All other lines must be the source lines. Nothing that is executed comes from contracts/ except `//@~` and `//@hdr`
replacements, which only apply while the replaced source line is still, token for token, the line they were written for.
"""
import re, sys, os, difflib, subprocess, json

MARK = '//@'

def mask(text):
    """Blank out comments, strings and char literals (same length)."""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i)); i = j
        elif text.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if text.startswith('/*', j): d += 1; j += 2
                elif text.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            out.append(''.join('\n' if ch == '\n' else ' ' for ch in text[i:j])); i = j
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            j = min(j + 1, n)
            out.append('"' + ''.join('\n' if ch == '\n' else '_' for ch in text[i + 1:j - 1]) + '"'); i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", text[i:])
            if m:
                out.append("'" + '_' * (len(m.group(0)) - 2) + "'"); i += len(m.group(0))
            else:
                out.append(c); i += 1
        else:
            out.append(c); i += 1
    return ''.join(out)

def strip_comments(text):
    """Remove comments but keep strings; preserve line structure."""
    m = mask(text)
    res = []
    for t, k in zip(text.split('\n'), m.split('\n')):
        # find where the mask blanked a comment: mask has spaces where text has '//'
        if '//' in t:
            idx = -1
            for mm in re.finditer(r'//', t):
                if k[mm.start():mm.start() + 2] == '  ':
                    idx = mm.start(); break
            if idx >= 0: t = t[:idx]
        res.append(t.rstrip())
    return '\n'.join(res)

class Item:
    def __init__(self, kind, key, scope, attrs, header, body, line):
        self.kind, self.key, self.scope, self.attrs = kind, key, scope, attrs
        self.header, self.body, self.line = header, body, line  # header: list of lines; body: list of lines (after the brace) or None

def norm(s):
    s = re.sub(r'\s+', ' ', s).strip()
    s = re.sub(r'\s*([(){}\[\]<>,;:&|=+\-*/.!?])\s*', r'\1', s)
    s = re.sub(r',([)}\]>])', r'\1', s)
    return s

ITEM = re.compile(r'^\s*((?:pub(?:\([a-z]+\))?\s+)?(?:default\s+)?(?:unsafe\s+)?(?:const\s+)?(?:unsafe\s+)?(?:async\s+)?)(fn|struct|union|enum|impl|trait|mod|const|static|type|use|macro_rules!|extern)\b')

def parse(text, annotated=False):
    """Return list of Items of a rustfmt-formatted file. impl/trait blocks are flattened."""
    if not annotated: text = strip_comments(text)
    lines = text.split('\n')
    mtext = mask(text)
    mlines = mtext.split('\n')
    items = []
    def block(i, end, scope):
        attrs = []
        while i < end:
            ml, l = mlines[i], lines[i]
            if not ml.strip():
                if annotated and l.strip().startswith(MARK): attrs.append(l)
                i += 1; continue
            if ml.strip().startswith('#'):
                # attribute, possibly multi-line
                depth = 0; j = i
                while True:
                    depth += mlines[j].count('[') - mlines[j].count(']')
                    attrs.append(lines[j])
                    j += 1
                    if depth <= 0 or j >= end: break
                i = j; continue
            m = ITEM.match(ml)
            if not m:
                i += 1; attrs = []; continue
            kind = m.group(2)
            if kind == 'const' : pass
            # find the end of the item
            depth = 0; par = 0; j = i; done = False; brace_line = None; brace_col = None
            while j < end and not done:
                for col, ch in enumerate(mlines[j]):
                    if ch in '([': par += 1
                    elif ch in ')]': par -= 1
                    elif ch == '{':
                        if depth == 0 and par == 0 and brace_line is None: brace_line, brace_col = j, col
                        depth += 1
                    elif ch == '}':
                        depth -= 1
                        if depth == 0 and par == 0 and brace_line is not None and kind not in ('const', 'static', 'use', 'type'):
                            done = True
                    elif ch == ';' and depth == 0 and par == 0:
                        done = True
                j += 1
            last = j - 1
            if kind in ('impl', 'trait') and brace_line is not None:
                hdr = ' '.join(lines[i:brace_line] + [lines[brace_line][:brace_col]])
                block(brace_line + 1, last, norm(strip_comments(hdr)))
            elif kind == 'mod' and brace_line is not None:
                if not any('cfg(test)' in a for a in attrs):
                    block(brace_line + 1, last, scope)
            elif kind == 'fn':
                name = re.search(r'\bfn\s+(\w+)', ml).group(1)
                if brace_line is None:
                    k = last + 1; extra = []
                    while annotated and k < end and lines[k].strip().startswith('//@spec'):
                        extra.append(lines[k]); k += 1
                    it = Item('fn', name, scope, attrs, lines[i:last + 1], None, i)
                    it.spec = extra; j = k
                    items.append(it)
                else:
                    hdr = lines[i:brace_line] + [lines[brace_line][:brace_col]]
                    if brace_line == last:
                        body = [lines[last][brace_col + 1:lines[last].rindex('}')]]
                    else:
                        first = lines[brace_line][brace_col + 1:]
                        body = ([first] if first.strip() else []) + lines[brace_line + 1:last] 
                        tail = lines[last][:lines[last].rindex('}')]
                        if tail.strip(): body.append(tail)
                    items.append(Item('fn', name, scope, attrs, [h for h in hdr if h.strip()], body, i))
            elif kind in ('struct', 'union', 'enum', 'const', 'static', 'type'):
                name = re.search(r'\b(?:struct|union|enum|const|static|type)\s+(\w+)', ml).group(1)
                k = last + 1
                while annotated and k < end and lines[k].strip().startswith('//@~'): k += 1
                items.append(Item(kind, name, scope, attrs, lines[i:k], None, i)); j = k
            attrs = []
            i = j
    block(0, len(lines), '')
    return items

class Woven:
    def __init__(self):
        self.lines = []      # output lines
        self.origin = []     # per line: (fnkey or None)
        self.lost = {}       # fnkey -> list of reasons
        self.source = {}     # fnkey -> text in /repo, for the functions whose text differs
        self.changed = {}    # fnkey -> bool: source differs from the text the annotations were written for

def split_ann(body):
    """master body -> (source lines, annotations). annotation: (index after which it applies (-1 = at start), kind, text)"""
    src, anns = [], []
    for l in body:
        s = l.strip()
        if s.startswith(MARK):
            m = re.match(r'//@(spec|~\d*|)\s?(.*)$', s)
            if not m: raise SystemExit('bad annotation: ' + s)
            anns.append((len(src) - 1, m.group(1), m.group(2)))
        else:
            t = strip_comments(l)
            if t.strip(): src.append(t.rstrip())
    return src, anns

def weave_body(msrc, anns, rsrc, lost):
    mn, rn = [norm(x) for x in msrc], [norm(x) for x in rsrc]
    mp = {}       # master index -> repo index, exact
    loose = {}    # master index -> repo index, one-to-one replaced
    sm = difflib.SequenceMatcher(None, mn, rn, autojunk=False)
    for op, a0, a1, b0, b1 in sm.get_opcodes():
        if op == 'equal':
            for k in range(a1 - a0): mp[a0 + k] = b0 + k
        elif op == 'replace' and a1 - a0 == b1 - b0:
            for k in range(a1 - a0): loose[a0 + k] = b0 + k
    after = {i: [] for i in range(-1, len(rsrc))}
    before = {i: [] for i in range(len(rsrc) + 1)}
    spec = {}
    repl = {}
    # group annotations
    i = 0
    groups = []
    while i < len(anns):
        p, k, t = anns[i]
        kk = '~' if k.startswith('~') else k
        g = [t]; cnt = int(k[1:]) if kk == '~' and len(k) > 1 else 1
        j = i + 1
        while j < len(anns) and anns[j][0] == p and (('~' if anns[j][1].startswith('~') else anns[j][1]) == kk):
            g.append(anns[j][2]); j += 1
        groups.append((p, kk, cnt, g)); i = j
    for p, kk, cnt, g in groups:
        if kk == '~':
            idx = [mp.get(x) for x in range(p - cnt + 1, p + 1)]
            if None in idx or idx != list(range(idx[0], idx[0] + cnt)):
                lost.append('replacement: ' + g[0]); continue
            repl[idx[0]] = (cnt, g)
        elif kk == 'spec':
            q = mp.get(p, loose.get(p))
            if q is None or not rsrc[q].rstrip().endswith('{'):
                lost.append('loop spec: ' + g[0]); continue
            spec[q] = g
        else:
            if p == -1: before[0].extend(g)
            elif p in mp: after[mp[p]].extend(g)
            elif p + 1 in mp: before[mp[p + 1]].extend(g)
            elif p in loose: after[loose[p]].extend(g)
            elif p + 1 in loose: before[loose[p + 1]].extend(g)
            else: lost.append('annotation: ' + g[0])
    out = []
    i = 0
    while i < len(rsrc):
        out += before[i]
        if i in repl:
            cnt, g = repl[i]
            out += g
            for x in range(i, i + cnt):
                if x != i: out += before[x]
                if x in spec: lost.append('spec inside replacement')
            for x in range(i, i + cnt): out += after[x]
            i += cnt
            continue
        if i in spec:
            l = rsrc[i].rstrip()
            out.append(l[:-1]); out += spec[i]; out.append('{')
        else:
            out.append(rsrc[i])
        out += after[i]
        i += 1
    out += before[len(rsrc)] if len(rsrc) else []
    return out, mn != rn

def fnkey(it): return (it.scope + ' :: ' if it.scope else '') + it.key

def header_with_ret(hdr, name):
    """`fn f(..) -> T where ..` => `fn f(..) -> (name: T) where ..`"""
    h = '\n'.join(hdr)
    m = mask(h)
    # find the parameter list end
    i = m.index('fn ')
    i = i + 3
    # skip generics
    depth = 0
    while True:
        c = m[i]
        if c == '<': depth += 1
        elif c == '>' and m[i - 1] != '-': depth -= 1
        elif c == '(' and depth == 0: break
        i += 1
    par = 0
    while True:
        if m[i] in '([': par += 1
        elif m[i] in ')]': par -= 1
        i += 1
        if par == 0: break
    k = m.find('->', i)
    w = re.search(r'\bwhere\b', m[i:])
    wpos = i + w.start() if w else len(h)
    if k < 0 or k > wpos:
        return h, None
    ty = h[k + 2:wpos].strip()
    return h[:k] + '-> (' + name + ': ' + ty + ')' + ('\n' + h[wpos:] if w else ''), ty

DEFAULT_DROP_ATTR = re.compile(r'cfg_attr|allow\(|derive|repr|clippy')

def weave(master_text, repo_items, rewrites, w, cone=None, extern_ok=True):
    """repo_items: dict fnkey -> Item. cone: set of fnkeys to verify, others become external_body (contract only)."""
    mitems = parse(master_text, annotated=True)
    # we need the impl structure of the master: re-walk
    by_scope = []
    for it in mitems:
        if not by_scope or by_scope[-1][0] != it.scope: by_scope.append((it.scope, []))
        by_scope[-1][1].append(it)
    raw_scopes = scope_headers(master_text)
    def emit(lines, key):
        for l in lines:
            for x in l.split('\n'):
                w.lines.append(x); w.origin.append(key)
    for scope, its in by_scope:
        if scope:
            emit([raw_scopes[scope] + ' {'], None)
        for it in its:
            key = fnkey(it)
            dirs = [a.strip() for a in it.attrs if a.strip().startswith(MARK)]
            pre = [re.sub(r'^//@(pre)?\s?', '', d) for d in dirs if d.startswith('//@pre') or re.match(r'//@\s', d)]
            rit = repo_items.get(key)
            if rit is None:
                w.lost.setdefault(key, []).append('not found in /repo')
                # keep the contract so that callers still check
                rit = None
            if it.kind == 'const' and any(d.startswith('//@ens') for d in dirs):
                ens = [d[6:].strip() for d in dirs if d.startswith('//@ens')]
                src = strip_comments('\n'.join(it.header)); rsrc = strip_comments('\n'.join(rit.header)) if rit else src
                ch = norm(src) != norm(rsrc)
                w.changed[key] = ch
                m = re.match(r'(?s)\s*(?:pub )?const (\w+)\s*:\s*(.*?)\s=\s(.*);\s*$', rsrc)
                body = '\n'.join(rewrite_lines(m.group(3).split('\n'), rewrites))
                if cone is not None and key not in cone:
                    body = 'unimplemented!()'; pre = pre + ['#[verifier::external_body]']
                emit(pre + ['fn %s() -> (r: %s)' % (m.group(1), m.group(2)), 'ensures'] + ens + ['{', body, '}'], key)
                continue
            if it.kind != 'fn':
                # type items: source text with //@~ replacements
                src, anns = split_ann(it.header)
                rsrc = [x for x in (strip_comments(l) for l in (rit.header if rit else src)) if x.strip()]
                lost = []
                out, ch = weave_body(src, anns, rsrc, lost)
                w.changed[key] = ch
                if ch or lost: w.lost.setdefault(key, []).extend(['type changed'] + lost)
                emit(pre + rewrite_lines(out, rewrites), key)
                continue
            # function
            hdr_src = [h for h in (strip_comments(l) for l in it.header) if h.strip()]
            body = it.body
            # leading spec block
            spec, ret, hdr_repl, extra = [], 'r', [], []
            rest = []
            lead = True
            for l in (body or []):
                s = l.strip()
                if lead and s.startswith('//@spec'): spec.append(s[7:].strip()); continue
                if lead and s.startswith('//@ret'): ret = s[6:].strip(); continue
                if lead and s.startswith('//@hdr'): hdr_repl.append(s[6:].strip()); continue
                if lead and s.startswith('//@rw '): extra.append(tuple(s[6:].split(' => '))); continue
                if s and not s.startswith(MARK): lead = False
                rest.append(l)
            for l in getattr(it, 'spec', []): spec.append(l.strip()[7:].strip())
            lost = []
            rh = [h for h in (rit.header if rit else hdr_src) if h.strip()]
            hch = norm(' '.join(rh)) != norm(' '.join(hdr_src))
            if hch: lost.append('signature changed')
            if hdr_repl and not hch:
                h = '\n'.join(hdr_repl)
            else:
                h = '\n'.join(rewrite_lines('\n'.join(rh).split('\n'), rewrites))
                if spec: h, _ = header_with_ret(h.split('\n'), ret)
            out = [h]
            if spec: out += ['    ' + s for s in spec]
            if body is None or (rit is not None and rit.body is None):
                if body is None:
                    out[0] = out[0].replace(';', '')
                    emit(pre + out + [';'], key)
                continue
            src, anns = split_ann(rest)
            rsrc = [x for x in (rit.body if rit else src) if x.strip()]
            b, ch = weave_body(src, anns, rsrc, lost) if src or anns else (rsrc, [norm(x) for x in rsrc] != [])
            w.changed[key] = ch or hch
            if (ch or hch) and rit: w.source[key] = '\n'.join(list(rit.header) + list(rit.body or []))
            mutself = re.search(r'\(\s*mut self\b', mask(out[0]))
            if mutself: out[0] = re.sub(r'\(\s*mut self\b', '(self', out[0], count=1)
            if lost: w.lost.setdefault(key, []).extend(lost)
            if cone is not None and key not in cone:
                if re.search(r'->.*\bimpl\b', mask(out[0]).replace('\n', ' ')): continue    # needs a body; no other function calls it
                if not any('external_body' in p for p in pre): pre = pre + ['#[verifier::external_body]']
                emit(pre + out + ['{ unimplemented!() }'], key)
                continue
            if any('external_body' in p for p in pre):
                # a trusted function: its contract is an assumption about exactly this text
                if ch or hch: w.lost.setdefault(key, []).append('trusted text changed')
                emit(pre + out + ['{ unimplemented!() }'], key)
                continue
            b = rewrite_lines(b, extra + list(rewrites))
            if mutself:
                # `mut self` is not supported by the verifier: bind it to a mutable local
                b = ['let mut this = self;'] + [re.sub(r'\bself\b', 'this', x) for x in b]
            if getattr(w, 'vacuity', False) and not any('external_body' in p for p in pre):
                b = ['proof { assert(false); }'] + b; w.vac.append(key)
            emit(pre + ['#[verifier::spinoff_prover]'] + out + ['{'] + b + ['}'], key)
        if scope: emit(['}'], None)

def rewrite_lines(lines, rewrites):
    res = []
    t = '\n'.join(lines)
    for pat, rep in rewrites:
        t = re.sub(pat, rep, t)
    return t.split('\n')

def scope_headers(text):
    """normalized impl header -> text to emit (an `//@hdr` line directly after the impl line replaces it)"""
    res = {}
    lines = text.split('\n'); ml = mask(text).split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'^\s*(unsafe\s+)?(impl|trait|pub trait)\b', ml[i])
        if m:
            j = i
            while '{' not in ml[j]: j += 1
            hdr = ' '.join(lines[i:j] + [lines[j][:ml[j].index('{')]])
            key = norm(strip_comments(hdr))
            rep = []
            k = j + 1
            while k < len(lines) and lines[k].strip().startswith('//@impl'):
                rep.append(lines[k].strip()[7:].strip()); k += 1
            res[key] = '\n'.join(rep) if rep else res.get(key, strip_comments(hdr))
            i = j
        i += 1
    return res

def load_repo(repo, files):
    items = {}
    for f in files:
        t = open(os.path.join(repo, f)).read()
        p = subprocess.run(['rustfmt', '--edition', '2021', '--emit', 'stdout', '--config', 'skip_children=true'], input=t, capture_output=True, text=True)
        if p.returncode == 0 and p.stdout.strip(): t = p.stdout
        for it in parse(t):
            items.setdefault(fnkey(it), it)
    return items
