"""Call-graph closure over the functions under contract (by name; an over-approximation)."""
import os, re
import weave, build

_cache = {}
def _load(parts=None):
    parts = parts or build.ACTIVE or build.PARTS
    if id(parts) in _cache: return _cache[id(parts)]
    kinds, bodies, byname, store, base = {}, {}, {}, set(), set()
    for k, f in parts:
        if k != 'w': continue
        t = open(os.path.join(build.VERIF, 'contracts', f)).read()
        for it in weave.parse(t, annotated=True):
            key = weave.fnkey(it)
            kinds[key] = 'fn' if it.kind in ('fn', 'const') else it.kind
            bodies[key] = '\n'.join((it.body or []) + it.header)
            if f.startswith('s_'): store.add(key)
            if f.startswith('b_'): base.add(key)
            if it.kind in ('fn', 'const'): byname.setdefault(it.key, []).append(key)
    _cache[id(parts)] = dict(kinds=kinds, bodies=bodies, byname=byname, store=store, base=base)
    return _cache[id(parts)]

def masters(parts=None): return _load(parts)['kinds']

def ty(key):
    m = re.search(r'(?:for |>|impl |trait |^)(\w+)(?:<[^:]*)?(?: ?where.*)? :: ', key)
    return key

def closure(kinds, roots, items=None, within=None):
    """items: the current source (its calls count as well); within: functions beyond keep their contract only"""
    c = _load()
    res, todo = set(), []
    for k in kinds:
        if kinds[k] != 'fn': res.add(k)
        elif any(re.search(r, k) for r in roots): res.add(k); todo.append(k)
    while todo:
        k = todo.pop()
        t = weave.strip_comments('\n'.join(l for l in c['bodies'][k].split('\n')))
        # annotation lines may name helpers as well
        ann = '\n'.join(l.split('//@', 1)[1] for l in c['bodies'][k].split('\n') if '//@~' in l)
        if items and k in items: t += '\n' + '\n'.join(weave.strip_comments(l) for l in items[k].body or [])
        for m in re.finditer(r'(?:(\w+)(?:::<[^>]*>)?::)?(\w+)(?:::<[^()]*>)?\s*(\(|\b)', t + '\n' + ann):
            q, n = m.group(1), m.group(2)
            if n not in c['byname']: continue
            if m.group(3) != '(' and not n.isupper(): continue
            for t2 in c['byname'][n]:
                if q and q[0].isupper() and q != 'Self' and not re.search(r'\b%s\b' % q, t2.split(' :: ')[0]) and re.search(r'[A-Z]', q): continue
                # everybody else relies on the contract of the trait: the stores themselves are C13
                if t2 in c['store'] and k not in c['store']: continue
                if (k in c['store'] or k in c['base']) and t2 not in c['store'] and t2 not in c['base']: continue
                if within and not re.search(within, t2): continue
                if t2 not in res: res.add(t2); todo.append(t2)
    return res
