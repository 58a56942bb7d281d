#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

1. extract the functions of the property from /repo's source, weave the committed contracts into them (tools/weave.py)
   and let Verus discharge every obligation of the functions in the property's cone (everything they call, transitively);
2. run the bounded companion (harness/) against the real crate: it searches for a concrete failing input.

exit 0: every obligation was accepted (or, where a changed function is out of the verifier's reach, the bounded
        stand-in found nothing: the evidence says so); exit 1 + VIOLATION line: broken; anything else: error.
"""
import sys, os, re, json, subprocess, time, signal, shutil, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import build, weave, cone as conemod
from props import PROPS, ASSUMED
VERUS = os.environ.get('CX_VERUS', '/opt/veriftools/verus/verus')
WORK = os.path.join(HERE, 'work')
DISTINCT = 0
RULE = 'all small key sets first, then random maps (styles: dense, sparse, long, nested keys; values of 0 to 70000 bytes), built by several histories and stores; distinct by the full operation log; non-trivial: an entry or a second operation'
EVID = os.path.join(HERE, 'evidence')

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

# ---------------------------------------------------------------------------------------------------- bounded companion
def start_build():
    env = dict(os.environ); env['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target')
    env['CARGO_NET_OFFLINE'] = 'true'; env['RUSTFLAGS'] = env.get('RUSTFLAGS', '') + ' -Awarnings'
    # cargo goes by modification times; what counts is the content
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(build.REPO, 'src', '**', '*'), recursive=True)) + [os.path.join(build.REPO, 'Cargo.toml')]:
        if os.path.isfile(f): h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    mark = os.path.join(WORK, 'target', 'src.hash')
    if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
        subprocess.run(['cargo', 'clean', '--offline', '--quiet', '-p', 'radixdb'], cwd=os.path.join(HERE, 'harness'), env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(os.path.dirname(mark), exist_ok=True)
        with open(mark, 'w') as f: f.write(h.hexdigest())
    return subprocess.Popen(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness'), env=env,
                            stdout=subprocess.DEVNULL, stderr=open(os.path.join(WORK, 'build.log'), 'w'))

def numbers(d):
    """integer literals of the functions that differ from the annotated ones (and of code no contract knows): sizes, counts and bytes worth trying"""
    w = d.get('w')
    if not w: return ''
    txt = '\n'.join(w.source.get(k, '') for k, v in w.changed.items() if v) + '\n'.join(w.unknown)
    res = []
    for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b|b\'(.)\'', txt):
        v = ord(m.group(2)) if m.group(2) else int(m.group(1).replace('_', '') if m.group(1)[:2] in ('0x', '0b') else m.group(1).replace('_', '').lstrip('0') or '0', 0)
        if 2 < v < 10 ** 6 and v not in res: res.append(v)
    for m in re.finditer(r'(\d+) << (\d+)', txt):
        v = int(m.group(1)) << min(63, int(m.group(2)))
        if v < 10 ** 6: res.append(v)
    return ','.join(str(x) for x in sorted(res, reverse=True)[:40])

DICT = ''

def run_suites(suites, seed, ms, leak, procs, tag, start=0):
    """-> (failure or None, stats)"""
    exe = os.path.join(WORK, 'target', 'debug', 'cx')
    scratch = os.path.join(WORK, 'scratch-' + tag)
    os.makedirs(scratch, exist_ok=True)
    jobs = []
    for s in suites:
        for k in range(procs):
            cur = os.path.join(scratch, '%s.%d' % (s, k))
            env = dict(os.environ); env['CX_SCRATCH'] = scratch; env['CX_DICT'] = DICT
            cmd = [exe, s, '--seed', str(seed), '--ms', str(ms), '--from', str(start + k), '--step', str(procs), '--current', cur]
            if not leak: cmd.append('--noleak')
            outf = open(cur + '.out', 'w+')
            jobs.append((s, cur, cmd, subprocess.Popen(cmd, stdout=outf, stderr=subprocess.STDOUT, env=env), outf))
    fail, cases, samples = None, {}, {}
    global DISTINCT
    for s, cur, cmd, p, outf in jobs:
        try:
            rc = p.wait(timeout=ms / 1000 + 60); hung = False
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -9; hung = True
        outf.seek(0); out = outf.read(); outf.close()
        m = re.search(r'DONE .*cases=(\d+)', out)
        if m: cases[s] = cases.get(s, 0) + int(m.group(1))
        m = re.search(r'DONE .*distinct=(\d+)', out)
        if m: DISTINCT += int(m.group(1))
        m = re.search(r'SAMPLE (.*)', out)
        if m and m.group(1).strip(): samples.setdefault(s, m.group(1)[:400])
        if rc == 0 or fail: continue
        m = re.search(r'FAIL suite=\S+ seed=\d+ case=(\d+) (.*)', out)
        if m:
            fail = dict(suite=s, seed=seed, case=int(m.group(1)), msg=m.group(2), out=out, leak=leak)
        elif os.path.exists(cur) and os.path.getsize(cur) >= 8:
            i = int.from_bytes(open(cur, 'rb').read(8), 'little')
            # a process that died: the case must die again on its own to count
            env = dict(os.environ); env['CX_SCRATCH'] = scratch; env['CX_DICT'] = DICT
            try:
                r = sh([exe, s, '--seed', str(seed), '--case', str(i)] + ([] if leak else ['--noleak']), env=env, timeout=60)
                rc2, o2 = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                rc2, o2 = -9, ''
            what = 'the case does not terminate' if (hung or rc2 == -9) else 'the process died (signal %d)' % -rc if rc < 0 else 'exit code %d' % rc
            if rc2 != 0: fail = dict(suite=s, seed=seed, case=i, msg=what, out=out[-4000:] + o2[-4000:], leak=leak)
    shutil.rmtree(scratch, ignore_errors=True)
    return fail, cases, samples

# ------------------------------------------------------------------------------------------------------------- deductive
BUDGET = 480    # seconds for the deductive part of a quick run (a check gets 900 s)
START = time.time()

def left(): return BUDGET - (time.time() - START)

def verus(path, extra=()):
    cmd = [VERUS, path, '--output-json', '--time-expanded', '--multiple-errors', '3', '--num-threads', '8', '--rlimit', '40'] + list(extra)
    t = time.time()
    env = dict(os.environ)
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=max(30, left()))
    try: j = json.loads(p.stdout)
    except Exception: j = {}
    return j, p.stderr, time.time() - t, cmd

def blocks(err):
    """split the diagnostics into errors"""
    res, cur = [], None
    for l in err.split('\n'):
        if re.match(r'error', l): cur = [l]; res.append(cur)
        elif re.match(r'(warning|note: (?!.*function body))', l): cur = None
        elif cur is not None: cur.append(l)
    return [b for b in res if not re.match(r'error: aborting', b[0])]

def locate(block, w, fname):
    keys = []
    for l in block:
        m = re.match(r'\s*(?:-->|:::) .*%s:(\d+):' % re.escape(fname), l)
        if m: n = int(m.group(1))
        else:
            m = re.match(r'\s*(\d+) \|', l)
            if not m: continue
            n = int(m.group(1))
        if 0 < n <= len(w.origin) and w.origin[n - 1] and w.origin[n - 1] not in keys: keys.append(w.origin[n - 1])
    return keys

UNDECIDED = re.compile(r'Resource limit|rlimit|not supported|unsupported|timed out|verus internal', re.I)
PROOF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion fail|possible (arithmetic|division|bit shift|overflow)|underflow|recommendation|decreases not satisfied|not satisfied|unable to prove|unreachable|possible', re.I)

def breakdown(j):
    res = {}
    for m in (j.get('times-ms', {}).get('smt', {}) or {}).get('smt-run-module-times', []) or []:
        for f in m.get('function-breakdown', []): res[f['function']] = f
    return res

def deduce(prop, tag):
    """-> dict(status= proved | failed | undecided, ...)"""
    out = os.path.join(WORK, 'v_%s.rs' % tag)
    roots = PROPS[prop]['roots']
    masters = conemod.masters()
    cone = conemod.closure(masters, roots, weave.load_repo(build.REPO, build.FILES), within=PROPS[prop].get('within'))
    excluded = {}
    res = dict(status='proved', failed={}, excluded=excluded, cone=sorted(cone), runs=[])
    for attempt in range(8):
        if attempt and left() < 100:
            res['status'] = 'undecided'; res['why'] = 'out of time (%d runs of the verifier)' % attempt; return res
        w, items = build.build(out, cone=cone - set(excluded))
        known = set(masters) 
        again = False
        for k in list(cone):
            if k in w.lost and k not in excluded and not (w.lost[k] == ['not found in /repo']):
                excluded[k] = 'annotations lost: ' + '; '.join(w.lost[k])[:200]; again = True
            elif k in w.lost and k not in excluded:
                excluded[k] = 'function is gone'; again = True
        if again: continue
        try: j, err, secs, cmd = verus(out)
        except subprocess.TimeoutExpired:
            res['status'] = 'undecided'; res['why'] = 'verus timed out'; return res
        vr = j.get('verification-results', {})
        res['runs'].append(dict(verified=vr.get('verified'), errors=vr.get('errors'), seconds=round(secs, 1)))
        bd = breakdown(j)
        res.update(verified=vr.get('verified', 0), errors=vr.get('errors', 0), smt_ms=sum(f.get('time', 0) for f in bd.values()),
                   functions=sorted(k for k in cone if k not in excluded and masters[k] == 'fn'), cmd=' '.join(cmd), total_s=secs, bd=bd, w=w)
        res['stderr'] = err
        if vr.get('success') and not blocks(err): 
            res['changed'] = [k for k, v in w.changed.items() if v]
            res['status'] = 'proved'
            break
        bl = blocks(err)
        moved = False
        real = []
        for b in bl:
            keys = [k for k in locate(b, w, os.path.basename(out))]
            text = '\n'.join(b)
            ck = [k for k in keys if k in cone and k not in excluded]
            if vr.get('verified') is None or not vr.get('is-verifying-entire-crate', True) and not PROOF_ERR.search(b[0]) or UNDECIDED.search(b[0]) or not PROOF_ERR.search(b[0]):
                # outside the verifier's reach: unsupported construct, unknown callee, resource limit
                if ck: excluded[ck[0]] = 'not verifiable as it is: ' + b[0][:160]; moved = True
            else:
                real.append((keys[:1], ck[:1], text))
        if moved: continue
        if not real:
            res['status'] = 'undecided'; res['why'] = (bl[0][0] if bl else 'verus gave no result: ' + err[-300:]); return res
        # keep only functions whose own query failed
        for keys, ck, text in real:
            k = (ck or keys or ['(lemma)'])[0]
            res['failed'].setdefault(k, []).append(text)
        res['changed'] = [k for k, v in w.changed.items() if v]
        if not res['changed'] and not w.lost:
            # nothing under contract has changed: the verifier itself is unstable here
            res['status'] = 'undecided'; res['why'] = 'obligation failed although no function under contract changed'; return res
        res['status'] = 'failed'
        break
    else:
        res['status'] = 'undecided'; res['why'] = 'too many functions out of reach'
    if res['status'] == 'proved' and excluded: res['status'] = 'partial'
    return res

def vacuity(prop, tag):
    """thorough: every function under contract must reject `assert(false)` at its start"""
    out = os.path.join(WORK, 'vac_%s.rs' % tag)
    masters = conemod.masters(); cone = conemod.closure(masters, PROPS[prop]['roots'], within=PROPS[prop].get('within'))
    w, items = build.build(out, cone=cone, vacuity=True)
    j, err, secs, cmd = verus(out)
    failed = set()
    for b in blocks(err):
        if 'assertion failed' in b[0]: failed.update(locate(b, w, os.path.basename(out))[:1])
    # the store of detached trees is never asked: its contract is unsatisfiable on purpose
    want = set(k for k in w.vac if 'BlobStore for Detached' not in k)
    return sorted(want - failed), len(want)

def trusted(path, w=None, cone=()):
    """mechanical scan of the verified text for everything that is assumed (functions of the repository that lie outside
    the cone are stated with their contract only and never called from it: not listed)"""
    t = open(path).read()
    ext = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:const\s+)?(fn|struct)\s+(\w+)', t):
        n = t.count('\n', 0, m.end(2))
        o = w.origin[n] if w and n < len(w.origin) else None
        if o is None: ext.append(m.group(1) + ' ' + m.group(2))
        elif o in cone: ext.append('repository function, contract assumed: ' + o)
    ext += ['assume_specification ' + m.group(1).strip() for m in re.finditer(r'assume_specification[^\[]*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]', t)]
    bad = len(re.findall(r'\bassume\s*\(|\badmit\s*\(', t))
    return sorted(set(ext)), bad

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    if P.get('parts'): build.ACTIVE = getattr(build, P['parts'])
    global BUDGET
    if tier == 'thorough': BUDGET = 3000
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    tag = prop
    cb = start_build()
    d = deduce(prop, tag)
    if cb.wait(timeout=600) != 0:
        print(open(os.path.join(WORK, 'build.log')).read()[-3000:])
        print('ERROR: the crate under test does not build'); sys.exit(3)
    thorough = tier == 'thorough'
    suites = P['suites']
    procs = max(1, 6 // len(suites))
    ms = (150000 if thorough else P.get('ms', 9000))
    global DICT
    DICT = numbers(d)
    fail, cases, samples = run_suites(suites, seed, ms, P.get('leak', False), procs, tag)
    if not fail and d['status'] != 'proved':
        # search harder for a concrete input: the stand-in for what the verifier did not accept
        more = min(120 if d['status'] == 'failed' else 60, 780 - (time.time() - START))
        f2, c2, _ = run_suites(suites, seed + 1000003, int(max(10, more) * 1000), P.get('leak', False), procs, tag, start=16384)
        fail = f2
        for k, v in c2.items(): cases[k] = cases.get(k, 0) + v
    vac = None
    if thorough and d['status'] in ('proved',): vac = vacuity(prop, tag)
    vfile = os.path.join(WORK, 'v_%s.rs' % tag)
    tr, nassume = trusted(vfile, d.get('w'), set(d['cone'])) if os.path.exists(vfile) else ([], 0)
    fns = d.get('functions', [])
    ob = (d.get('verified') or 0) + (d.get('errors') or 0) + len(d['excluded'])
    cov = dict(obligations=ob, discharged=d.get('verified') or 0,
               checker_cmd=d.get('cmd', ''), trusted_base=['verus 0.2026.09.13 + z3 (back end)', 'the extraction tools/weave.py'] + tr,
               deductive_status=d['status'], why=d.get('why', ''), smt_time_ms=d.get('smt_ms', 0), verus_wall_s=round(d.get('total_s', 0), 1),
               functions_under_contract=fns, functions_out_of_reach_this_run=d['excluded'],
               failed_obligations={k: [x[:1500] for x in v] for k, v in d['failed'].items()},
               assume_or_admit_in_verified_text=nassume,
               bounded_companion=dict(note='bounded: the real crate against an oracle, never counted as proved', suites=suites, cases=sum(cases.values()), distinct_nontrivial=DISTINCT, rule=RULE, per_suite=cases, samples=[v for v in samples.values()][:2]),
               bounded_functions=P.get('bounded', []))
    if P['level'] != 'proof': cov.update(evaluations=sum(cases.values()), distinct_nontrivial=DISTINCT, rule=RULE, samples=[v for v in samples.values()][:2], explanation=P['note'])
    if vac is not None: cov['vacuity'] = dict(functions_checked=vac[1], vacuous=vac[0])
    viol = 0
    lines = []
    rep = os.path.join(EVID, prop + '.replay.txt')
    if fail:
        viol = 1
        with open(rep, 'w') as f:
            f.write('property %s: a concrete input on which the real crate breaks it\n%s\n\nreplay: cd /verif/harness && cargo build --offline && %starget/debug/cx %s --seed %d --case %d%s\n\n' % (
                prop, fail['msg'], ('CX_DICT=%s ' % DICT if DICT else ''), fail['suite'], fail['seed'], fail['case'], '' if fail['leak'] else ' --noleak'))
            if d['failed']: f.write('failed obligations:\n' + '\n'.join('%s\n%s' % (k, '\n'.join(v)) for k, v in d['failed'].items()) + '\n\n')
            f.write(fail['out'][:20000])
        lines.append('VIOLATION property=%s replay=%s' % (prop, rep))
    elif d['status'] == 'failed':
        viol = 1
        with open(rep, 'w') as f:
            f.write('property %s: failed obligations (no failing input found by the bounded search of %d cases)\n\n' % (prop, sum(cases.values())))
            for k, v in d['failed'].items(): f.write('== %s\n%s\n' % (k, '\n'.join(v)))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
    elif os.path.exists(rep): os.unlink(rep)
    if vac and vac[0]: print('VACUOUS', vac[0]); sys.exit(4)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=ASSUMED + P.get('assumptions', []),
                   wall_s=round(time.time() - t0, 1), violations=viol), open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: deductive=%s (%s verified, %s errors, %d functions in the cone) bounded=%s cases, %.0f s' % (
        prop, tier, d['status'], d.get('verified'), d.get('errors'), len(d['cone']), sum(cases.values()), time.time() - t0))
    if d.get('why'): print('  ' + d['why'])
    for k, v in d['excluded'].items(): print('  out of reach: %s: %s' % (k, v))
    for k in d['failed']: print('  failed obligation in: ' + k)
    for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['known']:
        if k['property'] == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines: print(l)
    sys.exit(1 if viol else 0)

main()
