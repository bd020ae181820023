#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE] [--time S]
Builds /repo's working tree and the simulator, searches seeds for violations of PROP, gates and minimises
what it finds, and writes evidence/PROP.json.  Exit 0 held, 1 violation, 2 error of the check."""
import argparse, collections, json, os, re, signal, subprocess, sys, tempfile, threading, time, queue, array

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = V + '/build/simdrv'
sys.path.insert(0, V + '/tools')
from props import PROPS, REAL, STUB, FAULTS_NOTE

def say(*a):
    print(*a, flush=True)

def build(variants):
    for v in variants:
        r = subprocess.run(['bash', V + '/harness/build.sh', v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            say('build failed (%s):' % v); say(r.stdout[-3000:]); sys.exit(2)

def known(prop):
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) what=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def vargs(variant):
    if variant != 'asan':
        return []
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return ['--variant', 'asan', '--asan-lib', os.path.realpath(lib)]

class Run:
    """one plan in a fresh process"""
    def __init__(self, prop, variant):
        self.prop, self.v = prop, vargs(variant)
        self.n = 0
    def __call__(self, plan, each=90, trace=None):
        self.n += 1
        with tempfile.NamedTemporaryFile('w', suffix='.plan', delete=False) as f:
            f.write(plan)
        try:
            cmd = [SIM, 'run', '--plan', f.name, '--each', str(each)] + self.v + (['--trace', trace] if trace else [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                return json.loads(r.stdout.strip().split('\n')[-1])
            except ValueError:
                return {'error': 'no result (status %d)' % r.returncode}
        finally:
            os.unlink(f.name)

def whats(res, prop, kn):
    """signatures in a result that count against the property"""
    if 'error' in res:
        return [('run error: ' + re.sub(r'\d+', 'N', res['error']), res['error'])]
    return [(v['what'], v['detail']) for v in res['viol'] if v['prop'] == prop and v['what'] not in kn]

def split_plan(plan):
    head, knobs, ops = [], [], []
    for l in plan.strip().split('\n'):
        (ops if l.startswith('op ') else knobs if l.startswith('knob ') else head).append(l)
    return head, knobs, ops

def minimise(run, plan, sig, prop, kn, budget, pool=8):
    t0 = time.time()
    head, knobs, ops = split_plan(plan)
    def text(k, o, h=None):
        return '\n'.join((h or head) + k + o) + '\n'
    def fails(k, o, h=None):
        return any(w == sig for w, _ in whats(run(text(k, o, h)), prop, kn))
    def first_ok(cands):
        """parallel: the first candidate (in order) that still fails"""
        res = [None] * len(cands)
        nxt = [0]; lock = threading.Lock(); best = [len(cands)]
        def work():
            while True:
                with lock:
                    i = nxt[0]
                    if i >= len(cands) or i > best[0] or time.time() - t0 > budget: return
                    nxt[0] += 1
                ok = fails(*cands[i])
                with lock:
                    res[i] = ok
                    if ok: best[0] = min(best[0], i)
        th = [threading.Thread(target=work) for _ in range(pool)]
        [t.start() for t in th]; [t.join() for t in th]
        return cands[best[0]] if best[0] < len(cands) else None
    # ddmin over operations
    n = 2
    while len(ops) >= 1 and time.time() - t0 < budget:
        size = max(1, (len(ops) + n - 1) // n)
        c = first_ok([(knobs, ops[:i] + ops[i + size:]) for i in range(0, len(ops), size)])
        if c:
            ops = c[1]; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(ops), n * 2)
    # knobs and operation arguments
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        c = first_ok([(knobs[:i] + knobs[i + 1:], ops) for i in range(len(knobs))])
        if c: knobs = c[0]; changed = True; continue
        cand = []
        for i, o in enumerate(ops):
            f = o.split(' ')
            for j in range(4, len(f)):
                if f[j].split('=')[0] in ('id', 'name', 'kind', 'mode'): continue
                cand.append((knobs, ops[:i] + [' '.join(f[:j] + f[j + 1:])] + ops[i + 1:]))
        c = first_ok(cand)
        if c: ops = c[1]; changed = True
    return text(knobs, ops)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay'); ap.add_argument('--time', type=float); ap.add_argument('--seed', type=int)
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    d = PROPS[prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    variants = d.get('variants', ['plain'])
    build(variants)
    kf = known(prop); kn = {w for w, _ in kf}
    if a.replay:
        variant = 'plain'
        plan = open(a.replay).read()
        m = re.search(r'^# variant (\S+)', plan, re.M)
        if m: variant = m.group(1)
        build([variant])
        res = Run(prop, variant)(plan)
        w = whats(res, prop, kn)
        say('hash %s' % res.get('hash'))
        for x, y in w: say('  %s -- %s' % (x, y))
        if w:
            say('VIOLATION property=%s replay=%s' % (prop, a.replay)); sys.exit(1)
        say('no violation'); sys.exit(0)
    budget = a.time or (d.get('quick_s', 35) if tier == 'quick' else d.get('thorough_s', 3000))
    ncpu = min(8, os.cpu_count() or 1)
    agg = dict(runs=0, sim_us=0, wall=0.0, steps=0, rpcs=0, nontrivial=0)
    faults, stat, ops, hashes = collections.Counter(), collections.Counter(), collections.Counter(), set()
    seen_known, states, samples = collections.Counter(), set(), []
    found = []          # (seed or None, variant, plan text, [whats])
    errors = []
    # fixed plans first: minimised histories of every defect that was ever found
    cdir = V + '/corpus/' + prop
    corpus = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    for c in corpus:
        plan = open(cdir + '/' + c).read()
        m = re.search(r'^# variant (\S+)', plan, re.M)
        variant = m.group(1) if m else 'plain'
        if variant not in variants: variant = variants[0]
        res = Run(prop, variant)(plan)
        agg['runs'] += 1
        w = whats(res, prop, kn)
        if 'viol' in res:
            for v in res['viol']:
                if v['what'] in kn: seen_known[v['what']] += 1
        if w: found.append((None, variant, plan, w))
    stop = threading.Event()
    lock = threading.Lock()
    procs = []
    tsearch = time.time()
    def worker(i, variant, share, base):
        sf = tempfile.NamedTemporaryFile(delete=False); sf.close()
        left = budget * share
        t_end = time.time() + left
        cmd = [SIM, 'search', '--prop', prop, '--from', str(base + i), '--to', str(base + (d.get('quick_n', 4000) if tier == 'quick' and not a.time else 10 ** 8)), '--step', str(ncpu), '--time', '%.1f' % left, '--each', '90', '--cpu', str(i), '--states', sf.name] + vargs(variant)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        with lock: procs.append(p)
        for l in p.stdout:
            try: r = json.loads(l)
            except ValueError: continue
            with lock:
                agg['runs'] += 1
                if 'error' not in r:
                    agg['sim_us'] += r['sim_us']; agg['wall'] += r['wall']; agg['steps'] += r['steps']; agg['rpcs'] += r['rpcs']
                    faults.update(r['faults']); stat.update(r['stat']); ops.update(r['ops'])
                    if any(r['stat'].get(k) for k in d['nontrivial']) and r['hash'] not in hashes: agg['nontrivial'] += 1
                    hashes.add(r['hash'])
                    for v in r['viol']:
                        if v['prop'] == prop and v['what'] in kn: seen_known[v['what']] += 1
                    if len(samples) < 3 and r['plan_ops'] and r['seed'] % 7 == 3: samples.append(r['seed'])
                w = whats(r, prop, kn)
                if w:
                    if 'error' in r: errors.append((r['seed'], variant, w))
                    else: found.append((r['seed'], variant, None, w))
                    if not a.keep_going: stop.set()
            if stop.is_set():
                p.kill(); break
        p.wait()
        try:
            arr = array.array('I'); b = open(sf.name, 'rb').read(); arr.frombytes(b[:len(b) // 4 * 4])
            with lock: states.update(arr)
        finally: os.unlink(sf.name)
    if not found:
        shares = d.get('shares') or [1.0 / len(variants)] * len(variants)
        for k, variant in enumerate(variants):
            if stop.is_set(): break
            base = seed * 1000000 + k * 500000 + (0 if tier == 'quick' else 100000)
            th = [threading.Thread(target=worker, args=(i, variant, shares[k], base)) for i in range(ncpu)]
            [t.start() for t in th]; [t.join() for t in th]
    search_s = time.time() - tsearch
    # --- gate and minimise
    code, nviol, reported = 0, 0, []
    def gen(s):
        return subprocess.run([SIM, 'gen', '--prop', prop, '--seed', str(s)], stdout=subprocess.PIPE, text=True).stdout
    sigs = {}
    for s, variant, plan, w in found:
        sigs.setdefault(w[0][0], (s, variant, plan, w))
    for sig, (s, variant, plan, w) in list(sigs.items())[:3]:
        run = Run(prop, variant)
        plan = plan or gen(s)
        r1, r2 = run(plan), run(plan)
        ok = all(any(x == sig for x, _ in whats(r, prop, kn)) for r in (r1, r2)) and r1.get('hash') == r2.get('hash')
        if not ok:
            say('not reproducible: seed %s, %s: %s / %s' % (s, sig, json.dumps(r1)[:500], json.dumps(r2)[:500]))
            code = max(code, 2); continue
        small = minimise(run, plan, sig, prop, kn, d.get('min_s', 60 if tier == 'quick' else 300))
        rs = [run(small), run(small)]
        if not all(any(x == sig for x, _ in whats(r, prop, kn)) for r in rs) or rs[0].get('hash') != rs[1].get('hash'):
            small, rs = plan, [r1, r2]
        det = [y for x, y in whats(rs[0], prop, kn) if x == sig][0]
        os.makedirs(V + '/replays', exist_ok=True)
        path = V + '/replays/%s-%s.plan' % (prop, re.sub(r'[^a-z0-9]+', '-', sig.lower())[:60].strip('-'))
        with open(path, 'w') as f:
            f.write('# %s\n# %s\n# variant %s\n# hash %s\n# replay: python3 tools/check.py %s --replay %s\n' % (sig, det.replace('\n', ' | ')[:600], variant, rs[0].get('hash'), prop, os.path.relpath(path, V)) + small)
        say('%s: %s' % (sig, det[:800]))
        say('found with %s, minimised to %d operations after %d runs' % ('seed %d' % s if s is not None else 'a corpus plan', small.count('\nop '), run.n))
        say('VIOLATION property=%s replay=%s' % (prop, path))
        nviol += 1; code = 1 if code != 1 else code
        reported.append({'what': sig, 'detail': det[:500], 'replay': path})
    if nviol == 0:
        for s, variant, w in errors[:1]:
            run = Run(prop, variant)
            r1 = run(gen(s), each=200)
            if 'error' in r1: say('run error: seed %d: %s' % (s, r1['error'])); code = 2
            elif whats(r1, prop, kn): say('unstable run: seed %d' % s); code = 2
    else: code = 1
    for w, desc in kf:
        say('KNOWN-FINDING: property=%s %s: %s (seen in %d runs)' % (prop, w, desc, seen_known[w]))
    if agg['runs'] == 0 and code == 0:
        say('no run completed'); code = 2
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1), 'violations': nviol,
        'coverage': {
            'evaluations': agg['runs'], 'distinct_nontrivial': agg['nontrivial'],
            'rule': 'A case is one seeded simulated run: the seed generates the configuration, the client operations, the faults and every scheduling and network decision. ' + d['rule'],
            'samples': [{'seed': x, 'plan': gen(x)} for x in samples[:2]] or [{'seed': seed * 1000000, 'plan': gen(seed * 1000000)}],
            'simulated_runs_per_hour': int(agg['runs'] / max(search_s, .1) * 3600), 'corpus_plans': len(corpus),
            'simulated_seconds': int(agg['sim_us'] / 1e6), 'scheduler_steps': agg['steps'], 'simulated_system_calls': agg['rpcs'],
            'faults_injected': dict(faults), 'oracle_counters': dict(stat), 'distinct_executions': len(hashes),
            'distinct_states': len(states), 'state_measure': 'hash over the phase of every session, the fill level (powers of four) and condition of every link direction, and process stalls, sampled whenever a worker wakes',
            'real_components': REAL, 'stub_components': STUB, 'known_findings_seen': dict(seen_known), 'violations': reported,
        },
        'assumptions': d.get('assumptions', []) + [FAULTS_NOTE],
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    say('%s %s: %d runs (%d distinct non-trivial, %d states) in %.0f s, %.0f simulated seconds: %s' % (prop, tier, agg['runs'], agg['nontrivial'], len(states), wall, agg['sim_us'] / 1e6, ['held', 'VIOLATED', 'check error'][code]))
    sys.exit(code)
main()
