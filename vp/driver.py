import glob, importlib, json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import VERIF, REPO, Unit, solve, replay, trace_vals

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def load():
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def jobs_for(prop, tier):
    out = []
    for u in Unit.units.values():
        for j in u.jobs:
            if prop in j.props and (j.tier == 'quick' or tier == 'thorough'):
                out.append(j)
    return out


class Outcome:
    def __init__(self, job):
        self.job = job
        self.kind = None            # proved / bounded / violation / broken
        self.results = []
        self.obligation = ''
        self.replayed = False
        self.inputs = {}
        self.text = ''
        self.note = ''


def try_replays(o, res, work, bounded=None, srcmap=None):
    """replay every failing obligation's counterexample natively until one is confirmed"""
    seen = []
    cand = sorted(res.failed, key=lambda f: 0 if 'ensures' in f[0] else 1) + res.unwind_failed
    for k, (nm, desc, loc, tr) in enumerate(cand[:6]):
        vals = trace_vals(tr)
        if vals in seen: continue
        seen.append(vals)
        ok, text, path = replay(o.job, vals, work, '%s_%d%s' % (re.sub(r'\W', '_', o.job.name), k, '_b' if bounded is not None else ''), bounded=bounded)
        if ok:
            o.kind, o.obligation, o.replayed, o.inputs, o.text = 'violation', nm + ' [' + loc + '] ' + desc, True, vals, text
            o.replay_c = path
            return True
        o.text += '\nreplay of %s: %s' % (nm, text[-600:])
    return False


def decide(job, work, tier):
    o = Outcome(job)
    try:
        decide_(o, job, os.path.join(work, job.unit.name), tier)
    except Exception as e:
        import traceback
        o.kind, o.note = 'broken', traceback.format_exc()
    return o


def decide_(o, job, work, tier):
    from . import loops
    os.makedirs(work, exist_ok=True)
    if job.fn and not job.unit.present(job.fn):
        o.kind, o.note = 'skipped', 'the internal function %s is not in the current source; its callers are proved over what replaced it' % job.fn
        return
    import copy
    job = copy.copy(job)
    gone = [f for f in job.replace if not job.unit.present(f)]
    job.replace = [f for f in job.replace if f not in gone]
    o.job = job
    R = None
    if job.loops is not None:
        R = loops.solve_loops(job, work)
    elif job.plain:
        R = solve(job, 'plain', work)
    else:
        R = solve(job, 'dfcc', work)
    o.results.append(R)
    if R.status == 'proved':
        o.kind = 'bounded' if job.bound else 'proved'
        if job.bound: o.note = 'held; bounded: ' + job.bound
        return
    if R.status == 'broken':
        o.kind, o.note = 'broken', R.reason + '\n' + R.output
        return
    # modular proof did not go through: the same contract with the callees' bodies instead of their contracts
    if job.replace and not job.plain and job.loops is None and job.kind == 'proof':
        R2 = solve(job, 'dfcc', work, replace=[], unwind=max(job.unwind, 8), tag='_inl')
        o.results.append(R2)
        if R2.status == 'proved':
            o.kind, o.note = 'proved', 'callee bodies inlined (the callee contracts were not enough: %s)' % (R.reason or [f[0] for f in R.failed])
            return
        if R2.status == 'failed' or R.status != 'failed': R = R2
    first = R
    if job.replay and (R.failed or R.unwind_failed) and try_replays(o, R, work):
        return
    # bodies inlined, no frame instrumentation; fixed-size inputs when the job has a bounded form
    b = job.bounded or {}
    if (job.bounded is not None or job.replace) and job.loops is None:
        R3 = solve(job, 'plain', work, replace=[], bounded=b.get('n', 1) if job.bounded is not None else None,
                   unwind=b.get('unwind', job.unwind), timeout=b.get('timeout', 300), tag='_bnd')
        o.results.append(R3)
        if R3.failed or R3.unwind_failed:
            if job.replay and try_replays(o, R3, work, bounded=b.get('n', 1) if job.bounded is not None else None):
                return
        if R3.failed and not first.failed:
            first = R3
        if R3.status == 'proved' and job.kind == 'lemma' and job.bounded is None:
            o.kind, o.note = 'proved', 'over the real bodies instead of the contracts (%s)' % (first.reason or [f[0] for f in first.failed])
            return
    # search for a failing input: the contract, executed, on generated inputs of the real code
    if job.replay:
        n = b.get('n', 1) if job.bounded is not None else None
        ok, text, path = replay(job, {}, work, re.sub(r'\W', '_', job.name) + '_rnd', bounded=n, seconds=30, rnd=SEED)
        o.text += '\nsearch on generated inputs: ' + text[-1500:]
        o.sampled = text[-200:]
        if ok:
            o.kind, o.replayed, o.replay_c = 'violation', True, path
            m = re.search(r'VP_FAILED (.*)', text)
            o.obligation = m[1] if m else 'run-time error or no return on generated inputs'
            return
    if first.failed and job.loops is None:
        o.kind = 'violation'
        nm, desc, loc, tr = sorted(first.failed, key=lambda f: 0 if 'ensures' in f[0] else 1)[0]
        o.obligation = nm + ' [' + loc + '] ' + desc
        o.inputs = trace_vals(tr)
        o.text = 'failed obligations: ' + '; '.join(f[0] + ' [' + f[2] + ']' for f in first.failed) + '\n' + o.text
        return
    o.kind = 'bounded'
    o.note = first.reason or 'undecided'


def check(prop, tier='quick', seed=1, only=None, keep=None):
    t0 = time.time()
    load()
    jobs = jobs_for(prop, tier)
    if only: jobs = [j for j in jobs if re.search(only, j.name)]
    if not jobs:
        print('no jobs for', prop); return 2
    work = keep or tempfile.mkdtemp(prefix='vp_%s_' % prop)
    os.makedirs(work, exist_ok=True)
    jobs.sort(key=lambda j: -j.cost)
    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        outs = list(ex.map(lambda j: decide(j, work, tier), jobs))
    viol = [o for o in outs if o.kind == 'violation']
    broken = [o for o in outs if o.kind == 'broken']
    known = known_findings(prop)
    rc = 0
    unknown = []
    for o in viol:
        k = next((k for k in known if k['job'] == o.job.unit.name + '/' + o.job.name and k['obligation'] in o.obligation), None)
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else: unknown.append(o)
    for o in outs:
        r = o.results[0] if o.results else None
        print('%-9s %-46s %5.1fs %s/%s %s' % (o.kind, o.job.unit.name + '/' + o.job.name, sum(x.wall for x in o.results),
              r.ok if r else '-', r.total if r else '-', (o.note or o.obligation)[:300]))
    unknown.sort(key=lambda o: not o.replayed)
    for o in broken:
        print('BROKEN', o.job.unit.name, o.job.name, o.note)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    if unknown:
        o = unknown[0]
        rd = os.path.join(ev, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for o2 in unknown:
                f.write('\n=== %s/%s\nobligation: %s\nreplayed on the real code: %s\ninputs:\n' % (o2.job.unit.name, o2.job.name, o2.obligation, o2.replayed))
                for k, v in o2.inputs.items(): f.write('  %s = %s\n' % (k, v[:2000]))
                f.write('output:\n%s\n' % o2.text)
                for r in o2.results:
                    f.write('prover: %s status=%s %d/%d %s\n' % (r.cmd, r.status, r.ok, r.total, r.reason))
            if o.replayed and os.path.exists(getattr(o, 'replay_c', '')):
                rc_ = os.path.join(rd, prop + '.c')
                shutil.copy(o.replay_c, rc_)
                f.write('\nreplay program: %s\n  gcc -g -w -fsanitize=address,undefined %s %s -lm && ./a.out\n' % (rc_, ' '.join(core.incflags(o.job)), rc_))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if o.replayed else ' no-failing-input-found'))
        rc = 1
    elif broken:
        rc = 2
    write_evidence(prop, tier, seed, outs, time.time() - t0, len(unknown))
    if not keep: shutil.rmtree(work, ignore_errors=True)
    return rc


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) job=(\S+) obligation=(\S+) (.*)$', l.strip())
            if m and m[1] == prop: out.append(dict(job=m[2], obligation=m[3], what=m[4]))
    return out


def write_evidence(prop, tier, seed, outs, wall, nviol):
    obl = dis = 0
    funcs, per, bounded, backends = [], [], [], {}
    assumptions = set()
    for o in outs:
        if o.kind == 'proved':
            r = o.results[-1]
            obl += r.total; dis += r.ok
            backends[r.backend] = backends.get(r.backend, 0) + r.total
        elif o.kind == 'bounded':
            bounded.append({'job': o.job.unit.name + '/' + o.job.name, 'why': o.note, 'bound': o.job.bound or o.job.bounded, 'obligations': o.results[-1].total if o.results else 0, 'discharged_within_bound': o.results[-1].ok if o.results else 0})
        else:
            if o.results:
                r = o.results[0]; obl += r.total; dis += r.ok
        if o.job.fn: funcs.append(o.job.fn)
        for r in o.results:
            per.append({'job': o.job.unit.name + '/' + o.job.name, 'kind': o.job.kind, 'mode': r.mode, 'status': r.status, 'obligations': r.total,
                        'discharged': r.ok, 'backend': r.backend, 'seconds': round(r.wall, 2), 'callees_by_contract': list(o.job.replace),
                        'unwind': o.job.unwind, 'loops': r.loops, 'note': o.job.note})
        for a in o.job.unit.__dict__.get('assume', []): assumptions.add(a)
        if o.job.note: assumptions.add(o.job.name + ': ' + o.job.note)
    cmds = [r.cmd for o in outs for r in o.results]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': obl, 'discharged': dis,
                       'checker_cmd': 'goto-cc; goto-instrument --dfcc harness --enforce-contract <f> --replace-call-with-contract <callees>; ' + (cmds[0] if cmds else ''),
                       'trusted_base': ['CBMC 6.11 (goto-cc, goto-instrument --dfcc, symex) and its SAT back ends', 'contracts and spec functions in /verif/contracts'] + sorted(assumptions),
                       'functions_under_contract': sorted(set(funcs)),
                       'jobs': per, 'bounded_not_proved': bounded, 'backends': backends,
                       'solver_seconds': round(sum(r.wall for o in outs for r in o.results), 1)},
          'assumptions': sorted(assumptions), 'wall_s': round(wall, 2), 'violations': nviol}
    try:
        ev['level'] = next(c['level'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if c['property'] == prop)
    except Exception: pass
    if ev['level'] == 'other':
        ev['coverage']['explanation'] = 'every obligation of the contract was checked on the real code for all inputs within the bounds listed under bounded_not_proved; nothing in this property is counted as proved beyond the jobs listed as proved'
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep')
    a = ap.parse_args()
    sys.exit(check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.only, a.keep))
