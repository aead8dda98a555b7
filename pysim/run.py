"""Runs the Python properties: worker processes searching seeds, minimisation and replay of violations, evidence."""
import gc
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

REAL = ['py_utils wait handlers (WaitHandler, IntWaitHandler, BooleanWaitHandler), Timer, CustomLogger and debugging helpers',
        "threading.Condition and logging of Python's standard library"]
STUB = ['locks of the Python interpreter, thread switching, clocks and sleeps, standard output and error (pysim/core.py)']


# ------------------------------------------------------------------ inside a worker

def load():
    from pysim import core
    core.install(os.path.join(REPO, 'py_utils'))
    from pysim import scenarios
    import py_utils.wait.IntWaitHandler    # noqa: F401
    import py_utils.wait.BooleanWaitHandler    # noqa: F401
    import py_utils.time.Timer    # noqa: F401
    import py_utils.debugging.debug_utils    # noqa: F401
    return core, scenarios


def one(core, scn, choices, verbose=False):
    """One run in the present process."""
    # what is destroyed by the garbage collector would be so at a time that nobody decides
    gc.disable()
    s = core.Sim(choices, verbose)
    s.run(scn[3])
    sys.stdout.sink = sys.stderr.sink = None
    return s


class Died(Exception):
    pass


def outcome(s, verbose):
    v = s.violation
    return {'now': s.now, 'points': s.points, 'switches': s.switches, 'preemptions': s.preemptions, 'blocks': s.blocks,
            'threads': [t.name for t in s.tasks], 'faults': s.faults, 'opportunities': s.opportunities, 'probes': sorted(s.probes), 'hash': s.hash,
            'desc': s.desc, 'class': v.cls if v else None, 'text': v.text if v else None, 'choices': s.c.log if v else [],
            'trace': s.trace if verbose else []}


def forked(core, todo, verbose=False):
    """Runs of a process of their own: what each ended in. Nothing is left from a call for the next."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                for scn, choices in todo:
                    d = outcome(one(core, scn, choices, verbose), verbose)
                    pickle.dump(d, f)
                    if d['class']:
                        break
            os._exit(0)
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(3)
    os.close(w)
    res = []
    with os.fdopen(r, 'rb') as f:
        while True:
            try:
                res.append(pickle.load(f))
            except EOFError:
                break
    st = os.waitpid(pid, 0)[1]
    if st or not res:
        raise Died('a run of %s/%s gave no result (status 0x%x)' % (todo[0][0][0], todo[0][0][1], st))
    return res


def alone(core, scn, choices, verbose=False):
    return forked(core, [(scn, choices)], verbose)[0]


def seed_of(seed, prop, index):
    return int.from_bytes(hashlib.sha256(('%d/%s/%d' % (seed, prop, index)).encode()).digest()[:8], 'big')


def count(st, scn, i, s):
    st['runs'] += 1
    st['sim_ns'] += s['now'] - 1000000000
    for k in ('points', 'switches', 'preemptions', 'blocks'):
        st[k] += s[k]
    st['threads'] += len(s['threads'])
    st['max_threads'] = max(st['max_threads'], len(s['threads']))
    for k in ('faults', 'opportunities'):
        for a, b in s[k].items():
            st[k][a] = st[k].get(a, 0) + b
    for k in s['probes']:
        st['probes'][k] = st['probes'].get(k, 0) + 1
    st['scenarios'][scn[1]] = st['scenarios'].get(scn[1], 0) + 1
    if s['preemptions'] or s['faults']:
        st['hashes'].add(s['hash'])
    if len(st['samples']) < 2:
        st['samples'].append('%s seed index %d: %s; %d threads, %d switches, %.3f simulated ms' % (
            scn[1], i, s['desc'], len(s['threads']), s['switches'], s['now'] / 1e6 - 1000))


def worker(prop, seed, secs, wid, jobs):
    core, scenarios = load()
    t0 = core.real_monotonic()
    st = {'runs': 0, 'sim_ns': 0, 'points': 0, 'switches': 0, 'preemptions': 0, 'blocks': 0, 'threads': 0, 'max_threads': 0, 'faults': {}, 'opportunities': {},
          'probes': {}, 'scenarios': {}, 'hashes': set(), 'unrepeatable': 0, 'violation': None, 'samples': [], 'odd': []}
    i = wid
    batch = 40
    while core.real_monotonic() - t0 < secs:
        todo = [(scenarios.pick(prop, k), seed_of(seed, prop, k), k) for k in range(i, i + batch * jobs, jobs)]
        for (scn, c, k), s in zip(todo, forked(core, [(x[0], core.Choices(seed=x[1])) for x in todo])):
            i = k + jobs
            count(st, scn, k, s)
            if s['class']:
                # what does not fail identically in a process of its own is not reported: the search goes on, with a process for each run
                t = alone(core, scn, core.Choices(seed=c))
                if t['class'] == s['class'] and t['hash'] == s['hash']:
                    st['violation'] = {'index': k, 'scenario': scn[1], 'class': s['class'], 'text': s['text'], 'choices': s['choices']}
                    break
                st['unrepeatable'] += 1
                st['odd'].append('%s index %d: %s: %s' % (scn[1], k, s['class'], s['text']))
                batch = 1
        if st['violation']:
            break
    st['wall'] = core.real_monotonic() - t0
    st['hashes'] = ['%x' % h for h in st['hashes']]
    json.dump(st, sys.stdout)
    sys.stdout.flush()
    os._exit(0)


def find_scn(scenarios, prop, name):
    return [x for x in scenarios.SCENARIOS if x[0] == prop and x[1] == name][0]


def minimise(req):
    """tries simpler lists of choices while the same kind of violation shows up"""
    core, scenarios = load()
    scn = find_scn(scenarios, req['prop'], req['scenario'])
    cls = req['class']
    t0 = core.real_monotonic()
    tries = 0

    def test(c):
        nonlocal tries
        tries += 1
        s = alone(core, scn, core.Choices(fixed=c))
        return s if s['class'] == cls else None

    best = list(req['choices'])
    s = test(best)
    if s:
        def budget():
            return core.real_monotonic() - t0 < req['secs']
        best = s['choices'][:]
        changed = True
        while changed and budget():
            changed = False
            # default values for the tail, then for chunks, then chunks removed
            size = max(1, len(best) // 2)
            while size and budget():
                i = len(best) - size
                while i >= -size + 1 and budget():
                    j = max(i, 0)
                    for cand in (best[:j] + best[i + size:], best[:j] + [None] * (i + size - j) + best[i + size:]):
                        if cand == best or (len(cand) == len(best) and all(x is None for x in best[j:i + size])):
                            continue
                        r = test(cand)
                        if r:
                            best = cand
                            changed = True
                            break
                    i -= size
                size //= 2
        while best and best[-1] is None:
            best.pop()
    s = alone(core, scn, core.Choices(fixed=best), verbose=True)
    json.dump({'choices': best, 'tries': tries, 'class': s['class'], 'text': s['text'], 'trace': s['trace'], 'desc': s['desc'], 'hash': '%x' % s['hash']},
              sys.stdout)
    sys.stdout.flush()
    os._exit(0)


def do_replay(path):
    txt = open(path).read()
    prop = re.search(r'^property (\S+)', txt, re.M).group(1)
    name = re.search(r'^scenario (\S+)', txt, re.M).group(1)
    want = re.search(r'^class (\S+)', txt, re.M).group(1)
    choices = json.loads(re.search(r'^choices (.*)$', txt, re.M).group(1))
    core, scenarios = load()
    s = one(core, find_scn(scenarios, prop, name), core.Choices(fixed=choices), verbose=True)
    print('scenario %s: %s' % (name, s.desc))
    print('\n'.join(s.trace))
    if s.violation:
        print('class=%s %s' % (s.violation.cls, s.violation.text))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('hash %x' % s.hash)
        sys.stdout.flush()
        os._exit(1 if s.violation.cls == want else 2)
    print('no violation: the property holds on this schedule')
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------ outside

def spawn(args, inp=None, **kw):
    # the seed of hashes is fixed: nothing may depend on it, but nothing could be repeated if something did
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([sys.executable, os.path.join(HERE, 'run.py')] + args, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, **kw)


def replay(path):
    p = spawn(['--replay', path])
    out, err = p.communicate()
    sys.stdout.write(out)
    sys.stderr.write(err)
    return p.returncode


def main(prop, tier, seed):
    import check
    t0 = time.time()
    secs = float(os.environ.get('SIM_SECS', check.TIERS[tier]))
    jobs = os.cpu_count() or 4
    ps = [spawn(['--worker', prop, str(seed), str(secs), str(w), str(jobs)]) for w in range(jobs)]
    res = []
    errs = []
    for p in ps:
        try:
            out, err = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        try:
            res.append(json.loads(out))
        except ValueError:
            errs.append(err[-2000:])
    if errs:
        # code that cannot even be loaded, or a simulator error: no verdict
        print('error: a simulation worker gave no result\n' + errs[0])
        return 3
    wall = max(r['wall'] for r in res)
    hashes = set()
    agg = {}
    for r in res:
        hashes.update(r['hashes'])
        for k, v in r.items():
            if isinstance(v, dict) and k in ('faults', 'opportunities', 'probes', 'scenarios'):
                d = agg.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif k == 'max_threads':
                agg[k] = max(agg.get(k, 0), v)
            elif isinstance(v, (int, float)) and k != 'wall':
                agg[k] = agg.get(k, 0) + v
    bad = sorted((r['violation'] for r in res if r['violation']), key=lambda v: v['index'])
    kf = check.known_findings(prop)
    bad = [v for v in bad if not any(k['scenario'] == v['scenario'] and k['class'] == v['class'] for k in kf)]
    simsec = agg['sim_ns'] / 1e9
    cov = {
        'evaluations': agg['runs'], 'distinct_nontrivial': len(hashes),
        'rule': 'One case is one simulated run: workload, thread interleaving (at bytecode granularity), clock steps and faults all drawn from seed = f(VERIF_SEED, '
                'run index). Non-trivial: at least one preemption or injected fault. Distinct: different hash over the sequence of preempted code positions, '
                'threads switched from and to, and faults.',
        'samples': [x for r in res for x in r['samples']][:8], 'seeds': agg['runs'], 'runs_per_hour': round(agg['runs'] / max(wall, 1e-6) * 3600),
        'simulated_seconds': round(simsec, 3), 'simulated_seconds_per_hour': round(simsec / max(wall, 1e-6) * 3600),
        'scheduling_points': agg['points'], 'context_switches': agg['switches'], 'preemptions': agg['preemptions'], 'blocking_operations': agg['blocks'],
        'simulated_threads': agg['threads'], 'max_threads_in_a_run': agg['max_threads'],
        'faults_injected': {k: {'injected': v, 'opportunities': max(v, agg['opportunities'].get(k, 0))} for k, v in agg['faults'].items()},
        'states_reached': agg['probes'], 'runs_per_scenario': agg['scenarios'], 'real_components': REAL, 'stubbed_components': STUB,
        'runs_not_repeatable': agg['unrepeatable'], 'simulation_wall_s': round(wall, 2), 'workers': jobs, 'repo': check.repo_state()}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['Threads are preempted between bytecodes, as the interpreter does; operations implemented in C are atomic.',
                          'Seeded search: absence of a violation covers the runs made, not every schedule.'],
          'wall_s': 0, 'violations': 1 if bad else 0}
    code = 0
    if bad:
        v = bad[0]
        req = {'prop': prop, 'scenario': v['scenario'], 'class': v['class'], 'choices': v['choices'], 'secs': 40 if tier == 'quick' else 120}
        p = spawn(['--minimise'], inp='')
        out, err = p.communicate(json.dumps(req))
        m = json.loads(out)
        if m['class'] != v['class']:
            print('error: the violation found (%s: %s) cannot be repeated\n%s' % (v['class'], v['text'], err[-500:]))
            return 3
        d = os.path.join(VERIF, 'replays', '%s-%d' % (prop, os.getpid()))
        os.makedirs(d, exist_ok=True)
        rf = os.path.join(d, 'replay-%s-%s-%d.txt' % (prop, v['scenario'], v['index']))
        with open(rf, 'w') as f:
            f.write('property %s\nscenario %s\nclass %s\nseed %d index %d\nhash %s\nchoices %s\n# %s\n# %s\n# schedule (%d decisions, from %d, after %d replays):\n%s\n' % (
                prop, v['scenario'], v['class'], seed, v['index'], m['hash'], json.dumps(m['choices']), m['desc'], m['text'].replace('\n', '\n# '),
                len(m['choices']), len(v['choices']), m['tries'], '\n'.join('# ' + x for x in m['trace'])))
        cov['violation'] = {'class': v['class'], 'scenario': v['scenario'], 'replay': rf, 'run_index': v['index'], 'minimiser_replays': m['tries']}
        code = 1
    ev['wall_s'] = round(time.time() - t0, 2)
    check.write_evidence(prop, ev)
    print('%s %s: %d runs, %d distinct non-trivial interleavings, %.1f simulated s, in %.1f s' % (prop, tier, agg['runs'], len(hashes), simsec, wall))
    if agg['unrepeatable'] and not bad:
        # such a run tells nothing about the code: what it did when repeated counts
        few = agg['unrepeatable'] * 1000 <= agg['runs']
        print('%s: %d runs failed and did not when repeated alone: %s' % ('note' if few else 'error', agg['unrepeatable'], [x for r in res for x in r['odd']][0]))
        if not few:
            return 3
    if not agg['runs']:
        print('error: nothing was run')
        return 3
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if bad:
        print('scenario=%s class=%s\n%s' % (v['scenario'], v['class'], m['text']))
        print('VIOLATION property=%s replay=%s' % (prop, rf))
    return code


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        worker(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))
    elif sys.argv[1] == '--minimise':
        minimise(json.load(sys.stdin))
    elif sys.argv[1] == '--replay':
        do_replay(sys.argv[2])
