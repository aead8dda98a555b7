#!/usr/bin/env python3
"""Entry point of the deterministic simulation checks.

  check.py PROPERTY [quick|thorough]      decide one property against /repo's working tree
  check.py replay FILE                    replay a recorded violation (trace included)
  check.py build GROUP                    build one simulation binary, print its path
  check.py setup                          verify that the tools the checks need are present

Exit 0: the property held on everything explored. Exit 1: VIOLATION line printed. Exit 3: no verdict (build or machinery error).
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from registry import PROPS, GROUPS, TIERS  # noqa: E402

CXX = 'g++'
STD = ['-std=gnu++17']
RT_FLAGS = STD + ['-O2', '-g1', '-fno-tree-loop-distribute-patterns']
SUT_FLAGS = STD + ['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread', '-w']
LINK = ['-no-pie', '-static-libstdc++', '-static-libgcc', '-Wl,--wrap=_ZNSt13random_device9_M_getvalEv']
INC = ['-I', os.path.join(VERIF, 'stubs'), '-I', os.path.join(VERIF, 'sim'), '-I', os.path.join(REPO, 'cpp_utils/include'),
       '-I', os.path.join(REPO, 'cpp_utils/src/cpp'), '-I', os.path.join(REPO, 'thirdparty/filewatch'), '-I', os.path.join(REPO, 'thirdparty')]
# need Fast DDS itself, no simulated property involves them
NOT_BUILDABLE = {'ReturnCode.cpp', 'qos/qos_utils.cpp'}


def files_under(d):
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compilation of %s failed:\n%s' % (src, r.stderr[-4000:]))
    os.replace(tmp, obj)


def build(group):
    """Builds the simulation binary of one group from /repo's working tree. Objects are cached by the content of all inputs."""
    os.makedirs(BUILD, exist_ok=True)
    sim = os.path.join(VERIF, 'sim')
    simh = [os.path.join(sim, f) for f in ('sim.h', 'rt.h')]
    repo_files = files_under(os.path.join(REPO, 'cpp_utils/include')) + files_under(os.path.join(REPO, 'cpp_utils/src')) + \
        files_under(os.path.join(REPO, 'thirdparty'))
    stub_files = files_under(os.path.join(VERIF, 'stubs'))
    jobs = []

    def add(src, flags, deps):
        key = digest([src] + deps, ' '.join(flags))
        obj = os.path.join(BUILD, os.path.basename(src) + '-' + key + '.o')
        jobs.append((src, obj, flags))
        return obj

    objs = []
    # the harness first: it is the longest compilation
    hdeps = simh + repo_files + stub_files + [os.path.join(VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))) if f.endswith('.hpp')]
    for h in GROUPS[group]['harness']:
        objs.append(add(os.path.join(VERIF, 'harness', h), SUT_FLAGS + INC, hdeps))
    objs.append(add(os.path.join(sim, 'driver.cpp'), STD + ['-O1', '-g1'], simh))
    objs.append(add(os.path.join(sim, 'rt.cpp'), RT_FLAGS, simh))
    objs.append(add(os.path.join(sim, 'memfn.cpp'), RT_FLAGS + ['-fno-builtin'], simh))
    objs.append(add(os.path.join(sim, 'stl_inst.cpp'), SUT_FLAGS, simh))
    src_root = os.path.join(REPO, 'cpp_utils/src/cpp')
    for f in files_under(src_root):
        if f.endswith('.cpp') and os.path.relpath(f, src_root) not in NOT_BUILDABLE:
            objs.append(add(f, SUT_FLAGS + INC, repo_files + stub_files))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for fut in [ex.submit(compile_one, j) for j in jobs]:
            fut.result()
    exe = os.path.join(BUILD, group + '-' + digest([], ' '.join(objs + LINK)) + '.exe')
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + LINK + objs + ['-o', tmp, '-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link failed:\n' + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


def prune():
    """Keep the cache small: this directory is not needed between runs."""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.endswith('.o') or f.endswith('.exe')]
        fs.sort(key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while total > 3 << 30 and fs:
            f = fs.pop(0)
            total -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


def symbolise(exe, text):
    """0x4xxxxx return addresses -> function (file:line)"""
    pcs = sorted(set(re.findall(r'\b0x(4[0-9a-f]{5}|[5-9a-f][0-9a-f]{5})\b', text)))
    if not pcs or not shutil.which('addr2line'):
        return text
    try:
        out = subprocess.run(['addr2line', '-Cfe', exe] + ['0x%x' % (int(p, 16) - 1) for p in pcs], capture_output=True, text=True,
                             timeout=60).stdout.splitlines()
    except Exception:
        return text
    m = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(out):
            fn = re.sub(r'<[^<>]*>', '<>', out[2 * i])
            loc = out[2 * i + 1].split(' (')[0].replace(REPO + '/', '').replace(VERIF + '/', '')
            m['0x' + p] = '%s{%s %s}' % ('0x' + p, fn[:70], loc)
    return re.sub(r'\b0x[0-9a-f]{6}\b', lambda x: m.get(x.group(0), x.group(0)), text)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop:
                out.append({'scenario': m.group(2), 'class': m.group(3), 'text': m.group(4).strip()})
    return out


def repo_state():
    try:
        h = subprocess.run(['git', '-C', REPO, 'rev-parse', '--short', 'HEAD'], capture_output=True, text=True).stdout.strip()
        d = subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
        return h + (' (modified)' if d else '')
    except Exception:
        return 'unknown'


def write_evidence(prop, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(d, prop + '.json'))


def run_cpp(prop, tier, seed):
    t0 = time.time()
    p = PROPS[prop]
    exe = build(p['group'])
    build_s = time.time() - t0
    secs = float(os.environ.get('SIM_SECS', p.get(tier, TIERS[tier])))
    out = os.path.join(REPLAYS, '%s-%d' % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    jobs = os.cpu_count() or 4
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--secs', str(secs), '--jobs', str(jobs), '--out', out, '--mincap',
           '40' if tier == 'quick' else '120']
    if os.path.exists(KNOWN):
        cmd += ['--known', KNOWN]
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    sys.stderr.write(r.stderr[-4000:])
    try:
        st = json.load(open(os.path.join(out, 'stats.json')))
    except Exception:
        print('error: the simulation driver gave no statistics (exit %d)\n%s' % (r.returncode, r.stdout[-2000:]))
        return 3
    kf = known_findings(prop)
    wall = max(st['wall_s'], 1e-6)
    probes = {k: {'times': v[0], 'runs': v[1]} for k, v in st['probes'].items()}
    missing = [q for q in p.get('must_reach', []) if q not in st['probes']]
    cov = {
        'evaluations': st['runs'],
        'distinct_nontrivial': st['distinct'],
        'rule': 'One case is one simulated run: workload, thread interleaving, clock jumps and faults all drawn from seed = f(VERIF_SEED, run index). '
                'Non-trivial: the run had at least one preemption or injected fault. Distinct: different hash over the sequence of (thread '
                'switched from, code position, thread switched to) and injected faults; with a single thread, over every operation of the run.',
        'samples': st['samples'][:8],
        'seeds': st['runs'],
        'runs_per_hour': round(st['runs'] / wall * 3600),
        'simulated_seconds': round(st['sim_s'], 3),
        'simulated_seconds_per_hour': round(st['sim_s'] / wall * 3600),
        'scheduling_points': st['sched_points'],
        'context_switches': st['switches'],
        'preemptions': st['preemptions'],
        'synchronisation_operations': st['sync_ops'],
        'simulated_threads': st['threads'],
        'max_threads_in_a_run': st['max_threads'],
        'faults_injected': {k: {'injected': v[0], 'opportunities': v[1]} for k, v in st['faults'].items() if v[0] or v[1]},
        'states_reached': probes,
        'states_expected_but_not_reached': missing,
        'runs_per_scenario': st['scenarios'],
        'runs_ending_in_a_known_finding': st['known_hits'],
        'runs_not_repeatable': st['unrepeatable'],
        'real_components': GROUPS[p['group']]['real'],
        'stubbed_components': GROUPS[p['group']]['stub'],
        'simulation_wall_s': round(wall, 2),
        'build_wall_s': round(build_s, 2),
        'workers': st['jobs'],
        'repo': repo_state(),
    }
    code = st['verdict']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': p.get('assumptions', []) + [
              'Sequentially consistent memory; unordered conflicting accesses are reported as data races instead of being given weak-memory results.',
              'Seeded search: absence of a violation covers the runs made, not every schedule.'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if code == 1 else 0}
    if code == 1:
        v = st['violation']
        rf = v['replay']
        txt = open(rf, errors='replace').read()
        with open(rf, 'w') as f:
            f.write(symbolise(exe, txt))
        ev['coverage']['violation'] = {'class': v['class'], 'scenario': v['scenario'], 'replay': rf, 'run_index': v['index'],
                                       'minimiser_replays': v['minimiser_replays']}
    write_evidence(prop, ev)
    print('%s %s: %d runs, %d distinct non-trivial interleavings, %.1f simulated s, in %.1f s (build %.1f s)' % (
        prop, tier, st['runs'], st['distinct'], st['sim_s'], wall, build_s))
    if st['runs'] == 0 and code == 0:
        print('error: nothing was run')
        return 3
    if missing and tier == 'quick':
        print('note: never reached in this run: ' + ', '.join(missing))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if code == 1:
        v = st['violation']
        print('scenario=%s class=%s' % (v['scenario'], v['class']))
        print(symbolise(exe, v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    elif code != 0:
        print('error: no verdict\n' + r.stdout[-2000:])
    else:
        shutil.rmtree(out, ignore_errors=True)
    prune()
    return code


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    cmd = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if cmd == 'setup':
        for t in ('g++', 'git', 'python3'):
            if not shutil.which(t):
                print('missing tool: ' + t)
                return 3
        print('tools present; every check builds what it needs')
        return 0
    try:
        if cmd == 'build':
            print(build(sys.argv[2]))
            return 0
        if cmd == 'replay':
            txt = open(sys.argv[2], errors='replace').read()
            prop = re.search(r'^property (\S+)', txt, re.M).group(1)
            if PROPS[prop]['group'] == 'py':
                import pysim.run
                return pysim.run.replay(sys.argv[2])
            exe = build(PROPS[prop]['group'])
            r = subprocess.run([exe, '--replay', sys.argv[2], '--verbose'], capture_output=True, text=True, errors='replace')
            print(symbolise(exe, r.stdout))
            return r.returncode
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        if PROPS[cmd]['group'] == 'py':
            import pysim.run
            return pysim.run.main(cmd, tier, seed)
        return run_cpp(cmd, tier, seed)
    except BuildError as e:
        print('error: ' + str(e))
        return 3


if __name__ == '__main__':
    sys.exit(main())
