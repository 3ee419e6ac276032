#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Compiles /repo's current tree with the harnesses, executes the harnesses of the property
symbolically on the compiler's IR, lets the solver decide every assertion, replays what it
finds natively on the real crate, and writes evidence/<property>.json.

exit 0: the property held on everything explored; exit 1: VIOLATION; exit 2: no verdict
(the tree does not build with the harnesses, or the machinery contradicts itself)."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import jobs as J

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
ENGINE = os.path.join(HERE, 'engine/target/release/obsym')
REPLAY = os.path.join(HERE, 'replay/target/release/obsidian-replay')


def out(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build(work):
    """IR and native replay program from /repo's current tree"""
    res = {}

    def ir():
        r = out([os.path.join(HERE, 'build_ir.sh'), os.path.join(work, 'h.ll')], env=ENV)
        res['ir'] = (r.returncode, r.stdout)

    def native():
        r = out([os.path.join(HERE, 'build_replay.sh')], env=ENV)
        if r.returncode == 0:
            shutil.copy(REPLAY, os.path.join(work, 'replay'))
        res['replay'] = (r.returncode, r.stdout)

    os.makedirs(os.path.join(HERE, 'harness/target'), exist_ok=True)
    with open(os.path.join(HERE, 'harness/target/.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(ENGINE):
            r = out([os.path.join(HERE, 'engine/build.sh')], env=ENV)
            if r.returncode:
                return 'engine: ' + r.stdout[-4000:]
        t = [threading.Thread(target=f) for f in (ir, native)]
        [x.start() for x in t]
        [x.join() for x in t]
    for k in ('ir', 'replay'):
        if res[k][0] != 0:
            return '%s: %s' % (k, res[k][1][-4000:])
    return None


class Native:
    """Runs of harnesses against the real crate"""

    def __init__(self, work):
        self.bin, self.dir = os.path.join(work, 'replay'), tempfile.mkdtemp(prefix='native.', dir=work)
        self.runs = 0

    def _run(self, lines, timeout):
        try:
            p = subprocess.run([self.bin], input='\n'.join(lines) + '\n', stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               text=True, errors='replace', timeout=timeout, cwd=self.dir)
            err, rc = p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            err, rc = (e.stderr or b'').decode(errors='replace') if isinstance(e.stderr, bytes) else (e.stderr or ''), 'timeout'
        res, obs = [], None
        for l in err.split('\n'):
            if l.startswith('obs ') or l == 'obs':
                obs = [int(x) for x in l[4:].split()]
            elif l.startswith('end ') and obs is not None:
                res.append((l[4:], obs))
                obs = None
        return res, rc

    def batch(self, lines):
        """(end, observations) of each line; one that ends the process is 'crash ..' or 'hang'"""
        res = []
        while len(res) < len(lines):
            part = lines[len(res):len(res) + 400]
            r, rc = self._run(part, 60)
            res += r
            if len(r) < len(part):
                res.append(('hang', []) if rc == 'timeout' else ('crash %s' % rc, []))
        self.runs += len(lines)
        return res

    def one(self, line, timeout=20):
        self.runs += 1
        r, rc = self._run([line], timeout)
        return r[0] if r else (('hang', []) if rc == 'timeout' else ('crash %s' % rc, []))


def line(j, inputs):
    return '%s|%s|%s' % (j['entry'], ','.join(map(str, j['params'])), ','.join(str(v) for _, v in inputs))


def is_bad(end):
    return end.split(' ')[0] in ('assert', 'panic', 'crash', 'hang')


def confirms(v, end):
    """does the native run show the violation the solver found"""
    k = end.split(' ')[0]
    if v['kind'] == 'assert':
        return k in ('assert', 'panic', 'crash', 'hang')
    if v['kind'] == 'panic':
        return k in ('panic', 'assert', 'crash')
    return k in ('hang', 'crash', 'panic', 'assert')


def known_findings():
    f, res = os.path.join(HERE, 'known-findings.txt'), []
    for l in open(f):
        if l.startswith('known: '):
            w = l[7:].split(' ', 4)
            d = dict(x.split('=', 1) for x in w[:4])
            d['text'] = w[4].strip()
            res.append(d)
    return res


def known(pid, j, end):
    for k in known_findings():
        if k['property'] == pid and k['harness'] == j['entry'] and end == 'assert ' + k['assert']:
            if k['params'].split(',') == [str(x) for x in j['params'][:len(k['params'].split(','))]]:
                return k
    return None


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'target'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s.' % pid, dir=os.path.join(HERE, 'target'))
    try:
        return check(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, work, t0):
    jobs = J.jobs(pid, tier)
    print('%s %s: %d harness instances' % (pid, tier, len(jobs)), flush=True)
    err = build(work)
    tb = time.time() - t0
    if err:
        print('ERROR: /repo does not build with the harnesses\n' + err)
        return 2
    print('IR and replay program built from /repo in %.0f s' % tb, flush=True)
    total = {'quick': 560, 'thorough': 6 * 3600}[tier]
    with open(os.path.join(work, 'jobs'), 'w') as f:
        f.write('\n'.join(j.line() for j in jobs))
    o = os.path.join(work, 'out')
    os.mkdir(o)
    r = out([ENGINE, '--ll', os.path.join(work, 'h.ll'), '--jobs', os.path.join(work, 'jobs'), '--out', o, '--procs', '8', '--total', str(total)])
    native = Native(work)
    results, unexplored, fatal, warn = [], [], [], []
    for i, j in enumerate(jobs):
        f = os.path.join(o, '%d.json' % i)
        d = None
        if os.path.exists(f):
            try:
                d = json.load(open(f))
            except ValueError:
                pass
        if d is None:
            unexplored.append('%s: not run to an end' % j.describe())
            continue
        d['job'] = j
        results.append(d)
        for e in d['errors']:
            unexplored.append('%s: %s' % (j.describe(), e))
        if d['complete'] is False:
            fatal.append('%s: the explored paths do not cover every input' % j.describe())
    if r.returncode != 0:
        warn.append('engine: ' + r.stdout[-1500:])

    # what the solver found, on the real crate
    confirmed, findings = [], {}
    for d in results:
        for v in d['violations']:
            end, obs = native.one(line(d, v['inputs']))
            k = known(pid, d, end)
            if k and v['kind'] == 'assert' and str(v['id']) == k['assert']:
                findings.setdefault(k['text'], []).append((d, v, end))
            elif confirms(v, end):
                confirmed.append((d, v, end))
            elif v['kind'] == 'fault' and 'no termination' in v['msg']:
                unexplored.append('%s: %s' % (d['job'].describe(), v['msg']))
            else:
                # the order of a hash table is random in a native run: a few more tries
                ends = [native.one(line(d, v['inputs']))[0] for _ in range(20)]
                bad = [e for e in ends if confirms(v, e)]
                if bad:
                    confirmed.append((d, v, bad[0]))
                else:
                    fatal.append('%s: counterexample does not reproduce natively (%s; native: %s): %s' % (d['job'].describe(), v['msg'], end, line(d, v['inputs'])))

    # sampled paths, on the real crate: same end, same observations
    todo = [(d, s) for d in results for s in d['samples']]
    ends = native.batch([line(d, s['inputs']) for d, s in todo]) if todo else []
    agreed = 0
    for (d, s), (end, obs) in zip(todo, ends):
        want = 'expected-panic' if s['end'] == 'panic' else 'ok'
        if end == want and obs == s['obs']:
            agreed += 1
        elif is_bad(end):
            k = known(pid, d, end)
            if k:
                findings.setdefault(k['text'], []).append((d, None, end))
            else:
                confirmed.append((d, dict(kind='native', id=0, msg='native run of a sampled path', inputs=s['inputs']), end))
        elif any(native.one(line(d, s['inputs'])) == (want, s['obs']) for _ in range(20)):
            # another order of a hash table
            agreed += 1
        else:
            fatal.append('%s: native run differs from the symbolic one (%s %s, %s %s): %s' % (d['job'].describe(), s['end'], s['obs'][:40], end, obs[:40], line(d, s['inputs'])))

    # vacuity: what every instance has to reach
    vacuous = []
    for d in results:
        if d['violations'] or d['errors']:
            continue
        if d['job'].covers is None:
            if d['paths_ok'] + d['paths_panic'] == 0:
                vacuous.append(d['job'].describe())
            continue
        miss = [c for c in d['job'].covers if c not in d['covers']]
        if miss or d['paths_ok'] + d['paths_panic'] == 0:
            fatal.append('%s: never reaches %s' % (d['job'].describe(), miss))

    S = lambda k: sum(d[k] for d in results)
    if not confirmed and results and S('paths_ok') + S('paths_panic') == 0 and not findings:
        fatal.append('no path was explored')
    if len(unexplored) * 2 > len(jobs):
        fatal.append('more than half of the instances have unexplored paths')

    own = sorted({f for d in results for f in d['functions_own']})
    repo_fns = [f for f in own if 'obsidian_harness' not in f]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths_ok') + S('paths_panic') + S('paths_killed') if results else 0,
            'transitions': S('instrs'),
            'traces_validated_against_impl': agreed,
            'samples': [dict(harness=d['entry'], params=d['params'], inputs=s['inputs'][:60], end=s['end'], observations=s['obs'][:40])
                        for d, s in todo[:3]],
            'states_are': 'execution paths of the compiled crate with symbolic inputs (each stands for all inputs that satisfy its condition)',
            'transitions_are': 'IR instructions executed symbolically',
            'paths_completed': S('paths_ok'), 'paths_expected_panic': S('paths_panic'), 'paths_outside_assumptions': S('paths_killed'),
            'forks': S('forks'),
            'assertions_evaluated': S('asserts'), 'assertions_decided_by_smt_query': S('asserts_smt'),
            'smt_queries': S('queries'), 'smt_sat': S('sat'), 'smt_unsat': S('unsat'),
            'solver_s': round(S('solver_us') / 1e6, 3), 'solver_max_query_s': round(max([d['solver_max_us'] for d in results] or [0]) / 1e6, 3),
            'solver': 'z3 4.8.12 (QF_BV)',
            'branch_conditions_decided_on_byte_domains': S('table_decided'),
            'instances': len(jobs), 'instances_with_coverage_of_inputs_confirmed_by_solver': sum(d['complete'] is True for d in results),
            'longest_path_instructions': max([d['max_path_steps'] for d in results] or [0]),
            'most_symbolic_bytes': max([d['max_vars'] for d in results] or [0]),
            'bounds': J.bounds(pid, tier), 'instance_list': [d['job'].describe() for d in results][:400],
            'functions_encoded_total': max([d['functions_total'] for d in results] or [0]),
            'functions_of_the_crate_encoded': repo_fns[:400],
            'native_runs': native.runs, 'unexplored': unexplored, 'exhaustive': not unexplored and not fatal and all(d['complete'] is True for d in results),
            'known_findings_seen': sorted(findings), 'vacuous_instances': vacuous, 'machinery_problems': fatal, 'build_s': round(tb, 1), 'engine_cpu_s': round(S('wall_s'), 1),
        },
        'assumptions': J.assumptions(pid),
        'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=False)

    print('%d paths, %d instructions, %d assertions, %d queries (%.1f s in the solver), %d/%d sampled paths agree natively, %.0f s' % (
        ev['coverage']['states'], S('instrs'), S('asserts'), S('queries'), S('solver_us') / 1e6, agreed, len(todo), time.time() - t0))
    for t in warn:
        print('WARNING: ' + t)
    for t in unexplored[:20]:
        print('WARNING: unexplored: ' + t)
    for t in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if confirmed:
        d, v, end = confirmed[0]
        rp = os.path.join(HERE, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('# %s\n# solver: %s %s\n# native run: %s\n' % (d['job'].describe(), v['kind'], v['msg'], end))
            f.write('# inputs as (tag, byte): %s\n' % v['inputs'])
            f.write('# replay: %s/build_replay.sh && tail -1 %s | %s\n' % (HERE, rp, REPLAY))
            f.write(line(d, v['inputs']) + '\n')
        for d, v, end in confirmed[:5]:
            print('  %s: %s; native: %s' % (d['job'].describe(), v['msg'][:300], end[:200]))
            print('  inputs ' + ' '.join('%d:%s' % (t, chr(b) if 33 <= b < 127 else '\\x%02x' % b) for t, b in v['inputs'][:80]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if fatal:
        for t in fatal[:20]:
            print('ERROR: ' + t)
        return 2
    print('held on everything explored')
    return 0


if __name__ == '__main__':
    sys.exit(main())
