"""Runs one property's check: proof tasks from /repo's current source, plus the run-time contract check on the real code."""
import importlib
import json
import os
import subprocess
import sys
import threading
import time

from . import build
from . import session as S

VERIF = build.VERIF


def known_findings(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key = rest.split(' ', 1)[0]
                assert key.startswith('key=')
                out.append((key[4:], rest.split(' ', 1)[1] if ' ' in rest else ''))
    return out


class Native:
    """a harness main compiled with /repo's sources; prints FAIL<TAB>key<TAB>description lines and a DONE line"""

    def __init__(self, name, sources, main=None, san=False, args=(), timeout=600, opt='-O1', ms_quick=15000, ms_thorough=200000, raw=None, extra=(), tasks=None):
        self.name, self.sources, self.san, self.args = name, sources, san, list(args)
        self.main = main or VERIF + '/native/%s.cc' % name
        self.timeout, self.opt, self.ms_quick, self.ms_thorough = timeout, opt, ms_quick, ms_thorough
        self.raw = raw
        self.extra = extra
        self.tasks = tasks

    def execute(self, seed, tier, scale=1.0):
        t0 = time.time()
        res = dict(name=self.name, fails=[], cases=0, distinct=0, error=None, samples=[], bounds='')
        try:
            exe = build.native(self.name, self.sources, self.main, san=self.san, opt=self.opt, extra=self.extra, tasks=self.tasks)
        except (build.ExportError, subprocess.TimeoutExpired) as e:
            res['error'] = str(e)[-1500:]
            res['s'] = time.time() - t0
            return res
        res['build_s'] = round(time.time() - t0, 1)
        ms = int((self.ms_quick if tier == 'quick' else self.ms_thorough) * scale)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0', OMP_NUM_THREADS='4')
        cmd = [exe, '--seed', str(seed), '--ms', str(ms)] + self.args
        res['cmd'] = ' '.join(cmd)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=ms / 1000 * 2 + 60, env=env)
        except subprocess.TimeoutExpired as e:
            out = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            cur = ''
            for l in out.splitlines():
                if l.startswith('CASE\t'):
                    cur = l[5:]
            res['fails'].append(('hang', 'the real code did not return (last case: %s)' % cur))
            res['s'] = time.time() - t0
            return res
        done = False
        cur = ''
        for l in p.stdout.splitlines():
            f = l.split('\t')
            if f[0] == 'FAIL':
                res['fails'].append((f[1], '\t'.join(f[2:])))
            elif f[0] == 'DONE':
                done = True
                for kv in f[1:]:
                    k, v = kv.split('=', 1)
                    if k in ('cases', 'distinct'):
                        res[k] = int(v)
            elif f[0] == 'SAMPLE':
                if len(res['samples']) < 8:
                    res['samples'].append('\t'.join(f[1:]))
            elif f[0] == 'CASE':
                cur = '\t'.join(f[1:])
        if not done:
            err = '\n'.join(x for x in p.stderr.splitlines() if 'rror' in x or 'what' in x)[:800]
            key = 'crash'
            if cur:
                key = 'crash:' + cur.split(' ')[0].split('\t')[0]
            res['fails'].append((key, 'the real code crashed (exit %s) in case: %s; %s' % (p.returncode, cur, err)))
        elif p.stderr and 'runtime error:' in p.stderr:
            line = next(x for x in p.stderr.splitlines() if 'runtime error:' in x)
            res['fails'].append(('ub', line[:500]))
        res['s'] = round(time.time() - t0, 1)
        return res


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    verbose = '-v' in argv
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    nonative = '--no-native' in argv
    t0 = time.time()
    mod = importlib.import_module('spuv.props.' + prop)
    natives = [] if nonative else list(mod.natives(tier)) if hasattr(mod, 'natives') else []
    nres = [None] * len(natives)

    def run_native(i):
        try:
            nres[i] = natives[i].execute(seed, tier)
        except Exception as e:
            nres[i] = dict(name=natives[i].name, fails=[], cases=0, distinct=0, error=repr(e), samples=[])
    build.gen()
    threads = []
    for i in range(len(natives)):
        th = threading.Thread(target=run_native, args=(i,))
        th.start()
        threads.append(th)

    tasks, terr = [], None
    try:
        tasks = mod.tasks(tier) if hasattr(mod, 'tasks') else []
    except (build.ExportError, S.Unsupported) as e:
        terr = str(e)[-1500:]
    if only:
        tasks = [t for t in tasks if only in t.name]
    results = S.run_tasks(tasks, jobs=8, timeout=getattr(mod, 'TASK_TIMEOUT', 150) * (4 if tier == 'thorough' else 1)) if tasks else []
    for th in threads:
        th.join()

    obl = [(r, o) for r in results for o in r['obls'] if not r['bounded']]
    total = len(obl)
    good = sum(1 for _, o in obl if o['status'] == 'proved')
    every = [o for r in results for o in r['obls']]
    refuted = [o for o in every if o['status'] == 'refuted']
    undecided = [o for o in every if o['status'] in ('unknown', 'unsupported')]
    bobl = [o for r in results for o in r['obls'] if r['bounded']]
    known = known_findings(prop)
    hit = {}

    def is_known(key):
        for k, d in known:
            if k == key:
                hit[k] = d
                return True
        return False
    fails = []
    for r in nres:
        for key, d in r['fails']:
            if not is_known('%s:%s' % (r['name'], key)):
                fails.append((r['name'], key, d, r.get('cmd', '')))
    bad = [o for o in refuted if not is_known('%s:%s' % (o['fn'], o['name']))]
    # a refuted or undecided obligation without a failing run: look longer on the real code
    if (bad or undecided or terr) and not fails and natives:
        for i in range(len(natives)):
            if nres[i]['error'] is None:
                r2 = natives[i].execute(seed + 1000003, tier, 2.0)
                for key, d in r2['fails']:
                    if not is_known('%s:%s' % (r2['name'], key)):
                        fails.append((r2['name'], key, d, r2.get('cmd', '')))
    rep = VERIF + '/evidence/replay_%s.json' % prop
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    code = 0
    lines = []
    if fails or bad:
        code = 1
        with open(rep, 'w') as f:
            json.dump(dict(property=prop,
                           failing_runs=[dict(harness=a, key=b, failing_input=c, rerun=d) for a, b, c, d in fails[:20]],
                           failed_obligations=[dict(function=o['fn'], obligation=o['name'], backend=o['backend'], detail=o['info'], counterexample=o['model']) for o in bad[:40]],
                           how_to_replay='run the command in "rerun" after ./check %s has built it; it recomputes the failing input from the seed' % prop), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if fails else ' no-failing-input-found'))
    for k, d in known:
        if k in hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, d or k))

    # evidence
    fns = {}
    for r in results:
        e = fns.setdefault(r['task'], dict(obligations=0, discharged=0, seconds=0.0))
        e['obligations'] += len(r['obls'])
        e['discharged'] += sum(1 for o in r['obls'] if o['status'] == 'proved')
        e['seconds'] = round(e['seconds'] + r['s'], 2)
        if r['bounded']:
            e['bounded'] = r['bounded']
    backends = {}
    solver_ms = 0.0
    for _, o in obl:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
        solver_ms += o['ms']
    lib = {}
    ctr = {}
    for r in results:
        for k, v in r['builtins'].items():
            lib[k] = lib.get(k, 0) + v
        for k, v in r['contracts'].items():
            ctr[k] = ctr.get(k, 0) + v
    executed = sorted({f for r in results for f in r['executed']})
    if os.environ.get('SPUV_EXEC'):
        open(os.environ['SPUV_EXEC'], 'w').write('\n'.join(map(str, executed)))
    base = ['clang 18 front end and /verif/exporter (AST to JSON)', '/verif/spuv symbolic executor, term normaliser and loop-induction rule', 'z3 / cvc5',
            '/verif/shim: declarations of the absent dependencies (yacl, spdlog, magic_enum, ...)',
            'standard-library and shim models used: ' + ', '.join(sorted(lib))[:3000]]
    base += list(getattr(mod, 'TRUSTED', []))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(obligations=total, discharged=good, checker_cmd='./check %s --tier %s' % (prop, tier), trusted_base=base,
                            functions_under_contract=fns, functions_executed_from_source=len(executed), callee_contracts_used=ctr,
                            by_backend=backends, solver_s=round(solver_ms / 1000, 1),
                            undischarged=[dict(fn=o['fn'], name=o['name'], status=o['status'], info=o['info'][:400]) for o in (refuted + undecided)[:60]],
                            bounded_tasks=[dict(fn=r['task'], bound=r['bounded'], obligations=len(r['obls']), ok=sum(1 for o in r['obls'] if o['status'] == 'proved')) for r in results if r['bounded']],
                            runtime_contract_check=[dict(harness=r['name'], evaluations=r['cases'], distinct_nontrivial=r['distinct'], error=r['error'], samples=r['samples'], seconds=r.get('s')) for r in nres],
                            export_error=terr),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 1), violations=len(fails) + len(bad))
    if bobl:
        ev['coverage']['bounded_obligations'] = len(bobl)
        ev['coverage']['bounded_discharged'] = sum(o['status'] == 'proved' for o in bobl)
    if hasattr(mod, 'EXPLANATION'):
        ev['coverage']['explanation'] = mod.EXPLANATION
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    if verbose or fails or bad or undecided or terr:
        for o in refuted + undecided:
            print('  [%s] %s :: %s (%s) %s %s' % (o['status'], o['fn'], o['name'], o['backend'], o['info'][:400 if not verbose else 1500], str(o['model'])[:300] if o['model'] else ''))
        if terr:
            print('  export: ' + terr)
    for r in nres:
        if r['error']:
            print('  native %s: not run: %s' % (r['name'], r['error'][:600]))
        for k, d in r['fails'][:10]:
            print('  native %s: %s: %s' % (r['name'], k, d[:400]))
        if verbose:
            print('  native %s: cases=%d distinct=%d %ss' % (r['name'], r['cases'], r['distinct'], r.get('s')))
    if verbose:
        for r in sorted(results, key=lambda r: -r['s'])[:12]:
            print('   %.1fs %s (%d obligations)' % (r['s'], r['task'], len(r['obls'])))
    print('%s: %d/%d obligations discharged%s, %d functions under contract, native cases %d, %.1fs' % (prop, good, total, ', %d/%d bounded' % (sum(o['status'] == 'proved' for o in bobl), len(bobl)) if bobl else '', len(fns), sum(r['cases'] for r in nres), time.time() - t0))
    for l in lines:
        print(l)
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
