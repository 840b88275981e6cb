"""Verdicts, evidence and replay files."""
import importlib
import json
import os
import sys
import time
from . import harness
from .harness import HERE, REPO, CompileError


def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: property=%s ' % pid):])
    except FileNotFoundError:
        pass
    return out


def run(a):
    pid = a.pid
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    results = []
    src = os.path.join(HERE, 'driver', pid + '.cpp')
    extra = ()
    mod = None
    try:
        mod = importlib.import_module('sa.special.' + pid)
    except ModuleNotFoundError as e:
        if e.name not in ('sa.special.' + pid, 'sa.special'):
            raise
    try:
        if os.path.exists(src):
            extra = getattr(mod, 'FILTERS', ()) if mod else ()
            results += harness.run_obligations(pid, a.tier, seed, a.only, a.jobs, extra)
        if mod is not None and hasattr(mod, 'run'):
            results += mod.run(a.tier, seed, a.only)
    except CompileError as e:
        print('ERROR property=%s: the driver no longer compiles against the repository' % pid)
        print('\n'.join([l for l in str(e).split('\n') if 'error:' in l][:8]) or str(e)[-1500:])
        return 2
    if not results:
        print('ERROR property=%s: no obligation found' % pid)
        return 2
    kf = known(pid)
    viol = []
    n = {'PROVED': 0, 'REFUTED': 0, 'UNDECIDED': 0, 'KNOWN': 0}
    for r in results:
        if r['verdict'] == 'REFUTED':
            hit = [k for k in kf if r['name'] == k.split(' ')[0]]
            if hit:
                r['verdict'] = 'KNOWN'
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
            else:
                viol.append(r)
        n[r['verdict']] += 1
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    for i, r in enumerate(results):
        if r['verdict'] == 'UNDECIDED' or a.v:
            print('%s %s %s %s' % (r['verdict'], r['name'], r.get('why', ''), ('%ss' % r.get('wall')) if a.v else ''))
        if a.v and r['verdict'] != 'PROVED':
            for k in ('path', 'code', 'expected', 'diff', 'witness', 'tb'):
                if r.get(k):
                    print('    %s: %s' % (k, r[k]))
    for i, r in enumerate(viol):
        p = os.path.join(rdir, '%s-%d.txt' % (pid, i))
        with open(p, 'w') as f:
            f.write('property %s, obligation %s\n' % (pid, r['name']))
            f.write('repository constructs on the failing path:\n')
            for q, l in r.get('functions', []):
                f.write('  %s at %s\n' % (q, '%s:%s' % tuple(l) if l else '?'))
            for k in ('why', 'path', 'code', 'expected', 'diff', 'witness', 'detail'):
                if r.get(k):
                    f.write('%s: %s\n' % (k, json.dumps(r[k], indent=1) if isinstance(r[k], (list, dict)) else r[k]))
        loc = r.get('construct') or (r['functions'][0][0] + ' at %s:%s' % tuple(r['functions'][0][1]) if r.get('functions') and r['functions'][0][1] else r['name'])
        print('  %s: %s; construct %s; differs for %s' % (r['name'], r.get('why'), loc, r.get('witness', '')))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    fns = {}
    for r in results:
        for q, l in r.get('functions', []):
            fns['%s' % q] = '%s:%s' % tuple(l) if l else '?'
    rule = getattr(mod, 'RULE', None) or 'value-graph equality: the normal form of the code reached from each obligation\'s impl equals that of its spec for all arguments satisfying pre'
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked AST of /repo (clang) by gated value-graph abstract interpretation; rule: ' + rule +
                           '. PROVED = normal forms identical under the recorded facts; REFUTED = normal forms differ, certified by a valuation; UNDECIDED = the domain has no transfer function or cannot decide (never counted as held).',
            'obligations_total': len(results), 'proved': n['PROVED'], 'refuted': n['REFUTED'], 'undecided': n['UNDECIDED'], 'known_findings': n['KNOWN'],
            'atomic_comparisons': sum(r.get('obligations', 0) for r in results),
            'loops_summarised': sum(r.get('loops', 0) for r in results),
            'functions_analysed': fns, 'functions_analysed_count': len(fns),
            'per_obligation': [{k: r[k] for k in ('name', 'verdict', 'why', 'obligations', 'loops', 'steps', 'wall') if k in r} for r in results],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations: %d proved, %d refuted, %d undecided, %d known; %d repository functions analysed; %.1fs' % (
        pid, len(results), n['PROVED'], n['REFUTED'], n['UNDECIDED'], n['KNOWN'], len(fns), time.time() - t0))
    return 1 if viol else 0
