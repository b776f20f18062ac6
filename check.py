#!/opt/veriftools/pyvenv/bin/python
"""Run the check of one property.

  python3-vt check.py C01 [--tier quick|thorough] [--budget S] [--verbose]
  python3-vt check.py --replay FILE      re-run a recorded counterexample
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symex import core, driver, shim  # noqa: E402

EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    d = json.loads(line)
                    if d['property'] == prop and d['kind'] == 'known':
                        out.append(d)
    return out


def matches(entry, params, values, msg):
    m = entry['match']
    if 'template' in m and m['template'] != params.get('name'):
        return False
    if 'values' in m:
        for k, v in m['values'].items():
            x = values.get(k)
            if isinstance(v, list):
                if not v[0] <= x <= v[1] if isinstance(x, int) else x not in v:
                    return False
            elif x != v:
                return False
    if 'message' in m and m['message'] not in msg:
        return False
    return True


def replay(path):
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    r = driver.concrete([d['job']])[0]
    print(r[0], r[1])
    print('input:', r[2] if len(r) > 2 else '')
    return 1 if r[0] == 'bad' else 0


def repo_functions(mods):
    """names of the encoded source files with the number of functions"""
    import ast
    out = []
    for name, path in sorted(shim.LOADED.items()):
        if not name.startswith('cmakelang'):
            continue
        with open(path, encoding='utf-8') as f:
            t = ast.parse(f.read())
        n = sum(isinstance(x, ast.FunctionDef) for x in ast.walk(t))
        out.append('%s (%d functions)' % (name, n))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    t0 = time.time()
    prop = args.prop.upper()
    modname = 'harness.' + prop.lower()
    mod = shim.mod(modname)
    tasks = []
    for i, t in enumerate(mod.tasks(args.tier)):
        name = t['name']
        if args.only and args.only not in name:
            continue
        t.setdefault('params', {})['name'] = name
        tasks.append({'id': name, 'module': t.get('module', modname),
                      'params': t['params'], 'weight': t.get('weight', 1.0),
                      'bounds': t.get('bounds', ''),
                      'max_branches': t.get('max_branches', 4000)})
    for m in sorted(set(t['module'] for t in tasks)):
        shim.mod(m)
    if hasattr(mod, 'warm'):
        try:
            mod.warm()
        except Exception as ex:      # what it warms up may be what is broken
            print('warm: %s' % ex)
    budget = args.budget or getattr(mod, 'BUDGET', {}).get(
        args.tier, 40.0 if args.tier == 'quick' else 600.0)
    runner = driver.Runner()
    acc = runner.run(tasks, t0 + budget, verbose=args.verbose,
                     samples_per_task=getattr(mod, 'SAMPLES', 6))

    # ---- replay candidates and samples on the real code
    jobs = []
    for t in tasks:
        a = acc[t['id']]
        seen = set()
        for vals, msg, tb in a['bad']:
            key = json.dumps(vals, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            jobs.append(('bad', t, vals, msg, tb))
        for vals, obs in a['samples']:
            jobs.append(('sample', t, vals, obs, ''))
        for vals in a['limit_vals'][:10]:
            jobs.append(('limit', t, vals, None, ''))
    res = driver.concrete([{'module': j[1]['module'], 'params': j[1]['params'],
                            'values': j[2]} for j in jobs])
    known = load_known(prop)
    hits, violations, spurious, mismatch, validated = {}, [], [], [], 0
    for j, r in zip(jobs, res):
        kind, t, vals, exp, tb = j
        if r[0] == 'bad':
            msg = r[1]
            for k in known:
                if matches(k, t['params'], vals, msg):
                    hits[k['id']] = k
                    break
            else:
                violations.append((t, vals, msg, r[2] if len(r) > 2 else ''))
            if kind != 'bad' and kind != 'limit':
                mismatch.append((t['id'], vals, 'engine ok, real code bad', msg))
        elif r[0] == 'error':
            spurious.append((t['id'], vals, r[1], tb))
        elif kind == 'bad':
            spurious.append((t['id'], vals, exp, tb))
        elif kind == 'sample':
            if r[0] == 'ok' and r[1] == exp:
                validated += 1
            else:
                mismatch.append((t['id'], vals, exp, r[:2]))
    # ---- report
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    rp = os.path.join(EVID, 'replay')
    for f in os.listdir(rp):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rp, f))
    vlist = []
    for i, (t, vals, msg, shown) in enumerate(violations[:10]):
        path = os.path.join(rp, '%s-%d.json' % (prop, i))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'message': msg, 'input': shown,
                       'job': {'module': t['module'], 'params': t['params'],
                               'values': vals}}, f, indent=1)
        vlist.append({'replay': path, 'message': msg[:2000], 'template': t['id'],
                      'input': shown[:2000]})
        print('VIOLATION property=%s replay=%s' % (prop, path))
        if i < 3:
            print('  template %s: %s' % (t['id'], msg.strip()[:800]))
            print('  input: %s' % shown[:800])
    for k in known:
        # a listed finding is reported whether or not this run's exploration
        # reached it: its recorded input is re-run against the real code
        if k['id'] not in hits and 'job' in k:
            r = driver.concrete([k['job']])[0]
            if r[0] == 'bad':
                hits[k['id']] = k
    for k in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (prop, hits[k]['text']))
    tot = {k: sum(a[k] for a in acc.values()) for k in (
        'ok', 'paths', 'branches', 'queries', 'solver_s', 'lossy', 'unknown',
        'forced', 'quick_sat', 'quick_unsat', 'asserts', 'aborts', 'left', 'skips', 'exc')}
    limits = {}
    errors = []
    for tid, a in acc.items():
        for k, v in a['limits'].items():
            limits[k] = limits.get(k, 0) + v
        errors += ['%s: %s' % (tid, e) for e in a['errors']]
    vac = [t['id'] for t in tasks if not acc[t['id']]['asserts'] and
           not acc[t['id']]['bad']]
    wall = time.time() - t0
    bound_text = getattr(mod, 'BOUNDS', '')
    bound_text += ('; ' if bound_text else '') + (
        'per template: see coverage.templates; outside: longer stretches of unknown '
        'text than stated there, and characters not among the 142 of the alphabet '
        '(ASCII and representatives of the other classes that str, re and the '
        'encodings distinguish)')
    samples = []
    for t in tasks:
        for vals, obs in acc[t['id']]['samples'][:1]:
            samples.append({'template': t['id'], 'input': vals,
                            'observed': str(obs)[:300]})
    ev = {
        'property': prop, 'tier': args.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking', 'wall_s': round(wall, 2),
        'coverage': {
            'states': tot['branches'] + tot['paths'],
            'transitions': tot['branches'],
            'paths': tot['paths'], 'paths_checked': tot['ok'],
            'assertions_discharged': tot['asserts'],
            'queries': tot['queries'],
            'solver_time_s': round(tot['solver_s'], 2),
            'branches_forced_by_solver': tot['forced'],
            'infeasible_by_linear_implication': tot['quick_unsat'],
            'feasible_by_earlier_model': tot['quick_sat'],
            'solver_unknown': tot['unknown'],
            'paths_outside_precondition': tot['skips'],
            'infeasible_paths_cut': tot['aborts'],
            'unfinished_prefixes': tot['left'],
            'paths_not_encoded': limits,
            'lossy_concretisations': tot['lossy'],
            'traces_validated_against_impl': validated,
            'samples': samples[:20],
            'exhaustive_within_bounds': bool(tasks) and all(
                a['exhaustive'] and not a['limits'] and not a['lossy']
                for a in acc.values()),
            'templates': [{
                'name': t['id'], 'bounds': t['bounds'],
                'paths': acc[t['id']]['paths'],
                'assertions': acc[t['id']]['asserts'],
                'solver_queries': acc[t['id']]['queries'],
                'solver_s': round(acc[t['id']]['solver_s'], 2),
                'exhaustive': acc[t['id']]['exhaustive'],
                'reachable_assertion': acc[t['id']]['asserts'] > 0,
            } for t in tasks],
            'functions_encoded': getattr(mod, 'FUNCTIONS', []),
            'modules_encoded': repo_functions(None),
            'bounds': bound_text,
            'engine_mismatches': [str(x)[:600] for x in mismatch[:5]],
            'not_reproduced': [str(x)[:600] for x in spurious[:5]],
            'vacuous_templates': vac,
            'worker_errors': errors[:5],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': vlist,
    }
    with open(os.path.join(EVID, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s %s: %d templates, %d paths, %d assertions, %d solver queries '
          '(%.1f s), %d traces validated, exhaustive=%s, %.1f s' % (
              prop, args.tier, len(tasks), tot['paths'], tot['asserts'],
              tot['queries'], tot['solver_s'], validated,
              ev['coverage']['exhaustive_within_bounds'], wall))
    if args.verbose:
        for t in tasks:
            a = acc[t['id']]
            print('  %-40s paths %6d ok %6d skip %5d exc %3d asserts %7d left %5d '
                  'limits %s lossy %d %.1fs %s' % (
                      t['id'][:40], a['paths'], a['ok'], a['skips'], a['exc'],
                      a['asserts'], a['left'], a['limits'], a['lossy'],
                      a['time'], 'exh' if a['exhaustive'] else ''))
            if a['lossy_sites']:
                print('     lossy', a['lossy_sites'])
    if errors or mismatch or spurious or vac:
        print('inconclusive: %d worker errors, %d engine mismatches, %d '
              'candidates not reproduced, %d vacuous templates' % (
                  len(errors), len(mismatch), len(spurious), len(vac)))
        if args.verbose:
            for e in errors[:3]:
                print('ERR', e)
            one = {}
            for m in mismatch:
                one.setdefault(m[0], m)
            for m in list(one.values())[:60]:
                print('MISMATCH', str(m)[:1500])
            for m in spurious[:5]:
                print('SPURIOUS', str(m[:3])[:800])
                print(m[3][-1500:])
            print('VACUOUS', vac)
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
