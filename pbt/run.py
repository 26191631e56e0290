#!/usr/bin/env python3
"""Check one property:   run.py C01 [--tier quick|thorough]
Replay a failure:        run.py C01 --replay FILE
"""
import argparse
import importlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.setup()
import core  # noqa: E402


def load(pid):
    import blueqat
    where = os.path.realpath(blueqat.__file__)
    if not where.startswith(os.path.realpath(boot.REPO) + os.sep):
        print(f'HARNESS-ERROR: blueqat was imported from {where}, not from {boot.REPO}')
        sys.exit(2)
    return importlib.import_module('props.' + pid.lower())


def find_sub(prop, name):
    for s in prop.SUBTESTS:
        if s.name == name:
            return s
    print(f'HARNESS-ERROR: no subtest {name}')
    sys.exit(2)


def known_findings(pid):
    """{probe id: description} of the committed known-findings file."""
    found = {}
    with open(os.path.join(boot.VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\w+) id=(\w+) (.*)', line)
            if m and m.group(1) == pid:
                found[m.group(2)] = m.group(3).strip()
    return found


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    if rec['kind'] == 'probe':
        for probe in prop.KNOWN:
            if probe['id'] == rec['probe'] and probe['still_fails']():
                print(f'VIOLATION property={prop.ID} replay={path}')
                return 1
        print('not reproduced')
        return 0
    sub = find_sub(prop, rec['subtest'])
    if rec.get('crash'):
        if rec['kind'] == 'case':
            died = core.crashes(core.run_case, sub, rec['case'], times=3)
        else:
            died = core.crashes(core.run_shard, sub, rec['tier'], rec['seed'], rec['shard'],
                                rec['n'], rec['explicit'])
        if died:
            print('reproduced: the process died of', died)
            print(f'VIOLATION property={prop.ID} replay={path}')
            return 1
        # without the crash it has to pass, too
    if rec['kind'] == 'case':
        try:
            core.run_case(sub, rec['case'])
        except core.HarnessError as e:
            print('HARNESS-ERROR:', e)
            return 2
        except Exception as e:
            print('reproduced:', core.describe(e))
            print(f'VIOLATION property={prop.ID} replay={path}')
            return 1
        print('not reproduced: the case passes')
        return 0
    rep = core.run_shard(sub, rec['tier'], rec['seed'], rec['shard'], rec['n'], rec['explicit'])
    if rep['failure']:
        print('reproduced:', rep['failure']['description'])
        print(f'VIOLATION property={prop.ID} replay={path}')
        return 1
    print('not reproduced: the sequence of cases passes')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    args = ap.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = load(args.property)
    if args.replay:
        return replay(prop, args.replay)

    budget = 800 if tier == 'quick' else 6 * 3600
    reports, failure, errors, wall = core.run_property(prop, tier, seed, budget)

    evaluations = sum(r['evaluations'] for r in reports)
    nontrivial = {}
    labels, samples = {}, []
    for r in reports:
        nontrivial.setdefault(r['sub'], set()).update(r['nontrivial'])
        d = labels.setdefault(r['sub'], {})
        d['cases'] = d.get('cases', 0) + r['evaluations']
        for k, v in r['labels'].items():
            d[k] = d.get(k, 0) + v
    per_sub = {}
    for r in reports:
        for s in r['samples']:
            if per_sub.get(r['sub'], 0) < 2:
                per_sub[r['sub']] = per_sub.get(r['sub'], 0) + 1
                samples.append({'subtest': r['sub'], 'case': s})
    for s, v in nontrivial.items():
        labels.setdefault(s, {})['distinct_nontrivial'] = len(v)

    code = 0
    violation = None
    known = []
    listed = known_findings(prop.ID)
    for probe in getattr(prop, 'KNOWN', ()):
        if not probe['still_fails']():
            continue
        if probe['id'] in listed:
            known.append(listed[probe['id']])
            print(f"KNOWN-FINDING: property={prop.ID} {listed[probe['id']]}")
        else:
            violation = os.path.join(boot.VERIF, 'replays', f"{prop.ID}-known-{probe['id']}.json")
            core.write_json(violation, {'property': prop.ID, 'kind': 'probe', 'probe': probe['id']})
            print(f'VIOLATION property={prop.ID} replay={violation}')
            code = 1
    if failure is not None:
        f = failure['failure']
        rdir = os.path.join(boot.VERIF, 'replays')
        if f['reproduced']:
            rec = {'property': prop.ID, 'kind': 'case', 'subtest': failure['sub'],
                   'case': f['case'], 'description': f['description'],
                   'crash': bool(f.get('crash'))}
        else:
            # Only fails after other cases: state leaked between cases.  Confirm in a fresh run.
            sub = find_sub(prop, failure['sub'])
            if f.get('crash'):
                again = core.crashes(core.run_shard, sub, tier, seed, failure['shard'],
                                     failure['n'], failure['explicit'])
            else:
                import multiprocessing as mp
                with mp.get_context('fork').Pool(1) as pool:
                    again = pool.apply(core.run_shard, (_Named(prop, sub.name), tier, seed,
                                                        failure['shard'], failure['n'],
                                                        failure['explicit']))['failure']
            if again:
                rec = {'property': prop.ID, 'kind': 'sequence', 'subtest': failure['sub'],
                       'tier': tier, 'seed': seed, 'shard': failure['shard'],
                       'n': failure['n'], 'explicit': failure['explicit'],
                       'last_case': f['case'], 'description': f['description'],
                       'crash': bool(f.get('crash'))}
            else:
                rec = None
                errors.append('a failure could not be reproduced: ' + f['description'])
        if rec is not None:
            path = os.path.join(rdir, f"{prop.ID}-{failure['sub']}-{seed}.json")
            core.write_json(path, rec)
            violation = path
            print(f"{failure['sub']}: {f['description']}")
            print('case:', core.case_json(f['case'])[:3000])
            print(f'VIOLATION property={prop.ID} replay={path}')
            code = 1

    if code == 0 and errors:
        code = 2
    for e in errors:
        print('HARNESS-ERROR:', e)

    core.write_json(os.path.join(boot.VERIF, 'evidence', f'{prop.ID}.json'), {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': sum(len(v) for v in nontrivial.values()),
            'rule': prop.RULE,
            'samples': samples,
            'per_subtest': labels,
            'known_findings': known,
            'harness_errors': errors,
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    })
    print(f'{prop.ID} {tier}: {evaluations} cases, '
          f'{sum(len(v) for v in nontrivial.values())} distinct non-trivial, '
          f'{wall:.1f} s, exit {code}')
    return code


class _Named:
    """Picklable stand-in for a subtest (found again by name in the forked child)."""
    def __init__(self, prop, name):
        self._key = (prop.ID, name)

    def _sub(self):
        return find_sub(importlib.import_module('props.' + self._key[0].lower()), self._key[1])

    def __getattr__(self, a):
        if a.startswith('_'):
            raise AttributeError(a)
        return getattr(self._sub(), a)


if __name__ == '__main__':
    sys.exit(main())
