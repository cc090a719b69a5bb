"""command line: python3-vt -m sa.run C04 [--quick|--thorough]"""
import json
import os
import resource
import sys
import time

from .engine import Engine, PROVED, SAMPLED, REFUTED, UNDECIDED, UNREACHED, REPO
from .terms import show
from .registry import SCENARIOS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:') and f'property={pid} ' in line:
                out.append(line[len('finding:'):].strip())
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    budget = float(os.environ.get('SA_BUDGET', 400 if tier == 'quick' else 800))
    eng = Engine(pid, SCENARIOS[pid]['files'], tier, seed, budget)
    only = [a[2:] for a in argv[1:] if a.startswith('s=')]
    eng.fatal = False
    if only:
        orig = eng.setup

        def setup():
            orig()
            eng.scens = [x for x in eng.scens if any(o in x[0] for o in only)]
        eng.setup = setup
    eng.run()
    return finish(eng, t0, '-v' in argv)


def finish(eng, t0, verbose):
    pid = eng.pid
    cnt = {k: sum(1 for o in eng.obls if o.status == k) for k in (PROVED, SAMPLED, REFUTED, UNDECIDED, UNREACHED)}
    refuted = [o for o in eng.obls if o.status == REFUTED]
    kf = known(pid)
    viol, listed = [], set()
    for o in refuted:
        hit = None
        for k in kf:
            tag = k.split('key=', 1)[1].split()[0] if 'key=' in k else None
            if tag and tag == f'{o.scen}/{o.what}'.replace(' ', '_'):
                hit = k
        if hit:
            listed.add(hit)
        else:
            viol.append(o)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join('evidence', f'{pid}.violation.txt')
    scen = {}
    for o in eng.obls:
        d = scen.setdefault(o.scen, {PROVED: 0, SAMPLED: 0, REFUTED: 0, UNDECIDED: 0, UNREACHED: 0})
        d[o.status] += 1
    fns = sorted({f'{os.path.relpath(p, REPO)}:{q}' for p, q in getattr(getattr(eng, 'I', None), 'analysed', ()) if p.startswith(REPO)})
    und = {}
    for o in eng.obls:
        if o.status == UNDECIDED or o.status == UNREACHED and verbose:
            k = f'{o.scen}: {o.what}: {o.detail}'[:300]
            und[k] = und.get(k, 0) + 1
    samples = []
    for o in eng.obls[:: max(1, len(eng.obls) // 12)][:12]:
        samples.append({'scenario': o.scen, 'obligation': o.what, 'status': o.status, 'returned_from': o.site,
                        'path': [f'{eng.where(s)} {"" if v else "not "}{show(t, 3)[:100]}' for t, v, s in o.trace[-6:]]})
    ev = {
        'property': pid, 'tier': eng.tier, 'seed': eng.seed, 'level': 'other',
        'coverage': {
            'explanation': 'abstract interpretation of the current source with value numbering: every obligation compares two value numbers, or an aliasing/'
                           'protection/effect fact, on one partition of the traces through the functions listed. proved = equal canonical forms or decided fact; '
                           'sampled = canonical forms differ but random interpretation of the value numbers finds no difference; undecided = nothing claimed; unreached = undecided on a partition that no sample interpretation enters (mostly infeasible paths), nothing claimed.',
            'rule': SCENARIOS[pid]['rule'], 'obligations': len(eng.obls), 'discharged': cnt[PROVED] + cnt[SAMPLED], 'by_canonical_form': cnt[PROVED],
            'by_random_interpretation': cnt[SAMPLED], 'refuted': cnt[REFUTED], 'undecided': cnt[UNDECIDED], 'unreached': cnt[UNREACHED], 'trace_partitions': eng.paths,
            'interpretations_per_scenario': eng.npool, 'scenarios': scen, 'functions_analysed': fns,
            'path_endings': {f'{a}/{b}': n for (a, b), n in sorted(eng.pathlog.items())},
            'not_explored': [{'scenario': a, 'pending_prefixes': b, 'pending_unconfirmed_prefixes': c} for a, b, c in eng.cut], 'undecided_obligations': und, 'samples': samples,
            'problems': eng.problems},
        'assumptions': SCENARIOS[pid].get('assumptions', []) + [
            'numpy, scipy and the standard library behave as their documentation says (modelled by hand or evaluated on sample interpretations)',
            'comparisons ignore NaN except where a scenario is about it; conversion to float32 and wrapping of narrow integers are modelled, other rounding is not'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {len(eng.obls)} obligations on {eng.paths} trace partitions, {len(fns)} functions: {cnt[PROVED]} proved, {cnt[SAMPLED]} by random '
          f'interpretation, {cnt[UNDECIDED]} undecided, {cnt[UNREACHED]} unreached, {cnt[REFUTED]} refuted ({time.time() - t0:.1f} s)')
    if verbose:
        for s, d in scen.items():
            print('  ', s, d)
    for k, n in list(und.items())[:40 if verbose else 6]:
        print(f'  undecided x{n}: {k[:260]}')
    for a, b, c in eng.cut:
        if b or verbose:
            print(f'  not explored: {a} ({b} prefixes left, {c} unconfirmed)')
    for p in eng.problems:
        print('  problem:', p)
    for k in sorted(listed):
        print(f'KNOWN-FINDING: {k}')
    if viol:
        with open(os.path.join(ROOT, replay), 'w') as f:
            seen = set()
            for o in viol:
                key = (o.scen, o.what)
                if key in seen:
                    continue
                seen.add(key)
                txt = [f'property {pid}  scenario {o.scen}', f'obligation: {o.what}', f'violated: {o.detail}', f'last return: {o.site}',
                       'path:'] + [f'   {eng.where(s)}: {"" if v else "not "}{show(t, 4)[:300]}' for t, v, s in o.trace] + [f'choices: {o.choices}', f'witness interpretation: {o.witness}', '']
                f.write('\n'.join(txt) + '\n')
                if len(seen) <= 4:
                    print('\n'.join('  ' + x for x in txt))
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if getattr(eng, 'fatal', False) or (not eng.obls):
        print(f'{pid}: nothing could be analysed')
        if getattr(eng, 'fatal', False):
            print(f'VIOLATION property={pid} replay={replay}')
            with open(os.path.join(ROOT, replay), 'w') as f:
                f.write('\n'.join(eng.problems))
            return 1
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
