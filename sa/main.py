"""check <property> : decide one property on the current tree of /repo."""
import json
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


def known():
    """committed findings: {(property, key)} for open ones"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, _, key = l[len('finding: property='):].partition(' ')
                out.setdefault(pid, []).append(key.strip())
    return out


LIMIT = {'quick': 600, 'thorough': 840}      # a verdict in any case before a check's 900 s


def rules():
    import rules_vec
    mods = [rules_vec]
    for n in ('rules_iter', 'rules_cap', 'rules_arith', 'rules_conv', 'rules_traits', 'rules_bulk', 'rules_emp', 'rules_macro', 'rules_build'):
        try:
            mods.append(__import__(n))
        except ModuleNotFoundError as e:
            if e.name != n:
                raise
    r = {}
    for m in mods:
        for k, v in vars(m).items():
            if len(k) == 3 and k[0] == 'C' and k[1:].isdigit() and callable(v):
                r.setdefault(k, []).append(v)
    return r


def run(pid, tier, seed):
    from lab import Lab, BuildFailed
    from base import Report
    t0 = time.time()
    cache = os.environ.get('SA_MIR')          # development: ready dumps
    fs = rules()[pid]
    need = any(getattr(f, 'needs_mir', True) for f in fs)
    lab = None
    if need:
        try:
            lab = Lab(cache=cache)
        except BuildFailed as e:
            print('the tree does not build:\n%s' % e)
            ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2),
                      coverage=dict(explanation='the tree does not build; nothing was analysed', functions_analysed=0),
                      violations=[])
            write(pid, ev)
            return 1, [('the current tree', 'does not build: %s' % str(e)[-1500:])]
    R = Report(pid, tier, seed, lab)
    R.extra = {}
    R.level = 'other'
    CUR.append((R, t0))
    for f in fs:
        try:
            f(R)
        except Exception:
            # an internal error of the analysis is not a verdict about the code
            R.obl += 1
            R.undecided(f.__module__ + '.' + pid, 'analysis error: ' + traceback.format_exc(limit=-3))
    return verdict(R, t0)


CUR = []


def verdict(R, t0):
    pid, tier, seed = R.pid, R.tier, R.seed
    if R.decided == 0:
        print('UNDECIDED: no obligation of this property could be decided on this tree')
    kn = known().get(pid, [])
    viol = []
    for k, ex in sorted(R.viol.items()):
        hit = [x for x in kn if k.startswith(x)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        else:
            viol.append((k, ex))
    cov = dict(
        explanation='obligations decided over the value graph of the crate\'s MIR (see DESIGN.md); counts are of this run',
        obligations=R.obl, obligations_decided=R.decided, obligations_undecided=R.obl - R.decided,
        functions_analysed=len(R.functions), bodies_inlined=R.inlined, blocks_visited=R.blocks,
        call_sites_resolved=R.calls, loops=R.loops, valuations=R.vals,
        outcomes=R.outcomes)
    cov.update(R.extra)
    cov['rule'] = RULE.get(pid, RULE_MIR)
    if R.list:
        cov['obligation_list'] = R.list
    if R.und:
        cov['undecided'] = ['%s: %s' % (k, v[:200]) for k, v in sorted(R.und.items())][:40]
    if R.samples:
        cov['samples'] = R.samples
    if R.functions:
        cov['functions'] = sorted(R.functions)[:400]
    ev = dict(property=pid, tier=tier, seed=seed, level=R.level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=ASSUME, violations=[dict(construct=k, example=str(ex)[:2000]) for k, ex in viol])
    write(pid, ev)
    for k, v in sorted(R.und.items())[:20]:
        print('undecided: %s: %s' % (k, v[:300].replace('\n', ' | ')))
    for nn in R.notes[:20]:
        print('note: %s' % nn)
    print('%s %s: %d obligations, %d decided, %d functions, %.1f s' % (pid, tier, R.obl, R.decided, len(R.functions), time.time() - t0))
    return (1 if viol else 0), viol


RULE_MIR = ('every valuation of the free atoms (contents, sizes, alignments, metadata, failures and panics of user code and of the '
            'allocator) on which the value graph of the operation differs from the specification of the property is a violation')
RULE = {'C20': 'a program of a forbidden shape must be rejected with an error of the expected kind, its permitted twin accepted',
        'C21': 'each feature combination must build, offer its items, and link no more of the standard library than it promises'}
ASSUME = ['transfer functions of the standard library as written in sa/stdmodel.py',
          'the MIR printed by the pinned compiler is the program (no debug assertions, overflow checks off)',
          'the 64-bit target of the sandbox']


def write(pid, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def args():
    pid = sys.argv[1]
    tier = 'quick'
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return pid, tier, seed


def main():
    return show(args()[0], *run(*args()))


def show(pid, code, viol):
    if viol:
        d = os.path.join(VERIF, 'evidence')
        rp = os.path.join(d, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, ex in viol:
                f.write('%s\n    %s\n' % (k, ex))
        for k, ex in viol[:12]:
            print('  %s\n      %s' % (k, str(ex)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    return code


if __name__ == '__main__':
    sys.setrecursionlimit(400000)
    threading.stack_size(1 << 30)
    res = []

    def go():
        try:
            res.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(LIMIT[args()[1]])
    if not res and CUR:
        # out of time, or an internal error: the verdict is over what was decided so far
        R, t0 = CUR[0]
        R.obl += 1
        R.undecided('rest', 'time limit reached' if th.is_alive() else 'analysis error')
        res.append(show(R.pid, *verdict(R, t0)))
    sys.stdout.flush()
    if not res:
        pid = args()[0]
        print('VIOLATION property=%s replay=%s' % (pid, 'none: the analysis could not start'))
        sys.stdout.flush()
    os._exit(res[0] if res else 1)
