"""Rules decided by the type checker itself: witness programs (C20), feature combinations (C21)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile
from lab import REPO, VERIF, cargo_env

WIT = os.path.join(VERIF, 'witness')
FORBID = {'E0432', 'E0433', 'E0425', 'E0412', 'E0463', 'E0460', 'E0405'}      # a name is gone: no verdict on the shape


def cargo(args, env, cwd=REPO):
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')


def cases(path):
    out, cur = [], None
    for l in open(path):
        m = re.match(r'//! == (.*)', l)
        if m:
            cur = (m.group(1).strip(), [])
            out.append(cur)
        elif cur is not None:
            cur[1].append(l.rstrip('\n'))
    pre = '\n'.join(out[0][1]) + '\n'
    res = []
    for name, ls in out[1:]:
        bad = [l for l in ls if not l.rstrip().endswith('//+')]
        good = [l for l in ls if not l.rstrip().endswith('//-')]
        res.append((name, pre + '\n'.join(bad), pre + '\n'.join(good)))
    return res


def deps(target, features):
    """rmeta files of both crates; None when they do not build"""
    env = cargo_env(target)
    rc, out, err = cargo(['check', '-p', 'unsized-vec', '-p', 'emplacable', '--lib', '--offline', '--message-format=json'] + features, env)
    libs = {}
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                if f.endswith('.rmeta'):
                    libs[m['target']['name']] = f
    return rc, libs, err, env


def compile_(src, libs, env, d, name):
    p = os.path.join(d, name + '.rs')
    with open(p, 'w') as f:
        f.write(src)
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-Awarnings',
           '-Csymbol-mangling-version=v0', '-o', os.path.join(d, name + '.rmeta'), p]
    for k, v in libs.items():
        cmd += ['--extern', '%s=%s' % (k, v), '-L', 'dependency=' + os.path.dirname(v)]
    r = subprocess.run(cmd, env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    codes, msgs = [], []
    for l in r.stderr.decode(errors='replace').splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting'):
            codes.append((m.get('code') or {}).get('code') or '-')
            msgs.append(m['message'])
    return r.returncode, codes, msgs, r.stderr.decode(errors='replace')


def C20(R):
    d = tempfile.mkdtemp(prefix='sa-w-')
    try:
        rc, libs, err, env = deps(d, ['--all-features'])
        libs = {k: v for k, v in libs.items() if k in ('unsized_vec', 'emplacable')}
        if rc or len(libs) != 2:
            R.obl += 1
            R.violate('the libraries', 'do not build', err[-1500:])
            return
        cs = cases(os.path.join(WIT, 'shapes.rs'))
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for i, (name, bad, good) in enumerate(cs):
                jobs.append((name, bad, ex.submit(compile_, bad, libs, env, d, 'b%d' % i), ex.submit(compile_, good, libs, env, d, 'g%d' % i)))
            with open(os.path.join(WIT, 'witness_user.rs')) as f:
                user = f.read()
            uj = ex.submit(compile_, user, libs, env, d, 'user')
        kinds = {}
        for name, bad, b, g in jobs:
            R.obl += 1
            rb, cb, mb, eb = b.result()
            rg, cg, mg, eg = g.result()
            if rg != 0:
                if 'panicked' in eg and not cg:
                    R.undecided(name, 'the compiler fails on the twin')
                    continue
                R.violate(name, 'the correct program of this shape is rejected', '%s %s' % (cg, mg))
                R.decided += 1
                continue
            R.decided += 1
            if rb == 0:
                R.violate(name, 'the program compiles', bad[bad.index('fn used'):])
            elif not cb:
                R.undecided(name, 'the compiler fails without an error: ' + eb[-200:])
                R.decided -= 1
            elif set(cb) & FORBID:
                R.undecided(name, 'rejected for another reason: %s' % mb[:2])
                R.decided -= 1
            for x in cb:
                kinds[x] = kinds.get(x, 0) + 1
        R.obl += 1
        ru, cu, mu, eu = uj.result()
        if ru:
            R.violate('the macros', 'a correct use is rejected', '%s %s' % (cu, mu))
        R.decided += 1
        R.extra.update(programs=2 * len(cs) + 1, rejections_by_code=kinds)
    finally:
        shutil.rmtree(d, ignore_errors=True)


C20.needs_mir = False


# ------------------------------------------------------------------ feature combinations (C21)
def subsets(l):
    out = [[]]
    for x in l:
        out += [s + [x] for s in out]
    return sorted(out, key=lambda s: (len(s), s))


def links(rmeta, env):
    """the crates the compiler recorded as dependencies of a library"""
    r = subprocess.run(['rustc', '-Zls=root', rmeta], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = r.stdout.decode(errors='replace')
    return set(re.findall(r'^\d+ ([A-Za-z0-9_]+)-[0-9a-f]+ hash', out, re.M)) if '=External Dependencies=' in out else None


def C21(R):
    d = tempfile.mkdtemp(prefix='sa-f-')
    try:
        env = cargo_env(os.path.join(d, 't'))
        rc, out, err = cargo(['metadata', '--offline', '--no-deps', '--format-version=1'], env)
        if rc:
            R.obl += 1
            R.violate('the manifests', 'cannot be read', err[-1500:])
            return
        pk = {p['name']: p for p in json.loads(out)['packages']}
        probes = cases(os.path.join(WIT, 'features.rs'))
        combos = []
        for name, advertised in (('emplacable', ['alloc', 'std']), ('unsized-vec', ['serde'])):
            R.obl += 1
            if name not in pk:
                R.violate(name, 'the crate is missing')
                continue
            fs = sorted(set(pk[name]['features']) - {'default'})
            lost = [x for x in advertised if x not in fs]
            if lost:
                R.violate(name, 'feature %s is missing' % ', '.join(lost))
            R.decided += 1
            for s in subsets(fs[:6]):
                combos.append((name, s, ['--no-default-features'] + (['--features', ','.join(s)] if s else [])))
            combos.append((name, None, []))
        extra = {'emplacable': ['alloc'] if 'unsized-vec' in pk else []}
        modes = [[], ['--release']]
        jobs = []
        lint = []

        def one(k, name, s, fl, mode):
            e = dict(env, CARGO_TARGET_DIR=os.path.join(d, 't%d%s' % (k, 'r' if mode else '')))
            rc, out, err = cargo(['check', '-p', name, '--lib', '--offline', '--message-format=json'] + fl + mode, e)
            libs, feats, why = {}, {}, []
            for l in out.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-artifact':
                    feats[m['target']['name']] = m.get('features', [])
                    for f in m['filenames']:
                        if f.endswith('.rmeta'):
                            libs[m['target']['name']] = f
                elif m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                    why.append(m['message'].get('rendered') or m['message']['message'])
            return rc, libs, feats, '\n'.join(why) or err

        with cf.ThreadPoolExecutor(6) as ex:
            for k, (name, s, fl) in enumerate(combos):
                for mode in modes:
                    jobs.append((k, name, s, mode, ex.submit(one, k, name, s, fl, mode)))
            done = [(k, n, s, mode, j.result()) for k, n, s, mode, j in jobs]
        built = 0
        todo = []
        for k, name, s, mode, (rc, libs, feats, why) in done:
            label = '%s with %s%s' % (name, 'default features' if s is None else 'features {%s}' % ', '.join(s), ' (release)' if mode else '')
            R.obl += 1
            R.decided += 1
            me = name.replace('-', '_')
            if rc or me not in libs:
                R.violate(label, 'does not build', why[-1500:])
                continue
            built += 1
            if mode:
                continue
            on = set(feats.get(me, []))
            R.obl += 1
            graph = {}
            for n, f in libs.items():
                graph[n] = links(f, env)
            if any(v is None for v in graph.values()):
                R.undecided(label, 'the compiler does not list the dependencies')
                continue
            R.decided += 1
            if 'std' not in on:
                for n, l in sorted(graph.items()):
                    if 'std' in l:
                        R.violate(label, 'the standard library is linked by %s' % n, str(sorted(l)))
                if 'std' in feats.get('emplacable', []) and name != 'emplacable':
                    R.violate(label, 'emplacable is built with its std feature', str(feats))
            if name == 'emplacable' and not on & {'alloc', 'std'} and 'alloc' in graph[me]:
                R.violate(label, 'the allocation library is linked without the alloc feature', str(sorted(graph[me])))
            todo.append((label, name, on, libs))
        with cf.ThreadPoolExecutor(8) as ex:
            pj = []
            for i, (pname, _, src) in enumerate(probes):
                head, _, what = pname.partition(':')
                crate, *need = head.split()
                for j, (label, name, on, libs) in enumerate(todo):
                    if name.replace('-', '_') != crate or not set(need) <= on | ({'alloc'} if 'std' in on else set()):
                        continue
                    use = {x: libs[x] for x in ('emplacable', 'unsized_vec', 'serde') if x in libs}
                    pj.append((label, what.strip(), ex.submit(compile_, src, use, env, d, 'p%d_%d' % (i, j))))
            for label, what, j in pj:
                R.obl += 1
                R.decided += 1
                rc, codes, msgs, err = j.result()
                if rc and not codes:
                    R.decided -= 1
                    R.undecided(label + ': ' + what, 'the compiler fails without an error')
                elif rc:
                    R.violate(label, 'does not offer: ' + what, '%s %s' % (codes, msgs))
        R.extra.update(feature_sets=['%s {%s}' % (n, 'default' if s is None else ','.join(s)) for n, s, _ in combos],
                       builds=len(done), built=built, programs=len(pj))
    finally:
        shutil.rmtree(d, ignore_errors=True)


C21.needs_mir = False
