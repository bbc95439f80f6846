"""Obtaining the MIR of /repo's current tree and setting up an analysis."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import terms as t
from index import Index
from interp import Interp
from stdmodel import Builtins

REPO = os.environ.get('SA_REPO', '/repo')
VERIF = os.path.dirname(HERE)


class BuildFailed(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    sh = ". /opt/vp/env.sh >/dev/null 2>&1; env -0"
    out = subprocess.run(['bash', '-c', sh], stdout=subprocess.PIPE).stdout.decode(errors='replace')
    for kv in out.split('\0'):
        k, _, v = kv.partition('=')
        if k and k not in ('PWD', 'OLDPWD', 'SHLVL', '_'):
            env[k] = v
    env['CARGO_TARGET_DIR'] = target
    env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('RUSTFLAGS', None)
    return env


def dump(package, target, features='--all-features', debug=False):
    out = os.path.join(target, '%s%s.mir' % (package, '-dbg' if debug else ''))
    yn = 'on' if debug else 'off'
    cmd = ['cargo', 'rustc', '-p', package, '--lib', features, '--offline', '--',
           '-Zunpretty=mir', '-Zmir-opt-level=0', '-Cdebug-assertions=' + yn, '-Coverflow-checks=' + yn,
           '-Awarnings', '-o', out]
    cmd = [x for x in cmd if x]
    r = subprocess.run(cmd, cwd=REPO, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(out):
        raise BuildFailed(r.stdout.decode(errors='replace')[-4000:])
    with open(out) as f:
        return f.read()


USER_TOML = """[package]
name = "witness-user"
version = "0.0.0"
edition = "2024"
[lib]
path = "witness_user.rs"
[workspace]
[dependencies]
unsized-vec = { path = "%s" }
emplacable = { path = "%s/emplacable" }
"""


def dump_user(target, out):
    """MIR of /verif/witness/witness_user.rs, a crate that uses both"""
    d = os.path.join(target, 'user')
    os.makedirs(d)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(USER_TOML % (REPO, REPO))
    shutil.copy(os.path.join(VERIF, 'witness', 'witness_user.rs'), d)
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, d)
    cmd = ['cargo', 'rustc', '--lib', '--offline', '--', '-Zunpretty=mir', '-Zmir-opt-level=0', '-Cdebug-assertions=off',
           '-Coverflow-checks=off', '-Awarnings', '-o', out]
    r = subprocess.run(cmd, cwd=d, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(out):
        raise BuildFailed(r.stdout.decode(errors='replace')[-4000:])
    with open(out) as f:
        return f.read()


class Lab:
    def user(self):
        """the crates together with a crate that uses their macros"""
        if not hasattr(self, '_user'):
            if self.cache and os.path.exists(os.path.join(self.cache, 'witness-user.mir')):
                w = open(os.path.join(self.cache, 'witness-user.mir')).read()
            else:
                d = tempfile.mkdtemp(prefix='sa-')
                try:
                    w = dump_user(d, os.path.join(d, 'witness-user.mir'))
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            u = Lab.__new__(Lab)
            u.cache = self.cache
            u.idx = Index(REPO, self.texts + [(w, 'w')], {'witness_user.rs': os.path.join(VERIF, 'witness', 'witness_user.rs')})
            self._user = u
        return self._user

    def __init__(self, debug=False, cache=None):
        """cache: directory with ready dumps (development only)"""
        self.cache = cache
        if cache:
            x = '-dbg' if debug else ''
            e = open(os.path.join(cache, 'emplacable%s.mir' % x)).read()
            u = open(os.path.join(cache, 'unsized-vec%s.mir' % x)).read()
        else:
            self.dir = tempfile.mkdtemp(prefix='sa-')
            try:
                e = dump('emplacable', self.dir, debug=debug)
                u = dump('unsized-vec', self.dir, debug=debug)
            finally:
                shutil.rmtree(self.dir, ignore_errors=True)
        self.texts = [(u, 'u'), (e, 'emplacable')]
        self.idx = Index(REPO, self.texts)

    def interp(self, kinds, metas=None, foreign=None, drop_panics=()):
        b = Builtins()
        b.drop_panics = set(drop_panics)
        I = Interp(self.idx, kinds, b, foreign or {})
        I.metas = dict(metas or {})
        return I

    def fn(self, self_head, trait, method, file=None):
        l = [f for f in self.idx.lookup(self_head, trait, method) if f.kind == 'fn']
        if file:
            l = [f for f in l if file in f.name] or l
        return l[0] if l else None

    def free(self, name, src=None):
        l = self.idx.free.get(name, [])
        if src:
            l = [f for f in l if f.src == src]
        return l[0] if l else None
