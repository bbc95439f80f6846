"""Obligations: how a rule is put to the value graph and how its verdict is recorded."""
import os
import pickle
import random
import re
import sys
import time
import traceback
import zlib
import terms as t
from lab import Lab
from terms import c, rec, UNIT, fld
from interp import Abandon
from evalr import P, Undecided
from model import Rng, Scene, World, Missing, KINDS, KNAME, toks


class Report:
    def __init__(self, pid, tier, seed, lab):
        self.pid, self.tier, self.seed, self.lab = pid, tier, seed, lab
        self.viol = {}
        self.und = {}
        self.obl = 0
        self.decided = 0
        self.vals = 0
        self.outcomes = {'ret': 0, 'unw': 0, 'abt': 0}
        self.functions = set()
        self.calls = self.loops = self.nodes = self.inlined = self.blocks = 0
        self.notes = []
        self.samples = []
        self.list = []      # (obligation, nodes of its graph, functions of the repository in it, valuations)
        self.t0 = time.time()

    def n(self, quick, thorough=None):
        return (thorough or quick * 12) if self.tier == 'thorough' else quick

    def violate(self, construct, fact, example=''):
        key = '%s: %s' % (construct, fact)
        if key not in self.viol:
            self.viol[key] = example

    def undecided(self, name, why):
        self.und.setdefault(name, why)

    def debug_lab(self):
        """the same source compiled with debug assertions and overflow checks"""
        if not hasattr(self, '_dbg'):
            self._dbg = Lab(debug=True, cache=self.lab.cache)
        return self._dbg

    def absorb(self, sc):
        s = sc.I.stats
        self.functions |= s['functions']
        self.inlined += s['inlined']
        self.blocks += s['blocks']
        self.calls += s['calls']
        self.loops += s['loops']


DROPTALK = re.compile(r'drop|lost|owned|neither|held')


def constants(g):
    """the integers the analysed program compares with or computes with: a valuation that stays away
    from them cannot tell the two sides of such a comparison apart"""
    seen, out = set(), set()
    todo = []
    g.asks_drop = False

    def push(x):
        if isinstance(x, t.Node):
            if x.id not in seen:
                seen.add(x.id)
                todo.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                push(y)
        elif isinstance(x, dict):
            for y in x.values():
                push(y)
    push(g.val)
    for s in ([g.ret] if g.ret is not None else []) + list(g.unw) + list(g.abt):
        push(s.g)
        push(list(s.env.values()))
    push([gd for gd, _ in g.ub])
    while todo:
        n = todo.pop()
        if n.op == 'c' and isinstance(n.a[0], int):
            out.add(n.a[0])
        if n.op == 'ndrop':
            g.asks_drop = True
        if n.op in ('mu', 'lx', 'it') and n.a[0] in t.LOOPS:
            lp = t.LOOPS[n.a[0]]
            push([lp.init, lp.step, lp.back])
        push(n.a)
    g.nodes = len(seen)
    return sorted(k for k in out if 3 <= k < 1 << 56)


def norm_fact(s):
    s = re.sub(r'\(?\b(0x)?\d+\b\)?', 'n', s)
    return s


def fmt_world(w):
    a = {k: v for k, v in w.atoms.items() if k not in ('_tmp', 'mem', 'GARBAGE')}
    def short(v):
        s = repr(v)
        s = re.sub(r"ElementInfo@src/inner/\w+\.rs", 'ElementInfo', s)
        return s if len(s) < 400 else s[:400] + '...'
    return 'types=%s metas=%s ' % (w.types, w.metas) + ' '.join('%s=%s' % (k, short(v)) for k, v in sorted(a.items(), key=lambda e: str(e[0])))


WORKERS = min(6, os.cpu_count() or 1)


class Shard:
    def __init__(self):
        self.vals = self.nd = self.und = 0
        self.outcomes = {'ret': 0, 'unw': 0, 'abt': 0}
        self.bad, self.samples, self.last, self.stopped = [], [], '', None


def sharded(f, k):
    """f(0, k), ..., f(k-1, k), in processes of their own"""
    if k < 2:
        return [f(0, 1)]
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(1, k):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                b = pickle.dumps(f(i, k))
                while b:
                    b = b[os.write(wr, b):]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((i, pid, rd))
    out = [f(0, k)]
    for i, pid, rd in kids:
        b = b''
        while True:
            x = os.read(rd, 1 << 16)
            if not x:
                break
            b += x
        os.close(rd)
        os.waitpid(pid, 0)
        try:
            out.append(pickle.loads(b))
        except Exception:
            out.append(f(i, k))     # the process was ended: do its share here
    return out


def decide(R, name, ck, build, setup, spec, n=None, lab=None, **kw):
    """One obligation: `build(scene)` interprets the operation, `spec(world, outcome)` lists what is
    wrong with the outcome under the valuation prepared by `setup(world)`."""
    R.obl += 1
    label = '%s [%s]' % (name, KNAME[ck]) if ck in KNAME else name
    try:
        sc = Scene(lab or R.lab, ck, **kw)
        val = build(sc)
        g = sc.finish(val)
    except Missing as e:
        R.violate(label, 'anchor missing: %s' % e)
        return None
    except (Abandon, Undecided) as e:
        R.undecided(label, 'not understood: %s' % e)
        return None
    except RecursionError:
        R.undecided(label, 'too deep')
        return None
    except Exception as e:
        R.undecided(label, 'analysis error: %s %s' % (type(e).__name__, traceback.format_exc(limit=-2)))
        return None
    R.absorb(sc)
    n = n or R.n(120)
    base = zlib.crc32(('%s/%s/%s' % (R.pid, label, R.seed)).encode())
    t1 = time.time()
    dic = constants(g)
    extra = R.n(60 + 60 * min(len(dic), 3)) if dic else 0
    # small programs are cheap to value: look at more of them
    more = max(1.0, min(8.0, 4000 / g.nodes))
    n, extra = int(n * more), int(extra * more)
    # a program that asks whether the elements need dropping is also judged for elements that do not;
    # whether such an element was dropped or forgotten is then of no consequence
    inert = n if g.asks_drop else 0
    total = n + extra + inert

    def value(shard, of):
        """the valuations i = shard (mod of): what they found"""
        r = Shard()
        for i in range(shard, total, of):
            if time.time() - t1 > (40 if R.tier == 'quick' else 200):
                r.stopped = i
                break
            rng = Rng(base * 1000003 + i)
            if n <= i < n + extra:
                rng.aim(dic)
            w = World(sc, (base, i), rng)
            w.i = i
            w.inert = i >= n + extra
            try:
                w.ndp = [0.0, 0.15, 0.45][i % 3]
                if setup(w) is False:
                    continue
                o = w.outcome(g)
                r.vals += 1
                bad = []
                if o.ub:
                    bad = ['undefined behaviour: ' + u for u in o.ub[:3]]
                elif o.how in ('none', 'many'):
                    bad = ['control flow undefined' if o.how == 'none' else 'two outcomes at once']
                else:
                    r.outcomes[o.how] += 1
                    bad = spec(w, o) or []
                if w.inert:
                    bad = [b for b in bad if not DROPTALK.search(b)]
                r.nd += 1
                for b in bad:
                    b = norm_fact(b), '%s; %s; outcome %s' % (b, fmt_world(w), o.how)
                    if b[0] not in [x[1] for x in r.bad]:
                        r.bad.append((i,) + b)
                if not bad and len(r.samples) < 6 and i % 37 == 5:
                    r.samples.append('%s -> %s' % (label, o.how))
            except Undecided as e:
                r.und += 1
                r.last = str(e)
            except RecursionError:
                r.und += 1
                r.last = 'too deep'
            except Exception as e:
                r.und += 1
                r.last = 'analysis error: %s %s' % (type(e).__name__, traceback.format_exc(limit=-2))
        return r
    shards = sharded(value, min(WORKERS, total // 100))
    nd, und = sum(r.nd for r in shards), sum(r.und for r in shards)
    last = next((r.last for r in shards if r.last), '')
    for r in shards:
        R.vals += r.vals
        for k, v in r.outcomes.items():
            R.outcomes[k] += v
        if r.stopped is not None:
            R.notes.append('%s: stopped after %d of %d valuations' % (label, r.stopped, total))
        R.samples += r.samples[:max(0, 6 - len(R.samples))]
    mine = sorted(sc.I.stats['functions'])
    R.list.append('%s: %d functions, %d nodes, %d valuations' % (label, len(mine), g.nodes, sum(r.vals for r in shards)))
    for i, fact, example in sorted(b for r in shards for b in r.bad):
        R.violate(label, fact, example + '\n      in the value graph of: ' + ', '.join(
            re.sub(r'<impl at (\S+?):(\d+):\d+: \d+:\d+>', r'\1:\2', x) for x in mine[:40]))
    if os.environ.get('SA_TIMES'):
        print('TIME %.2f n=%d nodes=%d %s' % (time.time() - t1, n + extra + inert, g.nodes, label))
    if und and nd == 0:
        R.undecided(label, last[:200])
    else:
        R.decided += 1
        if und:
            R.notes.append('%s: %d of %d valuations undecided (%s)' % (label, und, n, last[:300]))
    return g


# ------------------------------------------------------------------ common facts
def elems_are(w, o, exp, n='v', what='elements'):
    vv = w.decode(o, n)
    bad = list(vv.bad)
    if not bad:
        got = vv.toks()
        if got != exp:
            if len(got) != len(exp):
                bad.append('%s: %d where %d are expected' % (what, len(got), len(exp)))
            else:
                k = [i for i in range(len(exp)) if got[i] != exp[i]][0]
                if got[k][0] != exp[k][0]:
                    bad.append('%s: wrong metadata at some index' % what)
                else:
                    bad.append('%s: wrong contents at some index' % what)
    return bad, vv


def count(l, x):
    return sum(1 for y in l if y == x)


def owned_once(w, o, sources, holders):
    """each nonempty token of `sources` is in exactly one place: held, handed out or dropped"""
    bad = []
    dr = w.dropped(o)
    for tok in dr:
        if isinstance(tok, tuple) and tok and tok[0] in ('dropped',):
            bad.append('a value is dropped twice')
        elif isinstance(tok, tuple) and tok and tok[0] in ('bytes', 'bad', 'uninit', 'garbage'):
            bad.append('a drop of something that is not a whole value')
        elif tok is P:
            bad.append('a drop of an undefined value')
    z = ('zst',)
    if z in sources and count(dr, z) + count(holders, z) > count(sources, z):
        bad.append('a value is dropped twice' if not count(holders, z) else 'a value is dropped and still owned')
    for tok in sources:
        if tok == z:
            continue
        k = count(dr, tok)
        h = count(holders, tok)
        if k > 1:
            bad.append('a value is dropped twice')
        elif k and h:
            bad.append('a value is dropped and still owned')
        elif h > 1:
            bad.append('a value is held twice')
    return bad


def lost(w, o, sources, holders):
    dr = w.dropped(o)
    z = ('zst',)
    gone = [x for x in sources if x != z and x not in dr and x not in holders]
    if w.sc.ck != 'E' and count(dr, z) + count(holders, z) < count(sources, z):      # dropping an empty slice drops nothing
        gone.append(z)
    return gone


def events(o, name):
    return [e for e in o.mem.log if e[0] == name]
