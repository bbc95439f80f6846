"""Rules about iteration (C05)."""
from base import *
from rules_vec import ALL, elem_ref, toks
from terms import mk, TRUE, FALSE, ite, and_, not_, eq

OPS = ('next', 'next_back', 'nth', 'nth_back')
FIN = ('len', 'size_hint', 'count', 'last', 'none')


def switch(sc, sel, arms):
    """arms[k](state) under sel == k; the last arm otherwise"""
    def go(st, k):
        if k == len(arms) - 1:
            return arms[k](st)
        return sc.I.branch(st, eq(sel, c(k)), arms[k], lambda s: go(s, k + 1))
    return go(sc.st, 0)


def on(sc, f):
    """run f with the scene's current state replaced by the branch's"""
    def g(st):
        old = sc.st
        sc.st = st
        try:
            return f()
        finally:
            sc.st = old
    return g


def build_seq(ity, make, steps):
    def build(sc):
        v = sc.vec()
        it = make(sc, v)
        if it is None:
            raise Undecided('iterator construction')
        p = sc.I.new_obj(sc.st, it, 'it')
        ty = ity % sc.T
        res = []
        for k in range(steps):
            def arm(m):
                def f():
                    a = [p] + ([t.atom('n%d' % k)] if 'nth' in m else [])
                    tr = 'DoubleEndedIterator' if 'back' in m else 'Iterator'
                    return sc.cc('<%s as %s>::%s' % (ty, tr, m), a, ['&' + ty, 'usize'])
                return on(sc, f)
            r = switch(sc, t.atom('op%d' % k), [arm(m) for m in OPS])
            if r is None:
                return None
            res.append(r)

        def fin(m):
            def f():
                if m == 'none':
                    return UNIT
                x = p if m in ('len', 'size_hint') else sc.I.load(sc.st, p)
                tr = 'ExactSizeIterator' if m == 'len' else 'Iterator'
                return sc.cc('<%s as %s>::%s' % (ty, tr, m), [x], [('&' if x is p else '') + ty])
            return on(sc, f)
        f = switch(sc, t.atom('fin'), [fin(m) for m in FIN])
        if f is None:
            return None
        return rec('tuple', *(res + [f]))
    return build


def setup_seq(steps):
    def setup(w):
        k = w.rng.num([0, 1, 2, 3, 3, 4, 5], 'count')
        w.setvec(nelems=k)
        w.ndp = 0.0
        for i in range(steps):
            w.atoms['op%d' % i] = w.rng.randrange(4)
            w.atoms['n%d' % i] = w.rng.num([0, 0, 0, 1, 1, 2, 3, k, t.M64])
        w.atoms['fin'] = w.rng.randrange(len(FIN))
    return setup


def refcheck(w, o, x, i):
    """x = Option<&element i> (None for i is None)"""
    if i is None:
        return [] if x == ('#None',) else ['something is yielded when nothing is left']
    if x == ('#None',):
        return ['nothing is yielded although elements are left']
    if not (isinstance(x, tuple) and x and x[0] == '#Some'):
        if x is P:
            return ['an undefined value is yielded']
        raise Undecided('result %r' % (x,))
    return ['yielded: ' + b for b in elem_ref(w, o, x[1], i)]


def spec_seq(steps):
    def spec(w, o):
        els = w.state['v']
        a, b = 0, len(els)
        if o.how != 'ret':
            return ['iteration does not return']
        v = o.val
        if not (isinstance(v, tuple) and len(v) == steps + 2):
            raise Undecided('results')
        b0, vv = elems_are(w, o, toks(els), what='elements after iterating')
        if b0:
            return b0
        for k in range(steps):
            m = OPS[w.atoms['op%d' % k]]
            n = w.atoms['n%d' % k] if 'nth' in m else 0
            if 'back' not in m:
                a = min(a + n, b)
                exp = a if a < b else None
                a = min(a + 1, b)
            else:
                b = max(b - n, a)
                exp = b - 1 if a < b else None
                b = max(b - 1, a)
            bad = refcheck(w, o, v[1 + k], exp)
            if bad:
                return ['%s %s' % (m, x) for x in bad]
        m = FIN[w.atoms['fin']]
        x = v[steps + 1]
        if m == 'last':
            return ['last ' + y for y in refcheck(w, o, x, b - 1 if a < b else None)]
        if m == 'size_hint' and x != ('tuple', b - a, ('#Some', b - a)):
            return ['the reported size is not the number of elements left']
        if m in ('len', 'count') and x != b - a:
            return ['%s is not the number of elements left' % m]
        return []
    return spec


def make(meth):
    return lambda sc, v: sc.call(meth, v)


# ------------------------------------------------------------------ the visiting methods
def h_visit(I, st, v, p, args, site):
    kind = v.a[0][5:]
    x = args[-1]
    if kind == '_find':
        x = I.load(st, x)
    a = I.nd('VISIT_answer')
    if kind in ('_each', '_fold'):
        a = TRUE
    I.bt.log(st, 'visit', x, a)
    if kind == '_fmap':
        return ite(a, t.enum('Some', x), t.enum('None'))
    return UNIT if kind == '_each' else mk('fold', args[0]) if kind == '_fold' else a


def build_visit(ity, make, meth, kind, inner=None):
    def build(sc):
        v = sc.vec()
        it = make(sc, v)
        p = sc.I.new_obj(sc.st, it, 'it')
        ty = ity % sc.T
        # something has been taken from both ends already
        sc.cc('<%s as Iterator>::nth' % ty, [p, t.atom('n0')], ['&' + ty, 'usize'])
        sc.cc('<%s as DoubleEndedIterator>::nth_back' % ty, [p, t.atom('n1')], ['&' + ty, 'usize'])
        if inner:
            p, ty = sc.I.padd(p, ('f', 0)), inner % sc.T
        x = sc.I.load(sc.st, p) if meth in ('for_each', 'fold', 'rfold') else p
        f = t.atom('VISIT' + kind)
        a, tys = [x, f], [('&' if x is p else '') + ty, '']
        if kind == '_fold':
            a, tys = [x, c(0), f], [ty, 'usize', '']
        r = sc.cc('<%s as %s>::%s' % (ty, 'DoubleEndedIterator' if meth[0] == 'r' else 'Iterator', meth), a, tys)
        if r is None or x is not p:
            return r
        # what is yielded next
        z = sc.cc('<%s as Iterator>::next' % ty, [p], ['&' + ty])
        return None if z is None else rec('tuple', r, z)
    return build


def setup_visit(w):
    k = w.rng.num([0, 1, 2, 3, 4, 5], 'count')
    w.setvec(nelems=k)
    w.atoms['n0'] = w.rng.choice([0, 0, 1])
    w.atoms['n1'] = w.rng.choice([0, 0, 1])
    w.ndp = w.rng.choice([0.0, 0.3, 0.7, 1.0])


def spec_visit(meth):
    def spec(w, o):
        els = w.state['v']
        if o.how != 'ret':
            return ['%s does not return' % meth]
        a = min(w.atoms['n0'] + 1, len(els))
        b = max(len(els) - w.atoms['n1'] - 1, a)
        ev = events(o, 'visit')
        if len(ev) > b - a:
            return ['%s visits more than the elements left' % meth]
        for j, e in enumerate(ev):
            bad = elem_ref(w, o, e[1], b - 1 - j if meth == 'rfold' else a + j)
            if bad:
                return ['%s visits: %s' % (meth, x) for x in bad]
        ans = [bool(e[2]) for e in ev]
        full = len(ev) == b - a
        v = o.val
        if meth in ('all', 'any', 'find', 'find_map', 'position'):
            if not (isinstance(v, tuple) and len(v) == 3):
                raise Undecided('results')
            bad = refcheck(w, o, v[2], a + len(ev) if a + len(ev) < b else None)
            if bad:
                return ['next after %s: %s' % (meth, x) for x in bad]
            v = v[1]
        stop = {'all': False, 'any': True, 'find': True, 'find_map': True, 'position': True}.get(meth)
        if stop is None and full and meth in ('fold', 'rfold') and v != len(ev):
            return ['%s does not return what was accumulated' % meth]
        if stop is None:
            return [] if full else ['%s does not visit all' % meth]
        hit = stop in ans
        if hit and ans.index(stop) != len(ans) - 1:
            return ['%s goes on after the answer' % meth]
        if not hit and not full:
            return ['%s stops before the answer' % meth]
        last = a + len(ev) - 1
        if meth == 'all':
            return [] if v == (not hit) else ['all: wrong result']
        if meth == 'any':
            return [] if v == hit else ['any: wrong result']
        if meth == 'position':
            want = ('#Some', len(ev) - 1) if hit else ('#None',)
            return [] if v == want else ['position: wrong result']
        return [meth + ' ' + x for x in refcheck(w, o, v, last if hit else None)]
    return spec


VISIT = (('for_each', '_each'), ('all', '_b'), ('any', '_b'), ('find', '_find'), ('find_map', '_fmap'), ('position', '_b'))


def by_ref(mut):
    r = '&mut UnsizedVec<%s>' if mut else '&UnsizedVec<%s>'
    return lambda sc, v: sc.cc('<%s as IntoIterator>::into_iter' % (r % sc.T), [v], [r % sc.T])


def through_slice(sc, v):
    it = sc.call('iter', v)
    s = sc.cc('<core::slice::Iter<T> as From<UnsizedIter<T>>>::from', [it], ['UnsizedIter<T>'])
    return sc.cc('<UnsizedIter<T> as From<core::slice::Iter<T>>>::from', [s], ['core::slice::Iter<T>'])


def C05(R):
    for ck in ALL:
        steps = 3
        for meth, ity in (('iter', 'UnsizedIter<%s>'), ('iter_mut', 'UnsizedIterMut<%s>')):
            decide(R, 'UnsizedVec::' + meth, ck, build_seq(ity, make(meth), steps), setup_seq(steps), spec_seq(steps),
                   n=R.n(250))
    fh = {'VISIT_' + k: h_visit for k in ('each', 'b', 'find', 'fmap')}
    for ck in ALL:
        for meth, ity in (('iter', 'UnsizedIter<%s>'), ('iter_mut', 'UnsizedIterMut<%s>')):
            for m, k in VISIT:
                decide(R, '%s::%s' % (ity[:-4], m), ck, build_visit(ity, make(meth), m, k), setup_visit, spec_visit(m),
                       n=R.n(60), foreign=fh)
        for mut, ity in ((False, 'UnsizedIter<%s>'), (True, 'UnsizedIterMut<%s>')):
            decide(R, 'IntoIterator for &%sUnsizedVec' % ('mut ' if mut else ''), ck,
                   build_seq(ity, by_ref(mut), 2), setup_seq(2), spec_seq(2), n=R.n(60))
    # whoever replaces a provided method promises what the provided one does
    def setup_fold(w):
        setup_visit(w)
        v0 = w.valuation

        def valuation():
            vl = v0()
            vl.dyn['fold'] = lambda vl, n, a, ctx: vl.ev(a[0], ctx) + 1
            return vl
        w.valuation = valuation
    fh['VISIT_fold'] = h_visit
    for ck in ALL:
        for meth in ('iter', 'iter_mut'):
            pub = 'UnsizedIter' + ('Mut' if meth == 'iter_mut' else '')
            prv = {'S': None, 'U': 'UnalignedIter'}.get(ck, 'AlignedIter')
            prv = prv and prv + pub[11:]
            for own in (pub, prv):
                for m, tr in (('fold', 'Iterator'), ('rfold', 'DoubleEndedIterator')):
                    if own and R.lab.fn(own, tr, m) is not None:
                        decide(R, '%s::%s' % (own, m), ck,
                               build_visit(pub + '<%s>', make(meth), m, '_fold', None if own == pub else own + '<%s>'), setup_fold,
                               spec_visit(m), n=R.n(60), foreign=fh)
    decide(R, 'UnsizedIter from and into slice::Iter', 'S', build_seq('UnsizedIter<%s>', through_slice, 2), setup_seq(2),
           spec_seq(2), n=R.n(60))
