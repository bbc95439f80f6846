"""Rules about the by-value macros (C25)."""
from base import *
from base import decide as decide_
from rules_emp import s_ptrnew, ptr_of
from evalr import Undecided


def b_user(name, *a):
    def f(sc):
        l = sc.lab.idx.free.get(name)
        if not l:
            raise Undecided('witness ' + name)
        return sc.run(l[0], [x(sc) for x in a], {})
    return f


def setup_src(w):
    """x: a value of the sized type S that is to become a T"""
    s, a, m, tok = e = w.elem(('x', 0))
    w.types['S'] = (s, a)
    w.atoms[('umeta', 'S', w.sc.T)] = m
    w.state['x'] = e
    w.atoms.update({'x.tok': tok, 'x.meta': m})
    w.ndp = [0.0, 0.3][w.i % 2]


def setup_lit(w):
    w.state['x'] = (9, 1, 9, ('str', '"a literal"'))
    w.ndp = [0.0, 0.3][w.i % 2]


def C25(R):
    from lab import BuildFailed
    try:
        L = R.lab.user()
    except BuildFailed as e:
        R.undecided('macros', 'the witness crate does not build: %s' % str(e)[-300:])     # decided by C20
        return
    n = R.n(120)
    for ck in 'EAU':
        decide(R, 'box_new(unsize!(value))', ck, b_user('w_unsize_value', lambda sc: t.atom('x.tok')), setup_src,
               s_ptrnew(ptr_of('box', 0), 'box'), lab=L, kinds={'S': 'S'}, n=n)
    decide(R, 'box_new(by_value_str!(literal))', 'S', b_user('w_str'), setup_lit, s_ptrnew(ptr_of('box', 0), 'box'), lab=L, n=n)
