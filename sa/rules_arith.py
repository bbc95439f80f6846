"""Rules about size and alignment arithmetic (C11)."""
from base import *
from base import decide as decide_
from terms import mk, TRUE
from model import leaf
from rules_cap import IMAX, up, pow2

M = t.M64
HEADS = {'vs': 'ValidSize<T>', 'vu': 'ValidSizeUnaligned', 'va': 'ValidAlign', 'n': None}


def near(w, lim):
    """an integer in 0..lim, often close to an end or to a multiple of an alignment"""
    r = w.rng
    k = r.randint(0, 7)
    a = 1 << r.choice([0, 1, 2, 3, 4, 6, 12])
    if k == 0:
        x = 0
    elif k == 1:
        x = lim - r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31])
    elif k == 2:
        x = lim - a * r.randint(0, 4) + r.choice([-1, 0, 1])
    elif k == 3:
        x = a * r.randint(0, 9) + r.choice([-1, 0, 1])
    elif k == 4:
        x = r.randint(0, lim)
    elif k == 5:
        x = IMAX + r.choice([-17, -16, -15, -9, -8, -7, -3, -2, -1, 0, 1, 2, 8])
    else:
        x = r.randint(0, 100)
    return max(0, min(x, lim))


class A:
    """integers of one valuation"""


def setup_of(kinds, pre):
    def setup(w):
        w.al = 1 << (w.i % 30 if not kinds else w.rng.choice([0, 0, 1, 2, 3, 4, 5, 12, 29]))
        w.es = w.al * w.rng.choice([0, 1, 2, 3])
        w.types['T'] = (w.es, w.al)
        w.types['E'] = (w.es, w.al)
        for _ in range(40):
            a = []
            for i, k in enumerate(kinds):
                if k == 'va':
                    x = 1 << (w.i // 2 % 64 if w.i % 2 else w.rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 8, 12, 29, 62]))
                elif k == 'vs':
                    x = near(w, IMAX - (w.al - 1))
                elif k == 'vu':
                    x = near(w, IMAX)
                else:
                    x = near(w, M)
                    if w.rng.random() < 0.3 or len(kinds) == 1 and w.i % 4 == 1:
                        x = 1 << (w.i // 4 % 64 if w.i % 4 == 1 else w.rng.randint(0, 63))
                a.append(x)
            if pre is None or pre(w, *a):
                break
        else:
            return False
        w.args = a
        for i, x in enumerate(a):
            w.atoms['a%d' % i] = x
    return setup


def b_fn(head, name, kinds):
    def build(sc):
        f = sc.lab.fn(head, None, name)
        if f is None:
            raise Undecided('%s::%s is not there any more' % (head, name))
        I = sc.I
        vals = []
        for i, k in enumerate(kinds):
            x = t.atom('a%d' % i)
            if HEADS[k]:
                x = I.newtype(HEADS[k], x)
            vals.append(x)
        tys = [HEADS[k] or 'usize' for k in kinds]
        sub = {'T': sc.T}
        return sc.run(f, vals, sub)
    return build


def opt(v):
    """('Some', x) / None"""
    if isinstance(v, tuple) and v and str(v[0]).lstrip('#') == 'Some':
        return leaf(v[1])
    if isinstance(v, tuple) and v and str(v[0]).lstrip('#') == 'None':
        return 'None'
    raise Undecided('not an option: %r' % (v,))


def s_val(want):
    """the function returns exactly want(w, args); 'None' for None, a pair for a layout"""
    def spec(w, o):
        if o.how != 'ret':
            return ['%s for valid input' % {'unw': 'panics', 'abt': 'aborts'}[o.how]]
        e = want(w, *w.args)
        v = o.val
        if isinstance(e, tuple) and e[0] == 'opt':
            got = opt(v)
            e = e[1]
            if (e == 'None') != (got == 'None'):
                return ['reports failure for a representable result' if got == 'None' else 'returns a result that is out of range']
        elif isinstance(e, tuple):
            if not (isinstance(v, tuple) and len(v) == 3):
                raise Undecided('not a pair: %r' % (v,))
            got = (leaf(v[1]), leaf(v[2]))
        else:
            got = leaf(v)
        if got is None:
            raise Undecided('result %r' % (v,))
        return [] if got == e else ['wrong result']
    return spec


def so(cond, x):
    return ('opt', x if cond else 'None')


MAXT = lambda w: IMAX - (w.al - 1)
FNS = [
    ('ValidSize', 'new', ['n'], None, lambda w, n: so(n <= MAXT(w), n)),
    ('ValidSize', 'new_unchecked', ['n'], lambda w, n: n <= MAXT(w), lambda w, n: n),
    ('ValidSize', 'new_squished', ['n'], None, lambda w, n: min(n, MAXT(w))),
    ('ValidSize', 'get', ['vs'], None, lambda w, n: n),
    ('ValidSize', 'checked_add', ['vs', 'vs'], None, lambda w, a, b: so(a + b <= MAXT(w), a + b)),
    ('ValidSize', 'unchecked_add', ['vs', 'vs'], lambda w, a, b: a + b <= MAXT(w), lambda w, a, b: a + b),
    ('ValidSize', 'unchecked_sub', ['vs', 'vs'], lambda w, a, b: a >= b, lambda w, a, b: a - b),
    ('ValidSize', 'as_layout', ['vs'], None, lambda w, a: (a, w.al)),
    ('ValidSize', 'as_unaligned', ['vs'], None, lambda w, a: a),
    ('ValidSizeUnaligned', 'new', ['n'], None, lambda w, n: so(n <= IMAX, n)),
    ('ValidSizeUnaligned', 'new_unchecked', ['n'], lambda w, n: n <= IMAX, lambda w, n: n),
    ('ValidSizeUnaligned', 'get', ['vu'], None, lambda w, n: n),
    ('ValidSizeUnaligned', 'max_for_align', ['va'], None, lambda w, a: IMAX - (a - 1)),
    ('ValidSizeUnaligned', 'new_padded_to', ['n', 'va'], None, lambda w, n, a: so(up(n, a) <= IMAX, up(n, a))),
    ('ValidSizeUnaligned', 'new_squished_to', ['n', 'va'], None, lambda w, n, a: min(n, IMAX - (a - 1))),
    ('ValidSizeUnaligned', 'checked_add', ['vu', 'vu'], None, lambda w, a, b: so(a + b <= IMAX, a + b)),
    ('ValidSizeUnaligned', 'unchecked_add', ['vu', 'vu'], lambda w, a, b: a + b <= IMAX, lambda w, a, b: a + b),
    ('ValidSizeUnaligned', 'unchecked_sub', ['vu', 'vu'], lambda w, a, b: a >= b, lambda w, a, b: a - b),
    ('ValidSizeUnaligned', 'checked_pad_to', ['vu', 'va'], None, lambda w, n, a: so(up(n, a) <= IMAX, up(n, a))),
    ('ValidSizeUnaligned', 'unchecked_pad_to', ['vu', 'va'], lambda w, n, a: up(n, a) <= IMAX, lambda w, n, a: up(n, a)),
    ('ValidSizeUnaligned', 'checked_add_pad', ['vu', 'n', 'va'], None, lambda w, n, b, a: so(up(n + b, a) <= IMAX, up(n + b, a))),
    ('ValidSizeUnaligned', 'as_layout_with_align_unchecked', ['vu', 'va'], lambda w, n, a: up(n, a) <= IMAX, lambda w, n, a: (n, a)),
    ('ValidAlign', 'new', ['n'], None, lambda w, n: so(pow2(n), n)),
    ('ValidAlign', 'new_unckecked', ['n'], lambda w, n: pow2(n), lambda w, n: n),
    ('ValidAlign', 'get', ['va'], None, lambda w, a: a),
    ('ValidAlign', 'minus_1', ['va'], None, lambda w, a: a - 1),
    ('ValidAlign', 'as_usize', ['va'], None, lambda w, a: a),
    ('ValidAlign', 'as_nonzero', ['va'], None, lambda w, a: a),
    ('ValidAlign', 'log2', ['va'], None, lambda w, a: a.bit_length() - 1),
    ('ValidAlign', 'dangling_thin', ['va'], None, lambda w, a: a),
]


def b_const(path):
    def build(sc):
        from interp import Frame
        fr = Frame()
        fr.fn = sc.lab.idx.fns[0]
        fr.fid, fr.file, fr.subst = -1, None, dict(sc.sub)
        r = sc.I.find_const(fr, path)
        if r is None:
            raise Undecided('constant %s is not there any more' % path)
        return sc.I.run_const(fr, sc.st, *r)
    return build


def b_newalign(ck):
    """the alignment a new vector reports"""
    def build(sc):
        v = sc.call('new')
        if v is None:
            return None
        p = sc.I.new_obj(sc.st, v, 'nv')
        return sc.call('align', p)
    return build


def s_int(want):
    def spec(w, o):
        if o.how != 'ret':
            return ['does not return']
        got = leaf(o.val)
        if got is None:
            raise Undecided('result %r' % (o.val,))
        return [] if got == want(w) else ['wrong alignment']
    return spec


def C11(R):
    from rules_cap import b_cap, setup_cap, b_with, TRY, RES, WITH, s_try
    for debug in (False, True):
        lab = R.debug_lab() if debug else None
        x = ', with debug assertions' if debug else ''
        for head, name, kinds, pre, want in FNS:
            decide(R, '%s::%s%s' % (head, name, x), 'A', b_fn(head, name, kinds), setup_of(kinds, pre), s_val(want),
                   n=R.n(300 if not debug else 120), lab=lab)
    # the alignment associated with a type
    for ty, ck, want in (('T', 'S', lambda w: w.al), ('[E]', 'E', lambda w: w.al), ('str', 'S', lambda w: 1), ('CStr', 'S', lambda w: 1)):
        for cn in ('ALIGN', 'DANGLING_THIN'):
            decide(R, 'Aligned::%s of %s' % (cn, ty), ck, b_const('<%s as marker::Aligned>::%s' % (ty, cn)), setup_of([], None), s_int(want), n=R.n(40))
    for ck in 'SEA':
        decide(R, 'UnsizedVec::new().align()', ck, b_newalign(ck), setup_of([], None), s_int(lambda w: w.al), n=R.n(40))

    # what the public operations ask the allocator for, close to the limits
    def only_layouts(spec):
        def s(w, o):
            return [b for b in spec(w, o) if 'layout' in b or 'impossible' in b or 'power of two' in b]
        return s
    for ck in 'SEAU':
        for m, args in list(TRY.items()) + list(RES.items()):
            decide(R, 'UnsizedVec::%s, limits' % m, ck, b_cap(m, args), setup_cap('big'), only_layouts(s_try(m, args, 'big')), n=R.n(120))
        for m, args in WITH.items():
            decide(R, 'UnsizedVec::%s, limits' % m, ck, b_with(m, args), setup_cap('big', False), s_with(args), n=R.n(120))


def s_with(args):
    from rules_cap import Cap, layouts_ok

    def spec(w, o):
        k = Cap(w, o, args)
        al = k.args.get('al', 1)
        if w.sc.ck == 'U' and not pow2(al):
            return ['an alignment that is no power of two is accepted'] if o.how == 'ret' else []
        bad = layouts_ok(o)
        if o.how == 'ret':
            bad += w.decode(o).bad
            big = (up(k.args.get('bytes', 0), al if w.sc.ck == 'U' else w.al) > IMAX) and not (w.sc.ck == 'S' and w.es == 0)
            if big:
                bad.append('an impossible reservation succeeds')
        return bad
    return spec
