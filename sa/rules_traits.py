"""Rules about comparison, hashing, formatting, serialization and cloning (C13)."""
from base import *
from base import decide as decide_
from terms import mk, TRUE, FALSE, ite, not_, eq, some, enum, NONE
from rules_vec import ALL, setup_idx
from model import leaf

ORDS = ('Less', 'Equal', 'Greater')


# ------------------------------------------------------------------ user code on elements
def parts(I, x):
    """thin pointer and metadata of a reference to an element"""
    sc = I.scene
    if sc.ck == 'S':
        return I.bt.thin(x), UNIT
    return I.bt.thin(x), I.bt.ptr_meta(I, x)


def elem_ptr(I, st, x):
    """the pointer to the element, seen through references to locals"""
    for _ in range(4):
        if x.op in ('ref', 'lx') or (x.op == 'ite' and x.a[1].op in ('ref', 'lx')):
            x = I.load(st, x)
        else:
            return x
    raise Abandon('reference to an element')


def h_cmp(I, st, ty, th, meth, x, y, site):
    if th not in ('PartialEq', 'PartialOrd', 'Ord') or meth not in ('eq', 'ne', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge'):
        raise Abandon('%s::%s of an element' % (th, meth))
    px, mx = parts(I, elem_ptr(I, st, x))
    py, my = parts(I, elem_ptr(I, st, y))
    I.bt.log(st, 'cmp', px, mx, py, my)
    I.fork_unwind(st, I.nd('CMP_panic'))
    if st.dead:
        return None
    r = lambda k: mk('relis', k, px, mx, py, my)
    if meth == 'eq':
        return r('Equal')
    if meth == 'ne':
        return not_(r('Equal'))
    if meth in ('lt', 'gt'):
        return r('Less' if meth == 'lt' else 'Greater')
    if meth in ('le', 'ge'):
        return t.or_(r('Less' if meth == 'le' else 'Greater'), r('Equal'))
    o = ite(r('Less'), enum('Less'), ite(r('Equal'), enum('Equal'), enum('Greater')))
    if meth == 'cmp':
        return o
    return ite(r('None'), NONE, some(o))


def h_trait(I, fr, st, sty, th, meth, G, v, tys, dty, site):
    sc = I.scene
    bt = I.bt
    own = sty == sc.T or sty in I.kinds
    if th == 'Hash' and meth == 'hash' and own:
        p, m = parts(I, elem_ptr(I, st, v[0]))
        bt.log(st, 'hash', p, m)
        I.fork_unwind(st, I.nd('HASH_panic'))
        return None if st.dead else UNIT
    if th == 'Hasher' or (th == 'Hash' and sty in ('usize', 'u64', 'u32', 'u8', 'isize')):
        return UNIT          # a prefix or a terminator is no element
    if th == 'Clone' and meth == 'clone' and own and sc.ck == 'S':
        p = elem_ptr(I, st, v[0])
        bt.log(st, 'clone', p)
        I.fork_unwind(st, I.nd('CLONE_panic'))
        if st.dead:
            return None
        return mk('cloneof', bt.ptr_read(I, st, p, sc.T))
    if th == 'Clone' and meth == 'clone_from' and own and sc.ck == 'S':
        p, q = elem_ptr(I, st, v[0]), elem_ptr(I, st, v[1])
        bt.log(st, 'clone', q)
        I.fork_unwind(st, I.nd('CLONE_panic'))
        if st.dead:
            return None
        bt.ptr_write(I, st, p, mk('cloneof', bt.ptr_read(I, st, q, sc.T)), sc.T)
        return UNIT
    if th == 'Debug' and meth == 'fmt' and own:
        p, m = parts(I, elem_ptr(I, st, v[0]))
        bt.log(st, 'fmt_elem', p, m)
        return enum('Ok', UNIT)
    if th == 'Serializer':
        def err(s):
            bt.log(s, 'ser_fail')
            return enum('Err', t.atom('SER.err'))
        if meth == 'serialize_seq':
            bt.log(st, 'seq', v[1])
            return I.branch(st, I.nd('SER_fail'), err, lambda s: enum('Ok', t.atom('SEQ')))
        if meth == 'collect_seq':
            it = bt.into_iter(I, fr, st, v[1], G[0] if G else tys[1], site)
            if it is None:
                return None
            n = bt.iter_len(I, fr, st, it, G[0] if G else '', site)
            if n is None:
                raise Abandon('collect_seq')
            bt.log(st, 'seq', some(n))
            p = I.new_obj(st, it)

            def body(s, item):
                serialize_elem(I, s, item)
                return I.nd('SER_efail')

            def rest(s):
                r = bt.loop_iter(I, fr, s, p, G[0] if G else '', body, site, stop=lambda b: (b, UNIT))
                if r is None:
                    return None

                def end(s2):
                    bt.log(s2, 'seq_end')
                    return I.branch(s2, I.nd('SER_endfail'), err, lambda s3: enum('Ok', t.atom('SER.ok')))
                return I.branch(s, t.tagis(r, 'Stop'), err, end)
            return I.branch(st, I.nd('SER_fail'), err, rest)
        bt.log(st, 'other_serializer', c(0))
        raise Abandon('Serializer::' + meth)
    if th == 'SerializeSeq':
        def err(s):
            bt.log(s, 'ser_fail')
            return enum('Err', t.atom('SER.err'))
        if meth == 'serialize_element':
            serialize_elem(I, st, v[1])
            return I.branch(st, I.nd('SER_efail'), err, lambda s: enum('Ok', UNIT))
        if meth == 'end':
            bt.log(st, 'seq_end')
            return I.branch(st, I.nd('SER_endfail'), err, lambda s: enum('Ok', t.atom('SER.ok')))
    return None


def serialize_elem(I, st, x):
    p, m = parts(I, elem_ptr(I, st, x))
    I.bt.log(st, 'ser', p, m)


FOREIGN = {'CMP': h_cmp, 'TRAIT': h_trait, 'H': lambda *a: UNIT}


def decide(R, name, ck, build, setup, spec, **kw):
    return decide_(R, name, ck, build, setup, spec, foreign=FOREIGN, **kw)


# ------------------------------------------------------------------ worlds
def ident(w, p, m):
    """(vector, index) of the elements a pointer and metadata denote; all of them when they have no bytes"""
    return w.where.get((p, m if w.sc.ck != 'S' else ('tuple',)), [])


def index_elems(w, names):
    w.where = {}
    for n in names:
        vv = w.view0(n)
        for i, (s, a, m, tok) in enumerate(w.state[n]):
            w.where.setdefault((vv[i], m), []).append((n, i))


def starts0(w, n):
    """addresses of the elements of vector n before the operation"""
    els = w.state[n]
    p = w.atoms[n + '.ptr']
    if w.sc.ck == 'S':
        return [p + i * w.es for i in range(len(els))]
    al = w.atoms[n + '.align'] if w.sc.ck == 'U' else w.al
    off, out = 0, []
    for s, a, m, tok in els:
        off = -(-off // al) * al
        out.append(p + off)
        off += s
    return out


def ids(w, names=('v',)):
    w.view0 = lambda n: starts0(w, n)
    index_elems(w, names)


def setup2(rels):
    """two vectors and a relation between their elements"""
    def setup(w):
        r = w.rng
        k = r.num([0, 1, 2, 3, 3], 'count')
        w.setvec('v', nelems=k)
        w.setvec('u', nelems=r.choice([k, k, k, 0, 1, 2, 3, 4]))
        w.ndp = 0.0 if w.i % 4 else 0.2
        ids(w, ('v', 'u'))
        w.rel = {}
        peq = r.choice([0.5, 0.9, 1.0])
        for i in range(max(k, 4) + 1):
            for j in range(max(k, 4) + 1):
                w.rel[i, j] = 'Equal' if r.random() < peq else r.choice(rels)
        same = {}
        # elements without bytes (or with the same identity) relate in the same way
        for i, a in enumerate(zip(starts0(w, 'v'), w.state['v'])):
            for j, b in enumerate(zip(starts0(w, 'u'), w.state['u'])):
                key = ((a[0], a[1][2]), (b[0], b[1][2]))
                w.rel[i, j] = same.setdefault(key, w.rel[i, j])
        w.bad = []
    return setup


def relis(w):
    flip = {'Less': 'Greater', 'Greater': 'Less'}

    def h(vl, n, a, ctx):
        px, mx, py, my = [vl.ev(x, ctx) for x in a[1:]]
        l = ident(w, px, mx)
        r = ident(w, py, my)
        i = [k for n_, k in l if n_ == 'v']
        j = [k for n_, k in r if n_ == 'u']
        if i and j:
            return w.rel[i[0], j[0]] == a[0]
        i = [k for n_, k in r if n_ == 'v']
        j = [k for n_, k in l if n_ == 'u']
        if i and j:
            x = w.rel[i[0], j[0]]
            return flip.get(x, x) == a[0]
        if l and r and l == r:
            return a[0] == 'Equal'
        w.bad.append('something that is not an element is compared')
        return False
    return h


class W2:
    pass


def with_dyn(spec, **dyn):
    """World.outcome with extra operators"""
    def setup_(su):
        def f(w):
            if su(w) is False:
                return False
            v0 = w.valuation

            def valuation():
                vl = v0()
                for k, mkh in dyn.items():
                    vl.dyn[k] = mkh(w)
                return vl
            w.valuation = valuation
        return f
    return setup_


def unchanged(w, o, names):
    bad = []
    for n in names:
        b, vv = elems_are(w, o, toks(w.state[n]), n)
        bad += b
    return bad


def expected_cmp(w):
    a, b = len(w.state['v']), len(w.state['u'])
    for i in range(min(a, b)):
        x = w.rel[i, i]
        if x != 'Equal':
            return x
    return 'Less' if a < b else 'Equal' if a == b else 'Greater'


def expected_eq(w):
    a, b = len(w.state['v']), len(w.state['u'])
    return a == b and all(w.rel[i, i] == 'Equal' for i in range(a))


def tag(x):
    if isinstance(x, tuple) and x:
        return str(x[0]).lstrip('#')
    raise Undecided('not an enum value: %r' % (x,))


def s_rel(meth):
    def spec(w, o):
        if w.bad:
            return [w.bad[0]]
        bad = unchanged(w, o, ('v', 'u'))
        if bad:
            return bad
        if o.how == 'abt':
            return ['aborts']
        if o.how == 'unw':
            return [] if w.ndp else ['panics by itself']
        v = o.val
        e = expected_cmp(w)
        if meth in ('eq', 'ne'):
            want = expected_eq(w) == (meth == 'eq')
            return [] if v is want else ['wrong answer about equality']
        if meth in ('lt', 'le', 'gt', 'ge'):
            want = {'lt': e == 'Less', 'le': e in ('Less', 'Equal'), 'gt': e == 'Greater', 'ge': e in ('Greater', 'Equal')}[meth]
            return [] if v is want else ['wrong ordering']
        if meth == 'cmp':
            return [] if tag(v) == e else ['wrong ordering']
        if tag(v) == 'None':
            return [] if e == 'None' else ['comparable vectors are reported as incomparable']
        if e == 'None':
            return ['an incomparable pair is ignored']
        return [] if tag(v[1]) == e else ['wrong ordering']
    return spec


def b_rel(trait, meth):
    def build(sc):
        return sc.call(meth, sc.vec('v'), sc.vec('u'), trait=trait, sub={'U': sc.T})
    return build


# ------------------------------------------------------------------ feeding elements
def setup1(w):
    w.setvec('v')
    w.ndp = 0.0 if w.i % 3 else 0.3
    ids(w)


def fed(w, evs):
    """the events feed elements 0, 1, ... in order"""
    k = 0
    for e in evs:
        l = ident(w, e[1], e[2])
        if not l:
            return None, ['something that is not an element is fed']
        if ('v', k) not in l:
            return None, ['elements are fed out of order, twice or not at all']
        k += 1
    return k, []


def s_hash(w, o):
    k, bad = fed(w, events(o, 'hash'))
    bad += unchanged(w, o, ('v',))
    if bad:
        return bad
    if o.how == 'ret':
        return [] if k == len(w.state['v']) else ['elements are missing from the hash']
    return [] if w.ndp else ['panics by itself']


def s_debug(w, o):
    ev = [e for e in o.mem.log if e[0] in ('entry', 'fmt_elem')]
    q = []
    for e in ev:
        if e[0] == 'entry':
            x = e[1]
            if isinstance(x, tuple) and x and x[0] == 'wide':
                q.append(('entry', x[1], x[2]))
            else:
                q.append(('entry', x, ('tuple',)))
        else:
            q.append(e)
    k, bad = fed(w, q)
    bad += unchanged(w, o, ('v',))
    if bad:
        return bad
    if o.how != 'ret':
        return ['does not return'] if w.ndp == 0.0 else []
    if k != len(w.state['v']):
        return ['elements are missing from the output']
    if len(events(o, 'debug_list')) != 1 or len(events(o, 'finish')) != 1:
        raise Undecided('not written as a list')
    return []


def s_ser(w, o):
    k, bad = fed(w, events(o, 'ser'))
    bad += unchanged(w, o, ('v',))
    if bad:
        return bad
    n = len(w.state['v'])
    sq = events(o, 'seq')
    if o.how != 'ret':
        return ['does not return']
    if not sq:
        return ['no sequence is serialized']
    x = sq[0][1]
    if tag(x) != 'Some' or x[1] != n:
        return ['the announced length is not the number of elements']
    if len(sq) != 1:
        return ['several sequences are serialized']
    if tag(o.val) == 'Ok':
        if k != n:
            return ['elements are missing from the sequence']
        if len(events(o, 'seq_end')) != 1:
            return ['the sequence is not ended exactly once']
        if events(o, 'ser_fail'):
            return ['an error of the serializer is swallowed']
        return []
    if w.ndp == 0.0:
        return ['fails by itself']
    return []


# ------------------------------------------------------------------ clone
def s_clone(w, o):
    els = w.state['v']
    bad = unchanged(w, o, ('v',))
    if bad:
        return bad
    dr = w.dropped(o)
    made = [('clone', tok) for s, a, m, tok in els]
    if any(not (isinstance(x, tuple) and x and x[0] == 'clone') for x in dr if x != ('zst',)):
        return ['an element of the source is dropped']
    if o.how == 'ret':
        vv = w.view(o.val, o.mem, o.vl)
        if vv.bad:
            return vv.bad
        got = [x[2] for x in vv.elems]
        if len(got) != len(made):
            return ['the clone has a different length']
        if w.es and got != made:
            return ['the clone has different elements']
        if [x for x in dr if x != ('zst',)]:
            return ['a clone of an element is dropped']
        if len(events(o, 'clone')) != len(els):
            return ['elements are not cloned exactly once']
        if vv.icap != w.atoms['v.icap']:
            return ['the clone has a different capacity']
        return []
    if o.how == 'unw':
        if w.ndp == 0.0:
            return ['panics by itself']
        if w.es and (len(set(dr)) != len(dr)):
            return ['a clone is dropped twice']
        if w.es and not all(x in made for x in dr):
            return ['something else is dropped']
        return []
    return [] if w.ndp else ['aborts by itself']


def s_clone_from(w, o):
    """v.clone_from(&u)"""
    bad = unchanged(w, o, ('u',))
    if bad:
        return bad
    if o.how != 'ret':
        return [] if w.ndp else ['does not return']
    vv = w.view(o.obj(w.sc.vecs['v']), o.mem, o.vl)
    if vv.bad:
        return vv.bad
    got = [x[2] for x in vv.elems]
    made = [('clone', tok) for s, a, m, tok in w.state['u']]
    if len(got) != len(made):
        return ['the clone has a different length']
    if w.es and got != made:
        return ['the clone has different elements']
    return []


def s_pick(meth):
    def spec(w, o):
        if o.how != 'ret':
            return [] if w.ndp else ['does not return']
        e = expected_cmp(w)
        which = ('v' if e == 'Greater' else 'u') if meth == 'max' else ('u' if e == 'Greater' else 'v')
        vv = w.view(o.val, o.mem, o.vl)
        if vv.bad:
            return vv.bad
        got = [x[2] for x in vv.elems]
        want = [tok for s, a, m, tok in w.state[which]]
        return [] if got == want else ['%s picks the wrong vector' % meth]
    return spec


def cloneof(w):
    def h(vl, n, a, ctx):
        x = vl.ev(a[0], ctx)
        return ('clone', x) if x != ('zst',) else x
    return h


def C13(R):
    ops = [('PartialEq', 'eq', False), ('PartialEq', 'ne', True), ('PartialOrd', 'partial_cmp', False),
           ('PartialOrd', 'lt', True), ('PartialOrd', 'le', True), ('PartialOrd', 'gt', True), ('PartialOrd', 'ge', True),
           ('Ord', 'cmp', False)]
    for tr, m, opt in ops:
        if opt and R.lab.fn('UnsizedVec', tr, m) is None:
            continue
        rels = ORDS if tr == 'Ord' else ORDS + ('None',)
        for ck in ALL:
            decide(R, '<UnsizedVec as %s>::%s' % (tr, m), ck, b_rel(tr, m), with_dyn(None, relis=relis)(setup2(rels)), s_rel(m))
    for ck in ALL:
        decide(R, '<UnsizedVec as Hash>::hash', ck, lambda sc: sc.call('hash', sc.vec(), t.atom('H'), trait='Hash'), setup1, s_hash)
        decide(R, '<UnsizedVec as Debug>::fmt', ck, lambda sc: sc.call('fmt', sc.vec(), t.atom('F'), trait='Debug'), setup1, s_debug)
        decide(R, '<UnsizedVec as Serialize>::serialize', ck,
               lambda sc: sc.call('serialize', sc.vec(), t.atom('SER'), trait='Serialize'), setup1, s_ser)
    decide(R, '<UnsizedVec as Clone>::clone', 'S', lambda sc: sc.call('clone', sc.vec(), trait='Clone'),
           with_dyn(None, cloneof=cloneof)(setup1), s_clone)
    if R.lab.fn('UnsizedVec', 'Clone', 'clone_from') is not None:
        decide(R, '<UnsizedVec as Clone>::clone_from', 'S',
               lambda sc: sc.call('clone_from', sc.vec('v'), sc.vec('u'), trait='Clone'),
               with_dyn(None, cloneof=cloneof)(setup2(ORDS)), s_clone_from)
    for m in ('max', 'min'):
        if R.lab.fn('UnsizedVec', 'Ord', m) is not None:
            for ck in ALL:
                decide(R, '<UnsizedVec as Ord>::' + m, ck,
                       lambda sc: sc.call(m, sc.I.load(sc.st, sc.vec('v')), sc.I.load(sc.st, sc.vec('u')), trait='Ord'),
                       with_dyn(None, relis=relis)(setup2(ORDS)), s_pick(m))
