"""Rules about conversions and stored metadata (C12)."""
from base import *
from base import decide
from terms import mk, TRUE
from model import leaf
from rules_vec import *


def src_vec(sc, n='s'):
    """a vector of sized S, by value"""
    a = lambda x: t.atom('%s.%s' % (n, x))
    return rec('UnsizedVec', *[UNIT if 'PhantomData' in ty else rec('Vec', a('ptr'), a('icap'), a('len'))
                               for _, ty in sc.struct('UnsizedVec')[0][2]])


def b_unsize_vec(sc):
    return sc.call('unsize', src_vec(sc), sub={'T': 'S', 'U': sc.T})


def setup_unsize(w):
    r = w.rng
    s, a, m, tok = w.elem(('x', 0))
    w.types['S'] = (s, a)
    w.atoms[('umeta', 'S', w.sc.T)] = m
    k = r.num([0, 1, 2, 3, 4], 'count')
    cap = t.M64 if s == 0 else max(k, r.num([k, k, k + 1, k + 3], 'icap'))
    p = a
    if s and cap:
        p, w.mem = w.mem.alloc(cap * s, a)
    for i in range(k):
        if s:
            w.put(p + i * s, ('v', i), s)
    w.src = (p, cap * s, m, s, a)
    w.state['v'] = [(s, a, m, ('v', i) if s else ('zst',)) for i in range(k)]
    w.atoms.update({'s.ptr': p, 's.icap': cap, 's.len': k})
    w.ndp = 0.0


def s_unsize(w, o):
    if o.how != 'ret':
        return ['does not return']
    vv = w.view(o.val, o.mem, o.vl)
    if vv.bad:
        return vv.bad
    p, cap, m, s, a = w.src
    bad = []
    exp = toks(w.state['v'])
    if len(vv.elems) != len(exp):
        bad.append('the length changes')
    elif vv.toks() != exp:
        bad.append('wrong metadata or contents at some index')
    if vv.ptr != p:
        bad.append('not the same storage')
    if vv.bytecap != cap:
        bad.append('not the same byte capacity')
    if vv.align != a:
        bad.append('not the same alignment')
    return bad + untouched(w, o)


def untouched(w, o):
    bad = []
    if w.dropped(o):
        bad.append('something is dropped')
    live = lambda m: {x for x, (s, al, k) in m.allocs.items() if k == 'heap'}
    if live(o.mem) != live(w.mem):
        bad.append('storage is allocated, freed or leaked')
    return bad


def b_from_vec(sc):
    f = sc.lab.fn('UnsizedVec', 'From', 'from')
    if f is None:
        raise Missing('UnsizedVec as From::from')
    return sc.run(f, [src_vec(sc).a[1]])


def b_to_vec(sc):
    f = sc.lab.fn('Vec', 'From', 'from')
    if f is None:
        raise Missing('Vec as From<UnsizedVec>::from')
    return sc.run(f, [src_vec(sc)])


def setup_same(w):
    w.setvec('s')
    w.ndp = 0.0


def s_same(w, o):
    if o.how != 'ret':
        return ['does not return']
    vv = w.view(o.val, o.mem, o.vl)
    if vv.bad:
        return vv.bad
    bad = []
    if vv.toks() != toks(w.state['s']):
        bad.append('the elements change')
    if vv.ptr != w.atoms['s.ptr']:
        bad.append('not the same storage')
    if vv.icap != w.atoms['s.icap']:
        bad.append('not the same capacity')
    return bad + untouched(w, o)


# ------------------------------------------------------------------ metadata round trip
def b_trip(ins, look):
    """put a value in, then look it up"""
    def build(sc):
        v = sc.vec()
        if ins == 'push':
            sc.call('push', v, sc.byval())
        elif ins == 'insert':
            sc.call('insert', v, t.atom('index'), sc.byval())
        else:
            sc.call('push_with', v, sc.emplacable())
        if sc.st.dead:
            raise Undecided('no path')
        if look == 'get':
            return sc.call('get', v, t.atom('at'))
        if look == 'pop':
            e = sc.call('pop_into', v)
            rcv = sc.emplacer()
            x = t.pl(e, 'Some', 0)
            return sc.I.branch(sc.st, t.tagis(e, 'Some'), lambda s: sc.I.apply(s, fld(fld(x, 0), 0), [rcv], 'pop'), lambda s: UNIT)
    return build


def setup_trip(ins, look, zst=False):
    def setup(w):
        w.ndp = 0.0
        if zst:
            w.es = 0
            w.types['E'] = (0, w.al)
        w.setvec(nelems=0 if zst else None)
        w.setbuf()
        w.setx(where='none' if ins == 'push_with' else 'ext')
        k = len(w.state['v'])
        at = k
        if ins == 'insert':
            at = w.rng.randint(0, k)
            w.atoms['index'] = at
        w.atoms['at'] = at
    return setup


def s_trip(w, o):
    if o.how != 'ret':
        return ['does not return']
    s, a, m, tok = w.state['x']
    rc = events(o, 'rcv')
    if rc:
        return [] if rc[0][3] == m else ['the metadata of a stored element is not given back']
    if not (isinstance(o.val, tuple) and o.val[0] == '#Some'):
        return ['the stored element is not found']
    x = o.val[1]
    if w.sc.ck == 'S':
        return []
    if not (isinstance(x, tuple) and x and x[0] == 'wide'):
        raise Undecided('reference')
    return [] if x[2] == m else ['the metadata of a stored element is not given back']


def trips(R):
    for ck in 'EAU':
        for ins in ('push', 'insert', 'push_with'):
            decide(R, 'UnsizedVec::get after ' + ins, ck, b_trip(ins, 'get'), setup_trip(ins, 'get'), s_trip, n=R.n(60))
            if ins != 'insert':
                decide(R, 'UnsizedVec::pop_into after ' + ins, ck, b_trip(ins, 'pop'), setup_trip(ins, 'pop'), s_trip, n=R.n(60))
    for ins in ('push', 'push_with'):
        decide(R, 'UnsizedVec::get after %s of a slice of zero-sized items' % ins, 'E', b_trip(ins, 'get'), setup_trip(ins, 'get', True), s_trip, n=R.n(30))


def C12(R):
    for ck in 'EAU':
        decide(R, 'UnsizedVec::unsize', ck, b_unsize_vec, setup_unsize, s_unsize, kinds={'S': 'S'})
    decide(R, 'UnsizedVec as From<Vec>', 'S', b_from_vec, setup_same, s_same)
    decide(R, 'Vec as From<UnsizedVec>', 'S', b_to_vec, setup_same, s_same)
    trips(R)
