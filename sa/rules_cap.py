"""Rules about storage: allocation bookkeeping (C08), alignment changes (C09), capacity promises (C10),
failing reservations (C22)."""
from base import *
from rules_vec import *
from rules_vec import OPS as VOPS
from rules_vec import b_then_drop
from model import leaf
from terms import mk, TRUE, FALSE, ite, and_, not_, eq

IMAX = (1 << 63) - 1
A = t.atom
RES = {   # method -> arguments
    'reserve': ('add',), 'reserve_capacity_bytes': ('add', 'bytes'),
    'reserve_capacity_bytes_align': ('add', 'bytes', 'al'),
    'reserve_exact': ('add',), 'reserve_exact_capacity_bytes': ('add', 'bytes'),
    'reserve_exact_capacity_bytes_align': ('add', 'bytes', 'al')}
TRY = {'try_' + k: v for k, v in RES.items()}
SHR = {'shrink_to_fit': (), 'shrink_to': ('mincap',), 'shrink_capacity_bytes_to': ('mincap', 'minbytes'),
       'shrink_capacity_bytes_align_to': ('mincap', 'minbytes', 'al')}
WITH = {'with_capacity': ('add',), 'with_capacity_bytes': ('add', 'bytes'),
        'with_capacity_bytes_align': ('add', 'bytes', 'al')}
GET = ('len', 'capacity', 'byte_len', 'byte_capacity', 'align')


def b_cap(meth, args):
    def build(sc):
        v = sc.vec()
        r = sc.call(meth, v, *[A(a) for a in args])
        if r is None or sc.st.dead:
            return None
        obs = []
        for g in GET:
            x = sc.call(g, v)
            if x is None:
                raise Undecided('getter ' + g)
            obs.append(x)
        return rec('tuple', r, *obs)
    return build


def b_with(meth, args):
    def build(sc):
        r = sc.call(meth, *[A(a) for a in args])
        if r is None or sc.st.dead:
            return None
        p = sc.I.new_obj(sc.st, r, 'w')
        sc.vecs['v'] = p
        obs = []
        for g in GET:
            obs.append(sc.call(g, p))
        return rec('tuple', UNIT, *obs)
    return build


BIGS = (IMAX, IMAX - 1, IMAX - 63, 1 << 62, t.M64, t.M64 - 1, t.M64 - 15, 1 << 63, 1 << 58, 1 << 57)


def setup_cap(mode, vec=True, nelems=None):
    """mode: 'ok' nothing fails, 'fail' the allocator may fail, 'big' sizes near the limits"""
    def setup(w):
        r = w.rng
        if vec:
            w.setvec(nelems=nelems(r) if nelems else None)
        else:
            w.state['v'] = []
        w.ndp = 0.0 if mode != 'fail' else r.choice([0.3, 0.6, 1.0])
        small = lambda: r.num([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 24, 40, 64, 100, 256])
        w.atoms['add'] = r.num([0, 0, 1, 1, 2, 3, 4, 7, 20])
        w.atoms['bytes'] = small()
        w.atoms['al'] = r.pow2([1, 2, 4, 8, 8, 16, 32, 64, 128])
        w.atoms['mincap'] = r.num([0, 0, 1, 2, 3, 4, 5, 6, 9, t.M64])
        w.atoms['minbytes'] = r.num([0, 0, 1, 3, 8, 17, 40, 64, 100, 200, t.M64])
        if mode == 'big':
            k = r.randrange(4)
            if k in (0, 3):
                w.atoms['add'] = r.choice(BIGS)
            if k in (1, 3):
                w.atoms['bytes'] = r.choice(BIGS)
            if k == 2:
                w.atoms['al'] = r.choice([1 << 40, 1 << 60, 1 << 61, 1 << 62, 1 << 63, 3, 0, 12, t.M64])
    return setup


class Cap:
    """what is known before, and what the getters say after"""

    def __init__(self, w, o, args):
        a = w.atoms
        self.els = w.state['v']
        n = len(self.els)
        self.n = n
        ck = w.sc.ck
        self.args = {k: a[k] for k in args}
        if ck == 'S':
            self.cap0 = a.get('v.icap', 0)
            self.es, self.al0 = w.es, w.al
            self.bcap0 = self.cap0 * w.es if w.es else 0
            self.blen0 = n * w.es
        else:
            self.cap0 = a.get('v.icap', 0)
            self.es = None
            self.al0 = a.get('v.align', w.al)
            self.bcap0 = a.get('v.cap', 0)
            self.blen0 = used(self.els, self.al0)
        self.ptr0 = a.get('v.ptr')
        self.elal = max([e[1] for e in self.els] + [1]) if ck == 'U' else w.al
        self.got = None
        if o is not None and o.how == 'ret' and isinstance(o.val, tuple) and len(o.val) == 7:
            self.got = dict(zip(GET, o.val[2:]))
            self.res = o.val[1]


def used(els, al):
    off = 0
    for s, a, m, x in els:
        off = -(-off // al) * al + s
    return -(-off // al) * al


def up(x, a):
    return -(-x // a) * a


def consistent(w, o, k, vv):
    """the getters agree with the vector itself"""
    g = k.got
    bad = []
    if g is None:
        raise Undecided('getters')
    if g['len'] != len(vv.elems):
        bad.append('len() is not the number of elements')
    if w.sc.ck == 'S':
        if w.es and g['byte_capacity'] != vv.bytecap:
            bad.append('byte_capacity() is not the size of the storage')
        if w.es and g['capacity'] != vv.icap:
            bad.append('capacity() is not the capacity')
        if g['byte_len'] != len(vv.elems) * w.es:
            bad.append('byte_len() is not the bytes in use')
    else:
        if g['byte_capacity'] != vv.bytecap:
            bad.append('byte_capacity() is not the size of the storage')
        if g['capacity'] != vv.icap:
            bad.append('capacity() is not the capacity')
        if g['byte_len'] != vv.used:
            bad.append('byte_len() is not the bytes in use')
    if g['align'] != vv.align:
        bad.append('align() is not the alignment of the storage')
    return bad


def ok_result(o):
    """True: success, ('#Err', ..): failure"""
    r = o.val[1]
    if r == ('tuple',) or (isinstance(r, tuple) and r[0] == '#Ok'):
        return True
    if isinstance(r, tuple) and r[0] == '#Err':
        return False
    raise Undecided('result %r' % (r,))


def pow2(x):
    return x > 0 and not x & (x - 1)


def s_reserve(meth, args):
    exact = 'exact' in meth or meth.startswith('with')
    tr = meth.startswith('try')

    def spec(w, o):
        k = Cap(w, o, args)
        ck = w.sc.ck
        a = k.args
        add, by = a.get('add', 0), a.get('bytes', 0)
        al = a.get('al', 1)
        if ck == 'U' and not pow2(al):
            if o.how == 'ret':
                # an error for another reason may come first
                return [] if tr and ok_result(o) is False else ['an alignment that is no power of two is accepted']
            return []
        if o.how != 'ret':
            if o.how == 'unw' and tr:
                return ['the fallible reservation panics']
            if o.how == 'abt' and tr:
                return ['the fallible reservation aborts']
            if not fails_allowed(w, k, add, by, al):
                return ['the reservation fails although nothing prevents it']
            return []
        vv = w.decode(o)
        if vv.bad:
            return vv.bad
        bad = consistent(w, o, k, vv)
        if vv.toks() != toks(k.els):
            return bad + ['the elements change']
        if not ok_result(o):
            if not fails_allowed(w, k, add, by, al):
                bad.append('the reservation fails although nothing prevents it')
            if k.ptr0 is not None and w.sc.ck != 'S' and (vv.ptr, vv.bytecap, vv.align) != (k.ptr0, k.bcap0, k.al0):
                bad.append('a failed reservation changes the byte storage')
            return bad
        g = k.got
        zst = ck == 'S' and w.es == 0
        if not zst:
            if g['capacity'] < k.n + add:
                bad.append('room for fewer elements than reserved')
            if g['byte_capacity'] < g['byte_len'] + by:
                bad.append('room for fewer bytes than reserved')
        if ck == 'U' and g['align'] < al:
            bad.append('alignment lower than reserved')
        if ck == 'U' and g['align'] > max(al, k.al0, 8 if k.ptr0 is None and 'al' not in args else 1):
            bad.append('alignment higher than reserved')
        suff = k.cap0 - k.n >= add and k.bcap0 - k.blen0 >= by and (ck != 'U' or k.al0 >= al)
        if k.ptr0 is not None and (suff or zst) and (vv.ptr, vv.bytecap) != (k.ptr0, k.bcap0):
            bad.append('storage that suffices is reallocated')
        if k.ptr0 is not None and k.cap0 - k.n >= add and ck != 'S' and vv.icap != k.cap0:
            bad.append('a capacity that suffices is changed')
        if exact and not zst:
            if ck == 'S':
                if g['capacity'] > max(k.cap0, k.n + add, k.n + up(by, w.es) // w.es):
                    bad.append('more elements reserved than requested')
            else:
                if g['capacity'] > max(k.cap0, k.n + add):
                    bad.append('more elements reserved than requested')
                na = max(al, k.al0) if ck == 'U' else w.al
                l1 = used(k.els, na)
                # the old and the new size are each rounded up to the alignment
                lim = up(max(k.bcap0 + l1 - k.blen0, l1 + by), na)
                if ck == 'U':
                    lim += na
                if k.ptr0 is None and ck == 'U':
                    lim = up(by, vv.align)
                if g['byte_capacity'] > lim:
                    bad.append('more bytes reserved than requested')
        return bad
    return spec


def fails_allowed(w, k, add, by, al):
    if w.ndp > 0:
        return True
    ck = w.sc.ck
    if ck == 'S':
        n = max(k.n + add, k.n + (up(by, w.es) // w.es if w.es else 0))
        return n * max(w.es, 1) > 1 << 15 or n > t.M64
    na = max(al, k.al0) if ck == 'U' else w.al
    return (k.n + add) * 16 > 1 << 15 or used(k.els, na) + by + na > 1 << 14


def s_shrink(meth, args):
    def spec(w, o):
        k = Cap(w, o, args)
        ck = w.sc.ck
        a = k.args
        if ck == 'U' and not pow2(a.get('al', 1)):
            return ['an alignment that is no power of two is accepted'] if o.how == 'ret' else []
        if o.how != 'ret':
            return ['shrinking does not return']
        vv = w.decode(o)
        if vv.bad:
            return vv.bad
        bad = consistent(w, o, k, vv)
        if vv.toks() != toks(k.els):
            return bad + ['the elements change']
        g = k.got
        mc = a.get('mincap', 0)
        mb = a.get('minbytes', 0 if meth == 'shrink_to_fit' else t.M64)
        ma = a.get('al', 1 if meth == 'shrink_to_fit' else 1 << 63)
        if ck == 'S' and w.es == 0:
            return bad
        if g['capacity'] < max(k.n, min(mc, k.cap0)):
            bad.append('capacity below the bound')
        if g['capacity'] > k.cap0:
            bad.append('the capacity grows')
        if g['byte_capacity'] < min(mb, k.bcap0):
            bad.append('byte capacity below the bound')
        if g['byte_capacity'] > k.bcap0:
            bad.append('the byte capacity grows')
        if g['align'] > k.al0:
            bad.append('the alignment grows')
        if g['align'] < max(k.elal, min(ma, k.al0) if ck == 'U' else k.elal):
            bad.append('alignment below the bound')
        if meth == 'shrink_to_fit' and w.ndp == 0:
            if g['capacity'] != k.n:
                bad.append('unused capacity is kept')
            if g['byte_capacity'] != g['byte_len']:
                bad.append('unused bytes are kept')
            if ck == 'U' and g['align'] != k.elal:
                bad.append('an alignment higher than that of every element is kept')
        return bad
    return spec


def s_new(w, o):
    w.state.setdefault('v', [])
    k = Cap(w, o, ())
    if o.how != 'ret':
        return ['does not return']
    vv = w.decode(o)
    bad = vv.bad or consistent(w, o, k, vv)
    if vv.elems:
        bad.append('a new vector has elements')
    if vv.bytecap or o.mem.log:
        bad.append('a new vector allocates')
    if w.sc.ck == 'U' and vv.align != 8:
        bad.append('the default alignment is not that of usize')
    return bad


def setup_new(w):
    w.state['v'] = []
    w.ndp = 0.0


def C10(R):
    for ck in ALL:
        decide(R, 'UnsizedVec::new', ck, b_with('new', ()), setup_new, s_new, n=20)
        if R.lab.fn('UnsizedVec', 'Default', 'default'):
            decide(R, '<UnsizedVec as Default>::default', ck,
                   lambda sc: b_trait_default(sc), setup_new, s_new, n=20)
        for m, args in list(RES.items()) + list(TRY.items()):
            decide(R, 'UnsizedVec::' + m, ck, b_cap(m, args), setup_cap('ok'), s_reserve(m, args), n=R.n(150))
        for m, args in WITH.items():
            decide(R, 'UnsizedVec::' + m, ck, b_with(m, args), setup_cap('ok', False), s_reserve(m, args), n=R.n(80))
        for m, args in SHR.items():
            decide(R, 'UnsizedVec::' + m, ck, b_cap(m, args), setup_cap('ok'), s_shrink(m, args), n=R.n(200))


        for name, op, b, su in VOPS:
            if op in ('insert', 'push', 'insert_with', 'push_with'):
                decide(R, name + ' with spare capacity', ck, b(), su(), s_spare, n=R.n(100))


def s_spare(w, o):
    """what has been reserved is used"""
    k = Cap(w, None, ())
    x = w.state['x']
    if o.how != 'ret' or len(k.els) >= k.cap0:
        return []
    if w.sc.ck != 'S' and (used(k.els + [x], k.al0) > k.bcap0 or x[1] > k.al0):
        return []
    vv = w.decode(o)
    if vv.bad:
        return []
    if vv.ptr != k.ptr0 or vv.icap != k.cap0 or w.sc.ck != 'S' and vv.bytecap != k.bcap0:
        return ['storage that suffices is reallocated']
    return []


def b_trait_default(sc):
    r = sc.call('default', trait='Default')
    p = sc.I.new_obj(sc.st, r, 'w')
    sc.vecs['v'] = p
    return rec('tuple', UNIT, *[sc.call(g, p) for g in GET])


# ------------------------------------------------------------------ C09
def s_align(meth, args):
    base = s_reserve(meth, args) if 'reserve' in meth else s_shrink(meth, args)

    def spec(w, o):
        keep = ('the elements change', 'lower', 'below', 'higher', 'element', 'align', 'buffer', 'does not return', 'undefined')
        return [b for b in base(w, o) if any(x in b for x in keep)]
    return spec


def s_over(op):
    """adding an over-aligned element keeps all others"""
    def spec(w, o):
        if o.how == 'abt' or (o.how == 'unw' and w.ndp > 0):
            return []
        els, x = w.state['v'], w.state['x']
        i = min(w.atoms.get('index', len(els)), len(els)) if 'insert' in op else len(els)
        vv = w.decode(o)
        if vv.bad:
            return vv.bad
        if o.how != 'ret':
            return ['adding an element of a higher alignment does not return']
        bad = []
        if vv.toks() != toks(els[:i]) + toks([x]) + toks(els[i:]):
            bad.append('an element changes when the alignment is raised')
        if vv.align < x[1]:
            bad.append('the alignment is lower than that of the new element')
        if vv.align < max([e[1] for e in els] + [1]):
            bad.append('the alignment is lower than that of an element')
        return bad
    return spec


def over(su):
    def setup(w):
        w.ndp = 0.0
        r = su(w)
        w.ndp = 0.0
        k = len(w.state['v'])
        if 'index' in w.atoms:
            w.atoms['index'] = w.rng.randint(0, k)
        return r
    return setup


def C09(R):
    many = lambda r: max(2, r.num([2, 2, 3, 3, 4, 5], 'count'))
    for m, args in list(RES.items()) + list(TRY.items()):
        if 'al' in args:
            decide(R, 'UnsizedVec::' + m, 'U', b_cap(m, args), setup_cap('ok', nelems=many), s_align(m, args), n=R.n(400))
            decide(R, 'UnsizedVec::' + m + ' with a failing allocator', 'U', b_cap(m, args), setup_cap('fail', nelems=many),
                   s_align(m, args), n=R.n(200))
    for m, args in SHR.items():
        decide(R, 'UnsizedVec::' + m, 'U', b_cap(m, args), setup_cap('ok', nelems=many), s_align(m, args), n=R.n(400))
        decide(R, 'UnsizedVec::' + m + ' with a failing allocator', 'U', b_cap(m, args), setup_cap('fail', nelems=many),
               s_align(m, args), n=R.n(200))
    for name, op, b, su in VOPS:
        if 'push' in op or 'insert' in op:
            decide(R, name, 'U', b(), over(su()), s_over(op), n=R.n(300))


# ------------------------------------------------------------------ C08
def s_store(kind):
    """the records match the allocation, nothing leaks, the element table is freed once"""
    def spec(w, o):
        if o.how == 'abt':
            return []
        ck = w.sc.ck
        bad = []
        if kind == 'dropped':
            if not events(o, 'enddrop'):
                return []
            if o.how == 'ret':
                if w.leaks(o, set()):
                    bad.append('the element storage is leaked')
                if ck != 'S' and len(events(o, 'free_info')) != 1:
                    bad.append('the element table is freed %d times' % len(events(o, 'free_info')))
            elif len(events(o, 'free_info')) > 1:
                bad.append('the element table is freed twice')
            return bad
        vv = w.decode(o)
        bad = [b for b in vv.bad if 'buffer' in b or 'dangling' in b or 'undefined' in b]
        keep = {vv.ptr} if vv.bytecap else set()
        if w.leaks(o, keep):
            bad.append('storage is leaked')
        if events(o, 'free_info'):
            bad.append('the element table is freed early')
        return bad
    return spec


def failing(su):
    def setup(w):
        r = su(w)
        w.ndp = [0.0, 0.3, 0.7][w.i % 3]
        return r
    return setup


def b_then_push(m, args):
    def build(sc):
        v = sc.vec()
        r = sc.call(m, v, *[A(a) for a in args])
        if r is None or sc.st.dead:
            return None
        return sc.call('push_with', v, sc.emplacable())
    return build


def then_push(su):
    def setup(w):
        r = su(w)
        w.setx(where='none')
        w.atoms['mincap'] = w.rng.num([0, 1, 3, 5, 9])
        return r
    return setup


def C08(R):
    for ck in ALL:
        for m, args in list(TRY.items()) + list(SHR.items()):
            decide(R, 'UnsizedVec::' + m, ck, b_cap(m, args), failing(setup_cap('fail')), s_store('live'), n=R.n(150))
        for m, args in WITH.items():
            decide(R, 'UnsizedVec::' + m, ck, b_with(m, args), setup_cap('ok', False), s_store('live'), n=R.n(60))
        for name, op, b, su in VOPS:
            decide(R, name, ck, b(), failing(su()), s_store('live'), n=R.n(120))
            decide(R, name + ', then drop', ck, b_then_drop(b()), failing(su()), s_store('dropped'), n=R.n(90))
        for m, args in list(SHR.items()) + list(RES.items()):
            decide(R, m + ', then drop', ck, b_then_drop(b_cap(m, args)), failing(setup_cap('fail')), s_store('dropped'), n=R.n(60))
            decide(R, m + ', then push_with', ck, b_then_push(m, args), then_push(setup_cap('ok')), s_store('live'), n=R.n(100))


# ------------------------------------------------------------------ C22
def overflows(w, k, add, by, al):
    """no layout for what is asked for"""
    ck = w.sc.ck
    if ck == 'S':
        if w.es == 0:
            return k.n + add > t.M64
        need = max(k.n + add, k.n + up(by, w.es) // w.es)
        return need * w.es > IMAX - (w.al - 1) and need > k.cap0
    na = max(al, k.al0) if ck == 'U' else w.al
    if by == 0 and na <= k.al0:
        return False
    l1 = used(k.els, na)
    return l1 + up(by, na) > up(IMAX - (na - 1), 1) and by > k.bcap0 - k.blen0


def layouts_ok(o):
    bad = []
    for e in o.mem.log:
        if e[0] == 'allocfail':
            s, a = e[1], e[2]
            if not isinstance(s, int) or not isinstance(a, int) or not pow2(a) or up(s, a) > IMAX:
                bad.append('memory is requested with an invalid layout')
    return bad


def s_try(meth, args, mode, debug=False):
    tr = meth.startswith('try')

    def spec(w, o):
        k = Cap(w, o, args)
        a = k.args
        add, by, al = a.get('add', 0), a.get('bytes', 0), a.get('al', 1)
        ck = w.sc.ck
        if ck == 'U' and not pow2(al):
            if o.how == 'ret' and not (tr and ok_result(o) is False):
                return ['an alignment that is no power of two is accepted']
            return []
        bad = layouts_ok(o)
        big = overflows(w, k, add, by, al)
        if tr:
            if o.how != 'ret':
                return bad + ['a fallible reservation %s' % {'unw': 'panics', 'abt': 'aborts'}[o.how]]
            vv = w.decode(o)
            if vv.bad:
                return bad + vv.bad
            if vv.toks() != toks(k.els):
                return bad + ['the elements change']
            ok = ok_result(o)
            if ok:
                if big:
                    bad.append('an impossible reservation succeeds')
                zst = ck == 'S' and w.es == 0
                if not zst:
                    if k.got['capacity'] < k.n + add:
                        bad.append('room for fewer elements than reserved')
                    if k.got['byte_capacity'] < k.got['byte_len'] + by:
                        bad.append('room for fewer bytes than reserved')
            else:
                if (vv.ptr, vv.bytecap, vv.align) != (k.ptr0, k.bcap0, k.al0) and not (ck == 'S' and by):
                    bad.append('a failed reservation changes the byte storage')
                if ck == 'S' and vv.ptr != k.ptr0 and not (by and 'bytes' in args):
                    bad.append('a failed reservation changes the storage')
                e = err_kind(o.val[1])
                if e not in ('CapacityOverflow', 'AllocError'):
                    raise Undecided('error %r' % (o.val[1],))
                if e == 'CapacityOverflow' and not big and mode == 'fail':
                    bad.append('an allocation failure is reported as an overflow')
            return bad
        # infallible forms
        if o.how == 'ret':
            vv = w.decode(o)
            if vv.bad:
                return bad + vv.bad
            if big:
                bad.append('an impossible reservation succeeds')
            if not (ck == 'S' and w.es == 0):
                if k.got['capacity'] < k.n + add:
                    bad.append('carries on without the room that was asked for')
                if k.got['byte_capacity'] < k.got['byte_len'] + by:
                    bad.append('carries on without the bytes that were asked for')
            if ck == 'U' and k.got['align'] < al:
                bad.append('carries on without the alignment that was asked for')
        elif o.how == 'unw':
            if mode == 'fail' and not big:
                bad.append('an allocation failure panics instead of reaching the allocation error handler')
            vv = w.decode(o)
            if vv.bad:
                return bad + vv.bad
            if vv.toks() != toks(k.els):
                bad.append('the elements change')
        elif mode == 'big' and overflow_only(w, k, add, by, al):
            bad.append('an overflow reaches the allocation error handler')
        return bad
    return spec


def overflow_only(w, k, add, by, al):
    return False


def err_kind(v):
    """variant name of the error inside #Err(TryReserveError { kind })"""
    x = v
    for _ in range(5):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0].lstrip('#') in ('CapacityOverflow', 'AllocError'):
            return x[0].lstrip('#')
        if isinstance(x, tuple) and len(x) >= 2:
            x = x[1]
        else:
            return None
    return None


def C22(R):
    for ck in ALL:
        for m, args in list(TRY.items()) + list(RES.items()):
            for mode in ('fail', 'big'):
                decide(R, 'UnsizedVec::%s, %s' % (m, {'fail': 'failing allocator', 'big': 'limits'}[mode]), ck,
                       b_cap(m, args), setup_cap(mode), s_try(m, args, mode), n=R.n(120))
    dbg = R.debug_lab()
    if dbg is not None:
        for ck in ALL:
            for m, args in TRY.items():
                for mode in ('ok', 'fail', 'big'):
                    decide(R, 'UnsizedVec::%s, %s, with debug assertions' % (m, mode), ck,
                           b_cap(m, args), setup_cap(mode), s_try(m, args, mode), n=R.n(90), lab=dbg)


# ------------------------------------------------------------------ C23
def setup_long(su):
    """longer vectors, some of large elements, mostly without spare capacity: growth is compared with the size"""
    def setup(w):
        setvec, elem = w.setvec, w.elem
        r = w.rng
        huge = w.i % 12 == 0 and w.sc.ck != 'S'

        def large(tok):
            s, al, m, tok = elem(tok)
            if huge and s:
                k = max(1, 12000 // s)
                s *= k
                if w.sc.ck == 'E':
                    m *= k
                else:
                    w.metas[m] = (s, al)
            return s, al, m, tok

        def vec(*a, **kw):
            w.elem = large
            r1 = setvec(nelems=r.choice([2, 3] if huge else [1, 2, 4, 9, 16, 30, 50] if w.i % 5 == 0 else [1, 2, 4, 9, 16]),
                        tight=r.random() < 0.8)
            w.elem = elem
            return r1
        w.setvec = vec
        try:
            su(w)
        finally:
            w.setvec = setvec
        w.ndp = 0.0
        w.big = 1 << 26
    return setup


def s_grow(w, o):
    if o.how != 'ret':
        return []
    k = Cap(w, None, ())
    if 4 * (k.bcap0 + w.state['x'][0]) > w.big:       # the allocator may refuse to give much more
        return []
    vv = w.decode(o)
    if vv.bad:
        return []
    bad = []
    if vv.icap != k.cap0 and k.cap0 and 4 * vv.icap < 5 * k.cap0:
        bad.append('an append that needs room for one more element does not enlarge the capacity by a constant factor')
    if w.sc.ck != 'S' and k.bcap0:
        al = getattr(vv, 'align', k.al0) or k.al0
        if al < k.al0:
            bad.append('an append lowers the alignment')
        elif al == k.al0 or w.sc.ck != 'U':
            if vv.bytecap != k.bcap0 and 4 * vv.bytecap < 5 * k.bcap0:
                bad.append('an append that needs more bytes does not enlarge the byte capacity by a constant factor')
            if vv.bytecap == k.bcap0 and vv.ptr != k.ptr0:
                bad.append('an append reallocates without need')
    return bad


def C23(R):
    for ck in ALL:
        decide(R, 'UnsizedVec::push', ck, b_push, setup_long(setup_push), s_grow, n=R.n(150))
        decide(R, 'UnsizedVec::push_with', ck, b_push_with, setup_long(setup_pushw), s_grow, n=R.n(150))
        if ck != 'S':
            decide(R, 'UnsizedVec::push_unsize', ck, b_unsize('push_unsize'), setup_uns(setup_long(setup_pushw)), s_grow,
                   n=R.n(150), kinds={'S': 'S'})
