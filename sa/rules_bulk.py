"""Rules about bulk construction (C14)."""
from base import *
from base import decide as decide_
from terms import mk, TRUE, FALSE, ite, not_, eq, some, enum, NONE, lt
from rules_vec import ALL
from evalr import Undecided
from model import leaf, h_emp

arith = t.arith


def itm(what, k):
    return mk('itm', what, k)


# ------------------------------------------------------------------ a supplier of emplacables
def h_iter(I, st, v, p, what, site):
    """IT: yields items 0 .. n-1, then nothing; may panic; claims any length"""
    bt = I.bt
    if what == 'size_hint':
        return rec('tuple', t.atom('hint.lo'), t.atom('hint.hi'))
    if what == 'len':
        return t.atom('hint.lo')
    if v.op != 'rec' or what != 'next' or p.op != 'ref':
        raise Abandon('%s of the item source' % what)
    pos = v.a[1]
    I.fork_unwind(st, I.nd('IT_panic'))
    if st.dead:
        return None
    more = lt(pos, t.atom('IT.n'))

    def yes(s):
        bt.log(s, 'yield', pos)
        I.store(s, p, rec('foreign:IT', arith('add', pos, c(1))))
        return some(item(I, pos))

    def no(s):
        bt.log(s, 'end')
        return NONE
    return I.branch(st, more, yes, no)


def item(I, k):
    sc = I.scene
    if sc.items == 'emp':
        return rec('Emplacable', rec('ManuallyDrop', rec('foreign:EMPi', k)), UNIT)
    raise Abandon('items')


def h_empi(I, st, v, p, args, site):
    """the k-th producer"""
    sc, bt = I.scene, I.bt
    k = v.a[1]
    I.fork_unwind(st, I.nd('EMPi_pre'))
    if st.dead:
        return None
    bt.log(st, 'emp', k)
    m = UNIT if sc.ck == 'S' else itm('meta', k)
    inner = I.new_obj(st, rec('foreign:INi', k), 'inner')
    s2 = site + ('empi',) if isinstance(site, tuple) else (site, 'empi')
    r = I.apply(st, args[0], [rec('Layout', sc.xsize(m), sc.xalign(m)), m, inner], s2)
    if st.dead or r is None:
        return None
    I.fork_unwind(st, I.nd('EMPi_post'))
    return UNIT if not st.dead else None


def h_ini(I, st, v, p, args, site):
    sc, bt = I.scene, I.bt
    k = v.a[1]
    m = UNIT if sc.ck == 'S' else itm('meta', k)
    dst = bt.thin(args[0])

    def null(s):
        bt.log(s, 'dropval', itm('tok', k))
        I.fork_unwind(s, I.nd('INi_droppanic'))
        return UNIT if not s.dead else None

    def put(s):
        def w(x):
            if dst.op == 'ref':
                I.store(s, dst, x)
            else:
                bt.setmem(s, mk('mput', bt.mem(s), dst, x, sc.xsize(m)))
        w(t.atom('GARBAGE'))
        I.fork_unwind(s, I.nd('INi_panic'))
        if s.dead:
            return None
        w(itm('tok', k))
        if dst.op != 'ref':
            bt.ub_if(I, s, not_(eq(t.arith('rem', dst, sc.xalign(m)), c(0))), 'value emplaced at a misaligned address')
        bt.log(s, 'put', k)
        return UNIT
    return I.branch(st, bt.is_null(dst), null, put)


def h_it_drop(I, st, v, p, args, site):
    return UNIT


FOREIGN = {'ITER': h_iter, 'EMPi': h_empi, 'INi': h_ini}


def src(I):
    I.scene.items = 'emp'
    return rec('foreign:IT', c(0))


def dyn_itm(w):
    def h(vl, n, a, ctx):
        k = vl.ev(a[1], ctx)
        if not isinstance(k, int) or not 0 <= k < len(w.items):
            return P
        s, al, m, tok = w.items[k]
        return m if a[0] == 'meta' else tok
    return h


def with_items(su):
    def f(w):
        if su(w) is False:
            return False
        r = w.rng
        n = r.num([0, 1, 2, 3, 3, 4], 'count')
        w.items = [w.elem(('i', k)) for k in range(n)]
        w.atoms['IT.n'] = n
        lo = r.num([n, n, 0, max(0, n - 1), n + 1, n + 5])
        if r.random() < 0.1:
            # more than fits, also where the product of count and size wraps around to something small
            lo = r.choice([t.M64 - r.randint(0, 3), min(t.M64, (1 << 64) // max(w.es, 1) + r.randint(0, 3))])
        w.atoms['hint.lo'] = lo
        w.atoms['hint.hi'] = r.choice([('#None',), ('#Some', lo), ('#Some', lo + 3), ('#Some', 0)])
        w.lies = lo > n
        v0 = w.valuation

        def valuation():
            vl = v0()
            vl.dyn['itm'] = dyn_itm(w)
            return vl
        w.valuation = valuation
    return f


def setup_ext(w):
    w.setvec()
    w.ndp = [0.0, 0.0, 0.12, 0.3][w.i % 4]


def s_bulk(fresh):
    def spec(w, o):
        old = [] if fresh else w.state['v']
        new = w.items
        emp = [e[1] for e in events(o, 'emp')]
        bad = []
        if o.how == 'ret':
            vv = w.view(o.val, o.mem, o.vl) if fresh else w.decode(o)
            if vv.bad:
                return vv.bad
            got, exp = vv.toks(), toks(old) + toks(new)
            if len(got) != len(exp):
                return ['%s than supplied are in the vector' % ('fewer items' if len(got) < len(exp) else 'more items')]
            if got[:len(old)] != exp[:len(old)]:
                return ['an existing element changes']
            if got != exp:
                return ['the items are not in the order supplied']
            if emp != list(range(len(new))):
                return ['an item is not consumed exactly once']
            keep = {vv.ptr}
            lk = w.leaks(o, keep | {w.atoms.get(k) for k in ('v.ptr',) if not fresh})
            if fresh:
                lk = [x for x in lk if x not in live0(w)]
            if lk:
                bad.append('storage is leaked')
            if [x for x in w.dropped(o) if x != ('zst',)]:
                bad.append('a value is dropped')
            return bad
        if o.how == 'abt':
            return ['aborts by itself'] if w.ndp == 0.0 and not w.lies else []
        if w.ndp == 0.0 and not w.lies:
            return ['panics by itself']
        srcs = [x[3] for x in old + new]
        if fresh:
            return owned_once(w, o, srcs, [])
        vv = w.decode(o)
        if vv.bad:
            return vv.bad
        got = vv.toks()
        exp = toks(old) + toks(new)
        if got != exp[:len(got)] or len(got) < len(old):
            return ['after a panic the vector is not the old elements and a prefix of the items']
        return owned_once(w, o, srcs, [x[2] for x in vv.elems])
    return spec


def live0(w):
    return {a for a, (s, al, k) in w.mem.allocs.items() if k == 'heap'}


def setup_fresh(w):
    w.ndp = [0.0, 0.0, 0.12, 0.3][w.i % 4]


def decide(R, name, ck, build, setup, spec, **kw):
    return decide_(R, name, ck, build, with_items(setup), spec, foreign=FOREIGN, **kw)


def b_extend(sc):
    return sc.call('extend', sc.vec(), src(sc.I), trait='Extend', sub={'I': 'IT', 'F': 'FN'})


def b_collect(sc):
    return sc.call('from_iter', src(sc.I), trait='FromIterator', sub={'I': 'IT', 'F': 'FN'})


def stdvec(sc):
    v = rec('Vec', t.atom('v.ptr'), t.atom('v.icap'), t.atom('v.len'))
    p = sc.I.new_obj(sc.st, v, 'v')
    sc.vecs['v'] = p
    return p


def em(sc, head, trait, meth):
    l = [f for f in sc.lab.idx.lookup(head, trait, meth) if f.kind == 'fn' and f.src == 'emplacable']
    if not l:
        raise Missing('%s as %s::%s' % (head, trait, meth))
    return l[0]


def b_vextend(sc):
    return sc.run(em(sc, 'Vec', 'Extend', 'extend'), [stdvec(sc), src(sc.I)], {'I': 'IT', 'F': 'FN'})


def b_vcollect(sc):
    return sc.run(em(sc, 'Vec', 'FromIterator', 'from_iter'), [src(sc.I)], {'I': 'IT', 'F': 'FN'})


def n_items(n):
    return ['y%d' % i for i in range(n)]


def b_macro(name, n, what, sub=None):
    def f(sc):
        l = sc.lab.idx.free.get(name)
        if not l:
            raise Undecided('witness ' + name)
        a = {'val': sc.byval, 'emp': lambda x: sc.emplacable('EMP' + x), 'src': lambda x: t.atom(x + '.tok')}[what]
        return sc.run(l[0], [a(x) for x in n_items(n)], dict(sub or {}, F='FNX'))
    return f


def setup_macro(n, what):
    def f(w):
        w.items = []
        w.ndp = [0.0, 0.0, 0.12, 0.3][w.i % 4]
        w.lies = False
        if what == 'src':
            e = w.elem(('y', 0))
            w.types['S'] = e[:2]
            w.atoms[('umeta', 'S', w.sc.T)] = e[2]
        for i, x in enumerate(n_items(n)):
            if what == 'src':
                e = (e[0], e[1], e[2], ('y', i) if e[0] else ('zst',))
            else:
                e = w.elem(('y', i))
            s, a, m, tok = e
            w.items.append(e)
            w.atoms.update({x + '.tok': tok, x + '.meta': m, x + '.addr': a})
        return None
    return f


def s_macro(what):
    b = s_bulk(True)

    def spec(w, o):
        if o.how == 'ret':
            vv = w.view(o.val, o.mem, o.vl)
            if vv.bad:
                return vv.bad
            if vv.toks() != toks(w.items):
                return ['the vector does not hold the items in order']
            if [x for x in w.dropped(o) if x != ('zst',)]:
                return ['a value is dropped']
            return ['storage is leaked'] if w.leaks(o, {vv.ptr}) else []
        if w.ndp == 0.0:
            return ['panics by itself']
        return owned_once(w, o, [e[3] for e in w.items], []) if o.how == 'unw' else []
    return spec


def macros(R):
    from lab import BuildFailed
    try:
        L = R.lab.user()
    except BuildFailed as e:
        R.undecided('macros', 'the witness crate does not build: %s' % str(e)[-300:])     # decided by C20
        return
    for name, what, n, cks, label in (
            ('w_values0', 'val', 0, 'S', 'unsized_vec![]'), ('w_values1', 'val', 1, 'S', 'unsized_vec![a]'),
            ('w_values2', 'val', 2, 'S', 'unsized_vec![a, b]'), ('w_emps2', 'emp', 2, ALL, 'unsized_vec![emplacables]'),
            ('w_unsize0', 'src', 0, 'EAU', 'unsize_vec![]'), ('w_unsize2', 'src', 2, 'EAU', 'unsize_vec![a, b]')):
        for ck in cks:
            decide_(R, label, ck, b_macro(name, n, what), setup_macro(n, what), s_macro(what), lab=L,
                    kinds={'S': 'S'} if what == 'src' else None)


def C14(R):
    macros(R)
    decide(R, '<Vec as Extend<Emplacable>>::extend', 'S', b_vextend, setup_ext, s_bulk(False))
    decide(R, '<Vec as FromIterator<Emplacable>>::from_iter', 'S', b_vcollect, setup_fresh, s_bulk(True))
    for ck in ALL:
        decide(R, '<UnsizedVec as Extend<Emplacable>>::extend', ck, b_extend, setup_ext, s_bulk(False))
        decide(R, '<UnsizedVec as FromIterator<Emplacable>>::from_iter', ck, b_collect, setup_fresh, s_bulk(True))


# ------------------------------------------------------------------ an emplacable of many (C18)
import rules_emp as E
from model import HANDLERS
from mir import norm_type


def set_many(w):
    n, r = w.atoms['IT.n'], w.rng
    L = w.atoms['hint.lo']
    w.L = L
    size = L * w.es
    w.rb = None
    if size <= 4096:
        w.rb, w.mem = w.mem.alloc(max(size, 1), w.al, 'ext')
    else:
        w.rb = w.al * 3
    w.atoms['RCV.buf'] = w.rb
    w.ndp = [0.3, 0.0, 0.5, 0.0][w.i % 4]


def with_many(w):
    f = with_items(lambda w: None)
    f(w)
    return set_many(w)


def b_many(sc):
    e = sc.call('from_iter', src(sc.I), head='Emplacable', sub={'I': 'IT', 'F': 'FNX'})
    return E.feed(sc, e)


def s_many(fixed=False):
    def spec(w, o):
        L, n = w.L, len(w.items)
        s = L * w.es
        emp = [e[1] for e in events(o, 'emp')]
        put = [e[1] for e in events(o, 'put')]
        rc = events(o, 'rcv')
        calm = w.ndp == 0.0
        bad = []
        if o.how == 'abt':
            return ['aborts by itself'] if calm else []
        fits = s <= 2 ** 63 - w.al
        if not fits:
            return [] if o.how == 'unw' and not put else ['goes on although no layout is large enough']
        if o.how == 'ret' and len(rc) != 1 or len(rc) > 1:
            bad.append('the consumer is called %s' % ('never' if not rc else 'twice'))
        for e in rc:
            if e[1] != s or e[2] != w.al:
                bad.append('announces a wrong layout')
            if e[3] != (('tuple',) if fixed == 'array' else L):
                bad.append('announces a wrong count')
        took, null, done = bool(events(o, 'rcv_buf')), bool(events(o, 'rcv_null')), bool(events(o, 'rcv_got'))
        if len(set(emp)) != len(emp):
            bad.append('an item is consumed twice')
        if len(put) > L:
            bad.append('more items are written than promised')
        if emp != sorted(emp) and not fixed:
            bad.append('items are consumed out of order')
        dr = w.dropped(o)
        nz = [x for x in dr if x != ('zst',)]
        if took:
            if done:
                if n < L:
                    bad.append('a source that is too short does not panic')
                if len(put) != L or sorted(put) != list(range(L)):
                    bad.append('not every promised item is written')
                elif L <= n:
                    for k in range(L):
                        if o.mem.load(w.rb + k * w.es, w.es) != w.items[k][3]:
                            bad.append('an item is not in its slot')
                            break
                if any(x >= max(L, min(n, L + 1)) for x in emp):
                    bad.append('an item beyond the promised count is consumed')
            elif calm and n >= L:
                bad.append('panics by itself')
            if [x for x in put if w.items[x][3] != ('zst',) and w.items[x][3] in nz]:
                bad.append('an item that was written is dropped')
        elif put:
            bad.append('an item is written though no place was given')
        if null and o.how == 'ret':
            if len(emp) != n or len(dr) != n:
                bad.append('asked to drop, %s items are dropped' % ('not all' if len(dr) < n else 'too many'))
        if null and not took and o.how == 'unw' and calm:
            bad.append('panics by itself')
        if not null and not took and (emp or dr):
            bad.append('an item is consumed though the consumer did not ask')
        its = [e for e in o.mem.log if e[0] == 'drop_foreign' and e[1] == 'IT']
        bad += owned_once(w, o, [e[3] for e in w.items], [])
        return bad
    return spec


def h_arr_drop(I, st, v, p, ty, site):
    """dropping an array of producers drops each of them"""
    from interp import Frame
    fr = Frame()
    fr.fn, fr.fid, fr.file, fr.subst = I.idx.fns[0], -1, None, {}
    it = I.new_obj(st, rec('VIter', v, c(0), t.atom('const N')))

    def body(s, x):
        q = I.new_obj(s, x)
        I.drop_ptr(s, q, 'Emplacable<T, FNX>', (site, 'each'))
        return None if s.dead else UNIT
    I.bt.loop_iter(I, fr, st, it, '', body, (site, 'all'))


FOREIGN['ITEM'] = lambda I, base, i: item(I, i)
FOREIGN['DROP:ARR'] = h_arr_drop


def b_arr(ret, arr=None):
    def f(sc):
        sc.items = 'emp'
        l = [f for f in E.from_fn(sc, 'Emplacable', '[Emplacable<T,F>;N]') if norm_type(f.ret).replace(' ', '').startswith(ret)]
        if not l:
            raise Missing('%s..>: From<[Emplacable; N]>' % ret)
        return E.feed(sc, sc.run(l[0], [t.atom('ARR')], {'F': 'FNX'}))
    return f


def with_arr(w):
    with_many(w)
    w.atoms['hint.lo'] = w.L = len(w.items)
    w.atoms['const N'] = w.L
    w.rb, w.mem = w.mem.alloc(max(w.L * w.es, 1), w.al, 'ext')
    w.atoms['RCV.buf'] = w.rb
    w.atoms['ARR'] = ('arr!',)


def C18(R):
    n = R.n(240)
    decide_(R, 'Emplacable::from_iter', 'S', b_many, with_many, s_many(), foreign=FOREIGN, n=n)
    decide_(R, 'Emplacable<[T; N]>::from([Emplacable; N])', 'S', b_arr('Emplacable<[T;N]'), with_arr, s_many('array'), foreign=FOREIGN, n=n)
    decide_(R, 'Emplacable<[T]>::from([Emplacable; N])', 'S', b_arr('Emplacable<[T]'), with_arr, s_many(True), foreign=FOREIGN, n=n)
