"""Rules about producers, consumers and adapters of by-value unsized data (C15 - C19)."""
from base import *
from base import decide
from terms import mk, TRUE, FALSE, ite, not_, eq, some, enum, NONE, lt
from rules_vec import ALL
from rules_traits import with_dyn, cloneof
from rules_traits import h_trait as h_clone
from model import leaf
from mir import norm_type

STRS = ('str', 'CStr', 'OsStr', 'Path')


def from_fn(sc, head, argty):
    """the public `From<argty> for head`"""
    want = norm_type(argty).replace(' ', '')
    l = [f for f in sc.lab.idx.lookup(head, 'From', 'from') if f.kind == 'fn' and f.src == 'emplacable'
         and norm_type(f.argtys[0]).replace(' ', '') == want]
    return l


def make(sc, argty, val, pick=0, sub=None):
    """Emplacable::from(val)"""
    l = from_fn(sc, 'Emplacable', argty)
    if not l:
        raise Missing('Emplacable: From<%s>' % argty)
    if pick is not None:
        l = [f for f in l if pick in f.ret] if isinstance(pick, str) else l
    if not l:
        raise Missing('Emplacable<%s>: From<%s>' % (pick, argty))
    return sc.run(l[0], [val], sub)


def feed(sc, emp, rcv=None):
    """run the producer against a consumer"""
    if emp is None or sc.st.dead:
        return None
    f = sc.call('into_fn', emp, head='Emplacable', sub={'F': 'FNX'})
    if f is None or sc.st.dead:
        return None
    return sc.apply(f, [rcv if rcv is not None else sc.emplacer()])


# ------------------------------------------------------------------ sources
class Src:
    """what a producer was made from: bytes of the value, its layout, who owns it"""

    def __init__(self, size, align, meta, parts, owned=True, addr=None, storage=None):
        self.size, self.align, self.meta, self.parts = size, align, meta, parts
        self.owned, self.addr, self.storage = owned, addr, storage


def finish_world(w, s, ndp=None):
    w.src = s
    w.rb = None
    a, w.mem = w.mem.alloc(max(s.size, 1), s.align, 'ext')
    w.atoms['RCV.buf'] = a
    w.rb = a
    w.ndp = [0.3, 0.0, 0.5, 0.15][w.i % 4] if ndp is None else ndp
    if w.i % 4 == 1:
        w.atoms['RCV.buf'] = a


def set_owned(w):
    s, a, m, tok = w.setx()
    finish_world(w, Src(s, a, m, [(0, s, tok)]))


def set_box(w):
    s, a, m, tok = e = w.elem(('x', 0))
    p = a
    if s:
        p, w.mem = w.mem.alloc(s, a)
        w.put(p, tok, s)
    w.atoms.update({'x.addr': p, 'x.meta': m, 'x.tok': tok})
    parts = [(0, s, tok)]
    finish_world(w, Src(s, a, m, parts, addr=p, storage=p if s else None))


def set_vec(w):
    els = w.setvec()
    parts = [(i * w.es, w.es, tok) for i, (s, a, m, tok) in enumerate(els)]
    finish_world(w, Src(len(els) * w.es, w.al, len(els), parts, addr=w.atoms['v.ptr']))


def set_slice(w):
    els = w.setvec()
    parts = [(i * w.es, w.es, tok) for i, (s, a, m, tok) in enumerate(els)]
    finish_world(w, Src(len(els) * w.es, w.al, len(els), parts, owned=False, addr=w.atoms['v.ptr']))


def set_str(w, least=0):
    n = max(least, w.rng.num([0, 1, 2, 5, 9], 'count'))
    p = 1
    if n:
        p, w.mem = w.mem.alloc(n, 1)
        for i in range(n):
            w.put(p + i, ('b', i), 1)
    w.atoms.update({'v.ptr': p, 'v.len': n})
    finish_world(w, Src(n, 1, n, [(i, 1, ('b', i)) for i in range(n)], owned=False, addr=p))


# ------------------------------------------------------------------ what a producer does
def s_produce(clone=False):
    def spec(w, o):
        s = w.src
        rc = events(o, 'rcv')
        bad = []
        if o.how == 'abt':
            return ['aborts by itself']
        if len(rc) != 1:
            if o.how == 'ret' or w.ndp == 0.0:
                return ['the consumer is called %s' % ('twice' if rc else 'never')]
            return []
        _, size, align, meta = rc[0]
        if size != s.size:
            bad.append('announces a wrong size')
        if align != s.align:
            bad.append('announces a wrong alignment')
        if meta != s.meta:
            bad.append('announces wrong metadata')
        got = [e for e in w.dropped(o)]
        owned = [tok for off, n, tok in s.parts if tok != ('zst',)]
        took, null = bool(events(o, 'rcv_buf')), bool(events(o, 'rcv_null'))
        done = bool(events(o, 'rcv_got'))
        if w.ndp == 0.0 and o.how != 'ret':
            bad.append('panics by itself')
        nz = [x for x in got if x != ('zst',)]
        if null and s.owned:
            bad += owned_once(w, o, owned, [])
            if o.how == 'ret' and (len(nz) != len(owned) or w.sc.ck == 'S' and ndrops(o) != len(s.parts)):
                bad.append('asked to drop, the number of drops is not the number of values')
        elif not clone or took is False:
            if nz or (not s.owned and got):
                bad.append('a value is dropped that nobody asked to drop')
        if took and (done or o.how == 'ret'):
            for off, n, tok in s.parts:
                want = ('clone', tok) if clone and tok != ('zst',) else tok
                x = o.mem.load(w.rb + off, n)
                if x != want:
                    bad.append('the place does not receive the value')
                    break
        if not took:
            if s.size and o.mem.load(w.rb, s.size) != ('bytes', (None,) * s.size):
                bad.append('writes although no place was given')
        if not s.owned:
            for off, n, tok in s.parts:
                if o.mem.load(s.addr + off, n) != tok:
                    bad.append('the borrowed value changes')
                    break
        heap = [a for a, (sz, al, k) in o.mem.allocs.items() if k == 'heap']
        if o.how == 'ret':
            if s.owned and heap:
                bad.append('storage taken over is not freed')
        return bad
    return spec


def ndrops(o):
    return sum(e[2] if e[0] == 'dropn' else 1 for e in o.mem.log if e[0] in ('drop', 'dropval'))


def b_t(sc):
    return feed(sc, make(sc, 'T', t.atom('x.tok')))


def b_box(sc):
    a, m = t.atom('x.addr'), t.atom('x.meta')
    return feed(sc, make(sc, 'Box<T>', a if sc.ck == 'S' else rec('wide', a, m), sub={'T': sc.T}))


def b_vec(sc):
    v = rec('Vec', t.atom('v.ptr'), t.atom('v.icap'), t.atom('v.len'))
    return feed(sc, make(sc, 'Vec<T>', v))


def b_slice(copy):
    def f(sc):
        if copy:
            sc.I.copy_types.add('T')
        return feed(sc, make(sc, '&[T]', rec('wide', t.atom('v.ptr'), t.atom('v.len'))))
    return f


def b_str(ty):
    return lambda sc: feed(sc, make(sc, '&' + ty, rec('wide', t.atom('v.ptr'), t.atom('v.len'))))


def C15(R):
    n = R.n(160)
    decide(R, 'Emplacable::from(T)', 'S', b_t, set_owned, s_produce(), n=n)
    for ck in ALL:
        decide(R, 'Emplacable::from(Box)', ck, b_box, set_box, s_produce(), n=n)
    decide(R, 'Emplacable::from(Vec)', 'S', b_vec, set_vec, s_produce(), n=n)
    decide(R, 'Emplacable::from(&[T]), T: Copy', 'S', b_slice(True), set_slice, s_produce(), n=n)
    decide(R, 'Emplacable::from(&[T]), T: Clone', 'S', b_slice(False), with_dyn(None, cloneof=cloneof)(set_slice),
           s_produce(True), n=n, foreign={'TRAIT': h_clone})
    for ty in STRS:
        decide(R, 'Emplacable::from(&%s)' % ty, 'S', b_str(ty), (lambda w: set_str(w, 1)) if ty == 'CStr' else set_str, s_produce(), n=n)


# ------------------------------------------------------------------ consumers (C16)
def b_get(sc):
    return sc.call('get', sc.emplacable(), head='Emplacable', sub={'F': 'FNX'})


def b_forget(sc):
    return sc.call('forget', sc.emplacable(), head='Emplacable', sub={'F': 'FNX'})


def b_dropemp(sc):
    p = sc.I.new_obj(sc.st, sc.emplacable(), 'emp')
    sc.drop(p, 'Emplacable<%s, FNX>' % sc.T)
    return None if sc.st.dead else UNIT


def setup_emp(w):
    w.setx(where='code')
    w.ndp = [0.0, 0.0, 0.15, 0.4][w.i % 4]
    if w.sc.ck == 'S':
        w.atoms['x.meta'] = ('tuple',)


def values(w, o, hold):
    """the producer's value is dropped or held, at most once; lost only by a panic"""
    tok = w.state['x'][3]
    bad = owned_once(w, o, [tok], hold)
    return bad


def ran_once(o):
    n = len(events(o, 'emp'))
    return [] if n == 1 or (n == 0 and o.how != 'ret') else ['the producer runs %s' % ('never' if n == 0 else 'twice')]


def s_get(w, o):
    s, a, m, tok = w.state['x']
    if o.how == 'abt':
        return ['aborts by itself']
    if o.how == 'ret':
        bad = ran_once(o)
        if o.val != tok:
            bad.append('the value returned is not the one written')
        return bad + values(w, o, [o.val]) + (['a value is dropped'] if events(o, 'dropval') or w.dropped(o) else [])
    if w.ndp == 0.0:
        return ['panics by itself']
    return values(w, o, [])


def s_forget(w, o):
    if o.how == 'abt' or o.how == 'unw' and w.ndp == 0.0:
        return ['panics by itself']
    bad = ran_once(o)
    if events(o, 'put'):
        bad.append('the value is written somewhere')
    if w.dropped(o):
        bad.append('the value is dropped')
    return bad


def s_dropemp(w, o):
    s, a, m, tok = w.state['x']
    if o.how == 'abt' or o.how == 'unw' and w.ndp == 0.0:
        return ['panics by itself']
    bad = ran_once(o)
    if events(o, 'put'):
        bad.append('the value is written somewhere')
    n = len(w.dropped(o))
    if n > 1 or o.how == 'ret' and n != 1:
        bad.append('the value is dropped %s' % ('never' if n == 0 else 'twice'))
    return bad


def fat(v):
    """evaluated pointer -> (address, metadata)"""
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] in ('Pin', 'ManuallyDrop', 'MaybeUninit') and len(v) == 2:
            v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'wide':
        return v[1], v[2]
    return v, ('tuple',)


def boxed(w, o, v, what='box', count=1):
    """the pointer owns exactly the value"""
    s, a, m, tok = w.state['x']
    p, meta = fat(v)
    bad = []
    if not isinstance(p, int):
        return ['the %s holds no pointer' % what]
    if meta != m:
        bad.append('the %s has wrong metadata' % what)
    if s:
        e = o.mem.allocs.get(p)
        if e is None or e[2] != 'heap':
            bad.append('the %s does not own a live allocation' % what)
        elif e[:2] != (s, a):
            bad.append('the allocation of the %s is not the layout of the value' % what)
        elif o.mem.load(p, s) != tok:
            bad.append('the %s does not hold the value' % what)
    elif p == 0 or p % a:
        bad.append('the %s of a zero-sized value is null or misaligned' % what)
    if [x for x, (n, al, k) in o.mem.allocs.items() if k == 'heap' and x != p]:
        bad.append('storage is leaked')
    return bad


def heap(o):
    return [x for x, (n, al, k) in o.mem.allocs.items() if k == 'heap']


def allocfail(o):
    return [e for e in o.mem.log if e[0] == 'allocfail']


def s_boxwith(unwrap=None, what='box'):
    def spec(w, o):
        s, a, m, tok = w.state['x']
        if o.how == 'abt':
            return [] if allocfail(o) or w.ndp > 0 else ['aborts by itself']
        if o.how == 'unw':
            bad = []
            if w.ndp == 0.0:
                bad.append('panics by itself')
            if heap(o) and not events(o, 'put'):
                bad.append('a panic leaks the new allocation')
            if w.dropped(o) and not events(o, 'put'):
                bad.append('a value that was not written is dropped')
            return bad + values(w, o, [])
        if allocfail(o):
            return ['goes on after a failed allocation']
        v = o.val
        if unwrap is not None:
            v = unwrap(w, o, v)
            if isinstance(v, str):
                return [v]
        bad = ran_once(o) + boxed(w, o, v, what)
        if w.dropped(o):
            bad.append('a value is dropped')
        return bad
    return spec


def un_vec(w, o, v):
    s, a, m, tok = w.state['x']
    if not (isinstance(v, tuple) and v and v[0] == 'Vec'):
        raise Undecided('not a vector: %r' % (v,))
    _, p, cap, n = v
    if n != m:
        return 'the length is not the announced one'
    if cap != m and w.es:
        return 'the capacity is not the announced length'
    return ('wide', p, n)


def setup_str(w):
    w.es, w.al = 1, 1
    w.types['E'] = (1, 1)
    setup_emp(w)


def setup_cstr(w):
    """a C string holds at least its terminator"""
    setup_str(w)
    return w.state['x'][2] > 0


def b_conv(head, argty, sub):
    def f(sc):
        l = from_fn(sc, head, argty)
        if not l:
            raise Missing('%s: From<%s>' % (head, argty))
        return sc.run(l[0], [sc.emplacable()], dict(sub, F='FNX'))
    return f


def free(sc, name):
    f = sc.lab.free(name, 'emplacable')
    if f is None:
        raise Missing('function ' + name)
    return f


def b_boxwith(sc):
    return sc.run(free(sc, 'box_new_with'), [sc.emplacable()])


def C16(R):
    n = R.n(160)
    decide(R, 'Emplacable::get', 'S', b_get, setup_emp, s_get, n=n)
    for ck in ALL:
        decide(R, 'Emplacable::forget', ck, b_forget, setup_emp, s_forget)
        decide(R, '<Emplacable as Drop>::drop', ck, b_dropemp, setup_emp, s_dropemp)
        decide(R, 'box_new_with', ck, b_boxwith, setup_emp, s_boxwith(), n=n)
    decide(R, 'Vec::from(Emplacable)', 'E', b_conv('Vec', 'Emplacable<[T],F>', {'T': 'E'}), setup_emp, s_boxwith(un_vec, 'vector'), n=n)
    decide(R, 'Emplacable::into_vec', 'E', lambda sc: sc.call('into_vec', sc.emplacable(), head='Emplacable', sub={'T': 'E', 'F': 'FNX'}),
           setup_emp, s_boxwith(un_vec, 'vector'), n=n)
    decide(R, 'Emplacable::into_string', 'E', lambda sc: sc.call('into_string', sc.emplacable(), head='Emplacable', sub={'F': 'FNX'}),
           setup_str, s_boxwith(un_vec, 'string'), n=n)
    for head, ty in (('String', 'str'), ('CString', 'CStr'), ('OsString', 'OsStr'), ('PathBuf', 'Path')):
        decide(R, '%s::from(Emplacable)' % head, 'E', b_conv(head, 'Emplacable<%s,F>' % ty, {}),
               setup_cstr if head == 'CString' else setup_str,
               s_boxwith(un_vec if head != 'CString' else None, 'string'), n=n)


# ------------------------------------------------------------------ smart pointers (C19)
def ptr_of(kind, pin):
    def f(w, o, v):
        if pin:
            if not (isinstance(v, tuple) and v and v[0] == 'Pin'):
                raise Undecided('not a pin: %r' % (v,))
            v = v[1]
        if kind == 'box':
            return v
        if isinstance(v, tuple) and v and v[0] == kind and isinstance(v[1], tuple) and v[1] and v[1][0] == 'frombox':
            return v[1][1]
        raise Undecided('not a pointer made from a box: %r' % (v,))
    return f


def setup_val(w):
    w.setx()
    w.ndp = [0.0, 0.3][w.i % 2]


def s_ptrnew(unwrap, what):
    def spec(w, o):
        if o.how == 'abt':
            return [] if allocfail(o) or w.ndp > 0 else ['aborts by itself']
        if o.how == 'unw':
            return ['panics by itself']
        if allocfail(o):
            return ['goes on after a failed allocation']
        v = unwrap(w, o, o.val)
        bad = boxed(w, o, v, what)
        if w.dropped(o):
            bad.append('the value is dropped on the way')
        return bad
    return spec


def C19(R):
    n = R.n(120)
    for nm, kind, pin in (('box_new', 'box', 0), ('box_pin', 'box', 1), ('rc_new', 'Rc', 0), ('rc_pin', 'Rc', 1),
                          ('arc_new', 'Arc', 0), ('arc_pin', 'Arc', 1)):
        what = {'box': 'box', 'Rc': 'Rc', 'Arc': 'Arc'}[kind]
        for ck in ALL:
            decide(R, nm, ck, lambda sc: sc.run(free(sc, nm), [sc.byval()]), setup_val, s_ptrnew(ptr_of(kind, pin), what), n=n)
            if nm == 'box_new':
                continue         # box_new_with: C16
            decide(R, nm + '_with', ck,
                   lambda sc: sc.run(free(sc, nm + '_with'), [sc.emplacable()]), setup_emp, s_boxwith(ptr_of(kind, pin), what), n=n)
    for ck in ALL:
        for h in ('Rc', 'Arc'):
            decide(R, '%s::from(Emplacable)' % h, ck, b_conv(h, 'Emplacable<T,F>', {}), setup_emp, s_boxwith(ptr_of(h, 0), h), n=n)


# ------------------------------------------------------------------ adapters (C17)
def h_lend(I, st, v, p, args, site):
    """FCB: what a callback does with an emplacable lent to it"""
    bt, sc = I.bt, I.scene
    emp = args[0]
    I.fork_unwind(st, I.nd('FCB_pre'))     # the emplacable is dropped while unwinding
    if st.dead:
        return None

    def use(s):
        s0 = sc.st
        sc.st = s
        try:
            r = feed(sc, emp)
        finally:
            sc.st = s0
        return r

    def drop(s):
        q = I.new_obj(s, emp, 'lent')
        I.drop_ptr(s, q, 'Emplacable<%s, FNX>' % sc.T, (site, 'lent'))
        return None if s.dead else UNIT
    r = I.branch(st, I.nd('FCB_use'), use, lambda s: I.branch(s, I.nd('FCB_drop'), drop, lambda s2: UNIT))
    if r is None or st.dead:
        return None
    I.fork_unwind(st, I.nd('FCB_post'))
    return t.atom('CB.ret') if not st.dead else None


def setup_adapt(umeta=False, shape=None):
    def f(w):
        s, a, m, tok = w.setx(where='code')
        if umeta:
            w.mcount += 1
            m = ('m', w.mcount)
            w.metas[m] = (s, a)
            w.atoms[('umeta', 'T', 'U')] = m
        if shape:
            k = w.rng.num([0, 1, 2, 3], 'item')
            w.atoms['const N'] = k
            s, m = w.es * k, k
            tok = ('arr', 0) if s else ('zst',)
            w.atoms['x.tok'] = tok
            w.state['x'] = (s, a, m, tok)
        w.rb, w.mem = w.mem.alloc(max(s, 1), a, 'ext')
        w.atoms['RCV.buf'] = w.rb
        w.want = (s, a, m, tok)
        w.ndp = [0.3, 0.0, 0.5, 0.15][w.i % 4]
    return f


def s_adapt(w, o):
    s, a, m, tok = w.want
    rc, em = events(o, 'rcv'), events(o, 'emp')
    bad = []
    if o.how == 'abt':
        return ['aborts by itself']
    if o.how == 'unw' and w.ndp == 0.0:
        bad.append('panics by itself')
    if len(em) > 1 or len(rc) > 1 or len(rc) > len(em):
        bad.append('the producer or the consumer runs twice')
    if o.how == 'ret' and (len(em) != 1 or len(rc) != 1):
        bad.append('the producer or the consumer does not run')
    for e in rc:
        if e[1] != s:
            bad.append('announces a wrong size')
        if e[2] != a:
            bad.append('announces a wrong alignment')
        if e[3] != m:
            bad.append('announces wrong metadata')
    took, null, done = bool(events(o, 'rcv_buf')), bool(events(o, 'rcv_null')), bool(events(o, 'rcv_got'))
    dr = w.dropped(o)
    put = events(o, 'put')
    if null and len(dr) != 1 and o.how == 'ret' or len(dr) > 1:
        bad.append('asked to drop, the value is dropped %s' % ('never' if not dr else 'twice'))
    if not null and dr:
        bad.append('the value is dropped though nobody asked')
    if not took and put:
        bad.append('the value is written though no place was given')
    if done and (len(put) != 1 or o.mem.load(w.rb, s) != tok):
        bad.append('the place does not receive the value')
    if heap(o):
        bad.append('storage is allocated and kept')
    return bad


def b_unsize(sc):
    return feed(sc, sc.call('unsize', sc.emplacable(), head='Emplacable', sub={'T': 'T', 'U': 'U', 'F': 'FNX'}))


def b_str8(sc):
    return feed(sc, make(sc, 'Emplacable<str,F>', sc.emplacable(), sub={'F': 'FNX'}))


def b_arr(sc):
    sc.shape = '[T; N]'
    return feed(sc, make(sc, 'Emplacable<[T;N],F>', sc.emplacable(), sub={'F': 'FNX', 'T': 'T'}))


def b_lend(sc):
    return sc.run(free(sc, 'with_emplacable_for'), [sc.byval(), t.atom('FCB')], {'F': 'FNX', 'R': 'R'})


def setup_lend(w):
    s, a, m, tok = w.setx()
    w.rb, w.mem = w.mem.alloc(max(s, 1), a, 'ext')
    w.atoms['RCV.buf'] = w.rb
    w.atoms['CB.ret'] = ('cbret',)
    w.want = (s, a, m, tok)
    w.ndp = [0.5, 0.0, 0.5, 0.25][w.i % 4]


def s_lend(w, o):
    s, a, m, tok = w.want
    if o.how == 'abt':         # a drop that panics while unwinding
        return ['aborts by itself'] if w.ndp == 0.0 else []
    bad = []
    rc = events(o, 'rcv')
    for e in rc:
        if e[1:4] != (s, a, m):
            bad.append('announces a layout or metadata that are not the value\'s')
    took, null, done = bool(events(o, 'rcv_buf')), bool(events(o, 'rcv_null')), bool(events(o, 'rcv_got'))
    if done and o.mem.load(w.rb, s) != tok:
        bad.append('the place does not receive the value')
    dr = [x for x in w.dropped(o) if x != ('atom', 'FCB')]
    if o.how == 'ret' and o.val != ('cbret',):
        bad.append('the callback\'s result is not returned')
    hold = [tok] if done else []
    if tok == ('zst',):
        if len(dr) + (1 if done else 0) > 1:
            bad.append('a value is dropped and still owned' if done else 'a value is dropped twice')
    else:
        bad += owned_once(w, o, [tok], hold)
    if o.how == 'unw' and bad:
        dbl = {'a value is dropped twice', 'a value is dropped and still owned'}
        rest = [b for b in bad if b not in dbl]
        bad = rest + ['when the callback panics, the value it was lent is dropped again'] if set(bad) & dbl else bad
    if o.how == 'ret':
        fg = bool(events(o, 'forgotten'))
        if not done and not dr and rc and not fg and not (w.sc.ck == 'E' and m == 0):     # no elements to drop
            bad.append('the value is lost')
        if fg and dr:
            bad.append('a forgotten value is dropped')
    return bad


def C17(R):
    n = R.n(160)
    for k, nm in (('U', 'unsized'), ):
        decide(R, 'Emplacable::unsize', 'S', b_unsize, setup_adapt(umeta=True), s_adapt, n=n, kinds={'U': k}, metas={'U': 'full'})
    decide(R, 'Emplacable<[u8]>::from(Emplacable<str>)', 'E', b_str8, lambda w: (setattr(w, 'es', 1), setattr(w, 'al', 1), w.types.update(E=(1, 1)), setup_adapt()(w))[-1], s_adapt, n=n)
    decide(R, 'Emplacable<[T]>::from(Emplacable<[T; N]>)', 'S', b_arr, setup_adapt(shape=True), s_adapt, n=n)
    for ck in ALL:
        decide(R, 'with_emplacable_for', ck, b_lend, setup_lend, s_lend, n=4 * n, foreign={'FCB': h_lend})
