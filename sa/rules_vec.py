"""Rules about the vector's operations (C01 - C10, C22)."""
from base import *
from terms import mk, TRUE, FALSE, ite, and_, not_, eq
from model import leaf

ALL = 'SEAU'


def idx_world(w, over=3):
    k = len(w.state['v'])
    w.atoms['index'] = w.rng.num([w.rng.randint(0, k), w.rng.randint(0, k), k + w.rng.randint(1, over), t.M64])
    if w.rng.random() < 0.7:
        w.atoms['index'] = w.rng.choice([w.rng.randint(0, k), w.rng.randint(0, k), 0, min(k, 1), max(k - 1, 0), k])


def removed(els, i):
    return toks(els[:i] + els[i + 1:])


# ------------------------------------------------------------------ the operations
def b_insert(sc):
    return sc.call('insert', sc.vec(), t.atom('index'), sc.byval())


def b_insert_with(sc):
    return sc.call('insert_with', sc.vec(), t.atom('index'), sc.emplacable())


def b_push(sc):
    return sc.call('push', sc.vec(), sc.byval())


def b_push_with(sc):
    return sc.call('push_with', sc.vec(), sc.emplacable())


def b_remove(sc):
    v = sc.vec()
    e = sc.call('remove_into', v, t.atom('index'))
    if e is None or sc.st.dead:
        return None
    return sc.apply(fld(fld(e, 0), 0), [sc.emplacer()])


def b_pop(sc):
    v = sc.vec()
    e = sc.call('pop_into', v)
    if e is None:
        return None

    def some(s):
        sc.I.bt.log(s, 'some')
        x = t.pl(e, 'Some', 0)
        return sc.I.apply(s, fld(fld(x, 0), 0), [rcv], 'pop')
    rcv = sc.emplacer()
    return sc.I.branch(sc.st, t.tagis(e, 'Some'), some, lambda s: UNIT)


def setup_ins(w):
    w.setvec()
    w.setx()
    idx_world(w)


def setup_insw(w):
    w.setvec()
    w.setx(where='none')
    idx_world(w)


def setup_rem(w):
    w.setvec()
    w.setbuf()
    idx_world(w)


def honest(w):
    """no failure of the environment in this valuation"""
    return w.ndp == 0.0


def user_panicked(w, o):
    return any(o.vl.choice(l, ()) for l in ())


# ------------------------------------------------------------------ C01
def s_insert(w, o, only_ret=False):
    els, x, i = w.state['v'], w.state['x'], w.atoms['index']
    bad = []
    if i > len(els):
        if o.how == 'ret':
            return ['an index beyond the length is accepted']
        if o.how == 'abt':
            return ['an index beyond the length aborts'] if honest(w) else []
        b, vv = elems_are(w, o, toks(els), what='elements after a rejected insertion')
        return b
    if o.how == 'ret':
        b, vv = elems_are(w, o, toks(els[:i]) + toks([x]) + toks(els[i:]))
        return b
    if honest(w):
        return ['an index within the length does not insert']
    return bad


def C01(R):
    for ck in 'EAU':
        decide(R, 'UnsizedVec::insert_unsize', ck, b_unsize('insert_unsize', 'index'), setup_uns(setup_insw), s_insert, kinds={'S': 'S'})
    for ck in ALL:
        decide(R, 'UnsizedVec::insert', ck, b_insert, setup_ins, s_insert)
        decide(R, 'UnsizedVec::insert_with', ck, b_insert_with, setup_insw, s_insert)


# ------------------------------------------------------------------ C02
def setup_push(w):
    w.setvec()
    w.setx()


def setup_pushw(w):
    w.setvec()
    w.setx(where='none')


def s_push(w, o):
    els, x = w.state['v'], w.state['x']
    if o.how == 'ret':
        b, vv = elems_are(w, o, toks(els) + toks([x]))
        return b
    if honest(w):
        return ['pushing does not return']
    return []


# S: a sized source type of an unsizing

def b_unsize(meth, *pre):
    def build(sc):
        return sc.call(meth, sc.vec(), *[t.atom(a) for a in pre], t.atom('x.tok'), sub={'S': 'S'})
    return build


def setsrc(w):
    """x is a sized value of type S that unsizes to T"""
    s, a, m, tok = w.state['x']
    w.types['S'] = (s, a)
    w.atoms[('umeta', 'S', w.sc.T)] = m


def setup_uns(su):
    def setup(w):
        r = su(w)
        setsrc(w)
        return r
    return setup


def C02(R):
    for ck in 'EAU':
        decide(R, 'UnsizedVec::push_unsize', ck, b_unsize('push_unsize'), setup_uns(setup_pushw), s_push, kinds={'S': 'S'})
    for ck in ALL:
        decide(R, 'UnsizedVec::push', ck, b_push, setup_push, s_push)
        decide(R, 'UnsizedVec::push_with', ck, b_push_with, setup_pushw, s_push)


# ------------------------------------------------------------------ C03
def elem_layout(w, e):
    s, a, m, tok = e
    return s, a, m


def s_remove(w, o, pop=False):
    els = w.state['v']
    i = len(els) - 1 if pop else w.atoms['index']
    rc = events(o, 'rcv')
    if pop and not els:
        bad = []
        if o.how != 'ret':
            bad.append('popping an empty vector does not return')
        if rc or events(o, 'some'):
            bad.append('popping an empty vector hands something out')
        b, _ = elems_are(w, o, [])
        return bad + b
    if i >= len(els):
        if o.how == 'ret':
            return ['an index beyond the length is accepted']
        bad = ['something is handed out'] if rc else []
        return bad + elems_are(w, o, toks(els), what='elements after a rejected removal')[0]
    if o.how == 'abt':
        return ['the removal aborts']
    if o.how == 'unw':
        return ['the removal panics by itself'] if honest(w) else []
    if pop and not events(o, 'some'):
        return ['popping a non-empty vector yields nothing']
    bad = []
    if len(rc) != 1:
        bad.append('the receiver is called %d times' % len(rc))
        return bad
    s, a, m = elem_layout(w, els[i])
    if rc[0][1] != s:
        bad.append('announced size differs from the size of the element')
    al = leaf(rc[0][2])
    if al != a:
        bad.append('announced alignment differs from the alignment of the element')
    if rc[0][3] != m:
        bad.append('announced metadata differs from the metadata of the element')
    if events(o, 'rcv_buf'):
        got = o.mem.load(w.atoms['RCV.buf'], s)
        if got != els[i][3]:
            bad.append('the receiver does not get the bytes of the element')
        if s == 0 and o.mem.bytes.get(w.atoms['RCV.buf']) is not None:
            bad.append('bytes are written for an empty element')
    b, _ = elems_are(w, o, removed(els, i))
    return bad + b


def C03(R):
    for ck in ALL:
        decide(R, 'UnsizedVec::remove_into', ck, b_remove, setup_rem, s_remove)
        decide(R, 'UnsizedVec::pop_into', ck, b_pop, setup_rem, lambda w, o: s_remove(w, o, True))


# ------------------------------------------------------------------ C04
def elem_ref(w, o, x, i, opt=True):
    """x is a reference to element i of the unchanged vector"""
    els = w.state['v']
    vv = w.decode(o)
    if vv.bad:
        return vv.bad
    if isinstance(x, tuple) and x and x[0] == 'ref':
        raise Undecided('symbolic reference')
    s, a, m, tok = els[i]
    if w.sc.ck == 'S':
        want = vv.ptr + i * w.es
        return [] if x == want else ['the reference does not point at the element']
    if not (isinstance(x, tuple) and x and x[0] == 'wide'):
        raise Undecided('reference %r' % (x,))
    bad = []
    if x[1] != vv.ptr + vv.starts[i]:
        bad.append('the reference does not point at the element')
    if x[2] != m:
        bad.append('the reference has the wrong metadata')
    return bad


def setup_idx(w):
    w.setvec()
    idx_world(w)
    w.ndp = 0.0


def s_get(w, o):
    els, i = w.state['v'], w.atoms['index']
    if o.how != 'ret':
        return ['the lookup does not return']
    b, vv = elems_are(w, o, toks(els))
    if b:
        return b
    if i >= len(els):
        return [] if o.val == ('#None',) else ['an index beyond the length yields something']
    if o.val == ('#None',):
        return ['an index within the length yields nothing']
    if not (isinstance(o.val, tuple) and o.val[0] == '#Some'):
        raise Undecided('result')
    return elem_ref(w, o, o.val[1], i)


def s_index(w, o):
    els, i = w.state['v'], w.atoms['index']
    if i >= len(els):
        bad = [] if o.how == 'unw' else ['an index beyond the length does not panic']
        return bad + elems_are(w, o, toks(els))[0]
    if o.how != 'ret':
        return ['an index within the length does not return']
    b, vv = elems_are(w, o, toks(els))
    return b or elem_ref(w, o, o.val, i)


def s_len(w, o):
    if o.how != 'ret':
        return ['does not return']
    return [] if o.val == len(w.state['v']) else ['the reported length is not the number of elements']


def s_empty(w, o):
    if o.how != 'ret':
        return ['does not return']
    return [] if o.val == (not w.state['v']) else ['emptiness is reported wrongly']


def setup_in(w):
    w.setvec()
    k = len(w.state['v'])
    w.ndp = 0.0
    if not k:
        return False
    w.atoms['index'] = w.rng.randrange(k)


def C04(R):
    V = lambda m, tr=None: (lambda sc: sc.call(m, sc.vec(), t.atom('index'), trait=tr))
    for ck in ALL:
        for m in ('get', 'get_mut'):
            decide(R, 'UnsizedVec::' + m, ck, V(m), setup_idx, s_get)
        for m in ('get_unchecked', 'get_unchecked_mut'):
            decide(R, 'UnsizedVec::' + m, ck, V(m), setup_in, s_index)
        decide(R, '<UnsizedVec as Index>::index', ck, V('index', 'Index'), setup_idx, s_index)
        decide(R, '<UnsizedVec as IndexMut>::index_mut', ck, V('index_mut', 'IndexMut'), setup_idx, s_index)
        decide(R, 'UnsizedVec::len', ck, lambda sc: sc.call('len', sc.vec()), setup_idx, s_len)
        decide(R, 'UnsizedVec::is_empty', ck, lambda sc: sc.call('is_empty', sc.vec()), setup_idx, s_empty)


# ------------------------------------------------------------------ C06
def holders_after(w, o, vv):
    h = [e[2] for e in vv.elems]
    if events(o, 'rcv_got'):
        i = w.atoms.get('index', len(w.state['v']) - 1)
        if w.op == 'pop':
            i = len(w.state['v']) - 1
        s = w.state['v'][i][0]
        h.append(o.mem.load(w.atoms['RCV.buf'], s))
    return h


def drops(w, o):
    """(metadata, value) of every drop in place, in order"""
    ev = [(e[2], e[1]) for e in o.mem.log if e[0] == 'drop']
    if w.sc.ck == 'S':
        # a sized value may as well be read out and dropped
        own = [e[3] for e in w.state['v']]
        ev = [(e[2] if e[0] == 'drop' else ('tuple',), e[1]) for e in o.mem.log
              if e[0] == 'drop' or e[0] == 'dropval' and e[1] in own]
    if w.sc.ck == 'E':
        # a slice is dropped item by item: an empty one leaves no trace, one of one item no length
        ev = [(1 if m == ('tuple',) else m, x) for m, x in ev if x != ('zst',)]
    return ev


def s_own(op):
    def spec(w, o):
        els = w.state['v']
        w.op = op
        src = [e[3] for e in els]
        if op in ('insert', 'push'):
            src.append(w.state['x'][3])
        elif op in ('insert_with', 'push_with'):
            # the producer owns the value until it is asked for
            src.append(w.state['x'][3])
        if o.how == 'abt':
            return []
        vv = w.decode(o)
        if vv.bad:
            return vv.bad
        hold = holders_after(w, o, vv)
        bad = owned_once(w, o, src, hold)
        if o.how == 'ret' or honest(w):
            gone = lost(w, o, src, hold)
            if events(o, 'forgotten'):
                gone = gone[1:]
            if gone:
                bad.append('a value is neither owned, handed out nor dropped')
        if op in ('remove', 'pop') and o.how == 'ret':
            i = len(els) - 1 if op == 'pop' else w.atoms['index']
            want = [toks(els)[i]] if events(o, 'rcv_null') else []
            if w.sc.ck == 'E':
                want = [x for x in want if x[1] != ('zst',)]
            ev = drops(w, o)
            if len(ev) != len(want):
                bad.append('%d values dropped where %d are expected' % (len(ev), len(want)))
            elif ev != want:
                bad.append('the removed value is dropped with wrong metadata')
        return bad
    return spec


def s_dropvec(w, o):
    els = w.state['v']
    ev = drops(w, o)
    exp = toks(els)
    if w.sc.ck == 'E':
        exp = [x for x in exp if x[1] != ('zst',)]
    if o.how == 'abt':
        return ['dropping the vector aborts']
    if o.how == 'unw':
        if honest(w):
            return ['dropping the vector panics by itself']
        k = len(ev)
        if w.sc.ck != 'S' and ev != exp[:k]:
            return ['elements are dropped out of order or with wrong metadata']
        return owned_once(w, o, [e[3] for e in els], [])
    if len(ev) != len(exp):
        return ['%d elements dropped instead of %d' % (len(ev), len(exp))]
    if ev != exp:
        return ['elements are dropped out of order, twice or with wrong metadata']
    lk = w.leaks(o, set())
    return ['the storage is leaked'] if lk else []


def b_dropvec(sc):
    v = sc.vec()
    sc.drop_vec()
    return UNIT


def b_then_drop(b):
    def build(sc):
        r = b(sc)
        if r is None or sc.st.dead:
            return None
        sc.I.bt.log(sc.st, 'enddrop')
        sc.drop_vec()
        return None if sc.st.dead else UNIT
    return build


def s_then_drop(op):
    def spec(w, o):
        els = w.state['v']
        src = [e[3] for e in els]
        if op in ('insert', 'push', 'insert_with', 'push_with'):
            src.append(w.state['x'][3])
        if o.how == 'abt' or not events(o, 'enddrop'):
            return []
        hold = []
        if events(o, 'rcv_got'):
            i = len(els) - 1 if op == 'pop' else w.atoms['index']
            hold.append(o.mem.load(w.atoms['RCV.buf'], els[i][0]))
        bad = owned_once(w, o, src, hold)
        if o.how == 'ret':
            gone = lost(w, o, src, hold)
            if events(o, 'forgotten'):
                gone = gone[1:]
            if gone:
                bad.append('a value is lost')
            if [a for a in w.leaks(o, set())]:
                bad.append('storage is leaked')
        return bad
    return spec


OPS = (('UnsizedVec::insert', 'insert', lambda: b_insert, lambda: setup_ins),
       ('UnsizedVec::insert_with', 'insert_with', lambda: b_insert_with, lambda: setup_insw),
       ('UnsizedVec::push', 'push', lambda: b_push, lambda: setup_push),
       ('UnsizedVec::push_with', 'push_with', lambda: b_push_with, lambda: setup_pushw),
       ('UnsizedVec::remove_into', 'remove', lambda: b_remove, lambda: setup_rem),
       ('UnsizedVec::pop_into', 'pop', lambda: b_pop, lambda: setup_rem))


UOPS = (('UnsizedVec::push_unsize', 'push', b_unsize('push_unsize'), setup_pushw),
        ('UnsizedVec::insert_unsize', 'insert', b_unsize('insert_unsize', 'index'), setup_insw))


def C06(R):
    for ck in ALL:
        decide(R, 'drop of UnsizedVec', ck, b_dropvec, lambda w: w.setvec() and None, s_dropvec)
        for name, op, b, su in OPS:
            decide(R, name, ck, b(), su(), s_own(op))
            decide(R, name + ', then drop', ck, b_then_drop(b()), su(), s_then_drop(op))
        if ck != 'S':
            for name, op, b, su in UOPS:
                decide(R, name, ck, b, setup_uns(su), s_own(op), kinds={'S': 'S'})
                decide(R, name + ', then drop', ck, b_then_drop(b), setup_uns(su), s_then_drop(op), kinds={'S': 'S'})


# ------------------------------------------------------------------ C07
def s_panic(op):
    def spec(w, o):
        els = w.state['v']
        if o.how != 'unw':
            return []
        i = w.atoms.get('index', 0)
        if op == 'pop':
            i = len(els) - 1
        vv = w.decode(o)
        if vv.bad:
            return ['after a panic: ' + b for b in vv.bad]
        got = vv.toks()
        pre = toks(els)
        ok = [pre]
        src = [e[3] for e in els]
        hold = [e[2] for e in vv.elems]
        if op in ('remove', 'pop'):
            if 0 <= i < len(els):
                ok.append(toks(els[:i] + els[i + 1:]))
                if events(o, 'rcv_got'):
                    hold.append(o.mem.load(w.atoms['RCV.buf'], els[i][0]))
                if events(o, 'rcv_got') or events(o, 'rcv_null'):
                    ok = ok[1:]     # it has left the vector
        else:
            src.append(w.state['x'][3])
            if events(o, 'put'):
                x = toks([w.state['x']])
                ok.append(pre[:i] + x + pre[i:] if 'insert' in op else pre + x)
        bad = []
        if got not in ok:
            bad.append('after a panic the vector holds neither its elements nor those without the removed one')
        return bad + owned_once(w, o, src, hold)
    return spec


def panicky(su):
    def setup(w):
        r = su(w)
        w.ndp = [0.25, 0.5, 0.8][w.i % 3]
        w.nd['alloc'] = w.nd['infoalloc'] = False
        return r
    return setup


def C07(R):
    for ck in ALL:
        for name, op, b, su in OPS:
            decide(R, name, ck, b(), panicky(su()), s_panic(op), n=R.n(150))
