"""The abstract objects the rules talk about: a vector of each storage strategy, an argument passed
by value, a producer (`Emplacable`) and a consumer (`Emplacer`) supplied by the user.

A `Scene` interprets public operations of the crate on such objects into one value graph; a
`World` assigns denotations to the graph's free atoms and reads the outcome back.
"""
import random
import terms as t
from terms import mk, c, rec, TRUE, FALSE, UNIT, unk, ite, and_, or_, not_, fld
from interp import St, Abandon, head_of, deref_ty, kill, merge
from evalr import Mem, Valuation, P, Undecided, BIG
from mir import norm_type

KINDS = {
    'S': dict(ty='T', kinds={'T': 'S'}, metas={}),
    'A': dict(ty='T', kinds={'T': 'A'}, metas={'T': 'full'}),
    'E': dict(ty='[E]', kinds={'E': 'S'}, metas={}),
    'U': dict(ty='T', kinds={'T': 'U'}, metas={'T': 'full'}),
}
KNAME = {'S': 'sized T', 'A': 'unsized T of known alignment', 'E': '[E]', 'U': 'unsized T of unknown alignment'}

TEXTINT = ('ValidSize', 'ValidSizeUnaligned', 'ValidAlign')


class Missing(Exception):
    """An anchor of a rule no longer exists in the source."""


def leaf(x):
    """the integer inside an evaluated newtype"""
    for _ in range(6):
        if isinstance(x, bool) or isinstance(x, int):
            return x
        if isinstance(x, tuple) and len(x) > 1:
            y = [e for e in x[1:] if e not in (('tuple',), ('PhantomData',))]
            if len(y) != 1:
                return None
            x = y[0]
        else:
            return None
    return None


class Scene:
    """One analysis: objects, a state, and the public operations interpreted on it."""

    def __init__(self, lab, ck, drop_panics=True, foreign=None, kinds=None, metas=None):
        self.lab, self.ck = lab, ck
        k = KINDS[ck]
        self.T = k['ty']
        fh = dict(HANDLERS)
        fh.update(foreign or {})
        self.I = lab.interp(dict(k['kinds'], **(kinds or {})), dict(k['metas'], **(metas or {})), fh,
                            ('T', 'E') + tuple(kinds or ()) if drop_panics else ())
        self.I.scene = self
        self.st = St(TRUE, {'mem': t.atom('mem')})
        self.sub = {'T': self.T}
        self.impl = head_of(self.I.impl_of(self.T))
        self.vecs = {}
        self.entry = []
        self.shape = None        # the type a producer makes, when it is not T

    # ---- vectors
    def struct(self, name):
        l = self.lab.idx.structs.get(name)
        if not l:
            raise Missing('struct ' + name)
        return l

    def roles(self):
        """field roles of the inner vector, by type"""
        fields = self.struct(self.impl)[0][2]
        out = []
        for n, ty in fields:
            if 'PhantomData' in ty:
                out.append('ph')
            elif 'NonNull' in ty or ty.startswith('*'):
                out.append('ptr')
            elif 'Vec<' in ty and 'ElementInfo' in ty:
                out.append('md' if 'ManuallyDrop' in ty else 'seq')
            elif 'ValidAlign' in ty:
                out.append('align')
            elif 'ValidSize' in ty:
                out.append('cap')
            else:
                raise Undecided('field %s: %s of %s' % (n, ty, self.impl))
        base = ['md' if r == 'seq' else r for r in out if r != 'ph']
        if sorted(base) != sorted(['ptr', 'cap', 'md'] + (['align'] if self.ck == 'U' else [])):
            raise Undecided('layout of ' + self.impl)
        return out, [ty for n, ty in fields]

    def info_roles(self):
        f = 'src/inner/aligned.rs' if self.impl == 'AlignedVecInner' else 'src/inner/unaligned.rs'
        l = [s for s in self.struct('ElementInfo')]
        e = [s for s in l if s[0] == f] or l
        ctor = 'ElementInfo@' + f if len(l) > 1 else 'ElementInfo'
        r = []
        for n, ty in e[0][2]:
            if 'PhantomData' in ty:
                r.append(('ph', ty))
            elif 'Remainder' in ty or 'Metadata' in ty:
                r.append(('meta', ty))
            elif 'ValidSize' in ty:
                r.append(('end', ty))
            else:
                raise Undecided('field of ElementInfo: ' + ty)
        if sorted(x for x, _ in r if x != 'ph') != ['end', 'meta']:
            raise Undecided('layout of ElementInfo')
        return ctor, r

    def inner(self, n):
        I = self.I
        a = lambda x: t.atom('%s.%s' % (n, x))
        if self.ck == 'S':
            return rec('Vec', a('ptr'), a('icap'), a('len'))
        roles, tys = self.roles()
        vals = []
        for r, ty in zip(roles, tys):
            ty = I.res(ty, self.sub)
            if r == 'ph':
                vals.append(UNIT)
            elif r == 'ptr':
                vals.append(a('ptr'))
            elif r == 'cap':
                vals.append(I.newtype(ty, a('cap')))
            elif r == 'align':
                vals.append(I.newtype(ty, a('align')))
            else:
                s = rec('SVec', a('seq'), a('icap'))
                vals.append(rec('ManuallyDrop', s) if r == 'md' else s)
        return rec(self.impl, *vals)

    def vec(self, n='v'):
        """a reference to a vector of unknown contents"""
        fields = self.struct('UnsizedVec')[0][2]
        vals = [UNIT if 'PhantomData' in ty else self.inner(n) for _, ty in fields]
        p = self.I.new_obj(self.st, rec('UnsizedVec', *vals), n)
        self.vecs[n] = p
        return p

    # ---- arguments
    def byval(self, n='x'):
        """a T passed by value"""
        if self.ck == 'S':
            return t.atom(n + '.tok')
        return rec('uval', t.atom(n + '.addr'), t.atom(n + '.meta'))

    def emplacable(self, n='EMP'):
        return rec('Emplacable', rec('ManuallyDrop', t.atom(n)), UNIT)

    def emplacer(self, n='RCV'):
        return self.I.new_obj(self.st, t.atom(n), 'rcv')

    # ---- running
    def method(self, meth, head='UnsizedVec', trait=None, optional=False):
        f = self.lab.fn(head, trait, meth)
        if f is None and not optional:
            raise Missing('%s%s::%s' % (head, ' as ' + trait if trait else '', meth))
        return f

    def run(self, f, args, sub=None):
        s = dict(self.sub)
        s.update(sub or {})
        for pat, a in zip(f.argtys, args):
            pass
        self.entry.append(f)
        v = self.I.run_fn(f, list(args), self.st, s, 'root%d' % len(self.entry))
        return v

    def call(self, meth, *args, head='UnsizedVec', trait=None, sub=None):
        return self.run(self.method(meth, head, trait), args, sub)

    def cc(self, callee, vals, tys=None, dty=''):
        """call by path, resolved the way a call in the source would be"""
        if self.st.dead:
            return None
        from interp import Frame
        fr = Frame()
        fr.fn = self.lab.idx.fns[0]
        fr.fid, fr.file = -1, None
        fr.subst = dict(self.sub)
        self.ncc = getattr(self, 'ncc', 0) + 1
        r = self.I.call_values(fr, ('cc', self.ncc), self.st, callee, list(vals), list(tys or [''] * len(vals)), dty)
        if r is self.I.bt.MISS:
            raise Abandon('no such call: ' + callee)
        return r

    def apply(self, fv, args):
        return self.I.apply(self.st, fv, args, 'apply%d' % len(self.entry))

    def drop(self, p, ty):
        self.I.drop_ptr(self.st, p, ty, 'drop-root')

    def drop_vec(self, n='v'):
        self.drop(self.vecs[n], 'UnsizedVec<%s>' % self.T)

    # ---- types of T
    def xsize(self, meta):
        if self.shape:
            return self.I.size_node(self.shape)
        if self.ck == 'S':
            return mk('szof', 'T')
        if self.ck == 'E':
            return t.arith('mul', meta, mk('szof', 'E'))
        return mk('msize', 'T', meta)

    def xalign(self, meta):
        if self.shape:
            return self.I.align_node(self.shape)
        if self.ck == 'S' or self.ck == 'A':
            return mk('alof', 'T')
        if self.ck == 'E':
            return mk('alof', 'E')
        return mk('malign', 'T', meta)

    def xmeta(self, n='x'):
        return UNIT if self.ck == 'S' or self.shape else t.atom(n + '.meta')

    def finish(self, val):
        """-> Graph"""
        return Graph(self, val)


# ---------------------------------------------------------------- the user's code
def h_emp(I, st, v, p, args, site):
    """a producer: may panic, else offers exactly one value to the emplacer"""
    sc = I.scene
    n = v.a[0]
    x = 'x' if n == 'EMP' else n[3:]
    I.fork_unwind(st, I.nd(n + '_pre'))
    if st.dead:
        return None
    sc.I.bt.log(st, 'emp', c(0))
    inner = I.new_obj(st, t.atom('INNER' if x == 'x' else 'INNER' + x), 'inner')
    m = sc.xmeta(x)
    r = I.apply(st, args[0], [rec('Layout', sc.xsize(m), sc.xalign(m)), m, inner], site + ('emp',) if isinstance(site, tuple) else (site, 'emp'))
    if st.dead or r is None:
        return None
    I.fork_unwind(st, I.nd(n + '_post'))
    return UNIT if not st.dead else None


def h_inner(I, st, v, p, args, site):
    sc = I.scene
    n = v.a[0]
    x = 'x' if n == 'INNER' else n[5:]
    dst = args[0]
    m = sc.xmeta(x)
    bt = I.bt
    dst = bt.thin(dst)

    def null(s):
        bt.log(s, 'dropval', t.atom(x + '.tok'))
        I.fork_unwind(s, I.nd(n + '_droppanic'))
        return UNIT if not s.dead else None

    def put(s):
        # a writer that panics may have written anything into its place
        if dst.op == 'ref':
            I.store(s, dst, t.atom('GARBAGE'))
        else:
            bt.setmem(s, mk('mput', bt.mem(s), dst, t.atom('GARBAGE'), sc.xsize(m)))
        I.fork_unwind(s, I.nd(n + '_panic'))
        if s.dead:
            return None
        if dst.op == 'ref':
            I.store(s, dst, t.atom(x + '.tok'))
        else:
            bt.setmem(s, mk('mput', bt.mem(s), dst, t.atom(x + '.tok'), sc.xsize(m)))
            bt.ub_if(I, s, not_(t.eq(t.arith('rem', dst, sc.xalign(m)), c(0))), 'value emplaced at a misaligned address')
        bt.log(s, 'put', t.atom(x + '.tok'))
        return UNIT
    return I.branch(st, bt.is_null(dst), null, put)


def h_rcv(I, st, v, p, args, site):
    """a consumer: may panic, refuse, ask for the value to be dropped, or give a buffer"""
    bt = I.bt
    n = v.a[0]
    lay, meta, inner = args
    bt.log(st, 'rcv', fld(lay, 0), fld(lay, 1), meta)
    site = (site, 'rcv')
    I.fork_unwind(st, I.nd(n + '_pre'))
    if st.dead:
        return None

    def forget(s):
        bt.log(s, 'forgotten')
        return UNIT

    def take(s):
        def null(s2):
            bt.log(s2, 'rcv_null')
            return I.apply(s2, inner, [c(0)], site)

        def buf(s2):
            bt.log(s2, 'rcv_buf')
            r = I.apply(s2, inner, [t.atom(n + '.buf')], site)
            if r is None or s2.dead:
                return None
            bt.log(s2, 'rcv_got')
            return UNIT
        return I.branch(s, I.nd(n + '_null'), null, buf)
    return I.branch(st, I.nd(n + '_forget'), forget, take)


def h_clo(I, st, v, p, args, site):
    """an opaque user callback"""
    I.bt.log(st, 'callback', *[a for a in args])
    I.fork_unwind(st, I.nd('CB_panic'))
    return None if st.dead else t.atom('CB.ret')


HANDLERS = {'EMP': h_emp, 'INNER': h_inner, 'RCV': h_rcv, 'CB': h_clo}
for _i in '0123456789':
    HANDLERS['EMPy' + _i] = h_emp
    HANDLERS['INNERy' + _i] = h_inner


class Graph:
    """The outcome of a scene as terms."""

    def __init__(self, sc, val):
        self.sc, self.val = sc, val
        I = sc.I
        self.ret = sc.st if not sc.st.dead and val is not None else None
        self.unw = [s for s in I.unw[0] if not s.dead]
        self.abt = [s for s in I.abt[0] if not s.dead]
        self.ub = list(I.ub)

    def unknown(self):
        return self.sc.I.stats['unknown']


class Outcome:
    def __init__(self, how, mem, val, env, vl, ub):
        self.how, self.mem, self.val, self.env, self.vl, self.ub = how, mem, val, env, vl, ub

    def obj(self, p):
        n = self.env.get(p.a[0])
        if n is None:
            return None
        return self.vl.ev(n)


class Rng(random.Random):
    """Choices of inputs.  Aimed at the constants of the analysed program, one kind of quantity at a
    time takes values next to one of them."""
    dict, focus = (), None
    LIM = {'count': 1100, 'size': 5000, 'item': 1100, 'cap': 1 << 20, 'icap': 1 << 20, 'align': 1 << 20, 'arg': 1 << 60}

    def aim(self, dic):
        l = [f for f in sorted(self.LIM) if any(k <= self.LIM[f] for k in dic)]
        if l:
            self.dict, self.focus = dic, self.choice(l + [f for f in l if f in ('count', 'size', 'arg')] + ['any'])

    def near(self, f):
        if self.focus != f and not (self.focus == 'any' and f in ('size', 'cap', 'icap', 'align', 'arg')):
            return None
        l = [k for k in self.dict if k <= self.LIM[f]]
        if not l or self.random() < 0.15:
            return None
        return max(0, self.choice(l) + self.choice((-1, 0, 0, 1, 1, 2, 5)))

    def num(self, l, f='arg'):
        k = self.near(f)
        return self.choice(l) if k is None else k

    def pow2(self, l):
        if self.focus in ('align', 'any'):
            d = [k for k in self.dict if k <= self.LIM['align'] and not k & (k - 1)]
            if d and self.random() < 0.6:
                k = self.choice(d)
                return self.choice((k, k, k // 2, 2 * k))
        return self.choice(l)

    def bytes(self, al, l, f='size'):
        """a multiple of al"""
        k = self.near(f)
        return al * self.choice(l) if k is None else -(-k // al) * al


class World:
    """Denotations of the free atoms of a graph."""

    def __init__(self, sc, seed, rng=None):
        self.sc, self.seed = sc, seed
        self.rng = rng or Rng(seed)
        self.mem = Mem()
        self.atoms = {'GARBAGE': ('garbage',)}
        self.types = {}
        self.metas = {}
        self.nd = {}
        self.ndp = 0.0
        self.inert = False
        self.big = BIG
        self.state = {}
        self.mcount = 0
        r = self.rng
        # the universe: size and alignment of the type parameters
        self.al = r.pow2([1, 2, 4, 8, 16])
        self.es = r.bytes(self.al, [0, 1, 1, 2, 3, 5])
        ck = sc.ck
        if ck == 'E':
            self.es = r.bytes(self.al, [1, 1, 2, 3]) or self.al
        self.types['E'] = (self.es, self.al)
        self.types['T'] = (self.es, self.al)
        if ck == 'U':
            self.al = 1

    # elements ---------------------------------------------------------
    def elem(self, tok, big=False):
        """a fresh value -> (size, align, meta, token)"""
        r, ck = self.rng, self.sc.ck
        if ck == 'S':
            s, a, m = self.es, self.al, ('tuple',)
        elif ck == 'E':
            n = r.num([0, 1, 1, 2, 3], 'item')
            s, a, m = n * self.es, self.al, n
        else:
            a = self.al if ck == 'A' else r.pow2([1, 1, 2, 4, 8, 16, 32])
            s = r.bytes(a, [0, 1, 1, 1, 2, 3, 5])
            self.mcount += 1
            m = ('m', self.mcount)
            self.metas[m] = (s, a)
        if s == 0:
            tok = ('zst',)
        return (s, a, m, tok)

    def put(self, addr, tok, size):
        self.mem = self.mem.put(addr, tok, size)
        assert not self.mem.ub

    def setvec(self, n='v', nelems=None, tight=None):
        sc, r = self.sc, self.rng
        k = r.num([0, 1, 2, 2, 3, 3, 4], 'count') if nelems is None else nelems
        els = [self.elem(('%s' % n, i)) for i in range(k)]
        tight = r.random() < 0.4 if tight is None else tight
        self.state[n] = els
        if sc.ck == 'S':
            cap = k if tight else max(k, r.num([k, k + 1, k + 2, k + 5], 'icap'))
            if cap * self.es > 1 << 24:
                cap = k
            if self.es == 0:
                cap = t.M64
            if cap and self.es:
                p, self.mem = self.mem.alloc(cap * self.es, self.al)
            else:
                p = self.al
            for i, (s, a, m, tok) in enumerate(els):
                self.put(p + i * s, tok, s)
            self.atoms.update({n + '.ptr': p, n + '.icap': cap, n + '.len': k})
            return els
        if sc.ck == 'U':
            al = max([a for s, a, m, x in els] + [1])
            if r.random() < 0.5:
                al = max(al, r.pow2([1, 2, 4, 8, 8, 16, 32, 64]))
        else:
            al = self.al
        off, ends, starts = 0, [], []
        for s, a, m, tok in els:
            off = -(-off // al) * al
            starts.append(off)
            off += s
            ends.append(off)
        full = -(-off // al) * al
        cap = full if tight else max(full, r.bytes(al, [full // al + x for x in (0, 1, 2, 4, 9)], 'cap'))
        if cap:
            p, self.mem = self.mem.alloc(cap, al)
        else:
            p = al
        for (s, a, m, tok), o in zip(els, starts):
            self.put(p + o, tok, s)
        seq = tuple(self.info(m, e) for (s, a, m, tok), e in zip(els, ends))
        icap = k if tight and r.random() < 0.6 else max(k, r.num([k, k + 1, k + 3], 'icap'))
        self.atoms.update({n + '.ptr': p, n + '.cap': cap, n + '.align': al, n + '.seq': seq, n + '.icap': icap})
        return els

    def pynode(self, node):
        return Valuation(0, {}, self.mem, {}).ev(node)

    def info(self, meta, end):
        sc = self.sc
        ctor, roles = sc.info_roles()
        vals = []
        for r, ty in roles:
            ty = sc.I.res(ty, sc.sub)
            if r == 'ph':
                vals.append(('tuple',))
            elif r == 'end':
                vals.append(self.pynode(sc.I.newtype(ty, c(end))))
            elif ty == '()':
                vals.append(('tuple',))
            else:
                self.atoms['_tmp'] = meta
                vals.append(Valuation(0, {'_tmp': meta}, self.mem, {}).ev(sc.I.newtype(ty, t.atom('_tmp'))))
        return (ctor,) + tuple(vals)

    def setx(self, n='x', where='ext'):
        """the by-value argument or the value of the producer"""
        s, a, m, tok = e = self.elem((n, 0))
        self.state[n] = e
        ad = a
        if s:
            ad, self.mem = self.mem.alloc(s, a, 'ext')
            if where == 'ext':
                self.put(ad, tok, s)
        self.atoms.update({n + '.tok': tok, n + '.addr': ad, n + '.meta': m})
        return e

    def setbuf(self, n='RCV', size=1024, align=64):
        """the consumer's buffer"""
        p, self.mem = self.mem.alloc(size, align, 'ext')
        self.atoms[n + '.buf'] = p
        return p

    # running ------------------------------------------------------------
    def valuation(self):
        a = dict(self.atoms)
        a['mem'] = self.mem
        vl = Valuation(self.seed, a, self.mem, self.types, self.nd, self.metas, self.ndp)
        vl.inert = self.inert
        vl.big = self.big
        return vl

    def outcome(self, g):
        vl = self.valuation()
        hits, ub = [], []
        for how, l in (('ret', [g.ret] if g.ret is not None else []), ('unw', g.unw), ('abt', g.abt)):
            for s in l:
                x = vl.ev(s.g)
                if x is P:
                    ub.append('control depends on an undefined value')
                elif x:
                    hits.append((how, s))
        for gd, why in g.ub:
            x = vl.ev(gd)
            if x is P or x:
                ub.append(why)
        if len(hits) != 1:
            return Outcome('none' if not hits else 'many', None, None, {}, vl, ub)
        how, s = hits[0]
        m = vl.ev(s.env['mem'])
        if m is P:
            ub.append('memory undefined')
            m = self.mem
        ub += list(m.ub)
        val = vl.ev(g.val) if how == 'ret' else None
        return Outcome(how, m, val, s.env, vl, ub)

    # reading back ---------------------------------------------------------
    def decode(self, out, n='v', p=None):
        """-> VecView of a vector object after the operation"""
        p = p if p is not None else self.sc.vecs[n]
        v = out.obj(p)
        return self.view(v, out.mem, out.vl)

    def view(self, v, mem, vl):
        bad = []
        if v is None or v is P or not isinstance(v, tuple):
            raise Undecided('the vector object is not readable')
        if v[0] == 'UnsizedVec':
            inn = [x for x in v[1:] if x != ('tuple',)]
            if len(inn) != 1:
                raise Undecided('layout of UnsizedVec')
            v = inn[0]
        if self.sc.ck == 'S':
            if v[0] != 'Vec':
                raise Undecided('inner vector')
            ptr, cap, n = v[1], v[2], v[3]
            vv = VecView(ptr, cap * self.es if self.es else 0, self.al, cap)
            if not isinstance(n, int) or not isinstance(cap, int) or n > 400:
                vv.bad.append('length %s' % (n,))
                return vv
            if self.es and n > cap:
                vv.bad.append('length %d exceeds capacity %d' % (n, cap))
            for i in range(n):
                vv.elems.append((self.es, ('tuple',), mem.load(ptr + i * self.es, self.es)))
            self.check_buf(vv, mem)
            return vv
        roles, tys = self.sc.roles()
        d = {}
        for r, x in zip(roles, v[1:]):
            d[r] = x
        s = d.get('seq', d.get('md'))
        if s is not None and isinstance(s, tuple) and s[0] == 'ManuallyDrop':
            s = s[1]
        if not (isinstance(s, tuple) and s and s[0] == 'SVec'):
            raise Undecided('element table')
        seq, icap = s[1], s[2]
        al = leaf(d['align']) if 'align' in d else self.al
        cap, ptr = leaf(d['cap']), d['ptr']
        vv = VecView(ptr, cap, al, icap)
        if seq is P or cap is None or not isinstance(al, int) or not isinstance(ptr, int) or icap is P:
            vv.bad.append('the vector holds an undefined value')
            return vv
        if len(seq) > icap:
            vv.bad.append('more elements than capacity in the element table')
        _, ir = self.sc.info_roles()
        off = 0
        for i, e in enumerate(seq):
            if e is P:
                vv.bad.append('element %d has no table entry' % i)
                return vv
            m = end = None
            for (r, ty), x in zip(ir, e[1:]):
                if r == 'meta':
                    m = x
                elif r == 'end':
                    end = leaf(x)
            st = -(-off // al) * al if al else off
            if not isinstance(end, int) or end < st:
                vv.bad.append('element %d: end offset %s before its start %s' % (i, end, st))
                return vv
            size = end - st
            if self.sc.ck == 'E':
                if self.es == 0 or size % self.es:
                    vv.bad.append('element %d: %d bytes is not a whole number of items' % (i, size))
                    return vv
                m = size // self.es
            else:
                if isinstance(m, tuple) and m and m[0] == 'FullMetadataRemainder':
                    m = m[1]
                if m not in self.metas:
                    vv.bad.append('element %d: wrong metadata %r' % (i, m))
                    return vv
                if self.metas[m][0] != size:
                    vv.bad.append('element %d: occupies %d bytes but its value has %d' % (i, size, self.metas[m][0]))
                    return vv
                if al % self.metas[m][1]:
                    vv.bad.append('element %d: alignment %d in a buffer of alignment %d' % (i, self.metas[m][1], al))
            if al and (ptr + st) % al:
                vv.bad.append('element %d: misaligned' % i)
            vv.elems.append((size, m, mem.load(ptr + st, size)))
            vv.starts.append(st)
            off = end
        vv.used = -(-off // al) * al if al else off
        if vv.used > cap:
            vv.bad.append('elements occupy %d bytes of a buffer of %d' % (vv.used, cap))
        self.check_buf(vv, mem)
        return vv

    def check_buf(self, vv, mem):
        b = vv.bytecap
        if not isinstance(vv.ptr, int):
            vv.bad.append('undefined buffer pointer')
            return
        if b:
            e = mem.allocs.get(vv.ptr)
            if e is None or e[2] == 'dead':
                vv.bad.append('the buffer pointer is not a live allocation')
            elif e[0] != b or e[1] != vv.align:
                vv.bad.append('buffer recorded as (%s, %s) but allocated as (%s, %s)' % (b, vv.align, e[0], e[1]))
        else:
            if vv.ptr == 0 or (vv.align and vv.ptr % vv.align):
                vv.bad.append('dangling pointer %s for alignment %s' % (vv.ptr, vv.align))

    def dropped(self, out):
        """tokens the operation has dropped"""
        r = []
        for e in out.mem.log:
            if e[0] == 'drop':
                r.append(e[1])
            elif e[0] == 'dropval':
                r.append(e[1] if e[1] is not None else None)
        return r

    def leaks(self, out, keep):
        """live heap allocations reachable from nothing"""
        return [a for a, (s, al, k) in out.mem.allocs.items() if k == 'heap' and a not in keep]


class VecView:
    def __init__(self, ptr, bytecap, align, icap):
        self.ptr, self.bytecap, self.align, self.icap = ptr, bytecap, align, icap
        self.elems, self.starts, self.bad = [], [], []
        self.used = 0

    def toks(self):
        return [(m, tok) for s, m, tok in self.elems]


def toks(els):
    return [(m, tok) for s, a, m, tok in els]
