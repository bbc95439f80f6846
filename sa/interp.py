"""Abstract interpretation of MIR to a gated value graph.

A function is interpreted once, for all inputs: every block is visited once (loop bodies until
the set of loop-carried leaves is stable), states meeting at a join are merged leaf by leaf with
`ite` gates, loops become `mu` leaves with init/step/continue terms.  No input is ever chosen.
"""
import re
import terms as t
from terms import (mk, c, rec, enum, some, NONE, TRUE, FALSE, UNIT, POISON, unk, ite, and_, or_, not_,
                   eq, lt, le, arith, fld, setfld, tagis, pl, setpl, ref, Node)
from mir import norm_type, head_of, match_close, split_top, find_top


class St:
    __slots__ = ('g', 'env')

    def __init__(self, g, env):
        self.g, self.env = g, env

    def copy(self):
        return St(self.g, dict(self.env))

    @property
    def dead(self):
        return self.g is FALSE


def kill(st):
    st.g = FALSE


def conjs(g):
    if g is TRUE:
        return frozenset()
    return t._conj(g)


def know(g, x):
    """Simplify boolean x under guard g."""
    if x.op == 'b':
        return x
    cs = conjs(g)
    if x in cs:
        return TRUE
    nx = not_(x)
    if nx in cs:
        return FALSE
    if x.op == 'and':
        r = TRUE
        for e in x.aux:
            r = and_(r, know(g, e))
        return r
    if x.op == 'or':
        r = FALSE
        for e in sorted(x.aux, key=lambda n: n.id):
            r = or_(r, know(g, e))
        return r
    return x


def merge(sts):
    """Join states with exclusive guards."""
    sts = [s for s in sts if s is not None and not s.dead]
    if not sts:
        return None
    if len(sts) == 1:
        return sts[0]
    # merge pairwise, the most similar guards first, to keep gates small
    sts = list(sts)
    while len(sts) > 1:
        best = None
        n = len(sts)
        if n > 2:
            for i in range(n):
                for j in range(i + 1, n):
                    k = len(conjs(sts[i].g) & conjs(sts[j].g)) * 2 - len(conjs(sts[i].g)) - len(conjs(sts[j].g))
                    if best is None or k > best[0]:
                        best = (k, i, j)
        else:
            best = (0, 0, 1)
        _, i, j = best
        b = sts.pop(j)
        a = sts.pop(i)
        sts.append(merge2(a, b))
    return sts[0]


def merge2(a, b):
    ca, cb = conjs(a.g), conjs(b.g)
    common = ca & cb
    ra, rb = t._mkand(ca - common), t._mkand(cb - common)
    if ra is TRUE or rb is TRUE:
        # not exclusive on the face of it: gate on the informative side
        gate = ra if rb is TRUE else not_(rb)
    else:
        # prefer the simpler gate
        gate = ra if len(conjs(ra)) <= len(conjs(rb)) else not_(rb)
    env = {}
    ea, eb = a.env, b.env
    for k, va in ea.items():
        vb = eb.get(k)
        if vb is None or vb is va:
            env[k] = va
        else:
            env[k] = ite(gate, va, vb)
    for k, vb in eb.items():
        if k not in ea:
            env[k] = vb
    return St(or_(a.g, b.g), env)


class Abandon(Exception):
    """The analysis does not understand a construct (the obligation stays undecided)."""


IDENT = {'NonNull', 'Unique', 'Emplacer'}
PRIM = {'usize', 'u8', 'u32', 'u64', 'isize', 'bool', 'char', '()', 'Layout', 'str', '!', 'i32', 'i64', 'u16', 'i8'}


class Frame:
    __slots__ = ('fn', 'fid', 'subst', 'file')


class Interp:
    def __init__(self, idx, kinds, builtins, foreign):
        """kinds: generic type -> provider kind 'S' | 'A' | 'U' (and metadata kind in metas)"""
        self.idx = idx
        self.kinds = kinds
        self.metas = {}
        self.copy_types = {'u8', 'usize', 'u32', 'u64', 'MaybeUninit<u8>'}
        self.bt = builtins
        self.foreign = foreign
        self.fids = {}
        self.unw = [[]]
        self.abt = [[]]
        self.ub = []          # (guard, why)
        self.loopstack = []
        self.nloops = 0
        self.substs = []
        self.subst_ix = {}
        self.labels = {}
        self.stats = {'functions': set(), 'inlined': 0, 'blocks': 0, 'calls': 0, 'loops': 0, 'unknown': {}}
        self.depth = 0
        self.nobj = 0
        self.tcache = {}
        self.const_cache = {}
        self.fgen = {}
        self.hints = {}

    # ---------------------------------------------------------------- types
    IDRE = re.compile(r"(?<![\w@/.'])([A-Z_]\w*)(?!\w|::)")

    def tsub(self, ty, subst):
        if not subst:
            return ty
        if '{closure@' in ty and ty.startswith('{closure@'):
            return ty

        def rep(m):
            return subst.get(m.group(1), m.group(1))
        return self.IDRE.sub(rep, ty)

    def norm(self, ty):
        r = self.tcache.get(ty)
        if r is None:
            if ty.startswith('{closure@'):
                r = ty
            else:
                r = norm_type(ty)
            self.tcache[ty] = r
        return r

    def impl_of(self, ty):
        k = self.kind(ty)
        return {'S': 'Vec<%s>', 'A': 'AlignedVecInner<%s>', 'U': 'UnalignedVecInner<%s>'}[k] % ty

    def kind(self, ty):
        k = self.kinds.get(ty)
        if k:
            return k
        if (ty.startswith('[') and ';' not in ty) or ty in ('str', 'CStr'):
            return 'A'
        if ty.startswith('dyn'):
            return 'U'
        return 'S'

    def meta_kind(self, ty):
        m = self.metas.get(ty)
        if m:
            return m
        if ty.startswith('[') and ';' not in ty:
            return 'unit'
        if self.kind(ty) == 'S':
            return 'unit'
        return 'full'

    PROJ = re.compile(r'<([^<>]|<[^<>]*>)*? as (UnsizedVecImpl|SplitMetadata|AlignedVecImpl|Pointee)>::(\w+)')

    def res(self, ty, subst=None):
        """normalise, substitute, and resolve the projections the crate uses"""
        ty = self.norm(ty)
        if subst:
            ty = self.tsub(ty, subst)
        if ' as ' not in ty or ty.startswith('{closure@'):
            return ty
        key = ('r', ty)
        r = self.tcache.get(key)
        if r is not None:
            return r
        for _ in range(8):
            m = re.search(r'<([\w\[\];: ]+|dyn \w+) as (UnsizedVecImpl|AlignedVecImpl)>::Impl', ty)
            if m:
                ty = ty[:m.start()] + self.impl_of(m.group(1).strip()) + ty[m.end():]
                continue
            m = re.search(r'<([\w\[\];: ]+) as SplitMetadata>::Remainder', ty)
            if m:
                x = m.group(1)
                r = '()' if self.meta_kind(x) == 'unit' else 'FullMetadataRemainder<Meta_%s>' % re.sub(r'\W', '_', x)
                ty = ty[:m.start()] + r + ty[m.end():]
                continue
            m = re.search(r'<([\w\[\];: ]+) as Pointee>::Metadata', ty)
            if m:
                x = m.group(1)
                if x.startswith('['):
                    r = 'usize'
                elif self.kind(x) == 'S':
                    r = '()'
                else:
                    r = 'Meta_%s' % re.sub(r'\W', '_', x)
                ty = ty[:m.start()] + r + ty[m.end():]
                continue
            m = re.search(r'<(Vec|AlignedVecInner|UnalignedVecInner)<([\w\[\];: ]+)> as UnsizedVecProvider<[^<>]*>>::(Align|Size|IterMut|Iter)\b(<\'?_?>)?', ty)
            if m:
                h, x, what = m.group(1), m.group(2), m.group(3)
                tab = {'Vec': {'Align': '()', 'Size': '()', 'Iter': 'Iter<%s>' % x, 'IterMut': 'IterMut<%s>' % x},
                       'AlignedVecInner': {'Align': '()', 'Size': 'ValidSize<%s>' % x,
                                           'Iter': 'AlignedIter<%s>' % x, 'IterMut': 'AlignedIterMut<%s>' % x},
                       'UnalignedVecInner': {'Align': 'ValidAlign', 'Size': 'ValidSizeUnaligned',
                                             'Iter': 'UnalignedIter<%s>' % x, 'IterMut': 'UnalignedIterMut<%s>' % x}}
                ty = ty[:m.start()] + tab[h][what] + ty[m.end():]
                continue
            break
        self.tcache[key] = ty
        return ty

    def unify(self, pat, ty, out, depth=0):
        """Match a normalised pattern type with generics against a concrete type."""
        if depth > 12 or not ty:
            return
        pat, ty = pat.strip(), ty.strip()
        if pat == ty:
            if re.match(r'^([A-Z][A-Z0-9]?|__H)$', pat):
                out.setdefault(pat, ty)
            return
        if re.match(r'^([A-Z][A-Z0-9]?|__H)$', pat):
            out.setdefault(pat, ty)
            return
        if pat.startswith('impl ') or pat.startswith('{closure@'):
            out.setdefault(pat, ty)
            return
        for p in ('&mut ', '&', '*const ', '*mut '):
            if pat.startswith(p):
                for q in ('&mut ', '&', '*const ', '*mut '):
                    if ty.startswith(q):
                        return self.unify(pat[len(p):], ty[len(q):], out, depth + 1)
                return
        if pat.startswith('[') and ty.startswith('['):
            a, b = split_top(pat[1:-1], ';'), split_top(ty[1:-1], ';')
            if len(a) == len(b):
                for x, y in zip(a, b):
                    self.unify(x, y, out, depth + 1)
            return
        if pat.startswith('(') and ty.startswith('('):
            a, b = split_top(pat[1:-1]), split_top(ty[1:-1])
            if len(a) == len(b):
                for x, y in zip(a, b):
                    self.unify(x, y, out, depth + 1)
            return
        i, j = pat.find('<'), ty.find('<')
        if i > 0 and j > 0 and pat[:i].split('::')[-1] == ty[:j].split('::')[-1] and pat.endswith('>') and ty.endswith('>'):
            a = [x for x in split_top(pat[i + 1:-1]) if not x.startswith("'")]
            b = [x for x in split_top(ty[j + 1:-1]) if not x.startswith("'")]
            if len(a) == len(b):
                for x, y in zip(a, b):
                    self.unify(x, y, out, depth + 1)

    def subst_id(self, s):
        k = tuple(sorted(s.items()))
        if k not in self.subst_ix:
            self.subst_ix[k] = len(self.substs)
            self.substs.append(s)
        return self.subst_ix[k]

    # ---------------------------------------------------------------- pointers
    def padd(self, p, el):
        if p.op == 'ref':
            return mk('ref', p.a[0], p.a[1] + (el,))
        if p.op == 'ite':
            return ite(p.a[0], self.padd(p.a[1], el), self.padd(p.a[2], el))
        if p.op in ('unk', 'poison'):
            return p
        if p.op == 'lx':
            return t.lx(p.a[0], self.padd(p.a[1], el))
        return mk('paddr', p, el)

    def load(self, st, p):
        if p.op == 'ref':
            root, path = p.a
            v = st.env.get(root)
            if v is None:
                return unk('dangling reference %s' % (root,))
            for el in path:
                v = self.get(v, el)
            return v
        if p.op == 'ite':
            return ite(p.a[0], self.load(st, p.a[1]), self.load(st, p.a[2]))
        if p.op in ('unk', 'poison'):
            return p
        if p.op == 'rec' and p.a[0] == 'wide':
            # a by-value unsized place
            return rec('uval', p.a[1], p.a[2])
        return self.load_mem(st, p)

    def load_mem(self, st, p):
        if p.op == 'paddr':
            return unk('load through field of raw pointer')
        return mk('mload', st.env['mem'], p, c(1))

    def get(self, v, el):
        k = el[0]
        if k == 'f':
            return fld(v, el[1])
        if k == 'v':
            return pl(v, el[1], el[2])
        if k == 'i':
            if v.op == 'rec' and v.a[0] == 'arr':
                if el[1].op == 'c':
                    return v.a[1 + cvi(el[1])] if cvi(el[1]) < len(v.a) - 1 else unk('array index')
                if not 1 < len(v.a) <= 17:
                    return unk('array index')
                r = v.a[-1]
                for i in range(len(v.a) - 3, -1, -1):
                    r = ite(eq(el[1], c(i)), v.a[1 + i], r)
                return r
            return t.sget(v, el[1])
        raise Abandon('path element %r' % (el,))

    def put(self, v, path, val):
        if not path:
            return val
        el = path[0]
        k = el[0]
        if v.op == 'ite' and k != 'i':
            return ite(v.a[0], self.put(v.a[1], path, val), self.put(v.a[2], path, val))
        if k == 'f':
            if v.op == 'rec':
                return setfld(v, el[1], self.put(fld(v, el[1]), path[1:], val))
            if v.op in ('unk', 'poison'):
                return v
            return mk('setfld', v, el[1], self.put(fld(v, el[1]), path[1:], val))
        if k == 'v':
            return setpl(v, el[1], el[2], self.put(pl(v, el[1], el[2]), path[1:], val))
        if k == 'i':
            if v.op == 'rec' and v.a[0] == 'arr' and el[1].op == 'c':
                l = list(v.a)
                l[1 + cvi(el[1])] = self.put(l[1 + cvi(el[1])], path[1:], val)
                return mk('rec', *l)
            if v.op == 'rec' and v.a[0] == 'arr' and 1 < len(v.a) <= 17:
                return mk('rec', 'arr', *[ite(eq(el[1], c(i)), self.put(x, path[1:], val), x)
                                          for i, x in enumerate(v.a[1:])])
            if len(el) > 2 and v.op != 'unk':
                return mk('sraw', v, el[1], self.put(t.sget(v, el[1]), path[1:], val))
            return t.supd(v, el[1], self.put(t.sget(v, el[1]), path[1:], val))
        raise Abandon('path element %r' % (el,))

    def store(self, st, p, val):
        if p.op == 'ref':
            root, path = p.a
            if not path:
                st.env[root] = val
                return
            v = st.env.get(root)
            if v is None:
                # first initialisation of a field of an uninitialised aggregate
                v = self.skeleton(root, path)
            st.env[root] = self.put(v, path, val)
            return
        if p.op == 'ite':
            a, b = p.a[1], p.a[2]
            sa, sb = st.copy(), st.copy()
            self.store(sa, a, val)
            self.store(sb, b, val)
            g = p.a[0]
            for k in set(sa.env) | set(sb.env):
                va, vb = sa.env.get(k), sb.env.get(k)
                if va is None or vb is None:
                    st.env[k] = va if vb is None else vb
                elif va is not vb:
                    st.env[k] = ite(g, va, vb)
                else:
                    st.env[k] = va
            return
        if p.op in ('unk', 'poison'):
            self.havoc(st, 'store through unknown pointer')
            return
        st.env['mem'] = mk('mput', st.env['mem'], p, val, c(0))

    def skeleton(self, root, path):
        el = path[0]
        if el[0] == 'f':
            return rec('?', *[POISON] * (el[1] + 1))
        return POISON

    def havoc(self, st, why):
        u = unk(why)
        st.env['mem'] = u
        self.note_unknown(why)

    def note_unknown(self, why):
        d = self.stats['unknown']
        d[why] = d.get(why, 0) + 1

    def new_obj(self, st, val, tag='o'):
        self.nobj += 1
        r = ('O', '%s%d' % (tag, self.nobj))
        st.env[r] = val
        return ref(r)

    def label(self, name):
        n = self.labels.get(name, 0)
        self.labels[name] = n + 1
        return '%s#%d' % (name, n)

    def nd(self, name, kind='b'):
        """A fresh nondeterministic choice of the environment (per iteration of enclosing loops)."""
        return mk('nd', self.label(name), *[mk('it', l) for l in self.loopstack])

    # ---------------------------------------------------------------- places
    def place(self, fr, st, pc, want_ptr=True):
        """-> (pointer node, static type)"""
        loc, projs = pc
        p = ref(('L', fr.fid, loc))
        ty = self.lty(fr, loc)
        vt = None
        for pr in projs:
            k = pr[0]
            if k == '*':
                if head_of(ty) == 'Box' and not ty.startswith(('&', '*')):
                    v = self.load(st, p)
                    if v.op == 'rec' and v.a[0] == 'Box':
                        v = fld(v, 0)
                    p = v
                else:
                    p = self.load(st, p)
                ty = deref_ty(ty)
            elif k == 'f':
                fty = self.res(pr[2], fr.subst)
                h = head_of(ty) if vt is None else None
                if vt is not None:
                    p = self.padd(p, ('v', vt, pr[1]))
                    vt = None
                elif h in IDENT and not ty.startswith(('&', '*')):
                    if pr[1] == 0:
                        pass        # same place seen through the wrapper
                    else:
                        p = self.padd(p, ('f', pr[1]))
                elif h == 'Box' and not ty.startswith(('&', '*')):
                    try:
                        bx = self.load(st, p)
                    except Abandon:
                        bx = None
                    if bx is not None and bx.op == 'rec' and bx.a[0] == 'Box':
                        p = self.padd(p, ('f', pr[1]))     # a box with its own allocator
                    elif pr[1] != 0:
                        p = self.new_obj(st, UNIT)
                else:
                    p = self.padd(p, ('f', pr[1]))
                ty = fty
            elif k == 'v':
                vt = pr[1].split('::')[-1]
            elif k == 'i':
                ix = self.load(st, ref(('L', fr.fid, pr[1])))
                p = self.index_ptr(st, p, ix, elem_ty(ty))
                ty = elem_ty(ty)
            elif k == 'ci':
                p = self.index_ptr(st, p, c(pr[1]) if pr[1] >= 0 else
                                   arith('sub', self.place_len(p, ty), c(-pr[1])), elem_ty(ty))
                ty = elem_ty(ty)
            elif k == 'sub':
                n = self.place_len(p, ty)
                lo = c(pr[1])
                hi = n if not pr[2] else c(int(pr[2])) if not pr[2].startswith('-') else \
                    arith('sub', n, c(-int(pr[2])))
                if p.op == 'rec' and p.a[0] == 'slice':
                    p = rec('slice', p.a[1], arith('add', p.a[2], lo), arith('add', p.a[2], hi))
                elif p.op == 'rec' and p.a[0] == 'wide':
                    p = rec('wide', self.bt.offset(self, p.a[1], lo, self.size_node(elem_ty(ty))),
                            arith('sub', hi, lo))
                else:
                    raise Abandon('subslice of an array')
            else:
                raise Abandon('projection %r' % (pr,))
        if vt is not None:
            pass
        return p, ty

    def place_len(self, p, ty):
        if p.op == 'rec' and p.a[0] == 'slice':
            return arith('sub', p.a[3], p.a[2])
        if p.op == 'rec' and p.a[0] == 'wide':
            return p.a[2]
        m = re.search(r'; (\d+)(?:_usize)?\]$', ty)
        if m:
            return c(int(m.group(1)))
        raise Abandon('length of a place')

    def index_ptr(self, st, p, ix, ety=None):
        if p.op == 'rec' and p.a[0] == 'slice':
            return self.padd(p.a[1], ('i', arith('add', p.a[2], ix)))
        if p.op == 'rec' and p.a[0] == 'wide':
            if ety is None:
                return unk('index into memory slice')
            return self.bt.offset(self, p.a[1], ix, self.size_node(ety))
        return self.padd(p, ('i', ix))

    def lty(self, fr, n):
        ty = fr.fn.locals.get(n)
        if ty is None:
            ty = fr.fn.ret if n == 0 else '?'
        return self.res(ty, fr.subst)

    def ptype(self, fr, op):
        """static type of an operand"""
        if op[0] == 'const':
            return self.const_type(fr, op[1])
        loc, projs = op[1]
        ty = self.lty(fr, loc)
        for pr in projs:
            if pr[0] == '*':
                ty = deref_ty(ty)
            elif pr[0] == 'f':
                ty = self.res(pr[2], fr.subst)
            elif pr[0] in ('i', 'ci'):
                ty = elem_ty(ty)
        return ty

    def const_type(self, fr, s):
        m = re.match(r'-?\d+_(\w+)$', s)
        if m:
            return m.group(1)
        if s in ('true', 'false'):
            return 'bool'
        if s == '()':
            return '()'
        if s.startswith('"'):
            return '&str'
        return '?'

    # ---------------------------------------------------------------- operands
    def operand(self, fr, st, op):
        if op[0] == 'const':
            return self.const(fr, st, op[1])
        p, ty = self.place(fr, st, op[1])
        if p.op == 'rec' and p.a[0] == 'wide':
            return rec('uval', p.a[1], p.a[2])
        if p.op in ('ref', 'ite', 'unk', 'poison', 'lx'):
            v = self.load(st, p)
            return v
        # a sized value read from an address
        return mk('mload', st.env['mem'], p, self.size_node(ty))

    def size_node(self, ty):
        ty = ty.strip()
        n = {'usize': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'bool': 1, '()': 0, 'isize': 8, 'i8': 1, 'i16': 2,
             'i32': 4, 'i64': 8, 'ValidAlign': 8}.get(ty)
        if n is not None:
            return c(n)
        m = re.match(r'(?:MaybeUninit|ManuallyDrop|Cell|UnsafeCell)<(.*)>$', ty)
        if m:
            return self.size_node(m.group(1))
        m = re.match(r'\[(.*); (\w+)\]$', ty)
        if m:
            return arith('umul', self.size_node(m.group(1)), self.const_generic(m.group(2)))
        if ty.startswith('PhantomData'):
            return c(0)
        return mk('szof', ty)

    def const_generic(self, n):
        if n.isdigit():
            return c(int(n))
        return t.atom('const ' + n)

    def align_node(self, ty):
        n = {'usize': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'bool': 1, '()': 1, 'isize': 8, 'str': 1, 'CStr': 1,
             'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'OsStr': 1, 'Path': 1, 'ValidAlign': 8}.get(ty)
        if n is not None:
            return c(n)
        if ty.startswith('PhantomData'):
            return c(1)
        m = re.match(r'(?:MaybeUninit|ManuallyDrop|Cell|UnsafeCell)<(.*)>$', ty)
        if m:
            return self.align_node(m.group(1))
        m = re.match(r'\[(.*); (\w+)\]$', ty)
        if m:
            return self.align_node(m.group(1))
        m = re.match(r'\[(.*)\]$', ty)
        if m:
            return self.align_node(m.group(1))
        return mk('alof', ty)

    def const(self, fr, st, s):
        s = s.strip()
        m = re.match(r'(-?\d+)_(\w+)$', s)
        if m:
            n = int(m.group(1))
            return c(n if n >= 0 else n & (1 << t.INTS.get(m.group(2), (64,))[0]) - 1)
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s == '()' or s.startswith('PhantomData') or s.endswith('PhantomData'):
            return UNIT
        if s.startswith('"') or s.startswith('b"') or s.startswith('c"'):
            return mk('str', s)
        m = re.match(r'(?:(?:core|std)::num::<impl (\w+)>|(?:<)?(\w+)>?)::(MAX|MIN|BITS)$', s)
        if m and (m.group(1) or m.group(2)) in t.INTS:
            ty = m.group(1) or m.group(2)
            return c({'MAX': t.intmax, 'MIN': t.intmin, 'BITS': lambda x: t.INTS[x][0]}[m.group(3)](ty))
        if s.endswith('::BITS'):
            return c(64)
        m = re.match(r'ZeroSized: (.*)$', s, re.S)
        if m:
            return self.fn_value(fr, m.group(1))
        if '::promoted[' in s:
            k = s.rindex('::promoted[')
            name = fr.fn.name + s[k:]
            f = self.idx.consts.get(name)
            if f is None:
                # a promoted of a callee's generic spelling
                return unk('promoted ' + name)
            return self.run_const(fr, st, f, fr.subst)
        # an associated constant of the crate
        m = re.match(r'^\{?(0x[0-9a-f]+|alloc\d+).*', s)
        if m:
            return mk('konst', s)
        m = re.match(r'^<(.*) as (?:\w+::)*Aligned>::ALIGN$', s)
        if m:
            x = self.res(m.group(1), fr.subst)
            if x in self.kinds and self.kinds[x] != 'S':
                return self.newtype('ValidAlign', self.align_node(x))
        r = self.find_const(fr, s)
        if r is not None:
            f, sub = r
            return self.run_const(fr, st, f, sub)
        if re.match(r'^[A-Z]\w*$', s):      # const generic or type parameter
            return self.const_generic(self.tsub(s, fr.subst))
        # a function item or a unit struct/variant value
        v = self.fn_value(fr, s)
        return v

    def find_const(self, fr, s):
        """`Type::<A>::NAME` or `<T as Trait>::NAME` -> (const body, subst)"""
        m = re.search(r'::([A-Z][A-Z0-9_]*)$', s)
        if not m:
            return None
        name = m.group(1)
        pre = s[:m.start()]
        cands = []
        if not hasattr(self.idx, 'const_by'):
            self.idx.const_by = {}
            for n, f in self.idx.consts.items():
                k = n.rsplit('::', 1)[-1]
                self.idx.const_by.setdefault(k, []).append(f)
        for f in self.idx.const_by.get(name, []):
            cands.append(f)
        if not cands:
            return None
        if pre.startswith('<'):
            e = match_close(pre, 0)
            inner = pre[1:e]
            k = find_top(inner, ' as ')
            sty = self.res(inner[:k], fr.subst) if k >= 0 else self.res(inner, fr.subst)
        else:
            sty = self.res(pre, fr.subst)
        best = []
        for f in cands:
            ims = list(self.idx.IMPL.finditer(f.name))
            if not ims:
                if f.name == name and sum(g.name == name for g in cands) == 1:      # a constant inside a function
                    best.append((0, f, fr.subst))
                    continue
                mm = re.match(r'([\w:]+)::[A-Z_]+$', f.name)   # trait default: Aligned::DANGLING_THIN
                if mm is None:
                    continue
                best.append((0, f, {'Self': sty}))
                continue
            im = self.idx.impl_at(ims[-1].group(1), *[int(ims[-1].group(i)) for i in range(2, 6)])
            ity = norm_type(im.self_ty or '')
            if '$' in ity:
                continue
            if ity == sty and not re.match(r'^[A-Z]\d?$', ity):
                best.append((3, f, {}))
            elif re.match(r'^[A-Z]\d?$', ity):
                if self.kind(sty) == 'S' or im.trait is None:
                    best.append((1, f, {ity: sty}))
                else:
                    best.append((-1, f, {ity: sty}))
            elif head_of(ity) == head_of(sty):
                out = {}
                self.unify(ity, sty, out)
                best.append((2, f, out))
        best = [b for b in best if b[0] >= 0]
        if not best:
            return None
        best.sort(key=lambda b: -b[0])
        return best[0][1], best[0][2]

    def run_const(self, fr, st, f, subst):
        key = (f.name, self.subst_id(subst))
        hit = self.const_cache.get(key)
        if hit is not None:
            v, ents = hit
            st.env.update(ents)
            return v
        # the T: Aligned alignment of an opaque type is a model parameter
        if f.name.endswith('::ALIGN') and False:
            pass
        s2 = St(TRUE, {'mem': st.env['mem']})
        # a constant whose evaluation panics does not compile: its unwinding is no path of the program
        self.unw.append([])
        self.abt.append([])
        try:
            v = self.run_fn(f, [], s2, subst, ('const', key), keep=True)
        finally:
            self.unw.pop()
            self.abt.pop()
        ents = {k: x for k, x in s2.env.items() if k != 'mem'}
        if v is None:
            v = unk('const ' + f.name)
        self.const_cache[key] = (v, ents)
        st.env.update(ents)
        return v

    def fn_value(self, fr, s):
        s = s.strip()
        m = re.match(r'(?:for<[^>]*> )?(?:unsafe )?(?:extern "[^"]*" )?fn\(.*\{(.*)\}$', s, re.S)
        if m:
            s = m.group(1)
        return rec('fn:%s:%d' % (s, self.subst_id(fr.subst)))

    # ---------------------------------------------------------------- rvalues
    def struct_ctor(self, fr, path):
        h = head_of(re.sub(r'::<', '<', path)) if not path.startswith('<') else None
        segs, _ = self.path_segs(path)
        name = segs[-1] if segs else path
        l = self.idx.structs.get(name)
        if l and len(l) > 1:
            return '%s@%s' % (name, fr.file)
        return name

    def rvalue(self, fr, st, rv, dst_ty):
        k = rv[0]
        if k == 'use':
            x = self.operand(fr, st, rv[1])
            if x.op == 'rec' and x.a[0] == 'uval' and x.a[1].op == 'ref':
                # moving an unsized value into a local copies it: its old place may die
                return rec('uval', self.new_obj(st, self.load(st, x.a[1]), 'moved'), x.a[2])
            return x
        if k == 'ref':
            p, ty = self.place(fr, st, rv[2])
            if p.op == 'ref':
                v = None
                root, path = p.a
                x = st.env.get(root)
                if x is not None and not path and x.op == 'rec' and x.a[0] == 'uval':
                    return rec('wide', x.a[1], x.a[2])
                if x is not None and path and head_of(ty) not in PRIM:
                    try:
                        y = self.load(st, p)
                    except Abandon:
                        y = None
                    if y is not None and y.op == 'rec' and y.a[0] == 'uval':
                        return rec('wide', y.a[1], y.a[2])
            return p
        if k == 'bin':
            return self.binop(fr, st, rv[1], rv[2], rv[3])
        if k == 'un':
            x = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                ty = self.ptype(fr, rv[2])
                if ty == 'bool' or x.op in t.BOOLOPS:
                    return not_(x)
                return arith('xor', x, c((1 << t.INTS.get(ty, (64,))[0]) - 1))
            if rv[1] == 'Neg':
                return arith(t.opfor('sub', self.ptype(fr, rv[2])), c(0), x)
            if rv[1] == 'PtrMetadata':
                return self.bt.ptr_meta(self, x)
            return unk('unary ' + rv[1])
        if k == 'discr':
            return self.discr(fr, st, rv[1])
        if k == 'len':
            p, ty = self.place(fr, st, rv[1])
            try:
                return self.place_len(p, ty)
            except Abandon:
                return unk('len')
        if k == 'null':
            ty = self.res(rv[2], fr.subst)
            if rv[1] == 'SizeOf':
                return self.size_node(ty)
            if rv[1] == 'AlignOf':
                return self.align_node(ty)
            return FALSE
        if k == 'cast':
            return self.cast(fr, st, rv, dst_ty)
        if k == 'repeat':
            x = self.operand(fr, st, rv[1])
            n = self.tsub(rv[2], fr.subst)
            m = re.match(r'^(?:const )?(\d+)(_usize)?$', n)
            return mk('rep', x, c(int(m.group(1))) if m else self.const_generic(n.strip()))
        if k == 'array':
            return rec('arr', *[self.operand(fr, st, x) for x in rv[1]])
        if k == 'tuple':
            if not rv[1]:
                return UNIT
            return rec('tuple', *[self.operand(fr, st, x) for x in rv[1]])
        if k == 'agg':
            path, kind, ops = rv[1], rv[2], rv[3]
            vals = [self.operand(fr, st, x) for x in ops]
            if path.startswith('{closure@'):
                f = self.closure_fn(fr, path)
                if f is None:
                    return unk('closure ' + path)
                return rec('clo:%d:%d' % (f.order, self.subst_id(fr.subst)), *vals)
            p = re.sub(r'::<', '<', path)
            # variant?
            q = re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>)*[^<>]*>)*[^<>]*>', '', p)
            last = q.split('::')[-1]
            dh = head_of(dst_ty)
            if last in ('Some', 'None', 'Ok', 'Err', 'Continue', 'Break', 'Less', 'Equal', 'Greater'):
                return enum(last, *vals)
            if dh in self.idx.enums or dh in ('TryReserveErrorKind',) or \
                    (len(q.split('::')) > 1 and q.split('::')[-2] in self.idx.enums):
                return enum(last, *vals)
            if last in ('CapacityOverflow',):
                return enum(last, *vals)
            if last == 'AllocError' and kind == 'struct':
                return enum(last, *vals)
            if last == 'PhantomData':
                return UNIT
            if not ops and re.match(r'[a-z_]\w*$', last) and '{' in dst_ty and 'fn(' in dst_ty:
                return self.fn_value(fr, path)
            ctor = self.struct_ctor(fr, path)
            if ctor in IDENT and vals:
                return vals[0]
            return rec(ctor, *vals)
        raise Abandon('rvalue %s' % k)

    def closure_fn(self, fr, path):
        l = self.idx.closures.get(path)
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        # macro-shared position: the closure that follows its parent
        after = [f for f in l if f.order > fr.fn.order and f.src == fr.fn.src]
        base = fr.fn.name
        for f in after:
            if f.name.startswith(base):
                return f
        return min(after, key=lambda f: f.order) if after else l[0]

    def discr(self, fr, st, pc):
        p, ty = self.place(fr, st, pc)
        v = self.load(st, p)
        return self.discr_of(v, ty)

    STD = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'Less': 255, 'Equal': 0,
           'Greater': 1, 'CapacityOverflow': 0, 'AllocError': 1}

    def discr_of(self, v, ty):
        if v.op == 'enum':
            d = self.STD.get(v.a[0])
            if d is not None:
                return c(d)
            for name, l in self.idx.enums.items():
                for rel, vs in l:
                    for n, dv in vs:
                        if n == v.a[0]:
                            return c(dv)
            return unk('discriminant ' + v.a[0])
        if v.op == 'ite':
            return ite(v.a[0], self.discr_of(v.a[1], ty), self.discr_of(v.a[2], ty))
        if v.op in ('unk', 'poison'):
            return v
        h = head_of(ty)
        if h in self.idx.enums and self.enum_values(h):
            return v
        for a, b in ((('Some'), 'None'), ('Ok', 'Err'), ('Continue', 'Break')):
            if h == {'Some': 'Option', 'Ok': 'Result', 'Continue': 'ControlFlow'}[a]:
                return ite(tagis(v, a), c(self.STD[a]), c(self.STD[b]))
        if h == 'Ordering':
            return ite(tagis(v, 'Less'), c(255), ite(tagis(v, 'Equal'), c(0), c(1)))
        return mk('discr', v)

    CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

    def binop(self, fr, st, op, a, b):
        x, y = self.operand(fr, st, a), self.operand(fr, st, b)
        return self.binval(op, x, y, self.ptype(fr, a))

    def binval(self, op, x, y, ty='usize'):
        if x.op in ('unk', 'poison') and op not in ('Offset',):
            return x
        if y.op in ('unk', 'poison'):
            return y
        if op == 'Eq':
            return eq(x, y)
        if op == 'Ne':
            return not_(eq(x, y))
        if op == 'Lt':
            return t.ilt(x, y, ty)
        if op == 'Gt':
            return t.ilt(y, x, ty)
        if op == 'Le':
            return not_(t.ilt(y, x, ty))
        if op == 'Ge':
            return not_(t.ilt(x, y, ty))
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'AddUnchecked': 'uadd', 'SubUnchecked': 'usub',
             'MulUnchecked': 'umul', 'Div': 'div', 'Rem': 'rem', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr',
             'ShlUnchecked': 'shl', 'ShrUnchecked': 'shr'}.get(op)
        if m:
            return arith(t.opfor(m, ty), x, y)
        if op == 'BitAnd':
            if ty == 'bool' or x.op in t.BOOLOPS:
                return and_(x, y)
            return arith('and_', x, y)
        if op == 'BitOr':
            if ty == 'bool' or x.op in t.BOOLOPS:
                return or_(x, y)
            return arith('or_', x, y)
        if op.endswith('WithOverflow'):
            w = op[:3].lower()
            r = arith(t.opfor(w, ty), x, y)
            u = arith(t.opfor('u' + w, ty), x, y)
            return rec('tuple', r, t.ispois(u))
        if op == 'Cmp':
            return ite(t.ilt(x, y, ty), enum('Less'), ite(eq(x, y), enum('Equal'), enum('Greater')))
        if op == 'Offset':
            return unk('Offset')
        return unk('binop ' + op)

    def newtype(self, ty, leaf):
        """wrap an integer leaf into a (possibly nested) newtype of the crate"""
        h = head_of(ty)
        l = self.idx.structs.get(h)
        if not l:
            return leaf
        rel, gen, fields, _ = l[0]
        sig = [i for i, (n, fty) in enumerate(fields) if 'PhantomData' not in fty]
        if len(sig) != 1:
            return leaf
        vals = [UNIT] * len(fields)
        vals[sig[0]] = self.newtype(norm_type(fields[sig[0]][1]), leaf)
        return rec(h, *vals)

    def enum_values(self, ty):
        """the discriminants of a field-less enum with explicit values, or of a newtype of one"""
        h = head_of(ty)
        for _ in range(4):
            if h in self.idx.enums:
                best = max(self.idx.enums[h], key=lambda e: len(e[1]))[1]
                vs = sorted(d for n, d in best)
                return tuple(vs) if h not in ('Ordering',) and vs != list(range(len(vs))) else None
            l = self.idx.structs.get(h)
            if not l:
                return None
            sig = [f for f in l[0][2] if 'PhantomData' not in f[1]]
            if len(sig) != 1:
                return None
            h = head_of(norm_type(sig[0][1]))
        return None

    def unwrap_newtype(self, v):
        while v.op == 'rec' and v.a[0] in self.idx.structs:
            rel, gen, fields, _ = self.idx.structs[v.a[0]][0]
            sig = [i for i, (n, fty) in enumerate(fields) if 'PhantomData' not in fty]
            if len(sig) != 1:
                break
            v = fld(v, sig[0])
        return v

    def cast(self, fr, st, rv, dst_ty):
        x = self.operand(fr, st, rv[1])
        kind = rv[3]
        to = self.res(rv[2], fr.subst)
        src = self.ptype(fr, rv[1])
        if kind == 'IntToInt':
            if x.op == 'enum':
                return self.discr_of(x, src)
            if src == 'bool' or x.op in t.BOOLOPS:
                return ite(x, c(1), c(0))
            if src not in t.INTS:       # a field-less enum, a char
                return arith('and_', x, c((1 << t.INTS[to][0]) - 1)) if to in t.INTS and t.INTS[to][0] < 64 else x
            return t.intcast(x, src, to)
        if kind == 'Transmute':
            x = self.unwrap_newtype(x)
            self.bt.valid_enum(self, st, x, to)
            return self.newtype(to, x)
        if kind.startswith('PtrToPtr'):
            return self.ptr_cast(x, src, to)
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(fr, st, x, src, to)
        if kind.startswith('PointerCoercion'):
            return x
        if kind.startswith('PointerExpose') or kind.startswith('PointerWithExposed'):
            return x
        return unk('cast ' + kind)

    def is_wide_pointee(self, ty):
        ty = wrappers(ty.strip())[0]
        if ty.startswith('dyn') or ty.startswith('[') and not re.match(r'\[.*; .*\]$', ty) or ty in ('str', 'CStr', 'OsStr', 'Path'):
            return True
        if ty in self.kinds:
            return self.kinds[ty] != 'S'
        return False

    def ptr_cast(self, x, src, to):
        if x.op == 'ite':
            return ite(x.a[0], self.ptr_cast(x.a[1], src, to), self.ptr_cast(x.a[2], src, to))
        if x.op == 'rec' and x.a[0] == 'wide' and not self.is_wide_pointee(deref_ty(to)):
            return x.a[1]
        if x.op == 'ref':
            # transparent wrappers: the payload is a field of the object
            n, k = wrappers(deref_ty(src))[1], wrappers(deref_ty(to))[1]
            while n > k:
                x = self.padd(x, ('f', 0))
                n -= 1
            while k > n:
                if not x.a[1] or x.a[1][-1] != ('f', 0):
                    return unk('cast to a wrapper')
                x = mk('ref', x.a[0], x.a[1][:-1])
                k -= 1
        return x

    def unsize(self, fr, st, x, src, to):
        sp, tp = deref_ty(src), deref_ty(to)
        if head_of(src) == 'Box' and not src.startswith(('&', '*')):
            sp, tp = type_args(src)[0], type_args(to)[0]
            if x.op == 'rec' and x.a[0] == 'Box':
                y = self.unsize(fr, st, fld(x, 0), '*const ' + sp, '*const ' + tp)
                return rec('Box', y, *x.a[2:])
        if tp.startswith('dyn') or tp.startswith('(dyn') or 'FnMut' in tp or tp.startswith('Emplacer'):
            return x
        m = re.match(r'\[(.*); (.*)\]$', sp)
        if m and tp.startswith('['):
            n = m.group(2)
            n = c(int(n)) if n.isdigit() else self.const_generic(n)
            if x.op == 'ref':
                return rec('slice', x, c(0), n)
            return rec('wide', x, n)
        if x.op == 'ite':
            return ite(x.a[0], self.unsize(fr, st, x.a[1], src, to), self.unsize(fr, st, x.a[2], src, to))
        return rec('wide', x, mk('umeta', sp, tp))

    # ---------------------------------------------------------------- functions
    def fid(self, parent, site, name):
        k = (parent, site, name)
        if k not in self.fids:
            self.fids[k] = len(self.fids)
        return self.fids[k]

    def run_fn(self, fn, args, st, subst, site, keep=False):
        """Interpret a body. Mutates st; returns the value or None when it never returns."""
        if st.dead:
            return None
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Abandon('recursion in ' + fn.name)
        self.stats['functions'].add(fn.name)
        self.stats['inlined'] += 1
        fr = Frame()
        fr.fn, fr.subst = fn, subst
        fr.fid = self.fid(site, fn.name, fn.order)
        m = re.search(r'(src/[\w/.]+\.rs|emplacable/src/[\w/.]+\.rs)', fn.name)
        fr.file = m.group(1) if m else None
        if fr.file is None:
            cl = [k for k in self.idx.structs]
            fr.file = 'emplacable/src/lib.rs' if fn.src and 'emplacable' in str(fn.src) else None
        for n, v in zip(fn.args, args):
            st.env[('L', fr.fid, n)] = v
        try:
            outs = self.run_region(fr, frozenset(fn.blocks), min(fn.blocks), st.copy(), None)
        finally:
            self.depth -= 1
        rets, ress, abts = [], [], []
        for key, s in outs:
            if key == 'ret':
                rets.append(s)
            elif key == 'unw':
                ress.append(s)
            elif key == 'abt':
                abts.append(s)
        fid = fr.fid
        r = merge(rets)
        val = None
        if r is None:
            kill(st)
        else:
            val = r.env.get(('L', fid, 0), UNIT)
            st.g, st.env = r.g, r.env
        for s in ([st] if r is not None else []) + ress + abts:
            if not keep:
                for k in [k for k in s.env if k[0] == 'L' and k[1] == fid]:
                    del s.env[k]
        self.unw[-1].extend(ress)
        self.abt[-1].extend(abts)
        return val

    def rpo(self, fn, blocks, entry, header):
        key = (id(fn), blocks, entry, header)
        cache = fn.__dict__ if hasattr(fn, '__dict__') else None
        seen, order = set(), []
        stack = [(entry, iter(self.succs(fn, entry)))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s in blocks and s not in seen and s != header:
                    seen.add(s)
                    stack.append((s, iter(self.succs(fn, s))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        return order[::-1]

    def succs(self, fn, b):
        tm = fn.blocks[b].term
        if tm is None:
            return []
        k = tm[0]
        if k == 'goto':
            return [tm[1]]
        if k == 'switch':
            l = [x for _, x in tm[2]]
            return l + ([tm[3]] if tm[3] is not None else [])
        if k in ('drop', 'assert', 'call'):
            d = tm[-1]
            return [x for x in (d.get('return'), d.get('success'), d.get('unwind')) if isinstance(x, int)]
        return []

    def loops_of(self, fn):
        """natural loops: header -> set of blocks (computed on the whole CFG)"""
        L = self.hints.get(('loops', fn.order, fn.src))
        if L is not None:
            return L
        # DFS back edges
        color, back = {}, []
        entry = min(fn.blocks)
        stack = [(entry, iter(self.succs(fn, entry)))]
        color[entry] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(fn, s))))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((b, s))
            if not adv:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in fn.blocks:
            for s in self.succs(fn, b):
                preds.setdefault(s, []).append(b)
        L = {}
        for b, h in back:
            body = L.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        L = {h: frozenset(b) for h, b in L.items()}
        self.hints[('loops', fn.order, fn.src)] = L
        return L

    def run_region(self, fr, blocks, entry, st0, header):
        """-> [(key, state)], key: 'ret' 'unw' 'abt' 'back' or a block outside the region"""
        fn = fr.fn
        loops = self.loops_of(fn)
        inc = {entry: [st0]}
        outs = []
        order = self.rpo(fn, blocks, entry, header)
        done = set()

        def emit(target, s):
            if s.dead:
                return
            if target == header:
                outs.append(('back', s))
            elif target in blocks:
                inc.setdefault(target, []).append(s)
            else:
                outs.append((target, s))
        for b in order:
            if b in done:
                continue
            if b not in inc:
                continue
            st = merge(inc.pop(b))
            if st is None:
                continue
            if b in loops and b != header and loops[b] <= blocks:
                body = loops[b]
                done |= body

                def run(s, fr=fr, body=body, b=b):
                    o = self.run_region(fr, body, b, s, b)
                    backs = [x for k, x in o if k == 'back']
                    return merge(backs), [(k, x) for k, x in o if k != 'back']
                exits = self.loopify(st, run, '%s bb%d' % (fn.name, b))
                for k, s in exits:
                    if isinstance(k, int):
                        emit(k, s)
                    else:
                        outs.append((k, s))
                continue
            self.stats['blocks'] += 1
            for k, s in self.block(fr, b, st):
                if isinstance(k, int):
                    emit(k, s)
                elif not s.dead:
                    outs.append((k, s))
        return outs

    def block(self, fr, b, st):
        blk = fr.fn.blocks[b]
        for s in blk.stmts:
            self.stmt(fr, st, s)
        return self.term(fr, b, blk.term, st)

    def stmt(self, fr, st, s):
        k = s[0]
        if k == 'assign':
            dst, dty = self.place(fr, st, s[1])
            v = self.rvalue(fr, st, s[2], dty)
            self.store(st, dst, v)
        elif k == 'dead':
            st.env.pop(('L', fr.fid, s[1]), None)
        elif k in ('nop', 'assume'):
            pass
        elif k == 'copy_nonoverlapping':
            a = [self.operand(fr, st, x) for x in s[1]]
            self.bt.do_copy(self, st, a[0], a[1], a[2], self.size_node(deref_ty(self.ptype(fr, s[1][0]))))
        elif k == 'setdiscr':
            raise Abandon('set discriminant')
        else:
            raise Abandon('statement %s' % k)

    def unwind_to(self, fr, tg, coll, out):
        u = merge(coll)
        if u is None:
            return
        w = tg.get('unwind', 'continue')
        if isinstance(w, int):
            out.append((w, u))
        elif str(w).startswith('terminate'):
            out.append(('abt', u))
        elif w == 'unreachable':
            out.append(('unw', u))
        else:
            out.append(('unw', u))

    def term(self, fr, b, tm, st):
        out = []
        k = tm[0]
        if k == 'goto':
            return [(tm[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'resume':
            return [('unw', st)]
        if k == 'abort':
            return [('abt', st)]
        if k == 'unreachable':
            self.ub.append((st.g, 'unreachable code in %s bb%d' % (fr.fn.name, b)))
            return []
        if k == 'switch':
            return self.switch(fr, tm, st)
        if k == 'assert':
            cnd = self.operand(fr, st, tm[2])
            if tm[1]:
                cnd = not_(cnd)
            cnd = know(st.g, cnd)
            tg = tm[4]
            bad = st.copy()
            bad.g = and_(st.g, not_(cnd))
            st.g = and_(st.g, cnd)
            out.append((tg.get('success', tg.get('return')), st))
            self.unwind_to(fr, tg, [bad], out)
            return [x for x in out if not x[1].dead]
        if k == 'drop':
            tg = tm[2]
            self.unw.append([])
            self.abt.append([])
            p, ty = self.place(fr, st, tm[1])
            self.drop_ptr(st, p, ty, (fr.fid, b))
            coll, ab = self.unw.pop(), self.abt.pop()
            out.append((tg['return'], st))
            self.unwind_to(fr, tg, coll, out)
            out += [('abt', s) for s in ab]
            return [x for x in out if not x[1].dead]
        if k == 'call':
            dest, callee, args, tg = tm[1], tm[2], tm[3], tm[4]
            self.unw.append([])
            self.abt.append([])
            self.stats['calls'] += 1
            v = self.call(fr, b, st, callee, args, self.lty(fr, dest[0]) if not dest[1] else '')
            coll, ab = self.unw.pop(), self.abt.pop()
            if not st.dead and v is not None and 'return' in tg and isinstance(tg['return'], int):
                dp, dty = self.place(fr, st, dest)
                self.store(st, dp, v)
                out.append((tg['return'], st))
            self.unwind_to(fr, tg, coll, out)
            out += [('abt', s) for s in ab]
            return [x for x in out if not x[1].dead]
        raise Abandon('terminator ' + k)

    def switch(self, fr, tm, st):
        v = self.operand(fr, st, tm[1])
        out = []
        if v.op == 'unk':
            raise Abandon('branch on unknown: %s' % v.a[0])
        rest = st.g
        isb = v.op in t.BOOLOPS or self.ptype(fr, tm[1]) == 'bool'
        for val, bb in tm[2]:
            if isb:
                cond = v if val else not_(v)
            else:
                cond = eq(v, c(val))
            cond = know(rest, cond)
            s = st.copy()
            s.g = and_(rest, cond)
            rest = and_(rest, not_(cond))
            if not s.dead:
                out.append((bb, s))
        if tm[3] is not None and rest is not FALSE:
            if not self.exhausted(fr, tm, v):
                s = st.copy()
                s.g = rest
                out.append((tm[3], s))
        return out

    def exhausted(self, fr, tm, v):
        """the otherwise edge of a switch over a discriminant that lists every variant"""
        blk = fr.fn.blocks.get(tm[3])
        if blk is not None and blk.term == ('unreachable',) and not blk.stmts:
            ls = leaves(v)
            if ls is not None:
                return all(x in [a for a, _ in tm[2]] for x in ls)
        return False

    # ---------------------------------------------------------------- loops
    def loopify(self, st, body, where):
        """body(state) -> (back state or None, [(key, state)]). Returns wrapped exits."""
        M = set()
        self.stats['loops'] += 1
        for attempt in range(40):
            self.nloops += 1
            lid = self.nloops
            lp = t.Loop()
            lp.id, lp.where = lid, where
            lp.mus, lp.init, lp.step = {}, {}, {}
            lp.outer = frozenset(self.loopstack)
            t.LOOPS[lid] = lp
            h = st.copy()
            for key in sorted(M, key=repr):
                root, path = key
                cur = getpath(st.env[root], path)
                m = mk('mu', lid, self.mukey(key))
                lp.mus[key] = m
                lp.init[key] = cur
                h.env[root] = setpath(h.env[root], path, m)
            labels0, nobj0, ub0 = dict(self.labels), self.nobj, len(self.ub)
            self.loopstack.append(lid)
            self.unw.append([])
            self.abt.append([])
            try:
                back, exits = body(h.copy())
            finally:
                self.loopstack.pop()
                u, a = self.unw.pop(), self.abt.pop()
            exits = list(exits) + [('UNW', s) for s in u] + [('ABT', s) for s in a]
            if back is None or back.dead:
                lp.back = FALSE
                new = set()
            else:
                new = set()
                for root in st.env:
                    hv, bv = h.env[root], back.env.get(root)
                    if bv is None:
                        continue
                    diff(hv, bv, root, (), M, new)
            if new:
                for k in new:
                    M = {m for m in M if not (m[0] == k[0] and m[1][:len(k[1])] == k[1])}
                    M.add(k)
                # a mu whose ancestor changed shape is subsumed above
                self.labels, self.nobj = labels0, nobj0
                del self.ub[ub0:]
                del t.LOOPS[lid]
                continue
            if back is not None and not back.dead:
                lp.back = back.g
                for key in lp.mus:
                    lp.step[key] = getpath(back.env[key[0]], key[1])
            out = []
            base = conjs(st.g)
            for i in range(ub0, len(self.ub)):
                g, why = self.ub[i]
                self.ub[i] = (self.wrapg(lid, g, base), why)
            for k, s in exits:
                if s.dead:
                    continue
                e = St(self.wrapg(lid, s.g, base), {})
                for root, v in s.env.items():
                    e.env[root] = lx(lid, v)
                if k == 'UNW':
                    self.unw[-1].append(e)
                elif k == 'ABT':
                    self.abt[-1].append(e)
                else:
                    out.append((k, e))
            return out
        raise Abandon('loop does not stabilise: ' + where)

    def mukey(self, key):
        return repr(key)

    def wrapg(self, lid, g, base):
        r = t._mkand(base)
        for x in sorted(conjs(g) - base, key=lambda n: n.id):
            r = and_(r, lx(lid, x))
        return r

    # ---------------------------------------------------------------- structured control
    def branch(self, st, cond, then, els):
        """Run then(st) or els(st) under cond; returns the joined value. Mutates st."""
        cond = know(st.g, cond)
        if cond.op == 'unk':
            raise Abandon('branch on unknown: %s' % cond.a[0])
        if cond is TRUE:
            return then(st)
        if cond is FALSE:
            return els(st)
        a, b = st.copy(), st.copy()
        a.g, b.g = and_(st.g, cond), and_(st.g, not_(cond))
        va = then(a) if not a.dead else None
        vb = els(b) if not b.dead else None
        if va is None:
            a.g = FALSE
        if vb is None:
            b.g = FALSE
        KEY = ('V', self.depth, 'branch')
        if not a.dead:
            a.env[KEY] = va
        if not b.dead:
            b.env[KEY] = vb
        m = merge([a, b])
        if m is None:
            kill(st)
            return None
        st.g, st.env = m.g, m.env
        return st.env.pop(KEY)

    def fork_unwind(self, st, cond, why=None):
        """Under cond the current operation unwinds."""
        cond = know(st.g, cond)
        if cond is FALSE:
            return
        u = st.copy()
        u.g = and_(st.g, cond)
        self.unw[-1].append(u)
        st.g = and_(st.g, not_(cond))

    def fork_abort(self, st, cond):
        cond = know(st.g, cond)
        if cond is FALSE:
            return
        u = st.copy()
        u.g = and_(st.g, cond)
        self.abt[-1].append(u)
        st.g = and_(st.g, not_(cond))

    # ---------------------------------------------------------------- calls
    def parse_callee(self, s):
        """-> (self type or None, trait or None, [path segments], [generics])"""
        if s.startswith('<'):
            e = match_close(s, 0)
            inner = s[1:e]
            k = find_top(inner, ' as ')
            if k >= 0:
                sty, tr = inner[:k], inner[k + 4:]
            else:
                sty, tr = inner, None
            segs, gens = self.path_segs(s[e + 1:])
            return sty, tr, segs, gens
        segs, gens = self.path_segs(s)
        return None, None, segs, gens

    def path_segs(self, s):
        parts = [p for p in split_top(s, '::') if p]
        segs, gens = [], []
        for ix, p in enumerate(parts):
            if p.startswith('<') and not (p.startswith('<impl') and ix < len(parts) - 1 and
                                          parts[0] in ('core', 'alloc', 'std', 'alloc_crate', 'array', 'slice', 'str', 'num', 'ptr')):
                if segs:
                    gens.append((len(segs) - 1, p[1:-1]))
            else:
                segs.append(p)
        return segs, gens

    def resolve(self, fr, callee):
        key = ('call', callee, fr.fn.order, fr.fn.src, self.subst_id(fr.subst))
        r = self.tcache.get(key)
        if r is None:
            r = self._resolve(fr, callee)
            self.tcache[key] = r
        return r

    def _resolve(self, fr, callee):
        """-> (fn or None, subst, self type, trait head, method, generics list)"""
        sty, tr, segs, gens = self.parse_callee(callee)
        G = []
        if gens and gens[-1][0] == len(segs) - 1:
            G = [self.res(x, fr.subst) for x in split_top(gens[-1][1])]
            G = [g for g in G if not g.startswith("'")]
        meth = segs[-1] if segs else ''
        if sty is not None:
            sty = self.res(sty, fr.subst)
            if tr is None:
                f, sub = self.find(fr, sty, None, '::'.join(segs))
                if f is None and len(segs) > 1:
                    f, sub = self.free_fn(fr, segs, G)
                return f, sub, sty, None, meth, G
            trn = self.res(tr, fr.subst)
            th = head_of(trn)
            f, sub = self.find(fr, sty, trn, '::'.join(segs))
            return f, sub, sty, th, meth, G
        # path: Type::<..>::method or module::function
        for i in range(len(segs) - 1, 0, -1):
            tname = segs[i - 1]
            if tname.startswith('<impl'):
                m = re.match(r'<impl (.*)>$', tname)
                x = m.group(1)
                if ' for ' in x:
                    x = x.split(' for ')[-1]
                sty = self.res(x, fr.subst)
                f, sub = self.find(fr, sty, None, '::'.join(segs[i:]))
                return f, sub, sty, None, meth, G
            if tname[:1].isupper():
                g = [x for k, x in gens if k == i - 1]
                sty = self.res(tname + ('<%s>' % g[0] if g else ''), fr.subst)
                f, sub = self.find(fr, sty, None, '::'.join(segs[i:]))
                if f is None and head_of(sty) in self.idx.structs:
                    # trait method through a type path, or a nested function
                    for (h, th, mm), l in self.idx.by_key.items():
                        if h == head_of(sty) and mm == '::'.join(segs[i:]) and segs[0] not in ('core', 'alloc', 'std'):
                            f = self.pick(fr, l, sty)
                            sub = self.impl_subst(f, sty) if f else {}
                            if th:
                                return f, sub, sty, th, meth, G
                            break
                if f is not None and i < len(segs) - 1:
                    self.bind_generics(f, G, sub, segs[-1])
                return f, sub, sty, None, meth, G
        f, sub = (None, {})
        if segs and segs[0] not in ('core', 'alloc', 'std', 'alloc_crate'):
            f, sub = self.free_fn(fr, segs, G)
        return f, sub, None, '::'.join(segs[:-1]) or None, meth, G

    def free_fn(self, fr, segs, G):
        l = self.idx.free.get(segs[-1], [])
        if not l:
            # nested inside a method of an impl
            l = []
            for (h, th, mm), fl in self.idx.by_key.items():
                if mm.split('::')[-1] == segs[-1] and '::' in mm and len(segs) > 1 and mm.split('::')[-2] == segs[-2]:
                    l += fl
        if not l:
            return None, {}
        same = [f for f in l if f.src == fr.fn.src] or l
        near = [f for f in same if f.name.startswith(fr.fn.name)]
        f = (near or same)[0]
        sub = {}
        self.bind_generics(f, G, sub, segs[-1])
        return f, sub

    def bind_generics(self, f, G, sub, name):
        names = self.fn_generics(f, name)
        if len(names) == len(G):
            for n, g in zip(names, G):
                sub[n] = g

    def fn_generics(self, f, name):
        key = (f.name, f.src)
        r = self.fgen.get(key)
        if r is None:
            r = []
            files = [k for k in self.idx.srcs]
            m = re.search(r'((?:emplacable/)?src/[\w/.]+\.rs)', f.name)
            order = ([m.group(1)] if m else []) + files
            for rel in order:
                s = self.idx.source(rel)[1]
                mm = re.search(r'\bfn\s+%s\s*<' % re.escape(name), s)
                if mm:
                    e = match_close(s, mm.end() - 1)
                    r = [re.split(r'[:=]', g)[0].strip().replace('const ', '')
                         for g in split_top(s[mm.end():e])]
                    r = [g for g in r if not g.startswith("'")]
                    break
            self.fgen[key] = r
        return r

    def impl_subst(self, f, sty):
        out = {}
        if f.text:
            self.unify(f.text[1], sty, out)
        return out

    def pick(self, fr, l, sty, trait=None):
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        # by reference kind / full self type
        def score(f):
            im, ity = f.text if f.text else (None, '')
            s = 0
            if ity.startswith('&mut') == sty.startswith('&mut'):
                s += 2
            if ity.startswith('&') == sty.startswith('&'):
                s += 2
            if ity == sty:
                s += 8
            if trait and im is not None and im.trait:
                a, b = norm_type(im.trait), trait
                if a == b:
                    s += 8
                else:
                    o = {}
                    self.unify(a, b, o)
                    if self.tsub(a, o) == b:
                        s += 4
                # the self type under the bindings of the trait's arguments
                pa, sa = type_args(ity), type_args(sty)
                if pa and sa and '::' not in pa[0]:
                    s += 3 if self.tsub(pa[0], o if a != b else {}) == sa[0] else -6
            o = {}
            self.unify(ity, sty, o)
            if self.tsub(ity, o) == sty:
                s += 3
            if im is not None and im.file == fr.file:
                s += 1
            if im is not None and im.file == self.hint_file(fr, sty):
                s += 6
            return s
        return max(l, key=score)

    def hint_file(self, fr, sty):
        h = head_of(sty)
        if '@' in sty:
            return sty.split('@')[1]
        return None

    def find(self, fr, sty, trait, meth):
        th = head_of(trait) if trait else None
        h = head_of(sty)
        l = self.idx.lookup(h, th, meth)
        l = [f for f in l if f.kind == 'fn' and self.trait_fits(f, trait)]
        if len(l) > 1 and all(f.text[1] in (f.text[0].generics or ()) for f in l):
            f = self.bt.pick_blanket(self, l, sty, th, meth)
            if f is not None:
                return f, {f.text[1]: sty, 'Self': sty}
        if l:
            f = self.pick(fr, l, sty, trait)
            # reject candidates whose self type is a reference kind mismatch
            ity = f.text[1]
            if ity.startswith('&') != sty.startswith('&') and (ity.startswith('&') or not re.match(r'[A-Z]\w?$', ity)):
                f = None
            if f is not None:
                o = {}
                self.unify(ity, sty, o)
                if self.tsub(ity, o).replace(' ', '') != sty.replace(' ', '') and not self.loosely(ity, sty, o):
                    f = None
            if f is not None:
                sub = self.impl_subst(f, sty)
                if trait and f.text[0].trait:
                    self.unify(norm_type(f.text[0].trait), trait, sub)
                return f, sub
        if trait:
            l = self.idx.lookup('T', th, meth) + self.idx.lookup('F', th, meth)
            l = [f for f in l if self.trait_fits(f, trait)]
            if l:
                f = l[0]
                if len(l) > 1:
                    f = self.bt.pick_blanket(self, l, sty, th, meth) or l[0]
                v = f.text[1]
                return f, {v: sty, 'Self': sty}
            # a provided method of a trait of the crate, not overridden
            if th in self.idx.traits:
                f = self.provided(th, meth)
                if f is not None:
                    sub = dict(zip(self.idx.traits[th], [a for a in type_args(trait) if not a.strip().startswith("'")]))
                    sub['Self'] = sty
                    return f, sub
        return None, {}

    def provided(self, th, meth):
        if not hasattr(self.idx, 'prov'):
            self.idx.prov = {}
            for f in self.idx.fns:
                m = re.search(r'(?:^|::)([A-Z]\w*)::([a-z_]\w*)$', f.name)
                if f.kind == 'fn' and m and m.group(1) in self.idx.traits and '<impl' not in f.name:
                    self.idx.prov.setdefault(m.groups(), []).append(f)
        l = self.idx.prov.get((th, meth), ())
        return l[0] if len(l) == 1 else None

    def trait_fits(self, f, trait):
        """can the impl of f be the one for this instance of the trait, judging by the trait's arguments?"""
        im = f.text[0]
        if not trait or not getattr(im, 'trait', None):
            return True
        ka, wa = type_args(norm_type(im.trait)), type_args(trait)
        if len(ka) != len(wa):
            return True
        for k, w in zip(ka, wa):
            k, w = k.strip(), w.strip()
            if k in (im.generics or ()) or k.startswith('<') or w.startswith('<') or re.match(r'[A-Z]\d?$', k):
                continue
            if k.startswith("'") or w.startswith("'") or '$' in k:
                continue
            if k.startswith(('&', '*', '[', '(')) or w.startswith(('&', '*', '[', '(')):
                if k[0] != w[0]:
                    return False
                continue
            if head_of(k) != head_of(w):
                return False
        return True

    def loosely(self, ity, sty, o):
        a = re.sub(r'\W', '', head_of(ity))
        b = re.sub(r'\W', '', head_of(sty))
        return a == b and a not in ('', 'Vec', 'Option', 'Result', 'Emplacable', 'Box') or \
            (a == b == 'Emplacable') or (a == b == 'Box') or (a == b == 'Vec' and 'ElementInfo' not in sty)

    def call(self, fr, b, st, callee, args, dty):
        vals = [self.operand(fr, st, a) for a in args]
        tys = [self.ptype(fr, a) for a in args]
        return self.call_values(fr, (fr.fid, b), st, callee, vals, tys, dty)

    def call_values(self, fr, site, st, callee, vals, tys, dty):
        f, sub, sty, th, meth, G = self.resolve(fr, callee)
        # closures and function pointers are called by value
        if th in ('FnOnce', 'FnMut', 'Fn') and meth in ('call_once', 'call_mut', 'call'):
            a = vals[1]
            n = len(a.a) - 1 if a.op == 'rec' else 0
            return self.apply(st, vals[0], [fld(a, i) for i in range(n)], site, meth, tys)
        if f is not None:
            r = self.bt.override(self, fr, st, f, sty, th, meth, G, vals, tys, site)
            if r is not self.bt.MISS:
                return r
            sub = dict(sub)
            for pat, ty in zip(f.argtys, tys):
                self.unify(self.norm(pat), ty, sub)
            self.extra_generics(f, meth, G, sub)
            return self.run_fn(f, vals, st, sub, site)
        return self.bt.call(self, fr, st, callee, sty, th, meth, G, vals, tys, dty, site)

    def extra_generics(self, f, meth, G, sub):
        if G:
            names = self.fn_generics(f, meth)
            if len(names) == len(G):
                for n, g in zip(names, G):
                    sub.setdefault(n, g)

    def apply(self, st, fv, args, site, meth='call_mut', tys=()):
        """Call a function value (closure, fn item or foreign callable)."""
        if st.dead:
            return None
        p = None
        v = fv
        for _ in range(6):
            if v.op == 'ref':
                p = v
                v = self.load(st, v)
            else:
                break
        if v.op == 'ite':
            a = v
            return self.branch(st, a.a[0], lambda s: self.apply(s, self.sel(fv, a, 1), args, site, meth),
                               lambda s: self.apply(s, self.sel(fv, a, 2), args, site, meth))
        if v.op == 'rec' and v.a[0].startswith('clo:'):
            _, o, sid = v.a[0].split(':')
            f = self.idx.fns[int(o)]
            sub = self.substs[int(sid)]
            if f.argtys[0].startswith('&'):
                if p is None:
                    p = self.new_obj(st, v, 'clo')
                a0 = p
            else:
                a0 = v
            sub2 = dict(sub)
            return self.run_fn(f, [a0] + args, st, sub2, site)
        if v.op == 'rec' and v.a[0].startswith('fn:'):
            body, sid = v.a[0][3:].rsplit(':', 1)
            fr = Frame()
            fr.fn = self.idx.fns[0]
            fr.fid, fr.file = -1, None
            fr.subst = self.substs[int(sid)]
            return self.call_values(fr, site, st, body, args, [''] * len(args), '')
        if v.op == 'rec' and v.a[0] == 'ManuallyDrop':
            return self.apply(st, fld(v, 0), args, site, meth)
        if v.op == 'atom' or (v.op == 'rec' and v.a[0].startswith('foreign:')):
            name = v.a[0] if v.op == 'atom' else v.a[0][8:]
            h = self.foreign.get(str(name).split('#')[0])
            if h is not None:
                return h(self, st, v, p, args, site)
        raise Abandon('call of %s' % t.show(v, 2))

    def sel(self, fv, a, i):
        return a.a[i]

    # ---------------------------------------------------------------- drop
    def drop_ptr(self, st, p, ty, site):
        """drop_in_place of the value at pointer p, of static type ty"""
        if st.dead:
            return
        if self.nodrop(ty):
            return
        if p.op == 'rec' and p.a[0] == 'wide' or p.op not in ('ref', 'ite', 'unk', 'lx'):
            self.bt.drop_mem(self, st, p, ty, site)
            return
        if p.op == 'unk':
            self.havoc(st, 'drop through unknown pointer')
            return
        if p.op == 'ite':
            a = p
            self.branch(st, a.a[0], lambda s: (self.drop_ptr(s, a.a[1], ty, site), UNIT)[1],
                        lambda s: (self.drop_ptr(s, a.a[2], ty, site), UNIT)[1])
            return
        v = self.load(st, p)
        self.drop_val(st, v, p, ty, site)

    NODROP = PRIM | {'NonNull', 'PhantomData', 'Arguments', 'Argument', 'ManuallyDrop', 'MaybeUninit', 'ValidSize',
                     'Cell', 'ValidAlign', 'ValidSizeUnaligned', 'Emplacer', 'ImplementationDetailDoNotUse',
                     'Global', 'Formatter', 'ElementInfo', 'FullMetadataRemainder', 'TryReserveErrorKind'}

    def nodrop(self, ty):
        return ty.startswith(('&', '*')) or head_of(ty).split('@')[0] in self.NODROP

    def drop_val(self, st, v, p, ty, site):
        if st.dead or self.nodrop(ty):
            return
        if v.op in ('c', 'b', 'ref', 'poison', 'str') or v.op in t.BOOLOPS:
            return
        if v.op == 'ite':
            self.branch(st, v.a[0], lambda s: (self.drop_val(s, v.a[1], p, ty, site), UNIT)[1],
                        lambda s: (self.drop_val(s, v.a[2], p, ty, site), UNIT)[1])
            return
        if self.bt.drop_special(self, st, v, p, ty, site):
            return
        if v.op == 'rec':
            name, _, file = v.a[0].partition('@')
            if name in ('ManuallyDrop', 'MaybeUninit', 'wide'):
                return
            l = self.idx.lookup(name, 'Drop', 'drop')
            if l:
                f = l[0]
                for x in l:
                    if x.text[0].file == file:
                        f = x
                sub = {}
                self.unify(f.text[1], ty, sub)
                if not sub.get('T'):
                    sub.setdefault('T', 'T')
                pp = p
                # the drop of the fields still happens when drop() unwinds
                self.unw.append([])
                r = self.run_fn(f, [pp], st, sub, (site, 'drop', f.order))
                coll = self.unw.pop()
                u = merge(coll)
                if u is not None:
                    self.drop_fields(u, self.load(u, pp), pp, ty, (site, 'dropu'))
                    if not u.dead:
                        self.unw[-1].append(u)
                if r is None or st.dead:
                    return
                v = self.load(st, pp)
            self.drop_fields(st, v, p, ty, site)
            return
        if v.op == 'enum':
            self.drop_fields(st, v, p, ty, site)
            return
        if v.op == 'uval':
            return
        self.bt.drop_opaque(self, st, v, p, ty, site)

    def drop_fields(self, st, v, p, ty, site):
        if v.op == 'ite':
            self.branch(st, v.a[0], lambda s: (self.drop_fields(s, v.a[1], p, ty, site), UNIT)[1],
                        lambda s: (self.drop_fields(s, v.a[2], p, ty, site), UNIT)[1])
            return
        if v.op == 'rec':
            name = v.a[0].partition('@')[0]
            l = self.idx.structs.get(name)
            fields = l[0][2] if l else None
            fsub = {}
            if l and ty:
                file = v.a[0].partition('@')[2]
                e = [x for x in l if x[0] == file] or l
                fields = e[0][2]
                names = [re.split(r'[:=]', g)[0].strip() for g in split_top((e[0][1] or '').strip()[1:-1])]
                names = [g for g in names if g and not g.startswith("'")]
                targs = type_args(ty)
                if len(names) == len(targs):
                    fsub = dict(zip(names, targs))
            for i in range(len(v.a) - 1):
                if st.dead:
                    return
                fty = ''
                if fields and i < len(fields):
                    fty = self.res(fields[i][1], fsub)
                elif name == 'tuple' and ty.startswith('('):
                    parts = split_top(ty[1:-1])
                    fty = parts[i] if i < len(parts) else ''
                x = v.a[1 + i]
                if fty.startswith(('&', '*')) or fty == 'NonNull<()>':
                    continue
                if x.op == 'ref':
                    continue
                self.drop_val(st, x, self.padd(p, ('f', i)) if p is not None else None, fty, (site, i))
        elif v.op == 'enum':
            args = type_args(ty)
            for i in range(len(v.a) - 1):
                if st.dead:
                    return
                fty = ''
                if v.a[0] in ('Some', 'Ok', 'Continue'):
                    fty = args[0] if v.a[0] != 'Continue' and args else (args[1] if len(args) > 1 else '')
                elif v.a[0] in ('Err',):
                    fty = args[1] if len(args) > 1 else ''
                if fty.startswith(('&', '*')):
                    continue
                x = v.a[1 + i]
                if x.op == 'ref':
                    continue
                self.drop_val(st, x, self.padd(p, ('v', v.a[0], i)) if p is not None else None, fty, (site, i))


def type_args(ty):
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    return [x for x in split_top(ty[i + 1:-1]) if not x.startswith("'")]


def cvi(n):
    return n.a[0]


def leaves(v):
    """the set of constants a nested gate can take, or None"""
    if v.op == 'c':
        return {v.a[0]}
    if v.op == 'ite':
        a, b = leaves(v.a[1]), leaves(v.a[2])
        if a is None or b is None:
            return None
        return a | b
    return None


def wrappers(ty):
    """(type without its transparent wrappers, how many there were)"""
    n = 0
    while True:
        m = re.match(r'(?:MaybeUninit|ManuallyDrop|Cell|UnsafeCell)<(.*)>$', ty)
        if not m:
            return ty, n
        ty = m.group(1)
        n += 1


def deref_ty(ty):
    ty = ty.strip()
    for p in ('&mut ', '&', '*const ', '*mut '):
        if ty.startswith(p):
            return ty[len(p):].strip()
    if ty.startswith('Box<'):
        return type_args(ty)[0]
    return ty


def elem_ty(ty):
    if not (ty.startswith('[') and ty.endswith(']')):
        return '?'
    k = find_top(ty[1:-1], '; ')
    return ty[1:-1] if k < 0 else ty[1:1 + k]


# -------------------------------------------------------------------- leaf paths

def getpath(v, path):
    for k in path:
        v = v.a[1 + k]
    return v


def setpath(v, path, x):
    if not path:
        return x
    l = list(v.a)
    l[1 + path[0]] = setpath(l[1 + path[0]], path[1:], x)
    return mk(v.op, *l)


def diff(hv, bv, root, path, M, new):
    """Leaves of hv that differ in bv and are not loop-carried yet."""
    if hv is bv:
        return
    if (root, path) in M:
        return
    if hv.op == 'rec' and bv.op == 'rec' and hv.a[0] == bv.a[0] and len(hv.a) == len(bv.a):
        for i in range(len(hv.a) - 1):
            diff(hv.a[1 + i], bv.a[1 + i], root, path + (i,), M, new)
        return
    if hv.op == 'enum' and bv.op == 'enum' and hv.a[0] == bv.a[0] and len(hv.a) == len(bv.a):
        for i in range(len(hv.a) - 1):
            diff(hv.a[1 + i], bv.a[1 + i], root, path + (i,), M, new)
        return
    new.add((root, path))


def lx(lid, v):
    return t.lx(lid, v)
