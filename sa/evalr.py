"""Valuation of value-graph terms.

Term identity is decided by assigning values to the free atoms of the graph (the inputs and the
choices of the environment) and comparing the denotations of the two sides, as in random
interpretation: one valuation that tells them apart refutes the identity.
"""
import hashlib
import terms as t
from terms import Node


class Poison:
    def __repr__(self):
        return 'poison'


P = Poison()


class Undecided(Exception):
    pass


class Mem:
    """immutable byte memory + allocation table + event log"""
    __slots__ = ('bytes', 'allocs', 'log', 'ub', 'next')

    def __init__(self, bytes_=None, allocs=None, log=(), ub=(), nxt=0x1000):
        self.bytes, self.allocs, self.log, self.ub, self.next = bytes_ or {}, allocs or {}, log, ub, nxt

    def but(self, **kw):
        m = Mem(self.bytes, self.allocs, self.log, self.ub, self.next)
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def bad(self, why):
        return self.but(ub=self.ub + (why,))

    def find(self, a, n):
        for b, (sz, al, kind) in self.allocs.items():
            if kind != 'dead' and b <= a and a + n <= b + sz:
                return b
        return None

    def place(self, size, align):
        a = max(align, 1)
        n = self.next + 64
        # aligned for `align` and for nothing more
        n = (n + 2 * a - 1) // (2 * a) * (2 * a) + a
        return n

    def alloc(self, size, align, kind='heap'):
        if align <= 0 or align & (align - 1):
            return 0, self.bad('allocation with alignment %s' % align)
        a = self.place(size, align)
        al = dict(self.allocs)
        al[a] = (size, align, kind)
        return a, self.but(allocs=al, next=a + size)

    def copy(self, dst, src, n, overlap):
        if n == 0:
            return self
        if not isinstance(dst, int) or not isinstance(src, int):
            return self.bad('copy with a bad pointer')
        m = self
        if self.find(src, n) is None:
            m = m.bad('copy of %d bytes reads outside a live allocation' % n)
        if self.find(dst, n) is None:
            m = m.bad('copy of %d bytes writes outside a live allocation' % n)
        if not overlap and abs(src - dst) < n:
            m = m.bad('nonoverlapping copy of overlapping ranges')
        if m.ub:
            return m
        by = dict(self.bytes)
        got = [self.bytes.get(src + i) for i in range(n)]
        for i, g in enumerate(got):
            if g is None:
                by.pop(dst + i, None)
            else:
                by[dst + i] = g
        return m.but(bytes=by)

    def put(self, a, val, n):
        if n == 0:
            return self
        if not isinstance(a, int):
            return self.bad('write with a bad pointer')
        if self.find(a, n) is None:
            return self.bad('write of %d bytes outside a live allocation' % n)
        by = dict(self.bytes)
        if isinstance(val, tuple) and val and val[0] == 'bytes':
            for i in range(n):
                if i < len(val[1]) and val[1][i] is not None:
                    by[a + i] = val[1][i]
                else:
                    by.pop(a + i, None)
        else:
            for i in range(n):
                by[a + i] = (val, i, n)
        return self.but(bytes=by)

    def load(self, a, n):
        if n == 0:
            return ('zst',)
        if not isinstance(a, int):
            return P
        if self.find(a, n) is None:
            return ('bad', 'read outside a live allocation')
        l = tuple(self.bytes.get(a + i) for i in range(n))
        f = l[0]
        if f is not None and f[1] == 0 and f[2] == n and all(
                l[i] is not None and l[i][0] == f[0] and l[i][1] == i and l[i][2] == n for i in range(n)):
            return f[0]
        return ('bytes', l)

    def realloc(self, p, os, oa, ns, na):
        m = self.free(p, os, oa, 'resize')
        if m.ub:
            return 0, m
        a, m2 = m.alloc(ns, na)
        by = dict(m2.bytes)
        for i in range(min(os, ns)):
            g = self.bytes.get(p + i)
            if g is not None:
                by[a + i] = g
        return a, m2.but(bytes=by)

    def free(self, p, size, align, what='free'):
        e = self.allocs.get(p)
        if e is None:
            return self.bad('%s of an address that is not an allocation' % what)
        if e[2] == 'dead':
            return self.bad('%s of freed memory' % what)
        if e[2] != 'heap':
            return self.bad('%s of memory that is not on the heap' % what)
        if e[0] != size or e[1] != align:
            return self.bad('%s with layout (%s, %s) of an allocation of layout (%s, %s)'
                            % (what, size, align, e[0], e[1]))
        al = dict(self.allocs)
        al[p] = (size, align, 'dead')
        by = dict(self.bytes)
        for i in range(size):
            by.pop(p + i, None)
        return self.but(allocs=al, bytes=by)

    def drop(self, a, n, meta):
        v = self.load(a, n) if n else ('zst',)
        m = self.but(log=self.log + (('drop', v, meta),))
        if n:
            if self.find(a, n) is None:
                return m.bad('drop of a value outside a live allocation')
            by = dict(m.bytes)
            for i in range(n):
                by[a + i] = (('dropped',), i, n)
            m = m.but(bytes=by)
        return m


BIG = 1 << 16


class Valuation:
    """atoms: name -> value; nd: label -> bool or callable; types: size/align of type parameters"""

    def __init__(self, seed, atoms, mem, types, nd=None, metas=None, ndp=0.3):
        self.seed, self.atoms, self.mem, self.types = seed, atoms, mem, types
        self.nd, self.ndp = nd or {}, ndp
        self.metas = metas or {}
        self.loops = {}
        self.memo = {}
        self.steps = 0
        self.dyn = {}           # op -> handler(val, args)
        self.big = BIG          # more than this cannot be allocated
        self.inert = False      # the element types have no drop glue

    # --------------------------------------------------------------
    def ev(self, n, ctx=()):
        if n.mus:
            key = (n.id,) + tuple((l, k) for l, k in ctx if l in n.mus)
        else:
            key = n.id
            ctx = ()
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided('too many steps')
        r = self.ev1(n, ctx)
        self.memo[key] = r
        return r

    def choice(self, label, its):
        base = label.split('#')[0]
        f = self.nd.get(label, self.nd.get(base))
        if self.inert and 'drop' in base:
            return False
        if f is not None:
            return f(label, its) if callable(f) else f
        h = hashlib.md5(repr((self.seed, label, its)).encode()).digest()
        return h[0] / 256.0 < self.ndp

    def ev1(self, n, ctx):
        op, a = n.op, n.a
        if op in ('c', 'b'):
            return a[0]
        f = getattr(self, 'o_' + op, None)
        if f is not None:
            return f(n, a, ctx)
        ar = t.ARITH.get(op)
        if ar is not None:
            x, y = self.ev(a[0], ctx), self.ev(a[1], ctx)
            if x is P or y is P:
                return P
            if not isinstance(x, int) or not isinstance(y, int):
                return P
            r = ar(x, y)
            return P if r is None else r
        h = self.dyn.get(op)
        if h is not None:
            return h(self, n, a, ctx)
        raise Undecided('term ' + op)

    def o_atom(self, n, a, ctx):
        nm = a[0]
        if nm in self.atoms:
            v = self.atoms[nm]
            return v
        if isinstance(nm, str) and nm.startswith('const '):
            return self.atoms.get(nm, self.types.get(nm[6:], (3,))[0])
        return ('atom', nm) + tuple(self.ev(x, ctx) for x in a[1:] if isinstance(x, Node))

    def o_str(self, n, a, ctx):
        return ('str', a[0])

    def o_konst(self, n, a, ctx):
        return ('konst', a[0])

    def o_uninit(self, n, a, ctx):
        return ('uninit',)

    def o_poison(self, n, a, ctx):
        return P

    def o_unk(self, n, a, ctx):
        raise Undecided(a[0])

    def o_nd(self, n, a, ctx):
        return self.choice(a[0], tuple(self.ev(x, ctx) for x in a[1:]))

    def o_it(self, n, a, ctx):
        for l, k in ctx:
            if l == a[0]:
                return k
        raise Undecided('iteration of loop outside it')

    def o_allocok(self, n, a, ctx):
        s = self.ev(a[1], ctx)
        if s is P or s > self.big:
            return False
        return not self.ev(a[0], ctx)

    def o_szof(self, n, a, ctx):
        return self.tinfo(a[0])[0]

    def o_alof(self, n, a, ctx):
        return self.tinfo(a[0])[1]

    def tinfo(self, ty):
        r = self.types.get(ty)
        if r is None:
            if ty.startswith(('&', '*', 'Box', 'NonNull', 'Option<&')):
                return (8, 8)
            if ty.startswith(('{closure', 'Emplacable<', 'ManuallyDrop<', 'fn')):
                return (8, 8)
            raise Undecided('size of ' + ty)
        return r

    def o_msize(self, n, a, ctx):
        m = self.ev(a[1], ctx)
        return self.minfo(a[0], m)[0]

    def o_malign(self, n, a, ctx):
        m = self.ev(a[1], ctx)
        return self.minfo(a[0], m)[1]

    def minfo(self, ty, m):
        if m is P:
            return P, P
        r = self.metas.get(m)
        if r is None:
            raise Undecided('metadata %r' % (m,))
        return r

    def o_umeta(self, n, a, ctx):
        return self.atoms.get(('umeta', a[0], a[1]), ('umeta', a[0], a[1]))

    def o_part(self, n, a, ctx):
        # the first bytes of a literal, the rest of the buffer not written
        return ('part', a[0], a[1])

    def o_strlen(self, n, a, ctx):
        return 5

    # structure
    def o_rec(self, n, a, ctx):
        return (a[0],) + tuple(self.ev(x, ctx) for x in a[1:])

    def o_enum(self, n, a, ctx):
        return ('#' + a[0],) + tuple(self.ev(x, ctx) for x in a[1:])

    def o_ref(self, n, a, ctx):
        path = tuple(tuple(self.ev(y, ctx) if isinstance(y, Node) else y for y in el) for el in a[1])
        return ('ref', a[0], path)

    def o_roff(self, n, a, ctx):
        return ('roff', self.ev(a[0], ctx), self.ev(a[1], ctx))

    def o_paddr(self, n, a, ctx):
        return ('paddr', self.ev(a[0], ctx), repr(a[1]))

    def o_ite(self, n, a, ctx):
        p = self.ev(a[0], ctx)
        if p is P:
            return P
        return self.ev(a[1] if p else a[2], ctx)

    def o_and(self, n, a, ctx):
        bad = False
        und = None
        for x in a:
            try:
                v = self.ev(x, ctx)
            except Undecided as e:
                und = e
                continue
            if v is P:
                bad = True
            elif not v:
                return False
        if und:
            raise und
        return P if bad else True

    def o_or(self, n, a, ctx):
        bad = False
        und = None
        for x in a:
            try:
                v = self.ev(x, ctx)
            except Undecided as e:
                und = e
                continue
            if v is P:
                bad = True
            elif v:
                return True
        if und:
            raise und
        return P if bad else False

    def o_not(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        return P if v is P else not v

    def o_eq(self, n, a, ctx):
        x, y = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if x is P or y is P:
            return P
        return x == y

    def o_lt(self, n, a, ctx):
        x, y = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if x is P or y is P or not isinstance(x, int) or not isinstance(y, int):
            return P
        return x < y

    def o_ispoison(self, n, a, ctx):
        return self.ev(a[0], ctx) is P

    def o_tagis(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        if v is P:
            return P
        if not (isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('#')):
            return P
        return v[0] == '#' + a[1]

    def o_pl(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        if v is P:
            return P
        if isinstance(v, tuple) and v and v[0] == '#' + a[1] and len(v) > 1 + a[2]:
            return v[1 + a[2]]
        return P

    def o_fld(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        if isinstance(v, tuple) and len(v) > 1 + a[1]:
            return v[1 + a[1]]
        return P

    def o_setfld(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        if isinstance(v, tuple) and len(v) > 1 + a[1]:
            return v[:1 + a[1]] + (self.ev(a[2], ctx),) + v[2 + a[1]:]
        return P

    def o_discr(self, n, a, ctx):
        raise Undecided('discriminant')

    def o_ptrmeta(self, n, a, ctx):
        v = self.ev(a[0], ctx)
        if isinstance(v, tuple) and v and v[0] == 'wide':
            return v[2]
        return P

    # integers
    def o_is_power_of_two(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        return P if x is P else (x != 0 and x & (x - 1) == 0)

    def o_oneof(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        return P if x is P else x in a[1]

    def o_trailing_zeros(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        if x is P:
            return P
        return 64 if x == 0 else (x & -x).bit_length() - 1

    def o_leading_zeros(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        return P if x is P else 64 - x.bit_length()

    def o_ilog2(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        return P if x is P or x == 0 else x.bit_length() - 1

    def o_count_ones(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        return P if x is P else bin(x).count('1')

    def o_next_power_of_two(self, n, a, ctx):
        x = self.ev(a[0], ctx)
        if x is P:
            return P
        r = 1 if x <= 1 else 1 << (x - 1).bit_length()
        return r if r <= t.M64 else P

    def o_badlayout(self, n, a, ctx):
        s, al = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or al is P:
            return P
        if al == 0 or al & (al - 1):
            return True
        return s > (1 << 63) - al

    # sequences: python tuples
    def seq(self, n, ctx):
        v = self.ev(n, ctx)
        return v

    def o_sempty(self, n, a, ctx):
        return ()

    def o_spush(self, n, a, ctx):
        s = self.ev(a[0], ctx)
        return P if s is P else s + (self.ev(a[1], ctx),)

    def o_sins(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or i > len(s):
            return P
        return s[:i] + (self.ev(a[2], ctx),) + s[i:]

    def o_srem(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or i >= len(s):
            return P
        return s[:i] + s[i + 1:]

    def o_supd(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or i >= len(s):
            return P
        return s[:i] + (self.ev(a[2], ctx),) + s[i + 1:]

    def o_stake(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or i > len(s):
            return P
        return s[:i]

    def o_sraw(self, n, a, ctx):
        # a write through a raw pointer may reach the spare part, which is not tracked
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P:
            return P
        if i >= len(s):
            raise Undecided('write to the spare part of the offset table')
        return s[:i] + (self.ev(a[2], ctx),) + s[i + 1:]

    def o_scopy(self, n, a, ctx):
        s, i, j, k = (self.ev(x, ctx) for x in a)
        if P in (s, i, j, k):
            return P
        if not k:
            return s
        if max(i, j) + k > len(s):
            raise Undecided('copy to or from the spare part of the offset table')
        return s[:j] + s[i:i + k] + s[j + k:]

    def o_sget(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or not isinstance(s, tuple) or i >= len(s):
            return P
        return s[i]

    def o_slen(self, n, a, ctx):
        s = self.ev(a[0], ctx)
        return P if s is P else len(s)

    def o_item(self, n, a, ctx):
        s, i = self.ev(a[0], ctx), self.ev(a[1], ctx)
        if s is P or i is P or not isinstance(s, tuple) or i >= len(s):
            return P
        return s[i]

    def o_seqarr(self, n, a, ctx):
        return self.ev(a[0], ctx)

    def o_rep(self, n, a, ctx):
        return (self.ev(a[0], ctx),) * self.ev(a[1], ctx)

    # loops
    def o_mu(self, n, a, ctx):
        lid = a[0]
        lp = t.LOOPS[lid]
        k = None
        for l, i in ctx:
            if l == lid:
                k = i
        if k is None:
            raise Undecided('mu outside its loop')
        key = None
        for kk, m in lp.mus.items():
            if m is n:
                key = kk
                break
        outer = tuple(x for x in ctx if x[0] != lid)
        if k == 0:
            return self.ev(lp.init[key], outer)
        return self.ev(lp.step[key], outer + ((lid, k - 1),))

    def last(self, lid, outer):
        lp = t.LOOPS[lid]
        key = (lid,) + tuple((l, k) for l, k in outer if l in lp.outer)
        r = self.loops.get(key)
        if r is None:
            k = 0
            while True:
                b = self.ev(lp.back, outer + ((lid, k),))
                if b is P or not b:
                    break
                k += 1
                if k > 1300:
                    raise Undecided('loop bound')
            self.loops[key] = r = k
        return r

    def o_lx(self, n, a, ctx):
        lid = a[0]
        outer = tuple(x for x in ctx if x[0] != lid)
        k = self.last(lid, outer)
        return self.ev(a[1], outer + ((lid, k),))

    # memory
    def m(self, n, ctx):
        v = self.ev(n, ctx)
        if v is P:
            return self.mem.bad('memory undefined')
        return v

    def args(self, l, ctx):
        return [self.ev(x, ctx) for x in l]

    def o_mlog(self, n, a, ctx):
        m = self.m(a[0], ctx)
        return m.but(log=m.log + ((a[1],) + tuple(self.ev(x, ctx) if isinstance(x, Node) else x for x in a[2:]),))

    def o_mcopy(self, n, a, ctx):
        m = self.m(a[0], ctx)
        dst, src, sz, ov = self.args(a[1:], ctx)
        if P in (dst, src, sz):
            return m.bad('copy with an undefined operand')
        if sz > self.big:
            return m.bad('copy of %d bytes' % sz)
        return m.copy(dst, src, sz, ov)

    def o_mput(self, n, a, ctx):
        m = self.m(a[0], ctx)
        p, v, sz = self.args(a[1:], ctx)
        if p is P or sz is P:
            return m.bad('write with an undefined operand')
        return m.put(p, v, sz)

    def o_mload(self, n, a, ctx):
        m = self.m(a[0], ctx)
        p, sz = self.args(a[1:], ctx)
        if p is P or sz is P:
            return P
        return m.load(p, sz)

    def o_malloc(self, n, a, ctx):
        m = self.m(a[0], ctx)
        s, al = self.args(a[1:], ctx)
        if s is P or al is P:
            return m.bad('allocation of undefined size')
        return m.alloc(s, al)[1]

    def o_naddr(self, n, a, ctx):
        m = self.m(a[0], ctx)
        s, al = self.args(a[1:], ctx)
        if s is P or al is P:
            return P
        return m.alloc(s, al)[0]

    def o_mrealloc(self, n, a, ctx):
        m = self.m(a[0], ctx)
        x = self.args(a[1:], ctx)
        if P in x:
            return m.bad('resize with an undefined operand')
        return m.realloc(*x)[1]

    def o_raddr(self, n, a, ctx):
        m = self.m(a[0], ctx)
        x = self.args(a[1:], ctx)
        if P in x:
            return P
        return m.realloc(*x)[0]

    def o_mfree(self, n, a, ctx):
        m = self.m(a[0], ctx)
        p, s, al = self.args(a[1:], ctx)
        if P in (p, s, al):
            return m.bad('free with an undefined operand')
        if s == 0:
            return m.bad('dealloc of zero bytes')
        return m.free(p, s, al)

    def o_mfreez(self, n, a, ctx):
        m = self.m(a[0], ctx)
        p, s, al = self.args(a[1:], ctx)
        if P in (p, s, al):
            return m.bad('free with an undefined operand')
        if s == 0:
            return m
        return m.free(p, s, al)

    def o_ndrop(self, n, a, ctx):
        return not self.inert

    def o_mdrop(self, n, a, ctx):
        m = self.m(a[0], ctx)
        if self.inert:
            return m
        p, s, meta = self.args(a[1:], ctx)
        if P in (p, s):
            return m.bad('drop with an undefined operand')
        return m.drop(p, s, meta)

    def o_mdropn(self, n, a, ctx):
        m = self.m(a[0], ctx)
        if self.inert:
            return m
        p, es, k = self.args(a[1:], ctx)
        if P in (p, es, k) or k > BIG:
            return m.bad('drop of an undefined range')
        if k > 1 and es and isinstance(p, int):
            w = m.load(p, es * k)
            if isinstance(w, tuple) and w and w[0] not in ('bytes', 'bad'):
                return m.drop(p, es * k, k)     # one slice value
        for i in range(k):
            m = m.drop(p + i * es, es, ('tuple',))
        return m
