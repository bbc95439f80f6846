"""What the analysis knows about the standard library: one abstract transfer function per callee.

A callee that is not listed here returns `unk` and makes the memory unknown: obligations that
depend on it are then undecided (never violated).
"""
import re
import terms as t
from terms import (mk, c, rec, enum, some, NONE, TRUE, FALSE, UNIT, POISON, unk, ite, and_, or_, not_,
                   eq, lt, le, arith, fld, setfld, tagis, pl, ref, Node)
from mir import norm_type, head_of, split_top
from interp import (Abandon, wrappers, deref_ty, elem_ty, type_args, kill, merge, know)

MISS = object()

USIZE_MAX = c(t.M64)
ISIZE_MAX = c((1 << 63) - 1)


def checked(op, x, y):
    u = arith('u' + op, x, y)
    if u is POISON:
        return NONE
    if u.op == 'c':
        return some(u)
    return ite(t.ispois(u), NONE, some(u))


def str_len(x):
    """length of a literal"""
    m = re.match(r'"((?:[^"\\]|\\[\\"\'nrt0])*)"$', x.a[0])
    if m is None:
        return mk('strlen', x)
    return c(len(re.sub(r'\\.', 'x', m.group(1)).encode()))


def imax(x, y):
    return ite(lt(x, y), y, x)


def imin(x, y):
    return ite(lt(y, x), y, x)


def elem_of_vec(ty):
    a = type_args(ty)
    return a[0] if a else ''


def structured(ty):
    """Vec<ty> is tracked as a sequence of structured values rather than as bytes"""
    return head_of(ty).startswith('ElementInfo')


RANGES = ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeToInclusive')


class Builtins:
    MISS = MISS

    def __init__(self):
        self.drop_panics = set()      # type heads whose drop may panic
        self.alloc_fail = True

    # -------------------------------------------------------------- helpers
    def mem(self, st):
        return st.env['mem']

    def setmem(self, st, m):
        st.env['mem'] = m

    def log(self, st, ev, *args):
        st.env['mem'] = mk('mlog', st.env['mem'], ev, *args)

    def unwind(self, I, st):
        if not st.dead:
            I.unw[-1].append(st.copy())
        kill(st)
        return None

    def abort(self, I, st):
        if not st.dead:
            I.abt[-1].append(st.copy())
        kill(st)
        return None

    def ub_if(self, I, st, cond, why):
        cond = know(st.g, cond)
        if cond is FALSE:
            return
        g = and_(st.g, cond)
        if g is not FALSE:
            I.ub.append((g, why))

    def ptr_meta(self, I, x):
        if x.op == 'ite':
            return ite(x.a[0], self.ptr_meta(I, x.a[1]), self.ptr_meta(I, x.a[2]))
        if x.op == 'rec' and x.a[0] == 'wide':
            return x.a[2]
        if x.op == 'rec' and x.a[0] == 'slice':
            return arith('sub', x.a[3], x.a[2])
        if x.op == 'str':
            return str_len(x)
        if x.op in ('unk', 'poison'):
            return x
        if x.op in ('fld', 'pl', 'atom', 'mu', 'lx', 'sget'):
            return mk('ptrmeta', x)
        return UNIT

    def thin(self, x):
        if x.op == 'ite':
            return ite(x.a[0], self.thin(x.a[1]), self.thin(x.a[2]))
        if x.op == 'rec' and x.a[0] == 'wide':
            return x.a[1]
        return x

    def szval(self, I, p, ty):
        """size_of_val of the pointee of p"""
        m = self.ptr_meta(I, p)
        return self.szmeta(I, m, ty)

    def szmeta(self, I, m, ty):
        ty = wrappers(ty)[0]
        if not I.is_wide_pointee(ty):
            return I.size_node(ty)
        e = re.match(r'\[(.*)\]$', ty)
        if e:
            return arith('umul', m, I.size_node(e.group(1)))
        if ty in ('str', 'OsStr', 'Path', 'CStr'):
            return m
        return mk('msize', ty, m)

    def alval(self, I, p, ty):
        ty = wrappers(ty)[0]
        if not I.is_wide_pointee(ty):
            return I.align_node(ty)
        if ty.startswith('[') or ty in ('str', 'OsStr', 'Path', 'CStr'):
            return I.align_node(ty if ty not in ('OsStr', 'Path') else 'str')
        if I.kind(ty) == 'A':
            return I.align_node(ty)
        return mk('malign', ty, self.ptr_meta(I, p))

    def pick_blanket(self, I, l, sty, th, meth):
        """among blanket impls, the most specific one whose bounds the type is known to meet"""
        best, bs = None, -1
        for f in l:
            bounds = getattr(f.text[0], 'bounds', '') or ''
            names = set(re.findall(r'\b(Copy)\b', bounds))
            if names and sty not in I.copy_types:
                continue
            s = len(names)
            if s > bs:
                best, bs = f, s
        return best

    # -------------------------------------------------------------- memory
    def do_copy(self, I, st, src, dst, n, es, overlap=False):
        if st.dead:
            return
        total = arith('umul', n, es)
        if src.op == 'ite':
            a = src
            I.branch(st, a.a[0], lambda s: (self.do_copy(I, s, a.a[1], dst, n, es, overlap), UNIT)[1],
                     lambda s: (self.do_copy(I, s, a.a[2], dst, n, es, overlap), UNIT)[1])
            return
        if src.op == 'ref':
            v = I.load(st, src)
            if v.op == 'rec' and v.a[0] in ('MaybeUninit', 'ManuallyDrop', 'Cell'):
                while v.op == 'rec' and v.a[0] in ('MaybeUninit', 'ManuallyDrop', 'Cell'):
                    v = fld(v, 0)
            if v.op == 'rec' and v.a[0] == 'uval':
                self.setmem(st, mk('mcopy', self.mem(st), dst, v.a[1], total, FALSE))
                return
            if dst.op == 'ref':
                if n is not c(1) and (self.raw_elem(src) is not None or self.raw_elem(dst) is not None):
                    if not self.same_table(src, dst):
                        I.havoc(st, 'copy between tables')
                        return
                    base = mk('ref', src.a[0], src.a[1][:-1])
                    I.store(st, base, mk('scopy', I.load(st, base), self.raw_elem(src), self.raw_elem(dst), n))
                    return
                I.store(st, dst, v)
                return
            self.setmem(st, mk('mput', self.mem(st), dst, v, total))
            return
        if src.op == 'str':
            # a literal into a local buffer of bytes
            dst = self.whole_buf(I, st, dst) or dst
            v = I.load(st, dst) if dst.op == 'ref' else None
            if v is None or v.op != 'rep' or es is not c(1):
                I.havoc(st, 'copy of a literal')
                return
            self.ub_if(I, st, lt(str_len(src), n), 'copy of bytes reads outside a literal')
            self.ub_if(I, st, lt(v.a[1], n), 'copy of bytes writes outside a buffer')
            I.store(st, dst, ite(and_(eq(n, str_len(src)), eq(n, v.a[1])), src, mk('part', src, n)))
            return
        if dst.op == 'ref':
            I.store(st, dst, mk('mload', self.mem(st), src, total))
            return
        if src.op in ('unk',) or dst.op in ('unk',):
            I.havoc(st, 'copy through unknown pointer')
            return
        self.setmem(st, mk('mcopy', self.mem(st), self.thin(dst), self.thin(src), total, c(bool(overlap))))

    def raw_elem(self, p, es=None):
        """index of the tracked element a raw pointer points at"""
        if p.op == 'ref' and p.a[1] and p.a[1][-1][0] == 'i' and len(p.a[1][-1]) > 2 \
                and (es is None or es.op == 'szof' and structured(es.a[0])):
            return p.a[1][-1][1]
        return None

    def whole_buf(self, I, st, p):
        """a pointer to the first byte of a local buffer of bytes, as a pointer to the buffer"""
        if p.op != 'ref':
            return None
        path = p.a[1]
        while path and path[-1] == ('f', 0):
            path = path[:-1]
        p = mk('ref', p.a[0], path)
        if self.raw_elem(p) is not c(0):
            return None
        p = mk('ref', p.a[0], path[:-1])
        return p if I.load(st, p).op in ('rep', 'str', 'part') else None

    def same_table(self, p, q):
        return self.raw_elem(p) is not None and self.raw_elem(q) is not None and p.a[0] == q.a[0] \
            and p.a[1][:-1] == q.a[1][:-1]

    def offset(self, I, p, n, es):
        if p.op == 'ite':
            return ite(p.a[0], self.offset(I, p.a[1], n, es), self.offset(I, p.a[2], n, es))
        if p.op == 'rec' and p.a[0] == 'wide':
            p = p.a[1]
        if p.op == 'ref':
            if n is c(0):
                return p
            q = self.raw_elem(p, es)
            if q is not None:
                return mk('ref', p.a[0], p.a[1][:-1] + (('i', arith('add', q, n), 'raw'),))
            return mk('roff', p, arith('mul', n, es))
        if p.op in ('unk', 'poison'):
            return p
        return arith('add', p, arith('mul', n, es))

    def drop_mem(self, I, st, p, ty, site):
        """drop_in_place of a value that lives in (byte) memory"""
        if I.nodrop(ty):
            return
        if ty.startswith('[') and ';' not in ty and p.op == 'rec' and p.a[0] == 'wide':
            self.drop_slice(I, st, p.a[1], p.a[2], ty[1:-1], site)
            return
        h = head_of(ty)
        if h in ('Emplacable',) and p.op != 'ref':
            v = mk('mload', self.mem(st), self.thin(p), I.size_node(ty))
            q = I.new_obj(st, v)
            I.drop_val(st, v, q, ty, site)
            return
        a = self.thin(p)
        meta = self.ptr_meta(I, p)
        size = self.szmeta(I, meta, ty)
        self.setmem(st, mk('mdrop', self.mem(st), a, size, meta))
        if h in self.drop_panics:
            I.fork_unwind(st, I.nd('drop_panic'))

    def drop_slice(self, I, st, base, n, ety, site):
        """drop n consecutive elements; the rest is still dropped when one panics (std's guarantee)"""
        if I.nodrop(ety):
            return
        es = I.size_node(ety)
        if ety not in self.drop_panics:
            K = ('V', 'ds', site)
            self.setmem(st, mk('mdropn', self.mem(st), base, es, n))
            return
        self.setmem(st, mk('mdropn', self.mem(st), base, es, n))
        I.fork_unwind(st, I.nd('drop_panic'))

    def drop_special(self, I, st, v, p, ty, site):
        """-> True when handled"""
        if v.op == 'atom' and 'DROP:%s' % v.a[0] in I.foreign:
            I.foreign['DROP:%s' % v.a[0]](I, st, v, p, ty, site)
            return True
        if v.op == 'rec':
            n = v.a[0]
            if n == 'uval':
                if v.a[1].op == 'ref':      # a local viewed as unsized
                    self.log(st, 'dropval', I.load(st, v.a[1]))
                    if head_of(ty) in self.drop_panics or ty.startswith('['):
                        I.fork_unwind(st, I.nd('drop_panic'))
                    return True
                self.drop_mem(I, st, rec('wide', v.a[1], v.a[2]), ty, site)
                return True
            if n == 'wide' and head_of(ty) == 'Box' and not ty.startswith(('&', '*')):
                a = type_args(ty)
                if len(a) > 1 and a[1] not in ('Global', 'A'):
                    return True
                self.drop_box(I, st, v, a[0], site)
                return True
            if n.startswith('fn:') or n in ('Layout', 'wide', 'slice', 'Range', 'SIter', 'PIter', 'AWin', 'fmt',
                                            'RangeFrom'):
                return True
            if n.startswith('clo:'):
                _, o, sid = n.split(':')
                f = I.idx.fns[int(o)]
                ups = self.upvar_types(I, f, I.substs[int(sid)])
                for i in range(len(v.a) - 1):
                    if st.dead:
                        return True
                    x = v.a[1 + i]
                    uty = ups.get(i, '')
                    if x.op == 'ref' or uty.startswith(('&', '*')):
                        continue
                    q = I.padd(p, ('f', i)) if p is not None else I.new_obj(st, x)
                    I.drop_val(st, x, q, uty, (site, i))
                return True
            if n == 'SVec':
                self.log(st, 'free_info')
                return True
            if n == 'Vec':
                ety = elem_of_vec(ty) or 'T'
                self.drop_slice(I, st, v.a[1], v.a[3], ety, site)
                if not st.dead:
                    self.free_vec(I, st, v, ety)
                return True
            if n == 'Box':
                inner = type_args(ty)
                ity = inner[0] if inner else 'T'
                if len(inner) > 1 and 'Global' not in inner[1] and inner[1] != 'A':
                    # an allocator of the crate
                    q = fld(v, 0)
                    I.drop_ptr(st, q, ity, site)
                    f, sub = I.find(None, inner[1], 'Allocator', 'deallocate')
                    if not st.dead and f is not None:
                        I.run_fn(f, [I.new_obj(st, fld(v, 1)), self.thin(q), rec('Layout', self.szval(I, q, ity), self.alval(I, q, ity))],
                                 st, sub, (site, 'deallocate'))
                    return True
                self.drop_box(I, st, fld(v, 0), ity, site)
                return True
            if n == 'VIter':
                if 'Drain<' not in ty and 'array::IntoIter<' not in ty:     # these own no table
                    self.log(st, 'free_info')
                return True
            if n in ('Map', 'Zip', 'Enum', 'Rev', 'VArr'):
                a = type_args(ty)
                for i in range(len(v.a) - 1):
                    if st.dead:
                        return True
                    x = v.a[1 + i]
                    if n == 'VArr':
                        break
                    I.drop_val(st, x, I.padd(p, ('f', i)) if p is not None else I.new_obj(st, x),
                               a[i] if i < len(a) else '', (site, i))
                if n == 'VArr':
                    self.log(st, 'drop_rest', v)
                return True
            if n == 'arr':
                m = re.match(r'\[(.*); \w+\]$', ty)
                for i in range(len(v.a) - 1):
                    I.drop_val(st, v.a[1 + i], I.padd(p, ('i', c(i))) if p is not None else I.new_obj(st, v.a[1 + i]),
                               m.group(1) if m else '', (site, i))
                return True
            if n.startswith('foreign:'):
                self.log(st, 'drop_foreign', c(n[8:]))
                return True
        if head_of(ty) == 'Box' and not ty.startswith(('&', '*')) and v.op != 'enum':
            a = type_args(ty)
            if len(a) > 1 and a[1] not in ('Global', 'A'):
                return False
            self.drop_box(I, st, v, a[0], site)
            return True
        return False

    def upvar_types(self, I, f, sub):
        """types of the captured values, from the projections in the closure body"""
        k = ('upv', f.order)
        r = I.hints.get(k)
        if r is None:
            r = {}
            for b in f.blocks.values():
                todo = [b.stmts, b.term]
                stack = list(todo)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (tuple, list)):
                        if len(x) == 2 and x[0] == 1 and isinstance(x[1], (tuple, list)) and x[1]:
                            pj = list(x[1])
                            if pj and pj[0] and pj[0][0] == '*':
                                pj = pj[1:]
                            if pj and pj[0] and pj[0][0] == 'f':
                                r.setdefault(pj[0][1], pj[0][2])
                        stack.extend(x)
            I.hints[k] = r
        return {i: I.res(ty, sub) for i, ty in r.items()}

    def free_vec(self, I, st, v, ety):
        es = I.size_node(ety)
        sz = arith('mul', v.a[2], es)
        self.setmem(st, mk('mfreez', self.mem(st), v.a[1], sz, I.align_node(ety)))

    def drop_box(self, I, st, ptr, ity, site):
        size, al = self.szval(I, ptr, ity), self.alval(I, ptr, ity)
        I.unw.append([])
        if I.is_wide_pointee(ity) or ptr.op != 'ref':
            self.drop_mem(I, st, ptr, ity, site)
        coll = I.unw.pop()
        u = merge(coll)
        if u is not None:
            self.setmem(u, mk('mfreez', u.env['mem'], self.thin(ptr), size, al))
            I.unw[-1].append(u)
        if not st.dead:
            self.setmem(st, mk('mfreez', self.mem(st), self.thin(ptr), size, al))

    def drop_opaque(self, I, st, v, p, ty, site):
        if v.op == 'unk':
            I.havoc(st, 'drop of unknown value')
            return
        if ty.startswith(('&', '*')) or ty in ('usize', 'bool', 'u8'):
            return
        if v.op in ('add', 'sub', 'szof', 'alof') or structured(ty) or (not ty and v.op not in ('atom', 'mload')):
            return
        self.log(st, 'dropval', v)
        if head_of(ty) in self.drop_panics:
            I.fork_unwind(st, I.nd('drop_panic'))

    # -------------------------------------------------------------- overrides of crate functions
    def override(self, I, fr, st, f, sty, th, meth, G, vals, tys, site):
        """Crate functions used on data the analysis represents structurally."""
        if sty and head_of(sty) == 'Vec' and th == 'UnsizedVecProvider':
            ety = elem_of_vec(sty)
            if structured(ety):
                return self.svec(I, st, meth, vals, ety, site)
        if meth == 'do_not_use_box_unsize':
            # &T -> &U by unsizing coercion
            x = vals[0]
            if x.op == 'ref':
                return rec('wide', x, mk('umeta', G[0], G[1])) if len(G) > 1 else MISS
        return MISS

    def svec(self, I, st, meth, vals, ety, site):
        """Vec<ElementInfo> as a sequence (contract of Vec)"""
        p = vals[0]
        v = I.load(st, p) if p.op in ('ref', 'ite', 'lx') else p
        if v.op == 'ite':
            return unk('gated element table')
        if v.op != 'rec' or v.a[0] != 'SVec':
            return unk('element table')
        seq, cap = v.a[1], v.a[2]
        n = t.slen(seq)
        base = I.padd(p, ('f', 0))
        if meth == 'push_unchecked':
            self.ub_if(I, st, not_(lt(n, cap)), 'push without spare capacity in the element table')
            I.store(st, base, mk('spush', seq, vals[1]))
            return UNIT
        if meth == 'insert_unchecked':
            self.ub_if(I, st, not_(lt(n, cap)), 'insert without spare capacity in the element table')
            self.ub_if(I, st, lt(n, vals[1]), 'insert out of bounds in the element table')
            I.store(st, base, mk('sins', seq, vals[1], vals[2]))
            return UNIT
        if meth in ('iter', 'iter_mut'):
            return rec('SIter', base, c(0), n)
        if meth == 'len':
            return n
        if meth == 'capacity':
            return cap
        return MISS

    # -------------------------------------------------------------- std calls
    def call(self, I, fr, st, callee, sty, th, meth, G, vals, tys, dty, site):
        try:
            r = self.dispatch(I, fr, st, callee, sty, th, meth, G, vals, tys, dty, site)
        except IndexError:
            r = MISS
        if r is MISS:
            why = 'callee ' + re.sub(r'\{closure@[^}]*\}', '{closure}', callee)[:100]
            I.havoc(st, why)
            # anything reachable through a mutable reference is unknown too
            for v, ty in zip(vals, tys):
                if v.op == 'ref' and ty.startswith('&mut'):
                    I.store(st, v, unk(why))
            return unk(why)
        return r

    INT = tuple(t.INTS)

    def dispatch(self, I, fr, st, callee, sty, th, meth, G, vals, tys, dty, site):
        h = head_of(sty) if sty else None
        if sty is None:
            r = self.free(I, fr, st, th, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if sty in self.INT:
            r = self.num(I, st, meth, vals, sty, th, tys, dty)
            if r is not MISS:
                return r
        if sty and sty.startswith(('*const', '*mut')):
            r = self.rawptr(I, fr, st, sty, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if h in ('Option', 'Result', 'ControlFlow') and not sty.startswith('&'):
            r = self.optres(I, fr, st, h, sty, th, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if sty == 'bool' and meth == 'then':
            x = vals[0]
            return I.branch(st, x, lambda s: self.opt_some(I.apply(s, vals[1], [], site)), lambda s: NONE)
        if sty == 'bool' and meth == 'then_some':
            return ite(vals[0], some(vals[1]), NONE)
        if th in ('PartialOrd', 'PartialEq', 'Ord', 'Eq') and meth in ('lt', 'le', 'gt', 'ge', 'ne', 'eq', 'cmp',
                                                                      'partial_cmp', 'max', 'min', 'clamp'):
            r = self.compare(I, fr, st, sty, th, meth, vals, site, G)
            if r is not MISS:
                return r
        if h in ('Ordering',):
            r = self.ordering(I, st, meth, vals, site)
            if r is not MISS:
                return r
        if th in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator', 'FusedIterator'):
            r = self.iterator(I, fr, st, sty, th, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if h in ('Iter', 'IterMut') and meth in ('as_slice', 'into_slice'):
            return self.as_slice(I, st, vals[0])
        if h == 'Vec':
            r = self.vec(I, fr, st, sty, th, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if sty and sty.startswith(('[', '&[', '&mut [')):
            r = self.slice(I, fr, st, sty, th, meth, G, vals, tys, dty, site)
            if r is not MISS:
                return r
        if meth in ('into_vec', 'into_string', 'into_boxed_bytes', 'into_os_string', 'into_path_buf', 'into_c_string',
                    'into_boxed_slice') and len(vals) == 1 and (h in ('str', 'CStr', 'OsStr', 'Path') or sty and sty.startswith('[')):
            # Box<..>::into_xxx: the same storage as a growable buffer of that length and capacity
            x = vals[0]
            if meth == 'into_c_string':
                return x
            p, n = self.thin(x), self.ptr_meta(I, x)
            e = elem_ty(sty) if sty.startswith('[') else 'u8'
            return rec('Vec', p, ite(eq(I.size_node(e), c(0)), USIZE_MAX, n), n)
        if h in ('str', 'OsStr', 'Path', 'CStr') and len(vals) == 1:
            x = vals[0]
            n = self.ptr_meta(I, x)
            if h == 'CStr' and meth in ('count_bytes', 'is_empty'):
                return arith('sub', n, c(1)) if meth == 'count_bytes' else eq(n, c(1))
            if h != 'CStr' and meth in ('len', 'is_empty'):
                return n if meth == 'len' else eq(n, c(0))
            if meth in ('as_ptr', 'as_mut_ptr'):
                return self.thin(x)
            if h == 'CStr' and meth == 'to_bytes':
                return mk('wide', self.thin(x), arith('sub', n, c(1)))
            if meth in ('as_bytes', 'as_bytes_mut', 'to_bytes_with_nul', 'as_encoded_bytes', 'as_os_str', 'as_mut_os_str'):
                return x
        r = self.types(I, fr, st, h, sty, th, meth, G, vals, tys, dty, site)
        if r is not MISS:
            return r
        r = self.generic_trait(I, fr, st, h, sty, th, meth, G, vals, tys, dty, site)
        return r

    def opt_some(self, v):
        return None if v is None else some(v)

    # -- numbers
    def num(self, I, st, meth, v, ty, th, tys=(), dty=None):
        a = v[0] if v else None
        bits, sg = t.INTS[ty]

        def arith(op, x, y):
            return t.arith(t.opfor(op, ty), x, y)
        if th in ('From', 'TryFrom') and len(v) == 1:
            src = tys[0]
            if src == 'bool' and th == 'From':
                return ite(a, c(1), c(0))
            if src not in t.INTS:
                return MISS
            x = t.intcast(a, src, ty)
            return x if th == 'From' else ite(t.intfits(a, src, ty), enum('Ok', x), enum('Err', rec('TryFromIntError')))
        if th in ('Into', 'TryInto') and len(v) == 1:
            to = dty if th == 'Into' else (type_args(dty) or [''])[0]
            if to not in t.INTS:
                return MISS
            x = t.intcast(a, ty, to)
            return x if th == 'Into' else ite(t.intfits(a, ty, to), enum('Ok', x), enum('Err', rec('TryFromIntError')))
        if meth in ('checked_add', 'checked_sub', 'checked_mul'):
            r = arith('u' + meth[8:], a, v[1])
            return NONE if r is POISON else ite(t.ispois(r), NONE, some(r))
        if meth in ('checked_shl', 'checked_shr'):
            return ite(lt(v[1], c(bits)), some(arith(meth[8:], a, v[1])), NONE)
        if meth in ('wrapping_shl', 'wrapping_shr'):
            return arith(meth[9:], a, v[1])
        if meth == 'wrapping_neg':
            return arith('sub', c(0), a)
        if sg and meth in ('is_negative', 'is_positive', 'unsigned_abs', 'abs', 'checked_neg'):
            neg = t.ilt(a, c(0), ty)
            if meth == 'is_negative':
                return neg
            if meth == 'is_positive':
                return and_(not_(neg), not_(eq(a, c(0))))
            if meth == 'unsigned_abs':
                return ite(neg, arith('sub', c(0), a), a)
            return MISS
        if meth in ('checked_add_signed', 'checked_sub_signed') and ty in ('usize', 'u64'):
            neg = t.ilt(v[1], c(0), 'isize')
            m = arith('sub', c(0), v[1])
            up, dn = arith('uadd', a, ite(neg, m, v[1])), arith('usub', a, ite(neg, m, v[1]))
            r = ite(neg, dn, up) if 'add' in meth else ite(neg, up, dn)
            return ite(t.ispois(r), NONE, some(r))
        if sg and meth in ('checked_add_unsigned', 'checked_sub_unsigned', 'div_ceil', 'next_multiple_of', 'rem_euclid',
                           'div_euclid', 'checked_rem_euclid', 'checked_div_euclid', 'abs_diff', 'pow', 'checked_next_multiple_of',
                           'midpoint', 'saturating_add_unsigned', 'isqrt', 'checked_isqrt'):
            return MISS
        if bits != 64 and meth in ('trailing_zeros', 'leading_zeros', 'isqrt', 'next_power_of_two', 'checked_next_power_of_two'):
            return MISS
        if meth in ('checked_div', 'checked_rem'):
            d = arith(meth[8:], a, v[1])
            if d is POISON:
                return NONE
            return ite(eq(v[1], c(0)), NONE, some(d))
        if meth in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
            r = arith('u' + meth[-3:], a, v[1])
            self.ub_if(I, st, t.ispois(r), 'arithmetic overflow in ' + meth)
            return r
        if meth in ('strict_add', 'strict_sub', 'strict_mul'):
            r = arith('u' + meth[-3:], a, v[1])
            I.fork_unwind(st, t.ispois(r))
            return None if st.dead else r
        if meth in ('div_ceil', 'next_multiple_of', 'rem_euclid', 'div_euclid'):
            I.fork_unwind(st, eq(v[1], c(0)))
            if st.dead:
                return None
        if meth in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
            return arith(meth[-3:], a, v[1])
        if meth in ('saturating_add', 'saturating_sub', 'saturating_mul'):
            return arith('s' + meth[-3:], a, v[1])
        if meth in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
            u = arith('u' + meth[-3:], a, v[1])
            return rec('tuple', arith(meth[-3:], a, v[1]), t.ispois(u))
        if meth == 'div_ceil':
            return arith('divceil', a, v[1])
        if meth == 'next_multiple_of':
            return arith('umul', arith('divceil', a, v[1]), v[1])
        if meth == 'checked_next_multiple_of':
            m = arith('umul', arith('divceil', a, v[1]), v[1])
            return ite(or_(eq(v[1], c(0)), t.ispois(m)), NONE, some(m))
        if meth == 'is_multiple_of':
            return ite(eq(v[1], c(0)), eq(a, c(0)), eq(arith('rem', a, v[1]), c(0)))
        if meth == 'is_power_of_two':
            return t.ispow2(a)
        if meth in ('is_power_of_two', 'trailing_zeros', 'leading_zeros', 'count_ones', 'ilog2',
                    'next_power_of_two', 'isqrt'):
            return mk(meth, a)
        if meth == 'checked_next_power_of_two':
            n = mk('next_power_of_two', a)
            return ite(t.ispois(n), NONE, some(n))
        if meth == 'abs_diff':
            return ite(lt(a, v[1]), arith('sub', v[1], a), arith('sub', a, v[1]))
        if meth in ('rem_euclid', 'div_euclid'):
            return arith(meth[:3], a, v[1])
        if meth == 'pow' and v[1].op == 'c':
            r = c(1)
            for _ in range(v[1].a[0]):
                r = arith('mul', r, a)
            return r
        if th in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and meth in ('add', 'sub', 'mul', 'div', 'rem'):
            return arith(meth, a, v[1])
        if meth == 'cast_signed' or meth == 'cast_unsigned':
            return a
        return MISS

    def needs_drop(self, I, ty):
        ty = ty.strip()
        m = re.match(r'\[(.*?)(; \w+)?\]$', ty)
        if m:
            return self.needs_drop(I, m.group(1))
        if I.nodrop(ty) or ty in ('str', 'CStr', 'OsStr', 'Path'):
            return FALSE
        h = head_of(ty)
        if h in I.idx.structs or h in ('Box', 'Vec', 'String', 'CString', 'OsString', 'PathBuf', 'Rc', 'Arc'):
            return TRUE
        return mk('ndrop', ty)

    # -- free functions
    def free(self, I, fr, st, mod, meth, G, v, tys, dty, site):
        T = G[0] if G else ''
        if meth == 'size_of':
            return I.size_node(T)
        if meth == 'align_of':
            return I.align_node(T)
        if meth in ('size_of_val', 'size_of_val_raw'):
            return self.szval(I, v[0], T or deref_ty(tys[0]))
        if meth in ('align_of_val', 'align_of_val_raw'):
            return self.alval(I, v[0], T or deref_ty(tys[0]))
        if meth == 'needs_drop':
            return self.needs_drop(I, T)
        if meth == 'forget':
            return UNIT
        if meth == 'forget_unsized':
            return UNIT
        if meth == 'drop' and mod and mod.endswith('mem'):
            ty = T or tys[0]
            p = I.new_obj(st, v[0])
            I.drop_val(st, v[0], p, ty, site)
            return None if st.dead else UNIT
        if meth in ('swap',) and mod and (mod.endswith('mem') or mod.endswith('ptr')):
            ty = T or deref_ty(tys[0])
            a, b = self.place_read(I, st, v[0], ty), self.place_read(I, st, v[1], ty)
            self.place_write(I, st, v[0], b, ty)
            self.place_write(I, st, v[1], a, ty)
            return UNIT
        if meth == 'replace' and mod and (mod.endswith('mem') or mod.endswith('ptr')):
            ty = T or deref_ty(tys[0])
            a = self.place_read(I, st, v[0], ty)
            self.place_write(I, st, v[0], v[1], ty)
            return a
        if meth == 'take' and mod and mod.endswith('mem'):
            ty = T or deref_ty(tys[0])
            a = I.load(st, v[0])
            d = self.default(I, ty)
            if d is None:
                return MISS
            I.store(st, v[0], d)
            return a
        if meth == 'copy' and mod and (mod.endswith('ptr') or mod.endswith('intrinsics')):
            self.do_copy(I, st, v[0], v[1], v[2], I.size_node(T), True)
            return UNIT
        if meth == 'copy_nonoverlapping':
            self.do_copy(I, st, v[0], v[1], v[2], I.size_node(T))
            return UNIT
        if meth == 'write' or meth == 'write_unaligned':
            return self.ptr_write(I, st, v[0], v[1], T or deref_ty(tys[0]))
        if meth == 'read' or meth == 'read_unaligned':
            return self.ptr_read(I, st, v[0], T or deref_ty(tys[0]))
        if meth == 'drop_in_place':
            I.drop_ptr(st, v[0], T or deref_ty(tys[0]), site)
            return None if st.dead else UNIT
        if meth in ('from_raw_parts', 'from_raw_parts_mut', 'slice_from_raw_parts', 'slice_from_raw_parts_mut'):
            if 'slice' in meth or (mod or '').endswith('slice'):
                buf = self.whole_buf(I, st, v[0])
                if buf is not None:
                    return rec('wide', buf, v[1])
                q = self.raw_elem(v[0])
                if q is not None:
                    base = mk('ref', v[0].a[0], v[0].a[1][:-1])
                    return rec('slice', base, q, arith('add', q, v[1]))
                return rec('wide', v[0], v[1])
            if I.is_wide_pointee(T):
                p = self.thin(v[0])
                buf = self.whole_buf(I, st, p)
                if buf is not None:
                    p = buf
                elif p.op == 'ref' and tys and wrappers(deref_ty(tys[0]))[1]:
                    p = I.ptr_cast(p, tys[0], '*const ()')
                return rec('wide', p, v[1])
            return v[0]
        if meth == 'metadata':
            if I.is_wide_pointee(T) or (v[0].op == 'rec' and v[0].a[0] == 'wide'):
                return self.ptr_meta(I, v[0])
            return UNIT
        if meth in ('null', 'null_mut'):
            return c(0)
        if meth in ('without_provenance_mut', 'without_provenance', 'with_exposed_provenance_mut',
                    'with_exposed_provenance'):
            return v[0]
        if meth in ('dangling', 'dangling_mut'):
            return I.align_node(T)
        if meth in ('from_ref', 'from_mut', 'addr_of', 'black_box', 'identity'):
            return v[0]
        if meth in ('must_use', 'assert_unchecked', 'unreachable_unchecked', 'cold_path'):
            if meth == 'unreachable_unchecked':
                I.ub.append((st.g, 'unreachable_unchecked'))
                kill(st)
                return None
            return v[0] if meth == 'must_use' else UNIT
        if meth in ('eq', 'addr_eq') and mod and mod.endswith('ptr'):
            return eq(v[0], v[1])
        if meth in ('max', 'min') and mod and 'cmp' in mod:
            return self.compare(I, fr, st, T or tys[0], 'Ord', meth, v, site, G)
        if meth in ('panic', 'panic_fmt', 'panic_nounwind', 'panic_display', 'panic_explicit', 'unwrap_failed',
                    'expect_failed', 'assert_failed', 'panic_str', 'panic_str_2015', 'unreachable_display',
                    'assert_failed_inner', 'panic_bounds_check', 'capacity_overflow', 'begin_panic',
                    'option_unwrap_failed', 'resume_unwind', 'panic_const_div_by_zero') \
                or meth.startswith('panic_const'):
            return self.unwind(I, st)
        if meth == 'abort':
            return self.abort(I, st)
        if meth == 'handle_alloc_error':
            return self.abort(I, st)
        if meth in ('alloc', 'alloc_zeroed'):
            sz, al = fld(v[0], 0), fld(v[0], 1)
            return self.alloc(I, st, sz, al)
        if meth == 'dealloc':
            self.setmem(st, mk('mfree', self.mem(st), self.thin(v[0]), fld(v[1], 0), fld(v[1], 1)))
            return UNIT
        if meth == 'exchange_malloc':
            self.ub_if(I, st, FALSE, '')
            p = self.alloc0(I, st, v[0], v[1])
            return p
        if meth in ('transmute', 'transmute_copy', 'transmute_unchecked'):
            x = I.unwrap_newtype(v[0])
            to = G[1] if len(G) > 1 else dty
            self.valid_enum(I, st, x, to)
            return I.newtype(to, x)
        if meth in ('from_fn',) and mod and mod.endswith('array'):
            m = re.match(r'\[.*; (\w+)\]$', dty or '')
            k = m.group(1) if m else (G[1] if len(G) > 1 else '')
            if k.isdigit() and int(k) <= 16:
                out = []
                for i in range(int(k)):
                    r = I.apply(st, v[0], [c(i)], (site, i))
                    if r is None:
                        return None
                    out.append(r)
                return rec('arr', *out)
            if re.match(r'\w+$', k):
                return self.build_array(I, st, I.const_generic(k), lambda s2, i: I.apply(s2, v[0], [i], (site, 'fromfn')),
                                        site)
            return MISS
        if mod and mod.split('::')[-1] in ('iter', 'sources', 'once', 'empty', 'repeat', 'repeat_n', 'from_fn', 'successors'):
            r = self.iter_source(I, st, meth, v)
            if r is not MISS:
                return r
        if meth in ('size_hint',):
            return MISS
        if meth in ('type_name', 'caller', 'Location::caller'):
            return mk('str', meth)
        if meth == 'zeroed':
            return self.zero_of(I, G[0] if G else dty)
        if meth == 'from_size_align':
            return MISS
        return MISS

    def valid_enum(self, I, st, x, to):
        dv = I.enum_values(to)
        if not dv or x.op in ('enum', 'unk', 'poison', 'rec'):
            return
        ok = t.ispow2(x) if dv == tuple(1 << i for i in range(64)) else mk('oneof', x, dv)
        self.ub_if(I, st, not_(ok), 'a value that is no variant becomes an enum')

    def zero_of(self, I, ty):
        if ty in self.INT or ty.startswith('*'):
            return c(0)
        if ty == 'bool':
            return FALSE
        if ty == '()':
            return UNIT
        if ty.startswith('Meta_'):
            return POISON               # no vtable is null
        return MISS

    def alloc(self, I, st, sz, al):
        """alloc::alloc::alloc: 0 on failure"""
        self.ub_if(I, st, eq(sz, c(0)), 'allocation of zero bytes')
        ok = mk('allocok', I.nd('alloc'), sz)
        m = self.mem(st)
        a = mk('naddr', m, sz, al)
        self.setmem(st, ite(ok, mk('malloc', m, sz, al), mk('mlog', m, 'allocfail', sz, al)))
        return ite(ok, a, c(0))

    def alloc0(self, I, st, sz, al):
        """Box::new style allocation: dangling for size 0, aborts on failure"""
        m = self.mem(st)
        z = eq(sz, c(0))
        ok = mk('allocok', I.nd('alloc'), sz)
        I.fork_abort(st, and_(not_(z), not_(ok)))
        a = mk('naddr', m, sz, al)
        self.setmem(st, ite(z, m, mk('malloc', m, sz, al)))
        return ite(z, al, a)

    def ptr_write(self, I, st, p, val, ty):
        if p.op == 'ite':
            a = p
            I.branch(st, a.a[0], lambda s: (self.ptr_write(I, s, a.a[1], val, ty), UNIT)[1],
                     lambda s: (self.ptr_write(I, s, a.a[2], val, ty), UNIT)[1])
            return UNIT
        if p.op == 'ref':
            I.store(st, p, val)
            return UNIT
        if p.op == 'unk':
            I.havoc(st, 'write through unknown pointer')
            return UNIT
        self.setmem(st, mk('mput', self.mem(st), self.thin(p), val, I.size_node(ty)))
        return UNIT

    def ptr_read(self, I, st, p, ty):
        if p.op == 'ite':
            return ite(p.a[0], self.ptr_read(I, st, p.a[1], ty), self.ptr_read(I, st, p.a[2], ty))
        if p.op == 'ref':
            return I.load(st, p)
        if p.op in ('unk', 'poison'):
            return p
        return mk('mload', self.mem(st), self.thin(p), I.size_node(ty))

    def place_read(self, I, st, p, ty):
        """*p, in a local object or in the heap"""
        if p.op in ('ref', 'lx', 'paddr') or (p.op == 'ite' and p.a[1].op in ('ref', 'lx')):
            return I.load(st, p)
        return self.ptr_read(I, st, p, ty)

    def place_write(self, I, st, p, x, ty):
        if p.op in ('ref', 'lx', 'paddr') or (p.op == 'ite' and p.a[1].op in ('ref', 'lx')):
            I.store(st, p, x)
        else:
            self.ptr_write(I, st, p, x, ty)

    @staticmethod
    def inner0(I, x):
        """the pointer to the content of a transparent wrapper: in the heap it is the same address"""
        if x.op == 'ite':
            return ite(x.a[0], Builtins.inner0(I, x.a[1]), Builtins.inner0(I, x.a[2]))
        return I.padd(x, ('f', 0)) if x.op in ('ref', 'lx', 'unk', 'poison', 'paddr') else x

    # -- raw pointers
    def rawptr(self, I, fr, st, sty, meth, G, v, tys, dty, site):
        T = deref_ty(sty)
        p = v[0] if v else None
        if meth in ('cast', 'cast_mut', 'cast_const'):
            if meth == 'cast':
                return I.ptr_cast(p, sty, '*mut ' + G[0])
            return p
        if meth in ('add', 'wrapping_add', 'offset', 'wrapping_offset'):
            return self.offset(I, p, v[1], I.size_node(T))
        if meth in ('byte_add', 'wrapping_byte_add', 'byte_offset'):
            if p.op == 'rec' and p.a[0] == 'wide':
                return rec('wide', self.offset(I, p.a[1], v[1], c(1)), p.a[2])
            return self.offset(I, p, v[1], c(1))
        if meth in ('sub', 'wrapping_sub', 'byte_sub', 'wrapping_byte_sub'):
            es = c(1) if 'byte' in meth else I.size_node(T)
            q = self.raw_elem(p, es) if p.op == 'ref' else None
            if q is not None:
                return mk('ref', p.a[0], p.a[1][:-1] + (('i', arith('sub', q, v[1]), 'raw'),))
            if p.op == 'ref':
                return unk('pointer into a local moved back')
            return arith('sub', self.thin(p), arith('mul', v[1], es))
        if meth in ('offset_from', 'offset_from_unsigned', 'sub_ptr', 'byte_offset_from'):
            if p.op == 'ref' or v[1].op == 'ref':
                if 'byte' not in meth and v[1].op == 'ref' and p.op == 'ref' and self.same_table(p, v[1]):
                    return arith('sub', self.raw_elem(p), self.raw_elem(v[1]))
                return unk('distance between pointers into locals')
            d = arith('sub', self.thin(p), self.thin(v[1]))
            es = c(1) if 'byte' in meth else I.size_node(T)
            return arith('div', d, es)
        if meth == 'is_null':
            return self.is_null(p)
        if meth == 'write' or meth == 'write_unaligned':
            return self.ptr_write(I, st, p, v[1], T)
        if meth == 'read' or meth == 'read_unaligned':
            return self.ptr_read(I, st, p, T)
        if meth == 'drop_in_place':
            I.drop_ptr(st, p, T, site)
            return None if st.dead else UNIT
        if meth in ('copy_to', 'copy_to_nonoverlapping'):
            self.do_copy(I, st, p, v[1], v[2], I.size_node(T), meth == 'copy_to')
            return UNIT
        if meth in ('copy_from', 'copy_from_nonoverlapping'):
            self.do_copy(I, st, v[1], p, v[2], I.size_node(T), meth == 'copy_from')
            return UNIT
        if meth in ('to_raw_parts',):
            return rec('tuple', self.thin(p), self.ptr_meta(I, p))
        if meth in ('addr', 'expose_provenance'):
            return self.thin(p)
        if meth == 'with_addr':
            return v[1]
        if meth == 'map_addr':
            return I.apply(st, v[1], [self.thin(p)], site)
        if meth in ('as_ref', 'as_mut'):
            return ite(self.is_null(p), NONE, some(p))
        if meth == 'len':
            return self.ptr_meta(I, p)
        if meth == 'is_aligned_to':
            return eq(arith('rem', self.thin(p), v[1]), c(0))
        if meth == 'is_aligned' and I.align_node(T) == c(1):
            return TRUE
        if meth == 'is_aligned':
            return eq(arith('rem', self.thin(p), I.align_node(T)), c(0))
        if meth in ('as_mut_ptr', 'as_ptr'):
            return self.thin(p)
        return MISS

    def is_null(self, p):
        if p.op == 'ite':
            return ite(p.a[0], self.is_null(p.a[1]), self.is_null(p.a[2]))
        if p.op in ('ref', 'roff', 'paddr'):
            return FALSE
        if p.op == 'rec' and p.a[0] == 'wide':
            return self.is_null(p.a[1])
        if p.op == 'rec':
            return FALSE
        if p.op in ('naddr', 'raddr'):
            return FALSE
        return eq(p, c(0))

    # -- Option / Result / Try
    def split(self, I, st, x, tag, yes, no):
        return I.branch(st, tagis(x, tag), yes, no)

    def optres(self, I, fr, st, h, sty, th, meth, G, v, tys, dty, site):
        good, bad = {'Option': ('Some', 'None'), 'Result': ('Ok', 'Err'),
                     'ControlFlow': ('Continue', 'Break')}[h]
        x = v[0] if v else None
        a = type_args(sty)
        byref = False
        if x is not None and x.op == 'ref' and not (tys and not tys[0].startswith('&')):
            byref = True
            px = x
            x = I.load(st, x)
        if th == 'Try' and meth == 'branch':
            if h == 'Option':
                return ite(tagis(x, 'Some'), enum('Continue', pl(x, 'Some', 0)), enum('Break', NONE))
            return ite(tagis(x, 'Ok'), enum('Continue', pl(x, 'Ok', 0)), enum('Break', enum('Err', pl(x, 'Err', 0))))
        if th == 'FromResidual':
            if h == 'Option':
                return NONE
            e = pl(x, 'Err', 0)
            # conversion of the error
            src = type_args(tys[0]) if tys and tys[0] else []
            # tys may be unqualified: use the generics of the trait
            e = self.convert_err(I, fr, st, e, sty, tys, site)
            return None if e is None else enum('Err', e)
        if th == 'Try' and meth == 'from_output':
            return enum(good, x)
        if meth in ('is_some', 'is_ok', 'is_continue'):
            return tagis(x, good)
        if meth in ('is_none', 'is_err', 'is_break'):
            return not_(tagis(x, good))
        if meth in ('unwrap', 'expect'):
            return self.split(I, st, x, good, lambda s: pl(x, good, 0), lambda s: self.unwind(I, s))
        if meth in ('unwrap_err', 'expect_err'):
            return self.split(I, st, x, bad, lambda s: pl(x, bad, 0), lambda s: self.unwind(I, s))
        if meth == 'unwrap_unchecked':
            self.ub_if(I, st, not_(tagis(x, good)), 'unwrap_unchecked of ' + bad)
            return pl(x, good, 0)
        if meth == 'unwrap_or':
            return ite(tagis(x, good), pl(x, good, 0), v[1])
        if meth == 'unwrap_or_default':
            d = self.default(I, a[0])
            return MISS if d is None else ite(tagis(x, good), pl(x, good, 0), d)
        if meth == 'unwrap_or_else':
            args = (lambda: []) if h == 'Option' else (lambda: [pl(x, 'Err', 0)])
            return self.split(I, st, x, good, lambda s: pl(x, good, 0), lambda s: I.apply(s, v[1], args(), site))
        if meth == 'map':
            return self.split(I, st, x, good,
                              lambda s: self.wrap(good, I.apply(s, v[1], [pl(x, good, 0)], site)),
                              lambda s: self.bad(x, h))
        if meth == 'map_err':
            return self.split(I, st, x, 'Ok', lambda s: enum('Ok', pl(x, 'Ok', 0)),
                              lambda s: self.wrap('Err', I.apply(s, v[1], [pl(x, 'Err', 0)], site)))
        if meth == 'map_or':
            return self.split(I, st, x, good, lambda s: I.apply(s, v[2], [pl(x, good, 0)], site), lambda s: v[1])
        if meth == 'map_or_else':
            return self.split(I, st, x, good, lambda s: I.apply(s, v[2], [pl(x, good, 0)], site),
                              lambda s: I.apply(s, v[1], [] if h == 'Option' else [pl(x, 'Err', 0)], site))
        if meth in ('is_some_and', 'is_ok_and'):
            return self.split(I, st, x, good, lambda s: I.apply(s, v[1], [pl(x, good, 0)], site), lambda s: FALSE)
        if meth == 'is_none_or':
            return self.split(I, st, x, good, lambda s: I.apply(s, v[1], [pl(x, good, 0)], site), lambda s: TRUE)
        if meth == 'and_then':
            return self.split(I, st, x, good, lambda s: I.apply(s, v[1], [pl(x, good, 0)], site),
                              lambda s: self.bad(x, h))
        if meth == 'filter':
            def keep(s):
                p = I.new_obj(s, pl(x, good, 0))
                r = I.apply(s, v[1], [p], site)
                return None if r is None else ite(r, x, NONE)
            return self.split(I, st, x, good, keep, lambda s: NONE)
        if meth == 'and':
            return ite(tagis(x, good), v[1], self.bad(x, h))
        if meth == 'or':
            return ite(tagis(x, good), x, v[1])
        if meth == 'or_else':
            return self.split(I, st, x, good, lambda s: x,
                              lambda s: I.apply(s, v[1], [] if h == 'Option' else [pl(x, 'Err', 0)], site))
        if meth == 'ok_or':
            return ite(tagis(x, 'Some'), enum('Ok', pl(x, 'Some', 0)), enum('Err', v[1]))
        if meth == 'ok_or_else':
            return self.split(I, st, x, 'Some', lambda s: enum('Ok', pl(x, 'Some', 0)),
                              lambda s: self.wrap('Err', I.apply(s, v[1], [], site)))
        if meth == 'ok':
            return ite(tagis(x, 'Ok'), some(pl(x, 'Ok', 0)), NONE)
        if meth == 'err':
            return ite(tagis(x, 'Err'), some(pl(x, 'Err', 0)), NONE)
        if meth in ('copied', 'cloned'):
            def cp(s):
                q = pl(x, good, 0)
                return some(self.load_any(I, s, q, deref_ty(a[0]) if a else ''))
            return self.split(I, st, x, good, cp, lambda s: NONE)
        if meth in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and byref:
            def rf(s):
                q = I.padd(px, ('v', good, 0))
                return enum(good, q)
            return self.split(I, st, x, good, rf,
                              lambda s: NONE if h == 'Option' else enum('Err', I.padd(px, ('v', 'Err', 0))))
        if meth == 'take' and byref:
            I.store(st, px, NONE)
            return x
        if meth in ('replace', 'insert') and byref:
            I.store(st, px, some(v[1]))
            return x if meth == 'replace' else I.padd(px, ('v', 'Some', 0))
        if meth in ('get_or_insert', 'get_or_insert_with') and byref:
            def fresh(s):
                y = v[1] if meth == 'get_or_insert' else I.apply(s, v[1], [], site)
                if y is None:
                    return None
                I.store(s, px, some(y))
                return UNIT
            r = I.branch(st, tagis(x, 'Some'), lambda s: UNIT, fresh)
            return None if r is None else I.padd(px, ('v', 'Some', 0))
        if meth == 'take_if' and byref:
            return MISS
        if meth == 'flatten':
            return ite(tagis(x, good), pl(x, good, 0), self.bad(x, h))
        if meth == 'zip':
            return ite(and_(tagis(x, 'Some'), tagis(v[1], 'Some')),
                       some(rec('tuple', pl(x, 'Some', 0), pl(v[1], 'Some', 0))), NONE)
        if meth == 'xor':
            return ite(tagis(x, 'Some'), ite(tagis(v[1], 'Some'), NONE, x), v[1])
        if meth == 'clone':
            return x
        if th == 'PartialEq' and meth in ('eq', 'ne'):
            y = I.load(st, v[1])
            e = self.deep_eq(x, y, good, bad)
            return e if meth == 'eq' else not_(e)
        if meth in ('break_value',):
            return ite(tagis(x, 'Break'), some(pl(x, 'Break', 0)), NONE)
        if th == 'IntoIterator' and meth == 'into_iter':
            return rec('OptIter', x)
        if meth == 'default':
            return NONE if h == 'Option' else MISS
        return MISS

    def deep_eq(self, x, y, good, bad):
        if good == 'Some':
            return ite(and_(tagis(x, good), tagis(y, good)), eq(pl(x, good, 0), pl(y, good, 0)),
                       and_(not_(tagis(x, good)), not_(tagis(y, good))))
        return unk('eq of results')

    def wrap(self, tag, v):
        return None if v is None else enum(tag, v)

    def bad(self, x, h):
        return NONE if h == 'Option' else (enum('Err', pl(x, 'Err', 0)) if h == 'Result'
                                          else enum('Break', pl(x, 'Break', 0)))

    def load_any(self, I, st, q, ty):
        if q.op == 'ref' or q.op in ('ite', 'lx', 'unk', 'poison'):
            return I.load(st, q)
        return mk('mload', self.mem(st), self.thin(q), I.size_node(ty))

    def convert_err(self, I, fr, st, e, sty, tys, site):
        """the From::from applied by `?`"""
        dst = type_args(sty)
        d = dst[1] if len(dst) > 1 else ''
        s = ''
        if tys and tys[0]:
            sa = type_args(tys[0])
            s = sa[1] if len(sa) > 1 else ''
        if e.op in ('unk', 'poison'):
            return e
        if e.op == 'rec' and e.a[0] == 'StdTryReserveError':
            l = [f for f in I.idx.lookup('TryReserveError', 'From', 'from')]
            for f in l:
                if 'alloc' in (f.text[0].trait or '') or 'collections' in (f.text[0].trait or '') or len(l) == 1:
                    return I.run_fn(f, [e], st, {}, (site, 'from'))
            return unk('From<alloc TryReserveError>')
        return e

    # -- comparisons
    def ord_of(self, I, fr, st, x, y, ty, site, partial):
        """Ordering node of two values (by value or reference), or None when unknown"""
        if ty in self.INT or ty in ('bool', 'char'):
            return ite(t.ilt(x, y, ty), enum('Less'), ite(eq(x, y), enum('Equal'), enum('Greater')))
        if x.op == 'rec' and x.a[0] in I.idx.structs or head_of(ty) in I.idx.structs:
            ux, uy = x, y
            f, sub = I.find(fr, ty, 'Ord' if not partial else 'PartialOrd', 'cmp' if not partial else 'partial_cmp')
            if f is None:
                f, sub = I.find(fr, ty, 'PartialOrd', 'partial_cmp')
                partial = True
            if f is not None:
                px, py = I.new_obj(st, x), I.new_obj(st, y)
                r = I.run_fn(f, [px, py], st, sub, (site, 'cmp'))
                if r is None:
                    return None
                if 'partial_cmp' in f.name:
                    return pl(r, 'Some', 0)
                return r
        if head_of(ty) in I.idx.enums:
            dx, dy = I.discr_of(x, ty), I.discr_of(y, ty)
            return ite(lt(dx, dy), enum('Less'), ite(eq(dx, dy), enum('Equal'), enum('Greater')))
        if ty.startswith('NonZero'):
            return ite(lt(x, y), enum('Less'), ite(eq(x, y), enum('Equal'), enum('Greater')))
        return None

    def compare(self, I, fr, st, sty, th, meth, v, site, G):
        if meth in ('max', 'min'):
            o = self.ord_of(I, fr, st, v[0], v[1], sty, site, False)
            if o is None:
                return MISS
            if meth == 'max':        # max returns the second when equal
                return ite(tagis(o, 'Greater'), v[0], v[1])
            return ite(tagis(o, 'Greater'), v[1], v[0])
        if meth == 'clamp':
            a = self.ord_of(I, fr, st, v[0], v[1], sty, site, False)
            b = self.ord_of(I, fr, st, v[0], v[2], sty, site, False)
            if a is None or b is None:
                return MISS
            return ite(tagis(a, 'Less'), v[1], ite(tagis(b, 'Greater'), v[2], v[0]))
        ty = sty
        x, y = v[0], v[1]
        if x.op in ('ref', 'ite', 'lx') and y.op in ('ref', 'ite', 'lx'):
            x, y = I.load(st, x), I.load(st, y)
            for _ in range(3):
                if ty.startswith('&') and x.op == 'ref' and y.op == 'ref':
                    x, y, ty = I.load(st, x), I.load(st, y), deref_ty(ty)
        if ty.startswith('&'):
            # comparing through references to elements
            return self.foreign_cmp(I, fr, st, deref_ty(ty), th, meth, x, y, site)
        if ty in I.kinds or ty.startswith('T') or (ty.startswith('[') and 'CMP' in I.foreign):
            return self.foreign_cmp(I, fr, st, ty, th, meth, v[0], v[1], site)
        if meth == 'eq' or meth == 'ne':
            if head_of(ty) in I.idx.structs:
                f, sub = I.find(fr, ty, 'PartialEq', 'eq')
                if f is not None and meth == 'ne':
                    r = I.run_fn(f, [v[0], v[1]], st, sub, (site, 'eq'))
                    return None if r is None else not_(r)
            if ty in self.INT or ty == 'Layout' or head_of(ty) in I.idx.enums or ty == 'bool' or ty.startswith('NonZero'):
                r = eq(I.discr_of(x, ty), I.discr_of(y, ty)) if head_of(ty) in I.idx.enums else eq(x, y)
                return r if meth == 'eq' else not_(r)
            r = self.plain_eq(x, y, ty)
            if r is not None:
                return r if meth == 'eq' else not_(r)
            return MISS
        if th in ('PartialOrd', 'Ord'):
            o = self.ord_of(I, fr, st, x, y, ty, site, th == 'PartialOrd')
            if o is None:
                return MISS if not st.dead else None
            if meth == 'cmp':
                return o
            if meth == 'partial_cmp':
                return some(o)
            return {'lt': lambda: tagis(o, 'Less'), 'gt': lambda: tagis(o, 'Greater'),
                    'le': lambda: not_(tagis(o, 'Greater')), 'ge': lambda: not_(tagis(o, 'Less'))}[meth]()
        return MISS

    def plain_eq(self, x, y, ty):
        """structural equality of Ordering, integers, and Options and tuples of them"""
        if ty in self.INT or ty in ('bool', 'char', 'Layout') or ty.startswith('NonZero'):
            return eq(x, y)
        if ty == '()':
            return TRUE
        h = head_of(ty)
        if ty.startswith(('&', '*')):
            return None
        if h == 'Ordering':
            r = TRUE
            for k in ('Less', 'Equal', 'Greater'):
                r = and_(r, eq(tagis(x, k), tagis(y, k)))
            return r
        if h == 'Option':
            e = self.plain_eq(pl(x, 'Some', 0), pl(y, 'Some', 0), type_args(ty)[0])
            if e is None:
                return None
            return ite(tagis(x, 'Some'), and_(tagis(y, 'Some'), e), not_(tagis(y, 'Some')))
        if ty.startswith('(') and ty.endswith(')'):
            r = TRUE
            for i, p in enumerate(split_top(ty[1:-1])):
                if p:
                    e = self.plain_eq(fld(x, i), fld(y, i), p.strip())
                    if e is None:
                        return None
                    r = and_(r, e)
            return r
        return None

    def foreign_cmp(self, I, fr, st, ty, th, meth, x, y, site):
        h = I.foreign.get('CMP')
        if h is None:
            return MISS
        return h(I, st, ty, th, meth, x, y, site)

    def ordering(self, I, st, meth, v, site):
        x = v[0]
        if x.op == 'ref':
            x = I.load(st, x)
        if meth == 'is_eq':
            return tagis(x, 'Equal')
        if meth == 'is_ne':
            return not_(tagis(x, 'Equal'))
        if meth == 'is_lt':
            return tagis(x, 'Less')
        if meth == 'is_gt':
            return tagis(x, 'Greater')
        if meth == 'is_le':
            return not_(tagis(x, 'Greater'))
        if meth == 'is_ge':
            return not_(tagis(x, 'Less'))
        if meth == 'reverse':
            return ite(tagis(x, 'Less'), enum('Greater'), ite(tagis(x, 'Equal'), enum('Equal'), enum('Less')))
        if meth == 'then':
            return ite(tagis(x, 'Equal'), v[1], x)
        if meth == 'then_with':
            return I.branch(st, tagis(x, 'Equal'), lambda s: I.apply(s, v[1], [], site), lambda s: x)
        return MISS

    # -- Vec
    def vec(self, I, fr, st, sty, th, meth, G, v, tys, dty, site):
        ety = elem_of_vec(sty)
        if meth in ('new', 'with_capacity', 'try_with_capacity', 'default') and not (v and v[0].op == 'ref'):
            if meth in ('new', 'default'):
                if structured(ety):
                    return rec('SVec', mk('sempty'), c(0))
                z = eq(I.size_node(ety), c(0))
                return rec('Vec', I.align_node(ety), ite(z, USIZE_MAX, c(0)), c(0))
            if structured(ety):
                return rec('SVec', mk('sempty'), v[0])
            nv = rec('Vec', I.align_node(ety), ite(eq(I.size_node(ety), c(0)), USIZE_MAX, c(0)), c(0))
            p = I.new_obj(st, nv)
            r = self.vec_reserve(I, st, p, ety, v[0], True, meth != 'with_capacity')
            if r is None:
                return None
            nv = I.load(st, p)
            if meth == 'with_capacity':
                return nv
            return ite(tagis(r, 'Ok'), enum('Ok', nv), r)
        if meth in ('from_raw_parts',):
            return rec('Vec', v[0], v[2], v[1])
        if not v:
            return MISS
        p = v[0]
        byval = not (p.op == 'ref')
        x = p if byval else I.load(st, p)
        if x.op == 'ite' and not byval:
            return MISS
        if x.op != 'rec' or x.a[0] not in ('SVec', 'Vec'):
            return MISS
        if x.a[0] == 'SVec':
            return self.svec_call(I, fr, st, ety, meth, th, v, p, x, byval, site, tys)
        ptr, cap, n = x.a[1], x.a[2], x.a[3]
        es = I.size_node(ety)
        if meth in ('as_ptr', 'as_mut_ptr', 'as_non_null'):
            return ptr
        if meth == 'capacity':
            return cap
        if meth == 'len':
            return n
        if meth == 'is_empty':
            return eq(n, c(0))
        if meth == 'set_len':
            self.ub_if(I, st, lt(cap, v[1]), 'set_len beyond capacity')
            I.store(st, I.padd(p, ('f', 2)), v[1])
            return UNIT
        if meth in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'leak'):
            return rec('wide', ptr, n)
        if meth in ('try_reserve', 'try_reserve_exact', 'reserve', 'reserve_exact'):
            return self.vec_reserve(I, st, p, ety, v[1], 'exact' in meth, meth.startswith('try'))
        if meth in ('shrink_to', 'shrink_to_fit'):
            m = v[1] if meth == 'shrink_to' else c(0)
            want = imax(n, m)
            do = and_(lt(want, cap), not_(eq(es, c(0))))

            def shrink(s):
                newsz = arith('umul', want, es)
                oldsz = arith('umul', cap, es)
                al = I.align_node(ety)
                z = eq(want, c(0))
                mm = self.mem(s)
                self.setmem(s, ite(z, mk('mfreez', mm, ptr, oldsz, al),
                                   mk('mrealloc', mm, ptr, oldsz, al, newsz, al)))
                na = ite(z, al, mk('raddr', mm, ptr, oldsz, al, newsz, al))
                I.store(s, p, rec('Vec', na, want, n))
                return UNIT
            return I.branch(st, do, shrink, lambda s: UNIT)
        if meth == 'push':
            full = eq(n, cap)

            def grow(s):
                return self.vec_reserve(I, s, p, ety, c(1), False, False)
            r = I.branch(st, full, grow, lambda s: UNIT)
            if r is None:
                return None
            x = I.load(st, p)
            self.setmem(st, mk('mput', self.mem(st), self.offset(I, fld(x, 0), n, es), v[1], es))
            I.store(st, I.padd(p, ('f', 2)), arith('add', n, c(1)))
            return UNIT
        if meth == 'pop':
            def pop(s):
                k = arith('sub', n, c(1))
                I.store(s, I.padd(p, ('f', 2)), k)
                return some(mk('mload', self.mem(s), self.offset(I, ptr, k, es), es))
            return I.branch(st, eq(n, c(0)), lambda s: NONE, pop)
        if meth == 'insert':
            def ins(s0):
                r = I.branch(s0, eq(n, cap), lambda s: self.vec_reserve(I, s, p, ety, c(1), False, False), lambda s: UNIT)
                if r is None:
                    return None
                q = self.offset(I, fld(I.load(s0, p), 0), v[1], es)
                self.do_copy(I, s0, q, self.offset(I, q, c(1), es), arith('sub', n, v[1]), es, True)
                self.setmem(s0, mk('mput', self.mem(s0), q, v[2], es))
                I.store(s0, I.padd(p, ('f', 2)), arith('add', n, c(1)))
                return UNIT
            return I.branch(st, lt(n, v[1]), lambda s: self.unwind(I, s), ins)
        if meth in ('remove', 'swap_remove'):
            def rem(s):
                k = arith('sub', n, c(1))
                q = self.offset(I, ptr, v[1], es)
                x = mk('mload', self.mem(s), q, es)
                if meth == 'remove':
                    self.do_copy(I, s, self.offset(I, q, c(1), es), q, arith('sub', k, v[1]), es, True)
                else:
                    self.do_copy(I, s, self.offset(I, ptr, k, es), q, c(1), es, True)
                I.store(s, I.padd(p, ('f', 2)), k)
                return x
            return I.branch(st, lt(v[1], n), rem, lambda s: self.unwind(I, s))
        if meth in ('index', 'index_mut') and th in ('Index', 'IndexMut'):
            return self.slice(I, fr, st, '[%s]' % ety, th, meth, [], [rec('wide', ptr, n)] + v[1:], [''], '', site)
        if meth in ('iter', 'iter_mut'):
            return rec('PIter', ptr, n, es)
        if meth == 'into_iter':
            if byval and not sty.startswith('&'):
                return MISS
            return rec('PIter', ptr, n, es)
        if meth == 'spare_capacity_mut':
            return rec('wide', self.offset(I, ptr, n, es), arith('sub', cap, n))
        if meth in ('into_boxed_slice',) and byval:
            q = I.new_obj(st, x)
            r = self.vec(I, fr, st, sty, th, 'shrink_to_fit', G, [q], ['&mut ' + sty], dty, site)
            y = I.load(st, q)
            return rec('wide', fld(y, 0), n)
        if meth in ('into_raw_parts',):
            return rec('tuple', ptr, n, cap)
        if meth == 'truncate' or meth == 'clear':
            to = v[1] if meth == 'truncate' else c(0)

            def trunc(s):
                I.store(s, I.padd(p, ('f', 2)), to)
                self.drop_slice(I, s, self.offset(I, ptr, to, es), arith('sub', n, to), ety, site)
                return UNIT if not s.dead else None
            return I.branch(st, lt(to, n), trunc, lambda s: UNIT)
        if meth == 'extend' and th == 'Extend':
            it = I.new_obj(st, self.into_iter(I, fr, st, v[1], tys[1] if len(tys) > 1 else '', site))

            def body(s, item):
                r = self.vec(I, fr, s, sty, None, 'push', [], [p, item], ['&mut ' + sty, ''], '', (site, 'push'))
                return UNIT if r is not None else None
            return self.loop_iter(I, fr, st, it, tys[1] if len(tys) > 1 else '', body, (site, 'ext'))
        return MISS

    def vec_reserve(self, I, st, p, ety, add, exact, fallible):
        """RawVec growth contract: nothing when it fits; else at least len+additional."""
        x = I.load(st, p)
        ptr, cap, n = x.a[1], x.a[2], x.a[3]
        es, al = I.size_node(ety), I.align_node(ety)
        need = arith('uadd', n, add)
        fits = le(add, arith('sub', cap, n))

        def grow(s):
            newcap = need if exact else imax(need, arith('smul', cap, c(2)))
            sz = arith('umul', newcap, es)
            over = or_(or_(t.ispois(need), eq(es, c(0))), or_(t.ispois(sz), lt(ISIZE_MAX, sz)))

            def overflow(s2):
                if fallible:
                    return enum('Err', rec('StdTryReserveError', enum('CapacityOverflow')))
                return self.unwind(I, s2)

            def go(s2):
                ok = mk('allocok', I.nd('alloc'), sz)
                m = self.mem(s2)
                old = arith('mul', cap, es)
                z = eq(old, c(0))

                def done(s3):
                    na = ite(z, mk('naddr', m, sz, al), mk('raddr', m, ptr, old, al, sz, al))
                    self.setmem(s3, ite(z, mk('malloc', m, sz, al), mk('mrealloc', m, ptr, old, al, sz, al)))
                    I.store(s3, p, rec('Vec', na, newcap, n))
                    return enum('Ok', UNIT) if fallible else UNIT

                def fail(s3):
                    if fallible:
                        return enum('Err', rec('StdTryReserveError', enum('AllocError', rec('Layout', sz, al), UNIT)))
                    return self.abort(I, s3)
                return I.branch(s2, ok, done, fail)
            return I.branch(s, over, overflow, go)
        return I.branch(st, fits, lambda s: enum('Ok', UNIT) if fallible else UNIT, grow)

    def svec_call(self, I, fr, st, ety, meth, th, v, p, x, byval, site, tys=()):
        seq, cap = x.a[1], x.a[2]
        n = t.slen(seq)
        if meth == 'capacity':
            return cap
        if meth == 'len':
            return n
        if meth == 'is_empty':
            return eq(n, c(0))
        if byval:
            if meth == 'into_iter':
                return rec('VIter', seq, c(0), n)
            return MISS
        base = I.padd(p, ('f', 0))
        if meth in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut'):
            return rec('slice', base, c(0), n)
        if meth in ('iter', 'iter_mut', 'into_iter'):
            return rec('SIter', base, c(0), n)
        if meth == 'pop':
            def pop(s):
                k = arith('sub', n, c(1))
                I.store(s, base, mk('srem', seq, k))
                return some(t.sget(seq, k))
            return I.branch(st, eq(n, c(0)), lambda s: NONE, pop)
        if meth in ('as_ptr', 'as_mut_ptr', 'as_non_null'):
            return I.padd(base, ('i', c(0), 'raw'))
        if meth in ('remove', 'swap_remove'):
            def rem(s):
                if meth == 'swap_remove':
                    k = arith('sub', n, c(1))
                    I.store(s, base, mk('srem', t.supd(seq, v[1], t.sget(seq, k)), k))
                else:
                    I.store(s, base, mk('srem', seq, v[1]))
                return t.sget(seq, v[1])
            return I.branch(st, lt(v[1], n), rem, lambda s: self.unwind(I, s))
        if meth == 'insert':
            def ins(s):
                # may grow
                I.store(s, p, rec('SVec', mk('sins', seq, v[1], v[2]),
                                  ite(eq(n, cap), imax(arith('mul', cap, c(2)), c(4)), cap)))
                return UNIT
            return I.branch(st, lt(n, v[1]), lambda s: self.unwind(I, s), ins)
        if meth == 'push':
            I.store(st, p, rec('SVec', mk('spush', seq, v[1]),
                               ite(eq(n, cap), imax(arith('mul', cap, c(2)), c(4)), cap)))
            return UNIT
        if meth in ('try_reserve', 'try_reserve_exact', 'reserve', 'reserve_exact'):
            fits = le(v[1], arith('sub', cap, n))
            fallible = meth.startswith('try')

            def grow(s):
                need = arith('uadd', n, v[1])
                newcap = need if 'exact' in meth else imax(need, arith('mul', cap, c(2)))
                big = or_(t.ispois(need), lt(c(1 << 58), need))

                def over(s2):
                    return enum('Err', rec('StdTryReserveError', enum('CapacityOverflow'))) if fallible \
                        else self.unwind(I, s2)

                def go(s2):
                    ok = mk('allocok', I.nd('infoalloc'), arith('mul', need, c(16)))

                    def done(s3):
                        I.store(s3, I.padd(p, ('f', 1)), newcap)
                        return enum('Ok', UNIT) if fallible else UNIT

                    def fail(s3):
                        return enum('Err', rec('StdTryReserveError', enum('AllocError', rec('Layout', need, c(8)), UNIT))) \
                            if fallible else self.abort(I, s3)
                    return I.branch(s2, ok, done, fail)
                return I.branch(s, big, over, go)
            return I.branch(st, fits, lambda s: enum('Ok', UNIT) if fallible else UNIT, grow)
        if meth in ('shrink_to', 'shrink_to_fit'):
            m = v[1] if meth == 'shrink_to' else c(0)
            I.store(st, I.padd(p, ('f', 1)), imin(cap, imax(n, m)))
            return UNIT
        if meth == 'set_len':
            def longer(s):
                I.havoc(s, 'set_len over the spare part of the offset table')
                return UNIT

            def shorter(s):
                I.store(s, base, mk('stake', seq, v[1]))
                return UNIT
            return I.branch(st, lt(n, v[1]), longer, shorter)
        if meth in ('clear', 'truncate'):
            def cut(s):
                I.store(s, base, mk('stake', seq, c(0) if meth == 'clear' else v[1]))
                return UNIT
            return I.branch(st, lt(c(0) if meth == 'clear' else v[1], n), cut, lambda s: UNIT)
        if meth == 'extend' and th == 'Extend' and len(tys) > 1:
            it = self.into_iter(I, fr, st, v[1], tys[1], site)
            if it is None:
                return None
            it = I.new_obj(st, it)

            def body(s, item):
                y = I.load(s, p)
                k = t.slen(y.a[1])
                I.store(s, p, rec('SVec', mk('spush', y.a[1], item), ite(eq(k, y.a[2]), imax(arith('mul', y.a[2], c(2)), c(4)), y.a[2])))
                return UNIT
            return self.loop_iter(I, fr, st, it, tys[1], body, (site, 'ext'))
        if meth in ('resize', 'resize_with'):
            def cut2(s):
                I.store(s, base, mk('stake', seq, v[1]))
                return UNIT

            def more(s):
                if self.svec_call(I, fr, s, ety, 'reserve', '', [v[0], arith('sub', v[1], n)], p, x, False, (site, 'reserve')) is None:
                    return None
                fp = None
                if meth == 'resize_with':
                    fp = v[2] if v[2].op == 'ref' else I.new_obj(s, v[2])
                K = ('V', meth, site)
                s.env[K] = n

                def run(s2):
                    cnt = s2.env[K]
                    done = s2.copy()
                    done.g = and_(s2.g, not_(lt(cnt, v[1])))
                    s2.g = and_(s2.g, lt(cnt, v[1]))
                    r = v[2] if fp is None else I.apply(s2, fp, [], (site, 'f'))
                    if r is None or s2.dead:
                        return None, [('done', done)]
                    I.store(s2, base, mk('spush', I.load(s2, base), r))
                    s2.env[K] = arith('add', cnt, c(1))
                    return s2, [('done', done)]
                m = self.finish_loop(I, s, I.loopify(s, run, 'Vec::' + meth))
                if m is None:
                    return None
                s.env.pop(K)
                return UNIT
            return I.branch(st, lt(n, v[1]), more, cut2)
        if meth == 'drain' and v[1].op == 'rec' and v[1].a[0] in RANGES:
            k = v[1].a[0]
            lo = v[1].a[1] if k in ('Range', 'RangeFrom') else c(0)
            hi = v[1].a[2] if k == 'Range' else v[1].a[1] if k == 'RangeTo' \
                else arith('sadd', v[1].a[1], c(1)) if k == 'RangeToInclusive' else n
            one = hi is arith('add', lo, c(1))
            if k in ('RangeFull', 'RangeFrom') or one:
                def dr(s):
                    I.store(s, base, mk('srem', seq, lo) if one else mk('stake', seq, lo) if k == 'RangeFrom' else mk('sempty'))
                    return rec('VIter', seq, lo, hi)
                return I.branch(st, or_(lt(hi, lo), lt(n, hi)), lambda s: self.unwind(I, s), dr)
            return MISS
        if meth == 'split_off':
            return MISS
        if meth in ('index', 'index_mut') and th in ('Index', 'IndexMut'):
            ix = v[1]
            if ix.op == 'rec':
                return self.slice_range(I, st, rec('slice', base, c(0), n), ix, True)
            return I.branch(st, lt(ix, n), lambda s: I.padd(base, ('i', ix)), lambda s: self.unwind(I, s))
        return self.slice(I, fr, st, '[%s]' % ety, th, meth, [], [rec('slice', base, c(0), n)] + v[1:], [''], '', site)

    # -- slices
    def as_slice(self, I, st, p):
        x = I.load(st, p) if p.op == 'ref' else p
        if x.op == 'rec' and x.a[0] == 'SIter':
            return rec('slice', x.a[1], x.a[2], x.a[3])
        if x.op == 'rec' and x.a[0] == 'PIter':
            return rec('wide', x.a[1], x.a[2])
        return MISS

    def slice_range(self, I, st, s, rg, check):
        lo, hi = c(0), None
        k = rg.a[0]
        if k == 'RangeFrom':
            lo = rg.a[1]
        elif k == 'Range':
            lo, hi = rg.a[1], rg.a[2]
        elif k == 'RangeTo':
            hi = rg.a[1]
        elif k == 'RangeToInclusive':
            hi = arith('sadd', rg.a[1], c(1))
        elif k == 'RangeFull':
            pass
        else:
            return MISS
        if s.a[0] == 'slice':
            base, a, b = s.a[1], s.a[2], s.a[3]
            n = arith('sub', b, a)
        else:
            return MISS
        h = hi if hi is not None else n
        bad = or_(lt(h, lo), lt(n, h))
        r = rec('slice', base, arith('add', a, lo), arith('add', a, h))
        if check == 'opt':
            return ite(bad, NONE, some(r))
        if check:
            return I.branch(st, bad, lambda z: self.unwind(I, z), lambda z: r)
        self.ub_if(I, st, bad, 'get_unchecked with a range out of bounds')
        return r

    def slice(self, I, fr, st, sty, th, meth, G, v, tys, dty, site):
        s = v[0]
        if s.op == 'ref':
            y = I.load(st, s)
            if y.op == 'rec' and y.a[0] in ('slice', 'wide'):
                s = y
            elif y.op == 'rec' and y.a[0] == 'arr':
                s = rec('slice', s, c(0), c(len(y.a) - 1))
            elif y.op == 'rep':
                s = rec('slice', s, c(0), y.a[1])
        if s.op == 'rec' and s.a[0] == 'arr' and meth == 'map':
            out = []
            for i in range(len(s.a) - 1):
                r = I.apply(st, v[1], [s.a[1 + i]], (site, i))
                if r is None:
                    return None
                out.append(r)
            return rec('arr', *out)
        if s.op == 'rep' and meth == 'map' or (s.op == 'rec' and s.a[0] == 'cseq' and meth == 'map'):
            return self.map_rep(I, fr, st, s, v[1], site)
        if s.op == 'ite' and s.a[1].op == 'rec':
            return unk('gated slice')
        if s.op != 'rec' or s.a[0] not in ('slice', 'wide'):
            return MISS
        if s.a[0] == 'wide':
            base, n = s.a[1], s.a[2]
            ety = elem_ty(deref_ty(sty))
            es = I.size_node(ety)
            if meth == 'len':
                return n
            if meth == 'is_empty':
                return eq(n, c(0))
            if meth in ('as_ptr', 'as_mut_ptr'):
                return base
            if meth in ('copy_from_slice', 'clone_from_slice') and v[1].op == 'rec' and v[1].a[0] == 'wide':
                if meth == 'clone_from_slice' and ety not in I.copy_types:
                    return MISS

                def cp(z):
                    self.do_copy(I, z, v[1].a[1], base, n, es)
                    return UNIT
                return I.branch(st, eq(n, v[1].a[2]), cp, lambda z: self.unwind(I, z))
            if meth == 'copy_within' and v[1].op == 'rec' and v[1].a[0] in RANGES:
                k = v[1].a[0]
                lo = v[1].a[1] if k in ('Range', 'RangeFrom') else c(0)
                hi = v[1].a[2] if k == 'Range' else v[1].a[1] if k == 'RangeTo' else arith('sadd', v[1].a[1], c(1)) if k == 'RangeToInclusive' else n
                cnt = arith('sub', hi, lo)
                oob = or_(or_(lt(hi, lo), lt(n, hi)), lt(arith('ssub', n, cnt), v[2]))

                def cw(z):
                    self.do_copy(I, z, self.offset(I, base, lo, es), self.offset(I, base, v[2], es), cnt, es, True)
                    return UNIT
                return I.branch(st, oob, lambda z: self.unwind(I, z), cw)
            if meth in ('split_at', 'split_at_mut', 'split_at_unchecked', 'split_at_mut_unchecked'):
                r = rec('tuple', rec('wide', base, v[1]),
                        rec('wide', self.offset(I, base, v[1], es), arith('sub', n, v[1])))
                if 'unchecked' in meth:
                    self.ub_if(I, st, lt(n, v[1]), 'split_at_unchecked out of bounds')
                    return r
                return I.branch(st, lt(n, v[1]), lambda z: self.unwind(I, z), lambda z: r)
            if meth in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut') and v[1].op == 'rec' \
                    and v[1].a[0] in RANGES:
                k = v[1].a[0]
                lo = v[1].a[1] if k in ('Range', 'RangeFrom') else c(0)
                hi = v[1].a[2] if k == 'Range' else v[1].a[1] if k == 'RangeTo' else arith('sadd', v[1].a[1], c(1)) if k == 'RangeToInclusive' else n
                oob = or_(lt(hi, lo), lt(n, hi))
                r = rec('wide', self.offset(I, base, lo, es), arith('sub', hi, lo))
                if 'unchecked' in meth:
                    self.ub_if(I, st, oob, 'get_unchecked with a range out of bounds')
                    return r
                if meth.startswith('get'):
                    return ite(oob, NONE, some(r))
                return I.branch(st, oob, lambda z: self.unwind(I, z), lambda z: r)
            if meth in ('index', 'index_mut') and v[1].op != 'rec':
                return I.branch(st, lt(v[1], n), lambda z: self.offset(I, base, v[1], es), lambda z: self.unwind(I, z))
            if meth in ('iter', 'iter_mut', 'into_iter'):
                return rec('PIter', base, n, es)
            if meth in ('get_unchecked', 'get_unchecked_mut') and v[1].op != 'rec':
                self.ub_if(I, st, le(n, v[1]), 'get_unchecked out of bounds')
                return self.offset(I, base, v[1], es)
            if meth in ('get', 'get_mut') and v[1].op != 'rec':
                return ite(lt(v[1], n), some(self.offset(I, base, v[1], es)), NONE)
            if meth in ('last', 'last_mut'):
                return ite(eq(n, c(0)), NONE, some(self.offset(I, base, arith('sub', n, c(1)), es)))
            if meth in ('first', 'first_mut'):
                return ite(eq(n, c(0)), NONE, some(base))
            return MISS
        base, a, b = s.a[1], s.a[2], s.a[3]
        n = arith('sub', b, a)

        def at(i):
            return I.padd(base, ('i', arith('add', a, i)))
        if meth == 'len':
            return n
        if meth == 'is_empty':
            return eq(n, c(0))
        if meth in ('iter', 'iter_mut', 'into_iter'):
            return rec('SIter', base, a, b)
        if meth in ('get_unchecked', 'get_unchecked_mut'):
            if v[1].op == 'rec':
                return self.slice_range(I, st, s, v[1], False)
            self.ub_if(I, st, not_(lt(v[1], n)), 'get_unchecked out of bounds')
            return at(v[1])
        if meth in ('get', 'get_mut'):
            if v[1].op == 'rec':
                return self.slice_range(I, st, s, v[1], 'opt')
            return ite(lt(v[1], n), some(at(v[1])), NONE)
        if meth in ('index', 'index_mut'):
            if v[1].op == 'rec':
                return self.slice_range(I, st, s, v[1], True)
            return I.branch(st, lt(v[1], n), lambda z: at(v[1]), lambda z: self.unwind(I, z))
        if meth in ('last', 'last_mut'):
            return ite(eq(n, c(0)), NONE, some(at(arith('sub', n, c(1)))))
        if meth in ('first', 'first_mut'):
            return ite(eq(n, c(0)), NONE, some(at(c(0))))
        if meth in ('array_windows', 'windows'):
            return rec('AWin', base, a, b)
        if meth == 'as_slice':
            return s
        if meth in ('as_ptr', 'as_mut_ptr') and base.op == 'ref':
            return I.padd(base, ('i', a, 'raw'))
        if meth in ('rotate_left', 'rotate_right') and base.op == 'ref' and v[1] is c(1):
            def rot(z):
                seq = I.load(z, base)
                i, j = (a, arith('sub', b, c(1))) if meth == 'rotate_left' else (arith('sub', b, c(1)), a)
                I.store(z, base, mk('sins', mk('srem', seq, i), j, t.sget(seq, i)))
                return UNIT
            return I.branch(st, eq(n, c(0)), lambda z: self.unwind(I, z), rot)
        if meth in ('swap', 'swap_unchecked') and base.op == 'ref':
            def sw(z):
                x, y = I.load(z, at(v[1])), I.load(z, at(v[2]))
                I.store(z, at(v[1]), y)
                I.store(z, at(v[2]), x)
                return UNIT
            oob = or_(not_(lt(v[1], n)), not_(lt(v[2], n)))
            if 'unchecked' in meth:
                self.ub_if(I, st, oob, 'swap out of bounds')
                return sw(st)
            return I.branch(st, oob, lambda z: self.unwind(I, z), sw)
        if meth in ('split_at', 'split_at_mut', 'split_at_unchecked', 'split_at_mut_unchecked'):
            m = v[1]
            r = rec('tuple', rec('slice', base, a, arith('add', a, m)), rec('slice', base, arith('add', a, m), b))
            if 'unchecked' in meth:
                return r
            return I.branch(st, lt(n, m), lambda z: self.unwind(I, z), lambda z: r)
        if meth in ('split_last', 'split_last_mut'):
            e = arith('sub', b, c(1))
            return ite(eq(n, c(0)), NONE, some(rec('tuple', at(arith('sub', n, c(1))), rec('slice', base, a, e))))
        if meth in ('split_first', 'split_first_mut'):
            return ite(eq(n, c(0)), NONE, some(rec('tuple', at(c(0)), rec('slice', base, arith('add', a, c(1)), b))))
        return MISS

    def map_rep(self, I, fr, st, s, f, site):
        """[x; N].map(closure) for a const-generic N"""
        if s.op == 'rep':
            x, n = s.a
        else:
            return MISS
        return self.build_array(I, st, n, lambda s2, i: I.apply(s2, f, [x], (site, 'map')), site)

    def build_array(self, I, st, n, make, site):
        """an array of n elements, each made by make(state, index) in turn"""
        K = ('V', 'maprep', site)
        st.env[K] = rec('tuple', mk('sempty'), c(0))

        def run(s2):
            cnt = fld(s2.env[K], 1)
            seq = fld(s2.env[K], 0)
            done = s2.copy()
            done.g = and_(s2.g, not_(lt(cnt, n)))
            s2.g = and_(s2.g, lt(cnt, n))
            r = make(s2, cnt)
            if r is None or s2.dead:
                return None, [('done', done)]
            s2.env[K] = rec('tuple', mk('spush', seq, r), arith('add', cnt, c(1)))
            return s2, [('done', done)]
        m = self.finish_loop(I, st, I.loopify(st, run, 'array::map'))
        if m is None:
            return None
        v = st.env.pop(K)
        return mk('seqarr', fld(v, 0), n)

    def iter_source(self, I, st, meth, v):
        if meth == 'empty' and not v:
            return rec('OptIter', NONE)
        if meth == 'once' and len(v) == 1:
            return rec('OptIter', some(v[0]))
        if meth == 'repeat' and len(v) == 1:
            return rec('Repeat', v[0])
        if meth == 'repeat_n' and len(v) == 2:
            return rec('RepeatN', v[0], v[1])
        if meth == 'from_fn' and len(v) == 1:
            return rec('FromFn', v[0])
        if meth == 'successors' and len(v) == 2:
            return rec('Succ', v[0], v[1])
        return MISS

    def finish_loop(self, I, st, exits):
        m = merge([s for _, s in exits])
        if m is None:
            kill(st)
            return None
        st.g, st.env = m.g, m.env
        return m

    # -- iterators
    ITK = ('SIter', 'PIter', 'VIter', 'Range', 'Map', 'Zip', 'Enum', 'Rev', 'AWin', 'OptIter', 'SkipN', 'TakeN',
           'SeqIter', 'Copied', 'RangeInclusive', 'Filter', 'FilterMap', 'TakeWhile', 'MapWhile', 'SkipWhile', 'Chain',
           'StepBy', 'Inspect', 'Scan', 'Peek', 'Repeat', 'RepeatN', 'FromFn', 'Succ', 'Fuse')

    def into_iter(self, I, fr, st, x, ty, site):
        """IntoIterator::into_iter"""
        if x.op == 'ite':
            return I.branch(st, x.a[0], lambda s: self.into_iter(I, fr, s, x.a[1], ty, site),
                            lambda s: self.into_iter(I, fr, s, x.a[2], ty, site))
        if x.op == 'rec':
            n = x.a[0].partition('@')[0]
            if n in self.ITK or n.startswith('foreign:'):
                return x
            if n == 'slice':
                return rec('SIter', x.a[1], x.a[2], x.a[3])
            if n == 'wide':
                e = elem_ty(deref_ty(ty))
                return rec('PIter', x.a[1], x.a[2], I.size_node(e))
            if n == 'arr':
                return rec('VIter', x, c(0), c(len(x.a) - 1))
            if n == 'SVec':
                return rec('VIter', x.a[1], c(0), t.slen(x.a[1]))
            if I.idx.local_type(n):
                f, sub = I.find(fr, ty, 'IntoIterator', 'into_iter')
                if f is not None:
                    return I.run_fn(f, [x], st, sub, (site, 'into_iter'))
                return x
        if x.op == 'seqarr':
            return rec('VIter', x.a[0], c(0), x.a[1])
        if x.op == 'atom':
            if ty.startswith('['):
                m = re.match(r'\[(.*); (\w+)\]$', ty)
                return rec('VIter', x, c(0), I.const_generic(m.group(2)))
            return x
        if x.op == 'ref':
            y = I.load(st, x)
            if y.op == 'rec':
                n = y.a[0].partition('@')[0]
                if n in self.ITK:
                    return x
                if n not in ('Vec', 'SVec') and I.idx.local_type(n):
                    f, sub = I.find(fr, ty, 'IntoIterator', 'into_iter')
                    if f is not None:
                        return I.run_fn(f, [x], st, sub, (site, 'into_iter'))
                    return x
                if n in ('SVec',):
                    return rec('SIter', I.padd(x, ('f', 0)), c(0), t.slen(y.a[1]))
                if n == 'Vec':
                    a = type_args(deref_ty(ty))
                    return rec('PIter', y.a[1], y.a[3], I.size_node(a[0] if a else 'T'))
                if n == 'arr':
                    return rec('SIter', x, c(0), c(len(y.a) - 1))
            return x
        return x

    def iter_next(self, I, fr, st, p, ty, site, back=False):
        """advance the iterator at p -> Option node (None: diverged)"""
        v = I.load(st, p) if p.op in ('ref', 'ite', 'lx') else p
        if v.op == 'ite' and p.op == 'ref':
            def arm(i):
                def f(s):
                    I.store(s, p, v.a[i])
                    return self.iter_next(I, fr, s, p, ty, site, back)
                return f
            return I.branch(st, v.a[0], arm(1), arm(2))
        if v.op == 'ref':
            return self.iter_next(I, fr, st, v, deref_ty(ty), site, back)
        if v.op == 'atom' or (v.op == 'rec' and v.a[0].startswith('foreign:')):
            h = I.foreign.get('ITER')
            if h is None:
                raise Abandon('foreign iterator')
            return h(I, st, v, p, 'next_back' if back else 'next', site)
        if v.op != 'rec':
            raise Abandon('iterator ' + t.show(v, 2))
        n = v.a[0].partition('@')[0]
        a = type_args(ty)
        F = lambda i: I.padd(p, ('f', i))
        one = c(1)
        if n in ('SIter', 'VIter', 'Range', 'AWin'):
            if n == 'Range':
                lo, hi, il, ih = v.a[1], v.a[2], 0, 1
            else:
                lo, hi, il, ih = v.a[2], v.a[3], 1, 2
            base = v.a[1]
            more = lt(lo, hi) if n != 'AWin' else lt(arith('add', lo, one), hi)

            def item(s, i):
                if n == 'SIter':
                    return I.padd(base, ('i', i))
                if n == 'Range':
                    return i
                if n == 'AWin':
                    return rec('slice', base, i, arith('add', i, c(2)))
                return self.vitem(I, base, i)

            def adv(s):
                if back:
                    k = arith('sub', hi, one)
                    I.store(s, F(ih), k)
                    return some(item(s, k if n != 'AWin' else arith('sub', k, one)))
                I.store(s, F(il), arith('add', lo, one))
                return some(item(s, lo))
            return I.branch(st, more, adv, lambda s: NONE)
        if n == 'PIter':
            ptr, cnt, es = v.a[1], v.a[2], v.a[3]

            def adv(s):
                k = arith('sub', cnt, one)
                I.store(s, F(1), k)
                if back:
                    return some(self.offset(I, ptr, k, es))
                I.store(s, F(0), self.offset(I, ptr, one, es))
                return some(ptr)
            return I.branch(st, eq(cnt, c(0)), lambda s: NONE, adv)
        if n == 'Rev':
            return self.iter_next(I, fr, st, F(0), a[0] if a else '', site, not back)
        if n == 'Copied':
            x = self.iter_next(I, fr, st, F(0), a[0] if a else '', site, back)
            if x is None:
                return None
            return I.branch(st, tagis(x, 'Some'), lambda s: some(self.load_any(I, s, pl(x, 'Some', 0), '')),
                            lambda s: NONE)
        if n == 'Map':
            x = self.iter_next(I, fr, st, F(0), a[0] if a else '', (site, 'm'), back)
            if x is None:
                return None
            return I.branch(st, tagis(x, 'Some'),
                            lambda s: self.opt_some(I.apply(s, F(1), [pl(x, 'Some', 0)], (site, 'f'))),
                            lambda s: NONE)
        if n == 'Enum' and back:
            x = self.iter_next(I, fr, st, F(0), a[0] if a else '', site, True)
            if x is None:
                return None
            k = v.a[2]

            def en(s):
                m = self.iter_len(I, fr, s, I.load(s, F(0)), a[0] if a else '', (site, 'l'))
                if m is None:
                    raise Abandon('length of an enumerated iterator')
                return some(rec('tuple', arith('add', k, m), pl(x, 'Some', 0)))
            return I.branch(st, tagis(x, 'Some'), en, lambda s: NONE)
        if n == 'Enum' and not back:
            x = self.iter_next(I, fr, st, F(0), a[0] if a else '', site, back)
            if x is None:
                return None
            k = v.a[2]

            def en(s):
                I.store(s, F(1), arith('add', k, one))
                return some(rec('tuple', k, pl(x, 'Some', 0)))
            return I.branch(st, tagis(x, 'Some'), en, lambda s: NONE)
        if n == 'Zip' and back:
            tx, ty2 = (a + ['', ''])[:2]
            lx = self.iter_len(I, fr, st, v.a[1], tx, (site, 'lx'))
            ly = self.iter_len(I, fr, st, v.a[2], ty2, (site, 'ly'))
            if lx is None or ly is None:
                raise Abandon('length of a zipped iterator')

            def trim(i, ti, d):
                def go(s):
                    r = self.nth(I, fr, s, F(i), ti, arith('sub', d, one), True, (site, 't', i))
                    return None if r is None else UNIT
                return go
            r = I.branch(st, lt(ly, lx), trim(0, tx, arith('sub', lx, ly)),
                         lambda s: I.branch(s, lt(lx, ly), trim(1, ty2, arith('sub', ly, lx)), lambda z: UNIT))
            if r is None:
                return None
            x = self.iter_next(I, fr, st, F(0), tx, (site, 0), True)
            if x is None:
                return None
            y = self.iter_next(I, fr, st, F(1), ty2, (site, 1), True)
            if y is None:
                return None
            return ite(and_(tagis(x, 'Some'), tagis(y, 'Some')),
                       some(rec('tuple', pl(x, 'Some', 0), pl(y, 'Some', 0))), NONE)
        if n == 'Zip' and not back:
            x = self.iter_next(I, fr, st, F(0), a[0] if a else '', (site, 0), back)
            if x is None:
                return None

            def second(s):
                y = self.iter_next(I, fr, s, F(1), a[1] if len(a) > 1 else '', (site, 1), back)
                if y is None:
                    return None
                # an unpaired first item is dropped
                return ite(tagis(y, 'Some'), some(rec('tuple', pl(x, 'Some', 0), pl(y, 'Some', 0))), NONE)
            return I.branch(st, tagis(x, 'Some'), second, lambda s: NONE)
        if n == 'TakeN':
            k = v.a[2]

            def go(s):
                I.store(s, F(1), arith('sub', k, one))
                return self.iter_next(I, fr, s, F(0), a[0] if a else '', site, back)
            if back:
                raise Abandon('next_back of Take')
            return I.branch(st, eq(k, c(0)), lambda s: NONE, go)
        if n == 'OptIter':
            x = v.a[1]
            I.store(st, F(0), NONE)
            return x
        r = self.adaptor_next(I, fr, st, n, v, F, a, site, back)
        if r is not MISS:
            return r
        if I.idx.local_type(n):
            m = 'next_back' if back else 'next'
            tr = 'DoubleEndedIterator' if back else 'Iterator'
            f, sub = I.find(fr, ty or n, tr, m)
            if f is None:
                l = I.idx.lookup(n, tr, m)
                f = l[0] if l else None
                sub = {}
            if f is None:
                raise Abandon('iterator %s' % n)
            return I.run_fn(f, [p], st, sub, (site, m))
        raise Abandon('iterator ' + n)

    def adaptor_next(self, I, fr, st, n, v, F, a, site, back):
        it = a[0] if a else ''
        if n == 'Fuse':
            return self.iter_next(I, fr, st, F(0), it, site, back)
        if n == 'Filter':
            def body(s, item):
                r = I.apply(s, F(1), [I.new_obj(s, item)], (site, 'f'))
                return None if r is None else rec('tuple', r, item)
            r = self.loop_iter(I, fr, st, F(0), it, body, (site, 'fl'), back, lambda b: (fld(b, 0), fld(b, 1)))
            return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
        if n == 'FilterMap':
            r = self.loop_iter(I, fr, st, F(0), it, lambda s, item: I.apply(s, F(1), [item], (site, 'f')),
                               (site, 'fl'), back, lambda b: (tagis(b, 'Some'), pl(b, 'Some', 0)))
            return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
        if n == 'Inspect':
            x = self.iter_next(I, fr, st, F(0), it, (site, 'i'), back)
            if x is None:
                return None

            def seen(s):
                r = I.apply(s, F(1), [I.new_obj(s, pl(x, 'Some', 0))], (site, 'f'))
                return None if r is None else x
            return I.branch(st, tagis(x, 'Some'), seen, lambda s: NONE)
        if n == 'Chain':
            i, j = (1, 0) if back else (0, 1)

            def first(s):
                x = self.iter_next(I, fr, s, F(i), a[i] if len(a) > i else '', (site, 'c', i), back)
                if x is None:
                    return None

                def over(s2):
                    I.store(s2, F(2 + i), TRUE)
                    return second(s2)
                return I.branch(s, tagis(x, 'Some'), lambda s2: x, over)

            def second(s):
                return self.iter_next(I, fr, s, F(j), a[j] if len(a) > j else '', (site, 'c', j), back)
            return I.branch(st, fld(v, 2 + i), second, first)
        if n == 'Repeat':
            return some(v.a[1])
        if n == 'RepeatN':
            k = v.a[2]

            def dec(s):
                I.store(s, F(1), arith('sub', k, c(1)))
                return some(v.a[1])
            return I.branch(st, eq(k, c(0)), lambda s: NONE, dec)
        if n == 'SkipN' and back:
            m = self.iter_len(I, fr, st, v, 'Skip<%s>' % it, (site, 'l'))
            if m is None:
                raise Abandon('length of a skipping iterator')
            return I.branch(st, eq(m, c(0)), lambda s: NONE,
                            lambda s: self.iter_next(I, fr, s, F(0), it, (site, 's'), True))
        if back:
            return MISS
        if n == 'FromFn':
            return I.apply(st, F(0), [], (site, 'f'))
        if n == 'Succ':
            x = v.a[1]

            def more(s):
                y = pl(x, 'Some', 0)
                nx = I.apply(s, F(1), [I.new_obj(s, y)], (site, 'f'))
                if nx is None:
                    return None
                I.store(s, F(0), nx)
                return some(y)
            return I.branch(st, tagis(x, 'Some'), more, lambda s: NONE)
        if n == 'SkipN':
            k = v.a[2]

            def drop(s):
                I.store(s, F(1), c(0))
                return self.nth(I, fr, s, F(0), it, k, False, (site, 'sk'))
            return I.branch(st, eq(k, c(0)), lambda s: self.iter_next(I, fr, s, F(0), it, (site, 's'), False), drop)
        if n in ('TakeWhile', 'MapWhile'):
            def more(s):
                x = self.iter_next(I, fr, s, F(0), it, (site, 'w'), False)
                if x is None:
                    return None

                def test(s2):
                    y = pl(x, 'Some', 0)
                    r = I.apply(s2, F(1), [I.new_obj(s2, y) if n == 'TakeWhile' else y], (site, 'f'))
                    if r is None or n == 'MapWhile':
                        return r

                    def stop(s3):
                        I.store(s3, F(2), TRUE)
                        return NONE
                    return I.branch(s2, r, lambda s3: x, stop)
                return I.branch(s, tagis(x, 'Some'), test, lambda s2: NONE)
            if n == 'MapWhile':
                return more(st)
            return I.branch(st, v.a[3], lambda s: NONE, more)
        if n == 'SkipWhile':
            def skip(s):
                def body(s2, item):
                    r = I.apply(s2, F(1), [I.new_obj(s2, item)], (site, 'f'))
                    return None if r is None else rec('tuple', not_(r), item)
                r = self.loop_iter(I, fr, s, F(0), it, body, (site, 'sw'), False, lambda b: (fld(b, 0), fld(b, 1)))
                if r is None:
                    return None
                I.store(s, F(2), tagis(r, 'Stop'))
                return ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
            return I.branch(st, v.a[3], lambda s: self.iter_next(I, fr, s, F(0), it, (site, 'n'), False), skip)
        if n == 'Scan':
            x = self.iter_next(I, fr, st, F(0), it, (site, 'n'), False)
            if x is None:
                return None
            return I.branch(st, tagis(x, 'Some'),
                            lambda s: I.apply(s, F(2), [F(1), pl(x, 'Some', 0)], (site, 'f')), lambda s: NONE)
        if n == 'StepBy':
            def rest(s):
                return self.nth(I, fr, s, F(0), it, arith('sub', v.a[2], c(1)), False, (site, 'st'))

            def first(s):
                I.store(s, F(2), FALSE)
                return self.iter_next(I, fr, s, F(0), it, (site, 'n'), False)
            return I.branch(st, v.a[3], first, rest)
        if n == 'Peek':
            x = v.a[2]

            def held(s):
                I.store(s, F(1), NONE)
                return pl(x, 'Some', 0)
            return I.branch(st, tagis(x, 'Some'), held, lambda s: self.iter_next(I, fr, s, F(0), it, (site, 'n'), False))
        return MISS

    def vitem(self, I, base, i):
        if base.op == 'rec' and base.a[0] == 'arr':
            r = unk('array item')
            for k in range(len(base.a) - 2, -1, -1):
                r = ite(eq(i, c(k)), base.a[1 + k], r) if r.op != 'unk' else base.a[1 + k]
            return r
        if base.op == 'seqarr':
            return t.sget(base.a[0], i)
        if base.op == 'atom':
            if 'ITEM' in I.foreign:
                return I.foreign['ITEM'](I, base, i)
            return mk('item', base, i)
        return t.sget(base, i)

    def iter_len(self, I, fr, st, v, ty, site):
        """exact remaining length of a known iterator, else None"""
        if v.op == 'ref':
            return self.iter_len(I, fr, st, I.load(st, v), deref_ty(ty), site)
        if v.op == 'ite':
            a, b = self.iter_len(I, fr, st, v.a[1], ty, site), self.iter_len(I, fr, st, v.a[2], ty, site)
            return None if a is None or b is None else ite(v.a[0], a, b)
        if v.op != 'rec':
            return None
        n = v.a[0].partition('@')[0]
        a = type_args(ty)
        if n in ('SIter', 'VIter'):
            return arith('sub', v.a[3], v.a[2])
        if n == 'Range':
            return arith('ssub', v.a[2], v.a[1])
        if n == 'AWin':
            return arith('ssub', arith('sub', v.a[3], v.a[2]), c(1))
        if n == 'PIter':
            return v.a[2]
        if n in ('Map', 'Rev', 'Enum', 'Copied'):
            return self.iter_len(I, fr, st, v.a[1], a[0] if a else '', site)
        if n == 'Zip':
            x = self.iter_len(I, fr, st, v.a[1], a[0] if a else '', site)
            y = self.iter_len(I, fr, st, v.a[2], a[1] if len(a) > 1 else '', site)
            return None if x is None or y is None else imin(x, y)
        if n == 'TakeN':
            x = self.iter_len(I, fr, st, v.a[1], a[0] if a else '', site)
            return None if x is None else imin(x, v.a[2])
        if n in ('Inspect', 'Fuse'):
            return self.iter_len(I, fr, st, v.a[1], a[0] if a else '', site)
        if n == 'OptIter':
            return ite(tagis(v.a[1], 'Some'), c(1), c(0))
        if n == 'RepeatN':
            return v.a[2]
        if n == 'SkipN':
            x = self.iter_len(I, fr, st, v.a[1], a[0] if a else '', site)
            return None if x is None else arith('ssub', x, v.a[2])
        if n == 'Chain':
            x = self.iter_len(I, fr, st, v.a[1], a[0] if a else '', (site, 0))
            y = self.iter_len(I, fr, st, v.a[2], a[1] if len(a) > 1 else '', (site, 1))
            return None if x is None or y is None else \
                arith('add', ite(v.a[3], c(0), x), ite(v.a[4], c(0), y))
        if I.idx.local_type(n):
            p = I.new_obj(st, v)
            f, sub = I.find(fr, ty, 'ExactSizeIterator', 'len')
            if f is not None:
                return I.run_fn(f, [p], st, sub, (site, 'len'))
            f, sub = I.find(fr, ty, 'Iterator', 'size_hint')
            if f is not None:
                r = I.run_fn(f, [p], st, sub, (site, 'len'))
                return None if r is None else fld(r, 0)
        return None

    def loop_iter(self, I, fr, st, p, ty, body, site, back=False, stop=None):
        """for item in iterator at p: body(state, item) -> value (None diverges).
        `stop(value)` (a condition) leaves the loop with that value in ('V','stop',site)."""
        K = ('V', 'stop', site)
        exits_stop = stop is not None

        def run(s):
            x = self.iter_next(I, fr, s, p, ty, (site, 'next'), back)
            if x is None or s.dead:
                return None, []
            cond = know(s.g, tagis(x, 'Some'))
            if cond.op == 'unk':
                raise Abandon('branch on unknown iterator item')
            done = s.copy()
            done.g = and_(s.g, not_(cond))
            s.g = and_(s.g, cond)
            out = [('done', done)]
            if s.dead:
                return None, out
            r = body(s, pl(x, 'Some', 0))
            if r is None or s.dead:
                return None, out
            if exits_stop:
                sc, sv = stop(r)
                sc = know(s.g, sc)
                if sc is not FALSE:
                    b = s.copy()
                    b.g = and_(s.g, sc)
                    if not b.dead:
                        b.env[K] = sv
                        out.append(('stop', b))
                    s.g = and_(s.g, not_(sc))
            return s, out
        exits = I.loopify(st, run, 'iteration at %s' % (fr.fn.name,))
        ds = merge([s for k, s in exits if k == 'done'])
        ss = merge([s for k, s in exits if k == 'stop'])
        if not exits_stop:
            if ds is None:
                kill(st)
                return None
            st.g, st.env = ds.g, ds.env
            return UNIT
        if ds is not None:
            ds.env[K] = enum('Done')
        if ss is not None:
            ss.env[K] = enum('Stop', ss.env[K])
        m = merge([x for x in (ds, ss) if x is not None])
        if m is None:
            kill(st)
            return None
        st.g, st.env = m.g, m.env
        return st.env.pop(K)

    def iterator(self, I, fr, st, sty, th, meth, G, v, tys, dty, site):
        r = self.iterator_(I, fr, st, sty, th, meth, G, v, tys, dty, site)
        if meth in ('fold', 'rfold', 'for_each', 'count', 'last', 'max', 'min', 'collect', 'sum', 'max_by_key', 'min_by_key',
                    'max_by', 'min_by', 'reduce') and r is not None and r is not MISS and not st.dead:
            # what was consumed goes away
            if 'Drain<' not in sty and 'array::IntoIter<' not in sty:
                def tables(x):
                    if x.op != 'rec':
                        return 0
                    if x.a[0] == 'VIter':
                        return 1
                    return sum(map(tables, x.a[1:])) if x.a[0] in ('Map', 'Zip', 'Enum', 'Rev', 'TakeN', 'SkipN', 'Chain') else 0
                for _ in range(tables(v[0])):
                    self.log(st, 'free_info')
            for x in v[1:]:
                if x.op == 'rec' and x.a[0].startswith('clo:') and not st.dead:
                    I.drop_val(st, x, I.new_obj(st, x), '', (site, 'clo'))
        return None if st.dead else r

    def iterator_(self, I, fr, st, sty, th, meth, G, v, tys, dty, site):
        if th == 'IntoIterator' and meth == 'into_iter':
            return self.into_iter(I, fr, st, v[0], sty, site)
        x = v[0]
        if meth in ('next', 'next_back'):
            ty = sty
            return self.iter_next(I, fr, st, x, ty, site, meth == 'next_back')
        if meth in ('by_ref', 'fuse'):
            return x
        foreign = x
        if foreign.op == 'ref':
            foreign = I.load(st, foreign)
        if (foreign.op == 'atom' or (foreign.op == 'rec' and foreign.a[0].startswith('foreign:'))) and \
                meth in ('size_hint', 'len'):
            return I.foreign['ITER'](I, st, foreign, x, meth, site)
        if meth == 'len':
            n = self.iter_len(I, fr, st, x, sty, site)
            return MISS if n is None else n
        if meth == 'size_hint':
            n = self.iter_len(I, fr, st, x, sty, site)
            return MISS if n is None else rec('tuple', n, some(n))
        if meth == 'is_empty':
            n = self.iter_len(I, fr, st, x, sty, site)
            return MISS if n is None else eq(n, c(0))
        # adaptors
        if meth == 'map':
            return rec('Map', x, v[1])
        if meth == 'rev':
            return rec('Rev', x)
        if meth == 'enumerate':
            return rec('Enum', x, c(0))
        if meth in ('copied', 'cloned'):
            return rec('Copied', x)
        if meth == 'take':
            return rec('TakeN', x, v[1])
        if meth == 'zip':
            y = self.into_iter(I, fr, st, v[1], G[0] if G else (tys[1] if len(tys) > 1 else ''), site)
            return None if y is None else rec('Zip', x, y)
        if meth in ('nth', 'nth_back'):
            return self.nth(I, fr, st, x, sty, v[1], meth == 'nth_back', site)
        if meth == 'skip':
            p = I.new_obj(st, x)
            r = self.advance(I, fr, st, p, sty, v[1], site)
            if r is None:
                return rec('SkipN', x, v[1])
            return I.load(st, p)
        if meth in ('filter', 'filter_map', 'inspect', 'map_while'):
            return rec({'filter': 'Filter', 'filter_map': 'FilterMap', 'inspect': 'Inspect', 'map_while': 'MapWhile'}[meth],
                       x, v[1])
        if meth == 'take_while':
            return rec('TakeWhile', x, v[1], FALSE)
        if meth == 'skip_while':
            return rec('SkipWhile', x, v[1], FALSE)
        if meth == 'step_by':
            return I.branch(st, eq(v[1], c(0)), lambda s: self.unwind(I, s), lambda s: rec('StepBy', x, v[1], TRUE))
        if meth == 'scan':
            return rec('Scan', x, v[1], v[2])
        if meth == 'peekable':
            return rec('Peek', x, NONE)
        if meth == 'chain':
            y = self.into_iter(I, fr, st, v[1], G[0] if G else (tys[1] if len(tys) > 1 else ''), site)
            return None if y is None else rec('Chain', x, y, FALSE, FALSE)
        if meth in ('eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'eq_by', 'cmp_by', 'partial_cmp_by'):
            return self.iter_compare(I, fr, st, x, sty, meth, v, G, tys, site)
        # consumers: by value
        if meth in ('fold', 'rfold', 'for_each', 'count', 'last', 'max', 'min', 'collect', 'sum',
                    'max_by_key', 'min_by_key', 'max_by', 'min_by', 'reduce'):
            p = I.new_obj(st, x)
            K = ('V', meth, site)
            if meth in ('fold', 'rfold'):
                st.env[K] = v[1]
                fp = v[2] if v[2].op == 'ref' else I.new_obj(st, v[2])

                def body(s, item):
                    r = I.apply(s, fp, [s.env[K], item], (site, 'f'))
                    if r is None:
                        return None
                    s.env[K] = r
                    return UNIT
                r = self.loop_iter(I, fr, st, p, sty, body, site, meth == 'rfold')
                return None if r is None else st.env.pop(K)
            if meth == 'for_each':
                fp = v[1] if v[1].op == 'ref' else I.new_obj(st, v[1])
                return self.loop_iter(I, fr, st, p, sty, lambda s, i: I.apply(s, fp, [i], (site, 'f')), site)
            if meth == 'count':
                n = self.iter_len(I, fr, st, x, sty, site)
                if n is not None:
                    return n
                st.env[K] = c(0)

                def body(s, item):
                    s.env[K] = arith('add', s.env[K], c(1))
                    return UNIT
                r = self.loop_iter(I, fr, st, p, sty, body, site)
                return None if r is None else st.env.pop(K)
            if meth == 'last':
                nx = self.iter_len(I, fr, st, x, sty, site)
                if x.op == 'rec' and x.a[0] in ('SIter', 'PIter'):
                    return self.iter_next(I, fr, st, p, sty, site, True)
                st.env[K] = NONE

                def body(s, item):
                    s.env[K] = some(item)
                    return UNIT
                r = self.loop_iter(I, fr, st, p, sty, body, site)
                return None if r is None else st.env.pop(K)
            if meth == 'sum':
                st.env[K] = c(0)

                def body(s, item):
                    it = item if item.op != 'ref' else I.load(s, item)
                    s.env[K] = arith('uadd', s.env[K], it)
                    return UNIT
                r = self.loop_iter(I, fr, st, p, sty, body, site)
                return None if r is None else st.env.pop(K)
            if meth in ('max', 'min'):
                st.env[K] = rec('tuple', FALSE, c(0))
                ity = self.item_type(I, sty)
                first = self.iter_next(I, fr, st, p, sty, (site, 'first'))
                if first is None:
                    return None

                def rest(s):
                    s.env[K] = pl(first, 'Some', 0)

                    def body(s2, item):
                        o = self.ord_of(I, fr, s2, s2.env[K], item, ity, (site, 'o'), False)
                        if o is None:
                            raise Abandon('ordering of ' + ity)
                        if meth == 'max':
                            s2.env[K] = ite(tagis(o, 'Greater'), s2.env[K], item)
                        else:
                            s2.env[K] = ite(tagis(o, 'Greater'), item, s2.env[K])
                        return UNIT
                    r = self.loop_iter(I, fr, s, p, sty, body, site)
                    return None if r is None else some(s.env[K])
                return I.branch(st, tagis(first, 'Some'), rest, lambda s: NONE)
            if meth in ('reduce', 'max_by', 'min_by', 'max_by_key', 'min_by_key'):
                fp = v[1] if v[1].op == 'ref' else I.new_obj(st, v[1])
                keyed = meth.endswith('key')
                first = self.iter_next(I, fr, st, p, sty, (site, 'first'))
                if first is None:
                    return None

                def rest(s):
                    x0 = pl(first, 'Some', 0)
                    if keyed:
                        k0 = I.apply(s, fp, [I.new_obj(s, x0)], (site, 'k0'))
                        if k0 is None:
                            return None
                        x0 = rec('tuple', x0, k0)
                    s.env[K] = x0

                    def body(s2, item):
                        acc = s2.env[K]
                        if meth == 'reduce':
                            r = I.apply(s2, fp, [acc, item], (site, 'f'))
                            if r is None:
                                return None
                            s2.env[K] = r
                            return UNIT
                        if keyed:
                            k1 = I.apply(s2, fp, [I.new_obj(s2, item)], (site, 'k'))
                            if k1 is None:
                                return None
                            item = rec('tuple', item, k1)
                            o = self.ord_of(I, fr, s2, fld(acc, 1), k1, norm_type(G[0]) if G else '', (site, 'o'), False)
                        else:
                            o = I.apply(s2, fp, [I.new_obj(s2, acc), I.new_obj(s2, item)], (site, 'f'))
                            if o is None:
                                return None
                        if o is None:
                            raise Abandon('ordering of keys')
                        s2.env[K] = ite(tagis(o, 'Greater'), acc, item) if meth.startswith('max') else \
                            ite(tagis(o, 'Greater'), item, acc)
                        return UNIT
                    r = self.loop_iter(I, fr, s, p, sty, body, site)
                    return None if r is None else some(fld(s.env[K], 0) if keyed else s.env[K])
                return I.branch(st, tagis(first, 'Some'), rest, lambda s: NONE)
            if meth == 'collect':
                to = G[0] if G else dty
                e = elem_of_vec(to)
                if head_of(to) == 'Vec' and structured(e):
                    st.env[K] = mk('sempty')

                    def body(s, item):
                        s.env[K] = mk('spush', s.env[K], item)
                        return UNIT
                    r = self.loop_iter(I, fr, st, p, sty, body, site)
                    if r is None:
                        return None
                    q = st.env.pop(K)
                    return rec('SVec', q, mk('slen', q))
                return MISS
            return MISS
        # consumers: by &mut
        if meth in ('all', 'any', 'find', 'find_map', 'position', 'try_fold', 'try_for_each', 'rfind', 'rposition'):
            p = x if x.op == 'ref' else I.new_obj(st, x)
            K = ('V', meth, site)
            back = meth in ('rfind', 'rposition')
            fp = v[-1] if v[-1].op == 'ref' else I.new_obj(st, v[-1])
            if meth in ('all', 'any'):
                want = meth == 'any'

                def body(s, item):
                    return I.apply(s, fp, [item], (site, 'f'))
                r = self.loop_iter(I, fr, st, p, sty, body, site, False,
                                   lambda b: (b if want else not_(b), UNIT))
                if r is None:
                    return None
                return tagis(r, 'Stop') if want else not_(tagis(r, 'Stop'))
            if meth in ('find', 'rfind'):
                def body(s, item):
                    q = I.new_obj(s, item)
                    r = I.apply(s, fp, [q], (site, 'f'))
                    return None if r is None else rec('tuple', r, item)
                r = self.loop_iter(I, fr, st, p, sty, body, site, back, lambda b: (fld(b, 0), fld(b, 1)))
                return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
            if meth == 'find_map':
                def body(s, item):
                    return I.apply(s, fp, [item], (site, 'f'))
                r = self.loop_iter(I, fr, st, p, sty, body, site, False,
                                   lambda b: (tagis(b, 'Some'), pl(b, 'Some', 0)))
                return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
            if meth == 'rposition':
                n = self.iter_len(I, fr, st, p, sty, site)
                if n is None:
                    return MISS
                st.env[K] = n

                def body(s, item):
                    r = I.apply(s, fp, [item], (site, 'f'))
                    if r is None:
                        return None
                    k = arith('sub', s.env[K], c(1))
                    s.env[K] = k
                    return rec('tuple', r, k)
                r = self.loop_iter(I, fr, st, p, sty, body, site, True, lambda b: (fld(b, 0), fld(b, 1)))
                return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
            if meth == 'try_for_each':
                good = {'Option': 'Some', 'Result': 'Ok'}.get(head_of(dty), 'Continue')
                r = self.loop_iter(I, fr, st, p, sty, lambda s, i: I.apply(s, fp, [i], (site, 'f')), site, False,
                                   lambda b: (not_(tagis(b, good)), b))
                if r is None:
                    return None
                return ite(tagis(r, 'Stop'), self.bad(pl(r, 'Stop', 0), head_of(dty)), enum(good, UNIT))
            if meth == 'position':
                st.env[K] = c(0)

                def body(s, item):
                    r = I.apply(s, fp, [item], (site, 'f'))
                    if r is None:
                        return None
                    k = s.env[K]
                    s.env[K] = arith('add', k, c(1))
                    return rec('tuple', r, k)
                r = self.loop_iter(I, fr, st, p, sty, body, site, False, lambda b: (fld(b, 0), fld(b, 1)))
                return None if r is None else ite(tagis(r, 'Stop'), some(pl(r, 'Stop', 0)), NONE)
            if meth == 'try_fold':
                st.env[K] = v[1]
                rt = G[-1] if G else dty
                good, bad = ('Some', 'None') if head_of(dty) == 'Option' else ('Ok', 'Err') \
                    if head_of(dty) == 'Result' else ('Continue', 'Break')

                def body(s, item):
                    r = I.apply(s, fp, [s.env[K], item], (site, 'f'))
                    if r is None:
                        return None
                    s.env[K] = ite(tagis(r, good), pl(r, good, 0), s.env[K])
                    return r
                r = self.loop_iter(I, fr, st, p, sty, body, site, False, lambda b: (not_(tagis(b, good)), b))
                if r is None:
                    return None
                return ite(tagis(r, 'Stop'), self.bad(pl(r, 'Stop', 0), head_of(dty)), enum(good, st.env.pop(K)))
        return MISS

    def iter_compare(self, I, fr, st, x, sty, meth, v, G, tys, site):
        ty2 = G[0] if G else (tys[1] if len(tys) > 1 else '')
        y = self.into_iter(I, fr, st, v[1], ty2, site)
        if y is None:
            return None
        p, q = I.new_obj(st, x), I.new_obj(st, y)
        fp = I.new_obj(st, v[2]) if meth.endswith('_by') else None
        ity = self.ref_item(I, fr, sty)
        rel = meth[:-3] if fp is not None else meth
        if rel in ('eq', 'ne'):
            call, th, greater, less, same = 'eq', 'PartialEq', FALSE, FALSE, TRUE
            goes_on = lambda r: r
        elif rel == 'cmp':
            call, th = 'cmp', 'Ord'
            greater, less, same = enum('Greater'), enum('Less'), enum('Equal')
            goes_on = lambda r: tagis(r, 'Equal')
        else:
            call, th = 'partial_cmp', 'PartialOrd'
            greater, less, same = some(enum('Greater')), some(enum('Less')), some(enum('Equal'))
            goes_on = lambda r: and_(tagis(r, 'Some'), tagis(pl(r, 'Some', 0), 'Equal'))

        def body(s, item):
            z = self.iter_next(I, fr, s, q, ty2, (site, 'other'))
            if z is None:
                return None

            def both(s2):
                w = pl(z, 'Some', 0)
                if fp is not None:
                    r = I.apply(s2, fp, [item, w], (site, 'by'))
                else:
                    if not ity:
                        raise Abandon('item type of ' + sty)
                    r = self.compare(I, fr, s2, ity, th, call, [item, w], (site, 'by'), [])
                if r is MISS:
                    raise Abandon('comparison of ' + ity)
                return None if r is None else rec('tuple', not_(goes_on(r)), r)
            return I.branch(s, tagis(z, 'Some'), both, lambda s2: rec('tuple', TRUE, greater))
        r = self.loop_iter(I, fr, st, p, sty, body, site, False, lambda b: (fld(b, 0), fld(b, 1)))
        if r is None:
            return None

        def end(s):
            z = self.iter_next(I, fr, s, q, ty2, (site, 'end'))
            return None if z is None else ite(tagis(z, 'Some'), less, same)
        o = I.branch(st, tagis(r, 'Stop'), lambda s: pl(r, 'Stop', 0), end)
        if o is None:
            return None
        if rel == 'ne':
            return not_(o)
        if rel in ('lt', 'le', 'gt', 'ge'):
            z = pl(o, 'Some', 0)
            k = {'lt': tagis(z, 'Less'), 'gt': tagis(z, 'Greater'), 'le': not_(tagis(z, 'Greater')),
                 'ge': not_(tagis(z, 'Less'))}[rel]
            return and_(tagis(o, 'Some'), k)
        return o

    def ref_item(self, I, fr, sty):
        """the item type of an iterator type, '' when unknown"""
        h = head_of(sty)
        if I.idx.local_type(h):
            f, sub = I.find(fr, sty, 'Iterator', 'next')
            if f is not None and head_of(f.ret) == 'Option':
                return I.res(type_args(norm_type(f.ret))[0], sub)
            return ''
        a = type_args(sty)
        if h in ('Rev', 'Skip', 'Take', 'StepBy', 'Fuse', 'Inspect', 'Filter', 'Peekable') and a:
            return self.ref_item(I, fr, a[0])
        if h in ('Iter', 'IterMut') and a:
            return '&' + a[-1]
        if h in ('Copied', 'Cloned') and a:
            return deref_ty(self.ref_item(I, fr, a[0]))
        return ''

    def item_type(self, I, sty):
        m = re.match(r'(?:Map|core::iter::Map)<.*->\s*(\w+)', sty)
        if m:
            return m.group(1)
        if head_of(sty) == 'Map':
            m = re.search(r'fn\([^)]*\) -> (\w+)', sty)
            if m:
                return m.group(1)
        if head_of(sty) in ('Copied', 'Cloned'):
            return deref_ty(self.item_type(I, type_args(sty)[0]))
        return sty

    def advance(self, I, fr, st, p, ty, n, site):
        v = I.load(st, p)
        if v.op == 'rec' and v.a[0] in ('SIter', 'VIter'):
            rem = arith('sub', v.a[3], v.a[2])
            I.store(st, I.padd(p, ('f', 1)), arith('add', v.a[2], imin(rem, n)))
            return UNIT
        if v.op == 'rec' and v.a[0] == 'PIter':
            k = imin(v.a[2], n)
            I.store(st, I.padd(p, ('f', 0)), self.offset(I, v.a[1], k, v.a[3]))
            I.store(st, I.padd(p, ('f', 1)), arith('sub', v.a[2], k))
            return UNIT
        if v.op == 'rec' and v.a[0] == 'Range':
            rem = arith('ssub', v.a[2], v.a[1])
            I.store(st, I.padd(p, ('f', 0)), arith('add', v.a[1], imin(rem, n)))
            return UNIT
        return None

    def nth(self, I, fr, st, p, ty, n, back, site):
        v = I.load(st, p) if p.op == 'ref' else p
        if v.op == 'rec' and v.a[0] in ('SIter', 'PIter', 'Range', 'VIter'):
            if not back:
                self.advance(I, fr, st, p, ty, n, site)
                return self.iter_next(I, fr, st, p, ty, site)
            if v.a[0] == 'PIter':
                k = imin(v.a[2], n)
                I.store(st, I.padd(p, ('f', 1)), arith('sub', v.a[2], k))
            else:
                il = 0 if v.a[0] == 'Range' else 1
                lo, hi = v.a[1 + il], v.a[2 + il]
                I.store(st, I.padd(p, ('f', il + 1)), arith('sub', hi, imin(arith('ssub', hi, lo), n)))
            return self.iter_next(I, fr, st, p, ty, site, True)
        # generic: step n times, then once more
        K = ('V', 'nth', site)
        st.env[K] = c(0)

        def run(s):
            k = s.env[K]
            done = s.copy()
            done.g = and_(s.g, not_(lt(k, n)))
            s.g = and_(s.g, lt(k, n))
            out = [('done', done)]
            if s.dead:
                return None, out
            x = self.iter_next(I, fr, s, p, ty, (site, 'n'), back)
            if x is None or s.dead:
                return None, out
            cond = tagis(x, 'Some')
            ex = s.copy()
            ex.g = and_(s.g, not_(cond))
            if not ex.dead:
                out.append(('none', ex))
            s.g = and_(s.g, cond)
            s.env[K] = arith('add', k, c(1))
            return s, out
        exits = I.loopify(st, run, 'nth')
        R = ('V', 'nthr', site)
        d = merge([s for k, s in exits if k == 'done'])
        e = merge([s for k, s in exits if k == 'none'])
        if d is not None:
            x = self.iter_next(I, fr, d, p, ty, (site, 'l'), back)
            if x is None:
                d.g = FALSE
            else:
                d.env[R] = x
        if e is not None:
            e.env[R] = NONE
        m = merge([x for x in (d, e) if x is not None])
        if m is None:
            kill(st)
            return None
        st.g, st.env = m.g, m.env
        st.env.pop(K, None)
        return st.env.pop(R)

    # -- assorted std types
    def types(self, I, fr, st, h, sty, th, meth, G, v, tys, dty, site):
        a = type_args(sty) if sty else []
        x = v[0] if v else None
        if h == 'Layout':
            return self.layout(I, st, meth, G, v, tys, site)
        if h == 'ManuallyDrop':
            if meth == 'new':
                return rec('ManuallyDrop', x)
            if meth in ('deref', 'deref_mut'):
                return self.inner0(I, x)
            if meth == 'take':
                return self.place_read(I, st, self.inner0(I, x), a[0])
            if meth == 'into_inner':
                return fld(x, 0)
            if meth == 'drop':
                q = self.inner0(I, x)
                I.drop_ptr(st, q, a[0], site)
                return None if st.dead else UNIT
        if h == 'MaybeUninit':
            if meth == 'uninit':
                return rec('MaybeUninit', mk('uninit'))
            if meth == 'new':
                return rec('MaybeUninit', x)
            if meth in ('as_mut_ptr', 'as_ptr', 'assume_init_ref', 'assume_init_mut'):
                return self.inner0(I, x)
            if meth == 'assume_init':
                return fld(x, 0)
            if meth == 'write':
                q = self.inner0(I, x)
                self.place_write(I, st, q, v[1], a[0])
                return q
            if meth == 'assume_init_read':
                return self.place_read(I, st, self.inner0(I, x), a[0])
            if meth == 'assume_init_drop':
                I.drop_ptr(st, self.inner0(I, x), a[0], site)
                return None if st.dead else UNIT
        if h in ('Cell', 'UnsafeCell'):
            if meth == 'new':
                return rec('Cell', x)
            if meth in ('as_ptr', 'get_mut') or (meth == 'get' and h == 'UnsafeCell'):
                return self.inner0(I, x)
            if meth == 'get':
                return self.place_read(I, st, self.inner0(I, x), a[0])
            if meth == 'set':
                self.place_write(I, st, self.inner0(I, x), v[1], a[0])
                return UNIT
            if meth == 'into_inner':
                return fld(x, 0)
            if meth == 'replace':
                q = self.inner0(I, x)
                o = self.place_read(I, st, q, a[0])
                self.place_write(I, st, q, v[1], a[0])
                return o
        if h == 'NonNull':
            if meth in ('as_ref', 'as_mut', 'clone') and x.op in ('ref', 'ite', 'lx'):
                return I.load(st, x)
            if meth in ('as_ptr', 'new_unchecked', 'as_ref', 'as_mut', 'from', 'from_ref', 'from_mut', 'clone',
                        'from_box'):
                if meth == 'new_unchecked':
                    self.ub_if(I, st, self.is_null(x), 'NonNull::new_unchecked of null')
                return x
            if meth == 'new':
                return ite(self.is_null(x), NONE, some(x))
            if meth == 'cast':
                return I.ptr_cast(x, '*mut ' + a[0], '*mut ' + G[0])
            if meth == 'dangling':
                return I.align_node(a[0])
            if meth == 'without_provenance':
                return x
            if meth in ('len',):
                return self.ptr_meta(I, x)
            if meth in ('from_raw_parts', 'slice_from_raw_parts'):
                if I.is_wide_pointee(a[0]) or meth.startswith('slice'):
                    return rec('wide', self.thin(x), v[1])
                return x
            if meth in ('add', 'byte_add', 'sub', 'byte_sub', 'offset', 'write', 'read', 'copy_to', 'copy_from', 'addr',
                        'copy_to_nonoverlapping', 'copy_from_nonoverlapping', 'drop_in_place', 'to_raw_parts', 'is_aligned'):
                return self.rawptr(I, fr, st, '*mut ' + a[0], meth, G, v, tys, dty, site)
            if meth in ('as_mut_ptr', 'as_non_null_ptr'):
                return self.thin(x)
            if meth in ('eq', 'ne'):
                r = eq(I.load(st, v[0]), I.load(st, v[1]))
                return r if meth == 'eq' else not_(r)
        if h == 'NonZero':
            if meth in ('new_unchecked', 'get'):
                if meth == 'new_unchecked':
                    self.ub_if(I, st, eq(x, c(0)), 'NonZero::new_unchecked(0)')
                return x
            if meth == 'new':
                return ite(eq(x, c(0)), NONE, some(x))
            if meth == 'is_power_of_two':
                return t.ispow2(x)
            if meth in ('trailing_zeros', 'leading_zeros', 'ilog2'):
                return mk(meth, x)
            if meth == 'hash':
                self.log(st, 'hash', I.load(st, x))
                return UNIT
            if meth in ('clone', 'fmt'):
                return MISS
        if h == 'Global':
            return self.global_(I, st, meth, v)
        if h == 'Box':
            return self.box(I, fr, st, sty, th, meth, G, v, tys, dty, site)
        if h in ('Rc', 'Arc'):
            if meth in ('new',):
                return rec(h, x)
            if meth in ('from',):
                return rec(h, x)
        if h == 'Pin':
            if meth in ('new_unchecked', 'into_inner', 'into_inner_unchecked', 'new'):
                return rec('Pin', x) if meth.startswith('new') else fld(x, 0)
            if meth in ('as_ref', 'as_mut', 'get_mut', 'get_ref', 'get_unchecked_mut'):
                return MISS
        if h in ('Arguments', 'Argument'):
            return rec('fmt', *[UNIT])
        if h in ('Formatter', 'DebugList', 'DebugStruct', 'DebugTuple', 'DebugSet'):
            return self.fmt(I, fr, st, h, meth, G, v, tys, site)
        if h == 'TryReserveError' and meth == 'kind' or (meth == 'kind' and x is not None):
            y = I.load(st, x) if x.op == 'ref' else x
            if y.op == 'rec' and y.a[0] == 'StdTryReserveError':
                return fld(y, 0)
        if h in ('Range', 'RangeInclusive') and meth in ('contains', 'is_empty', 'start', 'end', 'clone', 'new'):
            if h == 'Range' and meth == 'contains':
                y = I.load(st, x)
                z = I.load(st, v[1]) if v[1].op == 'ref' else v[1]
                return and_(le(fld(y, 0), z), lt(z, fld(y, 1)))
            if h == 'RangeInclusive' and meth == 'new':
                # a..=b is a..b+1 (no loop gets to the largest number)
                return rec('Range', x, arith('add', v[1], c(1)))
            return MISS
        if h == 'PhantomData':
            return UNIT
        return MISS

    def layout(self, I, st, meth, G, v, tys, site):
        x = v[0] if v else None
        if meth == 'new':
            return rec('Layout', I.size_node(G[0]), I.align_node(G[0]))
        if meth in ('for_value', 'for_value_raw'):
            ty = G[0]
            return rec('Layout', self.szval(I, x, ty), self.alval(I, x, ty))
        if meth in ('size', 'align'):
            y = I.load(st, x) if x.op == 'ref' else x
            return fld(y, 0 if meth == 'size' else 1)
        bad = None
        if meth in ('from_size_align_unchecked', 'from_size_align'):
            s, al = v[0], v[1]
            badc = mk('badlayout', s, al)
            r = rec('Layout', s, al)
            if meth.endswith('unchecked'):
                self.ub_if(I, st, badc, 'Layout::from_size_align_unchecked with an invalid layout')
                return r
            return ite(badc, enum('Err', rec('LayoutError')), enum('Ok', r))
        if meth == 'array':
            n = arith('umul', v[0], I.size_node(G[0]))
            badc = or_(t.ispois(n), mk('badlayout', n, I.align_node(G[0])))
            return ite(badc, enum('Err', rec('LayoutError')), enum('Ok', rec('Layout', n, I.align_node(G[0]))))
        y = I.load(st, x) if x is not None and x.op == 'ref' else x
        if meth == 'pad_to_align':
            s, al = fld(y, 0), fld(y, 1)
            return rec('Layout', arith('umul', arith('divceil', s, al), al), al)
        if meth == 'padding_needed_for':
            s = fld(y, 0)
            return arith('sub', arith('umul', arith('divceil', s, v[1]), v[1]), s)
        if meth in ('dangling', 'dangling_ptr'):
            return fld(y, 1)
        if meth in ('eq', 'ne'):
            z = I.load(st, v[1]) if v[1].op == 'ref' else v[1]
            r = eq(y, z)
            return r if meth == 'eq' else not_(r)
        if meth == 'clone':
            return y
        if meth == 'align_to':
            s, al = fld(y, 0), imax(fld(y, 1), v[1])
            badc = mk('badlayout', s, al)
            return ite(badc, enum('Err', rec('LayoutError')), enum('Ok', rec('Layout', s, al)))
        if meth == 'fmt':
            return MISS
        return MISS

    def global_(self, I, st, meth, v):
        """impl Allocator for Global"""
        if meth in ('allocate', 'allocate_zeroed'):
            sz, al = fld(v[1], 0), fld(v[1], 1)
            z = eq(sz, c(0))
            m = self.mem(st)
            ok = mk('allocok', I.nd('alloc'), sz)
            self.setmem(st, ite(z, m, ite(ok, mk('malloc', m, sz, al), mk('mlog', m, 'allocfail', sz, al))))
            return ite(z, enum('Ok', rec('wide', al, c(0))),
                       ite(ok, enum('Ok', rec('wide', mk('naddr', m, sz, al), sz)), enum('Err', rec('AllocErr'))))
        if meth == 'deallocate':
            sz, al = fld(v[2], 0), fld(v[2], 1)
            self.setmem(st, mk('mfreez', self.mem(st), self.thin(v[1]), sz, al))
            return UNIT
        if meth in ('grow', 'shrink', 'grow_zeroed'):
            p, o, n = self.thin(v[1]), v[2], v[3]
            os, oa, ns, na = fld(o, 0), fld(o, 1), fld(n, 0), fld(n, 1)
            if meth.startswith('grow'):
                self.ub_if(I, st, lt(ns, os), 'Allocator::grow to a smaller size')
            else:
                self.ub_if(I, st, lt(os, ns), 'Allocator::shrink to a larger size')
            m = self.mem(st)
            ok = or_(eq(ns, c(0)), mk('allocok', I.nd('alloc'), ns))
            zo, zn = eq(os, c(0)), eq(ns, c(0))
            done = ite(zo, ite(zn, m, mk('malloc', m, ns, na)),
                       ite(zn, mk('mfree', m, p, os, oa), mk('mrealloc', m, p, os, oa, ns, na)))
            addr = ite(zn, na, ite(zo, mk('naddr', m, ns, na), mk('raddr', m, p, os, oa, ns, na)))
            self.setmem(st, ite(ok, done, mk('mlog', m, 'allocfail', ns, na)))
            return ite(ok, enum('Ok', rec('wide', addr, ns)), enum('Err', rec('AllocErr')))
        if meth in ('by_ref',):
            return v[0]
        return MISS

    def box(self, I, fr, st, sty, th, meth, G, v, tys, dty, site):
        a = type_args(sty)
        T = a[0] if a else ''
        x = v[0] if v else None
        if meth in ('into_raw', 'leak', 'into_non_null', 'into_raw_with_allocator'):
            return x
        if meth in ('from_raw', 'from_non_null'):
            return x
        if meth == 'from_raw_in':
            return x if self.global_like(v[1], a) else rec('Box', x, v[1])
        if meth == 'new_in':
            if not T or len(a) < 2 or 'Global' in a[1]:
                return MISS
            # the place is what the allocator of the crate hands out
            f, sub = I.find(fr, a[1], 'Allocator', 'allocate')
            if f is None:
                return MISS
            own = I.new_obj(st, v[1], 'alloc')
            r = I.run_fn(f, [own, rec('Layout', I.size_node(T), I.align_node(T))], st, sub, (site, 'allocate'))
            if r is None:
                return None
            I.fork_abort(st, tagis(r, 'Err'))
            if st.dead:
                return None
            p = self.thin(pl(r, 'Ok', 0))
            if self.ptr_write(I, st, p, x, T) is None:
                return None
            return rec('Box', p, v[1])
        if meth == 'new':
            sz, al = I.size_node(T), I.align_node(T)
            p = self.alloc0(I, st, sz, al)
            if st.dead:
                return None
            self.setmem(st, mk('mput', self.mem(st), p, x, sz))
            return p
        if meth in ('into_pin', 'pin'):
            if meth == 'pin':
                r = self.box(I, fr, st, sty, th, 'new', G, v, tys, dty, site)
                return None if r is None else rec('Pin', r)
            return rec('Pin', x)
        if meth in ('as_ptr', 'as_mut_ptr'):
            y = I.load(st, x) if x.op == 'ref' else x
            return y
        if meth in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut'):
            y = I.load(st, x) if x.op == 'ref' else x
            if y.op == 'rec' and y.a[0] == 'Box':
                return fld(y, 0)
            return y
        if th == 'Into' and meth == 'into':
            if head_of(dty) in ('Rc', 'Arc'):
                return rec(head_of(dty), rec('frombox', x))
            if head_of(dty) == 'Pin':
                return rec('Pin', x)
            if head_of(dty) == 'Vec':
                return rec('Vec', self.thin(x), self.ptr_meta(I, x), self.ptr_meta(I, x))
        if meth == 'drop' and th == 'Drop':
            return self.box_dealloc(I, st, x, sty)
        if meth == 'new_uninit':
            return MISS
        return MISS

    def box_dealloc(self, I, st, p, sty):
        a = type_args(sty)
        v = I.load(st, p) if p.op == 'ref' else p
        if v.op == 'rec' and v.a[0] == 'Box':
            return UNIT          # allocator that does nothing
        if len(a) > 1 and 'Global' not in a[1]:
            return UNIT
        T = a[0]
        self.setmem(st, mk('mfreez', self.mem(st), self.thin(v), self.szval(I, v, T), self.alval(I, v, T)))
        return UNIT

    def global_like(self, al, a):
        return len(a) < 2 or 'Global' in a[1]

    def fmt(self, I, fr, st, h, meth, G, v, tys, site):
        x = v[0]
        if meth == 'debug_list':
            self.log(st, 'debug_list')
            return rec('fmt', x)
        if meth == 'entries':
            ity = G[1] if len(G) > 1 else (tys[1] if len(tys) > 1 else '')
            it = self.into_iter(I, fr, st, v[1], ity, site)
            if it is None:
                return None
            p = I.new_obj(st, it)

            def body(s, item):
                self.log(s, 'entry', item)
                return UNIT
            r = self.loop_iter(I, fr, st, p, ity, body, site)
            return None if r is None else x
        if meth == 'entry':
            y = v[1]
            if y.op == 'ref':
                y = I.load(st, y)
            self.log(st, 'entry', y)
            return x
        if meth == 'finish':
            self.log(st, 'finish')
            return enum('Ok', UNIT)
        if meth in ('write_fmt', 'write_str', 'pad'):
            self.log(st, 'write')
            return enum('Ok', UNIT)
        if meth.startswith('debug_'):
            self.log(st, meth)
            return enum('Ok', UNIT) if meth.endswith('finish') else rec('fmt', x)
        return MISS

    def default(self, I, ty):
        h = head_of(ty)
        if h == 'Option':
            return NONE
        if h == 'Vec':
            e = elem_of_vec(ty)
            if structured(e):
                return rec('SVec', mk('sempty'), c(0))
            return rec('Vec', I.align_node(e), ite(eq(I.size_node(e), c(0)), USIZE_MAX, c(0)), c(0))
        if ty in self.INT:
            return c(0)
        if ty == 'bool':
            return FALSE
        if h == 'PhantomData' or ty == '()':
            return UNIT
        return None

    # -- traits of type parameters, Into/From/Clone/Deref on plain values
    def generic_trait(self, I, fr, st, h, sty, th, meth, G, v, tys, dty, site):
        x = v[0] if v else None
        if th in ('Into', 'From') and meth in ('into', 'from') and dty:
            src = sty if th == 'Into' else (tys[0] if tys else '')
            if src == dty or not src:
                return x
            # the crate's From impl
            f, sub = I.find(fr, dty, 'From<%s>' % src, 'from')
            if f is not None:
                return I.run_fn(f, [x], st, sub, (site, 'from'))
            if th == 'Into' and src == 'bool' and dty in self.INT:
                return ite(x, c(1), c(0))
            hd = I.foreign.get('INTO')
            if hd:
                return hd(I, st, x, src, dty, site)
        if th == 'Clone' and meth == 'clone':
            y = I.load(st, x) if x.op == 'ref' else None
            if sty in self.INT or sty in ('bool', '()') or sty.startswith(('&', '*')) or h in I.idx.enums \
                    or h in ('PhantomData', 'Layout', 'TryReserveErrorKind'):
                return y if y is not None else x
        if th == 'Default' and meth == 'default':
            d = self.default(I, sty)
            if d is not None:
                return d
        if th in ('AsRef', 'Borrow', 'AsMut', 'BorrowMut') and meth in ('as_ref', 'borrow', 'as_mut', 'borrow_mut'):
            return x
        hd = I.foreign.get('TRAIT')
        if hd is not None:
            r = hd(I, fr, st, sty, th, meth, G, v, tys, dty, site)
            if r is not None or st.dead:
                return r
        return MISS
