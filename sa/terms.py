"""Hash-consed terms: the nodes of the gated value graph.

A node is (op, args).  Every program value that the analysis tracks is a node; two occurrences
of the same node are the same value (global value numbering by hash-consing), and control-flow
joins are `ite` gates, loop-carried values are `mu` nodes and values leaving a loop are `lx`
nodes.  Nothing here depends on concrete inputs.
"""

_table = {}
_next = [0]
LOOPS = {}
NOMUS = frozenset()


class Node:
    __slots__ = ('op', 'a', 'id', 'mus', 'unk', 'aux')

    def __repr__(self):
        return show(self, 6)


def mk(op, *a):
    key = (op,) + a
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.a = op, a
        _next[0] += 1
        n.id = _next[0]
        mus = NOMUS
        for x in a:
            if isinstance(x, Node):
                if x.mus:
                    mus = mus | x.mus if mus else x.mus
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Node) and y.mus:
                        mus = mus | y.mus
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Node) and z.mus:
                                mus = mus | z.mus
        if op in ('mu', 'it'):
            mus = mus | frozenset((a[0],))
            if op == 'mu' and a[0] in LOOPS:
                mus = mus | LOOPS[a[0]].outer      # its initial and step values may vary with the outer loops
        n.mus = mus
        n.aux = None
        n.unk = False
        _table[key] = n
    return n


def c(v):
    if v is True or v is False:
        return mk('b', v)
    return mk('c', v)


TRUE = c(True)
FALSE = c(False)
UNIT = mk('rec', 'tuple')
POISON = mk('poison')


def unk(why):
    return mk('unk', why)


def atom(name, *deps):
    return mk('atom', name, *deps)


def isc(n):
    return n.op in ('c', 'b')


def cv(n):
    return n.a[0]


def rec(ctor, *fields):
    return mk('rec', ctor, *fields)


def enum(variant, *fields):
    return mk('enum', variant, *fields)


def some(x):
    return enum('Some', x)


NONE = enum('None')


# ------------------------------------------------------------------ booleans

def not_(x):
    if x.op == 'b':
        return c(not x.a[0])
    if x.op == 'not':
        return x.a[0]
    if x.op == 'ite':
        p, q, r = x.a
        if q.op == 'b' or r.op == 'b':
            return ite(p, not_(q), not_(r))
    return mk('not', x)


def _conj(x):
    """The set of conjuncts of x."""
    if x.op == 'and':
        return x.aux
    return frozenset((x,))


def and_(x, y):
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is FALSE or y is FALSE:
        return FALSE
    if x is y:
        return x
    s = _conj(x) | _conj(y)
    for e in s:
        if not_(e) in s:
            return FALSE
    return _mkand(s)


def _mkand(s):
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    l = tuple(sorted(s, key=lambda n: n.id))
    n = mk('and', *l)
    n.aux = frozenset(s)
    return n


def or_(x, y):
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    if x is TRUE or y is TRUE:
        return TRUE
    if x is y:
        return x
    if not_(x) is y:
        return TRUE
    cx, cy = _conj(x), _conj(y)
    if cx <= cy:
        return x
    if cy <= cx:
        return y
    # (g & c) | (g & !c) = g ; factor the common conjuncts
    common = cx & cy
    rx, ry = cx - common, cy - common
    if len(rx) == 1 and len(ry) == 1:
        a, b = next(iter(rx)), next(iter(ry))
        if not_(a) is b:
            return _mkand(common)
    if len(rx) == 1:
        a = next(iter(rx))
        if not_(a) in ry:       # c | (!c & r) = c | r
            return or_(x, _mkand(cy - {not_(a)}))
    if len(ry) == 1:
        b = next(iter(ry))
        if not_(b) in rx:
            return or_(_mkand(cx - {not_(b)}), y)
    if common:
        return and_(_mkand(common), or_(_mkand(rx), _mkand(ry)))
    # flatten
    s = (x.aux if x.op == 'or' else frozenset((x,))) | (y.aux if y.op == 'or' else frozenset((y,)))
    # pairwise simplification with members
    for e in s:
        if not_(e) in s:
            return TRUE
    if x.op == 'or' or y.op == 'or':
        big, small = (x, y) if x.op == 'or' else (y, x)
        if small.op != 'or':
            for e in big.aux:
                r = or_(e, small)
                if not (r.op == 'or' and r.aux == frozenset((e, small))):
                    rest = big.aux - {e}
                    acc = r
                    for z in sorted(rest, key=lambda n: n.id):
                        acc = or_(acc, z)
                    return acc
    l = tuple(sorted(s, key=lambda n: n.id))
    n = mk('or', *l)
    n.aux = s
    return n


def ite(p, x, y):
    if p is TRUE:
        return x
    if p is FALSE:
        return y
    if x is y:
        return x
    if p.op == 'not':
        return ite(p.a[0], y, x)
    if x is TRUE and y is FALSE:
        return p
    if x is FALSE and y is TRUE:
        return not_(p)
    if x is POISON:
        return y
    if y is POISON:
        return x
    if x.op == 'rec' and y.op == 'rec' and x.a[0] == y.a[0] and len(x.a) == len(y.a):
        return mk('rec', x.a[0], *[ite(p, u, v) for u, v in zip(x.a[1:], y.a[1:])])
    if x.op == 'enum' and y.op == 'enum' and x.a[0] == y.a[0] and len(x.a) == len(y.a):
        return mk('enum', x.a[0], *[ite(p, u, v) for u, v in zip(x.a[1:], y.a[1:])])
    if x.op == 'ite' and x.a[0] is p:
        return ite(p, x.a[1], y)
    if y.op == 'ite' and y.a[0] is p:
        return ite(p, x, y.a[2])
    if y.op == 'ite' and y.a[1] is x:
        return ite(or_(p, y.a[0]), x, y.a[2])
    if x.op == 'ite' and x.a[2] is y:
        return ite(and_(p, x.a[0]), x.a[1], y)
    if x is TRUE and _boolish(y):
        return or_(p, y)
    if y is FALSE and _boolish(x):
        return and_(p, x)
    if x is FALSE and _boolish(y):
        return and_(not_(p), y)
    if y is TRUE and _boolish(x):
        return or_(not_(p), x)
    return mk('ite', p, x, y)


BOOLOPS = {'b', 'not', 'and', 'or', 'lt', 'eq', 'tagis', 'slt', 'ndrop'}


def _boolish(x):
    return x.op in BOOLOPS


# ------------------------------------------------------------------ comparisons

def eq(x, y):
    if x is y and x.op not in ('unk', 'poison'):
        return TRUE
    if isc(x) and isc(y):
        return c(cv(x) == cv(y))
    if x.op == 'b' or y.op == 'b':
        b, o = (x, y) if x.op == 'b' else (y, x)
        return o if cv(b) else not_(o)
    if x.op == 'ite' and isc(y):
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == 'ite' and isc(x):
        return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
    if x.op == 'rec' and y.op == 'rec' and len(x.a) == len(y.a):
        r = TRUE
        for u, v in zip(x.a[1:], y.a[1:]):
            r = and_(r, eq(u, v))
        return r
    if x.id > y.id:
        x, y = y, x
    return mk('eq', x, y)


def lt(x, y):
    if x is y:
        return FALSE
    if isc(x) and isc(y) and isinstance(cv(x), int) and isinstance(cv(y), int):
        return c(cv(x) < cv(y))
    if y.op == 'c' and y.a[0] == 0:
        return FALSE
    if x.op == 'c' and x.a[0] == 0:
        return not_(eq(y, x))
    if y.op == 'c' and y.a[0] == 1:
        return eq(x, c(0))
    return mk('lt', x, y)


def le(x, y):
    return not_(lt(y, x))


# ------------------------------------------------------------------ arithmetic

M64 = (1 << 64) - 1


# integer types other than the machine word: operations carry the type's name after an `@`
INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'usize': (64, 0), 'u128': (128, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'isize': (64, 1), 'i128': (128, 1)}


def opfor(op, ty):
    """the operation of that integer type (signed values are kept in two's complement)"""
    return op if ty in ('usize', 'u64') or ty not in INTS or op in ('and_', 'or_', 'xor') else '%s@%s' % (op, ty)


def signed(ty):
    return ty in INTS and INTS[ty][1]


def intmax(ty):
    b, s = INTS[ty]
    return (1 << b - s) - 1


def intmin(ty):
    b, s = INTS[ty]
    return 1 << b - 1 if s else 0


def ilt(x, y, ty):
    if signed(ty):
        b = c(1 << INTS[ty][0] - 1)
        return lt(arith('xor', x, b), arith('xor', y, b))
    return lt(x, y)


def intcast(x, src, to):
    """`x as to`"""
    if src not in INTS or to not in INTS:
        return x
    (sb, ss), (tb, _) = INTS[src], INTS[to]
    if tb < sb:
        return arith('and_', x, c((1 << tb) - 1))
    if tb > sb and ss:
        return ite(lt(x, c(1 << sb - 1)), x, arith('or_', x, c((1 << tb) - (1 << sb))))
    return x


def intfits(x, src, to):
    """is the value of `x` one of type `to`?"""
    r = not_(lt(c(intmax(to)), x)) if intmax(to) < (1 << INTS[src][0]) - 1 else TRUE
    if signed(src):
        neg = not_(lt(x, c(1 << INTS[src][0] - 1)))
        low = FALSE
        if signed(to):
            lo = ((1 << INTS[src][0]) - (1 << INTS[to][0] - 1)) if INTS[to][0] < INTS[src][0] else 0
            low = not_(lt(x, c(lo)))
        return ite(neg, low, r)
    return r


def arith(op, x, y):
    if x.op == 'c' and y.op == 'c' and isinstance(cv(x), int) and isinstance(cv(y), int):
        r = ARITH[op](cv(x), cv(y))
        return POISON if r is None else c(r)
    full, op = op, op.split('@')[0]
    if op in ('add', 'uadd', 'or', 'xor', 'sadd') and x.op == 'c' and cv(x) == 0:
        return y
    if op in ('add', 'uadd', 'sub', 'usub', 'or', 'xor', 'shl', 'shr', 'sadd', 'ssub') \
            and y.op == 'c' and cv(y) == 0:
        return x
    if op in ('mul', 'umul'):
        for u, v in ((x, y), (y, x)):
            if u.op == 'c' and cv(u) == 1:
                return v
            if u.op == 'c' and cv(u) == 0:
                return u
    return mk(full, x, y)


def _div(a, b):
    return None if b == 0 else a // b


def _rem(a, b):
    return None if b == 0 else a % b


def _ov(v):
    return v if 0 <= v <= M64 else None


ARITH = {
    'add': lambda a, b: (a + b) & M64,
    'sub': lambda a, b: (a - b) & M64,
    'mul': lambda a, b: (a * b) & M64,
    'uadd': lambda a, b: _ov(a + b),
    'usub': lambda a, b: _ov(a - b),
    'umul': lambda a, b: _ov(a * b),
    'sadd': lambda a, b: min(a + b, M64),
    'ssub': lambda a, b: max(a - b, 0),
    'smul': lambda a, b: min(a * b, M64),
    'div': _div,
    'rem': _rem,
    'and_': lambda a, b: a & b,
    'or_': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: (a << (b & 63)) & M64,
    'shr': lambda a, b: a >> (b & 63),
    'divceil': lambda a, b: None if b == 0 else -(-a // b),
}


def _family(ty):
    bits, sg = INTS[ty]
    m = (1 << bits) - 1
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, m)

    def val(v):
        return v - (1 << bits) if sg and v >> bits - 1 else v

    def ov(v):
        return v & m if lo <= v <= hi else None

    def cl(v):
        return max(lo, min(hi, v)) & m

    def div(a, b):
        a, b = val(a), val(b)
        return None if b == 0 else ov(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))

    def rem(a, b):
        a, b = val(a), val(b)
        return None if b == 0 else (abs(a) % abs(b) * (-1 if a < 0 else 1)) & m
    f = {'add': lambda a, b: (a + b) & m, 'sub': lambda a, b: (a - b) & m, 'mul': lambda a, b: (a * b) & m,
         'uadd': lambda a, b: ov(val(a) + val(b)), 'usub': lambda a, b: ov(val(a) - val(b)),
         'umul': lambda a, b: ov(val(a) * val(b)), 'sadd': lambda a, b: cl(val(a) + val(b)),
         'ssub': lambda a, b: cl(val(a) - val(b)), 'smul': lambda a, b: cl(val(a) * val(b)), 'div': div, 'rem': rem,
         'shl': lambda a, b: (a << (b & bits - 1)) & m, 'shr': lambda a, b: (val(a) >> (b & bits - 1)) & m,
         'divceil': lambda a, b: None if b == 0 or sg else -(-a // b)}
    for k, g in f.items():
        ARITH['%s@%s' % (k, ty)] = g


for _t in INTS:
    if opfor('add', _t) != 'add':
        _family(_t)


def ispois(x):
    if x is POISON:
        return TRUE
    if x.op in ('c', 'b', 'szof', 'alof', 'malign', 'rec', 'enum', 'ref'):
        return FALSE
    if x.op == 'usub' and x.a[1].op == 'c' and x.a[1].a[0] == 1 and x.a[0].op in ('alof', 'malign'):
        return FALSE
    return mk('ispoison', x)


def ispow2(x):
    if x.op == 'c':
        v = x.a[0]
        return c(v != 0 and v & (v - 1) == 0)
    if x.op in ('alof', 'malign'):
        return TRUE
    return mk('is_power_of_two', x)


# ------------------------------------------------------------------ structure

def fld(x, i):
    if x.op == 'rec':
        if 1 + i < len(x.a):
            return x.a[1 + i]
        return unk('field %d of %s' % (i, x.a[0]))
    if x.op == 'ite':
        return ite(x.a[0], fld(x.a[1], i), fld(x.a[2], i))
    if x.op == 'poison':
        return POISON
    if x.op == 'unk':
        return x
    if x.op == 'lx' and x.a[1].op in ('rec', 'ite'):
        return lx(x.a[0], fld(x.a[1], i))
    return mk('fld', x, i)


def setfld(x, i, v):
    if x.op == 'rec':
        if 1 + i < len(x.a):
            l = list(x.a)
            l[1 + i] = v
            return mk('rec', *l)
        return unk('setfield')
    if x.op == 'ite':
        return ite(x.a[0], setfld(x.a[1], i, v), setfld(x.a[2], i, v))
    return unk('setfield of ' + x.op)


def tagis(x, v):
    if x.op == 'enum':
        return c(x.a[0] == v)
    if x.op == 'ite':
        return ite(x.a[0], tagis(x.a[1], v), tagis(x.a[2], v))
    if x.op == 'lx' and x.a[1].op in ('enum', 'ite'):
        return lx(x.a[0], tagis(x.a[1], v))
    if x.op == 'poison':
        return POISON
    if x.op == 'unk':
        return x
    return mk('tagis', x, v)


def pl(x, v, i):
    """payload i of variant v"""
    if x.op == 'enum':
        if x.a[0] == v and 1 + i < len(x.a):
            return x.a[1 + i]
        return POISON
    if x.op == 'ite':
        return ite(x.a[0], pl(x.a[1], v, i), pl(x.a[2], v, i))
    if x.op == 'lx' and x.a[1].op in ('enum', 'ite'):
        return lx(x.a[0], pl(x.a[1], v, i))
    if x.op in ('poison', 'unk'):
        return x
    return mk('pl', x, v, i)


def setpl(x, v, i, val):
    if x.op == 'enum':
        if x.a[0] == v and 1 + i < len(x.a):
            l = list(x.a)
            l[1 + i] = val
            return mk('enum', *l)
        return POISON
    if x.op == 'ite':
        return ite(x.a[0], setpl(x.a[1], v, i, val), setpl(x.a[2], v, i, val))
    return unk('setpl')


def ref(root, path=()):
    return mk('ref', root, tuple(path))


# sequences -----------------------------------------------------------------

def slen(s):
    if s.op == 'sempty':
        return c(0)
    if s.op in ('spush', 'sins'):
        return arith('add', slen(s.a[0]), c(1))
    if s.op == 'srem':
        return arith('sub', slen(s.a[0]), c(1))
    if s.op in ('supd', 'sraw', 'scopy'):
        return slen(s.a[0])
    if s.op == 'stake':
        return s.a[1]
    if s.op == 'ite':
        return ite(s.a[0], slen(s.a[1]), slen(s.a[2]))
    if s.op == 'unk':
        return s
    return mk('slen', s)


def sget(s, i):
    if s.op == 'spush':
        n = slen(s.a[0])
        e = eq(i, n)
        if e is TRUE:
            return s.a[1]
    if s.op == 'supd':
        e = eq(i, s.a[1])
        if e is TRUE:
            return s.a[2]
        if e is FALSE:
            return sget(s.a[0], i)
    if s.op == 'ite':
        return ite(s.a[0], sget(s.a[1], i), sget(s.a[2], i))
    if s.op == 'unk':
        return s
    return mk('sget', s, i)


def supd(s, i, v):
    if s.op == 'unk':
        return s
    if s.op == 'supd' and s.a[1] is i:
        return supd(s.a[0], i, v)
    return mk('supd', s, i, v)


# loops ---------------------------------------------------------------------

class Loop:
    """A loop of the value graph: carried leaves with initial values, step values and the
    condition under which another iteration follows."""
    __slots__ = ('id', 'mus', 'init', 'step', 'back', 'exits', 'where', 'outer')


def lx(lid, v):
    """The value of v in the last iteration of loop lid."""
    if lid not in v.mus:
        return v
    if v.op == 'rec':
        return mk('rec', v.a[0], *[lx(lid, x) for x in v.a[1:]])
    if v.op == 'enum':
        return mk('enum', v.a[0], *[lx(lid, x) for x in v.a[1:]])
    if v.op == 'ref':
        return mk('ref', v.a[0], tuple(tuple(lx(lid, y) if isinstance(y, Node) else y for y in el)
                                       for el in v.a[1]))
    if v.op == 'ite' and v.a[1].op in ('rec', 'enum', 'ref', 'ite', 'wide') \
            and v.a[2].op in ('rec', 'enum', 'ref', 'ite', 'wide'):
        return ite(lx(lid, v.a[0]), lx(lid, v.a[1]), lx(lid, v.a[2]))
    n = mk('lx', lid, v)
    m = v.mus - {lid}
    lp = LOOPS.get(lid)
    if lp is not None:
        m = m | lp.outer
    n.mus = frozenset(m)
    return n


# ------------------------------------------------------------------ printing

def show(n, depth=5):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x, depth) for x in n) + ')'
        return str(n)
    if n.op in ('c', 'b'):
        return str(n.a[0])
    if n.op == 'atom' and len(n.a) == 1:
        return str(n.a[0])
    if depth <= 0:
        return '..'
    if n.op == 'rec':
        return '%s{%s}' % (n.a[0], ', '.join(show(x, depth - 1) for x in n.a[1:]))
    if n.op == 'enum':
        return '%s(%s)' % (n.a[0], ', '.join(show(x, depth - 1) for x in n.a[1:]))
    if n.op == 'fld':
        return '%s.%d' % (show(n.a[0], depth), n.a[1])
    inf = {'add': '+', 'sub': '-', 'uadd': '+u', 'usub': '-u', 'mul': '*', 'umul': '*u', 'eq': '==',
           'lt': '<', 'and_': '&', 'shl': '<<', 'shr': '>>'}
    if n.op in inf:
        return '(%s %s %s)' % (show(n.a[0], depth - 1), inf[n.op], show(n.a[1], depth - 1))
    return '%s(%s)' % (n.op, ', '.join(show(x, depth - 1) for x in n.a))


def reset():
    """Forget all terms (used between independent analyses to bound memory)."""
    global TRUE, FALSE
    keep = [TRUE, FALSE, UNIT, POISON, NONE]
    _table.clear()
    LOOPS.clear()
    for n in keep:
        _table[(n.op,) + n.a] = n
