"""Parser for rustc's textual MIR (-Zunpretty=mir)."""
import re

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


class ParseError(Exception):
    pass


def skip_str(s, i):
    """s[i] is a double quote; return index after the closing quote."""
    i += 1
    while i < len(s):
        if s[i] == '\\':
            i += 2
            continue
        if s[i] == '"':
            return i + 1
        i += 1
    return i


def match_close(s, i):
    """s[i] opens a bracket; return the index of the matching close."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c == '=' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ParseError('unbalanced: ' + s[:200])


def split_top(s, sep=','):
    """Split at top level, outside all brackets and strings."""
    out, depth, start, i, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[start:i].strip())
            i += len(sep)
            start = i
            continue
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


# ---------------------------------------------------------------- types

_lt = re.compile(r"'(?:\w+)\b")


def norm_type(t):
    """Drop lifetimes and module paths, so that a type has one spelling."""
    t = t.strip()
    t = re.sub(r"for<[^<>]*> ?", '', t)
    t = re.sub(r"&'\w+ ", '&', t)
    t = re.sub(r" \+ '\w+", '', t)
    t = re.sub(r"<'\w+, ", '<', t)
    t = re.sub(r"<'\w+>", '', t)
    t = re.sub(r", '\w+\b", '', t)
    t = re.sub(r"'\w+, ", '', t)
    # module paths: a::b::C -> C (not after '>')
    t = re.sub(r"(?<![\w>:])(?:::)?(?:[a-z_]\w*::)+(?=[A-Za-z_<{])", '', t)
    t = re.sub(r"::<", '<', t)
    # paths through an impl or a function: keep the last name
    prev = None
    while prev != t:
        prev = t
        t = re.sub(r"(?<![\w>])\w+::(?=[A-Z]\w*)", '', t)
    t = t.replace('(dyn ', 'dyn ').replace('\n', ' ')
    return t


def head_of(t):
    """Leading name of a (normalised) type: `&mut A<B>` -> `A`."""
    t = norm_type(t)
    while True:
        t = t.strip()
        if t.startswith('&mut '):
            t = t[5:]
        elif t.startswith('&'):
            t = t[1:]
        elif t.startswith('*const '):
            t = t[7:]
        elif t.startswith('*mut '):
            t = t[5:]
        else:
            break
    if t.startswith('['):
        return '[]' if ';' not in t else '[;]'
    if t.startswith('('):
        return '()'
    if t.startswith('<'):
        # qualified path: keep whole
        return t
    m = re.match(r'[\w:]+', t)
    return m.group(0) if m else t


# ---------------------------------------------------------------- AST

class Fn:
    __slots__ = ('name', 'args', 'argtys', 'ret', 'locals', 'blocks', 'debug', 'kind',
                 'text', 'ctfe', 'order', 'src', 'line')

    def __repr__(self):
        return '<fn %s>' % self.name


class Block:
    __slots__ = ('id', 'cleanup', 'stmts', 'term')


def parse_place(s, i=0):
    """Return (place, next index). place = (local, (proj, ...))."""
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        p = (int(m.group(1)), ())
        i = m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            p, j = parse_place(s, i + 2)
            if s[j] != ')':
                raise ParseError('place: ' + s)
            p = (p[0], p[1] + (('*',),))
            i = j + 1
        else:
            p, j = parse_place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                if not m:
                    raise ParseError('place: ' + s)
                end = match_close(s, i)
                p = (p[0], p[1] + (('f', int(m.group(1)), s[m.end():end]),))
                i = end + 1
            elif s.startswith(' as ', j):
                end = match_close(s, i)
                p = (p[0], p[1] + (('v', s[j + 4:end]),))
                i = end + 1
            elif s[j] == ')':
                i = j + 1
            else:
                raise ParseError('place: ' + s)
    else:
        raise ParseError('place: ' + s)
    while i < len(s) and s[i] == '[':
        end = match_close(s, i)
        inner = s[i + 1:end]
        m = re.match(r'_(\d+)$', inner)
        if m:
            p = (p[0], p[1] + (('i', int(m.group(1))),))
        else:
            m = re.match(r'(-?\d+) of (\d+)$', inner)
            if m:
                p = (p[0], p[1] + (('ci', int(m.group(1))),))
            else:
                m = re.match(r'(\d+):(-?\d*)$', inner)
                if not m:
                    raise ParseError('place: ' + inner)
                p = (p[0], p[1] + (('sub', int(m.group(1)), m.group(2)),))
        i = end + 1
    return p, i


def place_of(s):
    s = s.strip()
    p, i = parse_place(s)
    if i != len(s):
        raise ParseError('place trailing: ' + s)
    return p


def parse_operand(s):
    s = s.strip()
    if s.startswith('copy '):
        return ('copy', place_of(s[5:]))
    if s.startswith('move '):
        return ('move', place_of(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'[_(]', s):
        try:
            return ('copy', place_of(s))
        except ParseError:
            pass
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'Eq', 'Ne', 'Lt',
          'Le', 'Gt', 'Ge', 'Cmp', 'Offset'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}
NULLOPS = {'SizeOf', 'AlignOf', 'UbChecks', 'ContractChecks', 'OffsetOf'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'(&raw (?:const|mut)(?: \(fake\))?|&(?:fake \w+ |two_phase )?(?:mut )?)\s*(?=[_(])', s)
    if m:
        try:
            kind = m.group(1).strip()
            return ('ref', kind, place_of(s[m.end():]))
        except ParseError:
            pass
    if s.startswith('deref_copy '):
        return ('use', ('copy', place_of(s[11:])))
    m = re.match(r'(\w+)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        name = m.group(1)
        inner = s[m.end():-1]
        if name in BINOPS:
            a = split_top(inner)
            return ('bin', name, parse_operand(a[0]), parse_operand(a[1]))
        if name in UNOPS:
            return ('un', name, parse_operand(inner))
        if name == 'discriminant':
            return ('discr', place_of(inner))
        if name == 'Len':
            return ('len', place_of(inner))
        if name in NULLOPS:
            return ('null', name, inner)
    m = re.match(r'(?:copy|move|const) ', s)
    if m:
        # operand, perhaps a cast
        k = find_top(s, ' as ')
        if k >= 0 and s.endswith(')'):
            op = parse_operand(s[:k])
            rest = s[k + 4:]
            j = rest.rfind(' (')
            # the cast kind is the last top-level parenthesis
            j = last_paren(rest)
            return ('cast', op, rest[:j].strip(), rest[j + 1:-1])
        return ('use', parse_operand(s))
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        end = match_close(s, 0)
        name = s[:end + 1]
        rest = s[end + 1:].strip()
        fields = []
        if rest:
            for f in split_top(rest[1:-1]):
                k = f.index(': ')
                fields.append((f[:k], parse_operand(f[k + 2:])))
        return ('agg', name, None, [x for _, x in fields], [n for n, _ in fields])
    # aggregates: Path { f: op }, Path(op, ...), Path
    if s.endswith('}'):
        k = find_top(s, ' {')
        if k >= 0:
            path = s[:k]
            fields = []
            for f in split_top(s[k + 2:-1]):
                j = f.index(': ')
                fields.append((f[:j], parse_operand(f[j + 2:])))
            return ('agg', path, 'struct', [x for _, x in fields], [n for n, _ in fields])
    if s.endswith(')'):
        j = last_paren(s)
        path = s[:j]
        if not re.match(r'[\w<]', path):
            raise ParseError('rvalue: ' + s)
        return ('agg', path, 'tuple', [parse_operand(x) for x in split_top(s[j + 1:-1])], None)
    if re.match(r'[\w:<]', s):
        return ('agg', s, 'unit', [], None)
    raise ParseError('rvalue: ' + s)


def find_top(s, pat):
    depth, i, n = 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if depth == 0 and s.startswith(pat, i):
            return i
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        i += 1
    return -1


def last_paren(s):
    """Index of the opening of the last top-level (...) group; s ends with ')'."""
    depth, i, n, last = 0, 0, len(s), -1
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            if depth == 0 and c == '(':
                last = i
            depth += 1
        elif c in CLOSE:
            depth -= 1
        i += 1
    return last


def parse_targets(s):
    """`[return: bb1, unwind: bb2]`, `unwind continue`, `unwind: bb3` -> dict."""
    s = s.strip()
    out = {}
    if s.startswith('['):
        for part in split_top(s[1:-1]):
            if ': ' in part:
                k, v = part.split(': ', 1)
                out[k.strip()] = v.strip()
            else:
                k, v = part.split(' ', 1)
                out[k.strip()] = v.strip()
    elif s.startswith('unwind'):
        if s.startswith('unwind: '):
            out['unwind'] = s[8:].strip()
        else:
            out['unwind'] = s[6:].strip()
    elif s.startswith('bb'):
        out['return'] = s
    else:
        raise ParseError('targets: ' + s)
    for k, v in list(out.items()):
        m = re.match(r'bb(\d+)$', v)
        if m:
            out[k] = int(m.group(1))
    return out


def parse_term(s):
    """s without trailing ';'. None if it is not a terminator."""
    if s == 'return':
        return ('return',)
    if s in ('resume', 'unwind resume'):
        return ('resume',)
    if s.startswith('unwind terminate') or s.startswith('terminate') or s == 'abort':
        return ('abort',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        t = re.findall(r'bb(\d+)', s)
        return ('goto', int(t[0]))
    if s.startswith('switchInt('):
        end = match_close(s, len('switchInt'))
        op = parse_operand(s[len('switchInt') + 1:end])
        rest = s[end + 1:].strip()
        assert rest.startswith('-> [')
        targets = []
        other = None
        for part in split_top(rest[4:-1]):
            k, v = part.split(': ')
            v = int(v.strip()[2:])
            if k.strip() == 'otherwise':
                other = v
            else:
                targets.append((int(k.strip()), v))
        return ('switch', op, targets, other)
    if s.startswith('drop('):
        end = match_close(s, 4)
        k = s.index('->', end)
        return ('drop', place_of(s[5:end]), parse_targets(s[k + 2:]))
    if s.startswith('assert('):
        end = match_close(s, 6)
        args = split_top(s[7:end])
        k = s.index('->', end)
        c = args[0]
        neg = c.startswith('!')
        return ('assert', neg, parse_operand(c[1:] if neg else c), args[1],
                parse_targets(s[k + 2:]))
    # call
    k = None
    i, depth, n = 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c == '-' and s.startswith('-> ', i):
            if depth == 0 and s[i - 1] == ' ':
                k = i
            i += 3
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        i += 1
    if k is None:
        return None
    tail = s[k + 3:].strip()
    if not (tail.startswith('[') or tail.startswith('unwind') or tail.startswith('bb')):
        return None
    lhs = s[:k].strip()
    eq = find_top(lhs, ' = ')
    if eq < 0:
        return None
    dest = place_of(lhs[:eq])
    call = lhs[eq + 3:].strip()
    j = last_paren(call)
    callee = call[:j].strip()
    args = [parse_operand(a) for a in split_top(call[j + 1:-1])]
    return ('call', dest, callee, args, parse_targets(tail))


def parse_stmt(s):
    if re.match(r'(StorageLive|StorageDead|ConstEvalCounter|nop|FakeRead|PlaceMention|Retag|'
                r'AscribeUserType|Coverage|BackwardIncompatibleDropHint)\b', s):
        m = re.match(r'StorageDead\(_(\d+)\)', s)
        if m:
            return ('dead', int(m.group(1)))
        return ('nop',)
    if s.startswith('assume('):
        return ('assume', parse_operand(s[7:-1]))
    if s.startswith('copy_nonoverlapping('):
        a = split_top(s[len('copy_nonoverlapping('):-1])
        ops = []
        for x in a:
            if ' = ' in x:
                x = x.split(' = ', 1)[1]
            ops.append(parse_operand(x))
        return ('copy_nonoverlapping', ops)
    if s.startswith('discriminant('):
        end = match_close(s, len('discriminant'))
        return ('setdiscr', place_of(s[len('discriminant') + 1:end]), s[end + 1:].strip(' ='))
    eq = find_top(s, ' = ')
    if eq < 0:
        raise ParseError('stmt: ' + s)
    return ('assign', place_of(s[:eq]), parse_rvalue(s[eq + 3:]))


def parse_body(lines, fn):
    i = 0
    n = len(lines)
    cur = None
    while i < n:
        ln = lines[i].strip()
        # strip comments
        k = ln.find(' // ')
        if ln.startswith('//'):
            i += 1
            continue
        if k >= 0 and '"' not in ln:
            ln = ln[:k].strip()
        m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', ln)
        if m:
            cur = Block()
            cur.id = int(m.group(1))
            cur.cleanup = bool(m.group(2))
            cur.stmts = []
            cur.term = None
            fn.blocks[cur.id] = cur
            i += 1
            continue
        if cur is not None:
            if ln == '}':
                cur = None
                i += 1
                continue
            while not ln.endswith(';'):
                i += 1
                ln += ' ' + lines[i].strip()
            s = ln[:-1]
            # what is not understood is kept as such: whoever reaches it is undecided
            try:
                t = parse_term(s)
            except (ParseError, ValueError, IndexError, AttributeError, KeyError):
                t = ('unparsed ' + s,)
            if t is not None:
                cur.term = t
            else:
                try:
                    x = parse_stmt(s)
                except (ParseError, ValueError, IndexError, AttributeError, KeyError):
                    x = ('unparsed ' + s,)
                cur.stmts.append(x)
            i += 1
            continue
        m = re.match(r'let (?:mut )?_(\d+): (.*);$', ln)
        if m:
            fn.locals[int(m.group(1))] = m.group(2)
        else:
            m = re.match(r'debug (\S+) => (.*);$', ln)
            if m:
                fn.debug.append((m.group(1), m.group(2)))
        i += 1
    # `f() -> bb9` of a diverging call names the cleanup block
    for b in fn.blocks.values():
        if b.term and b.term[0] == 'call' and not b.cleanup:
            tg = b.term[4]
            x = tg.get('return')
            if len(tg) == 1 and isinstance(x, int) and x in fn.blocks and fn.blocks[x].cleanup:
                tg['unwind'] = tg.pop('return')


def parse_mir(text):
    """-> list of Fn"""
    lines = text.split('\n')
    fns = []
    i, n = 0, len(lines)
    ctfe = False
    while i < n:
        ln = lines[i]
        if ln.startswith('// MIR FOR CTFE'):
            ctfe = True
            i += 1
            continue
        if ln.startswith('//') or not ln.strip() or ln.startswith('}'):
            i += 1
            continue
        if ln[0] in ' \t':
            i += 1
            continue
        hdr = ln
        start = i
        if hdr.startswith('alloc') and re.match(r'alloc\d+ \(', hdr):
            i += 1
            continue
        while not hdr.rstrip().endswith('{'):
            i += 1
            if i >= n:
                break
            hdr += ' ' + lines[i].strip()
        j = i + 1
        while j < n and lines[j] != '}':
            j += 1
        f = Fn()
        f.text = None
        f.ctfe = ctfe
        ctfe = False
        f.locals, f.blocks, f.debug = {}, {}, []
        f.order = len(fns)
        f.src = None
        f.line = start + 1
        hdr = hdr.rstrip()[:-1].rstrip()
        if hdr.startswith('fn '):
            f.kind = 'fn'
            # find the argument list: the first top-level '(' followed by '_1' or ')'
            k = find_args(hdr)
            f.name = hdr[3:k]
            end = match_close(hdr, k)
            f.args, f.argtys = [], []
            for a in split_top(hdr[k + 1:end]):
                m = re.match(r'_(\d+): (.*)$', a, re.S)
                f.args.append(int(m.group(1)))
                f.argtys.append(m.group(2))
                f.locals[int(m.group(1))] = m.group(2)
            rest = hdr[end + 1:].strip()
            f.ret = rest[3:].strip() if rest.startswith('->') else '()'
        else:
            f.kind = 'const'
            h = hdr
            if h.startswith('const '):
                h = h[6:]
            elif h.startswith('static '):
                h = h[7:]
            h = h.rstrip(' =')
            k = find_top(h, ': ')
            f.name = h[:k]
            f.ret = h[k + 2:]
            f.args, f.argtys = [], []
        parse_body(lines[i + 1:j], f)
        fns.append(f)
        i = j + 1
    return fns


def find_args(hdr):
    i, n = 3, len(hdr)
    while i < n:
        c = hdr[i]
        if c == '<':
            i = match_close(hdr, i) + 1
            continue
        if c == '{':
            i = match_close(hdr, i) + 1
            continue
        if c == '(':
            return i
        i += 1
    raise ParseError(hdr)
