"""Program index: resolves callees of the MIR dump to bodies, using the impl headers in the source."""
import os
import re
from mir import norm_type, head_of, match_close, split_top, parse_mir


def strip_comments(src):
    """Blank out comments and keep positions."""
    out, i, n = [], 0, len(src)
    while i < n:
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif src.startswith('/*', i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith('/*', j):
                    depth += 1
                    j += 2
                elif src.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            out.append(re.sub(r'[^\n]', ' ', src[i:j]))
            i = j
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(src[i:j + 1])
            i = j + 1
        elif src[i] == "'" and re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12])
            out.append(m.group(0))
            i += m.end()
        else:
            out.append(src[i])
            i += 1
    return ''.join(out)


def src_close(s, i):
    """Matching close of s[i] in ({[, ignoring angle brackets."""
    depth, n = 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif ch in '({[':
            depth += 1
        elif ch in ')}]':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    return n - 1


def src_split(s):
    out, depth, st = [], 0, 0
    for i, ch in enumerate(s):
        if ch in '({[':
            depth += 1
        elif ch in ')}]':
            depth -= 1
        elif ch == ',' and depth == 0:
            out.append(s[st:i].strip())
            st = i + 1
    if s[st:].strip():
        out.append(s[st:].strip())
    return out


class Impl:
    __slots__ = ('file', 'generics', 'trait', 'self_ty', 'line', 'bounds')


class Index:
    def __init__(self, repo, crates, elsewhere=None):
        """crates: list of (mir text, source prefix to strip/add)"""
        self.repo = repo
        self.elsewhere = elsewhere or {}
        self.fns = []
        self.by_key = {}      # (self head, trait head or None, method) -> [Fn]
        self.free = {}        # name -> [Fn]
        self.closures = {}    # closure text -> [Fn]
        self.consts = {}
        self.srcs = {}
        self.traits = {}
        self.impls = {}
        self.structs = {}
        self.enums = {}
        self.generics = {}
        for text, root in crates:
            base = len(self.fns)
            for f in parse_mir(text):
                f.src = root
                f.order += base
                self.fns.append(f)
        self.load_sources()
        for f in self.fns:
            self.add(f)

    # -------------------------------------------------------------- sources
    def source(self, path):
        if path not in self.srcs:
            p = self.elsewhere.get(path) or os.path.join(self.repo, path)
            try:
                with open(p) as fh:
                    raw = fh.read()
            except OSError:
                raw = ''
            self.srcs[path] = (raw, strip_comments(raw))
        return self.srcs[path]

    def load_sources(self):
        for base in ('src', 'emplacable/src'):
            for dp, dn, fns in os.walk(os.path.join(self.repo, base)):
                dn.sort()
                for fn in sorted(fns):
                    if fn.endswith('.rs'):
                        rel = os.path.relpath(os.path.join(dp, fn), self.repo)
                        self.scan_types(rel)

    def scan_types(self, rel):
        _, s = self.source(rel)
        for m in re.finditer(r'\btrait\s+(\w+)\s*', s):
            i = m.end()
            ps = []
            if i < len(s) and s[i] == '<':
                for x in split_top(s[i + 1:match_close(s, i)]):
                    x = re.sub(r'^const\s+', '', x.strip()).split(':')[0].split('=')[0].strip()
                    if x and not x.startswith("'"):
                        ps.append(x)
            self.traits[m.group(1)] = ps
        for m in re.finditer(r'\b(struct|enum)\s+(\$?\w+)', s):
            i = m.end()
            if i < len(s) and s[i] == '<':
                i = match_close(s, i) + 1
            # skip where clause
            j = i
            while j < len(s) and s[j] not in '{(;':
                j += 1
            if j >= len(s):
                continue
            name = m.group(2)
            gen = s[m.end():i]
            if m.group(1) == 'struct':
                fields = []
                if s[j] == ';':
                    pass
                else:
                    end = src_close(s, j)
                    body = s[j + 1:end]
                    for k, part in enumerate(split_top(body)):
                        part = re.sub(r'#\[[^\]]*\]', '', part).strip()
                        part = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', part)
                        if not part:
                            continue
                        if s[j] == '{':
                            mm = re.match(r'(\w+)\s*:\s*(.*)$', part, re.S)
                            if mm:
                                fields.append((mm.group(1), mm.group(2)))
                        else:
                            fields.append((str(k), part))
                self.structs.setdefault(name, []).append((rel, gen, fields, m.start()))
            else:
                end = src_close(s, j)
                vs = []
                disc = 0
                for part in src_split(s[j + 1:end]):
                    part = re.sub(r'#\[[^\]]*\]', '', part).strip()
                    mm = re.match(r'(\w+)\s*(=\s*(.*))?', part)
                    if not mm:
                        continue
                    if mm.group(3):
                        try:
                            disc = int(eval(mm.group(3), {}))
                        except Exception:
                            pass
                    vs.append((mm.group(1), disc))
                    disc += 1
                self.enums.setdefault(name, []).append((rel, vs))

    def struct(self, name, rel=None):
        l = self.structs.get(name)
        if not l:
            return None
        if rel:
            for x in l:
                if x[0] == rel:
                    return x
        return l[0]

    def pos(self, s, line, col):
        i = 0
        for _ in range(line - 1):
            i = s.index('\n', i) + 1
        return i + col - 1

    def impl_at(self, file, l1, c1, l2, c2):
        key = (file, l1, c1, l2, c2)
        if key in self.impls:
            return self.impls[key]
        raw, s = self.source(file)
        try:
            a = self.pos(s, l1, c1)
            b = self.pos(s, l2, c2)
        except ValueError:
            a = b = 0
        im = Impl()
        im.file, im.line = file, l1
        im.generics, im.trait, im.self_ty, im.bounds = [], None, None, ''
        text = s[a:b]
        if not re.match(r'(unsafe\s+)?(default\s+)?impl\b', text):
            # derive: the span is the trait name, the item follows
            im.trait = text.strip().split('::')[-1]
            m = re.search(r'\b(?:struct|enum|union)\s+(\w+)', s[b:])
            im.self_ty = m.group(1) if m else None
            g = re.match(r'\s*<', s[b + m.end():]) if m else None
            if g:
                st = b + m.end() + g.end() - 1
                im.self_ty += s[st:match_close(s, st) + 1]
        else:
            # up to the opening brace
            j = a
            m = re.match(r'(unsafe\s+)?(default\s+)?impl\s*', s[a:])
            j = a + m.end()
            if s[j] == '<':
                e = match_close(s, j)
                im.bounds = s[j + 1:e]
                im.generics = [re.split(r'[:=]', g)[0].strip().replace('const ', '')
                               for g in split_top(s[j + 1:e])]
                im.generics = [g for g in im.generics if not g.startswith("'")]
                j = e + 1
            k = j
            depth = 0
            while k < len(s):
                ch = s[k]
                if ch == '-' and s[k + 1] == '>':
                    k += 2
                    continue
                if ch in '<([':
                    depth += 1
                elif ch in '>)]':
                    depth -= 1
                elif ch == '{' and depth == 0:
                    break
                elif depth == 0 and s.startswith('where', k) and not (s[k - 1].isalnum()) \
                        and not s[k + 5].isalnum():
                    break
                k += 1
            hdr = ' '.join(s[j:k].split())
            if s.startswith('where', k):
                im.bounds += ',' + s[k + 5:s.index('{', k)]
            # trait for type
            parts = re.split(r'\bfor\b(?!\s*<)', hdr)
            if len(parts) >= 2:
                im.trait = parts[0].strip().lstrip('!').strip()
                im.self_ty = parts[1].strip()
            else:
                im.self_ty = hdr.strip()
        self.impls[key] = im
        return im

    # -------------------------------------------------------------- bodies
    IMPL = re.compile(r'<impl at ([^<>]*?):(\d+):(\d+): (\d+):(\d+)>')

    def add(self, f):
        name = f.name
        if f.ctfe and f.kind == 'fn':
            # keep only if there is no runtime version
            f_ctfe = True
        else:
            f_ctfe = False
        ims = list(self.IMPL.finditer(name))
        if f.kind == 'const':
            self.consts.setdefault(name, f)
        if re.search(r'\{closure#\d+\}$', name) and f.kind == 'fn':
            t = f.argtys[0] if f.argtys else ''
            k = t.find('{closure@')
            if k >= 0:
                ct = t[k:match_close(t, k) + 1]
                self.closures.setdefault(ct, []).append(f)
            return
        if ims:
            m = ims[-1]
            im = self.impl_at(m.group(1), *[int(m.group(i)) for i in range(2, 6)])
            tail = name[m.end():]
            tail = tail[2:] if tail.startswith('::') else tail
            meth = tail
            self_ty = im.self_ty or ''
            if '$' in self_ty:
                # macro-generated: take the type from the signature
                cand = None
                for t in f.argtys[:1] + [f.ret]:
                    h = head_of(t)
                    if h and h not in ('Option', 'usize', '()', 'bool'):
                        cand = re.sub(r'^&(mut )?', '', norm_type(t))
                        break
                self_ty = cand or self_ty
            f.text = (im, norm_type(self_ty))
            key = (head_of(self_ty), head_of(im.trait) if im.trait else None, meth)
            l = self.by_key.setdefault(key, [])
            if f_ctfe and any(not x.ctfe and x.name == f.name for x in l):
                return
            l.append(f)
        else:
            f.text = None
            short = re.sub(r'<.*?>', '', name).split('::')[-1]
            l = self.free.setdefault(short, [])
            if f_ctfe and any(not x.ctfe and x.name == f.name for x in l):
                return
            l.append(f)

    def local_type(self, n):
        """n is a type of the crates (also one a macro defines)"""
        if n in self.structs:
            return True
        if not hasattr(self, '_local'):
            self._local = {k[0] for k in self.by_key if k[1] and k[2] in ('next', 'len', 'into_iter')}
        return n in self._local

    def lookup(self, self_head, trait_head, meth):
        return self.by_key.get((self_head, trait_head, meth), [])
