"""Mechanical extraction of Rust items from /repo's current source.

A small token-level reader of Rust: it finds items by path and the loops inside
a function body.  It never invents executable text: every executable token of an
extracted function is copied from the file; what it drops or rewrites is listed
in DROPS below and in each check's evidence."""
import re, os

TOK = re.compile(r'''
   (?P<lcom>//[^\n]*)
 | (?P<bcom>/\*)
 | (?P<raw>b?r(?P<h>\#*)")
 | (?P<str>b?"(?:[^"\\]|\\.)*")
 | (?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
 | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
 | (?P<arrow>->|=>|::|\.\.=|\.\.|<<=|>>=|[-+*/%^&|]=|==|!=|<=|>=|&&|\|\|)
 | (?P<ws>\s+)
 | (?P<p>.)
''', re.X | re.S)


class LostAnchor(Exception):
    pass


class Tok:
    __slots__ = ('k', 't', 'a', 'b')

    def __init__(self, k, t, a, b):
        self.k, self.t, self.a, self.b = k, t, a, b

    def __repr__(self):
        return f'{self.k}:{self.t!r}'


def tokenize(src):
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'raw'
        if m.group('raw') is not None:
            end = src.find('"' + m.group('h'), m.end())
            e = end + 1 + len(m.group('h'))
            out.append(Tok('str', src[i:e], i, e))
            i = e
            continue
        if k == 'bcom':
            d, j = 1, m.end()
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        if k not in ('ws', 'lcom'):
            out.append(Tok(k, m.group(0), i, m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].t in OPEN:
                d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LostAnchor('unbalanced brackets')


class File:
    def __init__(self, path):
        self.path = path
        try:
            self.src = open(path, encoding='utf-8').read()
        except OSError as e:
            raise LostAnchor(str(e))
        self.t = tokenize(self.src)

    def strip(self, a, b):
        """source text [a,b) with comments removed, strings kept"""
        out, last = [], None
        for t in tokenize(self.src[a:b]):
            if last is not None:
                gap = self.src[a + last:a + t.a]
                nl = gap.count('\n')
                out.append('\n' if nl else (' ' if gap else ''))
            out.append(t.t)
            last = t.b
        return ''.join(out)

    # --- items -----------------------------------------------------------
    def items(self, lo=0, hi=None):
        """yield (kind, name, start_tok, end_tok, header_text) for items in token range"""
        t = self.t
        hi = len(t) if hi is None else hi
        i = lo
        while i < hi:
            s = i
            # attributes
            while i < hi and t[i].t == '#':
                j = i + 1
                if j < hi and t[j].t == '!':
                    j += 1
                i = match_close(t, j) + 1
            # visibility & qualifiers
            a = i
            while i < hi and t[i].t in ('pub', 'const', 'unsafe', 'async', 'default', 'extern'):
                if t[i].t == 'pub' and i + 1 < hi and t[i + 1].t == '(':
                    i = match_close(t, i + 1) + 1
                elif t[i].t == 'const' and i + 1 < hi and t[i + 1].k == 'id' and t[i + 1].t not in ('fn', 'unsafe'):
                    break
                elif t[i].t == 'const' and i + 1 < hi and t[i+1].t == '_':
                    break
                elif t[i].t == 'extern' and t[i + 1].k == 'str':
                    i += 2
                else:
                    i += 1
            if i >= hi:
                return
            kw = t[i].t
            attrs = self.src[t[s].a:t[a].a] if a < hi else ''
            if kw in ('fn', 'struct', 'enum', 'trait', 'mod', 'union', 'type', 'static', 'const', 'use', 'impl', 'macro_rules'):
                j = i + 1
                # find end: first ';' or '{...}' at depth 0
                k = j
                end = None
                while k < hi:
                    x = t[k].t
                    if t[k].k == 'p' and x in '([':
                        k = match_close(t, k) + 1
                        continue
                    if t[k].k == 'p' and x == '{':
                        c = match_close(t, k)
                        if kw in ('use', 'static', 'const', 'type'):
                            k = c + 1
                            continue
                        end = c + 1
                        break
                    if t[k].k == 'p' and x == ';':
                        end = k + 1
                        break
                    k += 1
                if end is None:
                    return
                name = t[j].t if kw not in ('impl', 'use') else None
                if kw == 'static' and name == 'mut':
                    name = t[j + 1].t
                yield (kw, name, a, end, attrs)
                i = end
            else:
                # macro invocation or stray: skip to ';' or past '{}'
                k = i
                while k < hi:
                    if t[k].k == 'p' and t[k].t in '([{':
                        brace = t[k].t == '{'
                        k = match_close(t, k) + 1
                        if brace:
                            break
                        continue
                    if t[k].t == ';':
                        k += 1
                        break
                    k += 1
                i = k

    def impl_header(self, a, end):
        t = self.t
        k = a
        while t[k].t != '{':
            if t[k].t in '([' and t[k].k == 'p':
                k = match_close(t, k)
            k += 1
        return k, [x.t for x in t[a:k]]

    def find_impls(self, ty, trait=None):
        res = []
        for kw, name, a, end, attrs in self.items():
            if kw != 'impl' or 'cfg(test)' in attrs.replace(' ', ''):
                continue
            k, hdr = self.impl_header(a, end)
            h = hdr[hdr.index('impl') + 1:]
            h = _strip_generics(h)
            if 'for' in h:
                p = h.index('for')
                tr, rest = h[:p], h[p + 1:]
            else:
                tr, rest = None, h
            if 'where' in rest:
                rest = rest[:rest.index('where')]
            def base(x):
                y = []
                d = 0
                for z in x:
                    if z == '<':
                        d += 1
                    if d == 0:
                        y.append(z)
                    if z == '>':
                        d -= 1
                return ''.join(y).split('::')[-1]
            if base(rest) != ty:
                continue
            if (trait is None) != (tr is None):
                continue
            if trait is not None and base(tr) != trait:
                continue
            res.append((a, k, end))
        return res

    def find_fn(self, path):
        """path: name | Type::name | <Type as Trait>::name | trait Trait::name"""
        m = re.match(r'^<(.+?) as (\w+)>::(\w+)$', path)
        if m:
            for a, k, end in self.find_impls(m.group(1), m.group(2)):
                for kw, name, b, e, _ in self.items(k + 1, end - 1):
                    if kw == 'fn' and name == m.group(3):
                        return Fn(self, b, e, path)
            raise LostAnchor(f'{self.path}: no fn {path}')
        m = re.match(r'^trait (\w+)::(\w+)$', path)
        if m:
            for kw, name, a, end, _ in self.items():
                if kw == 'trait' and name == m.group(1):
                    k, _h = self.impl_header(a, end)
                    for kw2, n2, b, e, _ in self.items(k + 1, end - 1):
                        if kw2 == 'fn' and n2 == m.group(2):
                            return Fn(self, b, e, path)
            raise LostAnchor(f'{self.path}: no fn {path}')
        if '::' in path:
            ty, fn = path.rsplit('::', 1)
            for a, k, end in self.find_impls(ty):
                for kw, name, b, e, _ in self.items(k + 1, end - 1):
                    if kw == 'fn' and name == fn:
                        return Fn(self, b, e, path)
            raise LostAnchor(f'{self.path}: no fn {path}')
        for kw, name, a, e, attrs in self.items():
            if kw == 'fn' and name == path:
                return Fn(self, a, e, path)
        raise LostAnchor(f'{self.path}: no fn {path}')

    def find_item(self, kind, name):
        for kw, nm, a, e, attrs in self.items():
            if kw == kind and nm == name:
                return self.strip(self.t[a].a, self.t[e - 1].b)
        raise LostAnchor(f'{self.path}: no {kind} {name}')


def _strip_generics(h):
    if h and h[0] == '<':
        d = 0
        for i, x in enumerate(h):
            if x == '<':
                d += 1
            elif x == '>':
                d -= 1
                if d == 0:
                    return h[i + 1:]
    return h


class Fn:
    def __init__(self, f, a, e, path):
        self.f, self.a, self.e, self.path = f, a, e, path
        t = f.t
        self.name_i = next(i for i in range(a, e) if t[i].t == 'fn') + 1
        self.name = t[self.name_i].t
        k = self.name_i + 1
        while t[k].t not in ('{', ';'):
            if t[k].k == 'p' and t[k].t in '([':
                k = match_close(t, k)
            k += 1
        self.has_body = t[k].t == '{'
        self.body_i = k
        self.sig = f.strip(t[a].a, t[k].a).strip()
        self.body = f.strip(t[k].a, t[e - 1].b) if self.has_body else ''
        self.raw = f.src[t[a].a:t[e - 1].b]


def find_loops(body):
    """[(kw, kw_tok_index, brace_tok_index)] in order of appearance, toks"""
    t = tokenize(body)
    res = []
    i = 0
    while i < len(t):
        if t[i].k == 'id' and t[i].t in ('while', 'for', 'loop'):
            if t[i].t == 'for' and i + 1 < len(t) and t[i + 1].t == '<':
                i += 1
                continue
            if i >= 2 and t[i - 1].t == ':' and t[i - 2].t.startswith("'vgen"):
                i += 1
                continue
            k = i + 1
            pending_match = 0
            while True:
                if t[k].k == 'p' and t[k].t in '([':
                    k = match_close(t, k) + 1
                    continue
                if t[k].k == 'id' and t[k].t in ('match', 'if', 'unsafe'):
                    pending_match += 1
                if t[k].k == 'p' and t[k].t == '{':
                    if pending_match:
                        pending_match -= 1
                        k = match_close(t, k) + 1
                        continue
                    break
                k += 1
            res.append((t[i].t, i, k))
        i += 1
    return res, t
