"""Turn contracts/<ID>.vrs into one Verus file: every //@fn and //@item block is
replaced by text copied from /repo's current source with the contract attached."""
import re, os, hashlib
from rsx import File, LostAnchor, find_loops, tokenize, match_close

REPO = os.environ.get('CDX_REPO', '/repo')

DROPS = [
    "comments, doc comments and outer attributes (#[must_use], #[derive], ...) of extracted items",
    "err!(...) / cdx_err(...) message construction: replaced by an opaque error value (only the fact that an Err is returned is kept)",
    "for loops over a Vec or slice place (&v, &mut v, v.iter(), v.iter_mut(), .skip(n), .enumerate()) desugared into index loops over the same place",
    "while let P = E { B } rewritten as loop { let P = E else { break; }; B }",
    "match S.as_str() with string literals as patterns rewritten as the chain of if S == literal",
    "byte-string literals b\"..\" rewritten as array literals of the same bytes",
    "debug_assert!(e)/debug_assert_eq!: replaced by evaluating e and statically asserting it",
    "eprintln!/eprint!/prerr*: dropped (stderr text is not part of any contract)",
    "calls to file-local helpers that carry no contract: inlined by substitution of parameters before verification",
    "pub(crate)/private visibility of extracted structs: widened to pub",
    "of a tool's main function only the named stretch of statements is extracted, wrapped as a function of the variables it uses (listed under rewrites as 'fragment')",
]


class Result:
    def __init__(self):
        self.text = ''
        self.funcs = []      # dicts: path, file, name, lines(start,end) , sha, loops, kind
        self.lost = []       # reasons
        self.subs = []       # custom rewrites applied


_files = {}


def getfile(p):
    if p not in _files:
        _files[p] = File(os.path.join(REPO, p))
    return _files[p]


def replace_macro(body, name, repl):
    """replace name!(args) using repl(argtext) -> text"""
    while True:
        t = tokenize(body)
        hit = None
        for i in range(len(t) - 2):
            if t[i].k == 'id' and t[i].t == name and t[i + 1].t == '!' and t[i + 2].t in '([{':
                hit = i
                break
        if hit is None:
            return body
        c = match_close(t, hit + 2)
        arg = body[t[hit + 2].b:t[c].a]
        body = body[:t[hit].a] + repl(arg) + body[t[c].b:]


def split_args(text):
    t = tokenize(text)
    parts, d, last = [], 0, 0
    for i, x in enumerate(t):
        if x.k == 'p' and x.t in '([{':
            d += 1
        elif x.k == 'p' and x.t in ')]}':
            d -= 1
        elif x.t == ',' and d == 0:
            # ignore commas inside generics < > (rare in args)
            parts.append(text[last:x.a].strip())
            last = x.b
    tail = text[last:].strip()
    if tail:
        parts.append(tail)
    return parts


def bytestr_rewrite(body):
    t = tokenize(body)
    for x in reversed(t):
        if x.t.startswith('b"'):
            inner = x.t[2:-1]
            try:
                v = eval('b"' + inner + '"')
            except Exception:
                continue
            if v:
                body = body[:x.a] + '(&[' + ', '.join(f'{c}u8' for c in v) + '])' + body[x.b:]
    return body


PATH_RE = r'(?:\*?\(?\*?)?[A-Za-z_]\w*(?:\s*\.\s*\w+)*\)?'


def lower_position(body, notes):
    """PLACE.iter().position(|x| P) / rposition -> a search loop with its invariant (P is a pure expression)"""
    k = 0
    while True:
        m = re.search(r"([A-Za-z_]\w*(?:\s*\.\s*[A-Za-z_]\w*)*)\s*\.\s*iter\(\)\s*\.\s*(r?position)\s*\(\s*\|\s*(&?\w+)\s*\|", body)
        if not m:
            return body
        t = tokenize(body)
        op = next(i for i, x in enumerate(t) if x.t == '(' and x.a >= m.start(2))
        cl = match_close(t, op)
        pred = body[m.end():t[cl].a].strip()
        e = re.sub(r'\s+', '', m.group(1))
        v = m.group(3)
        ex, sp = (f'let {v} = &{e}[%s];', f'let {v} = &{e}@[%s];')
        if v.startswith('&'):
            ex, sp = (f'let {v[1:]} = {e}[%s];', f'let {v[1:]} = {e}@[%s];')
        n = f'vp{k}'
        if m.group(2) == 'position':
            txt = (f"({{ let mut {n}: usize = 0; 'vgen{k}: while {n} < {e}.len() && !({{ {ex % n} {pred} }})\n"
                   f" invariant {n} <= {e}@.len(), forall|vj: int| #![trigger {e}@[vj]] 0 <= vj < {n} ==> !({{ {sp % 'vj'} {pred} }}) decreases {e}@.len() - {n}\n"
                   f"{{ {n} += 1; }} if {n} < {e}.len() {{ Some({n}) }} else {{ None }} }})")
        else:
            txt = (f"({{ let mut {n}: usize = {e}.len(); 'vgen{k}: while {n} > 0 && !({{ {ex % (n + ' - 1')} {pred} }})\n"
                   f" invariant {n} <= {e}@.len(), forall|vj: int| #![trigger {e}@[vj]] {n} <= vj < {e}@.len() ==> !({{ {sp % 'vj'} {pred} }}) decreases {n}\n"
                   f"{{ {n} -= 1; }} if {n} > 0 {{ Some({n} - 1) }} else {{ None }} }})")
        notes.append(re.sub(r'\s+', ' ', body[m.start():t[cl].b]))
        body = body[:m.start()] + txt + body[t[cl].b:]
        k += 1


def zip_chain(hs):
    """A.iter()[.map(F)].zip(B.iter()[.map(G)]) -> ((A, F), (B, G)) or None"""
    one = r'([A-Za-z_]\w*(?:\.\w+)*)\.iter\(\)(?:\.map\(([A-Za-z_][\w:]*)\))?'
    m = re.match('^' + one + r'\.zip\(' + one + r'\)$', hs)
    return m and ((m.group(1), m.group(2)), (m.group(3), m.group(4)))


def hoist_label(body):
    """'l: let ..; while .. -> let ..; 'l: while .."""
    return re.sub(r"('[a-z_]\w*)\s*:\s*((?:let [^;]*; )+)(while\b)", r"\2\1: \3", body)


def desugar_for(body, notes):
    return hoist_label(desugar_for_(body, notes))


def desugar_for_(body, notes):
    """for x in &mut PLACE | &PLACE | PLACE.iter() | PLACE.iter_mut() [.skip(N)] [.enumerate()] -> index loop.
    PLACE is a path, so evaluating it at every step is the same as evaluating it once."""
    n = 0
    while True:
        loops, t = find_loops(body)
        if n >= len(loops):
            return body
        kw, ki, bi = loops[n]
        if kw != 'for':
            n += 1
            continue
        d = ki
        while not (t[d].k == 'id' and t[d].t == 'in'):
            if t[d].k == 'p' and t[d].t in '([':
                d = match_close(t, d)
            d += 1
        pat = body[t[ki].b:t[d].a].strip()
        head = body[t[d].b:t[bi].a].strip()
        hs = re.sub(r'\s+', '', head)
        m = re.match(r'^(&mut|&)(%s)$' % r'[A-Za-z_]\w*(?:\.\w+)*', head.replace('&mut ', '&mut'))
        place = mode = None
        start, enum = '0', False
        if m:
            mode, place = ('mut' if m.group(1) == '&mut' else 'ref'), m.group(2)
        else:
            m = re.match(r'^([A-Za-z_]\w*(?:\.\w+)*)\.(iter|iter_mut)\(\)(?:\.skip\((\w+)\))?(\.enumerate\(\))?$', hs)
            if m:
                place, mode = m.group(1), ('mut' if m.group(2) == 'iter_mut' else 'ref')
                if m.group(3):
                    start = m.group(3)
                enum = bool(m.group(4))
                if enum and m.group(3):
                    place = None
        if place is None:
            m = re.match(r'^&([A-Za-z_]\w*(?:\.\w+)*)\[(\d+)\.\.\]$', hs)
            if m:
                # &v[n..] panics when there are fewer than n elements
                place, mode, start = m.group(1), 'ref', m.group(2)
                body = body[:t[ki].a] + f'proof {{ assert({start} <= {place}@.len()); }} ' + body[t[ki].a:]
                loops, t = find_loops(body)
                kw, ki, bi = loops[n]
        m2 = re.match(r'^([A-Za-z_]\w*(?:\.\w+)*\.(?:get_cols|header|cols|fieldnames))\(\)$', hs) if place is None else None
        if m2:
            # PLACE.getter() returns a borrowed list: bind it once
            place, mode = f'vs{n}', 'ref'
            body = body[:t[ki].a] + f'let vs{n} = {m2.group(1)}(); ' + body[t[ki].a:]
            loops, t = find_loops(body)
            kw, ki, bi = loops[n]
        z = zip_chain(hs)
        if z:
            v = f'vi{n}'
            el = [f'{f}(&{a}[{v}])' if f else f'&{a}[{v}]' for a, f in z]
            body = (body[:t[ki].a] + f'let mut {v}: usize = 0; while {v} < {z[0][0]}.len() && {v} < {z[1][0]}.len() '
                    + '{ ' + f'let {pat} = ({el[0]}, {el[1]}); {v} += 1; ' + body[t[bi].b:])
            notes.append(f'for {pat} in {head}')
            n += 1
            continue
        if place is None:
            n += 1
            continue
        end = match_close(t, bi)
        v = f'vi{n}'
        if enum:
            mm = re.match(r'^\(\s*(\w+)\s*,\s*(.*)\)$', pat, re.S)
            if not mm:
                n += 1
                continue
            ix, item = mm.group(1), mm.group(2).strip()
            bind = f'let {ix}: usize = {v}; '
        else:
            item, bind = pat, ''
        amp = '&mut ' if mode == 'mut' else '&'
        if item.startswith('&'):
            item, amp = item[1:], ''
        bind += f'let {item} = {amp}{place}[{v}]; {v} += 1; ' if item != '_' else f'{v} += 1; '
        body = (body[:t[ki].a] + f'let mut {v}: usize = {start}; while {v} < {place}.len() ' + '{ ' + bind
                + body[t[bi].b:])
        notes.append(f'for {pat} in {head}')
        n += 1


def lower_while_let(body):
    """while let P = E { B }  ->  loop { let P = E else { break; }; B }"""
    while True:
        t = tokenize(body)
        hit = None
        for i in range(len(t) - 1):
            if t[i].k == 'id' and t[i].t == 'while' and t[i + 1].t == 'let':
                hit = i
                break
        if hit is None:
            return body
        i = hit + 2
        d = 0
        while not (t[i].t == '{' and d == 0):
            if t[i].t in ('(', '['):
                i = match_close(t, i)
            i += 1
        head = body[t[hit + 1].b:t[i].a].strip()
        body = body[:t[hit].a] + 'loop { let ' + head + ' else { break; };' + body[t[i].b:]


def lower_str_match(body):
    """match S.as_str() { "a" | "b" => x, _ => y }  ->  if S == "a" || S == "b" { x } else { y }"""
    pos = 0
    while True:
        t = tokenize(body)
        hit = next((i for i in range(len(t)) if t[i].a >= pos and t[i].k == 'id' and t[i].t == 'match'), None)
        if hit is None:
            return body
        pos = t[hit].b
        o = hit + 1
        while t[o].t != '{':
            o = match_close(t, o) + 1 if t[o].k == 'p' and t[o].t in '([' else o + 1
        c = match_close(t, o)
        m = re.match(r'^&?\*?([A-Za-z_]\w*(?:\.\w+)*?(?:\.to_ascii_lowercase\(\))?)(?:\.as_str\(\)|\.as_ref\(\)|\[\.\.\])?$', body[t[hit].b:t[o].a].strip())
        if not m:
            continue
        arms, i, ok = [], o + 1, True
        while i < c:
            j = i
            while j < c and not (t[j].t == '=>' or (t[j].t == '=' and t[j + 1].t == '>')):
                j += 1
            pat = t[i:j]
            j += 1 if j < c and t[j].t == '=>' else 2
            if j > c or not pat:
                ok = False
                break
            g = next((k for k, x in enumerate(pat) if x.t == 'if'), None)
            guard = body[pat[g].b:pat[-1].b].strip() if g is not None else None
            lits, bind = [x.t for x in pat[:g] if x.t != '|'], ''
            if len(lits) == 1 and pat[0].k == 'id' and guard is None:
                bind = '' if lits == ['_'] else f'let {lits[0]} = {body[t[hit].b:t[o].a].strip()}; '
                lits = None
            elif lits == ['_']:
                lits = []
            elif not lits or not all(x.startswith('"') for x in lits):
                ok = False
                break
            if t[j].t == '{':
                e = match_close(t, j)
                arm = body[t[j].a:t[e].b]
                if e + 1 < c and t[e + 1].t in ('.', '?'):
                    ok = False
                    break
                e += 1
            else:
                e = j
                while e < c and t[e].t != ',':
                    e = match_close(t, e) + 1 if t[e].k == 'p' and t[e].t in '([{' else e + 1
                arm = '{ ' + body[t[j].a:t[e - 1].b] + ' }'
            if e < c and t[e].t == ',':
                e += 1
            arms.append((lits, '{ ' + bind + arm + ' }' if bind else arm, guard))
            i = e
        if not ok or len(arms) < 2 or arms[-1][0] is not None or any(a[0] is None for a in arms[:-1]):
            continue
        if not any(a[0] for a in arms):
            continue
        base = m.group(1)

        def cond(l, g):
            q = ' || '.join(f'{base} == {x}' for x in l)
            return q if g is None else f'({g})' if not q else f'({q}) && ({g})'
        txt = ' else '.join((f'if {cond(l, g)} ' if l is not None else '') + a for l, a, g in arms)
        body = body[:t[hit].a] + txt + body[t[c].b:]


def str_matches(arg):
    """matches!(X, "a" | "b") -> (X == "a" || X == "b")"""
    a = split_args(arg)
    l = [x.t for x in tokenize(a[1]) if x.t != '|'] if len(a) == 2 else []
    if l and all(x.startswith('"') for x in l):
        x = re.sub(r'\.as_str\(\)$', '', a[0].strip())
        return '(' + ' || '.join(f'{x} == {q}' for q in l) + ')'
    return f'verif_matches!({arg})'


def str_pattern(body):
    """a string literal used as a pattern: the verifier knows nothing of such a match"""
    t = tokenize(body)
    for i in range(len(t) - 1):
        if t[i].k == 'str' and t[i].t.startswith('"'):
            j = i + 1
            while t[j].t in (')', ',', '_') and j + 1 < len(t):
                j += 1
            if t[j].t == '=>' or (t[j].t == '=' and t[j + 1].t == '>') or t[j].t == '|' and t[j + 1].k == 'str':
                return True
    return False


def std_rewrites(body):
    body = lower_while_let(body)
    body = bytestr_rewrite(body)
    body = replace_macro(body, 'err', lambda a: 'Err(verif_err())')
    body = replace_macro(body, 'debug_assert_eq',
                         lambda a: 'let dbg_b: bool = (%s) == (%s); assert(dbg_b)' % tuple(split_args(a)[:2]))
    body = replace_macro(body, 'debug_assert',
                         lambda a: 'let dbg_b: bool = %s; assert(dbg_b)' % split_args(a)[0])
    for m in ('eprintln', 'eprint'):
        body = replace_macro(body, m, lambda a: '()')
    return body


def split_top(s, sep=','):
    parts, d, last = [], 0, 0
    t = tokenize(s)
    for x in t:
        if x.k == 'p' and x.t in '([{<':
            d += 1
        elif x.k == 'p' and x.t in ')]}>':
            d -= 1
        elif x.t == sep and d == 0:
            parts.append(s[last:x.a]); last = x.b
    if s[last:].strip():
        parts.append(s[last:])
    return [p.strip() for p in parts]


def params_of(fn):
    """[(is_mut, name, type)] or raises LostAnchor; self params give name 'self'"""
    t = tokenize(fn.sig)
    i = next(k for k, x in enumerate(t) if x.t == fn.name) + 1
    if t[i].t == '<':
        d = 0
        while True:
            if t[i].t == '<': d += 1
            if t[i].t == '>':
                d -= 1
                if d == 0: break
            i += 1
        i += 1
    c = match_close(t, i)
    out = []
    for p in split_top(fn.sig[t[i].b:t[c].a]):
        if re.match(r"^(&\s*('\w+\s*)?)?(mut\s+)?self$", p):
            out.append((False, 'self', p))
            continue
        m = re.match(r'^(mut\s+)?(\w+)\s*:\s*(.*)$', p, re.S)
        if not m:
            raise LostAnchor(f'cannot inline {fn.name}: parameter {p!r}')
        out.append((bool(m.group(1)), m.group(2), m.group(3)))
    return out


def known_fn_names(tmpl):
    return set(re.findall(r'\bfn\s+(\w+)', tmpl)) | set(
        m.split('::')[-1] for m in re.findall(r'//@fn\s+\S+\s+(.+?)(?:\s+\(|\s*$)', tmpl, re.M))


STD_NAMES = {'new', 'len', 'get', 'push', 'clear', 'cmp', 'eq', 'set', 'add', 'write', 'first', 'last'}


def clauses(s):
    """the clauses of an invariant, at the commas outside brackets and quantified variables"""
    parts, d, last, q = [], 0, 0, False
    t = tokenize(s)
    for i, x in enumerate(t):
        if x.k == 'p' and x.t in '([{':
            d += 1
        elif x.k == 'p' and x.t in ')]}':
            d -= 1
        elif x.t == '|' and (q or (i and t[i - 1].t in ('forall', 'exists'))):
            q = not q
        elif x.t == ',' and d == 0 and not q:
            parts.append(s[last:x.a]); last = x.b
    parts.append(s[last:])
    return [p.strip() for p in parts if p.strip()]


def flagged(txt, cond):
    """invariants of a loop that goes on while a flag says so: what holds when it goes on, and what holds when it ends"""
    m = re.search(r'^\s*invariant_except_break\b(.*?)(?=^\s*(?:invariant|ensures|decreases)\b)', txt, re.S | re.M)
    e = re.search(r'^\s*ensures\b(.*?)(?=^\s*decreases\b|\Z)', txt, re.S | re.M)
    new = [f'({cond}) ==> ({c})' for c in (clauses(m.group(1)) if m else [])] + [f'!({cond}) ==> ({c})' for c in (clauses(e.group(1)) if e else [])]
    if m:
        txt = txt[:m.start()] + txt[m.end():]
    add = ', '.join(new)
    if re.search(r'^\s*invariant\b', txt, re.M):
        return re.sub(r'^\s*invariant\b', lambda _: f'  invariant {add},', txt, count=1, flags=re.M)
    return f'  invariant {add},\n' + txt


def other_loop_form(body, loops, toks, idx, want):
    """`while c { b }` <-> `loop { if !(c) { break; } b }`, if the loop is not of the wanted form"""
    kw, ki, bi = loops[idx]
    if kw == want:
        return None
    if kw == 'while' and want == 'loop':
        cond = body[toks[ki].b:toks[bi].a].strip()
        if cond.startswith('let '):
            return None
        return body[:toks[ki].a] + 'loop { if !(' + cond + ') { break; } ' + body[toks[bi].b:]
    if kw == 'for' and want == 'while':
        m = re.match(r'^\s*(\w+)\s+in\s+(\w+)\s*\.\.\s*([\w.]+(?:[\w.]|\(\)|\[\w+\])*)\s*$', body[toks[ki].b:toks[bi].a])
        if not m:
            return None
        v = f'vi{idx}'
        return hoist_label(body[:toks[ki].a] + f'let mut {v}: usize = {m.group(2)}; let vend{idx}: usize = {m.group(3)}; while {v} < vend{idx} '
                           + '{ ' + f'let {m.group(1)} = {v}; {v} += 1; ' + body[toks[bi].b:])
    if kw == 'loop' and want == 'while':
        j = bi + 1
        if toks[j].t != 'if' or toks[j + 1].t == 'let':
            return None
        o = j + 1
        while toks[o].t != '{':
            o = match_close(toks, o) + 1 if toks[o].k == 'p' and toks[o].t in '([' else o + 1
        c = match_close(toks, o)
        if [x.t for x in toks[o + 1:c]] not in (['break'], ['break', ';']) or toks[c + 1].t == 'else':
            return None
        cond = body[toks[j].b:toks[o].a].strip()
        return body[:toks[ki].a] + 'while !(' + cond + ') {' + body[toks[c].b:]
    return None


def unwrap_ok(body):
    """'{ ..; Ok(x) }' -> ('{ ..; x }', True); any other final expression is left, to be followed by `?`"""
    t = tokenize(body)
    # the final expression starts after the last `;` or `}` at depth 1
    d, last = 0, 1
    for k, x in enumerate(t):
        if x.k == 'p' and x.t in '([{':
            d += 1
        elif x.k == 'p' and x.t in ')]}':
            d -= 1
            if d == 1 and x.t == '}' and k + 1 < len(t) - 1 and t[k + 1].t not in ('.', '?', 'else'):
                last = k + 1
        elif x.t == ';' and d == 1:
            last = k + 1
    if last + 1 < len(t) and t[last].t == 'Ok' and t[last + 1].t == '(' and match_close(t, last + 1) == len(t) - 2:
        c = match_close(t, last + 1)
        return body[:t[last].a] + '(' + body[t[last + 1].b:t[c].a] + ')' + body[t[c].b:], True
    return body, False


def structured_returns(body):
    """rewrite guard clauses '{ if c { return a; } rest }' as '{ if c { a } else { rest } }'; None if a return is elsewhere"""
    t = tokenize(body)
    if not any(x.k == 'id' and x.t == 'return' for x in t):
        return body
    d, st = 0, 1
    k = 0
    while k < len(t) - 1:
        x = t[k]
        if x.k == 'p' and x.t in '([{':
            d += 1
        elif x.k == 'p' and x.t in ')]}':
            d -= 1
            if d == 1 and x.t == '}' and t[k + 1].t not in ('.', '?', 'else'):
                st = k + 1
        elif x.t == ';' and d == 1:
            st = k + 1
        elif d == 1 and k == st and x.t == 'return':
            # return e; as the last statement
            e = next((q for q in range(k, len(t)) if t[q].t == ';'), len(t) - 1)
            if e in (len(t) - 2, len(t) - 1):
                return structured_returns(body[:x.a] + body[x.b:t[e].a] + ' }')
            return None
        elif d == 1 and k == st and x.t == 'if':
            j = k + 1
            while t[j].t != '{':
                j = match_close(t, j) + 1 if t[j].t in '([' and t[j].k == 'p' else j + 1
            if any(y.t == 'return' for y in t[k:j]):
                return None
            c = match_close(t, j)
            if any(y.t == 'return' for y in t[j:c]):
                blk = structured_returns(body[t[j].a:t[c].b])
                # every path through the block has to end with the return
                if blk is None or t[c - 1].t != ';' or not any(y.t == 'return' for y in t[max(j, 0):c]):
                    return None
                lastst = max([q for q in range(j, c - 1) if t[q].t in (';', '{', '}')] or [j]) + 1
                if t[lastst].t != 'return' or t[c + 1].t == 'else':
                    return None
                rest = structured_returns('{' + body[t[c].b:])
                if rest is None:
                    return None
                return body[:t[j].a] + blk + ' else ' + rest + ' }'
            k = c - 1
            d += 0
            k += 0
            k = j - 1
        elif x.t == 'return':
            return None
        k += 1
    return None


def inline_helpers(f, fn, body, known, log, rewrite, depth=0):
    """inline calls of helpers defined in the same file that the template does not mention"""
    if depth > 4:
        return body
    owner = None
    if '::' in fn.path and not fn.path.startswith('trait'):
        owner = fn.path.split('::')[0].lstrip('<').split(' as ')[0]
    pos = 0
    changed = False
    while True:
        t = tokenize(body)
        hit = None
        for i in range(len(t) - 1):
            if t[i].a < pos or t[i].k != 'id' or t[i + 1].t != '(' or t[i].t in known:
                continue
            if i > 0 and t[i - 1].t == 'fn':
                continue
            prev = t[i - 1].t if i else ''
            start = i
            if prev == '.':
                if i >= 2 and t[i - 2].t == 'self' and (i < 3 or t[i - 3].t != '.') and owner:
                    start = i - 2
                    kind = 'method'
                else:
                    continue
            elif prev == '::':
                if i >= 2 and t[i - 2].t in ('Self', owner) and owner:
                    start = i - 2
                    kind = 'assoc'
                else:
                    continue
            else:
                kind = 'free'
            if t[i].t[0].isupper():
                continue
            try:
                if kind == 'free':
                    h = f.find_fn(t[i].t)
                else:
                    h = f.find_fn(f'{owner}::{t[i].t}')
            except LostAnchor:
                continue
            hit = (start, i, kind, h)
            break
        if hit is None:
            return body
        start, i, kind, h = hit
        c = match_close(t, i + 1)
        args = split_args(body[t[i + 1].b:t[c].a])
        hb = tokenize(h.body)
        has_ret = any(x.k == 'id' and x.t == 'return' for x in hb)
        has_try = any(x.t == '?' for x in hb)
        drop_try = False
        hbody = h.body
        if has_ret or has_try:
            tailpos = (start > 0 and t[start - 1].t == 'return') or (c == len(t) - 2 and t[c + 1].t == '}')
            if not tailpos:
                if has_ret:
                    hbody = structured_returns(hbody)
                    if hbody is None:
                        raise LostAnchor(f'helper {h.name} cannot be inlined (early return)')
                if has_try:
                    # the error leaves the caller at once just where the helper would leave and `?` pass it on
                    if c + 1 >= len(t) or t[c + 1].t != '?':
                        raise LostAnchor(f'helper {h.name} cannot be inlined (early return)')
                    hbody, drop_try = unwrap_ok(hbody)
        ps = params_of(h)
        if kind == 'method':
            if not ps or ps[0][1] != 'self':
                raise LostAnchor(f'helper {h.name}: receiver')
            ps = ps[1:]
        if len(ps) != len(args):
            raise LostAnchor(f'helper {h.name}: arity')
        n = len(log)
        generic = tokenize(h.sig)[[x.t for x in tokenize(h.sig)].index(h.name) + 1].t == '<'
        txt = '{ '
        same = {j for j, (mu, nm, ty) in enumerate(ps) if args[j].strip() == nm and not mu}
        for j, a in enumerate(args):
            if j in same:
                continue
            ty = ps[j][2]
            ann = f': {ty}' if ty.startswith('&mut') and not generic and "'" not in ty and 'impl' not in ty else ''
            txt += f'let vx{n}_{j}{ann} = {a}; '
        for j, (mu, nm, ty) in enumerate(ps):
            if j in same:
                continue
            ann = '' if generic or "'" in ty or 'impl' in ty else f': {ty}'
            txt += f'let {"mut " if mu else ""}{nm}{ann} = vx{n}_{j}; '
        inner = rewrite(hbody)
        txt += inner[1:-1] + ' }'
        if drop_try:
            c += 1
        log.append(h.path)
        body = body[:t[start].a] + txt + body[t[c].b:]
        depth += 1
        if depth > 12:
            raise LostAnchor('inlining too deep')


def insert_return_name(sig, rname):
    if not rname:
        return sig
    t = tokenize(sig)
    d = 0
    # find '->' at depth 0 after the params
    i = next(k for k, x in enumerate(t) if x.t == 'fn') + 2
    while t[i].t != '(':
        i += 1
    c = match_close(t, i)
    if c + 1 < len(t) and t[c + 1].t == '->':
        # type runs to 'where' at depth 0 or end
        e = len(t)
        for k in range(c + 2, len(t)):
            if t[k].t == 'where':
                e = k
                break
        ty = sig[t[c + 2].a:(t[e - 1].b)]
        rest = sig[t[e - 1].b:]
        return sig[:t[c + 1].b] + f' ({rname}: {ty})' + rest
    return sig


def apply_insertions(body, ins):
    for pos, txt in sorted(ins, key=lambda z: -z[0]):
        body = body[:pos] + txt + body[pos:]
    return body


def parse_block(lines):
    """lines between //@fn and //@end -> dict section -> text"""
    secs = [('contract', '', [])]
    for ln in lines:
        m = re.match(r'\s*//@(\w+)\s*(.*)$', ln)
        if m:
            secs.append((m.group(1), m.group(2).strip(), []))
        else:
            secs[-1][2].append(ln)
    return [(a, b, '\n'.join(c)) for a, b, c in secs]


def emit_fn(spec, lines, known, res):
    m = re.match(r'^(\S+)\s+(.+?)(?:\s+\((\w+)\))?((?:\s+\w+)*)$', spec)
    file, path, rname = m.group(1), m.group(2), m.group(3)
    flags = (m.group(4) or '').split()
    if '(' not in spec:
        mm = re.match(r'^(\S+)\s+(<.*?>::\w+|trait \w+::\w+|\S+)\s*(.*)$', spec)
        file, path, rname, flags = mm.group(1), mm.group(2), None, mm.group(3).split()
    f = getfile(file)
    fn = f.find_fn(path)
    sig, body = fn.sig, fn.body
    secs = parse_block(lines)
    frag = {k: (arg, txt) for k, arg, txt in secs if k in ('from', 'upto', 'sig')}
    if 'sig' in frag:
        # a stretch of statements of the function, wrapped as a function of its own
        lo, hi = 1, len(body) - 1
        if 'from' in frag:
            mm = re.search(frag['from'][0][1:-1], body)
            if not mm:
                raise LostAnchor(f'{path}: fragment start {frag["from"][0]} not found')
            lo = mm.start()
        if 'upto' in frag:
            mm = re.search(frag['upto'][0][1:-1], body[lo:])
            if not mm:
                raise LostAnchor(f'{path}: fragment end {frag["upto"][0]} not found')
            hi = lo + mm.start()
        stretch = body[lo:hi]
        d = 0
        for x in tokenize(stretch):
            if x.k == 'p' and x.t in '([{':
                d += 1
            elif x.k == 'p' and x.t in ')]}':
                d -= 1
            if d < 0:
                raise LostAnchor(f'{path}: fragment is not a whole stretch of statements')
        if d:
            raise LostAnchor(f'{path}: fragment is not a whole stretch of statements')
        tail = ' Ok(()) ' if 'upto' in frag else ''
        body = '{' + stretch + tail + '}'
        sig = frag['sig'][0]
        res.subs.append(f'{path}: fragment from {frag.get("from", ("the start",))[0]} to {frag.get("upto", ("the end",))[0]} as `{sig}`')
    contract, ins_start = '', ''
    inl = []
    if fn.has_body:
        def rewrite(b):
            b = lower_str_match(b)
            b = replace_macro(b, 'matches', str_matches)
            if str_pattern(b):
                raise LostAnchor(f'{path}: a match on string literals')
            b = b.replace('verif_matches!(', 'matches!(')
            for k, arg, txt in secs:
                if k == 'sub':
                    mm = re.match(r'^/(.*?)/\s*=>\s*(.*)$', arg, re.S)
                    b, cnt = re.subn(mm.group(1), mm.group(2), b)
                    if cnt:
                        res.subs.append(f'{path}: /{mm.group(1)}/ -> {mm.group(2)}')
            for pat, rep in res.gsubs:
                b, cnt = re.subn(pat, rep, b)
                if cnt:
                    res.subs.append(f'{path}: /{pat}/ -> {rep}')
            return std_rewrites(b)
        body = rewrite(body)
        if 'noinline' not in flags:
            body = inline_helpers(f, fn, body, known, inl, rewrite)
    for k, arg, txt in secs:
        if k == 'sigsub':
            mm = re.match(r'^/(.*?)/\s*=>\s*(.*)$', arg, re.S)
            nb, cnt = re.subn(mm.group(1), mm.group(2), sig)
            if cnt:
                res.subs.append(f'{path} (signature): /{mm.group(1)}/ -> {mm.group(2)}')
            sig = nb
    ins = []
    if fn.has_body and 'nodesugar' not in flags:
        notes = []
        body = lower_position(body, notes)
        body = desugar_for(body, notes)
        res.subs += [f'{path}: index loop for `{x}`' for x in notes]
    closure = fn.has_body and has_closure(body)
    loops, toks = find_loops(body) if fn.has_body else ([], [])
    conv = set()
    for k, arg, txt in secs:
        a = arg.split() if k == 'loop' else []
        if len(a) > 1 and a[1] in ('l', 'w', 'r') and int(a[0]) < len(loops):
            nb = other_loop_form(body, loops, toks, int(a[0]), {'l': 'loop', 'w': 'while', 'r': 'while'}[a[1]])
            if nb is not None:
                res.subs.append(f'{path}: loop {a[0]} written as the equivalent {"loop with a break" if a[1] == "l" else "while"}')
                if a[1] == 'l':
                    conv.add(int(a[0]))
                    res.converted = True
                body = nb
                loops, toks = find_loops(body)
    nspec = len([1 for k, a, x in secs if k == 'loop'])
    for k, arg, txt in secs:
        if k == 'contract':
            contract += txt + '\n'
        elif k == 'start':
            ins.append((1, '\n' + txt + '\n'))
        elif k in ('loop', 'loopstart', 'loopend', 'afterloop', 'beforeloop'):
            a = arg.split()
            idx = int(a[0])
            if idx >= len(loops) or (k == 'loop' and len(a) > 2 and a[2] != loops[idx][0]):
                raise LostAnchor(f'{path}: loop {idx} not found')
            kw, ki, bi = loops[idx]
            want = {'w': 'while', 'f': 'for', 'l': 'loop', 'd': 'while', 'r': 'while'}
            if len(a) > 1 and a[1] in want and want[a[1]] != kw:
                raise LostAnchor(f'{path}: loop {idx} is now a {kw}')
            if VARIANT and idx in conv:
                # the loop was a `while`: its condition, not an invariant, tells that there is more to do
                flag = re.match(r'\{\s*if !\(\s*(!?\s*\w+)\s*\) \{ break; \}', body[toks[bi].a:])
                if k == 'loop' and flag:
                    txt = flagged(txt, flag.group(1))
                elif k == 'loop':
                    txt = re.sub(r'invariant_except_break\b.*?(?=^\s*(?:invariant|ensures|decreases)\b)', '', txt, flags=re.S | re.M)
                elif k == 'loopstart':
                    o = bi + 1
                    while toks[o].t != '{':
                        o = match_close(toks, o) + 1 if toks[o].k == 'p' and toks[o].t in '([' else o + 1
                    ins.append((toks[match_close(toks, o)].b, '\n' + txt + '\n'))
                    continue
            if k == 'loop':
                ins.append((toks[bi].a, '\n' + txt + '\n'))
                if kw == 'for' and len(a) > 2:
                    # name the ghost iterator
                    d = ki
                    while toks[d].t != 'in':
                        d += 1
                    ins.append((toks[d].b, f' {a[2]}:'))
            elif k == 'loopstart':
                ins.append((toks[bi].b, '\n' + txt + '\n'))
            elif k == 'beforeloop':
                b = ki
                if b >= 2 and toks[b - 1].t == ':':
                    b -= 2
                ins.append((toks[b].a, '\n' + txt + '\n'))
            elif k == 'loopend':
                ins.append((toks[match_close(toks, bi)].a, '\n' + txt + '\n'))
            else:
                ins.append((toks[match_close(toks, bi)].b, '\n' + txt + '\n'))
        elif k in ('before', 'after'):
            mm = re.match(r'^/(.*)/$', arg)
            hits = list(re.finditer(mm.group(1), body))
            if len(hits) < 1:
                raise LostAnchor(f'{path}: text anchor /{mm.group(1)}/ not found')
            p = hits[0].start() if k == 'before' else hits[0].end()
            ins.append((p, '\n' + txt + '\n'))
        elif k in ('sub', 'sigsub', 'from', 'upto', 'sig'):
            pass
        else:
            raise ValueError('unknown section ' + k)
    if fn.has_body and nspec != len(loops) and 'anyloops' not in flags:
        raise LostAnchor(f'{path}: {len(loops)} loops now, contract has invariants for {nspec}')
    body2 = apply_insertions(body, ins)
    sig = insert_return_name(sig, rname)
    if 'unpub' in flags:
        sig = re.sub(r'^pub(\([^)]*\))?\s+', '', sig)
    if 'noconst' in flags:
        sig = sig.replace('const fn', 'fn', 1)
    txt = f'{sig}\n{contract}{body2 if fn.has_body else ";"}\n'
    info = dict(path=path, file=file, name=fn.name, loops=len(loops), inlined=inl,
                sha=hashlib.sha256(fn.raw.encode()).hexdigest()[:16], has_body=fn.has_body, closure=closure)
    return txt, info


def has_closure(body):
    """a closure left in the extracted text: the verifier knows nothing of what it computes"""
    t = tokenize(body)
    return any(t[i].t in ('|', '||') and t[i - 1].t in ('(', ',', '=', '{', ';', 'return', 'move', '=>')
               and not re.match(r'\|\s*\w+\s*:\s*(int|nat|Seq)\b', body[t[i].a:]) for i in range(1, len(t)))


def emit_table(spec, res):
    """a constant table as a function that returns it: `//@item FILE table NAME ensures ...` gives verif_NAME"""
    m = re.match(r'^(\S+)\s+table\s+(\w+)\s+(.*)$', spec)
    f = getfile(m.group(1))
    src = f.find_item('const', m.group(2))
    cm = re.match(r'^(?:pub(?:\([^)]*\))?\s+)?const\s+\w+\s*:\s*(.*?)\s*=\s*(.*?);\s*$', src, re.S)
    if not cm:
        raise LostAnchor(f'{m.group(1)}: the table {m.group(2)} has another form')
    val = cm.group(2)
    for pat, rep in res.gsubs:
        val = re.sub(pat, rep, val)
    txt = f'pub fn verif_{m.group(2)}() -> (r: {cm.group(1)})\n  {m.group(3)}\n{{ let r: {cm.group(1)} = {val}; r }}\n'
    info = dict(path=m.group(2), file=m.group(1), name=m.group(2), loops=0, inlined=[], has_body=True,
                sha=hashlib.sha256(src.encode()).hexdigest()[:16], contract_lines=1)
    return txt, info


def emit_item(spec):
    m = re.match(r'^(\S+)\s+(struct|enum|const|static|type)\s+(\w+)((?:\s+\w+)*)$', spec)
    f = getfile(m.group(1))
    txt = f.find_item(m.group(2), m.group(3))
    flags = m.group(4).split()
    if m.group(2) == 'struct':
        # widen visibility
        txt = re.sub(r'^pub(\([^)]*\))?\s+', '', txt)
        txt = 'pub ' + txt
        b = txt.find('{')
        if b >= 0:
            inner = txt[b + 1:txt.rfind('}')]
            # drop field attributes
            parts = []
            for p in split_top(inner):
                p = re.sub(r'#\[[^\]]*\]\s*', '', p)
                p = re.sub(r'^pub(\([^)]*\))?\s+', '', p)
                parts.append('pub ' + p)
            txt = txt[:b + 1] + ',\n'.join(parts) + '}'
    elif m.group(2) == 'enum':
        txt = re.sub(r'#\[[^\]]*\]\s*', '', txt)
        txt = re.sub(r'^pub(\([^)]*\))?\s+', '', txt)
        txt = 'pub ' + txt
    else:
        txt = re.sub(r'^pub(\([^)]*\))?\s+', '', txt)
        txt = 'pub ' + txt
        cm = re.match(r'^pub const (\w+)\s*:\s*&(?:\'static )?\[u8\]\s*=\s*(b"(?:[^"\\]|\\.)*")\s*;', txt)
        if cm:  # a byte-string constant: the same bytes as an array, and the slice of it
            n = cm.group(1)
            arr = bytestr_rewrite(cm.group(2))[2:-1]
            cnt = len(eval(cm.group(2)))
            txt = f'pub const {n}_A: [u8; {cnt}] = {arr};\npub exec const {n}: &\'static [u8] ensures {n}@ =~= {n}_A@ {{ &{n}_A }}'
    return txt + '\n'


VARIANT = False


def assemble(tmpl_path, inject_false=None, variant=False):
    """variant: the second way to place the invariants of a loop rewritten from another loop form"""
    global VARIANT
    VARIANT = variant
    tmpl = open(tmpl_path).read()
    # includes
    def inc(m):
        return open(os.path.join(os.path.dirname(tmpl_path), m.group(1))).read()
    for _ in range(3):
        tmpl = re.sub(r'^\s*//@include\s+(\S+)\s*$', inc, tmpl, flags=re.M)
    known = known_fn_names(tmpl)
    res = Result()
    res.gsubs = [tuple(x) for x in re.findall(r'^\s*//@gsub\s+/(.*)/\s*=>\s*(.*?)\s*$', tmpl, re.M)]
    out = []
    lines = tmpl.split('\n')
    i = 0
    ln = 1

    def add(txt):
        nonlocal ln
        out.append(txt)
        ln += txt.count('\n')
    while i < len(lines):
        m = re.match(r'\s*//@(fn|item)\s+(.*)$', lines[i])
        if not m:
            add(lines[i] + '\n')
            i += 1
            continue
        try:
            if m.group(1) == 'item' and ' table ' in m.group(2):
                txt, info = emit_table(m.group(2).strip(), res)
                info['line_start'] = ln
                add(probe(txt) if inject_false else txt)
                info['line_end'] = ln
                res.funcs.append(info)
                i += 1
                continue
            if m.group(1) == 'item':
                add(emit_item(m.group(2).strip()))
                i += 1
                continue
            j = i + 1
            while not re.match(r'\s*//@end\b', lines[j]):
                j += 1
            blk = lines[i + 1:j]
            i = j + 1
            txt, info = emit_fn(m.group(2).strip(), blk, known, res)
            if inject_false and info['has_body']:
                # vacuity probe: assert(false) as the first statement of the body
                pass
            info['line_start'] = ln
            info['contract_lines'] = sum(1 for b in blk if b.strip())
            if inject_false and info['has_body']:
                txt = probe(txt)
            add(txt)
            info['line_end'] = ln
            res.funcs.append(info)
        except LostAnchor as e:
            res.lost.append(str(e))
            if m.group(1) == 'item':
                i += 1
            else:
                # stop here: the remaining text cannot be checked meaningfully
                pass
    res.text = ''.join(out)
    return res


def probe(txt):
    """insert `proof { assert(false); }` at the body start of an emitted function"""
    t = tokenize(txt)
    # the body is the last top-level brace group
    d, start = 0, None
    for x in t:
        if x.k == 'p' and x.t in '([{':
            if d == 0 and x.t == '{':
                start = x
            d += 1
        elif x.k == 'p' and x.t in ')]}':
            d -= 1
    return txt[:start.b] + ' proof { assert(false); } ' + txt[start.b:]
