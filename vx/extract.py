"""Mechanical extraction of /repo's sources into one Verus file.

The input is what rustc itself prints after macro expansion. Every function of
the crate is copied token by token; what is dropped or rewritten is listed in
DROPPED and REWRITES below and counted in the report. Contracts come from
/verif/contracts/*.vc and are attached by function path."""
import hashlib
import os
import re
import subprocess
import sys
from rust import lex, parse, text, match, impl_key, Tok, OPEN, CLOSE
from inline import inline

DROPPED = [
    'unit tests (cfg(test)) and cfg(feature) code that is off by default (debug, serde, integration)',
    'doc comments, lint attributes, visibility (everything becomes pub so that contracts may name private fields)',
    'derived trait impls other than Clone, Copy, PartialEq, Eq and Default, and Display impls (formatting only)',
    'macro definitions (the extraction works on their expansions)',
]
REWRITES = {
    'bytes': 'x.to_le_bytes() / T::from_le_bytes(x) (and _be_) call wrappers with a contract around the same std function',
    'array': 'slice.try_into().unwrap() calls a wrapper with a contract around the same std function',
    'method': 'methods of the standard library that the verifier does not know (to_vec, iter().position) call wrappers with a contract around the same method',
    'break': 'let x = loop { .. break e; .. } assigns to a variable in front of the loop instead',
    'tuple': '(x, y) = e assigns the parts of a tuple one by one',
    'arms': 'match arms P | Q if G => E and P { x, .. } | Q { x, .. } => E become one arm for P and one for Q',
    'map_err': 'map_err(path) and map_err(|_| path) become closures that state their result',
    'panic': 'panic!/unreachable!/assert! failures become calls that require false',
    'format': 'format! calls a wrapper with a contract around the same format!',
    'default': 'default methods of traits are copied into the impls that rely on them',
    'self': 'fn f(mut self, ..) takes self and moves it into a mutable local first',
    'inline': 'a function without contract is written out where it is called, if that has the same meaning (vx/inline.py)',
    'sub': 'per-function substitutions given in the contract file (closure parameter patterns, iterator adapters, float casts)',
}


class Lost(Exception):
    pass


class ExpandError(Exception):
    pass


def expand(repo):
    env = dict(os.environ, RUSTC_BOOTSTRAP='1')
    r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '-Zunpretty=expanded', repo + '/src/lib.rs'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd='/')
    if r.returncode != 0:
        raise ExpandError(r.stderr[-2000:])
    return r.stdout


# ---------------------------------------------------------------- contracts

class FnSpec:
    def __init__(self, key):
        self.key = key
        self.props = []
        self.ret = 'r'
        self.spec = ''
        self.attrs = ''
        self.parts = {}         # (what, n) -> text
        self.anchors = []       # (before/after, pattern, text)
        self.subs = []          # (pattern, replacement, required)
        self.trusted = None
        self.headsubs = []
        self.skip = False
        self.where = None
        self.optional = False


class Contracts:
    def __init__(self):
        self.fns = {}
        self.inject = {}        # path -> text, in front of the items of a module/impl/trait
        self.heads = {}         # key -> (pattern, replacement)
        self.types = {}         # type path -> attribute text
        self.skip = set()
        self.lemmas = []

    def load(self, path):
        mod = ''
        cur = None
        sink = None             # function that receives text
        buf = []

        def flush():
            nonlocal buf
            if sink:
                sink('\n'.join(buf) + '\n')
            buf = []
        for no, line in enumerate(open(path).read().split('\n'), 1):
            if line.startswith('@'):
                flush()
                sink = None
                d, _, rest = line[1:].partition(' ')
                rest = rest.strip()
                if d == 'module':
                    mod = rest + '::' if rest else ''
                elif d == 'fn':
                    cur = FnSpec(mod + rest)
                    cur.where = f'{os.path.basename(path)}:{no}'
                    self.fns[cur.key] = cur
                elif d == 'props':
                    cur.props = rest.split()
                elif d == 'ret':
                    cur.ret = rest
                elif d == 'attr':
                    cur.attrs += rest + '\n'
                elif d == 'trusted':
                    cur.trusted = rest or 'no contract within reach'
                elif d == 'skip':
                    cur.skip = True
                elif d == 'optional':
                    cur.optional = True
                elif d == 'spec':
                    c = cur
                    sink = lambda t, c=c: setattr(c, 'spec', c.spec + t)
                elif d in ('begin', 'loop', 'loopbegin', 'loopend', 'loopafter', 'loopbefore', 'loopiter'):
                    k = (d, int(rest) if rest else 0)
                    c = cur
                    sink = lambda t, c=c, k=k: c.parts.__setitem__(k, c.parts.get(k, '') + t)
                elif d in ('before', 'after'):
                    c = cur
                    sink = lambda t, c=c, a=(d, rest): c.anchors.append((a[0], a[1], t))
                elif d in ('sub', 'sub?'):
                    p, _, r = rest.partition(' => ')
                    cur.subs.append((p.strip(), r.strip(), d == 'sub'))
                elif d == 'headsub':
                    p, _, r = rest.partition(' => ')
                    cur.headsubs.append((p.strip(), r.strip()))
                elif d == 'inject':
                    k = mod + rest
                    sink = lambda t, k=k: self.inject.__setitem__(k, self.inject.get(k, '') + t)
                elif d == 'head':
                    k, _, r = rest.partition(' ## ')
                    p, _, r = r.partition(' => ')
                    self.heads.setdefault(mod + k.strip(), []).append((p.strip(), r.strip()))
                elif d == 'type':
                    k, _, r = rest.partition(' ## ')
                    self.types[mod + k.strip()] = r.strip()
                elif d == 'skipitem':
                    self.skip.add(mod + rest)
                elif d == 'end' or d == '#':
                    pass
                else:
                    raise SystemExit(f'{path}:{no}: unknown directive {d}')
            else:
                buf.append(line)
        flush()


# ---------------------------------------------------------------- emission

def pattern(s):
    return [t.t for t in lex(s)]


def find(toks, pat, start=0):
    """First occurrence of a token pattern; $x matches any one token, $* any
    balanced sequence (shortest)."""
    n = len(pat)

    def at(i, j):
        while j < n:
            if pat[j] == '$' and j + 1 < n and pat[j + 1] == '*':
                k = i
                while k <= len(toks):
                    r = at(k, j + 2)
                    if r is not None:
                        return r
                    if k >= len(toks) or toks[k].t in CLOSE:
                        return None
                    k = match(toks, k) + 1 if toks[k].t in OPEN else k + 1
                return None
            if i >= len(toks):
                return None
            if pat[j] == '$':
                j += 2
                i += 1
                continue
            if toks[i].t != pat[j]:
                return None
            i += 1
            j += 1
        return i
    for i in range(start, len(toks)):
        r = at(i, 0)
        if r is not None:
            return i, r
    return None


def capture(toks, pat):
    """What $* stands for in an occurrence of a pattern."""
    k = next(i for i in range(len(pat)) if pat[i] == '$' and pat[i + 1] == '*')
    n = k + sum(1 for i in range(k) if pat[i] == '$') * -1
    tail = len(pat) - k - 2 - sum(1 for i in range(k + 2, len(pat)) if pat[i] == '$')
    return toks[n:len(toks) - tail]


def raw(t):
    return Tok('raw', t, -1, -1)


BASE = [1 << 30]


def relex(s):
    BASE[0] += len(s) + 2
    return [Tok(t.k, t.t, t.s + BASE[0], t.e + BASE[0]) for t in lex(s)]


class Emit:
    def __init__(self, contracts, disabled=(), only_sig=()):
        self.c = contracts
        self.out = []
        self.line = 1
        self.map = []           # (first line, last line, key)
        self.counts = {k: 0 for k in REWRITES}
        self.found = set()
        self.nospec = []
        self.lost = {}
        self.disabled = disabled
        self.compiled = False
        self.trust_all = not os.environ.get('VX_TRUST_NONE')
        self.loops = {}
        self.defaults = {}
        self.bodies = set()     # functions whose body is verified
        self.idents = {}        # function -> identifiers of its body
        self.inlined = {}       # caller -> functions that were written out in it
        self.gone = set()       # functions without contract that nothing calls after that
        self.weak = {}          # function -> optional hint that found no place

    def digest(self):
        return hashlib.sha256(''.join(self.out).encode()).hexdigest()

    def put(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    # -- rewriting of token lists
    def rewrite(self, toks, key):
        out = list(toks)
        # attributes inside of bodies
        i = 0
        res = []
        while i < len(out):
            if out[i].t == '#' and i + 1 < len(out) and out[i + 1].t == '[':
                i = match(out, i + 1) + 1
                continue
            res.append(out[i])
            i += 1
        out = res

        def sub(pat, fn, what):
            nonlocal out
            p = pattern(pat)
            start = 0
            while True:
                m = find(out, p, start)
                if not m:
                    return
                a, b = m
                new = fn(out[a:b])
                if new is None:
                    start = a + 1
                    continue
                out[a:b] = new
                self.counts[what] += 1
                start = a + len(new)
        for e in ('le', 'be', 'ne'):
            sub(f'. to_{e}_bytes ( )', lambda t, e=e: [raw(f'.vx_to_{e}_bytes()')], 'bytes')
            for ty in ('i32', 'i64', 'u32', 'u64', 'f32', 'f64'):
                sub(f'< {ty} > :: from_{e}_bytes', lambda t, e=e, ty=ty: [raw(f'vx_{ty}_from_{e}_bytes')], 'bytes')
                sub(f'{ty} :: from_{e}_bytes', lambda t, e=e, ty=ty: [raw(f'vx_{ty}_from_{e}_bytes')], 'bytes')
        for m in ('to_vec',):
            sub(f'. {m} (', lambda t, m=m: relex(f'.vx_{m}('), 'method')
        sub('. iter ( ) . position (', lambda t: relex('.vx_position('), 'method')
        use = '{ broadcast use {crate::vx::ax_allocated, crate::vx::ax_allocated_slice}; crate::vx::'
        for c in ('Vec', 'String'):
            sub(f'{c} :: with_capacity ( $* )', lambda t, c=c: relex(use + f'vx_{c.lower()}_with_capacity') + t[3:] + relex('}'), 'method')
        for m in ('min', 'max'):
            for pre in ('std :: cmp ::', 'core :: cmp ::', 'cmp ::'):
                sub(f'{pre} {m} (', lambda t, m=m: relex(f'Ord::{m}('), 'method')
        sub('. reserve (', lambda t: relex('.vx_reserve('), 'method')
        sub('. try_into ( ) . unwrap ( )', lambda t: [raw('.vx_try_into_array()')], 'array')
        sub(':: core :: panicking :: panic ( $* )', lambda t: [raw('vx_unreachable()')], 'panic')
        sub(':: core :: panicking :: panic_fmt ( $* )', lambda t: [raw('vx_unreachable()')], 'panic')
        sub('let kind = :: core :: panicking :: AssertKind :: Eq ;', lambda t: [], 'panic')
        sub('let kind = :: core :: panicking :: AssertKind :: Ne ;', lambda t: [], 'panic')
        sub(':: core :: panicking :: assert_failed ( $* )', lambda t: [raw('vx_unreachable()')], 'panic')

        # let x = loop { .. break e; .. };
        start = 0
        while True:
            m = find(out, pattern('let $x = loop {'), start)
            if not m:
                break
            a, b = m
            x = out[a + 1]
            c = match(out, b - 1)
            inner = []
            j = b
            while j < c:
                if out[j].t == 'break' and out[j].k == 'id' and out[j + 1].t not in (';', ',', '}'):
                    k = j + 1
                    while k < c and out[k].t not in (';', ',', '}'):
                        k = match(out, k) + 1 if out[k].t in OPEN else k + 1
                    inner += [raw('{ vx_loop = ')] + out[j + 1:k] + relex('; break; }')
                    j = k
                    continue
                inner.append(out[j])
                j += 1
            new = relex('let vx_loop; loop {') + inner + [out[c]] + relex('let') + [x] + relex('= vx_loop')
            out[a:c + 1] = new
            self.counts['break'] += 1
            start = a + 4
        # (x, y) = e;
        i = 0
        while i < len(out):
            if out[i].t == '(' and out[i].k == 'p' and i and out[i - 1].t in (';', '{', '}'):
                c = match(out, i)
                if c + 1 < len(out) and out[c + 1].t == '=' and all(t.k in ('id', 'num') or t.t in ('.', ',') for t in out[i + 1:c]):
                    places = [p.split() for p in text(out[i + 1:c]).split(' , ')]
                    e = c + 2
                    while out[e].t != ';':
                        e = match(out, e) + 1 if out[e].t in OPEN else e + 1
                    new = relex('{ let (' + ', '.join('_' if p == ['_'] else f'vx_t{n}' for n, p in enumerate(places)) + ') =') + out[c + 2:e] + relex(';')
                    for n, p in enumerate(places):
                        if p != ['_']:
                            new += relex(''.join(p) + f' = vx_t{n};')
                    out[i:e + 1] = new + relex('}')
                    self.counts['tuple'] += 1
            i += 1
        # P | Q if G => E
        self.split_arms(out)

        def fmt(t):
            m = find(t, pattern('format_args ! ( $* )'))
            if not m:
                return None
            args = t[m[0] + 3:m[1] - 1]
            s = args[0].t
            rest = args[2:]
            name = {'"__%lunify%__temp{0}_{1}\\0"': 'vx_format_temp', '"{0}\\0"': 'vx_format_terminated'}.get(s)
            if not name:
                return None
            return [raw(name + '(')] + rest + [raw(')')]
        sub(':: alloc :: __export :: must_use ( $* )', fmt, 'format')
        sub(':: alloc :: fmt :: format ( $* )', fmt, 'format')

        def closure(t):
            # map_err ( PATH ) / map_err ( | x | PATH )
            inner = t[2:-1]
            if inner and inner[0].t == '|' and len(inner) > 3 and inner[2].t == '|':
                expr = inner[3:]
                if all(x.k == 'id' or x.t == '::' for x in expr):
                    v = '_vx' if inner[1].t == '_' else inner[1].t
                    e = text(expr)
                    return [raw(f'map_err(|{v}| -> (vx_r: LunifyError) ensures vx_r == {e} {{ {e} }})')]
                return None
            if inner and all(x.k == 'id' or x.t == '::' for x in inner):
                e = text(inner)
                return [raw(f'map_err(|vx_e| -> (vx_r: LunifyError) ensures vx_r == {e}(vx_e) {{ {e}(vx_e) }})')]
            return None
        sub('map_err ( $* )', closure, 'map_err')
        if getattr(self, 'mutself', False):
            self.counts['self'] += 1
            out = [raw('let mut vx_self = self;\n')] + [Tok('id', 'vx_self', t.s, t.e) if t.t == 'self' and t.k == 'id' else t for t in out]
        spec = self.c.fns.get(key)
        if spec:
            for p, r, req in spec.subs:
                n = self.counts['sub']
                parts = r

                def fn(t, parts=parts, p=p):
                    if '$*' not in parts:
                        return relex(parts)
                    a, _, z = parts.partition('$*')
                    return relex(a) + capture(t, pattern(p)) + relex(z)
                sub(p, fn, 'sub')
                if req and self.counts['sub'] == n:
                    raise Lost(f'pattern not found: {p}')
        return out

    def split_arms(self, out):
        """P { .. } | Q { .. } => E and P | Q if G => E become two arms."""
        i = 0
        while i < len(out):
            if out[i].t != '=>':
                i += 1
                continue
            # back to the start of the arm
            j = i - 1
            bars = []
            guard = None
            while j >= 0 and out[j].t not in (';', ',', '=>', '='):
                if out[j].t in CLOSE:
                    d = 0
                    e = j
                    while True:
                        if out[j].t in CLOSE:
                            d += 1
                        if out[j].t in OPEN:
                            d -= 1
                        if d == 0:
                            break
                        j -= 1
                    # a block in front of the pattern ends the previous arm
                    if out[j].t == '{' and j and (out[j - 1].t == '=>' or out[e + 1].k == 'id' and out[e + 1].t != 'if'):
                        j = e
                        break
                elif out[j].t in OPEN:
                    break
                elif out[j].t == '|':
                    bars.append(j)
                elif out[j].t == 'if' and out[j].k == 'id':
                    guard = j
                    bars = []
                j -= 1
            end = guard or i
            pat = out[j + 1:end]
            bars = [x for x in bars if x > j]
            if bars and (guard or any(t.t == '{' for t in pat)):
                e = i + 1
                if out[e].t == '{':
                    e = match(out, e) + 1
                else:
                    while out[e].t not in (',', '}'):
                        e = match(out, e) + 1 if out[e].t in OPEN else e + 1
                tail = out[end:e]
                cuts = [j] + sorted(bars) + [end]
                new = []
                for n in range(len(cuts) - 1):
                    new += out[cuts[n] + 1:cuts[n + 1]] + tail + relex(',')
                if e < len(out) and out[e].t == ',':
                    e += 1
                out[j + 1:e] = new
                self.counts['arms'] += 1
                # continue inside of the first copy, which may contain matches
                i = j + 1 + (cuts[1] - cuts[0] - 1) + (i - end) + 1
                continue
            i += 1

    def render(self, toks):
        """Back to text, one line per statement or block."""
        s = []
        prev = None
        for t in toks:
            if t.k == 'raw':
                s.append(' ' + t.t + ' ')
            elif prev is not None and prev.k != 'raw' and prev.e == t.s:
                s.append(t.t)
            else:
                s.append(' ' + t.t)
            if t.t in (';', '{', '}') and t.k == 'p':
                s.append('\n')
            prev = t
        return ''.join(s)

    def loop_kinds(self, toks):
        out = []
        for i, t in enumerate(toks):
            if t.k == 'id' and t.t in ('while', 'loop', 'for') and not (i and toks[i - 1].t in ('.', '::')):
                if t.t == 'for' and i + 1 < len(toks) and toks[i + 1].t == '<':
                    continue
                out.append((t.t, i))
        return out

    def fn(self, it, path, vis=''):
        key = path + it.name
        spec = self.c.fns.get(key)
        self.found.add(key)
        if spec and spec.skip:
            return
        self.mutself = find(it.head, pattern('( mut self')) is not None
        head = self.signature(it.head, spec)
        body = it.body
        try:
            if body is None:
                self.put(head + '\n' + (spec.spec if spec else '') + ';\n')
                return
            kinds = self.loop_kinds(body)
            self.loops[key] = [k for k, _ in kinds]
            self.idents[key] = {t.t for t in body if t.k == 'id'}
            level = self.disabled.get(key, (0, ''))[0]
            if level >= 2 and spec:
                spec = FnSpec(key)
            if spec is None:
                self.nospec.append(key)
            trusted = spec.trusted if spec else None
            if spec is None and self.trust_all:
                trusted = 'no contract'
            if level:
                trusted = 'disabled: ' + self.disabled[key][1]
            if trusted:
                body = list(body)
                btext = self.render(self.rewrite(body, key)) if not trusted.startswith('disabled') else self.render(body)
                if trusted.startswith('disabled') or 'nobody' in trusted:
                    btext = 'unimplemented!()'
                pre = '#[verifier::external_body]\n'
            else:
                pre = ''
                btext = self.body(body, key, spec)
                self.bodies.add(key)
        except Lost as e:
            self.lost[key] = str(e)
            pre = '#[verifier::external_body]\n'
            btext = self.render(body).replace('::alloc::__export::must_use', '').replace('::alloc::', '::std::') if self.compiled else 'unimplemented!()'
        first = self.line
        self.put((spec.attrs if spec else '') + pre + vis + head + '\n')
        if spec and spec.spec:
            self.put(spec.spec)
        self.put('{\n' + btext + '\n}\n')
        self.map.append((first, self.line, key))

    def signature(self, head, spec):
        out = []
        i = 0
        toks = [t for t in head]
        # strip visibility
        while i < len(toks):
            if toks[i].t == 'pub':
                i += 1
                if i < len(toks) and toks[i].t == '(' :
                    i = match(toks, i) + 1
                continue
            if toks[i].t == 'mut' and toks[i + 1].t == 'self' and toks[i - 1].t == '(':
                i += 1
                continue
            out.append(toks[i])
            i += 1
        for p, r in (spec.headsubs if spec else []):
            m = find(out, pattern(p))
            if m:
                out[m[0]:m[1]] = [raw(r)]
        # name the result
        if spec and spec.spec and 'ensures' in spec.spec:
            d = 0
            for j, t in enumerate(out):
                if t.t == '->' and d == 0:
                    e = len(out)
                    for k in range(j + 1, len(out)):
                        if out[k].t == 'where':
                            e = k
                            break
                    out = out[:j + 1] + [raw(f'({spec.ret}: ')] + out[j + 1:e] + [raw(')')] + out[e:]
                    break
                if t.t in OPEN:
                    d += 1
                elif t.t in CLOSE:
                    d -= 1
        return self.render(out)

    @staticmethod
    def wanted(text, names):
        # /*name:*/ ... /*:name*/ is only for code in which there is such a variable
        return re.sub(r'/\*(\w+):\*/(.*?)/\*:\1\*/', lambda m: m.group(2) if m.group(1) in names else '', text, flags=re.S)

    def body(self, body, key, spec):
        toks = self.rewrite(body, key)
        if not spec:
            return self.render(toks)
        kinds = self.loop_kinds(toks)
        want = {n for (d, n) in spec.parts if d.startswith('loop')}
        if want and max(want) > len(kinds):
            raise Lost(f'loop {max(want)} not found ({len(kinds)} loops)')
        # insert from the back so that indices stay valid
        ins = []
        names = {t.t for t in toks} | {x for t in toks if 'vx_' in t.t for x in re.findall(r'\w+', t.t)}
        for n in sorted(want):
            kind, i = kinds[n - 1]
            j = i + 1
            # the block of the loop
            while toks[j].t != '{':
                j = match(toks, j) + 1 if toks[j].t in ('(', '[') else j + 1
            c = match(toks, j)
            g = lambda d: self.wanted(spec.parts.get((d, n), ''), names)
            if g('loopbefore'):
                ins.append((i, g('loopbefore')))
            if g('loopiter') and kind == 'for':
                # for PAT in it: EXPR
                k = i
                while toks[k].t != 'in':
                    k = match(toks, k) + 1 if toks[k].t in OPEN else k + 1
                ins.append((k + 1, g('loopiter').strip() + ':'))
            ins.append((j, '\n' + g('loop')))
            ins.append((j + 1, '\n' + g('loopbegin')))
            ins.append((c, '\n' + g('loopend')))
            if g('loopafter'):
                ins.append((c + 1, '\n' + g('loopafter')))
        for where, pat, t in spec.anchors:
            opt = pat.startswith('?')
            p = pat[1:].strip() if opt else pat
            nth = 1
            mm = re.match(r'#(\d+)\s+(.*)', p)
            if mm:
                nth, p = int(mm.group(1)), mm.group(2)
            pos = 0
            m = None
            for _ in range(nth):
                m = find(toks, pattern(p), pos)
                if not m:
                    break
                pos = m[0] + 1
            if not m:
                if opt:
                    self.weak[key] = p
                    continue
                raise Lost(f'anchor not found: {p}')
            ins.append((m[0] if where == 'before' else m[1], '\n' + self.wanted(t, names)))
        if ('begin', 0) in spec.parts:
            ins.append((0, spec.parts[('begin', 0)]))
        for i, t in sorted(enumerate(ins), key=lambda x: (-x[1][0], -x[0])):
            toks.insert(t[0], raw(t[1]))
        return self.render(toks)

    # -- items
    def items(self, items, path, derived):
        inj = self.c.inject.get(path[:-2] if path else '', '')
        if inj:
            self.put(inj)
        for it in items:
            self.item(it, path, derived)

    def item(self, it, path, derived):
        attrs = [text(a) for a in it.attrs]
        auto = any('automatically_derived' in a for a in attrs)
        if it.kind == 'macro' or it.kind == 'other':
            return
        if any(a.startswith('# [ test') or 'rustc_test_marker' in a for a in attrs):
            return
        if it.kind == 'use':
            if 'macros' in text(it.toks):
                return
            t = [x for x in it.toks]
            s = self.strip_vis(t)
            if re.search(r'\b(fmt|FromStr|serde)\b', s):
                return
            self.put('pub ' + s + '\n')
            return
        if it.kind == 'mod':
            if it.name in ('tests', 'macros') or it.items is None:
                return
            if not it.items:
                return
            self.put(f'pub mod {it.name} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\nbroadcast use crate::vx::vx_axioms;\n')
            self.items(it.items, path + it.name + '::', self.derives(it.items))
            self.put('}\n')
            return
        if it.kind in ('struct', 'enum'):
            key = path + it.name
            d = self.c.types.get(key)
            eq = None
            if d is None:
                have = derived.get(it.name, set())
                ds = [x for x in ('Clone', 'Copy') if x in have]
                if {'Copy', 'PartialEq', 'Eq'} <= have:
                    ds += ['PartialEq', 'Eq']
                    if not any(t.t == '<' for t in it.head):
                        eq = it.name
                d = f'#[derive({", ".join(ds)})]' if ds else ''
            self.put(d + '\npub ' + self.widen(it) + '\n')
            if eq:
                self.put(f'impl vstd::std_specs::cmp::PartialEqSpecImpl for {eq} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n')
            return
        if it.kind in ('const', 'type'):
            self.put('pub ' + self.strip_vis(it.toks) + '\n')
            return
        if it.kind == 'fn':
            # free functions
            self.fn(it, path, 'pub ')
            return
        if it.kind == 'trait':
            key = path + it.name
            if key in self.c.skip:
                return
            h = self.sub_head(it.head, key)
            self.put('pub ' + h + ' {\n')
            self.put(self.c.inject.get(key, ''))
            for f in it.items:
                if f.kind == 'fn':
                    self.trait_fn(f, key + '::')
                    if f.body is not None:
                        self.defaults.setdefault(it.name, []).append(f)
            self.put('}\n')
            return
        if it.kind == 'impl':
            k = impl_key(it)
            trait = k.split(' for ')[0].split('for ')[0] if 'for ' in k else None
            if auto:
                if not re.match(r'(::core::default::|)Default', k):
                    return
                k = k.replace('::core::default::', '')
            if trait and re.search(r'\b(Display|Debug|Hash|PartialOrd|Ord|StructuralPartialEq)\b', trait):
                return
            key = path + self.norm(k)
            if key in self.c.skip:
                return
            h = self.sub_head(it.head, key)
            self.put(h + ' {\n')
            self.put(self.c.inject.get(key, ''))
            if trait:
                have = {f.name for f in it.items}
                t = re.sub(r'<.*', '', trait).split('::')[-1].strip()
                for f in self.defaults.get(t, []):
                    if f.name not in have:
                        self.counts['default'] += 1
                        self.fn(f, key + '::')
            for f in it.items:
                if f.kind == 'fn':
                    self.fn(f, key + '::', '' if 'for ' in k else 'pub ')
                else:
                    self.put(self.strip_vis(f.toks) + '\n')
            self.put('}\n')
            return
        raise SystemExit('unhandled item ' + it.kind)

    def norm(self, k):
        k = re.sub(r'\bsuper::', '', k)
        k = re.sub(r'(>)?for ', r'\1 for ', k)
        return re.sub(r'\s+', ' ', k).strip()

    def trait_fn(self, f, path):
        key = path + f.name
        spec = self.c.fns.get(key)
        self.found.add(key)
        head = self.signature(f.head, spec)
        first = self.line
        self.put(head + '\n' + (spec.spec.rstrip().rstrip(',') if spec else '') + ';\n')
        self.map.append((first, self.line, key))

    def sub_head(self, head, key):
        out = list(head)
        for p, r in self.c.heads.get(key, []):
            m = find(out, pattern(p))
            if not m:
                self.lost[key] = 'head pattern not found: ' + p
                continue
            out[m[0]:m[1]] = [raw(r)]
        return self.strip_vis(out)

    def strip_vis(self, toks):
        out = []
        i = 0
        while i < len(toks):
            if toks[i].t == 'pub':
                i += 1
                if i < len(toks) and toks[i].t == '(':
                    i = match(toks, i) + 1
                continue
            out.append(toks[i])
            i += 1
        return self.render(out)

    def widen(self, it):
        """A type definition with all fields public."""
        toks = it.toks
        out = []
        i = 0
        while i < len(toks):
            if toks[i].t == '#':
                i = match(toks, i + 1) + 1
                continue
            if toks[i].t == 'pub':
                i += 1
                if toks[i].t == '(' and toks[i + 1].t in ('crate', 'super', 'in', 'self'):
                    i = match(toks, i) + 1
                continue
            out.append(toks[i])
            i += 1
        if it.kind == 'struct':
            # make the fields public
            for j, t in enumerate(out):
                if t.t in ('{', '(') and t.k == 'p':
                    break
            else:
                return self.render(out)
            c = match(out, j)
            res = out[:j + 1]
            k = j + 1
            start = True
            depth = 0
            while k < c:
                if start:
                    res.append(raw('pub'))
                    start = False
                if out[k].t in ('<', '(', '['):
                    depth += 1
                if out[k].t in ('>', ')', ']'):
                    depth -= 1
                if out[k].t == ',' and depth == 0:
                    start = k + 1 < c
                res.append(out[k])
                k += 1
            return self.render(res + out[c:])
        return self.render(out)

    def derives(self, items):
        d = {}
        for it in items:
            if it.kind == 'impl' and any('automatically_derived' in text(a) for a in it.attrs):
                k = impl_key(it)
                m = re.match(r'(?:::)?(?:\w+::)*(\w+)(?:<.*>)? ?for (\w+)', k)
                if m:
                    d.setdefault(m.group(2), set()).add(m.group(1))
        return d


def build(repo, cdir, disabled=None, compiled=False, without=()):
    c = Contracts()
    for f in sorted(os.listdir(cdir)):
        if f.endswith('.vc'):
            c.load(os.path.join(cdir, f))
    src = expand(repo)
    its = parse(lex(src))
    its = [i for i in its if not (i.kind == 'use' and 'prelude' in text(i.toks))]
    e = Emit(c, disabled or {})
    e.compiled = compiled           # for the comparison with the crate: bodies that cannot be verified stay as they are
    e.inlined, e.gone = inline(its, e, c.fns, without)
    e.counts['inline'] = sum(map(len, e.inlined.values()))
    e.put('#![allow(unused, dead_code, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n')
    for f in sorted(os.listdir(cdir)):
        if f.endswith('.rs'):
            first = e.line
            e.put(open(os.path.join(cdir, f)).read())
            e.map.append((first, e.line, 'spec:' + f))
    e.put('use crate::vx::*;\n')
    e.items(its, '', e.derives(its))
    e.put('}\nfn main() {}\n')
    return e


if __name__ == '__main__':
    e = build(sys.argv[1], sys.argv[2])
    open(sys.argv[3], 'w').write(''.join(e.out))
    print('lost', e.lost)
    print('counts', e.counts)
    print('without contract', len(e.nospec))
    miss = [k for k in e.c.fns if k not in e.found]
    print('contracts without function', miss)
