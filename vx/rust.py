"""A small Rust tokenizer and item parser, enough for the output of
`rustc -Zunpretty=expanded`."""
import re

TOKEN = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:[^"\\]|\\.)*")
 |(?P<char>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<p>::|->|=>|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||<<=|>>=|\+=|-=|\*=|/=|\|=|&=|\^=|%=|[\s\S])
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 't', 's', 'e')

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return self.t


def lex(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        m = TOKEN.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'str'
        if k not in ('ws', 'lc', 'bc'):
            out.append(Tok(k, m.group(), m.start(), m.end()))
        elif k == 'bc' and '/*' in m.group()[2:]:
            raise ValueError('nested comment')
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match(toks, i):
    """Index of the token closing the bracket at i."""
    depth = 0
    while i < len(toks):
        t = toks[i].t
        if toks[i].k == 'p':
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth -= 1
                if depth == 0:
                    return i
        i += 1
    raise ValueError('unbalanced')


class Item:
    """kind: fn mod impl trait struct enum use const other"""

    def __init__(self, kind, name, attrs, toks, body=None, items=None, head=None):
        self.kind, self.name, self.attrs = kind, name, attrs
        self.toks = toks    # all tokens without the attributes
        self.head = head    # tokens before the body
        self.body = body    # tokens of the body, without braces
        self.items = items


def text(toks):
    """Canonical text of a list of tokens."""
    return ' '.join(t.t for t in toks)


QUAL = {'pub', 'const', 'unsafe', 'async', 'extern', 'default'}


def parse(toks):
    items = []
    i = 0
    n = len(toks)
    while i < n:
        attrs = []
        while i < n and toks[i].t == '#':
            j = i + 1
            if toks[j].t == '!':
                j += 1
            e = match(toks, j)
            attrs.append(toks[i:e + 1])
            i = e + 1
        if i >= n:
            break
        start = i
        # find the keyword
        j = i
        vis = None
        if toks[j].t == 'pub':
            j += 1
            if j < n and toks[j].t == '(':
                j = match(toks, j) + 1
        while toks[j].t in ('unsafe', 'async', 'default') or (toks[j].t == 'const' and toks[j + 1].t in ('fn', 'unsafe')) or (toks[j].t == 'extern' and toks[j + 1].k == 'str'):
            j += 2 if toks[j].t == 'extern' else 1
        kw = toks[j].t
        if kw in ('use', 'const', 'static', 'type') or (kw == 'extern'):
            e = j
            while toks[e].t != ';':
                if toks[e].t in OPEN:
                    e = match(toks, e)
                e += 1
            items.append(Item({'use': 'use', 'const': 'const', 'static': 'const', 'type': 'type'}.get(kw, 'other'), toks[j + 1].t, attrs, toks[start:e + 1]))
            i = e + 1
        elif kw in ('mod', 'impl', 'trait', 'fn', 'struct', 'enum', 'union'):
            e = j
            while toks[e].t not in ('{', ';'):
                if toks[e].t in ('(', '['):
                    e = match(toks, e)
                e += 1
            if toks[e].t == ';':
                items.append(Item(kw, toks[j + 1].t, attrs, toks[start:e + 1], head=toks[start:e]))
                i = e + 1
                continue
            c = match(toks, e)
            body = toks[e + 1:c]
            it = Item(kw, toks[j + 1].t if kw != 'impl' else None, attrs, toks[start:c + 1], body=body, head=toks[start:e])
            if kw in ('mod', 'impl', 'trait'):
                it.items = parse(body)
            items.append(it)
            i = c + 1
        else:
            # macro invocation or anything else
            e = j
            while toks[e].t not in ('{', ';'):
                if toks[e].t in ('(', '['):
                    e = match(toks, e)
                e += 1
            if toks[e].t == '{':
                e = match(toks, e)
            items.append(Item('macro', toks[j].t, attrs, toks[start:e + 1]))
            i = e + 1
    return items


def strip_generics(toks):
    """Tokens of an impl header after its generic parameters."""
    i = 0
    if toks and toks[0].t == '<':
        d = 0
        while True:
            if toks[i].t == '<':
                d += 1
            elif toks[i].t == '>':
                d -= 1
                if d == 0:
                    break
            elif toks[i].t == '>>':
                d -= 2
            i += 1
        return toks[i + 1:]
    return toks


def impl_key(it):
    """`Type` or `Trait for Type`, without lifetimes, paths and where clauses."""
    h = strip_generics(it.head[1:] if it.head[0].t == 'impl' else it.head[2:])
    out = []
    for t in h:
        if t.t == 'where':
            break
        out.append(t)
    # drop lifetimes
    res = []
    for t in out:
        if t.k == 'life':
            continue
        res.append(t.t)
    s = ' '.join(res)
    s = re.sub(r'< >', '', s)
    s = re.sub(r'(:: )?(\w+ :: )+', '', s) if False else s
    s = re.sub(r'\s*(<|>|::|,)\s*', r'\1', s)
    return s.strip()
