"""Functions that have no contract are written out where they are called.

A helper that somebody extracted has no contract, so its callers could not be
verified. Where the meaning allows it the call `helper(a, b)` becomes
`{ let (x, y): (X, Y) = (a, b); body }` before anything else is done. The
conditions below keep that exact: no recursion, no generics, and
`return` or `?` in the helper only where leaving the caller is the same."""
from rust import match, lex, text, Tok, OPEN

BASE = [1 << 40]


def relex(s):
    BASE[0] += len(s) + 2
    return [Tok(t.k, t.t, t.s + BASE[0], t.e + BASE[0]) for t in lex(s)]


def copied(toks):
    """The same tokens at another place, what was adjacent stays adjacent."""
    BASE[0] += 1
    if not toks:
        return []
    low = min(t.s for t in toks)
    out = [Tok(t.k, t.t, t.s - low + BASE[0], t.e - low + BASE[0]) for t in toks]
    BASE[0] = max(t.e for t in out) + 1
    return out


def split(toks):
    """Split at the commas of the outermost level, `<` and `|` included."""
    out, cur, i, angle = [], [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.t in OPEN and t.k == 'p':
            j = match(toks, i)
            cur += toks[i:j + 1]
            i = j + 1
            continue
        if t.t == '<' and t.k == 'p':
            angle += 1
        elif t.t == '>' and t.k == 'p':
            angle -= 1
        if t.t == ',' and angle == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def arguments(toks):
    """Split the arguments of a call: `<` is a comparison or a turbofish there."""
    out, cur, i = [], [], 0
    closure = False
    while i < len(toks):
        t = toks[i]
        if t.t in OPEN and t.k == 'p':
            j = match(toks, i)
            cur += toks[i:j + 1]
            i = j + 1
            continue
        if t.t == '|' and not cur:
            closure = True
        elif t.t == '|' and closure:
            closure = False
        if t.t == '::' and i + 1 < len(toks) and toks[i + 1].t == '<':
            return None
        if t.t == ',' and not closure:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


class Helper:
    def __init__(self, key, it, module, owner):
        self.key, self.name, self.module, self.owner, self.it = key, it.name, module, owner, it
        self.calls = 0
        self.ok = self.parse()

    def parse(self):
        h = self.it.head
        i = next((k for k in range(len(h)) if h[k].t == 'fn'), None)
        if i is None or any(t.t in ('async', 'unsafe', 'extern') for t in h[:i]) or h[i + 2].t != '(':
            return False
        j = match(h, i + 2)
        self.receiver = None
        self.params = []
        for p in split(h[i + 3:j]):
            names = [t.t for t in p]
            if names in (['self'], ['&', 'self'], ['&', 'mut', 'self'], ['mut', 'self']):
                self.receiver = ' '.join(names)
                continue
            m = names[0] == 'mut'
            if len(p) < 3 + m or p[m].k != 'id' or p[m + 1].t != ':' or 'impl' in names:
                return False
            self.params.append((p[:m + 1], p[m + 2:]))
        self.ret = h[j + 2:] if j + 1 < len(h) and h[j + 1].t == '->' else []
        if self.receiver == 'mut self' or any(t.t in ('where', 'impl') for t in h[j:]):
            return False
        b = self.it.body
        # an inner function, or a call of itself
        if any(t.k == 'id' and t.t in ('fn', self.name) for t in b):
            return False
        self.returns = [k for k in range(len(b)) if b[k].t == 'return' and b[k].k == 'id']
        self.errors = any(t.t == '?' for t in b)
        self.only_errors = all(b[k + 1].t == 'Err' for k in self.returns) and self.ret and 'Result' in [t.t for t in self.ret]
        return True


def walk(its, emit, path='', module=''):
    """(key, item, module, owner) of every function that is not derived."""
    for it in its:
        if any('automatically_derived' in text(a) for a in it.attrs):
            continue
        if it.kind == 'fn' and it.body is not None:
            yield path + it.name, it, module, ''
        elif it.kind == 'mod' and it.items and it.name not in ('tests', 'test', 'macros'):
            yield from walk(it.items, emit, path + it.name + '::', path + it.name + '::')
        elif it.kind == 'impl':
            from rust import impl_key
            key = path + emit.norm(impl_key(it))
            for f in it.items or []:
                if f.kind == 'fn' and f.body is not None:
                    yield key + '::' + f.name, f, module, key


def inline(its, emit, known, without=()):
    """Write helpers out; returns {caller: [helper]} and the helpers that no call is left of."""
    fns = list(walk(its, emit))
    names = {}
    for k, it, m, o in fns:
        names[it.name] = names.get(it.name, 0) + 1
    helpers = {}
    for k, it, m, o in fns:
        if k not in known and ' for ' not in k and names[it.name] == 1:
            h = Helper(k, it, m, o)
            if h.ok:
                helpers[it.name] = h
    done = {}
    if not helpers:
        return done, set()
    for _ in range(4):
        changed = False
        for k, it, m, o in fns:
            if k in without:
                continue
            i = 0
            while i < len(it.body):
                t = it.body[i]
                h = helpers.get(t.t) if t.k == 'id' else None
                r = call(it, o, m, h, i) if h is not None and h.it is not it else None
                if r:
                    a, b, new = r
                    it.body[a:b] = new
                    done.setdefault(k, []).append(h.key)
                    changed = True
                    i = a
                i += 1
            if changed and it.name in helpers:
                helpers[it.name] = Helper(k, it, m, o)
                if not helpers[it.name].ok:
                    del helpers[it.name]
        if not changed:
            break
    left = {t.t for k, it, m, o in fns for n, t in enumerate(it.body) if t.k == 'id' and
            (n and it.body[n - 1].t in ('.', '::') or it.body[n + 1:n + 2] and it.body[n + 1].t in ('(', '::')
             or t.t in names and not any(x.t == t.t and it.body[j - 1].t in ('let', 'mut') for j, x in enumerate(it.body)))}
    return done, {h.key for h in helpers.values() if h.name not in left}


def call(it, owner, module, h, i):
    b = it.body
    if i + 1 >= len(b) or b[i + 1].t != '(':
        return None
    if h.module != module and (not h.owner or any(t.t == 'Self' for t in h.it.body + h.it.head)):
        return None
    end = match(b, i + 1)
    args = arguments(b[i + 2:end])
    if args is None:
        return None
    start = i
    selfname = None
    before = [t.t for t in b[max(0, i - 3):i]]
    if h.owner:
        if before[-1:] == ['.']:
            # receiver . helper ( .. )
            if h.receiver is None or b[i - 2].k != 'id' or before[-3:-2] in (['.'], ['::']) and len(before) > 2:
                return None
            selfname = b[i - 2].t
            start = i - 2
        elif before[-1:] == ['::'] and before[-2:-1] in (['Self'], [h.owner.split('::')[-1].split('<')[0]]):
            if len(before) > 2 and before[-3] == '::':
                return None
            start = i - 2
            if h.receiver is not None:
                return None
        else:
            return None
        if owner != h.owner and any(t.t == 'Self' for t in h.it.body + h.it.head):
            return None
    elif before[-1:] in (['.'], ['::'], ['fn']):
        return None
    if len(args) != len(h.params):
        return None
    body = list(h.it.body)
    if h.receiver is not None:
        for k, t in enumerate(body):
            if t.t == 'self' and t.k == 'id' and (k + 1 >= len(body) or body[k + 1].t != '.'):
                if not (h.receiver == 'self'):
                    return None
        if selfname != 'self':
            body = [Tok('id', selfname, t.s, t.e) if t.t == 'self' and t.k == 'id' else t for t in body]
            if any(selfname in [x.t for x in p] for p, _ in h.params):
                return None
            if any(body[k].t == selfname and body[k - 1].t in ('let', 'mut', '|', 'ref') for k in range(1, len(body))):
                return None
    # leaving the helper early
    if h.returns or h.errors:
        tail = end + 1 == len(b) and (start == 0 or b[start - 1].t in (';', '}', '{')) or start and b[start - 1].t == 'return' and end + 1 < len(b) and b[end + 1].t in (';', ',', '}')
        question = end + 1 < len(b) and b[end + 1].t == '?' and (h.only_errors or not h.returns)
        fn_ret = [t.t for t in it.head]
        if not (tail or question and 'Result' in fn_ret):
            return None
        # inside of a closure `return` and `?` leave the closure
        if any(t.t in ('|', '||') for t in b[:start]):
            return None
    # a parameter that has the name of the argument already
    params = h.params
    if h.module == module:
        same = [len(p) == 1 and [t.t for t in a] == [p[0].t] for (p, _), a in zip(params, args)]
        params = [p for p, x in zip(params, same) if not x]
        args = [a for a, x in zip(args, same) if not x]
    new = relex('({')
    if h.module != module:
        # the names of the helper are those of its own module
        if params:
            new += relex('let (' + ', '.join(f'vx_a{k}' for k in range(len(args))) + ',) = (')
            for a in args:
                new += a + relex(',')
            new += relex(');')
            args = [relex(f'vx_a{k}') for k in range(len(args))]
        new += relex('{ use crate::' + h.module + '*;')
    if len(params) == 1:
        new += relex('let') + copied(params[0][0]) + relex(':') + copied(params[0][1]) + relex('=') + args[0] + relex(';')
    elif params:
        new += relex('let (')
        for p, _ in params:
            new += copied(p) + relex(',')
        new[-1:] = relex(') : (')
        for _, t in params:
            new += copied(t) + relex(',')
        new[-1:] = relex(') = (')
        for a in args:
            new += a + relex(',')
        new[-1:] = relex(') ;')
    if h.module != module:
        above = h.module.rstrip(':').rpartition('::')[0]
        new = [y for x in new for y in (relex('crate::' + above if above else 'crate') if x.t == 'super' and x.k == 'id' else [x])]
        body = [y for x in body for y in (relex('crate::' + above if above else 'crate') if x.t == 'super' and x.k == 'id' else [x])]
    # the tokens get places of their own, so that copies are told apart
    copy = copied(body)
    if h.ret and not (h.returns or h.errors):
        new += relex('let vx_result :') + copied(h.ret) + relex('= {') + copy + relex('} ; vx_result')
    else:
        new += copy
    return start, end + 1, new + relex('} })' if h.module != module else '})')
