"""Terms: provenance of values.  A term says where a value comes from, not what it is."""

NONE = ('const', 'NoneType', None)
TRUE = ('const', 'bool', True)
FALSE = ('const', 'bool', False)
FE = ('FE',)
NOW = ('now',)


def C(v):
    return ('const', type(v).__name__, v)


def is_const(t):
    return t[0] == 'const'


def cval(t):
    return t[2]


def item(b, k):
    return ('item', b, k)


def attr(b, n):
    return ('attr', b, n)


def subterms(t, seen=None):
    """All sub-terms, the term itself included."""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            if x and x[0] == 'const':
                continue
            todo.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    if not callable(pred):
        want = pred
        return any(x == want for x in subterms(t))
    return any(pred(x) for x in subterms(t))


def subst(t, f):
    """Bottom-up rewriting."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'const':
        return f(t)
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return f(n) if n and isinstance(n[0], str) else n


def skey(t):
    return repr(t)


# -- linear expressions
INTISH = ('len', 'idx')


def to_lin(t):
    """-> ({term: coef}, const) or None"""
    if t[0] == 'const':
        if isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
            return {}, t[2]
        return None
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=lambda x: skey(x[0]))), c)


def lin_add(a, b, sign=1):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return None
    d = dict(la[0])
    for k, v in lb[0].items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(d, la[1] + sign * lb[1])


def is_int_lin(d):
    return all(k[0] in INTISH and isinstance(v, int) for k, v in d.items())


# -- atoms.  A literal is (atom, polarity); True / False when decided.
def neg(l):
    return (not l) if isinstance(l, bool) else (l[0], not l[1])


def a_eq(a, b):
    if a == b:
        return True
    if a[0] == 'const' and b[0] == 'const':
        return a[2] == b[2]
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            return a_none(x)
        if y[0] == 'const' and isinstance(y[2], int) and not isinstance(y[2], bool):
            l = to_lin(x)
            if l and len(l[0]) >= 1 and (x[0] == 'lin' or x[0] in INTISH):
                d, c = l
                c -= y[2]
                if len(d) == 1:
                    k, v = next(iter(d.items()))
                    if v in (1, -1):
                        val = -c * v
                        if k[0] == 'len' and val == 0:
                            return neg(a_truthy(k[1]))
                        if k[0] in INTISH and val < 0:
                            return False
                        return (('eq',) + tuple(sorted((k, C(val)), key=skey)), True)
    if a[0] == 'lin' or b[0] == 'lin' or a[0] in INTISH or b[0] in INTISH:
        s = lin_add(a, b, -1)
        if s is not None:
            l = to_lin(s)
            if not l[0]:
                return l[1] == 0
            if all(x[0] != 'const' for x in (a, b)):
                d, c = l
                ks = sorted(d.items(), key=lambda x: skey(x[0]))
                if ks[0][1] < 0:
                    ks = [(k, -v) for k, v in ks]
                    c = -c
                return (('eq0', tuple(ks), c), True)
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a) != len(b):
        return False
    if a[0] == 'set' and b[0] == 'set':
        x, y = members(a), members(b)
        if x is not None and y is not None:
            return set(x) == set(y)
    if a[0] == 'dict' and b[0] == 'dict' and a[1] is None and b[1] is None and \
            all(l[0] == 'set' and l[1][0] == 'const' for l in a[2] + b[2]):
        x, y = {l[1]: l[2] for l in a[2]}, {l[1]: l[2] for l in b[2]}
        if set(x) != set(y):
            return False
        rs = [a_eq(x[k], y[k]) for k in x]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    # empty containers
    for x, y in ((a, b), (b, a)):
        if y in (('list',), ('dict', None, ()), ('set', ('list',)), ('const', 'str', '')):
            if x[0] in ('list', 'dict', 'set') and nonempty(x):
                return False
            if x[0] != 'const':
                return neg(a_truthy(x))
    if definitely_not_none(a) and a[0] in ('list', 'dict', 'tuple') and b[0] == 'const' or \
            definitely_not_none(b) and b[0] in ('list', 'dict', 'tuple') and a[0] == 'const':
        return False
    return (('eq',) + tuple(sorted((a, b), key=skey)), True)


def nonempty(t):
    if t[0] == 'list':
        return any(s[0] == 'item' for s in t[1:])
    if t[0] == 'dict':
        return bool(t[2]) and t[2][-1][0] == 'set'
    if t[0] == 'set':
        return nonempty(t[1])
    return False


def definitely_not_none(t):
    return t[0] in ('list', 'dict', 'set', 'tuple', 'fstr', 'inter', 'union', 'diff', 'len', 'lin', 'inst', 'extobj',
                    'closure', 'func', 'class', 'bound', 'FE', 'now', 'idx', 'obj', 'symdiff', 'deep', 'rev', 'payload',
                    'verified') \
        or (t[0] == 'const' and t[2] is not None)


def a_none(a):
    if a[0] == 'const':
        return a[2] is None
    if definitely_not_none(a):
        return False
    return (('none', a), True)


def strip_set(t):
    while t[0] in ('set', 'deep', 'rev', 'sorted'):
        t = t[1]
    return t


def members(t):
    """The constants a set/list/dict literal consists of -> [const terms] or None"""
    t = strip_set(t)
    if t[0] == 'list' and all(s[0] == 'item' and s[1][0] == 'const' for s in t[1:]):
        return [s[1] for s in t[1:]]
    if t[0] == 'tuple' and all(s[0] == 'const' for s in t[1:]):
        return list(t[1:])
    if t[0] == 'keys':
        t = t[1]
    if t[0] == 'dict' and t[1] is None and all(l[0] == 'set' and l[1][0] == 'const' for l in t[2]):
        return [l[1] for l in t[2]]
    return None


def a_truthy(t):
    t = strip_set(t)
    if t[0] == 'const':
        return bool(t[2])
    if t[0] in ('FE', 'func', 'class', 'closure', 'bound', 'ext', 'mod', 'inst', 'now', 'extobj'):
        return True
    if t[0] == 'list':
        if len(t) == 1:
            return False
        if any(s[0] == 'item' for s in t[1:]):
            return True
        if len(t) == 2 and t[1][0] == 'all':
            return a_truthy(t[1][1])
    if t[0] == 'tuple':
        return len(t) > 1
    if t[0] == 'dict':
        if t[1] is None and not t[2]:
            return False
        if t[2] and t[2][-1][0] == 'set':
            return True
        if any(l[0] == 'set' for l in t[2]) and all(l[0] in ('set', 'upd') for l in t[2]):
            return True
        if not t[2]:
            return a_truthy(t[1])
    if t[0] == 'fstr':
        if any(p[0] == 'const' and p[2] for p in t[1:]):
            return True
    if t[0] == 'len':
        return a_truthy(t[1])
    if t[0] == 'idx':
        return neg(a_eq(t, C(0)))
    if t[0] == 'diff':
        return neg(a_subset(t[1], t[2]))
    if t[0] == 'lin':
        return neg(a_eq(t, C(0)))
    return (('truthy', t), True)


def a_subset(a, b):
    a, b = strip_set(a), strip_set(b)
    if a == b:
        return True
    if a[0] == 'const' and not a[2]:
        return True
    if a[0] == 'list' and len(a) == 1:
        return True
    if a[0] == 'dict' and a[1] is None and not a[2]:
        return True
    if a[0] in ('list', 'dict', 'tuple') and b[0] in ('list', 'dict', 'tuple'):
        x, y = members(a), members(b)
        if x is not None and y is not None:
            return set(x) <= set(y)
    if a[0] == 'inter' and (strip_set(a[1]) == b or strip_set(a[2]) == b):
        return True
    if b[0] == 'union' and (strip_set(b[1]) == a or strip_set(b[2]) == a):
        return True
    if b[0] == 'list' and len(b) == 1:
        return neg(a_truthy(a))
    return (('subset', a, b), True)


def a_lt(a, b):
    """a < b"""
    s = lin_add(a, b, -1)
    if s is None:
        return (('lt?', a, b), True)
    d, c = to_lin(s)
    if not d:
        return c < 0
    if is_int_lin(d):
        ks = sorted(d.items(), key=lambda x: skey(x[0]))
        pol = True
        if ks[0][1] < 0:  # -e + c < 0  <=>  not (e - c <= 0)  <=>  not (e - c - 1 < 0)
            ks = [(k, -v) for k, v in ks]
            c = -c - 1
            pol = False
        if len(ks) == 1 and ks[0][1] == 1:
            k = ks[0][0]
            if c >= 0:   # k + c < 0 : never
                return (not pol)
            if c == -1:  # k < 1
                l = neg(a_truthy(k[1])) if k[0] == 'len' else a_eq(k, C(0))
                return l if pol else neg(l)
        return (('lt', tuple(ks), c), pol)
    return (('lt', tuple(sorted(d.items(), key=lambda x: skey(x[0]))), c), True)


def a_in(x, c):
    return (('in', x, strip_set(c)), True)


class Facts:
    """Three valued knowledge derived from a set of facts (atom -> bool)."""

    def __init__(self, facts):
        self.f = facts
        self.par = {}
        for a, v in facts.items():
            if a[0] == 'eq' and v:
                self._union(a[1], a[2])

    def find(self, t):
        while t in self.par:
            t = self.par[t]
        return t

    def _union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return
        if a[0] == 'const':
            self.par[b] = a
        elif b[0] == 'const':
            self.par[a] = b
        else:
            a, b = sorted((a, b), key=lambda t: (len(repr(t)), repr(t)))
            self.par[b] = a

    def rep(self, t):
        if not self.par:
            return t
        return subst(t, lambda x: self.find(x))

    def know(self, lit):
        """True/False/None"""
        if isinstance(lit, bool):
            return lit
        a, pol = lit
        r = self._know(a)
        return None if r is None else (r == pol)

    def _know(self, a):
        f = self.f
        if a in f:
            return f[a]
        k = a[0]
        if k == 'eq':
            x, y = self.find(a[1]), self.find(a[2])
            if x == y:
                return True
            if x[0] == 'const' and y[0] == 'const':
                return x[2] == y[2]
            if self.par:
                x2, y2 = self.rep(a[1]), self.rep(a[2])
                if x2 == y2:
                    return True
                for b, v in f.items():
                    if b[0] == 'eq' and not v:
                        p, q = self.rep(b[1]), self.rep(b[2])
                        if (p, q) == (x2, y2) or (q, p) == (x2, y2):
                            return False
            for p, q in ((a[1], a[2]), (a[2], a[1])):
                if q[0] == 'const' and q[2] is not None:
                    if f.get(('none', p)) is True:
                        return False
                    if q[2] and f.get(('truthy', strip_set(p))) is False:
                        return False
                # eq(idx,c) vs inequalities
                if q[0] == 'const' and isinstance(q[2], int) and p[0] in INTISH:
                    r = self._know_lt(to_lin(('lin', ((p, 1),), -q[2])))
                    if r is True:
                        return False
                    r2 = self._know_lt(({p: 1}, -q[2] - 1))
                    if r2 is False:
                        return False
                    if r is False and r2 is True:
                        return True
            return None
        if k == 'none':
            r = self.find(a[1])
            if r[0] == 'const':
                return r[2] is None
            if definitely_not_none(r):
                return False
            if f.get(('truthy', strip_set(a[1]))) is True:
                return False
            if r != a[1] and ('none', r) in f:
                return f[('none', r)]
            for b, v in f.items():
                if v and b[0] == 'in' and strip_set(b[2]) == a[1]:
                    return False
                if v and b[0] == 'isinst' and b[1] == a[1]:
                    return False
            return None
        if k == 'truthy':
            if f.get(('none', a[1])) is True:
                return False
            r = self.find(a[1])
            if r[0] == 'const':
                return bool(r[2])
            if r != a[1] and ('truthy', r) in f:
                return f[('truthy', r)]
            for b, v in f.items():
                if v and b[0] == 'in' and b[2] == a[1]:
                    return True
            t = a[1]
            if t[0] == 'inter':
                for s in t[1:]:
                    if self.know(a_truthy(s)) is False:
                        return False
            if t[0] == 'union':
                rs = [self.know(a_truthy(s)) for s in t[1:]]
                if True in rs:
                    return True
                if rs == [False, False]:
                    return False
            return None
        if k == 'in':
            x, c = a[1], a[2]
            if f.get(('truthy', c)) is False or f.get(('none', c)) is True:
                return False
            if x[0] == 'elem' and strip_set(x[2]) == c:
                return True
            if c[0] == 'inter':
                rs = [self._know(('in', x, strip_set(s))) for s in c[1:3]]
                return True if rs == [True, True] else False if False in rs else None
            if c[0] == 'union':
                rs = [self._know(('in', x, strip_set(s))) for s in c[1:3]]
                return False if rs == [False, False] else True if True in rs else None
            if c[0] == 'diff':
                r1, r2 = (self._know(('in', x, strip_set(s))) for s in c[1:3])
                return True if (r1, r2) == (True, False) else False if r1 is False or r2 is True else None
            if x[0] == 'elem':
                src = strip_set(x[2])
                if f.get(('subset', src, c)) is True:
                    return True
                if src[0] == 'inter' and c in (strip_set(src[1]), strip_set(src[2])):
                    return True
                if src[0] == 'diff':
                    if strip_set(src[1]) == c:
                        return True
                    if strip_set(src[2]) == c:
                        return False
            for b, v in f.items():
                if b[0] == 'in' and v and b[1] == x and f.get(('subset', b[2], c)) is True:
                    return True
            if self.par:
                x2 = self.rep(x)
                c2 = self.rep(c)
                for b, v in f.items():
                    if b[0] == 'in' and self.rep(b[1]) == x2 and self.rep(b[2]) == c2:
                        return v
            return None
        if k == 'subset':
            x, y = a[1], a[2]
            if f.get(('truthy', x)) is False or f.get(('none', x)) is True:
                return True
            for b, v in f.items():
                if b[0] == 'subset' and v and b[1] == x and f.get(('subset', b[2], y)) is True:
                    return True
            if x[0] == 'inter':
                for s in x[1:]:
                    if self.know(a_subset(s, y)) is True:
                        return True
            rs = None
            if x[0] == 'union':
                rs = [self.know(a_subset(s, y)) for s in x[1:]]
            elif x[0] == 'list' and len(x) > 1 and all(s[0] in ('item', 'all') for s in x[1:]):
                rs = [self.know(a_in(s[1], y) if s[0] == 'item' else a_subset(s[1], y)) for s in x[1:]]
            elif y[0] == 'inter':
                rs = [self.know(a_subset(x, s)) for s in y[1:]]
            if rs:
                return True if all(r is True for r in rs) else False if False in rs else None
            return None
        if k == 'lt':
            return self._know_lt((dict(a[1]), a[2]))
        return None

    def _know_lt(self, l):
        d, c = l
        nd = {k: -v for k, v in d.items()}
        for b, v in self.f.items():
            if b[0] == 'lt':
                e, ce = dict(b[1]), b[2]
                if e == d:
                    if v and c <= ce:
                        return True
                    if not v and c >= ce:
                        return False
                if e == nd:
                    if v and c + ce >= 0:
                        return False
                    if not v and c + ce < 0:
                        return True
            elif b[0] == 'eq' and v and len(d) == 1:
                for p, q in ((b[1], b[2]), (b[2], b[1])):
                    if q[0] == 'const' and isinstance(q[2], (int, float)) and p in d:
                        return d[p] * q[2] + c < 0
            elif b[0] == 'eq0' and v:
                e = dict(b[1])
                if e == d:
                    return c - b[2] < 0
                if e == nd:
                    return c + b[2] < 0
            elif b[0] in ('truthy',) and len(d) == 1:
                k, co = next(iter(d.items()))
                if k == ('len', b[1]):
                    if not v:
                        return c < 0
                    if co > 0 and co + c >= 0:
                        return False
                    if co < 0 and co + c < 0:
                        return True
            elif b[0] == 'eq' and not v and len(d) == 1:
                k, co = next(iter(d.items()))
                if k[0] == 'idx' and b == a_eq(k, C(0))[0]:
                    if co > 0 and co + c >= 0:
                        return False
                    if co < 0 and co + c < 0:
                        return True
        return None


def show(t, depth=0):
    """Readable rendering of a term, for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 7:
        return '…'
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    s = lambda x: show(x, depth + 1)
    if k == 'const':
        return repr(t[2])
    if k in ('sym', 'self'):
        return str(t[1]).split('.')[-1]
    if k == 'FE':
        return '<federation entity>'
    if k == 'now':
        return 'now'
    if k == 'attr':
        return f'{s(t[1])}.{t[2]}'
    if k == 'item':
        return f'{s(t[1])}[{s(t[2])}]'
    if k == 'elem':
        return f'each({s(t[2])})'
    if k == 'idx':
        return 'i'
    if k == 'call':
        n = t[1].split('.')
        return '.'.join(n[-2:] if n[-2:-1] and n[-2][:1].isupper() else n[-1:]) + '(' + ', '.join(
            (f'{a}=' if not a.isdigit() else '') + s(v) for a, v in t[2]) + ')'
    if k == 'payload':
        return f'payload({s(t[1])})'
    if k == 'verified':
        return f'verified({s(t[1])})'
    if k == 'len':
        return f'len({s(t[1])})'
    if k == 'lin':
        return '(' + ' + '.join((f'{c}*' if c != 1 else '') + s(x) for x, c in t[1]) + (f' + {t[2]}' if t[2] else '') + ')'
    if k == 'list':
        return '[' + ', '.join(('*' if x[0] != 'item' else '') + (s(x[1]) if x[0] in ('item', 'all') else '…')
                               for x in t[1:]) + ']'
    if k == 'dict':
        return '{' + (f'**{s(t[1])}, ' if t[1] else '') + ', '.join(
            f'{s(l[1])}: {s(l[2])}' if l[0] == 'set' else l[0] for l in t[2]) + '}'
    if k in ('inter', 'union', 'diff'):
        return f'({s(t[1])} {dict(inter="&", union="|", diff="-")[k]} {s(t[2])})'
    if k == 'fstr':
        return 'f"' + ''.join(p[2] if p[0] == 'const' and isinstance(p[2], str) else '{' + s(p) + '}' for p in t[1:]) + '"'
    if k in ('func', 'class', 'ext', 'global'):
        return t[1].split('.')[-1]
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def show_atom(a, v=True):
    n = '' if v else 'not '
    k = a[0]
    if k == 'eq':
        return f'{show(a[1])} {"==" if v else "!="} {show(a[2])}'
    if k == 'in':
        return f'{show(a[1])} {n}in {show(a[2])}'
    if k == 'none':
        return f'{show(a[1])} is {n}None'
    if k == 'truthy':
        return f'{n}{show(a[1])}'
    if k == 'subset':
        return f'{n}({show(a[1])} ⊆ {show(a[2])})'
    if k == 'lt':
        e = ' + '.join((f'{c}*' if c != 1 else '') + show(x) for x, c in a[1])
        return f'{e} {"<" if v else ">="} {-a[2]}'
    if k == 'isinst':
        return f'{n}isinstance({show(a[1])}, {a[2]})'
    if k == 'forall':
        return f'{n}for all of {show(a[2])}: …'
    return f'{n}{k}({", ".join(show(x) for x in a[1:] if isinstance(x, tuple))})'
