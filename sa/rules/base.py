"""Shared machinery of the rules: obligations, normalised facts, quantified requirements."""
import time

from ..engine import Analyzer, Limit
from ..loader import AnchorMissing
from ..terms import *

PROVED, VIOLATED, UNKNOWN = 'proved', 'violated', 'unknown'


class Ctx:
    """What one check collects."""

    def __init__(self, repo, pid):
        self.repo, self.pid = repo, pid
        self.obs = []  # (rule, construct, status, detail, where, path)
        self.runs = {}
        self.limits = []
        self.tier = "quick"

    # -- results
    def ob(self, rule, construct, ok, why='', where=None, path=None):
        """ok: True proved, False violated, None unknown"""
        st = PROVED if ok is True else VIOLATED if ok is False else UNKNOWN
        self.obs.append({'rule': rule, 'construct': construct, 'status': st, 'why': why, 'where': where,
                         'path': path or []})
        return ok

    def part(self, f, *args):
        """One part of a rule: what the analysis does not understand there leaves the others alone."""
        try:
            return f(self, *args)
        except AnchorMissing as e:
            self.ob(f.__name__, str(e), None, 'the function is not there (any more)')
        except Exception as e:
            self.ob(f.__name__, f.__name__, None, f'the analysis failed: {type(e).__name__}: {e}')

    # -- exploration
    def run(self, qual, boundary=(), **kw):
        ekw = {k: kw.pop(k) for k in ('args', 'self_cls', 'facts', 'setup') if k in kw}
        key = (qual, tuple(boundary), repr(sorted((k, repr(v)) for k, v in {**kw, **ekw}.items())))
        if key not in self.runs:
            for q in boundary:
                if q.count('.') >= 2:
                    self.repo.func(q)
            A = Analyzer(self.repo, boundary=tuple(x.rpartition('.')[2] if x.count('.') >= 2 and False else x
                                                   for x in boundary), **kw)
            t = time.time()
            try:
                ex = A.explore(qual, **ekw)
            except Limit as e:
                self.limits.append(f'{qual}: {e}')
                ex = None
            except RecursionError:
                self.limits.append(f'{qual}: recursion')
                ex = None
            self.runs[key] = Run(self, qual, A, ex, time.time() - t)
        return self.runs[key]


class Run:
    def __init__(self, ctx, qual, A, exits, wall):
        self.ctx, self.qual, self.A, self.wall = ctx, qual, A, wall
        self.limit = exits is None
        self.exits = exits or []

    def value(self, x):
        return self.A.freeze(x.st, x.val) if x.val is not None else None

    def returns(self):
        for x in self.exits:
            if x.kind == 'return':
                yield x, self.value(x)

    def raises(self):
        for x in self.exits:
            if x.kind == 'exc':
                yield x, x.st.exc

    def view(self, x, extra=()):
        return View(self.A, list(x.st.facts.items()) + list(extra))

    def where(self, x):
        p = x.st.path(1)
        return self.A_where(p)

    @staticmethod
    def A_where(p):
        return str(p[-1][2]) if p else None

    def path(self, x, n=14):
        out = []
        for a, v, loc in x.st.path(n):
            try:
                out.append(f'{loc}: {show_atom(a, v)[:200]}')
            except Exception:
                out.append(f'{loc}')
        return out


# ---------------------------------------------------------------------- normalisation
class Norm:
    """Claims of a statement are the same whether they are read before or after verification; the value appended in
    the previous iteration is the value for the previous element."""

    def __init__(self, A):
        self.A = A
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = subst(t, self.one)
        return r

    def one(self, t):
        k = t[0]
        if k == 'verified':
            return ('payload', t[1])
        if k == 'deep':
            return t[1]
        if k == 'self' and isinstance(t[1], str) and t[1].endswith('.FederationEntity'):
            return FE
        if k == 'pv':
            return self.pv(t)
        if k == 'elem' and t[2][0] == 'list':
            r = one_value(self.A, t[2])
            if r:
                return self(unify_idx(r[2], t[1], r[0], r[1]))
        if k == 'item' and t[1][0] == 'list' and t[2][0] == 'const' and isinstance(t[2][2], int):
            r = one_value(self.A, t[1])
            if r:
                return self(self.A.shift_term(r[2], r[0], t[2]))
        return t

    def pv(self, t):
        info = self.A.loopinfo.get(t[1])
        if not info or t[2] not in info['vals']:
            return t
        vals = set()
        for d, ev, v in self.A.alts[info['vals'][t[2]]]:
            if isinstance(t[2], int):  # a list: the last appended value
                if not v or not isinstance(v[-1], tuple) or v[-1][0] != 'item':
                    return t
                v = v[-1][1]
            vals.add(('payload', v[1]) if v and v[0] == 'verified' else v)
        if len(vals) != 1:
            return t
        v = next(iter(vals))
        if v is None or mentions(v, lambda y: y[0] in ('pv', 'lv', 'phi')):
            return t
        return self.A.shift_term(v, t[1], mk_lin({('idx', t[1]): 1}, -1))

    def lit(self, a, v):
        """-> (atom, polarity) or None"""
        b = self(a)
        if b == a:
            return a, v
        k = b[0]
        if k == 'eq':
            l = a_eq(b[1], b[2])
        elif k == 'in':
            l = a_in(b[1], b[2])
        elif k == 'subset':
            l = a_subset(b[1], b[2])
        elif k == 'none':
            l = a_none(b[1])
        elif k == 'truthy':
            l = a_truthy(b[1])
        else:
            l = (b, True)
        if isinstance(l, bool):
            return None
        return l[0], l[1] == v


class View:
    def __init__(self, A, facts, norm=None):
        self.A = A
        self.raw = list(facts)
        self.norm = norm or norm_of(A)
        self.facts = {}
        for a, v in self.raw:
            l = self.norm.lit(a, v)
            if l:
                self.facts[l[0]] = l[1]
        self.F = Facts(self.facts)

    def plus(self, facts):
        return View(self.A, self.raw + list(facts), self.norm)

    def know(self, lit):
        if isinstance(lit, bool):
            return lit
        n = self.norm.lit(*lit)
        return True if n is None else self.F.know(n)

    def any(self, pred):
        return any(pred(a, v) for a, v in self.facts.items())

    def opaque(self, about):
        """Is there a condition that is not understood and that is about (one of) these terms?"""
        for a, v in self.facts.items():
            if a[0] in ('completed', 'forall'):
                continue
            if not mentions(a, lambda t: t in about):
                continue
            b = subst(a, lambda t: HOLE if t in about else t)
            if mentions(b, lambda t: t[0] in ('lo', 'lv', 'up') or t[0] == 'call' and not t[1].startswith('fedservice.')
                        and t[1].rpartition('.')[2] not in ALTERING):
                return True
        return False


# comparing what these return says less than comparing the strings themselves
ALTERING = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold', 'removesuffix', 'removeprefix', 'urlparse', 'urlsplit')
HOLE = ('sym', '$hole')
_norms = {}


def norm_of(A):
    if id(A) not in _norms:
        _norms[id(A)] = (A, Norm(A))
    return _norms[id(A)][1]


# ---------------------------------------------------------------------- quantified content
def each(A, t, facts=(), lids=()):
    """The elements of a list (term): [(value, facts, lids)]; value None for content that is not known element-wise."""
    if t[0] in ('set', 'sorted', 'rev', 'deep'):
        yield from each(A, t[1], facts, lids)
        return
    if t[0] == 'tuple':
        for v in t[1:]:
            yield v, facts, lids
        return
    if t[0] == 'list':
        for s in t[1:]:
            yield from each_seg(A, s, facts, lids)
        return
    yield ('all', t), facts, lids


def each_seg(A, s, facts, lids):
    if s[0] == 'item':
        yield s[1], facts, lids
    elif s[0] == 'all':
        yield from each(A, s[1], facts, lids)
    elif s[0] == 'many':
        for d, ev, v in A.alts[s[3]]:
            for s2 in v or ():
                yield from each_seg(A, s2, tuple(facts) + tuple(d), lids + ((s[1], s[2]),))
    elif s[0] == 'prev':
        return
    else:
        yield ('all', s), facts, lids


def foralls(A, facts):
    """Loops that ran to the end: [(lid, dom, alternatives)]"""
    return [(a[1], a[2], A.alts[a[3]]) for a, v in facts if a[0] == 'forall' and v]


def unify_idx(t, lid, lid2, dom):
    """The element of loop lid2 over dom, written as the element of loop lid."""
    def f(x):
        if x[0] == 'elem' and x[1] == lid2 and x[2] == dom:
            return ('elem', lid, dom)
        if x == ('idx', lid2):
            return ('idx', lid)
        return x
    return subst(t, f)


def along(A, t, base_facts, req, same=lambda v, tok: v == ('payload', tok)):
    """Is the list `t` built by going through a domain one-to-one, every element satisfying req?

    -> [(ok, why, facts, value)]
    """
    res = []
    norm = norm_of(A)
    fs = foralls(A, base_facts)
    for v, facts, lids in each(A, t):
        if v[0] == 'all':
            res.append((None, f'content of unknown origin: {show(v)[:80]}', facts, v))
            continue
        view = View(A, list(base_facts) + list(facts), norm)
        r = req(view, v, lids)
        if r is not True and lids:
            lid, dom = lids[-1]
            for lid2, dom2, alts in fs:
                if lid2 != lid and (dom2 == dom or canon_dom(A, dom2) == dom):
                    rs = []
                    for d, ev, _ in alts:
                        d2 = tuple((unify_idx(norm(a), lid, lid2, dom), w) for a, w in d)
                        rs.append(req(View(A, list(base_facts) + list(facts) + list(d2), norm), v, lids))
                    if all(x is True for x in rs):
                        r = True
                        break
        res.append((r, '', facts, v))
    return res


def one_value(A, t):
    """A list that has exactly one element per element of a domain -> (lid, dom, value), else None"""
    t = strip_set(t)
    if t[0] != 'list' or len(t) != 2 or t[1][0] != 'many':
        return None
    lid, dom, aid = t[1][1:4]
    vals = set()
    norm = norm_of(A)
    for d, ev, v in A.alts[aid]:
        if not v or len(v) != 1 or v[0][0] != 'item':
            return None
        vals.add(norm(v[0][1]))
    if len(vals) != 1:
        return None
    return lid, dom, next(iter(vals))


def canon_dom(A, dom):
    """The domain a loop ultimately runs over (one-to-one images of a list are as long as the list)."""
    for _ in range(6):
        r = one_value(A, dom)
        if r is None:
            return dom
        dom = r[1]
    return dom


def min_over(A, t, facts=()):
    """Is t the minimum of something over a domain? -> (dom, value-term-per-element, lid) or None.

    Recognised: a loop that keeps the smaller one; min(..) over a sequence; the first of a sorted sequence."""
    norm = norm_of(A)
    if t[0] == 'call' and t[1] in ('min', 'builtins.min'):
        args = [v for k, v in t[2]]
        if len(args) == 1:
            r = one_value(A, args[0])
            if r:
                return r[1], r[2], r[0]
        return None
    if t[0] == 'item' and t[2] == C(0) and t[1][0] == 'sorted':
        r = one_value(A, t[1][1])
        return (r[1], r[2], r[0]) if r else None
    if t[0] == 'lo':
        lid, key = t[1], t[2]
        lv = [('lv', lid, key), ('phi', lid, key, t[4]), ('pv', lid, key)]
        info = A.loopinfo[lid]
        val = None
        for d, ev, v in A.alts[t[3]]:
            if v not in lv:
                if val not in (None, v):
                    return None
                val = v
        if val is None:
            return None
        for d, ev, v in A.alts[t[3]]:
            F = Facts(dict(d))
            kept = next((x for x in lv if v == x), None)
            if kept is not None:
                # kept because the new one is not smaller
                if F.know(a_lt(val, kept)) is not False and F.know(a_lt(kept, val)) is not True:
                    return None
            else:
                ok = False
                for x in lv:
                    if F.know(a_lt(val, x)) is True or F.know(neg(a_lt(x, val))) is True or \
                            F.know(a_none(x)) is True or F.know(neg(a_truthy(x))) is True or \
                            x[0] == 'lv' and F.know(a_lt(x, C(0))) is True or \
                            F.know(a_eq(x, t[4])) is True or F.know(a_eq(('idx', lid), C(0))) is True:
                        ok = True
                if not ok and t[4] != val:
                    return None
        return info['iter'], val, lid
    return None
