"""Path-sensitive dataflow over the syntax trees.

Every value is described by a term that says where it comes from; every path carries the set of
guards (facts) that had to hold to get there.  Nothing is executed and no solver is used: guards are
compared syntactically after canonicalisation (terms.py).  Loops are summarised by one generic
iteration; joins that differ only in a guard that turned out not to matter are merged.
"""
import ast
import time
from collections import namedtuple

from .loader import Class, Func, Module
from .terms import *

Event = namedtuple('Event', 'kind name args facts where stack loops extra')
Exit = namedtuple('Exit', 'kind st val')


class Limit(Exception):
    pass


class St:
    __slots__ = ('env', 'heap', 'over', 'facts', 'events', 'exc', 'trace', '_kf', 'roots')

    def __init__(self):
        self.env, self.heap, self.over, self.facts = {}, {}, {}, {}
        self.events, self.exc, self.trace, self._kf, self.roots = (), None, (), None, ()

    def copy(self):
        s = St.__new__(St)
        s.env, s.heap, s.over, s.facts = dict(self.env), dict(self.heap), dict(self.over), dict(self.facts)
        s.events, s.exc, s.trace, s._kf, s.roots = self.events, self.exc, self.trace, self._kf, self.roots
        return s

    def kf(self):
        if self._kf is None:
            self._kf = Facts(self.facts)
        return self._kf

    def know(self, lit):
        return lit if isinstance(lit, bool) else self.kf().know(lit)

    def assume(self, lit):
        """In place."""
        if isinstance(lit, bool):
            return
        if self.facts.get(lit[0]) is not lit[1]:
            self.facts[lit[0]] = lit[1]
            self._kf = None

    def path(self, n=12):
        out, t = [], self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out[-n:]


SKIP_CALLS = {'print', 'logger', 'logging', 'warnings', 'log', 'LOGGER', '_logger', 'traceback', 'pprint'}
STATEFUL_EXT = {'KeyJar', 'KeyBundle', 'JWT', 'build_keyjar'}
PURE = {'len', 'isinstance', 'set', 'list', 'dict', 'tuple', 'frozenset', 'str', 'repr', 'sorted', 'reversed',
        'enumerate', 'zip', 'range', 'bool', 'min', 'max', 'sum', 'any', 'all', 'type', 'getattr', 'hasattr',
        'setattr', 'iter', 'map', 'filter', 'abs', 'id', 'callable', 'issubclass', 'super'}
NORAISE = {'factory', 'as_unicode', 'as_bytes', 'utc_time_sans_frac', 'KeyJar', 'KeyBundle', 'JWT', 'get_federation_entity',
           'payload', 'join', 'format', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'topmost_unit',
           'quote_plus', 'urlparse', 'splitext'}
FUNC_TYPES = {
    'trust_chain_collector': 'fedservice.entity.function.trust_chain_collector.TrustChainCollector',
    'verifier': 'fedservice.entity.function.verifier.TrustChainVerifier',
    'policy': 'fedservice.entity.function.policy.TrustChainPolicy',
    'trust_mark_verifier': 'fedservice.entity.function.trust_mark_verifier.TrustMarkVerifier',
}
EXT_PARAMS = {
    'import_jwks': ['keyjar', 'jwks', 'issuer_id'],
    'verify_compact': ['jws', 'keys'],
    'verify_compact_verbose': ['jws', 'keys'],
    'get_jwt_verify_keys': ['jwt'],
    'add_kb': ['issuer_id', 'kb'],
    'KeyBundle': ['keys', 'source', 'fileformat'],
    'get_issuer_keys': ['issuer_id'],
    'export_jwks': ['private', 'issuer_id'],
    'factory': ['token'],
    'unpack': ['token'],
    'pack': ['payload', 'kid', 'owner'],
    'add_url': ['issuer_id', 'url'],
    'add_symmetric': ['issuer_id', 'key'],
    'JWT': ['key_jar', 'iss', 'lifetime', 'sign', 'sign_alg'],
}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return f'{d}.{e.attr}' if d else None
    return None


def exc_names(handler_type):
    """Names in an except clause (None: everything)."""
    if handler_type is None:
        return None
    if isinstance(handler_type, (ast.Tuple, ast.List)):
        return [n for x in handler_type.elts for n in (exc_names(x) or ['?'])]
    d = dotted(handler_type)
    return [d.split('.')[-1] if d else '?']


class Liveness:
    """Names that may still be read after a statement of a function."""

    def __init__(self, fnode):
        self.after = {}
        self._block(fnode.body, frozenset())

    @staticmethod
    def loads(n):
        r = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                r.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                r.add(x.target.id)
        return r

    def _block(self, body, after):
        tail = set(after)
        for st in reversed(body):
            self.after[id(st)] = frozenset(tail)
            inner = set(tail)
            if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
                inner |= self.loads(st)
                self._block(st.body, inner)
                self._block(st.orelse, tail)
            elif isinstance(st, ast.If):
                self._block(st.body, tail)
                self._block(st.orelse, tail)
            elif isinstance(st, ast.Try):
                fin = set(tail)
                for x in st.finalbody:
                    fin |= self.loads(x)
                self._block(st.finalbody, tail)
                self._block(st.orelse, fin)
                h = set(fin)
                for x in st.handlers:
                    self._block(x.body, fin)
                    h |= self.loads(x)
                for x in st.orelse:
                    h |= self.loads(x)
                self._block(st.body, h)
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                self._block(st.body, tail)
            tail |= self.loads(st)


class Analyzer:
    """One analysis: entry points are explored with `explore`.

    boundary: qualified-name suffixes of repository functions that are not looked into (they stay
              opaque calls: `('call', qual, args)`).
    changes:  (suffix of the name of a function that is not looked into, what it may change): dictionaries
              that have other content after such a call.
    track:    predicate on event names: which events are kept in order on the paths.
    """

    def __init__(self, repo, boundary=(), track=None, inline_filter=None, unroll=16, while_unroll=0,
                 max_states=6000, budget=120.0, fe=True, assume_true=(), changes=()):
        self.repo = repo
        self.boundary = tuple(boundary)
        self.track = track or (lambda n: False)
        self.inline_filter = inline_filter
        self.unroll, self.while_unroll = unroll, while_unroll
        self.nonterminating = []
        self.max_states = max_states
        self.deadline = time.time() + budget
        self.fe = fe
        self.log = []
        self.dry = 0
        self.handlers = []
        self.stack = []       # Func
        self.loops = []
        self.alts, self._alt_ids = [], {}
        self.loopinfo = {}
        self.closures = []
        self.types = {}
        self.functions_seen = set()
        self.steps = 0
        self._live = {}
        self._cid = 0
        self._globals = {}
        self.assume_true = tuple(assume_true)
        self._find_by_suffix = {}
        self.changes = tuple(changes)

    # ------------------------------------------------------------------ bookkeeping
    def altid(self, alts):
        alts = tuple(alts)
        if alts not in self._alt_ids:
            self._alt_ids[alts] = len(self.alts)
            self.alts.append(alts)
        return self._alt_ids[alts]

    def where(self, node):
        m = self.stack[-1].module if self.stack else None
        return f'{m.path if m else "?"}:{getattr(node, "lineno", 0)}'

    def event(self, st, kind, name, args, node, extra=None):
        if not self.dry:
            self.log.append(Event(kind, name, args, dict(st.facts), self.where(node),
                                  tuple(f.qual for f in self.stack), tuple(self.loops), extra))
        if self.track(name):
            st.events = st.events + ((kind, name, args, self.where(node)),)

    def new_obj(self, st, o):
        n = len(st.heap) + 1
        while n in st.heap:
            n += 1
        st.heap[n] = o
        return ('obj', n)

    def freeze(self, st, t, _depth=0):
        """Structural description of the current content of a value."""
        if not isinstance(t, tuple) or not t or t[0] in ('const', 'sym', 'FE', 'self'):
            if t in st.over and _depth < 6:
                return self.freeze(st, st.over[t], _depth + 1)
            return t
        if t in st.over and _depth < 6:
            return self.freeze(st, st.over[t], _depth + 1)
        if t[0] == 'deep':
            return self.freeze(st, t[1], _depth)
        if t[0] == 'tuple':
            return ('tuple',) + tuple(self.freeze(st, x, _depth) for x in t[1:])
        if t[0] == 'bound':
            return ('bound', self.freeze(st, t[1], _depth + 1), t[2])
        if t[0] != 'obj':
            return t
        if _depth > 6:
            return ('cyclic',)
        o = st.heap[t[1]]
        f = lambda x: self.freeze(st, x, _depth + 1)
        if o[0] in ('list', 'set'):
            segs = []
            for s in o[1]:
                if s[0] == 'item':
                    segs.append(('item', f(s[1])))
                elif s[0] == 'all':
                    x = s[1] if st.over.get(s[1]) == t else f(s[1])
                    if x[0] == 'list':
                        segs.extend(x[1:])
                    else:
                        segs.append(('all', x))
                else:
                    segs.append(s)
            r = segs[0][1] if len(segs) == 1 and segs[0][0] == 'all' else ('list',) + tuple(segs)
            return ('set', r) if o[0] == 'set' else r
        if o[0] == 'dict':
            base = None if o[1] is None else o[1] if st.over.get(o[1]) == t else f(o[1])
            layers = []
            for l in o[2]:
                if l[0] == 'set':
                    layers.append(('set', f(l[1]), f(l[2])))
                elif l[0] in ('upd', 'del'):
                    layers.append((l[0], f(l[1])))
                else:
                    layers.append(l)
            if not layers and base is not None and not o[3]:
                return base
            if base is not None and base[0] == 'dict' and len(base) == 3:
                return ('dict', base[1], base[2] + tuple(layers)) + ((('cls', o[3]),) if o[3] else ())
            return ('dict', base, tuple(layers)) + ((('cls', o[3]),) if o[3] else ())
        if o[0] == 'inst':
            return ('inst', o[1], tuple((k, f(v)) for k, v in o[2] if k != 'upstream_get'))
        if o[0] == 'ext':
            return ('extobj', o[1], tuple((k, f(v)) for k, v in o[2]), o[3])
        return t

    def obj(self, st, t):
        """Heap object behind a value, or None."""
        t = st.over.get(t, t)
        if t[0] == 'obj':
            return st.heap[t[1]]
        return None

    def own(self, st, t, kind='dict'):
        """Make sure a value that is about to be mutated has a heap object; -> id"""
        t = st.over.get(t, t)
        if t[0] == 'obj':
            return t[1]
        o = ('dict', t, (), None) if kind == 'dict' else (kind, (('all', t),))
        n = self.new_obj(st, o)
        st.over[t] = n
        return n[1]

    def mutated(self, st, t, what, args, node):
        o = self.obj(st, t)
        tgt = t
        if t[0] == 'obj' and o is not None and o[0] == 'dict' and o[1] is not None and False:
            tgt = o[1]
        self.event(st, 'mut', what, (('target', tgt if tgt[0] != 'obj' else ('fresh', self.freeze(st, tgt))),)
                   + tuple(args), node)

    # ------------------------------------------------------------------ types
    def typeof(self, st, t):
        t = st.over.get(t, t)
        if t in self.types:
            return self.types[t]
        k = t[0]
        if k == 'obj':
            o = st.heap[t[1]]
            if o[0] == 'inst':
                return self._cls(o[1])
            if o[0] == 'dict' and o[3]:
                return self._cls(o[3])
            return None
        if k == 'self':
            return self._cls(t[1])
        if k == 'FE':
            return self._cls('fedservice.entity.FederationEntity')
        if k == 'attr':
            if t[2] in FUNC_TYPES:
                return self._cls(FUNC_TYPES[t[2]])
            bc = self.typeof(st, t[1])
            if bc is not None:
                c = self.repo.attr_type(bc, t[2])
                if c is not None:
                    return c
        if k == 'inst':
            return self._cls(t[1])
        if k == 'dict' and len(t) > 3:
            return self._cls(t[3][1])
        return None

    def _cls(self, q):
        try:
            return self.repo.cls(q)
        except Exception:
            return None

    def is_message(self, cls):
        return any(b.split('.')[-1] in ('Message', 'ResponseMessage', 'JsonWebToken', 'dict', 'ASConfigurationResponse',
                                        'RegistrationResponse', 'RegistrationRequest', 'AuthorizationRequest',
                                        'AuthorizationResponse', 'ProviderConfigurationResponse')
                   or b.startswith('idpyoidc.message') for b in cls.all_ext_bases())

    # ------------------------------------------------------------------ conditions
    def catching(self, *names):
        """Would an enclosing handler catch one of these?"""
        for h in self.handlers:
            if h is None:
                return True
            for n in h:
                if n in ('Exception', 'BaseException') or n in names:
                    return True
        return False

    def catching_any(self):
        return any(h is None or h for h in self.handlers)

    def test(self, st, lit):
        """-> [(state, bool)]"""
        if isinstance(lit, bool):
            return [(st, lit)]
        r = st.know(lit)
        if r is not None:
            return [(st, r)]
        a, pol = lit
        if a[0] in ('none', 'truthy') and a[1][0] == 'pv':
            vals = self.loopinfo.get(a[1][1], {}).get('phivals', {}).get(a[1][2], ())
            if vals and a[0] == 'none' and all(definitely_not_none(v) for v in vals):
                return [(st, not pol)]
            if vals and a[0] == 'truthy' and all(v[0] in ('verified', 'payload', 'jws') for v in vals):
                return [(st, pol)]
        outs = self._test_atom(st, a)
        return outs if pol else [(s, not b) for s, b in outs]

    def _fork(self, st, a):
        t, f = st.copy(), st.copy()
        t.assume((a, True))
        f.assume((a, False))
        t.trace, f.trace = (st.trace, (a, True, self.loc)), (st.trace, (a, False, self.loc))
        return [(t, True), (f, False)]

    loc = None

    def _or(self, st, lits):
        outs, cur = [], [st]
        for l in lits:
            nxt = []
            for s in cur:
                for s2, b in self.test(s, l):
                    if b:
                        outs.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return outs + [(s, False) for s in cur]

    def _and(self, st, lits):
        return [(s, not b) for s, b in self._or(st, [neg(l) for l in lits])]

    def _test_atom(self, st, a):
        k = a[0]
        if k == 'in':
            x, c = a[1], a[2]
            if c[0] == 'inter':
                return self._and(st, [a_in(x, s) for s in c[1:3]])
            if c[0] == 'union':
                return self._or(st, [a_in(x, s) for s in c[1:3]])
            if c[0] == 'diff':
                return self._and(st, [a_in(x, c[1]), neg(a_in(x, c[2]))])
            if c[0] == 'extobj' and c[1].endswith('KeyJar') and not c[2] and not c[3]:
                return [(st, False)]
            if c[0] in ('list', 'tuple'):
                segs = c[1:] if c[0] == 'list' else tuple(('item', s) for s in c[1:])
                if all(s[0] in ('item', 'all') for s in segs):
                    if not segs:
                        return [(st, False)]
                    if len(segs) > 1 or segs[0][0] == 'item':
                        return self._or(st, [a_eq(x, s[1]) if s[0] == 'item' else a_in(x, s[1]) for s in segs])
                elif all(s[0] == 'many' for s in segs):
                    return self._exists(st, a, segs, lambda v: a_eq(x, v))
            if c[0] == 'dict':
                return self._in_dict(st, x, c)
            if c[0] == 'lo':
                vs = [v for d, ev, v in self.alts[c[3]]] + [c[4]]
                if all(v is not None and v[0] == 'dict' and any(l[0] == 'set' and l[1] == x for l in v[2])
                       and not any(l[0] == 'del' for l in v[2]) for v in vs):
                    return [(st, True)]
            if c[0] == 'const':
                if x[0] == 'const':
                    try:
                        return [(st, x[2] in c[2])]
                    except TypeError:
                        return [(st, False)]
            if c[0] == 'global' or c[0] == 'classattr':
                lits = self.literal_keys(c)
                if lits is not None and x[0] == 'const':
                    return [(st, x in lits)]
        elif k == 'truthy':
            t = a[1]
            if t[0] == 'list' and all(s[0] == 'many' for s in t[1:]):
                return self._exists(st, a, t[1:], None)
            if t[0] == 'global':
                lits = self.literal_keys(t)
                if lits is not None:
                    return [(st, bool(lits))]
            if t[0] == 'union':
                return self._or(st, [a_truthy(s) for s in t[1:3]])
        elif k == 'subset':
            x, y = a[1], a[2]
            if x[0] == 'list' and all(s[0] == 'item' for s in x[1:]):
                return self._and(st, [a_in(s[1], y) for s in x[1:]])
            if x[0] == 'union':
                return self._and(st, [a_subset(s, y) for s in x[1:3]])
            if y[0] == 'inter':
                return self._and(st, [a_subset(x, s) for s in y[1:3]])
            lx = self.literal_keys(x)
            ly = self.literal_keys(y)
            if lx is not None and ly is not None:
                return [(st, set(lx) <= set(ly))]
            # a set is within a literal set ... stays symbolic
        elif k == 'eq':
            x, y = a[1], a[2]
            if x[0] == 'tuple' and y[0] == 'tuple':
                return self._and(st, [a_eq(p, q) for p, q in zip(x[1:], y[1:])])
            if x[0] == 'set' and y[0] == 'set':
                return self._and(st, [a_subset(x, y), a_subset(y, x)])
        return self._fork(st, a)

    def _in_dict(self, st, x, c):
        """Membership in a dictionary whose construction we know."""
        for i in range(len(c[2]) - 1, -1, -1):
            l = c[2][i]
            rest = ('dict', c[1], c[2][:i])
            if l[0] == 'set':
                return [o for s, b in self.test(st, a_eq(x, l[1]))
                        for o in ([(s, True)] if b else self.test(s, a_in(x, self.simp_dict(rest))))]
            if l[0] == 'del':
                return [o for s, b in self.test(st, a_eq(x, l[1]))
                        for o in ([(s, False)] if b else self.test(s, a_in(x, self.simp_dict(rest))))]
            if l[0] == 'upd':
                return [o for s, b in self.test(st, a_in(x, l[1]))
                        for o in ([(s, True)] if b else self.test(s, a_in(x, self.simp_dict(rest))))]
            return self._fork(st, ('in', x, c))
        if c[1] is None:
            return [(st, False)]
        return self.test(st, a_in(x, c[1]))

    @staticmethod
    def simp_dict(d):
        return d[1] if d[1] is not None and not d[2] else d

    def _exists(self, st, a, segs, mk):
        """Some element of a list built in loops (satisfies mk)."""
        outs = []
        f = st.copy()
        f.assume((a, False))
        for s in segs:
            _, lid, it, aid = s
            none_alts = []
            for alt in self.alts[aid]:
                facts, _, val = alt
                vals = val if val else ()
                if not vals:
                    none_alts.append(alt)
                    continue
                for seg in vals:
                    t = st.copy()
                    if any(t.know((fa, fv)) is False for fa, fv in facts):
                        continue
                    for fa, fv in facts:
                        t.assume((fa, fv))
                    t.assume((a, True))
                    cur = [(t, True)]
                    if mk is not None and seg[0] == 'item':
                        cur = self.test(t, mk(seg[1]))
                    outs.extend((s2, True) for s2, b in cur if b)
            if mk is None and len(none_alts) < len(self.alts[aid]):
                f.assume((('forall', lid, it, self.altid(none_alts)), True))
        outs.append((f, False))
        return outs

    # ------------------------------------------------------------------ globals
    def global_expr(self, t):
        """The literal expression behind a ('global', q) or ('classattr', cls, name) term, if any."""
        try:
            if t[0] == 'global':
                mn, _, n = t[1].rpartition('.')
                r = self.repo.resolve(self.repo.modules[mn], n)
                if r and r[0] == 'assign':
                    return r[1], r[2]
            elif t[0] == 'classattr':
                c = self._cls(t[1])
                e, cc = c.find_attr(t[2])
                return (e, cc.module) if e is not None else None
        except KeyError:
            pass
        return None

    def literal_keys(self, t):
        """Constant members/keys of a literal container."""
        t = strip_set(t)
        m = members(t)
        if m is not None:
            return m
        if t[0] in ('global', 'classattr'):
            g = self.global_expr(t)
            if g:
                return self._lit_keys(*g)
        return None

    def _lit_keys(self, e, mod):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            es = e.elts
        elif isinstance(e, ast.Dict):
            es = e.keys
        elif isinstance(e, ast.Call) and dotted(e.func) in ('set', 'frozenset', 'list', 'tuple') and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, ast.Name):
                r = self.repo.resolve(mod, a.id)
                return self._lit_keys(r[1], r[2]) if r and r[0] == 'assign' else None
            return self._lit_keys(a, mod)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'keys':
            e = e.func.value
            if isinstance(e, ast.Name):
                r = self.repo.resolve(mod, e.id)
                return self._lit_keys(r[1], r[2]) if r and r[0] == 'assign' else None
            return None
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args:
            return [C(k.arg) for k in e.keywords] if all(k.arg for k in e.keywords) else None
        else:
            return None
        if all(isinstance(x, ast.Constant) for x in es):
            return [C(x.value) for x in es]
        return None

    # ------------------------------------------------------------------ exceptions
    def raise_(self, st, name, node, extra=None):
        s = st.copy()
        s.exc = (name, self.where(node), extra)
        return [(s, None)]

    @staticmethod
    def bind(outs, fn):
        res = []
        for s, v in outs:
            if v is None:
                res.append((s, None))
            else:
                res.extend(fn(s, v))
        return res

    def ev_many(self, exprs, st):
        """-> [(st, [values])] (value None: exception)"""
        outs = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in outs:
                if vs is None:
                    nxt.append((s, None))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, None if v is None else vs + [v]))
            outs = nxt
        return outs

    # ------------------------------------------------------------------ loads
    def load_attr(self, st, b, name, node):
        b = st.over.get(b, b)
        k = b[0]
        if k == 'const' and b[2] is None or st.know(a_none(b)) is True:
            return self.raise_(st, 'AttributeError', node)
        if k == 'obj':
            o = st.heap[b[1]]
            if o[0] == 'inst':
                for n, v in o[2]:
                    if n == name:
                        return [(st, v)]
            if o[0] == 'dict' and o[3] and name in ('c_param', 'c_default', 'c_allowed_values'):
                return [(st, ('classattr', o[3], name))]
            if o[0] in ('inst', 'ext'):
                t = ('attr', b, name)
                if t in st.over:
                    return [(st, st.over[t])]
        if k == 'mod':
            return [(st, self.resolved(self.repo.resolve_dotted(b[1], name), name))]
        if k == 'ext':
            return [(st, ('ext', f'{b[1]}.{name}'))]
        if k == 'class':
            c = self._cls(b[1])
            f = c.find(name)
            if f:
                return [(st, ('func', f.qual))]
            return [(st, self.class_attr(c, name) or ('classattr', c.qual, name))]
        if k == 'super':
            return [(st, ('superm', b, name))]
        t = self.canon_attr(st, b, name)
        if t in st.over:
            return [(st, st.over[t])]
        cls = self.typeof(st, b)
        if cls is not None:
            f = cls.find(name)
            if f is not None and f.kind == 'property':
                return self.call_func(f, st, b, [], {}, node)
            if f is not None:
                return [(st, ('bound', b, f.qual))]
            v = self.class_attr(cls, name)
            if v is not None and not self.assigned_on_self(cls, name):
                return [(st, v)]
        return [(st, t)]

    def assigned_on_self(self, cls, name):
        key = ('$asg', cls.qual)
        if key not in self._live:
            names = set()
            for c in cls.mro():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == 'self':
                            names.add(n.attr)
            self._live[key] = names
        return name in self._live[key]

    def class_attr(self, cls, name):
        e, c = cls.find_attr(name)
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(c.module, e)
            if r:
                return self.resolved(r, name)
        return ('classattr', c.qual, name)

    def resolved(self, r, name):
        if r is None:
            return ('ext', name)
        if r[0] == 'func':
            return ('func', r[1].qual)
        if r[0] == 'class':
            return ('class', r[1].qual)
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'assign':
            if isinstance(r[1], ast.Constant):
                return C(r[1].value)
            if isinstance(r[1], (ast.Name, ast.Attribute)):
                r2 = self.repo.resolve_expr(r[2], r[1])
                if r2 and r2[0] != 'assign':
                    return self.resolved(r2, name)
            return ('global', f'{r[2].name}.{r[3]}')
        return ('ext', r[1])

    def canon_attr(self, st, b, name):
        if name == 'trust_anchors' and b[0] == 'attr' and b[2] == 'trust_chain_collector':
            return ('attr', FE, 'trust_anchors')
        if name in ('entity_id', 'keyjar') and b in (('attr', FE, 'context'),):
            return ('attr', FE, name)
        if b[0] == 'self' and name in ('trust_anchors',) and b[1].endswith('TrustChainCollector') and self.fe:
            return ('attr', FE, name)
        if name == 'jwt' and b[0] == 'jws':
            return ('jwsjwt', b[1])
        return ('attr', b, name)

    def load_item(self, st, b, k, node):
        b = st.over.get(b, b)
        if b[0] == 'const' and b[2] is None or st.know(a_none(b)) is True:
            return self.raise_(st, 'TypeError', node)
        cls = self.typeof(st, b)
        if cls is not None and not self.is_message(cls):
            f = cls.find('__getitem__')
            if f is not None:
                return self.call_func(f, st, b, [k], {}, node)
        k = self.freeze(st, k)
        o = self.obj(st, b)
        if o is not None and o[0] == 'list' and k[0] == 'const':
            if not isinstance(k[2], int):
                return self.raise_(st, 'TypeError', node)
            if all(x[0] == 'item' for x in o[1]) and not -len(o[1]) <= k[2] < len(o[1]):
                return self.raise_(st, 'IndexError', node)
        r = self._known_item(st, b, k)
        if r is not None:
            if isinstance(r, list):
                outs = []
                for s2, v in r:
                    if v is KeyError:
                        outs.extend(self.raise_(s2, 'KeyError', node))
                    else:
                        outs.append((s2, v))
                return outs
            return [(st, st.over.get(r, r))]
        fb = self.freeze(st, b)
        t = self.item_term(fb, k)
        isint = k[0] == 'const' and isinstance(k[2], int)
        if k[0] == 'slice':
            return [(st, self.slice_value(st, fb, k))]
        outs = []
        if isint:
            if self.catching('IndexError', 'LookupError'):
                lit = a_truthy(fb) if k[2] in (0, -1) else neg(a_lt(('len', strip_set(fb)), C(abs(k[2]) + (k[2] >= 0))))
                for s2, ok in self.test(st, lit):
                    outs.extend([(s2, t)] if ok else self.raise_(s2, 'IndexError', node))
            else:
                outs = [(st, t)]
        elif self.catching('KeyError', 'LookupError', 'IndexError'):
            for s2, ok in self.test(st, a_in(k, fb)):
                outs.extend([(s2, t)] if ok else self.raise_(s2, 'KeyError', node))
        else:
            s2 = st
            lit = a_in(k, fb)
            if k[0] == 'const':
                kn = st.know(lit)
                if kn is None:
                    s2 = st.copy()
                    s2.assume(lit)
                elif kn is False:
                    return self.raise_(st, 'KeyError', node)
            outs = [(s2, t)]
        return [(s, s.over.get(v, v)) if v is not None else (s, v) for s, v in outs]

    def slice_value(self, st, fb, k):
        lo, hi, step = k[1:]
        if step == C(-1) and lo == NONE and hi == NONE:
            return self.new_obj(st, ('list', (('all', self.rev(fb)),)))
        if lo in (NONE, C(0)) and hi == NONE and step in (NONE, C(1)):
            return self.new_obj(st, ('list', (('all', fb),)))
        if fb[0] == 'list' and all(s[0] == 'item' for s in fb[1:]) and all(x[0] == 'const' for x in k[1:]):
            return self.new_obj(st, ('list', fb[1:][slice(lo[2], hi[2], step[2])]))
        return self.new_obj(st, ('list', (('all', ('slice', fb, lo, hi, step)),)))

    @staticmethod
    def rev(t):
        if t[0] == 'rev':
            return t[1]
        if t[0] == 'list' and all(s[0] == 'item' for s in t[1:]):
            return ('list',) + tuple(reversed(t[1:]))
        if t[0] == 'slice' and t[4] == NONE and t[2] == NONE and t[3] == C(-1):
            return ('slice', ('rev', t[1]), C(1), NONE, NONE)
        return ('rev', t)

    def item_term(self, b, k):
        while b[0] in ('set', 'deep'):
            b = b[1]
        if b[0] == 'rev' and k[0] == 'const' and isinstance(k[2], int):
            return self.item_term(b[1], C(-1 - k[2]))
        if b[0] == 'slice' and k[0] == 'const' and isinstance(k[2], int) and b[4] == NONE:
            if k[2] >= 0 and b[2][0] == 'const' and (b[2][2] or 0) >= 0:
                return self.item_term(b[1], C((b[2][2] or 0) + k[2]))
            if k[2] < 0 and b[3] == NONE:
                return self.item_term(b[1], k)
            if k[2] < 0 and b[3][0] == 'const' and b[3][2] < 0:
                return self.item_term(b[1], C(b[3][2] + k[2]))
        if b[0] == 'slice' and b[4] == NONE and b[2][0] == 'const' and (b[2][2] or 0) >= 0 and k[0] in ('idx', 'lin'):
            return self.item_term(b[1], lin_add(k, C(b[2][2] or 0)))
        if k[0] == 'idx' and b == self.loopinfo.get(k[1], {}).get('iter', ('?',)):
            return ('elem', k[1], b)
        if k[0] == 'idx' and ('len', b) == self.loopinfo.get(k[1], {}).get('range'):
            return ('elem', k[1], b)
        if b[0] == 'dict' and b[1] is not None and not b[2]:
            return self.item_term(b[1], k)
        # len(x) - n
        if k[0] == 'lin' and k[1] == ((('len', b), 1),) and isinstance(k[2], int) and k[2] < 0:
            return ('item', b, C(k[2]))
        return ('item', b, k)

    def _known_item(self, st, b, k):
        """A value, a list of outcomes, or None when nothing is known."""
        o = self.obj(st, b)
        if o is None:
            if b[0] == 'tuple' and k[0] == 'const' and isinstance(k[2], int) and -len(b) < k[2] < len(b) - 1:
                return b[1:][k[2]]
            if b[0] in ('global', 'classattr') and k[0] == 'const':
                g = self.global_expr(b)
                if g and isinstance(g[0], ast.Dict):
                    for kk, vv in zip(g[0].keys, g[0].values):
                        if isinstance(kk, ast.Constant) and kk.value == k[2]:
                            return self.global_value(vv, g[1], ('item', b, k))
                if g and isinstance(g[0], (ast.List, ast.Tuple)) and isinstance(k[2], int) and \
                        -len(g[0].elts) <= k[2] < len(g[0].elts):
                    return self.global_value(g[0].elts[k[2]], g[1], ('item', b, k))
            if b[0] in ('list',) and k[0] == 'const' and all(s[0] == 'item' for s in b[1:]) and \
                    isinstance(k[2], int) and -len(b) < k[2] < len(b) - 1:
                return b[1:][k[2]][1]
            if b[0] == 'dict':
                return self._dict_item(st, b, b[1], b[2], k)
            return None
        if o[0] == 'list':
            segs = o[1]
            if k[0] == 'const' and isinstance(k[2], int) and segs:
                n = k[2]
                if all(s[0] == 'item' for s in segs):
                    return segs[n][1] if -len(segs) <= n < len(segs) else [(st, KeyError)]
                if n < 0 and all(s[0] == 'item' for s in segs[n:]) and len(segs) >= -n:
                    return segs[n][1]
                if n >= 0 and len(segs) > n and all(s[0] == 'item' for s in segs[:n + 1]):
                    return segs[n][1]
                if len(segs) == 1 and segs[0][0] == 'all':
                    return self.item_term(self.freeze(st, segs[0][1]), k)
                if n == -1 and segs[-1][0] == 'prev':
                    return self.prev_value(segs[-1][1], segs[-1][2])
            elif len(segs) == 1 and segs[0][0] == 'all' and k[0] != 'slice':
                return self.item_term(self.freeze(st, segs[0][1]), k)
            elif k[0] == 'lin' and segs and segs[-1][0] == 'prev':
                if k == lin_add(('idx', segs[-1][1]), C(-1)) and self.one_to_one(segs[-1]):
                    return self.prev_value(segs[-1][1], segs[-1][2])
            return None
        if o[0] == 'dict':
            return self._dict_item(st, b, o[1], o[2], k)
        return None

    def prev_value(self, lid, key):
        v = self.loopinfo.get(lid, {}).get('shift', {}).get(key)
        return v if v is not None else ('pv', lid, key)

    def one_to_one(self, seg):
        return seg[2] in self.loopinfo.get(seg[1], {}).get('one2one', ())

    def _dict_item(self, st, b, base, layers, k):
        outs, cur = [], [st]
        for i in range(len(layers) - 1, -1, -1):
            l = layers[i]
            if l[0] in ('set', 'del'):
                nxt = []
                for s in cur:
                    for s2, eq in self.test(s, a_eq(k, self.freeze(s, l[1]))):
                        if eq:
                            outs.append((s2, l[2] if l[0] == 'set' else KeyError))
                        else:
                            nxt.append(s2)
                cur = nxt
            elif l[0] == 'upd':
                nxt = []
                for s in cur:
                    u = self.freeze(s, l[1])
                    for s2, b2 in self.test(s, a_in(k, u)):
                        if b2:
                            outs.append((s2, self.item_term(u, k)))
                        else:
                            nxt.append(s2)
                cur = nxt
            else:
                return None
            if not cur:
                return outs
        if base is not None:
            fb = self.freeze(cur[0], base)
            t = self.item_term(fb, k)
            if base[0] == 'deep':
                t = ('deep', t)
            if outs or layers:
                for s in cur:
                    outs.append((s, s.over.get(t, t)))
                return outs
            return None if not layers else outs
        if k[0] == 'const' or layers:
            return outs + [(s, KeyError) for s in cur]
        return [(s, KeyError) for s in cur]

    def global_value(self, e, mod, fallback):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(mod, e)
            if r:
                return self.resolved(r, '')
        return fallback

    # ------------------------------------------------------------------ iteration
    def iter_desc(self, st, it):
        """-> (known items or None, frozen iterable, function lid -> value of the loop variable)"""
        o = self.obj(st, it)
        if o is not None and o[0] in ('list', 'set') and all(s[0] == 'item' for s in o[1]):
            return [s[1] for s in o[1]], None, None
        if it[0] == 'tuple':
            return list(it[1:]), None, None
        if it[0] == 'enum':
            ks, f, mk = self.iter_desc(st, it[1])
            if ks is not None:
                return [('tuple', lin_add(C(i), it[2]), v) for i, v in enumerate(ks)], None, None
            return None, f, lambda lid: ('tuple', lin_add(('idx', lid), it[2]), mk(lid))
        if it[0] == 'zip':
            ds = [self.iter_desc(st, x) for x in it[1:]]
            if all(d[0] is not None for d in ds):
                return [('tuple',) + tuple(v) for v in zip(*[d[0] for d in ds])], None, None
            fr = tuple(d[1] if d[0] is None else ('list',) + tuple(('item', x) for x in d[0]) for d in ds)
            return None, ('zip',) + fr, lambda lid: ('tuple',) + tuple(
                d[2](lid) if d[2] else ('elem', lid, f) for d, f in zip(ds, fr))
        if it[0] == 'items':
            d = it[1]
            od = self.obj(st, d)
            if od is not None and od[0] == 'dict' and od[1] is None and all(l[0] == 'set' for l in od[2]):
                return [('tuple', l[1], l[2]) for l in od[2]], None, None
            fd = self.freeze(st, d)
            return None, fd, lambda lid: ('tuple', ('elem', lid, fd), self.over_item(st, fd, ('elem', lid, fd)))
        if it[0] == 'values':
            d = it[1]
            od = self.obj(st, d)
            if od is not None and od[0] == 'dict' and od[1] is None and all(l[0] == 'set' for l in od[2]):
                return [l[2] for l in od[2]], None, None
            fd = self.freeze(st, d)
            return None, fd, lambda lid: self.over_item(st, fd, ('elem', lid, fd))
        if it[0] == 'range':
            lo, hi = it[1], it[2]
            if lo[0] == 'const' and hi[0] == 'const' and it[3] == C(1):
                return [C(i) for i in range(lo[2], min(hi[2], lo[2] + 64))], None, None
            f = it

            def mk(lid):
                return lin_add(('idx', lid), lo)
            return None, f, mk
        if it[0] in ('global', 'classattr'):
            ks = self.literal_keys(it)
            if ks is not None:
                return list(ks), None, None
        if o is not None and o[0] == 'dict' and o[1] is None and all(l[0] == 'set' for l in o[2]):
            return [l[1] for l in o[2]], None, None
        f = self.freeze(st, it)
        if f[0] == 'set':
            f = f[1]
        if f[0] == 'keys':
            f = f[1]
        if f[0] == 'list' and all(s[0] == 'item' for s in f[1:]):
            return [s[1] for s in f[1:]], None, None
        if f[0] == 'dict' and f[1] is None and all(l[0] == 'set' for l in f[2]):
            return [l[1] for l in f[2]], None, None
        if f[0] == 'slice' and f[4] == NONE and f[2][0] == 'const' and (f[2][2] or 0) > 0:
            base, off = f[1], f[2][2]
            return None, f, lambda lid: self.item_term(base, lin_add(('idx', lid), C(off)))
        return None, f, lambda lid: ('elem', lid, f)

    def over_item(self, st, d, k):
        t = self.item_term(d, k)
        return st.over.get(t, t)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps % 500 == 0 and time.time() > self.deadline:
            raise Limit('time')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(st, ('opaque', type(e).__name__, self.where(e)))]
        return m(e, st)

    def ev_Constant(self, e, st):
        return [(st, C(e.value))]

    def ev_Name(self, e, st):
        n = e.id
        if n in st.env:
            v = st.env[n]
            if v[0] == 'phi':
                # the value a variable has at the head of a loop: the initial one or that of the previous iteration
                res = []
                for s, b in self.test(st, a_eq(('idx', v[1]), C(0))):
                    s.env[n] = v[3] if b else ('pv', v[1], v[2])
                    res.append((s, s.env[n]))
                return res
            return [(st, v)]
        cl = st.env.get('$closure')
        while cl is not None:
            if n in cl:
                return [(st, cl[n])]
            cl = cl.get('$closure')
        if n == '__name__':
            return [(st, C('m'))]
        return [(st, self.resolved(self.repo.resolve(self.stack[-1].module, n), n))]

    def ev_NamedExpr(self, e, st):
        def fn(s, v):
            s2 = s.copy()
            s2.env[e.target.id] = v
            return [(s2, v)]
        return self.bind(self.ev(e.value, st), fn)

    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, b: self.load_attr(s, b, e.attr, e))

    def ev_Subscript(self, e, st):
        def fn(s, b):
            if isinstance(e.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                return [o for s2, vs in self.ev_many(parts, s) for o in (
                    [(s2, None)] if vs is None else self.load_item(s2, b, ('slice',) + tuple(vs), e))]
            return self.bind(self.ev(e.slice, s), lambda s2, k: self.load_item(s2, b, k, e))
        return self.bind(self.ev(e.value, st), fn)

    def ev_Starred(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: [(s, ('star', v))])

    def _elts(self, elts, st, mk):
        outs = []
        for s, vs in self.ev_many(elts, st):
            outs.append((s, None) if vs is None else mk(s.copy(), vs))
        return outs

    def ev_List(self, e, st, kind='list'):
        def mk(s, vs):
            segs = []
            for v in vs:
                if v[0] == 'star':
                    o = self.obj(s, v[1])
                    if o is not None and o[0] in ('list', 'set'):
                        segs.extend(o[1])
                    elif v[1][0] == 'tuple':
                        segs.extend(('item', x) for x in v[1][1:])
                    else:
                        segs.append(('all', v[1]))
                else:
                    segs.append(('item', v))
            return s, self.new_obj(s, (kind, tuple(segs)))
        return self._elts(e.elts, st, mk)

    def ev_Set(self, e, st):
        return self.ev_List(e, st, 'set')

    def ev_Tuple(self, e, st):
        def mk(s, vs):
            if any(v[0] == 'star' for v in vs):
                out = []
                for v in vs:
                    if v[0] == 'star' and v[1][0] == 'tuple':
                        out.extend(v[1][1:])
                    else:
                        out.append(v)
                return s, ('tuple',) + tuple(out)
            return s, ('tuple',) + tuple(vs)
        return self._elts(e.elts, st, mk)

    def ev_Dict(self, e, st):
        ks = [k if k is not None else ast.Constant('**') for k in e.keys]
        outs = []
        for s, vs in self.ev_many([x for kv in zip(ks, e.values) for x in kv], st):
            if vs is None:
                outs.append((s, None))
                continue
            s = s.copy()
            base, layers = None, []
            for i, k in enumerate(e.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    o = self.obj(s, vv)
                    if o is not None and o[0] == 'dict':
                        if base is None and not layers:
                            base, layers = o[1], list(o[2])
                        elif o[1] is None:
                            layers.extend(o[2])
                        else:
                            layers.append(('upd', vv))
                    elif base is None and not layers:
                        base = vv
                    else:
                        layers.append(('upd', vv))
                else:
                    layers = [l for l in layers if not (l[0] == 'set' and l[1] == kv)] + [('set', kv, vv)]
            outs.append((s, self.new_obj(s, ('dict', base, tuple(layers), None))))
        return outs

    def ev_JoinedStr(self, e, st):
        vals = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        outs = []
        for s, vs in self.ev_many(vals, st):
            outs.append((s, None if vs is None else self.fstr([self.freeze(s, v) for v in vs])))
        return outs

    @staticmethod
    def fstr(parts):
        out = []
        for p in parts:
            ps = p[1:] if p[0] == 'fstr' else (p,)
            for q in ps:
                if q[0] == 'const' and not isinstance(q[2], str):
                    q = C(str(q[2]))
                if q[0] == 'const' and out and out[-1][0] == 'const':
                    out[-1] = C(out[-1][2] + q[2])
                elif q != C(''):
                    out.append(q)
        if not out:
            return C('')
        if len(out) == 1 and out[0][0] == 'const':
            return out[0]
        return ('fstr',) + tuple(out)

    def ev_IfExp(self, e, st):
        outs = []
        for s, b in self.cond(e.test, st):
            outs.extend([(s, None)] if b is None else self.ev(e.body if b else e.orelse, s))
        return outs

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        outs, cur = [], [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if v is None or last:
                        outs.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            outs.append((s3, v))
            cur = self.merge_states(nxt)
        return outs

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, None if b is None else C(not b)) for s, b in self.cond(e.operand, st)]

        def fn(s, v):
            if isinstance(e.op, ast.USub):
                r = lin_add(C(0), v, -1)
                return [(s, r if r is not None else ('un', '-', v))]
            return [(s, ('un', type(e.op).__name__, self.freeze(s, v)))]
        return self.bind(self.ev(e.operand, st), fn)

    def ev_Compare(self, e, st):
        return [(s, None if b is None else C(b)) for s, b in self.cond(e, st)]

    def is_setlike(self, st, v):
        o = self.obj(st, v)
        if o is not None:
            return o[0] == 'set'
        if v[0] in ('set', 'inter', 'union', 'diff', 'symdiff', 'keysof'):
            return True
        if v[0] == 'global':
            g = self.global_expr(v)
            return bool(g) and (isinstance(g[0], ast.Set) or isinstance(g[0], ast.Call) and
                                dotted(g[0].func) in ('set', 'frozenset'))
        return False

    def setop(self, op, a, b):
        a, b = strip_set(a), strip_set(b)
        x, y = self.literal_keys(a), self.literal_keys(b)
        if x is not None and y is not None:
            x, y = set(x), set(y)
            r = x & y if op == 'inter' else x | y if op == 'union' else x - y if op == 'diff' else x ^ y
            return ('set', ('list',) + tuple(('item', v) for v in sorted(r, key=skey)))
        if op == 'symdiff':
            return self.setop('union', self.setop('diff', a, b), self.setop('diff', b, a))
        if op in ('inter', 'union'):
            if a == b:
                return ('set', a)
            a, b = sorted((a, b), key=skey)
        return (op, a, b)

    def binop(self, st, op, a, b, node):
        """-> (st, value)"""
        n = type(op).__name__
        if n in ('Sub', 'BitAnd', 'BitOr', 'BitXor') and (self.is_setlike(st, a) or self.is_setlike(st, b)):
            return st, self.setop({'Sub': 'diff', 'BitAnd': 'inter', 'BitOr': 'union', 'BitXor': 'symdiff'}[n],
                                  self.freeze(st, a), self.freeze(st, b))
        oa, ob = self.obj(st, a), self.obj(st, b)
        if n == 'BitOr' and oa is not None and oa[0] == 'dict':
            st = st.copy()
            r = self.new_obj(st, oa)
            self.dict_update(st, r, b)
            return st, r
        if n == 'Add':
            la = oa is not None and oa[0] == 'list'
            lb = ob is not None and ob[0] == 'list'
            if la or lb:
                st = st.copy()
                return st, self.new_obj(st, ('list', (oa[1] if la else (('all', a),)) + (ob[1] if lb else (('all', b),))))
            if a[0] == 'tuple' and b[0] == 'tuple':
                return st, a + b[1:]
            if any(x[0] == 'fstr' or x[0] == 'const' and isinstance(x[2], str) for x in (a, b)):
                return st, self.fstr([self.freeze(st, a), self.freeze(st, b)])
            r = lin_add(self.freeze(st, a), self.freeze(st, b))
            if r is not None:
                return st, r
        if n == 'Sub':
            r = lin_add(self.freeze(st, a), self.freeze(st, b), -1)
            if r is not None:
                return st, r
        if n == 'Mod' and a[0] == 'const' and isinstance(a[2], str):
            args = b[1:] if b[0] == 'tuple' else (b,)
            bits = a[2].split('%s')
            if len(bits) == len(args) + 1:
                ps = [C(bits[0])]
                for x, y in zip(args, bits[1:]):
                    ps += [self.freeze(st, x), C(y)]
                return st, self.fstr(ps)
        if a[0] == 'const' and b[0] == 'const':
            try:
                import operator
                f = {'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
                     'Mod': operator.mod, 'Pow': operator.pow}.get(n)
                if f and n != 'Pow' and not (n == 'Mult' and isinstance(a[2], str)):
                    return st, C(f(a[2], b[2]))
            except Exception:
                pass
        if n == 'Mult':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'const' and isinstance(x[2], (int, float)) and not isinstance(x[2], bool):
                    l = to_lin(self.freeze(st, y))
                    if l is not None and self.obj(st, y) is None:
                        return st, mk_lin({k: v * x[2] for k, v in l[0].items()}, l[1] * x[2])
        return st, ('bin', n, self.freeze(st, a), self.freeze(st, b))

    def ev_BinOp(self, e, st):
        outs = []
        for s, vs in self.ev_many([e.left, e.right], st):
            if vs is not None and NONE in vs and isinstance(e.op, (ast.Sub, ast.Add, ast.Mult, ast.Div)):
                outs.extend(self.raise_(s, 'TypeError', e))
                continue
            outs.append((s, None) if vs is None else self.binop(s, e.op, vs[0], vs[1], e))
        return outs

    def ev_Lambda(self, e, st):
        self.closures.append((e, st.env, self.stack[-1]))
        return [(st, ('closure', len(self.closures) - 1))]

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        if e.value is None:
            return [(st, NONE)]

        def fn(s, v):
            s = s.copy()
            y = s.env.get('$yield')
            if y is not None:
                o = s.heap[y[1]]
                s.heap[y[1]] = ('list', o[1] + (('item', v),))
            return [(s, NONE)]
        return self.bind(self.ev(e.value, st), fn)

    def ev_YieldFrom(self, e, st):
        def fn(s, v):
            s = s.copy()
            y = s.env.get('$yield')
            if y is not None:
                o = s.heap[y[1]]
                s.heap[y[1]] = ('list', o[1] + (('all', v),))
            return [(s, NONE)]
        return self.bind(self.ev(e.value, st), fn)

    # comprehensions: a loop that appends
    def _comp(self, e, st, kind):
        s = st.copy()
        tmp = f'$comp{id(e)}'
        if kind == 'dict':
            s.env[tmp] = self.new_obj(s, ('dict', None, (), None))
            body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=e.key, ctx=ast.Store())],
                              value=e.value)
        else:
            s.env[tmp] = self.new_obj(s, (kind, ()))
            meth = 'append' if kind == 'list' else 'add'
            body = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr=meth,
                                                              ctx=ast.Load()), args=[e.elt], keywords=[]))
        cache = getattr(e, '_sa_loop', None)
        if cache is None:
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = ast.If(test=c, body=[body], orelse=[])
                body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
            ast.copy_location(body, e)
            ast.fix_missing_locations(body)
            e._sa_loop = body
            cache = body
        outs = []
        saved = {n.id: st.env.get(n.id) for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for x in self.exec_stmt(cache, s):
            if x.kind == 'next':
                s2 = x.st.copy()
                v = s2.env.pop(tmp)
                for n, old in saved.items():
                    if old is None:
                        s2.env.pop(n, None)
                    else:
                        s2.env[n] = old
                outs.append((s2, v))
            elif x.kind == 'exc':
                outs.append((x.st, None))
        return outs

    def ev_ListComp(self, e, st):
        return self._comp(e, st, 'list')

    def ev_GeneratorExp(self, e, st):
        return self._comp(e, st, 'list')

    def ev_SetComp(self, e, st):
        return self._comp(e, st, 'set')

    def ev_DictComp(self, e, st):
        return self._comp(e, st, 'dict')

    # ------------------------------------------------------------------ conditions as expressions
    def truth(self, st, v):
        cls = self.typeof(st, v)
        if cls is not None and not self.is_message(cls) and v[0] in ('attr', 'self', 'FE'):
            if cls.find('__len__') is None and cls.find('__bool__') is None and v[0] != 'attr':
                return [(st, True)]
        if v[0] == 'attr' and v[2] in FUNC_TYPES and v[1] == ('attr', FE, 'function'):
            return [(st, True)]
        f = self.freeze(st, v)
        if any(p(f) for p in self.assume_true):
            return [(st, True)]
        if f[0] == 'list' and len(f) == 2 and f[1][0] == 'prev' and self.one_to_one(f[1]):
            return self.test(st, neg(a_eq(('idx', f[1][1]), C(0))))
        return self.test(st, a_truthy(f))

    def cond(self, e, st):
        """-> [(state, True/False/None for an exception)]"""
        self.loc = self.where(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, None if b is None else not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs, cur = [], [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(x, s):
                        if b is None:
                            outs.append((s2, None))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            outs.append((s2, b))
                cur = self.merge_states(nxt)
            outs += [(s, isand) for s in cur]
            res = [(s, None) for s, b in outs if b is None]
            for v in (True, False):
                res += [(s, v) for s in self.merge_states([s for s, b in outs if b is v])]
            return res
        if isinstance(e, ast.Compare):
            return self.compare(e, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self._anyall(e, st)
        outs = []
        for s, v in self.ev(e, st):
            if v is None:
                outs.append((s, None))
            else:
                self.loc = self.where(e)
                outs.extend(self.truth(s, v))
        return outs

    def _as_comprehension(self, e):
        """filter(f, xs), map(f, xs) -> [x for x in xs if f(x)], [f(x) for x in xs]"""
        if not hasattr(e, '_comp'):
            f, xs = e.args
            if isinstance(f, ast.Lambda):
                a = f.args
                if len(a.args) != 1 or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or a.defaults:
                    e._comp = None
                    return None
                name, body = a.args[0].arg, f.body
            elif isinstance(f, ast.Name) and f.id == 'None':
                e._comp = None
                return None
            else:
                name = '_x_'
                body = ast.Call(func=f, args=[ast.Name(id=name, ctx=ast.Load())], keywords=[])
            keep = ast.Name(id=name, ctx=ast.Load())
            g = ast.comprehension(target=ast.Name(id=name, ctx=ast.Store()), iter=xs,
                                  ifs=[body] if e.func.id == 'filter' else [], is_async=0)
            c = ast.ListComp(elt=keep if e.func.id == 'filter' else body, generators=[g])
            ast.copy_location(c, e)
            for n in ast.walk(c):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, e)
            e._comp = c
        return e._comp

    def _anyall(self, e, st):
        """any(c for x in xs) -> for x in xs: if c: True"""
        g = e.args[0]
        isany = e.func.id == 'any'
        cache = getattr(e, '_sa_loop', None)
        if cache is None:
            test = g.elt if isany else ast.UnaryOp(op=ast.Not(), operand=g.elt)
            body = ast.If(test=test, body=[ast.Break()], orelse=[])
            for gen in reversed(g.generators):
                for c in reversed(gen.ifs):
                    body = ast.If(test=c, body=[body], orelse=[])
                body = ast.For(target=gen.target, iter=gen.iter, body=[body], orelse=[ast.Pass()])
            if len(g.generators) > 1:
                cache = False
            else:
                ast.copy_location(body, e)
                ast.fix_missing_locations(body)
                cache = body
            e._sa_loop = cache
        if cache is False:
            return self.bind_truth(self.ev(g, st), isany)
        saved = {n.id: st.env.get(n.id) for gen in g.generators for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
        outs = []
        for x in self.exec_stmt(cache, st, want_break=True):
            if x.kind == 'exc':
                outs.append((x.st, None))
                continue
            s2 = x.st.copy()
            for n, old in saved.items():
                if old is None:
                    s2.env.pop(n, None)
                else:
                    s2.env[n] = old
            outs.append((s2, isany if x.kind == 'broke' else not isany))
        return outs

    def bind_truth(self, outs, isany):
        res = []
        for s, v in outs:
            if v is None:
                res.append((s, None))
            else:
                res.extend(self.test(s, (('anyall', isany, self.freeze(s, v)), True)))
        return res

    def compare(self, e, st):
        outs = []
        if len(e.ops) > 1:  # a < b < c
            parts, left = [], e.left
            for op, right in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), e))
                left = right
            return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st)
        op = e.ops[0]
        for s, vs in self.ev_many([e.left, e.comparators[0]], st):
            self.loc = self.where(e)
            if vs is None:
                outs.append((s, None))
                continue
            outs.extend(self.compare_values(s, op, vs[0], vs[1], e))
        return outs

    def compare_values(self, s, op, a, b, node):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            cls = self.typeof(s, b)
            if cls is not None and not self.is_message(cls) and cls.find('__contains__'):
                outs = []
                for s2, v in self.call_func(cls.find('__contains__'), s, b, [a], {}, node):
                    outs.extend([(s2, None)] if v is None else self.truth(s2, v))
                return outs if n == 'In' else [(x, None if y is None else not y) for x, y in outs]
            fb = self.freeze(s, b)
            if fb[0] == 'tuple':
                fb = ('list',) + tuple(('item', x) for x in fb[1:])
            lit = a_in(self.freeze(s, a), fb)
            return self.test(s, lit if n == 'In' else neg(lit))
        if n in ('LtE', 'Lt', 'GtE', 'Gt') and (self.is_setlike(s, a) or self.is_setlike(s, b)):
            x, y = (a, b) if n[0] == 'L' else (b, a)
            fx, fy = self.freeze(s, x), self.freeze(s, y)
            if n in ('LtE', 'GtE'):
                return self.test(s, a_subset(fx, fy))
            return self._and(s, [a_subset(fx, fy), neg(a_subset(fy, fx))])
        fa, fb = self.freeze(s, a), self.freeze(s, b)
        if n in ('Eq', 'Is', 'NotEq', 'IsNot'):
            # flags: x == True
            lit = a_eq(fa, fb)
            return self.test(s, lit if n in ('Eq', 'Is') else neg(lit))
        if n == 'Lt':
            return self.test(s, a_lt(fa, fb))
        if n == 'Gt':
            return self.test(s, a_lt(fb, fa))
        if n == 'LtE':
            return self.test(s, neg(a_lt(fb, fa)))
        if n == 'GtE':
            return self.test(s, neg(a_lt(fa, fb)))
        return self._fork(s, ('cmp', n, fa, fb))

    # ------------------------------------------------------------------ calls
    def is_boundary(self, qual):
        return any(qual == b or qual.endswith('.' + b) for b in self.boundary)

    def ev_args(self, e, st):
        """-> [(st, positional [values], keywords {name: value})]  ('**' collects unknown mappings)"""
        exprs = list(e.args) + [k.value for k in e.keywords]
        outs = []
        for s, vs in self.ev_many(exprs, st):
            if vs is None:
                outs.append((s, None, None))
                continue
            pos, kw = [], {}
            for v in vs[:len(e.args)]:
                if v[0] == 'star':
                    o = self.obj(s, v[1])
                    if v[1][0] == 'tuple':
                        pos.extend(v[1][1:])
                    elif o is not None and o[0] == 'list' and all(x[0] == 'item' for x in o[1]):
                        pos.extend(x[1] for x in o[1])
                    else:
                        pos.append(v)
                else:
                    pos.append(v)
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is None:
                    o = self.obj(s, v)
                    if o is not None and o[0] == 'dict' and all(l[0] == 'set' and l[1][0] == 'const' for l in o[2]):
                        for l in o[2]:
                            kw[l[1][2]] = l[2]
                        if o[1] is not None:
                            kw['**'] = o[1]
                    else:
                        kw['**'] = v
                else:
                    kw[k.arg] = v
            outs.append((s, pos, kw))
        return outs

    def ev_Call(self, e, st):
        d = dotted(e.func)
        if d and d.split('.')[0] in SKIP_CALLS and d.split('.')[0] not in st.env and not (
                d == 'print' and any(k.arg == 'file' for k in e.keywords)):
            return [(st, NONE)]
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.stack[-1]
            return [(st, ('super', st.env.get('self', ('sym', 'self')), f.cls.qual if f.cls else ''))]
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2 and \
                all(isinstance(a, ast.Name) for a in e.args):
            c = next(iter(self.ev(e.args[0], st)))[1]
            o = next(iter(self.ev(e.args[1], st)))[1]
            if c is not None and c[0] == 'class' and o is not None:
                return [(st, ('super', o, c[1]))]
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and e.func.id not in st.env and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return [(s, None if b is None else C(b)) for s, b in self._anyall(e, st)]
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and e.args and isinstance(e.args[0], ast.GeneratorExp):
            return self._next(e, st)
        if isinstance(e.func, ast.Name) and e.func.id in ('filter', 'map') and e.func.id not in st.env and \
                len(e.args) == 2 and not e.keywords and isinstance(e.args[0], (ast.Lambda, ast.Name, ast.Attribute)):
            c = self._as_comprehension(e)
            if c is not None:
                return self.ev(c, st)
        if isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            return self._isinstance(e, st)
        outs = []
        if isinstance(e.func, ast.Attribute):
            for s, b in self.ev(e.func.value, st):
                if b is None:
                    outs.append((s, None))
                    continue
                for s2, pos, kw in self.ev_args(e, s):
                    outs.extend([(s2, None)] if pos is None else self.call_method(s2, b, e.func.attr, pos, kw, e))
            return outs
        for s, f in self.ev(e.func, st):
            if f is None:
                outs.append((s, None))
                continue
            for s2, pos, kw in self.ev_args(e, s):
                outs.extend([(s2, None)] if pos is None else self.call_value(s2, f, pos, kw, e))
        return outs

    @classmethod
    def _break_out(cls, body):
        """An inner loop that is left by break ends the outer one too."""
        if isinstance(body[0], ast.If):
            return [ast.If(test=body[0].test, body=cls._break_out(body[0].body), orelse=[])]
        if isinstance(body[0], ast.For):
            inner = body[0]
            return [ast.For(target=inner.target, iter=inner.iter, body=inner.body, orelse=[ast.Continue()]), ast.Break()]
        return body

    def _next(self, e, st):
        """next(x for x in xs if c) -> the first such x"""
        g = e.args[0]
        tmp = f'$next{id(e)}'
        cache = getattr(e, '_sa_loop', None)
        if cache is None:
            body = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=g.elt), ast.Break()]
            for gen in reversed(g.generators):
                for c in reversed(gen.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                if gen is not g.generators[-1]:
                    body = self._break_out(body)
                body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
            cache = body[0]
            ast.copy_location(cache, e)
            ast.fix_missing_locations(cache)
            e._sa_loop = cache
        outs = []
        for x in self.exec_stmt(cache, st, want_break=True):
            if x.kind == 'broke':
                s2 = x.st.copy()
                outs.append((s2, s2.env.pop(tmp)))
            elif x.kind == 'exc':
                outs.append((x.st, None))
            elif len(e.args) > 1:
                outs.extend(self.ev(e.args[1], x.st))
            else:
                outs.extend(self.raise_(x.st, 'StopIteration', e))
        return outs

    def _isinstance(self, e, st):
        outs = []
        names = [dotted(x) or '?' for x in (e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]])]
        names = [n.split('.')[-1] for n in names]
        for s, v in self.ev(e.args[0], st):
            if v is None:
                outs.append((s, None))
                continue
            self.loc = self.where(e)
            r = None
            o = self.obj(s, v)
            if v[0] == 'const':
                r = any(type(v[2]).__name__ == n or n == 'object' for n in names)
            elif o is not None and o[0] in ('list', 'set', 'dict') and not (o[0] == 'dict' and o[3]):
                r = o[0] in names or o[0] == 'dict' and any(n in ('Mapping', 'MutableMapping') for n in names)
            elif v[0] == 'fstr':
                r = 'str' in names
            if r is None and v[0] in ('list', 'dict'):
                r = v[0] in names
            if r is not None:
                outs.append((s, C(r)))
            else:
                lits = [(('isinst', self.freeze(s, v), n), True) for n in sorted(names)]
                outs.extend((s2, C(b)) for s2, b in self._or(s, lits))
        return outs

    def bind_params(self, f, st, selfv, pos, kw):
        """-> env, or None when the arguments can not be matched"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        if selfv is not None and f.cls is not None and f.kind != 'staticmethod' and names:
            pos = [selfv] + pos
        for i, v in enumerate(list(pos)):
            if v[0] == 'star':
                if i == len(names) and a.vararg and i == len(pos) - 1:
                    env[a.vararg.arg] = v[1]
                    pos = pos[:i]
                    break
                return None
        if len(pos) > len(names):
            if not a.vararg:
                return None
            env[a.vararg.arg] = ('tuple',) + tuple(pos[len(names):])
            pos = pos[:len(names)]
        for n, v in zip(names, pos):
            env[n] = v
        kw = dict(kw)
        extra = kw.pop('**', None)
        rest = {}
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                env[n] = v
            else:
                rest[n] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.new_obj(st, ('dict', extra, tuple(('set', C(k), v) for k, v in rest.items()), None))
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = ('tuple',)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.default_value(f, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.default_value(f, d, st) if d is not None else ('sym', x.arg)
        for n in names:
            if n not in env:
                env[n] = ('item', extra, C(n)) if extra is not None else ('sym', n)
        return env

    def default_value(self, f, d, st):
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, (ast.List, ast.Dict)) and not (getattr(d, 'elts', None) or getattr(d, 'keys', None)):
            return ('mutdefault', f.qual, 'list' if isinstance(d, ast.List) else 'dict')
        if isinstance(d, (ast.Name, ast.Attribute)):
            return self.resolved(self.repo.resolve_expr(f.module, d), '')
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return C(-d.operand.value)
        return ('default', f.qual, ast.unparse(d))

    def call_func(self, f, st, selfv, pos, kw, node):
        """A call of a repository function."""
        qual = f.qual
        if f.kind == 'classmethod' and selfv is None:
            selfv = ('class', f.cls.qual)
        c = self.canon_call(qual, st, selfv, pos, kw, node)
        if c is not None:
            return c
        rec = sum(1 for x in self.stack if x is f)
        if self.is_boundary(qual) or rec or len(self.stack) > 14 or \
                (self.inline_filter and not self.inline_filter(f)):
            return self.opaque_call(st, qual, selfv, pos, kw, node, f)
        outs = []
        for st, kw in self.spread(f, st, selfv, pos, kw):
            st = st.copy()
            env = self.bind_params(f, st, selfv, pos, kw)
            if env is None:
                outs.extend(self.opaque_call(st, qual, selfv, pos, kw, node, f))
            else:
                outs.extend(self.run(f, st, env))
        return outs

    def spread(self, f, st, selfv, pos, kw):
        """f(**mapping): parameters with a default that may be in the mapping."""
        extra = kw.get('**')
        if extra is None:
            return [(st, kw)]
        t = self.freeze(st, extra)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        skip = len(pos) + (selfv is not None and f.cls is not None and f.kind != 'staticmethod')
        names = [n for n in names[max(skip, len(names) - len(a.defaults)):] if n not in kw]
        if not names or len(names) > 4 or t[0] == 'sym' and 'kw' in str(t[1]) or t[0] not in ('sym', 'item', 'call', 'attr'):
            return [(st, kw)]
        outs = [(st, kw)]
        for n in names:
            nxt = []
            for s, k in outs:
                for s2, b in self.test(s, a_in(C(n), t)):
                    nxt.append((s2, {**k, n: item(t, C(n))} if b else k))
            outs = nxt
        return outs

    def run(self, f, st, env, closure=None):
        caller = st.env
        roots = st.roots
        st.env = env
        if closure is not None:
            env['$closure'] = closure
        st.roots = roots + (caller,)
        self.functions_seen.add(f.qual)
        self.stack.append(f)
        try:
            body = f.node.body if not isinstance(f.node, ast.Lambda) else [ast.copy_location(ast.Return(f.node.body), f.node)]
            gen = not isinstance(f.node, ast.Lambda) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node))
            if gen:
                y = self.new_obj(st, ('list', ()))
                env['$yield'] = y
            if id(f.node) not in self._live and not isinstance(f.node, ast.Lambda):
                lv = Liveness(f.node)
                self._live[id(f.node)] = lv
                self._live.update(lv.after)
            outs = []
            for x in self.exec_block(body, [st]):
                s = x.st
                y = s.env.get('$yield') if gen else None
                s = s.copy()
                s.env, s.roots = caller, roots
                if x.kind == 'exc':
                    outs.append((s, None))
                elif x.kind in ('next', 'return'):
                    v = x.val if x.kind == 'return' and x.val is not None else NONE
                    if gen:
                        v = y if y is not None else NONE
                    outs.append((s, v))
            return self.merge_outs(outs)
        finally:
            self.stack.pop()

    @staticmethod
    def own_nodes(fnode):
        todo = list(fnode.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))

    def opaque_call(self, st, name, selfv, pos, kw, node, f=None, pure=False):
        short = name.split('.')[-1]
        names = None
        if f is not None:
            names = f.params()
            if f.cls is not None and f.kind != 'staticmethod' and names:
                names = names[1:]
        elif short in EXT_PARAMS:
            names = EXT_PARAMS[short]
        args = []
        if selfv is not None:
            args.append(('self', self.freeze(st, selfv)))
        for i, v in enumerate(pos):
            n = names[i] if names and i < len(names) else str(i)
            args.append((n, self.freeze(st, v[1]) if v[0] == 'star' else self.freeze(st, v)))
            if v[0] == 'star':
                args[-1] = ('*' + n, args[-1][1])
        for n in sorted(kw):
            args.append((n, self.freeze(st, kw[n])))
        args = tuple(args)
        t = ('call', name, args)
        if not pure:
            st = st.copy()
            self.event(st, 'call', name, args, node)
            for suffix, what in self.changes:
                if name.endswith(suffix):
                    n = self.own(st, what)
                    o = st.heap[n]
                    st.heap[n] = o[:2] + (o[2] + (('upd', ('call', 'changed', (('by', t),))),),) + o[3:]
        outs = [(st, t)]
        if short == 'verify' and not pure:
            # the library's check of a message: its claims are there and of the right type
            o = selfv if selfv is not None else pos[0] if pos else None
            if o is not None:
                c = self.typeof(st, o)
                st.assume((('checked', self.freeze(st, o), C(c.qual if c is not None and self.is_message(c) else ''),
                            tuple(a for a in args if a[0] != 'self')), True))
        if not pure and short not in NORAISE and self.catching_any():
            if st.know((('completed', t), True)) is None:
                outs[0][0].assume((('completed', t), True))
                x = st.copy()
                x.facts.pop(('completed', t), None)
                x._kf = None
                x.assume((('completed', t), False))
                x.exc = ('any', self.where(node), name)
                outs.append((x, None))
        # objects handed over may be changed by stateful library code
        for v in pos[:1] if short in ('import_jwks', 'build_keyjar', 'init_key_jar') else ():
            o = self.obj(st, v)
            if o is not None and o[0] == 'ext':
                outs[0][0].heap[st.over.get(v, v)[1]] = ('ext', o[1], o[2], o[3] + ((name, args),))
        if short == 'import_jwks' and (pos or 'keyjar' in kw):
            return [(outs[0][0], pos[0] if pos else kw['keyjar'])] + outs[1:]
        return outs

    def call_value(self, st, f, pos, kw, node):
        k = f[0]
        if k == 'func':
            fn = self.repo.func(f[1])
            if fn.cls is not None and fn.kind not in ('staticmethod', 'classmethod'):
                return self.call_func(fn, st, pos[0] if pos else None, pos[1:], kw, node)
            return self.call_func(fn, st, None, pos, kw, node)
        if k == 'bound':
            return self.call_func(self.repo.func(f[2]), st, f[1], pos, kw, node)
        if k == 'class':
            return self.construct(st, self._cls(f[1]), pos, kw, node)
        if k == 'closure':
            nd, env, fn = self.closures[f[1]]
            cf = Func(getattr(nd, 'name', '<lambda>'), nd, fn.module) if not isinstance(nd, ast.Lambda) else \
                self.lambda_func(nd, fn)
            if any(x.node is nd for x in self.stack):
                return self.opaque_call(st, 'closure.' + cf.name, None, pos, kw, node)
            cf.cls = None
            st = st.copy()
            e2 = self.bind_params(cf, st, None, pos, kw)
            if e2 is None:
                return self.opaque_call(st, 'closure', None, pos, kw, node)
            cf.cls = fn.cls
            return self.run(cf, st, e2, closure=env)
        if k == 'superm':
            return self.call_method(st, f[1], f[2], pos, kw, node)
        if k == 'attr':
            return self.call_method(st, f[1], f[2], pos, kw, node)
        if k == 'ext':
            r = self.call_builtin(st, f[1], pos, kw, node)
            if r is not None:
                return r
            return self.opaque_call(st, f[1], None, pos, kw, node)
        cls = self.typeof(st, f)
        if cls is not None:
            m = cls.find('__call__')
            if m is not None:
                return self.call_func(m, st, f, pos, kw, node)
        return self.opaque_call(st, '()', f, pos, kw, node)

    def lambda_func(self, nd, fn):
        f = Func.__new__(Func)
        f.name, f.node, f.module, f.cls, f.kind = '<lambda>', nd, fn.module, None, 'func'
        f.qual = fn.qual + '.<lambda>'
        return f

    def construct(self, st, cls, pos, kw, node):
        if self.is_boundary(cls.qual):
            return self.opaque_call(st, cls.qual, None, pos, kw, node)
        if self.is_message(cls):
            st = st.copy()
            kw = dict(kw)
            base = kw.pop('**', None)
            if pos and base is None:
                base = pos[0]
            o = ('dict', base, tuple(('set', C(k), v) for k, v in kw.items()), cls.qual)
            self.event(st, 'call', cls.qual, tuple((k, self.freeze(st, v)) for k, v in kw.items()), node)
            return [(st, self.new_obj(st, o))]
        st = st.copy()
        t = self.new_obj(st, ('inst', cls.qual, ()))
        self.event(st, 'call', cls.qual, tuple((str(i), self.freeze(st, v)) for i, v in enumerate(pos)) +
                   tuple((k, self.freeze(st, v)) for k, v in kw.items()), node)
        init = cls.find('__init__')
        if init is None:
            return [(st, t)]
        return self.bind(self.call_func(init, st, t, pos, kw, node), lambda s, v: [(s, t)])

    # canonical values for the navigation between units
    def canon_call(self, qual, st, selfv, pos, kw, node):
        if not self.fe:
            return None
        short = qual.split('.')[-1]
        if short == 'get_federation_entity' or qual == 'fedservice.entity.utils.federation_entity':
            return [(st, FE)]
        if short == 'topmost_unit' and qual.startswith('idpyoidc'):
            return [(st, ('TOP',))]
        if selfv == FE and short == 'get_attribute' and pos and pos[0][0] == 'const':
            return self.load_attr(st, FE, pos[0][2], node)
        if selfv == FE and short == 'get_function' and pos and pos[0][0] == 'const':
            return [(st, ('attr', ('attr', FE, 'function'), pos[0][2]))]
        if selfv == FE and short == 'get_context' and not pos:
            return [(st, ('attr', FE, 'context'))]
        return None

    def federation_code(self):
        m = self.stack[-1].module.name
        return m.startswith('fedservice.entity') or m.startswith('fedservice.trust_mark_entity')

    def canon_upstream(self, st, b, pos, node):
        """self.upstream_get(what, name)"""
        if not pos or pos[0][0] != 'const':
            return None
        w = pos[0][2]
        fed = self.federation_code()
        tm = self.stack[-1].module.name.startswith('fedservice.trust_mark_entity')
        if w == 'attribute' and len(pos) > 1 and pos[1][0] == 'const':
            if fed:
                if pos[1][2] == 'trust_anchors':
                    return ('attr', FE, 'trust_anchors')
                return ('attr', FE, pos[1][2])
            return ('up', 'attribute', pos[1][2])
        if w == 'context':
            return ('attr', FE, 'context') if fed and not tm else ('up', 'context', '')
        if w == 'unit':
            return ('up', 'unit', 'tm' if tm else 'fed' if fed else '')
        return ('up',) + tuple(x[2] if x[0] == 'const' else '?' for x in pos[:2]) + (('',) if len(pos) < 2 else ())

    # ------------------------------------------------------------------ methods
    def call_method(self, st, b, name, pos, kw, node):
        b = st.over.get(b, b)
        k = b[0]
        if k == 'const' and b[2] is None or st.know(a_none(b)) is True:
            return self.raise_(st, 'AttributeError', node)
        if k == 'super':
            cls = self.typeof(st, b[1]) or self._cls(b[2])
            f = cls.find(name, after=self._cls(b[2])) if cls is not None else None
            if f is None:
                if name == '__init__':
                    return [(st, NONE)]
                return self.opaque_call(st, 'super.' + name, b[1], pos, kw, node)
            return self.call_func(f, st, b[1], pos, kw, node)
        if k in ('mod', 'class', 'ext'):
            outs = []
            if k == 'class' and name == '__init__':
                c = self._cls(b[1])
                f = c.find('__init__')
                if f is None:
                    return [(st, NONE)]
                return self.call_func(f, st, pos[0], pos[1:], kw, node)
            if k == 'ext' and name == '__init__':
                return [(st, NONE)]
            for s, f in self.load_attr(st, b, name, node):
                outs.extend([(s, None)] if f is None else self.call_value(s, f, pos, kw, node))
            return outs
        if name == 'upstream_get' or (k == 'attr' and name == '__call__' and b[2] == 'upstream_get'):
            u = self.canon_upstream(st, b, pos, node) if self.fe else None
            if u is not None:
                return [(st, u)]
        cls = self.typeof(st, b)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                return self.call_func(f, st, b if f.kind != 'classmethod' else ('class', cls.qual), pos, kw, node)
        # an attribute that holds a callable
        if (('attr', b, name)) in st.over:
            return self.call_value(st, st.over[('attr', b, name)], pos, kw, node)
        if k == 'obj' and st.heap[b[1]][0] == 'inst':
            for n, v in st.heap[b[1]][2]:
                if n == name:
                    return self.call_value(st, v, pos, kw, node)
        r = self.container_method(st, b, name, pos, kw, node, cls)
        if r is not None:
            return r
        # library objects whose meaning we know
        if b[0] == 'jwsjwt' and name == 'payload':
            return [(st, ('payload', b[1]))]
        if b[0] == 'jws' and name in ('verify_compact', 'verify_compact_verbose'):
            return self.verify_jws(st, b, name, pos, kw, node)
        if k == 'obj' and st.heap[b[1]][0] == 'ext':
            return self.ext_method(st, b, name, pos, kw, node)
        if cls is None and k in ('attr', 'call', 'elem', 'item') and name == '__call__':
            return self.call_value(st, b, pos, kw, node)
        qual = '.' + name
        if cls is not None:
            qual = f'{cls.qual}.{name}'
        if b[0] == 'attr':
            c2 = self.typeof(st, ('attr', b, name))
            if c2 is not None and c2.find('__call__'):
                return self.call_func(c2.find('__call__'), st, ('attr', b, name), pos, kw, node)
        return self.opaque_call(st, qual, b, pos, kw, node)

    def verify_jws(self, st, b, name, pos, kw, node):
        token = b[1]
        keys = kw.get('keys', pos[1] if len(pos) > 1 else None)
        if name == 'verify_compact' and pos and pos[0][0] != 'const':
            token2 = self.freeze(st, pos[0])
            if token2 != token:
                token = token2
        fk = self.freeze(st, keys) if keys is not None else NONE
        args = (('token', token), ('keys', fk))
        st = st.copy()
        self.event(st, 'call', 'verify_compact', args, node)
        t = ('verified', token, fk)
        if kw.get('allow_none', FALSE) != FALSE:
            t = ('payload', token)  # anybody can make a token that is not signed
        outs = [(st, t)]
        if self.catching_any():
            st.assume((('completed', t), True))
            x = st.copy()
            x.facts[('completed', t)] = False
            x._kf = None
            x.exc = ('any', self.where(node), 'verify_compact')
            outs.append((x, None))
        return outs

    def ext_method(self, st, b, name, pos, kw, node):
        o = st.heap[b[1]]
        if name == 'unpack' and o[1].endswith('JWT'):
            fb = self.freeze(st, b)
            kj = dict(fb[2]).get('key_jar', NONE)
            token = self.freeze(st, pos[0]) if pos else self.freeze(st, kw.get('token', NONE))
            st = st.copy()
            self.event(st, 'call', 'JWT.unpack', (('token', token), ('key_jar', kj)), node)
            t = ('verified', token, ('jarkeys', kj))
            outs = [(st, t)]
            mc = dict(fb[2]).get('msg_cls', NONE)
            if mc[0] == 'class':
                st.assume((('checked', t, C(mc[1]), ()), True))
            if self.catching_any():
                st.assume((('completed', t), True))
                x = st.copy()
                x.facts[('completed', t)] = False
                x._kf = None
                x.exc = ('any', self.where(node), 'unpack')
                outs.append((x, None))
            return outs
        outs = self.opaque_call(st, o[1].split('.')[-1] + '.' + name, b, pos, kw, node)
        if not name.startswith(('get', 'verify', 'export', 'is_', 'pack', 'has', '__')):
            s = outs[0][0]
            args = outs[0][1][2]
            s.heap[b[1]] = ('ext', o[1], o[2], o[3] + ((name, tuple(a for a in args if a[0] != 'self')),))
        return outs

    def dict_update(self, st, d, u, node=None):
        """d (owned by st).update(u)"""
        n = self.own(st, d)
        o = st.heap[n]
        if o[0] != 'dict':
            return
        uo = self.obj(st, u)
        if uo is None and u[0] == 'dict' and len(u) == 3:
            uo = u + (None,)
        layers = list(o[2])
        base = o[1]
        if uo is not None and uo[0] == 'dict' and uo[1] is None and all(l[0] == 'set' for l in uo[2]):
            for l in uo[2]:
                layers = [x for x in layers if not (x[0] == 'set' and x[1] == l[1])] + [l]
        elif base is None and not layers and uo is not None and uo[0] == 'dict':
            base, layers = uo[1], list(uo[2])
        elif base is None and not layers:
            base = self.freeze(st, u) if u[0] != 'deep' else u
        else:
            layers.append(('upd', self.freeze(st, u)))
        st.heap[n] = ('dict', base, tuple(layers), o[3])

    def container_method(self, st, b, name, pos, kw, node, cls=None):
        o = self.obj(st, b)
        kind = o[0] if o is not None else None
        if b[0] == 'const' and isinstance(b[2], str) or b[0] == 'fstr' or name in (
                'split', 'strip', 'rsplit', 'startswith', 'endswith', 'join', 'format', 'lower', 'upper', 'lstrip',
                'rstrip', 'encode', 'decode', 'replace', 'removeprefix', 'removesuffix', 'partition', 'rpartition'):
            return self.str_method(st, b, name, pos, kw, node)
        if kind in ('ext', 'inst'):
            return None
        if name == 'get' and pos and len(pos) <= 2 and not kw.keys() - {'default'} and b[0] not in ('up',) \
                and (cls is None or self.is_message(cls)):
            return self.dict_get(st, b, pos[0], pos[1] if len(pos) > 1 else kw.get('default', NONE), node)
        if name == '__getitem__' and len(pos) == 1:
            return self.load_item(st, b, pos[0], node)
        if name == '__contains__' and len(pos) == 1:
            return [(s, C(v)) for s, v in self.test(st, a_in(self.freeze(st, pos[0]), self.freeze(st, b)))]
        if name in ('keys',) and not pos:
            if kind == 'dict':
                f = self.freeze(st, b)
                st = st.copy()
                return [(st, self.new_obj(st, ('set', (('all', b if f[0] != 'dict' else f),))))] if f[0] != 'dict' else [(st, b)]
            if kind is None:
                return [(st, ('set', self.freeze(st, b)))]
        if name == 'items' and not pos:
            return [(st, ('items', b))]
        if name == 'values' and not pos:
            return [(st, ('values', b))]
        if name in ('copy', '__copy__') and not pos or name == 'to_dict' and not pos and (kind == 'dict' or cls is None):
            return self.copy_value(st, b)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference') and pos:
            op = {'union': 'union', 'intersection': 'inter', 'difference': 'diff', 'symmetric_difference': 'symdiff'}[name]
            v = self.freeze(st, b)
            for p in pos:
                v = self.setop(op, v, self.freeze(st, p))
            return [(st, v)]
        if name in ('issubset', 'issuperset', 'isdisjoint') and len(pos) == 1:
            x, y = self.freeze(st, b), self.freeze(st, pos[0])
            if name == 'issuperset':
                x, y = y, x
            lit = a_subset(x, y) if name != 'isdisjoint' else neg(a_truthy(self.setop('inter', x, y)))
            return [(s, C(v)) for s, v in self.test(st, lit)]
        if name == 'index' and len(pos) == 1 or name == 'count' and len(pos) == 1:
            return self.opaque_call(st, '.' + name, b, pos, kw, node, pure=not self.catching('ValueError'))
        # mutations
        if name in ('append', 'add', 'extend', 'insert', 'remove', 'discard', 'pop', 'clear', 'reverse', 'sort', 'update',
                    'setdefault', 'popitem', 'intersection_update', 'difference_update', 'appendleft',
                    '__setitem__', '__delitem__', 'symmetric_difference_update'):
            if kind is None and (cls is not None and not self.is_message(cls)):
                return None
            if kind is None and name in ('add', 'update') and b[0] in ('attr', 'up', 'call') and len(pos) != 1:
                return None
            return self.mutate(st, b, name, pos, kw, node)
        return None

    def copy_value(self, st, b, deep=False):
        o = self.obj(st, b)
        st = st.copy()
        if deep:
            f = self.freeze(st, b)
            if f[0] in ('list', 'set'):
                return [(st, self.new_obj(st, ('set' if f[0] == 'set' else 'list',
                                               (('all', f),) if f[0] == 'set' else f[1:])))]
            if f[0] == 'dict':
                return [(st, self.new_obj(st, ('dict', ('deep', f[1]) if f[1] else None, f[2], None)))]
            return [(st, self.new_obj(st, ('dict', ('deep', f), (), None)))]
        if o is not None and o[0] in ('list', 'set', 'dict'):
            return [(st, self.new_obj(st, o))]
        if o is not None:
            return [(st, b)]
        return [(st, self.new_obj(st, ('dict', b, (), None)))]

    def dict_get(self, st, b, k, default, node):
        fk = self.freeze(st, k)
        r = self._known_item(st, b, fk)
        if isinstance(r, list):
            return [(s, default if v is KeyError else s.over.get(v, v)) for s, v in r]
        if r is not None and self.obj(st, b) is not None:
            # the item of a copy of an opaque mapping
            pass
        elif r is not None:
            return [(st, r)]
        fb = self.freeze(st, b)
        t = r if r is not None else self.item_term(fb, fk)
        outs = []
        self.loc = self.where(node)
        for s, ok in self.test(st, a_in(fk, fb)):
            outs.append((s, s.over.get(t, t) if ok else default))
        return outs

    def mutate(self, st, b, name, pos, kw, node):
        st = st.copy()
        self.mutated(st, b, name, tuple((str(i), self.freeze(st, p)) for i, p in enumerate(pos)) +
                     tuple((k, self.freeze(st, v)) for k, v in kw.items()), node)
        o = self.obj(st, b)
        listlike = name in ('append', 'add', 'extend', 'insert', 'remove', 'discard', 'reverse', 'sort', 'appendleft',
                            'intersection_update', 'difference_update', 'symmetric_difference_update')
        if listlike and o is not None and o[0] == 'dict' and o[1] is not None and not o[2] and b[0] == 'obj':
            o = ('list', (('all', o[1]),))  # a copy of something that turns out to be a list
            st.heap[b[1]] = o
        if name in ('pop', 'clear', 'update') and o is not None:
            listlike = o[0] != 'dict'
        elif name == 'pop':
            listlike = not pos or pos[0][0] == 'const' and isinstance(pos[0][2], int)
        elif name == 'update':
            listlike = False
        n = self.own(st, b, 'list' if listlike and name not in ('add', 'discard') else 'set' if listlike else 'dict')
        o = st.heap[n]
        me = ('obj', n)
        if o[0] in ('list', 'set'):
            segs = o[1]
            frz = self.freeze(st, me)
            if name in ('append', 'add') and pos:
                segs = segs + (('item', pos[0]),)
            elif name in ('extend', 'update') and pos:
                po = self.obj(st, pos[0])
                if po is not None and po[0] in ('list', 'set'):
                    segs = segs + po[1]
                elif pos[0][0] == 'tuple':
                    segs = segs + tuple(('item', x) for x in pos[0][1:])
                else:
                    segs = segs + (('all', pos[0]),)
            elif name == 'insert' and len(pos) == 2:
                if pos[0] == C(0):
                    segs = (('item', pos[1]),) + segs
                elif pos[0][0] == 'const' and all(s[0] == 'item' for s in segs):
                    l = list(segs)
                    l.insert(pos[0][2], ('item', pos[1]))
                    segs = tuple(l)
                else:
                    segs = (('all', ('call', '.insert', (('self', frz), ('0', self.freeze(st, pos[0])),
                                                        ('1', self.freeze(st, pos[1]))))),)
            elif name == 'appendleft' and pos:
                segs = (('item', pos[0]),) + segs
            elif name == 'clear':
                segs = ()
            elif name == 'reverse':
                if all(s[0] == 'item' for s in segs):
                    segs = tuple(reversed(segs))
                else:
                    segs = (('all', self.rev(frz)),)
            elif name == 'sort':
                segs = (('all', ('sorted', frz) + tuple((k, self.freeze(st, v)) for k, v in sorted(kw.items()))),)
            elif name == 'pop':
                k = pos[0] if pos else C(-1)
                if k[0] == 'const' and all(s[0] == 'item' for s in segs) and isinstance(k[2], int) and \
                        -len(segs) <= k[2] < len(segs):
                    v = segs[k[2]][1]
                    l = list(segs)
                    del l[k[2]]
                    st.heap[n] = (o[0], tuple(l))
                    return [(st, v)]
                if k == C(-1) and segs and segs[-1][0] == 'item':
                    st.heap[n] = (o[0], segs[:-1])
                    return [(st, segs[-1][1])]
                v = self.item_term(frz, self.freeze(st, k))
                rest = ('slice', frz, C(1), NONE, NONE) if k == C(0) else ('slice', frz, NONE, C(-1), NONE) if k == C(-1) \
                    else ('call', '.pop', (('self', frz), ('0', self.freeze(st, k))))
                st.heap[n] = (o[0], (('all', rest),))
                return [(st, v)]
            elif name in ('remove', 'discard') and pos:
                segs = (('all', self.setop('diff', frz, ('list', ('item', self.freeze(st, pos[0]))))),)
            elif name in ('intersection_update', 'difference_update', 'symmetric_difference_update') and pos:
                op = {'i': 'inter', 'd': 'diff', 's': 'symdiff'}[name[0]]
                segs = (('all', self.setop(op, frz, self.freeze(st, pos[0]))),)
            else:
                segs = (('all', ('call', '.' + name, (('self', frz),) + tuple(
                    (str(i), self.freeze(st, p)) for i, p in enumerate(pos)))),)
            st.heap[n] = (o[0], segs)
            return [(st, NONE)]
        # dictionaries
        if name == 'update':
            if pos:
                self.dict_update(st, me, pos[0])
            for k, v in kw.items():
                if k == '**':
                    self.dict_update(st, me, v)
                else:
                    self.set_item(st, me, C(k), v)
            return [(st, NONE)]
        if name == 'clear':
            st.heap[n] = ('dict', None, (), o[3])
            return [(st, NONE)]
        if name == '__setitem__' and len(pos) == 2:
            self.set_item(st, me, pos[0], pos[1])
            return [(st, NONE)]
        if name in ('pop', '__delitem__') and pos:
            outs = []
            default = pos[1] if len(pos) > 1 else None
            cur = self.dict_get(st, me, pos[0], ('$missing',), node)
            for s, v in cur:
                s = s.copy()
                if v == ('$missing',):
                    if default is None:
                        if self.catching('KeyError', 'LookupError'):
                            outs.extend(self.raise_(s, 'KeyError', node))
                    else:
                        outs.append((s, default))
                    continue
                self.del_item(s, me, pos[0])
                outs.append((s, v))
            return outs
        if name == 'setdefault' and pos:
            outs = []
            for s, v in self.dict_get(st, me, pos[0], ('$missing',), node):
                if v == ('$missing',):
                    s = s.copy()
                    v = pos[1] if len(pos) > 1 else NONE
                    self.set_item(s, me, pos[0], v)
                outs.append((s, v))
            return outs
        return [(st, ('call', '.' + name, (('self', self.freeze(st, me)),)))]

    def set_item(self, st, t, k, v):
        n = self.own(st, t)
        o = st.heap[n]
        k = self.freeze(st, k)
        if o[0] == 'dict':
            layers = tuple(l for l in o[2] if not (l[0] == 'set' and l[1] == k)) if not any(
                l[0] in ('prev',) for l in o[2]) else o[2]
            st.heap[n] = ('dict', o[1], layers + (('set', k, v),), o[3])
        elif o[0] == 'list':
            segs = o[1]
            if k[0] == 'const' and isinstance(k[2], int) and all(s[0] == 'item' for s in segs) and -len(segs) <= k[2] < len(segs):
                l = list(segs)
                l[k[2]] = ('item', v)
                st.heap[n] = ('list', tuple(l))
            else:
                st.heap[n] = ('list', (('all', ('setitem', self.freeze(st, t), k, self.freeze(st, v))),))
        elif o[0] == 'ext':
            st.heap[n] = ('ext', o[1], o[2], o[3] + (('__setitem__', (('0', k), ('1', self.freeze(st, v)))),))

    def del_item(self, st, t, k):
        n = self.own(st, t)
        o = st.heap[n]
        k = self.freeze(st, k)
        if o[0] == 'dict':
            if o[1] is None and all(l[0] == 'set' and l[1][0] == 'const' for l in o[2]) and k[0] == 'const':
                st.heap[n] = ('dict', None, tuple(l for l in o[2] if l[1] != k), o[3])
            else:
                st.heap[n] = ('dict', o[1], o[2] + (('del', k),), o[3])
        elif o[0] == 'list':
            self.mutate_quiet(st, n, k)

    def mutate_quiet(self, st, n, k):
        o = st.heap[n]
        frz = self.freeze(st, ('obj', n))
        if k[0] == 'const' and isinstance(k[2], int) and all(s[0] == 'item' for s in o[1]) and -len(o[1]) <= k[2] < len(o[1]):
            l = list(o[1])
            del l[k[2]]
            st.heap[n] = (o[0], tuple(l))
        elif k == C(0):
            st.heap[n] = (o[0], (('all', ('slice', frz, C(1), NONE, NONE)),))
        elif k == C(-1):
            st.heap[n] = (o[0], (('all', ('slice', frz, NONE, C(-1), NONE)),))
        else:
            st.heap[n] = (o[0], (('all', ('call', '.del', (('self', frz), ('0', k)))),))

    def str_method(self, st, b, name, pos, kw, node):
        fb = self.freeze(st, b)
        fp = [self.freeze(st, p) for p in pos]
        if name in ('startswith', 'endswith') and fp:
            if fb[0] == 'const' and fp[0][0] == 'const':
                return [(st, C(getattr(fb[2], name)(fp[0][2])))]
            if fp[0][0] == 'tuple':
                return [(s, C(v)) for s, v in self._or(st, [((name, fb, x), True) for x in fp[0][1:]])]
            return [(s, C(v)) for s, v in self.test(st, ((name, fb, fp[0]), True))]
        if name == 'format' and fb[0] == 'const' and not kw:
            bits = fb[2].split('{}')
            if len(bits) == len(fp) + 1 and '{' not in ''.join(bits):
                ps = [C(bits[0])]
                for x, y in zip(fp, bits[1:]):
                    ps += [x, C(y)]
                return [(st, self.fstr(ps))]
        if name == 'join' and fb[0] == 'const' and fp:
            o = self.obj(st, pos[0])
            its = o[1] if o is not None and o[0] == 'list' else None
            if its is not None and its and all(s[0] == 'item' for s in its):
                ps = []
                for i, s in enumerate(its):
                    ps += ([fb] if i else []) + [self.freeze(st, s[1])]
                return [(st, self.fstr(ps))]
        if fb[0] == 'const' and all(p[0] == 'const' for p in fp) and not kw and isinstance(fb[2], str):
            try:
                r = getattr(fb[2], name)(*[p[2] for p in fp])
                if isinstance(r, (str, int, bool)):
                    return [(st, C(r))]
                if isinstance(r, list):
                    st = st.copy()
                    return [(st, self.new_obj(st, ('list', tuple(('item', C(x)) for x in r))))]
            except Exception:
                pass
        if name in ('encode', 'decode') and len(fp) <= 1:
            return [(st, fb)]
        return self.opaque_call(st, 'str.' + name, b, pos, kw, node, pure=True)

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, st, q, pos, kw, node):
        n = q[9:] if q.startswith('builtins.') else None
        short = q.split('.')[-1]
        if n is not None:
            if n in ('set', 'frozenset', 'list', 'tuple', 'iter') and len(pos) <= 1 and not kw:
                st = st.copy()
                kind = 'set' if 'set' in n else 'list'
                if not pos:
                    return [(st, self.new_obj(st, (kind, ())))]
                v = pos[0]
                o = self.obj(st, v)
                if n == 'tuple' and v[0] == 'tuple':
                    return [(st, v)]
                if o is not None and o[0] in ('list', 'set'):
                    return [(st, self.new_obj(st, (kind, o[1])))]
                if v[0] == 'tuple':
                    return [(st, self.new_obj(st, (kind, tuple(('item', x) for x in v[1:]))))]
                if v[0] in ('enum', 'zip', 'items', 'values', 'range'):
                    ks, f, mk = self.iter_desc(st, v)
                    if ks is not None:
                        return [(st, self.new_obj(st, (kind, tuple(('item', x) for x in ks))))]
                    return [(st, v)]
                if o is not None and o[0] == 'dict':
                    f = self.freeze(st, v)
                    lk = [l[1] for l in o[2] if l[0] == 'set']
                    if o[1] is None and len(lk) == len(o[2]):
                        return [(st, self.new_obj(st, (kind, tuple(('item', x) for x in lk))))]
                    return [(st, self.new_obj(st, (kind, (('all', f),))))]
                f = self.freeze(st, v)
                if kind == 'list' and f[0] == 'set':
                    f = f[1]
                return [(st, self.new_obj(st, (kind, (('all', f[1] if f[0] == 'set' else f),))))]
            if n == 'dict':
                st = st.copy()
                base, layers = None, []
                kw = dict(kw)
                star = kw.pop('**', None)
                t = self.new_obj(st, ('dict', None, (), None))
                if pos:
                    if pos[0][0] == 'deep':
                        st.heap[t[1]] = ('dict', pos[0], (), None)
                    else:
                        o = self.obj(st, pos[0])
                        if o is not None and o[0] == 'dict':
                            st.heap[t[1]] = ('dict', o[1], o[2], None)
                        elif pos[0][0] == 'items':
                            o2 = self.obj(st, pos[0][1])
                            st.heap[t[1]] = ('dict', o2[1], o2[2], None) if o2 is not None and o2[0] == 'dict' else \
                                ('dict', pos[0][1], (), None)
                        else:
                            st.heap[t[1]] = ('dict', pos[0], (), None)
                if star is not None:
                    self.dict_update(st, t, star)
                for k, v in kw.items():
                    self.set_item(st, t, C(k), v)
                return [(st, t)]
            if n == 'len' and len(pos) == 1:
                v = pos[0]
                o = self.obj(st, v)
                if o is not None and o[0] in ('list', 'set'):
                    segs = o[1]
                    if all(s[0] == 'item' for s in segs) and (o[0] == 'list' or len(segs) <= 1):
                        return [(st, C(len(segs)))]
                    if o[0] == 'list':
                        c = sum(1 for s in segs if s[0] == 'item')
                        rest = [s for s in segs if s[0] != 'item']
                        if len(rest) == 1 and rest[0][0] == 'prev' and self.one_to_one(rest[0]):
                            return [(st, mk_lin({('idx', rest[0][1]): 1}, c))]
                        if len(rest) == 1 and rest[0][0] == 'all' and c:
                            return [(st, mk_lin({('len', strip_set(self.freeze(st, rest[0][1]))): 1}, c))]
                if v[0] == 'tuple':
                    return [(st, C(len(v) - 1))]
                if v[0] == 'const' and isinstance(v[2], str):
                    return [(st, C(len(v[2])))]
                if v[0] in ('global', 'classattr'):
                    ks = self.literal_keys(v)
                    if ks is not None:
                        return [(st, C(len(ks)))]
                f = self.freeze(st, v)
                while f[0] in ('rev', 'deep', 'sorted'):
                    f = f[1]
                if f[0] == 'slice' and f[4] == NONE:
                    lo, hi = f[2], f[3]
                    if hi == NONE and lo[0] == 'const' and (lo[2] or 0) > 0:
                        return [(st, mk_lin({('len', f[1]): 1}, -lo[2]))]
                    if lo in (NONE, C(0)) and hi[0] == 'const' and hi[2] < 0:
                        return [(st, mk_lin({('len', f[1]): 1}, hi[2]))]
                if f[0] == 'list' and all(x[0] == 'item' for x in f[1:]):
                    return [(st, C(len(f) - 1))]
                ks = members(f) if f[0] in ('set', 'dict') else None
                if ks is not None:
                    return [(st, C(len(set(ks))))]
                return [(st, ('len', f))]
            if n == 'bool' and len(pos) == 1:
                return [(s, C(v)) for s, v in self.truth(st, pos[0])]
            if n == 'enumerate' and pos:
                return [(st, ('enum', pos[0], pos[1] if len(pos) > 1 else kw.get('start', C(0))))]
            if n == 'zip':
                return [(st, ('zip',) + tuple(pos))]
            if n == 'range':
                p = [C(0)] + pos if len(pos) == 1 else pos
                return [(st, ('range', p[0], p[1], p[2] if len(p) > 2 else C(1)))]
            if n == 'reversed' and len(pos) == 1:
                st = st.copy()
                o = self.obj(st, pos[0])
                if o is not None and o[0] == 'list' and all(s[0] == 'item' for s in o[1]):
                    return [(st, self.new_obj(st, ('list', tuple(reversed(o[1])))))]
                if pos[0][0] in ('range', 'enum', 'zip', 'items', 'values'):
                    return [(st, ('rev', pos[0]))]
                return [(st, self.new_obj(st, ('list', (('all', self.rev(self.freeze(st, pos[0]))),))))]
            if n == 'sorted' and pos:
                st = st.copy()
                return [(st, self.new_obj(st, ('list', (('all', ('sorted', self.freeze(st, pos[0])) + tuple(
                    (k, self.freeze(st, v)) for k, v in sorted(kw.items()))),))))]
            if n in ('str', 'repr') and len(pos) == 1:
                f = self.freeze(st, pos[0])
                return [(st, f if f[0] in ('fstr',) or f[0] == 'const' and isinstance(f[2], str) else
                         C(str(f[2])) if f[0] == 'const' else ('fstr', f))]
            if n in ('getattr', 'hasattr') and len(pos) >= 2 and pos[1][0] == 'const':
                return self._getattr(st, n, pos, node)
            if n == 'setattr' and len(pos) == 3:
                if pos[1][0] == 'const':
                    st = st.copy()
                    self.set_attr(st, pos[0], pos[1][2], pos[2], node)
                    return [(st, NONE)]
                st = st.copy()
                self.event(st, 'setattr', '?', (('target', self.freeze(st, pos[0])), ('name', self.freeze(st, pos[1])),
                                                ('value', self.freeze(st, pos[2]))), node)
                return [(st, NONE)]
            if n in ('min', 'max', 'sum', 'abs', 'any', 'all', 'map', 'filter', 'type', 'id', 'callable', 'issubclass',
                     'hash', 'round', 'ord', 'chr'):
                if n in ('min', 'max') and len(pos) == 1 and not kw:
                    pass
                return self.opaque_call(st, n, None, pos, kw, node, pure=True)
            if n == 'int' or n == 'float':
                if pos and pos[0][0] == 'call' and pos[0][1] == 'time.time' or pos and pos[0] == NOW:
                    return [(st, NOW)]
                return self.opaque_call(st, n, None, pos, kw, node, pure=not self.catching('ValueError', 'TypeError'))
            if n == 'next' and pos:
                v = pos[0]
                f = self.freeze(st, v)
                t = self.item_term(f, C(0))
                outs = []
                for s, b in self.test(st, a_truthy(f)):
                    if b:
                        outs.append((s, t))
                    elif len(pos) > 1:
                        outs.append((s, pos[1]))
                    else:
                        outs.extend(self.raise_(s, 'StopIteration', node))
                return outs
            if n == 'object':
                return [(st, ('call', 'object', ()))]
            if n[:1].isupper():  # exception classes
                return [(st, ('call', n, tuple((str(i), self.freeze(st, p)) for i, p in enumerate(pos))))]
        if short in ('utc_time_sans_frac',) or q == 'time.time':
            return [(st, NOW)]
        if short == 'deepcopy' and len(pos) == 1:
            return self.copy_value(st, pos[0], deep=True)
        if q == 'copy.copy' and len(pos) == 1:
            return self.copy_value(st, pos[0])
        if short in ('as_unicode', 'as_bytes') and len(pos) == 1:
            return [(st, pos[0])]
        if q.endswith('jws.factory') and pos:
            st = st.copy()
            t = self.freeze(st, pos[0])
            return [(st, ('jws', t))]
        if short == 'topmost_unit' and self.fe:
            return [(st, ('TOP',))]
        if q == 'functools.partial' and pos:
            return [(st, ('partial', pos[0], tuple(pos[1:]), tuple(sorted(kw.items()))))]
        if short in STATEFUL_EXT:
            st = st.copy()
            names = EXT_PARAMS.get(short, [])
            args = tuple((names[i] if i < len(names) else str(i), v) for i, v in enumerate(pos)) + tuple(sorted(kw.items()))
            return [(st, self.new_obj(st, ('ext', short, args, ())))]
        return None

    def _getattr(self, st, n, pos, node):
        name = pos[1][2]
        b = st.over.get(pos[0], pos[0])
        known = None
        if b[0] == 'const':
            known = hasattr(b[2], name) if b[2] is not None else False
        elif b[0] == 'obj' and st.heap[b[1]][0] == 'inst':
            cls = self.typeof(st, b)
            known = any(k == name for k, _ in st.heap[b[1]][2]) or bool(cls and (cls.find(name) or cls.find_attr(name)[0]))
            if not known and cls is not None and cls.all_ext_bases():
                known = None
        else:
            cls = self.typeof(st, b)
            if cls is not None and (cls.find(name) or cls.find_attr(name)[0] is not None or self.assigned_on_self(cls, name)):
                known = True
        if n == 'hasattr':
            if known is not None:
                return [(st, C(known))]
            return [(s, C(v)) for s, v in self.test(st, (('hasattr', self.freeze(st, b), name), True))]
        if len(pos) == 2:
            return self.load_attr(st, b, name, node)
        if known is True:
            return self.load_attr(st, b, name, node)
        if known is False:
            return [(st, pos[2])]
        outs = []
        for s, v in self.test(st, (('hasattr', self.freeze(st, b), name), True)):
            outs.extend(self.load_attr(s, b, name, node) if v else [(s, pos[2])])
        return outs

    # ------------------------------------------------------------------ assignment
    def set_attr(self, st, b, name, v, node):
        b = st.over.get(b, b)
        o = self.obj(st, b)
        self.event(st, 'setattr', name, (('target', self.freeze(st, b) if o is None or o[0] != 'inst' else ('fresh', b)),
                                         ('value', self.freeze(st, v))), node)
        cls = self.typeof(st, b)
        if o is not None and o[0] == 'inst':
            st.heap[b[1]] = ('inst', o[1], tuple((k, x) for k, x in o[2] if k != name) + ((name, v),))
        else:
            st.over[self.canon_attr(st, b, name)] = v

    def assign(self, t, st, v, node):
        """-> [st] (exceptions: st.exc set)"""
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            for i, x in enumerate(t.elts):
                nxt = []
                for s in cur:
                    if s.exc:
                        nxt.append(s)
                        continue
                    if star is not None and i == star:
                        after = len(t.elts) - i - 1
                        val = self.slice_value(s2 := s.copy(), self.freeze(s, v),
                                               ('slice', C(i), C(-after) if after else NONE, NONE))
                        s = s2
                        x2 = x.value
                    else:
                        idx = i if star is None or i < star else i - len(t.elts)
                        o = self.obj(s, v)
                        if v[0] == 'tuple':
                            val = v[1:][idx] if -len(v) < idx < len(v) - 1 else ('item', v, C(idx))
                        elif o is not None and o[0] == 'list' and all(y[0] == 'item' for y in o[1]) and -len(o[1]) <= idx < len(o[1]):
                            val = o[1][idx][1]
                        else:
                            val = self.item_term(self.freeze(s, v), C(idx))
                        x2 = x
                    nxt.extend(self.assign(x2, s, val, node))
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            outs = []
            for s, b in self.ev(t.value, st):
                if b is None:
                    outs.append(s)
                    continue
                cls = self.typeof(s, b)
                if cls is not None:
                    setter = next((c.setters[t.attr] for c in cls.mro() if t.attr in c.setters), None)
                    if setter is not None:
                        outs.extend(x for x, _ in self.call_func(setter, s, b, [v], {}, node))
                        continue
                if b[0] == 'const' and b[2] is None:
                    outs.extend(x for x, _ in self.raise_(s, 'AttributeError', node))
                    continue
                s = s.copy()
                self.set_attr(s, b, t.attr, v, node)
                outs.append(s)
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            if isinstance(t.slice, ast.Slice):
                for s, b in self.ev(t.value, st):
                    if b is not None:
                        s = s.copy()
                        self.mutated(s, b, '[:]=', (('value', self.freeze(s, v)),), node)
                        if t.slice.lower is None and t.slice.upper is None:
                            n = self.own(s, b, 'list')
                            o = self.obj(s, v)
                            s.heap[n] = ('list', o[1] if o is not None and o[0] in ('list', 'set') else (('all', v),))
                    outs.append(s)
                return outs
            for s, vs in self.ev_many([t.value, t.slice], st):
                if vs is None:
                    outs.append(s)
                    continue
                b, k = vs
                b = s.over.get(b, b)
                cls = self.typeof(s, b)
                if cls is not None and not self.is_message(cls) and cls.find('__setitem__'):
                    outs.extend(x for x, _ in self.call_func(cls.find('__setitem__'), s, b, [k, v], {}, node))
                    continue
                if b[0] == 'const' and b[2] is None:
                    outs.extend(x for x, _ in self.raise_(s, 'TypeError', node))
                    continue
                s = s.copy()
                self.mutated(s, b, '[]=', (('key', self.freeze(s, k)), ('value', self.freeze(s, v))), node)
                self.set_item(s, b, k, v)
                outs.append(s)
            return outs
        return [st]

    def delete(self, t, st, node):
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env.pop(t.id, None)
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for x in t.elts:
                cur = [s2 for s in cur for s2 in self.delete(x, s, node)]
            return cur
        if isinstance(t, ast.Attribute):
            outs = []
            for s, b in self.ev(t.value, st):
                if b is not None:
                    s = s.copy()
                    self.event(s, 'delattr', t.attr, (('target', self.freeze(s, b)),), node)
                    s.over.pop(('attr', b, t.attr), None)
                outs.append(s)
            return outs
        outs = []
        for s, vs in self.ev_many([t.value, t.slice], st):
            if vs is None:
                outs.append(s)
                continue
            b, k = vs
            cls = self.typeof(s, b)
            if cls is not None and not self.is_message(cls) and cls.find('__delitem__'):
                outs.extend(x for x, _ in self.call_func(cls.find('__delitem__'), s, b, [k], {}, node))
                continue
            tests = [(s, True)]
            if self.catching('KeyError', 'LookupError'):
                tests = self.test(s, a_in(self.freeze(s, k), self.freeze(s, b)))
            for s2, ok in tests:
                if not ok:
                    outs.extend(x for x, _ in self.raise_(s2, 'KeyError', node))
                    continue
                s2 = s2.copy()
                self.mutated(s2, b, 'del', (('key', self.freeze(s2, k)),), node)
                self.del_item(s2, b, k)
                outs.append(s2)
        return outs

    # ------------------------------------------------------------------ joins
    def state_key(self, st, extra=None):
        num = {}

        def canon(t, d=0):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'const':
                return t
            if t[0] == 'obj' and len(t) == 2:
                if t[1] in num:
                    return ('o', num[t[1]])
                num[t[1]] = len(num)
                return ('O', num[t[1]], canon(st.heap.get(t[1]), d + 1))
            if t[0] == 'closure':
                return t
            return tuple(canon(x, d + 1) if isinstance(x, tuple) else x for x in t)

        def cenv(env):
            return tuple((k, canon(v)) if k != '$closure' else (k, id(v)) for k, v in sorted(env.items(), key=lambda x: x[0]))
        parts = [cenv(e) for e in st.roots]
        parts.append(cenv(st.env))
        parts.append(tuple((canon(k), canon(v)) for k, v in sorted(st.over.items(), key=lambda x: skey(x[0]))))
        parts.append(canon(extra) if extra is not None else None)
        parts.append(st.events)
        parts.append(st.exc[0] if st.exc else None)
        return tuple(parts)

    def merge_facts(self, sts):
        if len(sts) == 1:
            return sts
        items = [(frozenset(s.facts.items()), s) for s in sts]
        changed = True
        while changed and len(items) > 1:
            changed = False
            items.sort(key=lambda x: len(x[0]))
            keep = []
            for fs, s in items:
                if any(k <= fs for k, _ in keep):
                    changed = True
                else:
                    keep.append((fs, s))
            items = keep
            if len(items) > 400:
                break
            seen = {}
            out = []
            dead = set()
            by = {fs: i for i, (fs, _) in enumerate(items)}
            for i, (fs, s) in enumerate(items):
                if i in dead:
                    continue
                for a, v in fs:
                    o = (fs - {(a, v)}) | {(a, not v)}
                    j = by.get(o)
                    if j is not None and j not in dead and j != i:
                        n = s.copy()
                        n.facts = {k: x for k, x in s.facts.items() if k != a}
                        n._kf = None
                        dead |= {i, j}
                        out.append((fs - {(a, v)}, n))
                        changed = True
                        break
            items = [x for i, x in enumerate(items) if i not in dead] + out
        return [s for _, s in items]

    def merge_states(self, sts):
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(self.state_key(s), []).append(s)
        out = []
        for g in groups.values():
            out.extend(self.merge_facts(g))
        if len(out) > self.max_states:
            raise Limit('states')
        return out

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((v is None, self.state_key(s, v)), []).append((s, v))
        res = []
        for (isnone, _), g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            # values are equal up to renumbering of objects; keep each state's own value
            vals = {id(s): v for s, v in g}
            if len({v for _, v in g}) == 1:
                v = g[0][1]
                res.extend((s, v) for s in self.merge_facts([s for s, _ in g]))
            else:
                res.extend(g)
        if len(res) > self.max_states:
            raise Limit('states')
        return res

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, states):
        """-> [Exit]"""
        exits, cur = [], states
        for stm in body:
            nxt = []
            for s in cur:
                for x in self.exec_stmt(stm, s):
                    if x.kind == 'next':
                        nxt.append(x.st)
                    else:
                        exits.append(x)
            live = self._live.get(id(stm))
            if live is not None:
                for i, s in enumerate(nxt):
                    if any(k not in live and k[0] != '$' for k in s.env):
                        c = s.copy()
                        c.env = {k: v for k, v in s.env.items() if k in live or k[0] == '$'}
                        nxt[i] = c
            cur = self.merge_states(nxt)
            if not cur:
                break
        return self.merge_exits(exits) + [Exit('next', s, None) for s in cur]

    def merge_exits(self, exits):
        if len(exits) < 2:
            return exits
        groups = {}
        for x in exits:
            groups.setdefault((x.kind, x.val, self.state_key(x.st, x.val)), []).append(x.st)
        res = []
        for (k, v, _), sts in groups.items():
            res.extend(Exit(k, s, v) for s in self.merge_facts(sts))
        if len(res) > self.max_states:
            raise Limit('states')
        return res

    def of_outs(self, outs):
        return [Exit('exc' if v is None else 'next', s, None) for s, v in outs]

    def exec_stmt(self, n, st, want_break=False):
        self.steps += 1
        if self.steps % 200 == 0 and time.time() > self.deadline:
            raise Limit('time')
        k = type(n).__name__
        if k == 'Expr':
            return self.of_outs(self.ev(n.value, st))
        if k in ('Assign', 'AnnAssign'):
            if n.value is None:
                return [Exit('next', st, None)]
            targets = n.targets if k == 'Assign' else [n.target]
            res = []
            for s, v in self.ev(n.value, st):
                if v is None:
                    res.append(Exit('exc', s, None))
                    continue
                cur = [s]
                for t in targets:
                    nxt = []
                    for s2 in cur:
                        for s3 in self.assign(t, s2, v, n):
                            if s3.exc:
                                res.append(Exit('exc', s3, None))
                            else:
                                nxt.append(s3)
                    cur = nxt
                res.extend(Exit('next', s2, None) for s2 in cur)
            return res
        if k == 'AugAssign':
            return self.aug(n, st)
        if k == 'Return':
            if n.value is None:
                return [Exit('return', st, NONE)]
            res = []
            for s, v in self.ev(n.value, st):
                if v is None:
                    res.append(Exit('exc', s, None))
                else:
                    self.loc_ret = self.where(n)
                    s = s.copy()
                    s.trace = (s.trace, (('return', C(self.where(n))), True, self.where(n)))
                    res.append(Exit('return', s, v))
            return res
        if k == 'If':
            res = []
            conds = self.cond(n.test, st)
            for s, b in conds:
                if b is None:
                    res.append(Exit('exc', s, None))
            for val, body in ((True, n.body), (False, n.orelse)):
                sts = self.merge_states([s for s, b in conds if b is val])
                if sts:
                    res.extend(self.exec_block(body, sts) if body else [Exit('next', s, None) for s in sts])
            return res
        if k in ('For', 'AsyncFor'):
            return self.exec_for(n, st, want_break)
        if k == 'While':
            return self.exec_while(n, st)
        if k == 'Try':
            return self.exec_try(n, st)
        if k == 'Raise':
            return self.exec_raise(n, st)
        if k in ('With', 'AsyncWith'):
            cur, res = [st], []
            for it in n.items:
                nxt = []
                for s in cur:
                    for s2, v in self.ev(it.context_expr, s):
                        if v is None:
                            res.append(Exit('exc', s2, None))
                            continue
                        if it.optional_vars is not None:
                            for s3 in self.assign(it.optional_vars, s2, ('ctx', self.freeze(s2, v)), n):
                                nxt.append(s3)
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + (self.exec_block(n.body, cur) if cur else [])
        if k == 'Pass' or k in ('Import', 'ImportFrom', 'Global', 'Nonlocal'):
            if k in ('Import', 'ImportFrom'):
                s = st.copy()
                m = Module.__new__(Module)
                m.name, m.path, m.is_pkg, m.names, m.funcs, m.classes = self.stack[-1].module.name, '', \
                    self.stack[-1].module.is_pkg, {}, {}, {}
                self.repo._index(m, [n])
                for nm in m.names:
                    s.env[nm] = self.resolved(self.repo.resolve(m, nm), nm)
                return [Exit('next', s, None)]
            return [Exit('next', st, None)]
        if k == 'Break':
            return [Exit('break', st, None)]
        if k == 'Continue':
            return [Exit('continue', st, None)]
        if k == 'Delete':
            cur = [st]
            for t in n.targets:
                cur = [s2 for s in cur for s2 in (self.delete(t, s, n) if not s.exc else [s])]
            return [Exit('exc' if s.exc else 'next', s, None) for s in cur]
        if k == 'Assert':
            res = []
            for s, b in self.cond(n.test, st):
                if b is None:
                    res.append(Exit('exc', s, None))
                elif b:
                    res.append(Exit('next', s, None))
                else:
                    res.extend(Exit('exc', x, None) for x, _ in self.raise_(s, 'AssertionError', n))
            return res
        if k in ('FunctionDef', 'AsyncFunctionDef'):
            s = st.copy()
            self.closures.append((n, s.env, self.stack[-1]))
            s.env[n.name] = ('closure', len(self.closures) - 1)
            self.closures[-1] = (n, s.env, self.stack[-1])
            return [Exit('next', s, None)]
        if k == 'Match':
            return self.exec_match(n, st)
        return [Exit('next', st, None)]

    def exec_match(self, n, st):
        res = []
        for s, v in self.ev(n.subject, st):
            if v is None:
                res.append(Exit('exc', s, None))
                continue
            cur = [s]
            for c in n.cases:
                nxt = []
                for s2 in cur:
                    p = c.pattern
                    alts = p.patterns if isinstance(p, ast.MatchOr) else [p]
                    if all(isinstance(a, (ast.MatchValue, ast.MatchSingleton)) for a in alts):
                        vals = [ast.Constant(a.value) if isinstance(a, ast.MatchSingleton) else a.value for a in alts]
                        for s3, vs in self.ev_many(vals, s2):
                            for s4, b in self._or(s3, [a_eq(self.freeze(s3, v), self.freeze(s3, x)) for x in vs]):
                                if b:
                                    gs = self.cond(c.guard, s4) if c.guard else [(s4, True)]
                                    for s5, g in gs:
                                        if g:
                                            res.extend(self.exec_block(c.body, [s5]))
                                        else:
                                            nxt.append(s5)
                                else:
                                    nxt.append(s4)
                    elif isinstance(p, ast.MatchAs) and p.pattern is None:
                        s3 = s2.copy()
                        if p.name:
                            s3.env[p.name] = v
                        gs = self.cond(c.guard, s3) if c.guard else [(s3, True)]
                        for s5, g in gs:
                            if g:
                                res.extend(self.exec_block(c.body, [s5]))
                            else:
                                nxt.append(s5)
                    else:
                        for s3, b in self._fork(s2, ('match', self.freeze(s2, v), ast.unparse(p))):
                            if b:
                                res.extend(self.exec_block(c.body, [s3]))
                            else:
                                nxt.append(s3)
                cur = nxt
            res.extend(Exit('next', s2, None) for s2 in cur)
        return res

    def aug(self, n, st):
        t = n.target
        load = ast.copy_location(
            ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else
            ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()) if isinstance(t, ast.Attribute) else
            ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
        res = []
        for s, vs in self.ev_many([load, n.value], st):
            if vs is None:
                res.append(Exit('exc', s, None))
                continue
            a, b = vs
            o = self.obj(s, a)
            if o is not None and o[0] in ('list', 'set') and isinstance(n.op, (ast.Add, ast.BitOr)):
                res.extend(self.of_outs(self.mutate(s, a, 'extend' if o[0] == 'list' else 'update', [b], {}, n)))
                continue
            if o is not None and o[0] == 'dict' and isinstance(n.op, ast.BitOr):
                res.extend(self.of_outs(self.mutate(s, a, 'update', [b], {}, n)))
                continue
            if o is None and isinstance(n.op, ast.Add) and a[0] in ('item', 'attr', 'elem') and \
                    self.obj(s, b) is not None and self.obj(s, b)[0] == 'list':
                res.extend(self.of_outs(self.mutate(s, a, 'extend', [b], {}, n)))
                continue
            s, v = self.binop(s, n.op, a, b, n)
            res.extend(Exit('exc' if s2.exc else 'next', s2, None) for s2 in self.assign(t, s, v, n))
        return res

    def exec_raise(self, n, st):
        if n.exc is None:
            cur = st.env.get('$exc')
            s = st.copy()
            s.exc = cur if cur is not None else ('Exception', self.where(n), None)
            if cur is not None:
                s.exc = (cur[0], self.where(n), None)
            return [Exit('exc', s, None)]
        e = n.exc
        name = dotted(e.func) if isinstance(e, ast.Call) else dotted(e)
        if isinstance(e, ast.Name) and e.id in st.env:
            v = st.env[e.id]
            if v[0] == 'excval':
                s = st.copy()
                s.exc = (v[1], self.where(n), None)
                return [Exit('exc', s, None)]
        if isinstance(e, ast.Call):
            r = self.repo.resolve_expr(self.stack[-1].module, e.func)
            if r and r[0] == 'func':
                name = 'Exception'
        s = st.copy()
        s.exc = ((name or 'Exception').split('.')[-1], self.where(n), None)
        return [Exit('exc', s, None)]

    def exec_try(self, n, st):
        names = []
        for h in n.handlers:
            t = exc_names(h.type)
            names.append(t)
        flat = None if any(t is None for t in names) else [x for t in names for x in t]
        self.handlers.append(flat if n.handlers else [])
        try:
            body = self.exec_block(n.body, [st])
        finally:
            self.handlers.pop()
        after = []
        for x in body:
            if x.kind == 'next':
                after.extend(self.exec_block(n.orelse, [x.st]) if n.orelse else [x])
            elif x.kind != 'exc':
                after.append(x)
        excs = [x.st for x in body if x.kind == 'exc']
        for s in excs:
            after.extend(self.handle(n, names, s))
        if not n.finalbody:
            return self.merge_exits(after)
        res = []
        for x in after:
            for f in self.exec_block(n.finalbody, [x.st]):
                if f.kind == 'next':
                    res.append(Exit(x.kind, f.st, x.val))
                else:
                    res.append(f)
        return self.merge_exits(res)

    def raises_own(self, callee, names):
        """Library code does not raise exceptions that only this code base defines."""
        r = self.repo
        if not hasattr(r, '_own'):
            r._own = {c for m in r.modules.values() for c in m.classes}
            r._own_f = r._own | {f for m in r.modules.values() for f in m.funcs} | \
                {f for m in r.modules.values() for c in m.classes.values() for f in c.methods}
        short = str(callee).rpartition('.')[2]
        own = r._own
        if short == 'httpc':  # the HTTP client knows nothing about OpenID Connect either
            if not hasattr(r, '_idpy'):
                r._idpy = {n for m in r.modules.values() for n, k in m.names.items()
                           if k[0] == 'import' and str(k[1]).startswith('idpyoidc')}
            own = own | r._idpy
        return not all(x in own for x in names) or short in r._own_f

    def handle(self, n, names, s):
        exc = s.exc
        res = []
        anc = None if exc[0] == 'any' else self.repo.exc_ancestors(exc[0])
        hs = []
        propagate = True
        for h, t in zip(n.handlers, names):
            catchall = t is None or any(x in ('Exception', 'BaseException') for x in t)
            if anc is None:
                if not catchall and exc[2] and not self.raises_own(exc[2], t):
                    continue
                hs.append((h, t[0] if t and not catchall else 'any'))
                if catchall:
                    propagate = False
                    break
            elif catchall or any(x in anc for x in t):
                hs.append((h, exc[0]))
                propagate = False
                break
        if propagate and (anc is not None or self.catching_any()):
            res.append(Exit('exc', s, None))
        for h, nm in hs:
            c = s.copy()
            c.exc = None
            c.trace = (s.trace, (('except', C(nm)), True, self.where(h)))
            saved = c.env.get('$exc')
            c.env['$exc'] = (nm, exc[1], exc[2])
            if h.name:
                c.env[h.name] = ('excval', nm)
            for x in self.exec_block(h.body, [c]):
                s2 = x.st.copy()
                s2.env.pop('$exc', None)
                if saved is not None:
                    s2.env['$exc'] = saved
                res.append(Exit(x.kind, s2, x.val))
        return res

    # ------------------------------------------------------------------ loops
    def lid(self, node, it):
        key = (tuple(f.qual for f in self.stack), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), it)
        d = self.__dict__.setdefault('_lids', {})
        if key not in d:
            d[key] = f'L{len(d)}'
        return d[key]

    def exec_for(self, n, st, want_break=False):
        res = []
        for s, it in self.ev(n.iter, st):
            if it is None:
                res.append(Exit('exc', s, None))
                continue
            if it == NONE or s.know(a_none(it)) is True:
                res.extend(self.of_outs(self.raise_(s, 'TypeError', n)))
                continue
            it = s.over.get(it, it)
            items, fiter, mk = self.iter_desc(s, it)
            if items is not None and len(items) <= self.unroll:
                res.extend(self.unrolled(n, s, items, want_break))
                continue
            if items is not None:
                fiter = ('list',) + tuple(('item', self.freeze(s, x)) for x in items)
                mk = lambda lid, f=fiter: ('elem', lid, f)
            f = self.filtered(fiter) if it[0] not in ('enum', 'zip', 'items', 'values', 'range') else None
            if f is not None:
                res.extend(self.generic(n, s, ('rev', f[1]) if f[3] else f[1], f, want_break))
                continue
            if s.know(a_truthy(fiter)) is False and fiter[0] not in ('zip', 'range'):
                res.extend(self.exec_block(n.orelse, [s]) if n.orelse else [Exit('next', s, None)])
                continue
            res.extend(self.generic(n, s, fiter, mk, want_break))
        return res

    def filtered(self, t):
        """A list made from (some of) the elements of another one: going through it is going through that one."""
        rev = t[0] == 'rev'
        if rev:
            t = t[1]
        if t[0] != 'list' or len(t) != 2 or t[1][0] != 'many':
            return None
        lid, dom, aid = t[1][1:4]
        alts = self.alts[aid]
        if dom[0] in ('zip', 'range', 'while', 'items', 'enum', 'values') or any(
                v is None or len(v) > 1 or v and v[0][0] != 'item' for d, ev, v in alts):
            return None
        if not rev and all(v for d, ev, v in alts) or any(
                v and v[0][1] != ('elem', lid, dom) and (not rev or not mentions(v[0][1], ('elem', lid, dom)) or mentions(
                    v[0][1], lambda y: y[0] in ('lv', 'pv', 'lo', 'phi') or y == ('idx', lid))) for d, ev, v in alts):
            return None
        return lid, dom, alts, rev

    def filtered_starts(self, s, f, lid):
        lid0, dom, alts, rev = f
        dom2 = ('rev', dom) if rev else dom

        def here(x):
            if x[0] == 'elem' and x[1] == lid0 and x[2] == dom:
                return ('elem', lid, dom2)
            if x == ('idx', lid0):
                return ('idx', lid)
            return x
        for d, ev, v in alts:
            c = s.copy()
            if all(c.know((a, w)) is not False and (c.assume((a, w)) or True)
                   for a, w in ((subst(a, here), w) for a, w in d if a[0] != 'forall')):
                yield c, subst(v[0][1], here) if v else None

    def unrolled(self, n, st, items, want_break):
        res, cur = [], [st]
        for v in items:
            nxt = []
            for s in cur:
                for s2 in self.assign(n.target, s, v, n):
                    if s2.exc:
                        res.append(Exit('exc', s2, None))
                        continue
                    for x in self.exec_block(n.body, [s2]):
                        if x.kind in ('next', 'continue'):
                            nxt.append(x.st)
                        elif x.kind == 'break':
                            res.append(Exit('broke' if want_break else 'next', x.st, None))
                        else:
                            res.append(x)
            cur = self.merge_states(nxt)
        if cur:
            res.extend(self.exec_block(n.orelse, cur) if n.orelse else [Exit('next', s, None) for s in cur])
        return res

    def exec_while(self, n, st):
        if self.while_unroll:
            res, cur = [], [(st, frozenset())]
            for _ in range(self.while_unroll):
                nxt = []
                for s, seen in cur:
                    k = self.state_key(s)
                    k = k[:-2] + (frozenset(s.facts.items()),)
                    if k in seen:
                        # nothing changed: it goes on like this for ever
                        self.nonterminating.append(self.where(n))
                        continue
                    seen = seen | {k}
                    for s2, b in self.cond(n.test, s):
                        if b is None:
                            res.append(Exit('exc', s2, None))
                        elif not b:
                            res.extend(self.exec_block(n.orelse, [s2]) if n.orelse else [Exit('next', s2, None)])
                        else:
                            for x in self.exec_block(n.body, [s2]):
                                if x.kind in ('next', 'continue'):
                                    nxt.append((x.st, seen))
                                elif x.kind == 'break':
                                    res.append(Exit('next', x.st, None))
                                else:
                                    res.append(x)
                cur = nxt
                if len(cur) > self.max_states:
                    raise Limit('states')
                if not cur:
                    return self.merge_exits(res)
            raise Limit('while')
        return self.generic(n, st, ('while', self.where(n)), None, False)

    def havoc(self, pre, lid, info, changed):
        s = pre.copy()
        for kind, key in changed:
            if kind == 'var':
                init = pre.env.get(key)
                if key in info['counter']:
                    c = info['counter'][key]
                    l = to_lin(init)
                    d = dict(l[0])
                    d[('idx', lid)] = d.get(('idx', lid), 0) + c
                    s.env[key] = mk_lin(d, l[1])
                elif key in info['shift']:
                    s.env[key] = info['shift'][key]
                elif info['isfor'] and key not in info['nophi'] and init in (NONE, FALSE):
                    s.env[key] = ('phi', lid, key, init)
                else:
                    s.env[key] = ('lv', lid, key)
            elif kind == 'obj':
                o = pre.heap[key]
                if o[0] in ('list', 'set'):
                    if key in info['replaced']:
                        s.heap[key] = (o[0], (('all', ('lv', lid, key)),))
                    else:
                        s.heap[key] = (o[0], o[1] + (('prev', lid, key),))
                elif o[0] == 'dict':
                    if key in info['replaced']:
                        s.heap[key] = ('dict', ('lv', lid, key), (), o[3])
                    else:
                        s.heap[key] = ('dict', o[1], o[2] + (('prev', lid, key),), o[3])
                elif o[0] == 'ext':
                    s.heap[key] = ('ext', o[1], o[2], o[3] + (('prev', lid),))
                elif o[0] == 'inst':
                    ch = info['attrs'].get(key, set())
                    at = [(k, v) for k, v in o[2] if k not in ch]
                    s.heap[key] = ('inst', o[1], tuple(at) + tuple((k, ('lv', lid, f'{key}.{k}')) for k in sorted(ch)))
            elif kind == 'over':
                s.over[key] = ('lv', lid, key)
        return s

    def shift_term(self, t, lid, by):
        idx = ('idx', lid)

        def f(x):
            if x[0] == 'elem' and x[1] == lid:
                return self.item_term(x[2], by)
            if x == idx:
                return by
            if x[0] == 'lin' and any(k == idx for k, _ in x[1]):
                d = dict(x[1])
                co = d.pop(idx)
                return lin_add(mk_lin(d, x[2]), mk_lin({k: v * co for k, v in to_lin(by)[0].items()}, to_lin(by)[1] * co))
            return x
        return subst(t, f)

    def generic(self, n, pre, fiter, mk, want_break):
        isfor = mk is not None
        lid = self.lid(n, fiter)
        info = self.loopinfo[lid] = {'iter': fiter, 'counter': {}, 'shift': {}, 'one2one': set(), 'replaced': set(),
                                     'attrs': {}, 'vals': {}, 'pv': {}, 'pre': pre, 'noshift': set(),
                                     'isfor': isfor, 'nophi': set()}
        dom = fiter
        if fiter[0] == 'range' and fiter[3] == C(1):
            lo, l = fiter[1], to_lin(fiter[2])
            if l and len(l[0]) == 1:
                k, co = next(iter(l[0].items()))
                if k[0] == 'len' and co == 1 and lo[0] == 'const':
                    if lo == C(0) and l[1] == 0:
                        info['range'] = k
                        dom = k[1]
                        info['iter'] = dom
                    else:
                        dom = ('slice', k[1], lo if lo != C(0) else NONE, C(l[1]) if l[1] else NONE, NONE)
        changed = []
        pre = pre.copy()
        self.loops.append((lid, dom))
        try:
            for rnd in range(8):
                s = self.havoc(pre, lid, info, changed)
                self.dry += 1
                try:
                    outs, falses = self.iteration(n, s, lid, info, mk)
                finally:
                    self.dry -= 1
                if not isfor and 'range' in info:
                    dom = info['range'][1]
                    info['iter'] = dom
                    self.loops[-1] = (lid, dom)
                if not self.note_changes(pre, s, outs, lid, info, changed, n, isfor):
                    break
            s = self.havoc(pre, lid, info, changed)
            outs, falses = self.iteration(n, s, lid, info, mk)
        finally:
            self.loops.pop()
        return self.finish(n, pre, s, outs, falses, lid, info, changed, dom, isfor, want_break)

    def iteration(self, n, s, lid, info, mk):
        if mk is not None:
            starts = []
            outs = []
            if isinstance(mk, tuple):
                begin = []
                for c, v in self.filtered_starts(s, mk, lid):
                    if v is None:
                        outs.append(Exit('continue', c, None))
                    else:
                        begin.append((c, v))
            else:
                begin = [(s, mk(lid))]
            for s2 in [y for c, v in begin for y in self.assign(n.target, c, v, n)]:
                if s2.exc:
                    outs.append(Exit('exc', s2, None))
                else:
                    starts.append(s2)
            return outs + (self.exec_block(n.body, starts) if starts else []), []
        outs, starts, falses = [], [], []
        for s2, b in self.cond(n.test, s):
            if b is None:
                outs.append(Exit('exc', s2, None))
            elif b:
                starts.append(s2)
                for a, v in s2.facts.items():
                    if a[0] == 'lt' and v and a[2] == 0 and len(a[1]) == 2 and a not in s.facts:
                        (x, cx), (y, cy) = a[1]
                        if x == ('idx', lid) and cx == 1 and y[0] == 'len' and cy == -1:
                            info['range'] = y
            else:
                falses.append(s2)
        if starts:
            outs += self.exec_block(n.body, self.merge_states(starts))
        return outs, falses

    def note_changes(self, pre, s, outs, lid, info, changed, n, isfor):
        """Compare the end of an iteration with its beginning; True when another round is needed."""
        again = False
        have = set(changed)
        done = [x for x in outs if x.kind in ('next', 'continue')]
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if isfor else set()

        def add(kind, key):
            nonlocal again
            if (kind, key) not in have:
                have.add((kind, key))
                changed.append((kind, key))
                again = True
        for x in done:
            for k, v in s.env.items():
                if k in targets or k[0] == '$' and not k.startswith(('$comp', '$yield')):
                    continue
                if k in x.st.env and x.st.env[k] != v and k in pre.env:
                    add('var', k)
            for k in [k for k in pre.heap if k in s.heap]:
                o0, o1 = s.heap[k], x.st.heap.get(k)
                if o1 is not None and o1 != o0:
                    if o1[0] == 'inst':
                        d0 = dict(o0[2])
                        ch = {a for a, v in o1[2] if d0.get(a) != v}
                        if ch - info['attrs'].get(k, set()):
                            info['attrs'][k] = info['attrs'].get(k, set()) | ch
                            again = True
                    elif o1[0] in ('list', 'set') and ('obj', k) in have and k not in info['replaced'] and \
                            o1[1][:len(o0[1])] != o0[1]:
                        info['replaced'].add(k)
                        again = True
                    elif o1[0] == 'dict' and ('obj', k) in have and k not in info['replaced'] and (
                            o1[1] != o0[1] or o1[2][:len(o0[2])] != o0[2]):
                        info['replaced'].add(k)
                        again = True
                    add('obj', k)
            for k, v in x.st.over.items():
                if s.over.get(k) != v:
                    if any(t[0] in ('elem', 'idx', 'lv', 'pv') and t[1] == lid for t in subterms(k)):
                        continue
                    if v[0] == 'obj' and v[1] not in pre.heap:
                        # something opaque is mutated in the loop: give it an object before the loop
                        o = x.st.heap[v[1]]
                        if k not in pre.over and o[0] in ('list', 'set', 'dict'):
                            self.own(pre, k, o[0])
                            again = True
                        elif k in pre.over:
                            add('over', k)
                    else:
                        add('over', k)
        for kind, key in changed:
            if kind == 'var' and isfor and pre.env.get(key) in (NONE, FALSE) and key not in info['nophi']:
                vals = {self.freeze(x.st, x.st.env[key]) if key in x.st.env else NONE for x in done}
                if not all(definitely_not_none(v) and v[0] not in ('const', 'phi') for v in vals):
                    info['nophi'].add(key)
                    again = True
                info.setdefault('phivals', {})[key] = vals
        if again:
            return True
        for kind, key in changed:
            if kind == 'var' and key not in info['counter'] and key not in info['shift'] and done:
                vals = {self.freeze(x.st, x.st.env[key]) if key in x.st.env else None for x in done}
                if len(vals) == 1:
                    v = next(iter(vals))
                    lv = ('lv', lid, key)
                    if v is not None and v[0] == 'lin' and len(v[1]) == 1 and v[1][0] == (lv, 1) and \
                            to_lin(pre.env[key]) is not None and isinstance(v[2], int):
                        info['counter'][key] = v[2]
                        again = True
                    elif v is not None and key not in info['noshift'] and not mentions(
                            v, lambda t: t[0] in ('lv', 'pv') and t[1] == lid):
                        sh = self.shift_term(v, lid, mk_lin({('idx', lid): 1}, -1))
                        at0 = subst(sh, lambda t: self.item_term(t[2], C(0)) if t[0] == 'elem' and t[1] == lid else
                                    C(0) if t == ('idx', lid) else t)
                        if at0 == self.freeze(pre, pre.env[key]) and not mentions(v, lambda t: t[0] == 'lo'):
                            info['shift'][key] = sh
                            again = True
                        else:
                            info['noshift'].add(key)
            if kind == 'obj' and key not in info['one2one'] and key not in info['replaced'] and done:
                o = pre.heap[key]
                if o[0] == 'list' and not o[1]:
                    n0 = len(s.heap[key][1])
                    if all(key in x.st.heap and len(x.st.heap[key][1]) == n0 + 1 and x.st.heap[key][1][-1][0] == 'item'
                           for x in done):
                        info['one2one'].add(key)
                        again = True
        return again

    def finish(self, n, pre, s, outs, falses, lid, info, changed, dom, isfor, want_break):
        done = [x for x in outs if x.kind in ('next', 'continue')]
        npre = len(pre.events)

        def delta(st):
            return tuple((a, v) for a, v in st.facts.items() if pre.facts.get(a) is not v)

        alts = []
        per = {c: [] for c in changed}
        for x in done:
            d, ev = delta(x.st), x.st.events[npre:]
            alts.append((d, ev, None))
            for kind, key in changed:
                if kind == 'var':
                    v = self.freeze(x.st, x.st.env[key]) if key in x.st.env else NONE
                elif kind == 'over':
                    v = self.freeze(x.st, x.st.over.get(key, key))
                else:
                    o0, o1 = s.heap[key], x.st.heap.get(key)
                    if o1 is None:
                        v = ()
                    elif o1[0] in ('list', 'set') and key not in info['replaced']:
                        v = tuple((g[0], self.freeze(x.st, g[1])) if g[0] in ('item', 'all') else g
                                  for g in o1[1][len(o0[1]):])
                    elif o1[0] == 'dict' and key not in info['replaced']:
                        v = tuple((g[0],) + tuple(self.freeze(x.st, y) for y in g[1:]) if g[0] in ('set', 'upd', 'del')
                                  else g for g in o1[2][len(o0[2]):])
                    else:
                        v = self.freeze(x.st, ('obj', key))
                per[(kind, key)].append((d, ev, v))
        aid = self.altid(alts)
        info['alts'] = aid
        for (kind, key), a in per.items():
            info['vals'][key] = self.altid(a)

        def close_heap(st):
            """Replace the 'so far' markers of this loop."""
            for kind, key in changed:
                if kind == 'obj' and key in st.heap:
                    o = st.heap[key]
                    m = ('many', lid, dom, info['vals'][key])
                    if o[0] in ('list', 'set'):
                        st.heap[key] = (o[0], tuple(m if g[0] == 'prev' and g[1] == lid else g for g in o[1]))
                    elif o[0] == 'dict':
                        st.heap[key] = ('dict', o[1], tuple(m if g[0] == 'prev' and g[1] == lid else g for g in o[2]), o[3])
            return st

        res = []
        # leaving early
        for x in outs:
            if x.kind in ('next', 'continue'):
                continue
            c = close_heap(x.st.copy())
            for a, v in delta(x.st):
                if a[0] == 'in' and not v and a[1] == ('elem', lid, dom):
                    c.assume(neg(a_subset(dom, a[2])))
                if a[0] == 'eq' and v:
                    for p, q in ((a[1], a[2]), (a[2], a[1])):
                        if p == ('elem', lid, dom) and not mentions(q, p):
                            c.assume(a_in(q, dom))
            if isfor and dom[0] not in ('zip', 'range', 'while'):
                c.assume(a_truthy(dom)) if c.know(a_truthy(dom)) is None else None
            if x.kind == 'break':
                res.append(Exit('broke' if want_break else 'next', c, None))
            else:
                res.append(Exit(x.kind, c, x.val))
        # running to the end
        posts = []
        if isfor:
            post = pre.copy()
            for kind, key in changed:
                if kind == 'var':
                    if key in info['counter'] and dom[0] not in ('range', 'zip') and not any(x.kind == 'break' for x in outs):
                        l = to_lin(pre.env[key])
                        d = dict(l[0])
                        d[('len', dom)] = d.get(('len', dom), 0) + info['counter'][key]
                        post.env[key] = mk_lin(d, l[1])
                    elif done:
                        post.env[key] = ('lo', lid, key, info['vals'][key], self.freeze(pre, pre.env[key]))
                elif kind == 'over':
                    if done:
                        post.over[key] = ('lo', lid, skey(key), info['vals'][key],
                                          self.freeze(pre, pre.over.get(key, key)))
                elif done:
                    o = pre.heap[key]
                    m = ('many', lid, dom, info['vals'][key])
                    if key in info['replaced']:
                        t = ('lo', lid, key, info['vals'][key], self.freeze(pre, ('obj', key)))
                        post.heap[key] = (o[0], (('all', t),)) if o[0] in ('list', 'set') else ('dict', t, (), o[3])
                    elif o[0] in ('list', 'set'):
                        post.heap[key] = (o[0], o[1] + ((m,) if any(a[2] for a in per[(kind, key)]) else ()))
                    elif o[0] == 'dict':
                        post.heap[key] = ('dict', o[1], o[2] + ((m,) if any(a[2] for a in per[(kind, key)]) else ()), o[3])
                    elif o[0] == 'ext':
                        post.heap[key] = ('ext', o[1], o[2], o[3] + (('loop', lid, dom, info['vals'][key]),))
                    elif o[0] == 'inst':
                        ch = info['attrs'].get(key, set())
                        post.heap[key] = ('inst', o[1], tuple((k, v) for k, v in o[2] if k not in ch) + tuple(
                            (k, ('lo', lid, f'{key}.{k}', info['vals'][key],
                                 self.freeze(pre, dict(o[2]).get(k, NONE)))) for k in sorted(ch)))
            # names first bound in the loop
            for x in done:
                for k, v in x.st.env.items():
                    if k not in post.env and k[0] != '$':
                        f = self.freeze(x.st, v)
                        post.env[k] = ('lo', lid, k, self.altid([((), (), f)]), NONE) if f[0] != 'const' else f
            posts = [post]
        else:
            posts = [close_heap(f.copy()) for f in falses]
        for post in posts:
            if not done and isfor:
                if dom[0] not in ('zip', 'range'):
                    if post.know(a_truthy(dom)) is True:
                        continue
                    post.assume(neg(a_truthy(dom)))
            elif any(a[0] or a[1] for a in alts):
                post.assume((('forall', lid, dom, aid), True))
                common = None
                for d, _, _ in alts:
                    common = set(d) if common is None else common & set(d)
                for a, v in common or ():
                    if a[0] == 'in' and a[1] == ('elem', lid, dom) and not mentions(a[2], a[1]):
                        post.assume(a_subset(dom, a[2]) if v else neg(a_truthy(self.setop('inter', dom, a[2]))))
                    if a[0] == 'eq' and not v:
                        for p, q in ((a[1], a[2]), (a[2], a[1])):
                            if p == ('elem', lid, dom) and not mentions(q, p):
                                post.assume(neg(a_in(q, dom)))
            post.trace = (post.trace, (('loop', C(lid)), True, self.where(n)))
            res.extend(self.exec_block(n.orelse, [post]) if n.orelse else [Exit('next', post, None)])
        return res

    # ------------------------------------------------------------------ entry
    def explore(self, qual, args=None, self_cls=None, facts=(), env=None, setup=None):
        """All exits of a function: [Exit] (kind return/exc)."""
        f = self.repo.func(qual)
        st = St()
        e = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            e[x.arg] = ('sym', x.arg)
        if a.vararg:
            e[a.vararg.arg] = ('sym', a.vararg.arg)
        if a.kwarg:
            e[a.kwarg.arg] = ('sym', a.kwarg.arg)
        if f.cls is not None and f.kind != 'staticmethod':
            first = (a.posonlyargs + a.args)[0].arg
            e[first] = ('self', self_cls or f.cls.qual)
        e.update(args or {})
        for l in facts:
            st.assume(l)
        if setup:
            setup(self, st, e)
        self.functions_seen.add(f.qual)
        st.env = e
        self.stack.append(f)
        try:
            if id(f.node) not in self._live:
                self._live[id(f.node)] = True
                self._live.update(Liveness(f.node).after)
            out = []
            for x in self.exec_block(f.node.body, [st]):
                if x.kind == 'next':
                    x = Exit('return', x.st, NONE)
                out.append(x)
            return out
        finally:
            self.stack.pop()
