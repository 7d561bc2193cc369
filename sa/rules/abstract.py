"""Abstract interpretation with known keys and unknown values.

Dictionaries that a function treats key by key are described by the keys that are there (one representative for each
case the specification distinguishes) and a symbol for each value; every path the function can take is followed."""
from .base import *


def mk(A, st, v):
    if isinstance(v, dict):
        return A.new_obj(st, ('dict', None, tuple(('set', C(k), mk(A, st, x)) for k, x in v.items()), None))
    if isinstance(v, list):
        return A.new_obj(st, ('list', tuple(('item', mk(A, st, x)) for x in v)))
    if isinstance(v, str):
        return ('sym', v)
    return v


class Abs:
    """One exploration with known keys."""

    def __init__(self, ctx, qual, args, boundary=(), pre=None, self_cls=None, facts=(), heap=None, attrs=None, **kw):
        self.ctx, self.qual = ctx, qual
        self.A = A = Analyzer(ctx.repo, boundary=tuple(boundary), **kw)
        self.args = {}

        def setup(A, st, e):
            if heap is not None:
                st.heap.update(heap)
            for k, v in args.items():
                if callable(v):
                    v = v(A, st)
                e[k] = mk(A, st, v)
                self.args[k] = e[k]
            self.before = {k: A.freeze(st, e[k]) for k in args}
            if pre:
                pre(A, st, e)
        self.limit = False
        try:
            self.exits = A.explore(qual, setup=setup, self_cls=self_cls, facts=facts)
        except Limit:
            self.exits, self.limit = [], True
        except RecursionError:
            self.exits, self.limit = [], True
        if not hasattr(ctx, 'functions'):
            ctx.functions, ctx.entries, ctx.abs_exits = set(), set(), 0
        ctx.functions |= set(A.functions_seen)
        ctx.entries.add(qual)
        ctx.abs_exits += len(self.exits)
        if self.limit:
            ctx.limits.append(qual)

    def value(self, x):
        return self.A.freeze(x.st, x.val) if x.val is not None else None

    def returns(self):
        for x in self.exits:
            if x.kind == 'return':
                yield x, self.value(x)

    def now(self, x, arg):
        """What an argument holds at an exit."""
        return self.A.freeze(x.st, self.args[arg])

    def changed(self, x):
        """Arguments that are not what they were."""
        return [k for k in self.args if self.now(x, k) != self.before[k]]

    def view(self, x):
        return View(self.A, list(x.st.facts.items()))

    def path(self, x, n=12):
        return [f'{loc}: {show_atom(a, v)[:200]}' for a, v, loc in x.st.path(n)]

    def where(self, x):
        p = x.st.path(1)
        return str(p[-1][2]) if p else self.ctx.repo.func(self.qual).where


def entries(t):
    """A dict with known keys -> {key: value} (None: not known)"""
    if t is None:
        return None
    if t[0] != 'dict' or t[1] is not None:
        return None
    out = {}
    for l in t[2]:
        if l[0] == 'set' and l[1][0] == 'const':
            out[l[1][2]] = l[2]
        elif l[0] == 'del' and l[1][0] == 'const':
            out.pop(l[1][2], None)
        elif l[0] == 'upd':
            e = entries(l[1])
            if e is None:
                return None
            out.update(e)
        else:
            return None
    return out


def parts(t, op):
    """Leaves of a tree of one set operation."""
    t = strip_set(t)
    if t[0] == op:
        for x in t[1:]:
            yield from parts(x, op)
    else:
        yield t


def about(t):
    """Not understood?"""
    return mentions(t, lambda y: y[0] in ('opaque', 'lo', 'lv', 'phi', 'call', 'many', 'all', 'elem'))
