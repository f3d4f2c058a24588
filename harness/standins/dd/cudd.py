"""Stand-in for dd.cudd.BDD after dd's documentation: expressions over declared variables, kept as truth tables."""
import itertools, re

_TOK = re.compile(r"\s*(<=>|<->|=>|->|/\\|\\/|&&|\|\||[&|^~!()#]|[A-Za-z_][A-Za-z0-9_.']*)")


class Function:
    def __init__(self, bdd, names, table):
        self.bdd, self.names, self.table = bdd, names, table

    def _at(self, a):
        return self.table[tuple(a[n] for n in self.names)]

    @property
    def support(self):
        return self.bdd.support(self)

    def _bin(self, o, f):
        names = sorted(set(self.names) | set(o.names))
        t = {}
        for x in itertools.product((False, True), repeat=len(names)):
            a = dict(zip(names, x))
            t[x] = f(self._at(a), o._at(a))
        return Function(self.bdd, names, t)

    def __and__(self, o):
        return self._bin(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a or b)

    def __invert__(self):
        return Function(self.bdd, self.names, {k: not v for k, v in self.table.items()})

    def implies(self, o):
        return ~self | o


class BDD:
    def __init__(self, *a, **k):
        self.vars = {}

    def declare(self, *names):
        for n in names:
            self.vars.setdefault(n, len(self.vars))

    def add_var(self, n, index=None):
        self.vars.setdefault(n, len(self.vars))
        return self.vars[n]

    def configure(self, **k):
        return {}

    def var(self, n):
        if n not in self.vars:
            raise ValueError("undeclared variable %r" % n)
        return Function(self, [n], {(False,): False, (True,): True})

    true = property(lambda s: Function(s, [], {(): True}))
    false = property(lambda s: Function(s, [], {(): False}))

    def apply(self, op, u, v=None):
        return {"and": lambda: u & v, "/\\": lambda: u & v, "&": lambda: u & v, "&&": lambda: u & v, "or": lambda: u | v, "\\/": lambda: u | v, "|": lambda: u | v, "||": lambda: u | v,
                "=>": lambda: u.implies(v), "->": lambda: u.implies(v), "implies": lambda: u.implies(v), "not": lambda: ~u, "~": lambda: ~u, "!": lambda: ~u}[op]()

    def add_expr(self, e):
        toks, pos = [], 0
        while e[pos:].strip():
            m = _TOK.match(e, pos)
            if not m:
                raise ValueError("Syntax error at %r" % e[pos:pos + 20])
            toks.append(m.group(1))
            pos = m.end()
        toks.append(None)
        vs = sorted({t for t in toks if t and re.match(r"[A-Za-z_]", t) and t.upper() not in ("TRUE", "FALSE")})
        for v in vs:
            if v not in self.vars:
                raise ValueError("undeclared variable %r" % v)
        at = [0]

        def nxt():
            at[0] += 1
            return toks[at[0] - 1]

        def binary(ops, sub, mk):
            def p():
                x = sub()
                while toks[at[0]] in ops:
                    nxt()
                    x = mk(x, sub())
                return x
            return p

        def atom():
            t = nxt()
            if t in ("~", "!"):
                x = atom()
                return lambda a: not x(a)
            if t == "(":
                x = equiv()
                if nxt() != ")":
                    raise ValueError("Syntax error: ) expected in %r" % e)
                return x
            if t is None or not re.match(r"[A-Za-z_]", t):
                raise ValueError("Syntax error at %r in %r" % (t, e))
            if t.upper() in ("TRUE", "FALSE"):
                return lambda a: t.upper() == "TRUE"
            return lambda a: a[t]

        conj = binary(("&", "&&", "/\\"), atom, lambda x, y: lambda a: x(a) and y(a))
        disj = binary(("|", "||", "\\/"), conj, lambda x, y: lambda a: x(a) or y(a))
        xor = binary(("^", "#"), disj, lambda x, y: lambda a: x(a) != y(a))
        impl = binary(("=>", "->"), xor, lambda x, y: lambda a: (not x(a)) or y(a))
        equiv = binary(("<=>", "<->"), impl, lambda x, y: lambda a: x(a) == y(a))
        f = equiv()
        if toks[at[0]] is not None:
            raise ValueError("Syntax error at %r in %r" % (toks[at[0]], e))
        if len(vs) > 16:
            raise NotImplementedError("stand-in: too many variables")
        return Function(self, vs, {x: bool(f(dict(zip(vs, x)))) for x in itertools.product((False, True), repeat=len(vs))})

    def support(self, u):
        r = set()
        for k, n in enumerate(u.names):
            if any(u.table[x] != u.table[x[:k] + (not x[k],) + x[k + 1:]] for x in u.table):
                r.add(n)
        return r

    def pick_iter(self, u, care_vars=None):
        """assignments to care_vars (default: the variables u depends on) under which u holds"""
        sup = self.support(u)
        names = sorted(sup if care_vars is None else set(care_vars) | sup, key=lambda n: self.vars[n])
        rest = {n: False for n in u.names if n not in names}
        for x in itertools.product((False, True), repeat=len(names)):
            a = dict(zip(names, x))
            if u._at({**rest, **a}):
                yield a

    def count(self, u, nvars=None):
        n = len(self.support(u)) if nvars is None else nvars
        return len(list(self.pick_iter(u))) * 2 ** (n - len(self.support(u)))

    def pick(self, u, care_vars=None):
        return next(self.pick_iter(u, care_vars), None)
