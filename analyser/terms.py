"""Value-numbering domain: hash-consed terms, linear integer normal forms, and
the fact base (equalities, disequalities, linear bounds) attached to a path."""
import itertools


class T:
    __slots__ = ("op", "a", "id", "ksub", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count()


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_ids)
        ks = frozenset()
        for x in a:
            ks = _ksub(x, ks)
        if op == "k":
            ks = ks | {t}
        t.ksub = ks
        _tab[key] = t
    return t


def _ksub(x, ks):
    if isinstance(x, T):
        return ks | x.ksub if x.ksub else ks
    if isinstance(x, tuple):
        for y in x:
            ks = _ksub(y, ks)
    return ks


TRUE = mk("true")
FALSE = mk("false")


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- integers
# lin: mk('lin', const, ((mono, coef), ...)), mono = tuple of atoms sorted by id

def parts(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {(t,): 1}


def build(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    # c*div(x,c) + rem(x,c) -> x
    for m in list(d):
        if len(m) == 1 and m[0].op == "rem" and m in d:
            x, n = m[0].a
            dv = (mk("div", x, n),)
            k = d[m]
            if dv in d and d[dv] == k * n:
                del d[m], d[dv]
                c2, d2 = parts(x)
                c += c2 * k
                for mm, kk in d2.items():
                    d[mm] = d.get(mm, 0) + kk * k
                return build(c, d)
    if not d:
        return mk("lin", c, ())
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: tuple(y.id for y in x[0]))))


def I(n):
    return mk("lin", int(n), ())


ZERO = I(0)
ONE = I(1)


def isint(t):
    return t.op == "lin" and not t.a[1]


def ival(t):
    return t.a[0] if isint(t) else None


def add(a, b, s=1):
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for m, k in db.items():
        d[m] = d.get(m, 0) + s * k
    return build(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = parts(a)
    return build(c * n, {m: k * n for m, k in d.items()})


def mul(a, b):
    ca, da = parts(a)
    cb, db = parts(b)
    c = ca * cb
    d = {}
    for m, k in da.items():
        d[m] = d.get(m, 0) + k * cb
    for m, k in db.items():
        d[m] = d.get(m, 0) + k * ca
    for m1, k1 in da.items():
        for m2, k2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + k1 * k2
    return build(c, d)


def tdiv(a, b):
    n = ival(b)
    if n is not None and n > 0:
        c, d = parts(a)
        if c % n == 0 and all(k % n == 0 for k in d.values()):
            return build(c // n, {m: k // n for m, k in d.items()})
        if a.op == "lin":
            # pull out multiples of n
            whole = build(c // n, {m: k // n for m, k in d.items() if k > 0 and k // n})
            rest = build(c % n, {m: (k % n if k > 0 else k) for m, k in d.items()})
            if whole is not ZERO and all(k > 0 for k in d.values()):
                return add(whole, tdiv(rest, b))
        if isint(a):
            return I(ival(a) // n)
    if b is ONE:
        return a
    return mk("div", a, n if n is not None else b)


def trem(a, b):
    n = ival(b)
    if n is not None and n > 0:
        if isint(a):
            return I(ival(a) % n)
        c, d = parts(a)
        if c % n == 0 and all(k % n == 0 for k in d.values()):
            return ZERO
        if c >= 0 and all(k > 0 for k in d.values()):
            a2 = build(c % n, {m: k % n for m, k in d.items()})
            if a2 is not a:
                return trem(a2, b)
    return mk("rem", a, n if n is not None else b)


# ---------------------------------------------------------------- booleans

def eq0(p):
    if isint(p):
        return B(ival(p) == 0)
    c, d = parts(p)
    g = 0
    for k in d.values():
        g = _gcd(g, abs(k))
    if c % g:
        return FALSE
    if g > 1:
        p = build(c // g, {m: k // g for m, k in d.items()})
        c, d = parts(p)
    first = sorted(d.items(), key=lambda x: tuple(y.id for y in x[0]))[0]
    if first[1] < 0:
        p = scale(p, -1)
    return mk("eq0", p)


def ge0(p):
    if isint(p):
        return B(ival(p) >= 0)
    c, d = parts(p)
    g = 0
    for k in d.values():
        g = _gcd(g, abs(k))
    if g > 1:
        p = build(c // g, {m: k // g for m, k in d.items()})
    return mk("ge0", p)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("true", "false") or b.op in ("true", "false") or isbool(a) or isbool(b):
        if a.op == "true":
            return b
        if b.op == "true":
            return a
        if a.op == "false":
            return neg(b)
        if b.op == "false":
            return neg(a)
        return bor(band(a, b), band(neg(a), neg(b)))
    if a.op == "S" and b.op == "S":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for (f, x), (_, y) in zip(a.a[2], b.a[2]):
            r = band(r, eq(x, y))
        return r
    if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0]:
        return eq0(sub(a.a[1], b.a[1]))
    return eq0(sub(a, b))


BOOLOPS = {"true", "false", "eq0", "ge0", "not", "and", "or", "bit", "pred"}


def isbool(t):
    return t.op in BOOLOPS


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def neg(b):
    if b.op == "true":
        return FALSE
    if b.op == "false":
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "ge0":
        return ge0(sub(scale(b.a[0], -1), ONE))
    return mk("not", b)


def band(*bs):
    out = []
    for b in bs:
        if b is TRUE or b in out:
            continue
        if b is FALSE:
            return FALSE
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def bor(*bs):
    out = []
    for b in bs:
        if b is FALSE or b in out:
            continue
        if b is TRUE:
            return TRUE
        out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


# ---------------------------------------------------------------- structure

def rebuild(t, f):
    """t with f applied to each direct child; renormalised."""
    op, a = t.op, t.a
    if op == "lin":
        r = I(a[0])
        for m, k in a[1]:
            p = I(k)
            for x in m:
                p = mul(p, f(x))
            r = add(r, p)
        return r
    n = tuple(_map(x, f) for x in a)
    if n == a:
        return t
    return remake(op, n)


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


REMAKE = {}


def remake(op, n):
    if op == "div":
        return tdiv(n[0], I(n[1]) if isinstance(n[1], int) else n[1])
    if op == "rem":
        return trem(n[0], I(n[1]) if isinstance(n[1], int) else n[1])
    if op == "eq0":
        return eq0(n[0])
    if op == "ge0":
        return ge0(n[0])
    if op == "not":
        return neg(n[0])
    if op == "and":
        return band(*n)
    if op == "or":
        return bor(*n)
    if op == "ptr":
        return mkptr(n[0], n[1])
    if op == "fld":
        return getf(n[0], n[1])
    r = REMAKE.get(op)
    if r:
        return r(*n)
    return mk(op, *n)


def mkptr(base, off):
    if base.op == "ptr":
        return mkptr(base.a[0], add(base.a[1], off))
    return mk("ptr", base, off)


def asptr(t):
    return t if t.op == "ptr" else mk("ptr", t, ZERO)


def subst(t, m, memo=None):
    """replace atoms by terms, everywhere"""
    if memo is None:
        memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def contains(t, x):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return False


def children(t):
    out = []

    def w(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                w(y)

    w(t.a)
    return out


def atoms_in(t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return seen


# struct values: S(name, variant, ((field, value), ...)); U(base, ((field, value),...))

def S(name, variant, fields):
    return mk("S", name, variant, tuple(fields))


def tup(*vs):
    return S("tup", None, [(str(i), v) for i, v in enumerate(vs)])


def getf(v, f):
    while True:
        if v.op == "S":
            for n, x in v.a[2]:
                if n == f:
                    return x
            return mk("fld", v, f)
        if v.op == "U":
            hit = None
            for n, x in v.a[1]:
                if n == f:
                    hit = x
            if hit is not None:
                return hit
            v = v.a[0]
            continue
        return mk("fld", v, f)


def setf(v, f, x):
    if v.op == "S":
        fs = list(v.a[2])
        for i, (n, _) in enumerate(fs):
            if n == f:
                fs[i] = (n, x)
                return mk("S", v.a[0], v.a[1], tuple(fs))
        fs.append((f, x))
        return mk("S", v.a[0], v.a[1], tuple(fs))
    if v.op == "U":
        base, fs = v.a[0], dict(v.a[1])
    else:
        base, fs = v, {}
    if x is getf(base, f):
        fs.pop(f, None)
    else:
        fs[f] = x
    if not fs:
        return base
    return mk("U", base, tuple(sorted(fs.items())))


def some(x):
    return S("std::option::Option", "Some", [("0", x)])


NONE = S("std::option::Option", "None", [])


def okv(x):
    return S("std::result::Result", "Ok", [("0", x)])


def errv(x):
    return S("std::result::Result", "Err", [("0", x)])


# ---------------------------------------------------------------- facts

class Contradiction(Exception):
    pass


class Facts:
    __slots__ = ("sub", "bools", "neq", "ge", "memo", "list")

    def __init__(self):
        self.sub = {}
        self.bools = {}
        self.neq = ()
        self.ge = ()
        self.memo = {}
        self.list = ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub, f.bools, f.neq, f.ge, f.list = self.sub, self.bools, self.neq, self.ge, self.list
        f.memo = self.memo
        return f

    # -- normalisation under equalities
    def norm(self, t):
        if not self.sub:
            return t
        m = self.memo
        r = m.get(t)
        if r is not None:
            return r
        r = t
        for _ in range(20):
            if r in self.sub:
                r2 = self.sub[r]
            else:
                r2 = rebuild(r, self.norm)
            if r2 is r:
                break
            r = r2
        m[t] = r
        return r

    # -- linear bounds
    def prove_ge(self, p, depth=3):
        p = self.norm(p)
        c, d = parts(p)
        if c >= 0 and all(k >= 0 for k in d.values()):
            return True
        if not d:
            return c >= 0
        return self._ge(p, depth, set())

    def _ge(self, p, depth, seen):
        c, d = parts(p)
        if all(k >= 0 for k in d.values()):
            return c >= 0 or (False if depth <= 0 or not d else self._elim(p, c, d, depth, seen))
        if depth <= 0 or p in seen:
            return False
        seen.add(p)
        return self._elim(p, c, d, depth, seen)

    def _elim(self, p, c, d, depth, seen):
        bad = [(m, k) for m, k in d.items() if k < 0]
        cands = []
        for m, k in bad:
            for g in self.ge:
                gc, gd = parts(g)
                b = gd.get(m, 0)
                if b < 0:
                    cands.append((g, -b, -k))
            if len(m) == 1:
                a = m[0]
                if a.op == "rem" and isinstance(a.a[1], int):
                    cands.append((sub(I(a.a[1] - 1), a), 1, -k))
                elif a.op == "rem":
                    cands.append((sub(sub(a.a[1], ONE), a), 1, -k))
                    cands.append((sub(a.a[0], a), 1, -k))
                elif a.op == "div" and isinstance(a.a[1], int):
                    cands.append((sub(a.a[0], scale(a, a.a[1])), a.a[1], -k))
                elif a.op == "div":
                    cands.append((sub(a.a[0], a), 1, -k))
                elif a.op == "u32":
                    cands.append((sub(I(2**32 - 1), a), 1, -k))
        # lower bounds for atoms with positive coefficient and known positive bound
        if not bad and c < 0:
            for m, k in d.items():
                for g in self.ge:
                    gc, gd = parts(g)
                    if gc < 0 and gd.get(m, 0) > 0:
                        cands.append((g, gd[m], k))
                if len(m) == 1 and m[0].op == "div" and isinstance(m[0].a[1], int):
                    n = m[0].a[1]
                    cands.append((add(sub(scale(m[0], n), m[0].a[0]), I(n - 1)), n, k))
        elif c < 0 or bad:
            for m, k in d.items():
                if k > 0 and len(m) == 1 and m[0].op == "div" and isinstance(m[0].a[1], int):
                    n = m[0].a[1]
                    cands.append((add(sub(scale(m[0], n), m[0].a[0]), I(n - 1)), n, k))
            if c < 0:
                for m, k in d.items():
                    if k > 0:
                        for g in self.ge:
                            gc, gd = parts(g)
                            if gc < 0 and gd.get(m, 0) > 0:
                                cands.append((g, gd[m], k))
        for g, b, a in cands:
            # over the integers p >= 0 iff b*p + (b-1) >= 0
            q = add(sub(scale(p, b), scale(g, a)), I(b - 1))
            if self._ge(q, depth - 1, seen):
                return True
        return False

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        b = self.norm(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        op = b.op
        if b in self.bools:
            return self.bools[b]
        if op == "not":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if op == "and":
            rs = [self.decide(x) for x in b.a]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if op == "or":
            rs = [self.decide(x) for x in b.a]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if op in ("eq0", "ge0"):
            q = self.quotient(b.a[0])
            if q is not None:
                r = self.decide(eq(q, ZERO) if op == "eq0" else ge0(q))
                if r is not None:
                    return r
        if op == "eq0":
            p = b.a[0]
            if p in self.neq or scale(p, -1) in self.neq:
                return False
            if distinct(p) or self.apart(p):
                return False
            if self.prove_ge(sub(p, ONE)) or self.prove_ge(sub(scale(p, -1), ONE)):
                return False
            if self.prove_ge(p) and self.prove_ge(scale(p, -1)):
                return True
            return None
        if op == "ge0":
            p = b.a[0]
            if self.prove_ge(p):
                return True
            if self.prove_ge(sub(scale(p, -1), ONE)):
                return False
            return None
        return None

    def quotient(self, p):
        """p / a for a factor a of every term of p that is known positive, or None"""
        c, d = parts(p)
        if c != 0 or not d:
            return None
        ms = list(d)
        if any(len(m) < 2 for m in ms):
            return None
        for a in ms[0]:
            if all(a in m for m in ms) and self.prove_ge(sub(a, ONE)):
                r = ZERO
                for m, k in d.items():
                    rest = list(m)
                    rest.remove(a)
                    t = rest[0]
                    for x in rest[1:]:
                        t = mul(t, x)
                    r = add(r, scale(t, k))
                return r
        return None

    def apart(self, p):
        """p = x - y where some predicate is known to hold of x and not of y"""
        t = [b for b, v in self.bools.items() if v and b.op == "bit"]
        if not t:
            return False
        q = scale(p, -1)
        for b, v in self.bools.items():
            if not v and b.op == "bit":
                for c in t:
                    if c.a[0] is b.a[0]:
                        d = sub(c.a[1], b.a[1])
                        if d is p or d is q:
                            return True
        return False

    def assume(self, b):
        """adds b; raises Contradiction"""
        r = self.decide(b)
        if r is True:
            return
        if r is False:
            raise Contradiction()
        b = self.norm(b)
        self.list = self.list + (b,)
        op = b.op
        x = b.a[0] if op == "not" else b
        if x.op in ("eq0", "ge0"):
            q = self.quotient(x.a[0])
            if q is not None:
                q = eq(q, ZERO) if x.op == "eq0" else ge0(q)
                self.assume(neg(q) if op == "not" else q)
        if op == "and":
            for x in b.a:
                self.assume(x)
        elif op == "not":
            x = b.a[0]
            if x.op == "eq0":
                self._neq(x.a[0])
            elif x.op == "or":
                for y in x.a:
                    self.assume(neg(y))
            elif x.op == "and":
                self._bool(x, False)
                left = [y for y in x.a if self.decide(y) is not True]
                if not left:
                    raise Contradiction()
                if len(left) == 1:
                    self.assume(neg(left[0]))
            else:
                self._bool(x, False)
        elif op == "eq0":
            self._eq(b.a[0])
        elif op == "ge0":
            self._ge_add(b.a[0])
        elif op == "or":
            self._bool(b, True)
            left = [y for y in b.a if self.decide(y) is not False]
            if not left:
                raise Contradiction()
            if len(left) == 1:
                self.assume(left[0])
        else:
            self._bool(b, True)

    def propagate(self):
        """unit propagation over the compound facts collected so far"""
        for _ in range(4):
            n = len(self.list)
            for b, v in list(self.bools.items()):
                if b.op == "and" and not v:
                    left = [y for y in b.a if self.decide(y) is not True]
                    alt = neg
                elif b.op == "or" and v:
                    left = [y for y in b.a if self.decide(y) is not False]
                    alt = lambda y: y
                else:
                    continue
                if not left:
                    raise Contradiction()
                if len(left) == 1 and self.decide(left[0]) is None:
                    self.assume(alt(left[0]))
            if len(self.list) == n:
                return

    def _bool(self, x, v):
        d = dict(self.bools)
        d[x] = v
        self.bools = d

    def _neq(self, p):
        self.neq = self.neq + (p,)
        for q in (p, scale(p, -1)):
            if self.prove_ge(q):
                self._ge_add(sub(q, ONE))

    def _ge_add(self, p):
        if self.prove_ge(sub(scale(p, -1), ONE)):
            raise Contradiction()
        if self.prove_ge(scale(p, -1)):
            self._eq(p)
            return
        if p in self.neq or scale(p, -1) in self.neq:
            p = sub(p, ONE)
        if p not in self.ge:
            self.ge = self.ge + (p,)

    def _eq(self, p):
        p = self.norm(p)
        if isint(p):
            if ival(p) != 0:
                raise Contradiction()
            return
        c, d = parts(p)
        best = None
        for m, k in d.items():
            if len(m) == 1 and k in (1, -1):
                a = m[0]
                if a.op in ("k",):
                    pass
                rhs = scale(sub(p, scale(a, k)), -k)
                if contains(rhs, a):
                    continue
                key = (rank(a), a.id)
                if best is None or key > best[0]:
                    best = (key, a, rhs)
        if best is None:
            self.ge = self.ge + tuple(x for x in (p, scale(p, -1)) if x not in self.ge)
            return
        _, a, rhs = best
        self.sub = dict(self.sub)
        tmp = Facts()
        tmp.sub = {a: rhs}
        turned = []
        for k, v in list(self.sub.items()):
            k2, v2 = tmp.norm(k), tmp.norm(v)
            if k2 is not v2 and (k2 is not k or v2 is not v) and contains(v2, k2):
                # would turn in on itself: the other way round
                del self.sub[k]
                turned.append(sub(k2, v2))
        self.sub[a] = rhs
        self.memo = {}
        self._renorm()
        for q in turned:
            self._eq(q)
        r = self.norm(a)
        if not isint(r) and not self.prove_ge(r):
            # numbers are not negative, nor is what this one is said to equal
            self._ge_add(r)

    def _renorm(self):
        for _ in range(10):
            changed = False
            # keep substitutions consistent: lhs atoms may themselves normalise
            for a, r in list(self.sub.items()):
                others = {k: v for k, v in self.sub.items() if k is not a}
                tmp = Facts()
                tmp.sub = others
                a2 = tmp.norm(a)
                r2 = tmp.norm(r)
                if a2 is not a:
                    self.sub = others
                    self.memo = {}
                    p = sub(a2, r2)
                    if isint(p):
                        if ival(p) != 0:
                            raise Contradiction()
                    else:
                        self._eq(p)
                    changed = True
                    break
                if r2 is not r and contains(r2, a):
                    # turned in on itself: the other way round
                    self.sub = others
                    self.memo = {}
                    self._eq(sub(a, r2))
                    changed = True
                    break
                if r2 is not r:
                    self.sub = dict(self.sub)
                    self.sub[a] = r2
                    self.memo = {}
            if not changed:
                break
        neq, ge, bools = self.neq, self.ge, self.bools
        self.neq, self.ge, self.bools = (), (), {}
        for p in neq:
            q = self.norm(p)
            if isint(q):
                if ival(q) == 0:
                    raise Contradiction()
            elif q not in self.neq:
                self.neq = self.neq + (q,)
        for p in ge:
            q = self.norm(p)
            if isint(q):
                if ival(q) < 0:
                    raise Contradiction()
            elif q not in self.ge:
                if self.prove_ge(sub(scale(q, -1), ONE)):
                    raise Contradiction()
                self.ge = self.ge + (q,)
        for p in self.neq:
            if distinct(p):
                continue
            for q in (p, scale(p, -1)):
                if q in self.ge:
                    self.ge = tuple(x for x in self.ge if x is not q) + (sub(q, ONE),)
                elif self.prove_ge(q) and self.prove_ge(scale(q, -1)):
                    raise Contradiction()
        for b, v in bools.items():
            q = self.norm(b)
            if q is TRUE or q is FALSE:
                if (q is TRUE) != v:
                    raise Contradiction()
            elif q in self.bools:
                if self.bools[q] != v:
                    raise Contradiction()
            elif q.op in ("eq0", "ge0", "and", "or", "not"):
                self.assume(q if v else neg(q))
            else:
                self.bools[q] = v
        # bounds that have come together
        for q in self.ge:
            c, d = parts(q)
            if len(d) == 1 and self.prove_ge(scale(q, -1)):
                n = len(self.sub)
                self._eq(q)
                if len(self.sub) != n:
                    return


def rank(a):
    """which atoms to eliminate first: higher goes"""
    if a.op in ("init", "fresh", "typeid", "sizeof"):
        return 0
    if a.op == "k":
        return 1
    return 2


def distinct(p):
    """p = x - y where x and y are values that can never be equal"""
    c, d = parts(p)
    if c != 0 or len(d) != 2:
        return False
    (m1, k1), (m2, k2) = d.items()
    if k1 + k2 != 0 or abs(k1) != 1 or len(m1) != 1 or len(m2) != 1:
        return False
    a, b = m1[0], m2[0]
    if a.op == "new" and b.op == "new" and not a.ksub and not b.ksub:
        return True
    return False


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "lin":
        out = []
        for m, k in a[1]:
            x = "*".join(s(y) for y in m)
            out.append(x if k == 1 else f"{k}*{x}")
        if a[0] or not out:
            out.append(str(a[0]))
        return "(" + "+".join(out) + ")" if len(out) > 1 else out[0]
    if op in ("init", "fresh"):
        return str(a[0]) if op == "init" else f"${a[0]}"
    if op == "fld":
        return f"{s(a[0])}.{a[1]}"
    if op == "at":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "deref":
        return f"*{s(a[0])}"
    if op == "S":
        n = str(a[0]).split("::")[-1]
        return f"{n}{'::' + a[1] if a[1] else ''}{{{', '.join(f'{n}:{s(x)}' for n, x in a[2])}}}"
    if op == "U":
        return f"{s(a[0])}{{{', '.join(f'{n}:={s(x)}' for n, x in a[1])}}}"
    if op == "ptr":
        return f"&[{s(a[0])}+{s(a[1])}]"
    if op == "eq0":
        return f"{s(a[0])}==0"
    if op == "ge0":
        return f"{s(a[0])}>=0"
    if op == "not":
        return f"!({s(a[0])})"
    return f"{op}({', '.join(s(x) for x in a)})"
