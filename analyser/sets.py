"""Reasoning about sequences as sets of ids: what loops established about each
element, instantiated at the elements a goal talks about, and the effect of a loop
that adds to or removes from a sequence, by induction over its iterations."""
from terms import *
from spec import *
import engine
from engine import LOOPS, seqlen

BV = mk("init", "?j")


class Seq:
    """a sequence term and how to read an element's id"""

    def __init__(self, term, key=None):
        self.t, self.key = term, key

    def len(self):
        return seqlen(self.t)

    def raw(self, j):
        if self.t.op == "rawseq":
            b, o, n, esz = self.t.a
            return mk("mem", b, add(o, mul(j, esz)))
        return mk("at", self.t, j)

    def elem(self, j):
        x = self.raw(j)
        return getf(x, self.key) if self.key else x

    def has(self, x):
        return mk("pred", "found", self.t, x)

    def ix(self, x):
        return mk("ix", self.t, x)

    def within(self, j):
        return band(ge0(j), lt(j, self.len()))

    def index(self, a, norm):
        """j when a is an element's id"""
        if self.key:
            if a.op != "fld" or a.a[1] != self.key:
                return None
            a = a.a[0]
        if self.t.op == "rawseq":
            b, o, n, esz = self.t.a
            if a.op == "mem" and a.a[0] is norm(b):
                d = sub(a.a[1], norm(o))
                return engine.exact(d, [], ival(norm(esz)))
            return None
        if a.op == "at" and norm(a.a[0]) is norm(self.t):
            return a.a[1]
        return None


def atoms(st):
    out = set()
    fs = st.facts
    for b in fs.bools:
        out |= atoms_in(b)
    for x in fs.ge + fs.neq:
        out |= atoms_in(x)
    for k, v in fs.sub.items():
        out |= atoms_in(k)
        out |= atoms_in(v)
    return out


def everyiter(evs, m, cands):
    """what is known of iteration j of each loop of the list, for each candidate j"""
    out = []
    for e in evs:
        if e[0] != "loop":
            continue
        rec = e[1]
        kt = mk("k", rec.uid, *rec.ks)
        n = subst(e[2], m) if isinstance(e[2], T) else subst(kt, m)
        for j in cands:
            m2 = dict(m)
            m2[kt] = j
            # nested symbols of the loop's own iterations
            alts = []
            for v in rec.variants:
                m3 = dict(m2)
                k2 = v["st"].norm(kt)
                if k2.op == "k" and k2.a[0] == rec.uid:
                    m3[k2] = j
                fs = [subst(f, m3) for f in v["facts"]]
                fs += everyiter(v["ev"], m3, cands)
                alts.append(fs)
            outside = bor(neg(ge0(j)), neg(lt(j, n)))
            # what all kinds of iteration have in common, then the alternatives
            common = [f for f in alts[0] if all(f in a for a in alts[1:])] if alts else []
            out += [bor(outside, f) for f in common]
            out.append(bor(outside, bor(*[band(*[f for f in a if f not in common]) for a in alts])))
    return out


class Sets:
    def __init__(self, seqs, extra=()):
        self.seqs = list(seqs)
        self.extra = list(extra)    # index terms of interest

    def close(self, st, rounds=3):
        """assumes everything the loops say about the elements in play"""
        done = set()
        evs = [e for e in st.events() if e[0] == "loop"]
        for _ in range(rounds):
            new = []
            js = set(self.extra)
            at = atoms(st)
            for s in self.seqs:
                for a in at:
                    j = s.index(a, st.norm)
                    if j is not None and not any(x.op == "init" and x is BV for x in atoms_in(j)):
                        js.add(j)
                        if a not in done:
                            done.add(a)
                            new.append(bor(neg(s.within(j)), s.has(s.elem(j))))
                for b, v in list(st.facts.bools.items()):
                    if b.op == "pred" and b.a[0] == "found" and b.a[1] is st.norm(s.t) and v and (s, b) not in done:
                        done.add((s, b))
                        i = s.ix(b.a[2])
                        js.add(i)
                        new += [ge0(i), lt(i, s.len()), eq(s.elem(i), b.a[2])]
                    if b.op == "pred" and b.a[0] == "seqeq" and v:
                        for p in self.seqs:
                            if {st.norm(s.t), st.norm(p.t)} == {b.a[1], b.a[2]} and p is not s:
                                for j in js:
                                    if ("eq", j, b, s) not in done:
                                        done.add(("eq", j, b, s))
                                        new.append(bor(neg(s.within(j)), eq(s.elem(j), p.elem(j))))
            c = [j for j in sorted(js, key=lambda t: t.id) if ("it", j) not in done]
            done |= {("it", j) for j in c}
            new += everyiter(evs, {}, c)
            if not new:
                break
            for b in new:
                st.assume(b)
            st.facts.propagate()
        return st

    def refutes(self, st, *hyps, depth=3):
        """the hypotheses are impossible in st"""
        x = st.copy()
        try:
            for b in hyps:
                x.assume(b)
            x.facts.propagate()
            self.close(x)
            return self.split(x, depth)
        except Contradiction:
            return True

    def split(self, x, depth):
        """every way of settling the open alternatives is impossible"""
        try:
            x.facts.propagate()
            open_ = None
            for b, v in x.facts.bools.items():
                if (b.op == "or" and v) or (b.op == "and" and not v):
                    if v and any(x.decide(y) is True for y in b.a) or not v and any(x.decide(y) is False for y in b.a):
                        continue
                    left = [y for y in b.a if x.decide(y) is None]
                    if open_ is None or len(left) < len(open_[0]):
                        open_ = (left, v)
        except Contradiction:
            return True
        if open_ is None or depth == 0:
            return False
        for y in open_[0]:
            z = x.copy()
            try:
                z.assume(y if open_[1] else neg(y))
                z.facts.propagate()
                self.close(z)
            except Contradiction:
                continue
            if not self.split(z, depth - 1):
                return False
        return True

    def proves(self, st, goal):
        return st.known(goal) is True or self.refutes(st, neg(goal))


# ---------------------------------------------------------------- changing sets

class Unknown(Exception):
    pass


def contains(st, v, key, x, base=None):
    """condition under which x is the id of an element of v, in terms of base"""
    v = st.norm(v)
    if v is base:
        return mk("pred", "found", v, x)
    kid = lambda e: st.norm(getf(e, key) if key else e)
    if v.op == "vempty":
        return FALSE
    if v.op == "vlit":
        return bor(*[eq(kid(e), x) for e in v.a])
    if v.op == "vpush":
        return bor(contains(st, v.a[0], key, x, base), eq(kid(v.a[1]), x))
    if v.op == "vins":
        return bor(contains(st, v.a[0], key, x, base), eq(kid(v.a[2]), x))
    if v.op == "vsort":
        return contains(st, v.a[0], key, x, base)
    if v.op in ("vrem", "vswrm"):
        # without repeated ids, removing an element removes its id
        b = v.a[0]
        i = v.a[1]
        return band(contains(st, b, key, x, base), neg(eq(kid(Seq(b).raw(i)), x)))
    if v.op in ("vpop", "vset", "vrep"):
        raise Unknown(f"the effect of {v.op} on a set")
    if v.op == "phi":
        return loop_effect(st, v, key, x, base)
    return mk("pred", "found", v, x)


def ex(n, c, x):
    """x is c(j) for some j < n, in either direction"""
    c = item(c)
    if ival(n) is not None and ival(n) <= 64:
        return bor(*[eq(item(subst(c, {BV: I(j)})), x) for j in range(ival(n))])
    r = subst(c, {BV: sub(sub(n, ONE), BV)})
    c = min(c, r, key=lambda t: (len(atoms_in(t)), str(show(t))))
    return mk("pred", "ex", n, c, x)


def item(t):
    """elements of literals"""
    if t.op == "fld":
        return getf(item(t.a[0]), t.a[1])
    if t.op == "at" and t.a[0].op == "vlit" and ival(t.a[1]) is not None:
        return t.a[0].a[ival(t.a[1])]
    if t.op == "at":
        p = pushed(t.a[0])
        if p:
            return item(subst(p[1], {p[0]: t.a[1]}))
    return t


def pushed(v):
    """(k, e) when the loop that made v puts in one element e(k) per iteration, from none"""
    if v.op != "phi":
        return None
    rec = LOOPS.get(v.a[0])
    if rec is None or rec.v0.get(v.a[1]) is not mk("vempty") or len(rec.variants) != 1:
        return None
    w = rec.variants[0]["vals"].get(rec.locs[v.a[1]])
    if w is None or w.op != "vpush" or w.a[0] is not v:
        return None
    return mk("k", rec.uid, *rec.ks), w.a[1]


def length(st, t):
    """a length, following lists made by pushing one element per iteration"""
    for _ in range(4):
        t = st.norm(t)
        m = {x: pushed(x.a[0])[0] for x in atoms_in(t) if x.op == "len" and pushed(x.a[0])}
        if not m:
            return t
        t = subst(t, m)
    return t


def exlist(s, x):
    """x is the id of an element of s, as the condition a full pass yields"""
    return ex(s.len(), s.elem(BV), x)


def loop_effect(st, v, key, x, base=None):
    rec = LOOPS.get(v.a[0])
    loc = v.a[1]
    if rec is None or loc not in rec.v0:
        raise Unknown("a sequence of unknown origin")
    kt = mk("k", rec.uid, *rec.ks)
    root, path = rec.locs[loc]
    S0 = Seq(v, key)
    nexts, cand = [], []
    for var in rec.variants:
        b = var["st"]
        w = var["vals"].get((root, path), v)
        nexts.append(w)
        if w is v:
            continue
        if w.op in ("vpush", "vins") and w.a[0] is v:
            e = w.a[1] if w.op == "vpush" else w.a[2]
            cand.append(("add", getf(e, key) if key else e))
        elif w.op in ("vrem", "vswrm") and w.a[0] is v:
            y = S0.elem(w.a[1])
            for f in b.facts.list:
                if f.op == "eq0":
                    c, d = parts(f.a[0])
                    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and (y,) in d:
                        z = [m for m in d if m != (y,)][0]
                        if len(z) == 1 and v not in atoms_in(z[0]):
                            cand.append(("del", z[0]))
            if not any(k == "del" for k, _ in cand):
                raise Unknown("which element a loop removes")
        else:
            raise Unknown(f"the effect of {w.op} in a loop")
    if not cand:
        return contains(st, rec.v0[loc], key, x)
    kinds = {k for k, _ in cand}
    if len(kinds) != 1:
        raise Unknown("a loop that both adds and removes")
    adds = kinds.pop() == "add"
    X = mk("init", "?x")

    def holds(c, extra=()):
        """every iteration (under the extra facts) makes c a member, or no member, and nothing else"""
        for var, w in zip(rec.variants, nexts):
            b = var["st"].copy()
            sets = Sets([S0])
            try:
                for f in extra:
                    b.assume(f)
                b.facts.propagate()
            except Contradiction:
                continue
            w = b.norm(w)
            try:
                inn = contains(b, w, key, X, v)
            except Unknown:
                return False
            old = S0.has(X)
            # at the element itself
            if not sets.refutes(b, eq(X, c), neg(inn) if adds else inn):
                return False
            # elsewhere
            if not (sets.refutes(b, neg(eq(X, c)), inn, neg(old)) and sets.refutes(b, neg(eq(X, c)), neg(inn), old)):
                return False
            # no id twice
            if w.op in ("vpush", "vins") and w.a[0] is v:
                e = w.a[1] if w.op == "vpush" else w.a[2]
                if not sets.refutes(b, S0.has(getf(e, key) if key else e)):
                    raise Unknown("an id may be put in twice")
        return True

    def result(e):
        before = contains(st, rec.v0[loc], key, x, base)
        return bor(before, e) if adds else band(before, neg(e))

    z = Sets([], [sub(kt, ONE)]).close(st.copy())
    z.facts.propagate()
    n = length(z, kt)
    for _, c in cand:
        if holds(c):
            return result(ex(n, subst(c, {kt: BV}), x))
    if ival(n) is not None and ival(n) <= 64:
        # a list of known length: one element after the other
        each = []
        for i in range(ival(n)):
            for _, c in cand:
                if holds(c, [eq(kt, I(i))]):
                    each.append(eq(subst(c, {kt: I(i)}), x))
                    break
            else:
                break
        if len(each) == ival(n):
            return result(bor(*each))
    raise Unknown("the loop's effect on the set is not adding or removing one source element per iteration")


def dupfree(st, v, key=None):
    """no id is in v twice"""
    v = st.norm(v)
    if v.op == "vempty":
        return True
    kid = lambda e: getf(e, key) if key else e
    if v.op == "vlit":
        return len(v.a) < 2 or all(Sets([]).refutes(st, eq(kid(a), kid(b))) for i, a in enumerate(v.a) for b in v.a[:i])
    if v.op == "vsort":
        return dupfree(st, v.a[0], key)
    if v.op in ("vpush", "vins"):
        e = v.a[1] if v.op == "vpush" else v.a[2]
        return dupfree(st, v.a[0], key) and Sets([]).refutes(st, contains(st, v.a[0], key, kid(e)))
    if v.op == "phi":
        rec = LOOPS.get(v.a[0])
        if rec is None or v.a[1] not in rec.v0 or not dupfree(st, rec.v0[v.a[1]], key):
            return False
        for var in rec.variants:
            w = var["vals"].get(rec.locs[v.a[1]], v)
            if w is v:
                continue
            if w.op not in ("vpush", "vins") or w.a[0] is not v:
                return False
            e = w.a[1] if w.op == "vpush" else w.a[2]
            if not Sets([Seq(v, key)]).refutes(var["st"], Seq(v, key).has(kid(e))):
                return False
        return True
    return False
