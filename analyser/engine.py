"""Interprocedural guarded-effect analysis of MIR.

Each entry function is analysed with its crate callees inlined. The abstract
state maps places to value numbers (terms.py), keeps a log of effects on raw
memory, and a fact base; states are partitioned by the branch facts that lead to
them. Loops are summarised: one pass over the body from an arbitrary iteration,
with every place the body changes replaced by a loop value, induction values
recognised, and the per-iteration effects kept so that later reads can be
answered for an arbitrary element. Nothing is executed and no solver is used.
"""
import itertools
import json
import os
import sys
import time

from terms import *
import terms

sys.setrecursionlimit(20000)


class Fork(Exception):
    """a decision is needed: alternatives, each a list of boolean terms"""

    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    def __init__(self, kind, why=None):
        self.kind, self.why = kind, why


class Limit(Exception):
    pass


class Node:
    __slots__ = ("e", "p", "n")

    def __init__(self, e, p):
        self.e, self.p = e, p
        self.n = 0 if p is None else p.n + 1

    def __repr__(self):
        return f"node{self.n}"


class Frame:
    __slots__ = ("uid", "unit", "bb", "si", "dst", "ret", "mono", "seen")

    def __init__(self):
        self.seen = ()

    def copy(self):
        f = Frame()
        f.uid, f.unit, f.bb, f.si, f.dst, f.ret, f.seen = self.uid, self.unit, self.bb, self.si, self.dst, self.ret, self.seen
        return f


class State:
    __slots__ = ("frames", "mem", "log", "facts", "ev", "loops", "kind", "why", "nforks", "trace")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.log = self.log
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.loops = self.loops
        s.kind = self.kind
        s.why = self.why
        s.nforks = self.nforks
        s.trace = self.trace
        return s

    def ks(self):
        return tuple(l[3] for l in self.loops)

    def events(self, kind=None):
        out = []
        n = self.ev
        while n is not None:
            if kind is None or n.e[0] == kind:
                out.append(n.e)
            n = n.p
        out.reverse()
        return out

    def logs(self, until=None):
        out = []
        n = self.log
        while n is not None and n is not until:
            out.append(n.e)
            n = n.p
        out.reverse()
        return out

    # decisions
    def decide(self, b):
        r = self.facts.decide(b)
        if r is None:
            raise Fork([[b], [neg(b)]])
        return r

    def known(self, b):
        return self.facts.decide(b)

    def norm(self, t):
        return self.facts.norm(t)

    def assume(self, *bs):
        for b in bs:
            self.facts.assume(b)


class LoopRec:
    def __init__(self, uid, unit, bb, at, k, frame_uid):
        self.uid, self.unit, self.bb, self.at, self.k = uid, unit, bb, at, k
        self.fid = frame_uid
        self.v0 = {}
        self.seqpat = {}
        self.mempat = None
        self.variants = []
        self.prelog = None
        self.ind = {}


LOOPS = {}


class Prog:
    def __init__(self, facts):
        self._self = None
        self.f = facts
        self.tys = facts["tys"]
        self.units = facts["units"]
        self.adts = {a["n"]: a for a in facts["adts"]}
        self.fns = {}
        for fn in facts["fns"]:
            self.fns.setdefault(fn["n"], []).append(fn)
        self._cfg = {}

    def selfty(self, unit):
        """the type whose method a unit is (last path component), or None"""
        if self._self is None:
            self._self = {}
            for l in self.fns.values():
                for f in l:
                    if f.get("self") is not None:
                        n = self.tys[f["self"]].get("n")
                        if n:
                            self._self[f["n"]] = n.split("::")[-1]
        return self._self.get(self.units[unit]["n"])

    def ty(self, i):
        return self.tys[i]

    def find(self, suffix, pred=None):
        r = []
        for n, l in self.fns.items():
            if n == suffix or n.endswith("::" + suffix):
                for f in l:
                    if "i" in f and (pred is None or pred(f)):
                        r.append(f)
        return r

    def loops(self, uid):
        """natural loops of a unit's body: header -> set of blocks"""
        if uid in self._cfg:
            return self._cfg[uid]
        body = self.units[uid]["body"]
        bl = body["blocks"]
        succ = [[] for _ in bl]
        for i, b in enumerate(bl):
            t = b["t"]
            k = t["k"]
            if k == "goto":
                succ[i] = [t["to"]]
            elif k == "switch":
                succ[i] = [x[1] for x in t["ts"]] + [t["else"]]
            elif k in ("drop", "call", "assert"):
                succ[i] = [t["to"]] if t.get("to") is not None else []
        # dominators, iterative, from 0
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        pred = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                pred[m].append(n)
        dom = {n: set(order) for n in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                d = None
                for p in pred[n]:
                    d = set(dom[p]) if d is None else d & dom[p]
                d = (d or set()) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in order:
            for m in succ[n]:
                if m in dom[n]:
                    body_ = loops.setdefault(m, {m})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body_:
                            body_.add(x)
                            w.extend(pred[x])
        self._cfg[uid] = loops
        return loops


class Path:
    def __init__(self, st, ret):
        self.st, self.ret, self.kind, self.why = st, ret, st.kind, st.why


def short(n):
    return n


class Engine:
    def __init__(self, prog, opaque=(), maxpaths=6000, budget=240):
        self.p = prog
        self.uid = itertools.count(1)
        self.tymap = ()
        self.otypes = frozenset()  # types whose methods are not looked into
        self.sorted = set()       # sequences known to be in strictly ascending order
        self.opaque = {}          # name -> handler or None
        self.handlers = {}        # name -> what a function means
        self.unroll = 0           # how often a loop is passed through before it is summarised
        self.onheader = None
        self.onassert = None
        self.onaccess = None
        self.pending = []         # what to look at once the loops around it are summarised
        for o in opaque:
            self.opaque[o] = None
        self.maxpaths = maxpaths
        self.deadline = time.time() + budget
        self.inlined = set()
        self.sites = set()
        self.unmodelled = set()
        import models
        self.models = models.MODELS
        self.prefix_models = models.PREFIX
        self.allow = models.ALLOW
        terms.REMAKE.update({
            "at": lambda v, i: mk("at", v, i) if v.op == "at" or v.op in ("init", "fld") else self._reat(v, i),
            "len": seqlen,
        })

    def _reat(self, v, i):
        r = simple_at(v, i)
        return r if r is not None else mk("at", v, i)

    def tyname(self, s):
        """type string under the current names of the entry's type parameters"""
        for k, v in self.tymap:
            s = k.sub(v, s)
        return s

    def fresh(self, st, name):
        return mk("fresh", f"{name}#{next(self.uid)}", *st.ks())

    # ------------------------------------------------------------ entry
    def start(self, unit, args, facts=(), mem=None):
        st = State()
        st.frames, st.mem, st.log, st.facts = [], {}, None, Facts()
        st.ev, st.loops, st.kind, st.why, st.nforks, st.trace = None, (), None, None, 0, None
        if mem:
            st.mem.update(mem)
        for f in facts:
            st.assume(f)
        fr = Frame()
        fr.uid, fr.unit, fr.bb, fr.si, fr.dst, fr.ret = next(self.uid), unit, 0, 0, None, None
        st.frames.append(fr)
        for i, a in enumerate(args):
            st.mem[("L", fr.uid, i + 1)] = a
        return st

    def run(self, unit, args, facts=(), mem=None):
        st = self.start(unit, args, facts, mem)
        ruid = st.frames[0].uid
        out = []
        b, e, done = self.explore([st])
        assert not b and not e
        for s in done:
            ret = s.mem.get(("L", ruid, 0)) if s.kind == "return" else None
            if ret is not None:
                ret = s.norm(ret)
            out.append(Path(s, ret))
        return out

    def explore(self, work):
        work = list(work)
        backs, exits, done = [], [], []
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.maxpaths or time.time() > self.deadline:
                raise Limit(f"more than {n} states")
            r = self.runblock(st)
            for s in r:
                if s.kind is None:
                    work.append(s)
                elif s.kind == "back":
                    backs.append(s)
                elif s.kind == "exit":
                    exits.append(s)
                elif s.kind == "loop":
                    s.kind = None
                    ex, dn = self.do_loop(s)
                    done.extend(dn)
                    for x in ex:
                        x.kind = None
                        self.transfer(x, x.frames[-1].bb)
                        if x.kind == "loop" or x.kind is None:
                            if x.kind == "loop":
                                # a loop directly following: handle on next turn
                                x.kind = "loop"
                                work_loop = [x]
                                while work_loop:
                                    y = work_loop.pop()
                                    y.kind = None
                                    ex2, dn2 = self.do_loop(y)
                                    done.extend(dn2)
                                    for z in ex2:
                                        z.kind = None
                                        self.transfer(z, z.frames[-1].bb)
                                        if z.kind == "loop":
                                            work_loop.append(z)
                                        elif z.kind is None:
                                            work.append(z)
                                        elif z.kind == "back":
                                            backs.append(z)
                                        else:
                                            exits.append(z)
                            else:
                                work.append(x)
                        elif x.kind == "back":
                            backs.append(x)
                        else:
                            exits.append(x)
                else:
                    done.append(s)
        return backs, exits, done

    def alts(self, st, f):
        """children of st under the alternatives of a Fork"""
        out = []
        wh = self.where(st) if st.frames else None
        for alt in f.alts:
            s = st.copy()
            try:
                for b in alt:
                    s.facts.assume(b)
            except Contradiction:
                continue
            s.nforks += 1
            s.trace = Node((wh, tuple(alt)), s.trace)
            if s.nforks > 400:
                raise Limit("too many decisions on one path")
            out.append(s)
        return out

    # ------------------------------------------------------------ blocks
    def runblock(self, st):
        """runs until control leaves the block or a decision splits the state"""
        while True:
            fr = st.frames[-1]
            body = self.p.units[fr.unit]["body"]
            blk = body["blocks"][fr.bb]
            ss = blk["s"]
            try:
                while fr.si < len(ss):
                    s = ss[fr.si]
                    self.stmt(st, fr, s)
                    fr.si += 1
            except Fork as f:
                return self.alts(st, f)
            except Contradiction:
                return []
            except Stop as e:
                st.kind, st.why = e.kind, e.why
                return [st]
            t = blk["t"]
            if t["k"] == "call":
                snap = st.copy()
            else:
                snap = None
            try:
                self.term(st, fr, t)
            except Fork as f:
                return self.alts(snap or st, f)
            except Contradiction:
                return []
            except Stop as e:
                st.kind, st.why = e.kind, e.why
                return [st]
            if st.kind is not None:
                return [st]

    def transfer(self, st, bb):
        fr = st.frames[-1]
        fr.bb, fr.si = bb, 0
        if st.loops and st.loops[-1][0] == fr.uid:
            l = st.loops[-1]
            if bb == l[1]:
                st.kind = "back"
                return
            if bb not in l[2]:
                st.kind = "exit"
                return
        if bb in self.p.loops(fr.unit):
            self.header(st, bb)

    def header(self, st, bb):
        """a loop is reached: passed through once more while `unroll` allows, else summarised"""
        fr = st.frames[-1]
        if fr.seen.count(bb) < self.unroll:
            fr.seen += (bb,)
            if self.onheader:
                self.onheader(st)
            return
        st.kind = "loop"

    def where(self, st):
        fr = st.frames[-1]
        u = self.p.units[fr.unit]
        bl = u["body"]["blocks"][fr.bb]
        ss = bl["s"]
        at = ss[fr.si]["at"] if fr.si < len(ss) else bl["t"].get("at")
        # nearest frame inside the analysed crate
        for f in reversed(st.frames):
            uu = self.p.units[f.unit]
            if uu["local"]:
                if f is not fr:
                    b2 = uu["body"]["blocks"][f.bb]
                    at = b2["t"].get("at")
                return f"{uu['n']} ({at})"
        return at

    # ------------------------------------------------------------ places
    def tsize(self, i):
        t = self.peel(i)
        if "sz" in t:
            return I(t["sz"])
        return mk("sizeof", self.tyname(t["s"]))

    def peel(self, i):
        """the type without wrappers that leave size and alignment alone"""
        t = self.p.tys[i]
        while t.get("n") in ("std::mem::ManuallyDrop", "std::mem::MaybeUninit") and t.get("a"):
            t = self.p.tys[[x for x in t["a"] if isinstance(x, int)][0]]
        return t

    def talign(self, i):
        t = self.peel(i)
        if "al" in t:
            return I(t["al"])
        return mk("alignof", self.tyname(t["s"]))

    def deref(self, st, v, kind="r", ty=None):
        v = st.norm(v)
        if v.op == "ref":
            return v.a[0], list(v.a[1])
        if v.op == "ptr":
            base = v.a[0]
            if base.op == "rbase":
                # a pointer made from a reference to an ordinary place
                if v.a[1] is ZERO:
                    return base.a[0], list(base.a[1])
                esz = self.tsize(ty) if ty is not None else ONE
                idx = tdiv(v.a[1], esz)
                return base.a[0], index(base.a[1], idx)
            return ("R", base, v.a[1]), []
        if v.op == "fat":
            return ("RS",) + v.a, []
        if kind == "p":
            tt = self.p.tys[ty] if ty is not None else {}
            if tt.get("k") == "slice":
                return ("D", v), []
            return ("R", v, ZERO), []
        return ("D", v), []

    def place(self, st, fr, p):
        root, proj = ("L", fr.uid, p["l"]), []
        for e in p["p"]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, proj)
                root, proj = self.deref(st, v, e[1], e[2])
            elif k == "f":
                proj.append(("f", e[1]))
            elif k == "i":
                proj = index(proj, self.read(st, ("L", fr.uid, e[1]), []))
            elif k == "ci":
                off = I(e[1])
                if e[2]:
                    off = sub(seqlen(self.read(st, root, proj)), off)
                proj = index(proj, off)
            elif k == "v":
                proj.append(("v", e[1]))
            else:
                raise Limit(f"projection {e}")
        return root, proj

    def base_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "P":
                v = mk("init", root[1])
            elif root[0] == "D":
                v = mk("deref", root[1])
            else:
                v = mk("uninit", *root[1:])
        return v

    def read(self, st, root, proj):
        proj = list(proj)
        if root[0] == "R":
            if self.onaccess:
                self.onaccess(st, root[1], root[2], None)
            v = self.load(st, root[1], root[2])
        elif root[0] == "RS":
            _, base, off, n, esz = root
            if proj and proj[0][0] == "ix":
                if self.onaccess:
                    self.onaccess(st, base, add(off, mul(proj[0][1], esz)), None)
                v = self.load(st, base, add(off, mul(proj[0][1], esz)))
                proj = proj[1:]
            else:
                v = mk("rawseq", base, off, n, esz)
        else:
            v = self.base_value(st, root)
        return self.project(st, v, proj)

    def project(self, st, v, proj):
        var = None
        for e in proj:
            if e[0] == "v":
                var = e[1]
                continue
            if e[0] == "f":
                if var is not None:
                    v = self.vfield(st, v, var, e[1])
                else:
                    v = getf(v, e[1])
                    if v.op == "fld" and v.a[0].op in ("at", "phi"):
                        v = st.norm(v)
                var = None
            elif e[0] == "sub":
                v = mk("vsub", v, e[1], e[2])
                var = None
            else:
                v = self.at(st, v, e[1])
                var = None
        return v

    def vfield(self, st, v, var, f):
        if v.op == "S":
            if v.a[1] == var or v.a[1] is None:
                return getf(v, f)
            return mk("badvariant", v, var, f)
        return getf(v, f"{var}.{f}")

    def write(self, st, root, proj, val):
        proj = list(proj)
        if root[0] == "R":
            if self.onaccess:
                self.onaccess(st, root[1], root[2], None)
            if proj:
                val = self.upd(st, self.load(st, root[1], root[2]), proj, val)
            self.store(st, root[1], root[2], val)
            return
        if root[0] == "RS":
            _, base, off, n, esz = root
            assert proj and proj[0][0] == "ix", (root, proj)
            o = add(off, mul(proj[0][1], esz))
            if self.onaccess:
                self.onaccess(st, base, o, None)
            if len(proj) > 1:
                val = self.upd(st, self.load(st, base, o), proj[1:], val)
            self.store(st, base, o, val)
            return
        if not proj:
            st.mem[root] = val
        else:
            st.mem[root] = self.upd(st, self.base_value(st, root), proj, val)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == "sub":
            raise Limit("write to a whole subslice")
        if e[0] == "v":
            var = e[1]
            if len(proj) == 1:
                return val
            f = proj[1][1]
            if v.op == "S":
                if v.a[1] is None:
                    v = mk("S", v.a[0], var, v.a[2])
                return setf(v, f, self.upd(st, getf(v, f), proj[2:], val))
            n = f"{var}.{f}"
            return setf(v, n, self.upd(st, getf(v, n), proj[2:], val))
        if e[0] == "f":
            if v.op == "uninit":
                v = S("tup", None, [])
            return setf(v, e[1], self.upd(st, getf(v, e[1]) if len(proj) > 1 else ZERO, proj[1:], val))
        i = e[1]
        inner = self.upd(st, self.at(st, v, i), proj[1:], val) if len(proj) > 1 else val
        return vset(v, i, inner)

    # ------------------------------------------------------------ sequences
    def at(self, st, v, i):
        while True:
            v = st.norm(v)
            i = st.norm(i)
            op = v.op
            if op == "vset":
                if st.decide(eq(v.a[1], i)):
                    return v.a[2]
                v = v.a[0]
            elif op == "vpush":
                if st.decide(eq(i, seqlen(v.a[0]))):
                    return v.a[1]
                v = v.a[0]
            elif op == "vpop":
                v = v.a[0]
            elif op == "vins":
                j = v.a[1]
                if st.decide(lt(i, j)):
                    v = v.a[0]
                elif st.decide(eq(i, j)):
                    return v.a[2]
                else:
                    v, i = v.a[0], sub(i, ONE)
            elif op == "vrem":
                j = v.a[1]
                if st.decide(lt(i, j)):
                    v = v.a[0]
                else:
                    v, i = v.a[0], add(i, ONE)
            elif op == "vswrm":
                j = v.a[1]
                if st.decide(eq(i, j)):
                    i = sub(seqlen(v.a[0]), ONE)
                v = v.a[0]
            elif op == "vsub":
                v, i = v.a[0], add(v.a[1], i)
            elif op == "vlit":
                n = ival(i)
                if n is not None:
                    if n < len(v.a):
                        return v.a[n]
                    return mk("oob", v, i)
                for j in range(len(v.a)):
                    if st.decide(eq(i, I(j))):
                        return v.a[j]
                return mk("oob", v, i)
            elif op == "vrep":
                return v.a[0]
            elif op == "vempty":
                return mk("oob", v, i)
            elif op == "rawseq":
                base, off, n, esz = v.a
                return self.load(st, base, add(off, mul(i, esz)))
            elif op == "phi":
                r = self.phi_at(st, v, i)
                if r is None:
                    return mk("at", v, i)
                if isinstance(r, tuple):
                    v, i = r
                    continue
                return r
            else:
                return mk("at", v, i)

    def phi_at(self, st, v, j):
        rec = LOOPS.get(v.a[0])
        loc = v.a[1]
        if rec is None or loc not in rec.v0:
            return None
        v0 = rec.v0[loc]
        pat = rec.seqpat.get(loc)
        if pat is None:
            return None
        ents = [p for p in pat if p is not None]
        if not ents:
            return (v0, j)
        if ents[0][0] == "push":
            n0 = seqlen(v0)
            if st.decide(lt(j, n0)):
                return (v0, j)
            kt = mk("k", rec.uid, *rec.ks)
            r = st.norm(sub(j, n0))
            n = self.pick(st, rec, [[subst(f, {kt: r}) for f in var["facts"]] for var in rec.variants])
            return subst(pat[n][1], {kt: r})
        idx = ents[0][1]
        for e in ents:
            if e[1] is not idx:
                return None
        kt = mk("k", rec.uid, *rec.ks)
        r = unify(idx, j, kt)
        if r is None:
            return None
        if not self.inrange(st, r, kt):
            return (v0, j)
        alts = []
        for n, var in enumerate(rec.variants):
            fs = [subst(f, {kt: r}) for f in var["facts"]]
            alts.append(fs)
        n = self.pick(st, rec, alts)
        p = pat[n]
        if p is None:
            return (v0, j)
        return subst(p[2], {kt: r})

    def inrange(self, st, r, kt):
        return st.decide(band(ge0(r), lt(r, kt)))

    def pick(self, st, rec, alts):
        """which variant of an iteration was taken"""
        if len(alts) == 1:
            return 0
        ok = []
        for n, fs in enumerate(alts):
            d = [st.known(f) for f in fs]
            if all(x is True for x in d):
                return n
            if False not in d:
                ok.append(n)
        if not ok:
            raise Contradiction()
        if len(ok) == 1 and len(alts) > 1:
            # the only variant compatible with the facts
            for f in alts[ok[0]]:
                st.assume(f)
            return ok[0]
        raise Fork([alts[n] for n in ok])

    # ------------------------------------------------------------ raw memory
    def samebase(self, st, a, b):
        if a is b:
            return True
        if a.op == b.op == "at" and a.a[0] is b.a[0]:
            return st.decide(eq(a.a[1], b.a[1]))
        if a.op == b.op == "new" and a.a[0] == b.a[0] and a is not b:
            r = TRUE
            for x, y in zip(a.a[1:], b.a[1:]):
                r = band(r, eq(x, y))
            return st.decide(r)
        if a.op == b.op == "fld" and a.a[1] == b.a[1] and a.a[0] is not b.a[0]:
            return self.samebase(st, a.a[0], b.a[0])
        return False

    def load(self, st, base, off, node="cur"):
        if base.op == "vbuf":
            return self.at(st, base.a[0], tdiv(off, I(base.a[1])) if isinstance(base.a[1], int) else mk("div", off, base.a[1]))
        if base.op == "rbase":
            root, proj = self.deref(st, mk("ptr", base, off), "p", None)
            return self.read(st, root, proj)
        if node == "cur":
            node = st.log
        base, off = st.norm(base), st.norm(off)
        first = node
        while node is not None:
            e = node.e
            k = e[0]
            if k == "w":
                if self.samebase(st, st.norm(e[1]), base):
                    if st.decide(eq(st.norm(e[2]), off)):
                        return e[3]
            elif k == "bit":
                if self.samebase(st, st.norm(e[1]), base):
                    return mk("word", base, off, first)
            elif k == "fill":
                if self.samebase(st, st.norm(e[1]), base):
                    if st.decide(band(le(e[2], off), lt(off, add(e[2], e[3])))):
                        b = e[4]
                        n = ival(b)
                        if n == 0:
                            return ZERO
                        if n == 255:
                            return I(2**32 - 1)
                        return mk("filled", b)
            elif k == "cp":
                if self.samebase(st, st.norm(e[1]), base):
                    if st.decide(band(le(e[2], off), lt(off, add(e[2], e[5])))):
                        base, off = st.norm(e[3]), st.norm(add(sub(off, e[2]), e[4]))
                        first = node.p
            elif k == "alloc":
                if self.samebase(st, st.norm(e[1]), base):
                    if e[2]:
                        return ZERO
                    return mk("uninit", base, off)
            elif k == "free":
                if first is st.log and self.samebase(st, st.norm(e[1]), base):
                    self.bad(st, "use-after-free", base)
            elif k == "loop":
                r = self.loop_load(st, node, base, off, None)
                if r == "skip":
                    pass
                elif r is None:
                    return mk("lmem", e[1].uid, base, off, *e[2])
                else:
                    return r
            node = node.p
        return mk("mem", base, off)

    def loop_rel(self, st, rec, base, entries):
        """entries of one iteration that may concern base -> list of (entry, k or 'all')"""
        kt = mk("k", rec.uid, *rec.ks)
        out = []
        for e in entries:
            if e[0] == "loop":
                sub_ = [x for v in e[1].variants for x in v["log"]]
                r = self.loop_rel(st, e[1], base, sub_)
                if r:
                    out.append((e, "all"))
                continue
            b = e[1]
            if kt in b.ksub:
                u = unify(b, base, kt)
                if u is not None:
                    out.append((e, u))
            elif st.norm(b) is base:
                out.append((e, "all"))
        return out

    def loop_load(self, st, node, base, off, bit):
        rec = node.e[1]
        kt = mk("k", rec.uid, *rec.ks)
        count = node.e[2][-1] if node.e[2] else kt
        if rec.mempat is None:
            return None
        rel = []
        for var in rec.mempat:
            rel.append(self.loop_rel(st, rec, base, var["log"]))
        if not any(rel):
            return "skip"
        us = {u for r in rel for _, u in r}
        if us == {"all"}:
            # same base in every iteration: try to separate by offset
            cand = None
            for r in rel:
                for e, _ in r:
                    if e[0] not in ("w", "bit"):
                        return None
                    tgt = off if e[0] == "w" else bit
                    if tgt is None:
                        return None
                    u = unify(e[2], tgt, kt) if kt in e[2].ksub else None
                    if u is None:
                        if kt not in e[2].ksub and st.known(eq(e[2], tgt)) is False:
                            continue
                        return None
                    if cand is not None and cand is not u:
                        return None
                    cand = u
            if cand is None:
                return "skip"
            u = cand
        elif len(us) == 1:
            u = us.pop()
        else:
            return None
        if not self.inrange(st, u, kt):
            return "skip"
        alts = [[subst(f, {kt: u}) for f in v["facts"]] for v in rec.mempat]
        n = self.pick(st, rec, alts)
        # this iteration's log on top of what was there before the loop
        top = node.p
        for e in rec.mempat[n]["log"]:
            if e[0] == "loop":
                top = Node(("loop", e[1], tuple(subst(x, {kt: u}) for x in e[2])), top)
            else:
                top = Node((e[0],) + tuple(subst(x, {kt: u}) if isinstance(x, T) else x for x in e[1:]), top)
        if bit is not None:
            return self.bitload(st, base, bit, top)
        return self.load(st, base, off, top)

    def bad(self, st, what, *args):
        st.ev = Node(("bad", what) + args + (self.where(st),), st.ev)

    def store(self, st, base, off, val):
        if base.op == "rbase":
            root, proj = self.deref(st, mk("ptr", base, off), "p", None)
            self.write(st, root, proj, val)
            return
        base, off = st.norm(base), st.norm(off)
        self.check_live(st, base)
        if val.op in ("bset", "bclr", "btog"):
            w, m = val.a
            if w.op in ("word", "mem", "lmem", "uninit") or isint(w):
                cur = self.load(st, base, off)
                if cur is w:
                    st.log = Node(("bit", base, add(scale(off, 8), m), val.op), st.log)
                    return
                if w.op == "word" and w.a[0] is base and w.a[1] is off and self.untouched(st, base, w.a[2]):
                    st.log = Node(("bit", base, add(scale(off, 8), m), val.op), st.log)
                    return
        st.log = Node(("w", base, off, val), st.log)

    def untouched(self, st, base, node):
        n = st.log
        while n is not None and n is not node:
            e = n.e
            if e[0] == "loop" or e[1] is base:
                return False
            n = n.p
        return True

    def check_live(self, st, base):
        n = st.log
        while n is not None:
            e = n.e
            if e[0] == "free" and e[1] is base:
                self.bad(st, "use-after-free", base)
                return
            if e[0] == "alloc" and e[1] is base:
                return
            n = n.p

    def bitload(self, st, base, ba, node="cur"):
        """boolean: bit number ba of base"""
        if node == "cur":
            node = st.log
        base, ba = st.norm(base), st.norm(ba)
        flip = False
        while node is not None:
            e = node.e
            k = e[0]
            if k == "bit":
                if self.samebase(st, st.norm(e[1]), base) and st.decide(eq(e[2], ba)):
                    if e[3] == "bset":
                        return neg(TRUE) if flip else TRUE
                    if e[3] == "bclr":
                        return TRUE if flip else FALSE
                    flip = not flip
            elif k == "w":
                if self.samebase(st, st.norm(e[1]), base):
                    lo = scale(e[2], 8)
                    if st.decide(band(le(lo, ba), lt(ba, add(lo, I(32))))):
                        r = self.wordbit(st, e[3], sub(ba, lo))
                        return neg(r) if flip else r
            elif k == "fill":
                if self.samebase(st, st.norm(e[1]), base):
                    if st.decide(band(le(scale(e[2], 8), ba), lt(ba, scale(add(e[2], e[3]), 8)))):
                        n = ival(e[4])
                        if n in (0, 255):
                            return B((n == 255) != flip)
                        return mk("pred", "filledbit", e[4], ba)
            elif k == "cp":
                if self.samebase(st, st.norm(e[1]), base):
                    lo = scale(e[2], 8)
                    if st.decide(band(le(lo, ba), lt(ba, add(lo, scale(e[5], 8))))):
                        base, ba = st.norm(e[3]), st.norm(add(sub(ba, lo), scale(e[4], 8)))
            elif k == "alloc":
                if self.samebase(st, st.norm(e[1]), base):
                    if e[2]:
                        return B(flip)
                    return mk("pred", "uninitbit", base, ba)
            elif k == "loop":
                r = self.loop_load(st, node, base, None, ba)
                if r == "skip":
                    pass
                elif r is None:
                    return mk("pred", "lbit", e[1].uid, base, ba)
                else:
                    return neg(r) if flip else r
            node = node.p
        r = mk("bit", base, ba)
        return neg(r) if flip else r

    def wordbit(self, st, w, m):
        """boolean: bit m of word value w"""
        w = st.norm(w)
        if w.op in ("bset", "bclr", "btog"):
            if st.decide(eq(w.a[1], m)):
                if w.op == "bset":
                    return TRUE
                if w.op == "bclr":
                    return FALSE
                return neg(self.wordbit(st, w.a[0], m))
            return self.wordbit(st, w.a[0], m)
        if w.op == "word":
            return self.bitload(st, w.a[0], add(scale(w.a[1], 8), m), w.a[2])
        if w.op == "mem":
            return mk("bit", w.a[0], add(scale(w.a[1], 8), m))
        if isint(w):
            if ival(w) == 0:
                return FALSE
            if ival(w) == 2**32 - 1:
                return TRUE
        return mk("pred", "bitof", w, m)

    # ------------------------------------------------------------ statements
    def operand(self, st, fr, o):
        if o["o"] in ("copy", "move"):
            root, proj = self.place(st, fr, o["p"])
            v = self.read(st, root, proj)
            return v
        if "v" in o:
            t = self.p.tys[o["t"]]
            if t.get("n") == "bool":
                return B(o["v"] != 0)
            return I(o["v"])
        if "fn" in o:
            return mk("fn", o["fn"].get("r") or o["fn"]["n"], o["fn"].get("i", -1))
        if "promoted" in o:
            return mk("ref", ("PROM", o["promoted"]), ()) if self.promoted(st, o["promoted"]) else mk("const", o.get("d", "?"))
        t = self.p.tys[o["t"]] if o["t"] is not None else {}
        if t.get("k") == "tup" and not t["a"]:
            return S("tup", None, [])
        if t.get("k") == "closure":
            return S("closure", None, [])
        return mk("const", o.get("cn") or o.get("d", "?"), t.get("s", "?"))

    def promoted(self, st, uid):
        root = ("PROM", uid)
        if root in st.mem:
            return True
        u = self.p.units[uid]
        if "body" not in u:
            return False
        # promoteds are straight-line constant code
        s2 = self.start(uid, [])
        s2.loops = ()
        try:
            b, e, d = self.explore([s2])
        except Limit:
            return False
        if len(d) != 1 or d[0].kind != "return":
            return False
        fu = s2.frames[0].uid if s2.frames else None
        v = None
        for r, x in d[0].mem.items():
            if r[0] == "L" and r[2] == 0:
                v = x if fu is None or r[1] == fu else v
        if v is not None and v.op == "ref":
            for r, x in d[0].mem.items():
                if r not in st.mem:
                    st.mem[r] = x
            st.mem[root] = self.read(st, v.a[0], list(v.a[1]))
            return True
        st.mem[root] = v if v is not None else mk("const", f"promoted{uid}")
        return True

    def stmt(self, st, fr, s):
        k = s["s"]
        if k == "assign":
            v = self.rvalue(st, fr, s["v"])
            root, proj = self.place(st, fr, s["p"])
            self.write(st, root, proj, v)
        elif k == "setdiscr":
            raise Limit("SetDiscriminant")
        elif k == "assume":
            c = self.operand(st, fr, s["o"])
            st.assume(c)
        elif k == "copynon":
            a = self.operand(st, fr, s["a"])
            b = self.operand(st, fr, s["b"])
            n = self.operand(st, fr, s["n"])
            self.memcpy(st, a, b, n, self.fresh(st, "esz"))

    def memcpy(self, st, src, dst, n, esz):
        src, dst = asptr(src), asptr(dst)
        if self.onaccess:
            for p in (src, dst):
                self.onaccess(st, p.a[0], p.a[1], mul(n, esz))
        self.check_live(st, src.a[0])
        self.check_live(st, dst.a[0])
        st.log = Node(("cp", st.norm(dst.a[0]), st.norm(dst.a[1]), st.norm(src.a[0]), st.norm(src.a[1]), st.norm(mul(n, esz))), st.log)

    def mkref(self, root, proj):
        if root[0] == "R" and not proj:
            return mk("ptr", root[1], root[2])
        if root[0] == "RS":
            if not proj:
                return mk("fat", *root[1:])
            if len(proj) == 1 and proj[0][0] == "ix":
                return mk("ptr", root[1], add(root[2], mul(proj[0][1], root[4])))
        if root[0] == "D" and not proj:
            return root[1]
        return mk("ref", root, tuple(proj))

    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "rawptr", "reborrow"):
            root, proj = self.place(st, fr, r["p"])
            return self.mkref(root, proj)
        if k == "cast":
            v = self.operand(st, fr, r["o"])
            ft, tt = self.p.tys[r["ft"]], self.p.tys[r["t"]]
            if ft.get("n") == "bool" and tt.get("k") == "prim" and tt.get("n") != "bool":
                return ONE if st.decide(v) else ZERO
            if isint(v) and tt.get("k") == "prim" and "sz" in tt and r["k"].startswith("IntToInt"):
                return I(ival(v) % (1 << (8 * tt["sz"])))
            if tt.get("k") == "prim" and tt.get("n") == "u8" and ft.get("n") != "u8":
                return trem(v, I(256))
            return v
        if k == "bin":
            a = st.norm(self.operand(st, fr, r["a"]))
            b = st.norm(self.operand(st, fr, r["b"]))
            return self.binop(st, r["op"], a, b, self.p.tys[r["t"]])
        if k == "un":
            a = st.norm(self.operand(st, fr, r["a"]))
            if r["op"] == "Not":
                if isbool(a) or a.op in ("true", "false"):
                    return neg(a)
                if self.isboolop(fr, r["a"]):
                    return neg(a)
                return mk("inot", a)
            if r["op"] == "PtrMetadata":
                return self.reflen(st, a)
            return mk("un", r["op"], a)
        if k == "discr":
            root, proj = self.place(st, fr, r["p"])
            v = st.norm(self.read(st, root, proj))
            return self.discr(v)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r["f"]]
            kk = r["k"]
            if kk == "tup":
                return tup(*fs)
            if kk == "array":
                return mk("vlit", *fs) if fs else mk("vempty")
            if kk == "adt":
                return S(r["n"], r["v"] if r["enum"] else None, list(zip(r["fn"], fs)))
            if kk == "closure":
                return S("closure", None, [(str(i), x) for i, x in enumerate(fs)])
            if kk == "rawptr":
                p = fs[0]
                t = self.p.tys[r["t"]]
                if t.get("k") == "slice":
                    p = asptr(p)
                    return mk("fat", p.a[0], p.a[1], fs[1], self.tsize(t["t"]))
                return p
            raise Limit(f"aggregate {kk}")
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            n = r["n"]
            return mk("vrep", v, I(int(n)) if str(n).isdigit() else mk("const", n))
        raise Limit(f"rvalue {r}")

    def isboolop(self, fr, o):
        if o["o"] == "const":
            return self.p.tys[o["t"]].get("n") == "bool"
        return self.p.tys[o["p"]["t"]].get("n") == "bool"

    def reflen(self, st, a):
        if a.op == "fat":
            return a.a[2]
        root, proj = self.deref(st, a, "r")
        return seqlen(self.read(st, root, proj))

    VAR = {
        ("std::option::Option", "None"): 0, ("std::option::Option", "Some"): 1,
        ("std::result::Result", "Ok"): 0, ("std::result::Result", "Err"): 1,
        ("std::ops::ControlFlow", "Continue"): 0, ("std::ops::ControlFlow", "Break"): 1,
    }

    def discr(self, v):
        if v.op == "S" and v.a[1] is not None:
            k = (v.a[0], v.a[1])
            if k in self.VAR:
                return I(self.VAR[k])
            a = self.p.adts.get(v.a[0])
            if a:
                for i, x in enumerate(a["v"]):
                    if x["n"] == v.a[1]:
                        return I(i)
            if v.a[0] == "std::cmp::Ordering":
                return I({"Less": 255, "Equal": 0, "Greater": 1}[v.a[1]])
        return mk("discr", v)

    def binop(self, st, op, a, b, ty):
        isb = ty.get("n") == "bool"
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = op.endswith("WithOverflow")
        r = None
        if base == "Add":
            r = add(a, b)
            return tup(r, FALSE) if ov else r
        if base == "Sub":
            r = sub(a, b)
            if ov:
                return tup(r, lt(a, b))
            return r
        if base == "Mul":
            r = mul(a, b)
            return tup(r, FALSE) if ov else r
        if base == "Div":
            return tdiv(a, b)
        if base == "Rem":
            return trem(a, b)
        if base == "Eq":
            return self.cmp_eq(st, a, b)
        if base == "Ne":
            return neg(self.cmp_eq(st, a, b))
        if base == "Lt":
            return lt(a, b) if not isb else band(neg(a), b)
        if base == "Le":
            return le(a, b)
        if base == "Gt":
            return lt(b, a)
        if base == "Ge":
            return le(b, a)
        if isb:
            if base == "BitAnd":
                return band(a, b)
            if base == "BitOr":
                return bor(a, b)
            if base == "BitXor":
                return neg(eq(a, b))
        if base == "Shl":
            if ival(b) is not None:
                return mul(a, I(1 << ival(b)))
            if a is ONE:
                return mk("pow2", b)
            return mk("shl", a, b)
        if base == "Shr":
            if ival(b) is not None:
                return tdiv(a, I(1 << ival(b)))
            return mk("shr", a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                n = ival(y)
                if n and n & (n - 1) == 0 and x.op in WORDS:
                    y = mk("pow2", I(n.bit_length() - 1))
                elif y.op == "inot" and ival(y.a[0]) and ival(y.a[0]) & (ival(y.a[0]) - 1) == 0:
                    y = mk("inot", mk("pow2", I(ival(y.a[0]).bit_length() - 1)))
                if base == "BitAnd" and y is ONE and x.op == "div" and isinstance(x.a[1], int) \
                        and x.a[1] & (x.a[1] - 1) == 0 and x.a[0].op in WORDS:
                    return mk("bget1", x.a[0], I(x.a[1].bit_length() - 1))
                if y.op == "pow2":
                    if base == "BitAnd":
                        return mk("bget", x, y.a[0])
                    return mk({"BitOr": "bset", "BitXor": "btog"}[base], x, y.a[0])
                if base == "BitAnd" and y.op == "inot" and y.a[0].op == "pow2":
                    return mk("bclr", x, y.a[0].a[0])
                if base == "BitAnd" and y is ONE and x.op == "shr":
                    return mk("bget1", x.a[0], x.a[1])
                n = ival(y)
                if base == "BitAnd" and n is not None and (n & (n + 1)) == 0:
                    return trem(x, I(n + 1))
            return mk(base, a, b)
        if base == "Offset":
            a = asptr(a)
            return mkptr(a, mul(b, self.tsize(ty["t"]))) if "t" in ty else mk("off", a, b)
        if base == "Cmp":
            if st.decide(lt(a, b)):
                return S("std::cmp::Ordering", "Less", [])
            if st.decide(eq(a, b)):
                return S("std::cmp::Ordering", "Equal", [])
            return S("std::cmp::Ordering", "Greater", [])
        return mk("bin", op, a, b)

    def cmp_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "bget":
                if y.op == "pow2" and y.a[0] is x.a[1]:
                    return self.wordbit(st, x.a[0], x.a[1])
                if ival(y) and ival(x.a[1]) is not None and ival(y) == 1 << ival(x.a[1]):
                    return self.wordbit(st, x.a[0], x.a[1])
                if y is ZERO:
                    return neg(self.wordbit(st, x.a[0], x.a[1]))
            if x.op == "bget1":
                if y is ONE:
                    return self.wordbit(st, x.a[0], x.a[1])
                if y is ZERO:
                    return neg(self.wordbit(st, x.a[0], x.a[1]))
            if x.op == "ptr" and (y is ZERO or (y.op == "ptr" and y.a[0] is ZERO)):
                return FALSE
        return eq(a, b)

    # ------------------------------------------------------------ terminators
    def term(self, st, fr, t):
        k = t["k"]
        if k == "goto":
            self.transfer(st, t["to"])
        elif k == "switch":
            v = st.norm(self.operand(st, fr, t["d"]))
            ty = self.p.tys[t["dt"]]
            if ty.get("n") == "bool":
                r = st.decide(v)
                for val, bb in t["ts"]:
                    if bool(val) == r:
                        self.transfer(st, bb)
                        return
                self.transfer(st, t["else"])
                return
            n = ival(v)
            if n is not None:
                for val, bb in t["ts"]:
                    if val == n:
                        self.transfer(st, bb)
                        return
                self.transfer(st, t["else"])
                return
            alts = []
            rest = []
            for val, bb in t["ts"]:
                c = eq(v, I(val))
                d = st.known(c)
                if d is True:
                    self.transfer(st, bb)
                    return
                if d is None:
                    alts.append([c])
                rest.append(neg(c))
            eb = self.p.units[fr.unit]["body"]["blocks"][t["else"]]
            if not alts:
                self.transfer(st, t["else"])
                return
            if not (eb["t"]["k"] == "unreachable" and not eb["s"]):
                alts.append(rest)
            elif len(alts) == 1:
                st.assume(alts[0][0])
                return self.term(st, fr, t)
            raise Fork(alts)
        elif k == "return":
            self.do_return(st, fr)
        elif k == "drop":
            root, proj = self.place(st, fr, t["p"])
            ty = self.p.tys[t["p"]["t"]]
            if ty.get("nd", True) and ty.get("k") not in ("prim", "ref", "ptr"):
                v = self.read(st, root, proj)
                st.ev = Node(("drop", ty["s"], v, self.where(st)), st.ev)
            self.transfer(st, t["to"])
        elif k == "assert":
            c = self.operand(st, fr, t["c"])
            if not t["e"]:
                c = neg(c)
            # the failing side is an implicit panic (arithmetic or bounds), which
            # changes nothing; the analysis follows the other side
            self.sure(st, c)
            self.transfer(st, t["to"])
        elif k == "call":
            self.call(st, fr, t)
        elif k == "unreachable":
            raise Stop("ub", "unreachable code: " + str(self.where(st)))
        else:
            raise Stop("other", k)

    def do_return(self, st, fr):
        v = st.mem.get(("L", fr.uid, 0), S("tup", None, []))
        if len(st.frames) == 1:
            raise Stop("return")
        st.frames.pop()
        # forget the callee's locals unless something still refers to them
        dst, ret = fr.dst, fr.ret
        up = st.frames[-1]
        if dst is not None:
            self.write(st, dst[0], list(dst[1]), v)
        if ret is None:
            raise Stop("panic", "call that does not return")
        self.gc(st, fr.uid, v)
        self.transfer(st, ret)

    def gc(self, st, uid, v):
        keep = set()
        if "ref" in {x.op for x in atoms_in(v)}:
            return
        for r in [r for r in st.mem if r[0] == "L" and r[1] == uid]:
            del st.mem[r]

    def enter(self, st, unit, args, dst, ret):
        if len(st.frames) > 60:
            raise Limit("call depth")
        for f in st.frames:
            if f.unit == unit and self.p.units[unit]["local"]:
                self.bad(st, "recursion", self.p.units[unit]["n"])
                raise Stop("recursion", self.p.units[unit]["n"])
        f = Frame()
        f.uid, f.unit, f.bb, f.si, f.dst, f.ret = next(self.uid), unit, 0, 0, dst, ret
        self.inlined.add(unit)
        for i, a in enumerate(args):
            st.mem[("L", f.uid, i + 1)] = a
        st.frames.append(f)
        if 0 in self.p.loops(unit):
            self.header(st, 0)

    def call(self, st, fr, t):
        fop = t["f"]
        fn = fop.get("fn")
        self.sites.add((fr.unit, fr.bb))
        args = [st.norm(self.operand(st, fr, a)) for a in t["args"]]
        root, proj = self.place(st, fr, t["dst"])
        dst = (root, tuple(proj))
        if fn is None:
            raise Limit("indirect call at " + str(self.where(st)))
        if fn.get("untuple") == "fn":
            # a function item called through FnOnce and the like
            tt = self.p.tys[t["args"][1].get("t", 0) if t["args"][1]["o"] == "const" else t["args"][1]["p"]["t"]]
            ts = tt["a"]
            t = dict(t, args=[{"o": "const", "t": x} for x in ts])
            args = [getf(args[1], str(i)) for i in range(len(ts))]
            fn = {k: v for k, v in fn.items() if k != "untuple"}
            fn["n"] = fn["n"] if "i" not in fn else self.p.units[fn["i"]]["n"]
        unit = fn.get("i")
        if self.handlers:
            h = self.handlers.get(fn["n"]) or (self.handlers.get(self.p.units[unit]["n"]) if unit is not None else None)
            if h is not None:
                r = h(self, st, fn, args)
                if r is not NotImplemented:
                    self.write(st, root, proj, r)
                    return self.transfer(st, t["to"])
        if unit is None:
            return self.opaque_call(st, fr, t, fn["n"], fn, args, dst)
        u = self.p.units[unit]
        name = u["n"]
        if fn.get("untuple"):
            return self.call_closure(st, fr, t, fn, args, dst, unit)
        if u.get("never"):
            raise Stop("panic", f"{name} at {self.where(st)}")
        if self.otypes and self.p.selfty(unit) in self.otypes:
            return self.opaque_call(st, fr, t, name, fn, args, dst)
        if name in self.opaque:
            h = self.opaque[name]
            if h:
                r = h(self, st, fr, t, fn, args)
                self.write(st, root, proj, r)
                return self.transfer(st, t["to"])
            return self.opaque_call(st, fr, t, name, fn, args, dst)
        m = self.models.get(name) or self.models.get(fn["n"])
        if m is None:
            for p, h in self.prefix_models:
                if name.startswith(p):
                    m = h
                    break
        if m is not None:
            self.cur_t = t
            r = m(self, st, fr, fn, u, args)
            if r is not NotImplemented:
                self.write(st, root, proj, r)
                if t.get("to") is None:
                    raise Stop("panic", name)
                return self.transfer(st, t["to"])
        if "body" in u and (u["local"] or u["k"] == "closure" or u["krate"] == "ecs_shims" or self.allowed(name)):
            a = args
            sp = u["body"].get("spread")
            return self.enter(st, unit, a, dst, t.get("to"))
        return self.opaque_call(st, fr, t, name, fn, args, dst)

    def allowed(self, n):
        return any(n.startswith(p) for p in self.allow)

    def call_closure(self, st, fr, t, fn, args, dst, unit):
        u = self.p.units[unit]
        clo, tupv = args[0], args[1]
        n = u["body"]["argc"] if "body" in u else None
        if fn["untuple"] == "closure":
            want_ref = self.p.tys[u["body"]["locals"][1]]["k"] == "ref"
            is_ref = clo.op in ("ref", "ptr") or (clo.op != "S")
            if want_ref and not is_ref:
                h = ("H", next(self.uid))
                st.mem[h] = clo
                clo = mk("ref", h, ())
            elif not want_ref and is_ref and clo.op == "ref":
                clo = self.read(st, clo.a[0], list(clo.a[1]))
            a = [clo] + [getf(tupv, str(i)) for i in range(n - 1)]
            return self.enter(st, unit, a, dst, t.get("to"))
        # a function item
        cnt = len(tupv.a[2]) if tupv.op == "S" else (n or 1)
        a = [getf(tupv, str(i)) for i in range(cnt)]
        t2 = dict(t)
        name = u["n"]
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, fn, u, a)
            if r is not NotImplemented:
                self.write(st, dst[0], list(dst[1]), r)
                return self.transfer(st, t["to"])
        if "body" in u:
            return self.enter(st, unit, a, dst, t.get("to"))
        return self.opaque_call(st, fr, t, name, fn, a, dst)

    def sure(self, st, c):
        """what follows only happens when c holds (otherwise: an implicit panic)"""
        if self.onassert:
            self.onassert(st, c)
        st.assume(c)

    def argval(self, st, a):
        """what an opaque function can see of an argument"""
        if a.op == "ref":
            return mk("refto", st.norm(self.read(st, a.a[0], list(a.a[1]))))
        if a.op == "S":
            return mk("S", a.a[0], a.a[1], tuple((n, self.argval(st, x)) for n, x in a.a[2]))
        return a

    def opaque_call(self, st, fr, t, name, fn, args, dst):
        if fn.get("trait") is None and not fn.get("local") and not self.p.units[fn["i"]]["local"] if "i" in fn else False:
            self.unmodelled.add(name)
        tys = tuple(self.tyname(self.p.tys[x]["s"]) if x is not None else "_" for x in fn["a"])
        vs = tuple(self.argval(st, a) for a in args)
        res = mk("call", name, tys, vs)
        st.ev = Node(("call", name, tys, vs, res, tuple(args), self.where(st)), st.ev)
        # things behind &mut arguments may have changed
        for i, (o, a) in enumerate(zip(t["args"], args)):
            ot = None
            if o["o"] in ("copy", "move"):
                ot = self.p.tys[o["p"]["t"]]
            if ot and ot.get("k") == "ref" and ot.get("m") and a.op == "ref":
                self.write(st, a.a[0], list(a.a[1]), mk("post", res, i))
        rt = self.p.tys[t["dst"]["t"]]
        if rt.get("k") == "ref" and rt.get("m") and len(args) >= 1 and args[0].op == "ref":
            # builder style: returns its receiver
            res = args[0]
        if t.get("to") is None:
            raise Stop("panic", name)
        if rt.get("n") == "bool":
            res = mk("pred", "call", res)
        self.write(st, dst[0], list(dst[1]), res)
        self.transfer(st, t["to"])

    # ------------------------------------------------------------ loops
    def do_loop(self, st0):
        fr0 = st0.frames[-1]
        header = fr0.bb
        body = self.p.loops(fr0.unit)[header]
        uid = next(self.uid)
        ks = st0.ks()
        k = mk("k", uid, *ks)
        blk = self.p.units[fr0.unit]["body"]["blocks"][header]
        rec = LoopRec(uid, fr0.unit, header, blk["t"].get("at"), k, fr0.uid)
        rec.ks = ks
        LOOPS[uid] = rec
        mods = {}
        noind = set()
        ind = {}
        pops = {}
        nopops = set()
        locks = {}
        nolocks = set()
        bounds = []
        memmod = False
        extra = 0
        pending = len(self.pending)
        for n in range(24):
            del self.pending[pending:]
            st = st0.copy()
            st.loops = st.loops + ((fr0.uid, header, body, k, uid),)
            hdr_log = st.log
            if memmod:
                st.log = Node(("loop", rec, ks + (k,)), st.log)
            rec.prelog = hdr_log
            hdr_node = st.log
            hv = {}
            ok = True
            for loc in mods:
                root, path = loc
                v0 = self.read(st0, root, path)
                if loc in ind:
                    v = add(ind[loc][0], scale(k, ind[loc][1]))
                elif loc in pops:
                    v = mk("vsub", pops[loc], ZERO, sub(seqlen(pops[loc]), k))
                elif loc in locks:
                    v = add(mk("phi", uid, locname(locks[loc][0]), *ks), locks[loc][1])
                else:
                    v = mk("phi", uid, locname(loc), *ks)
                rec.v0[locname(loc)] = v0
                self.write(st, root, path, v)
            hv = dict(st.mem)
            try:
                for b in bounds:
                    st.assume(b)
                st.assume(ge0(k))
            except Contradiction:
                pass
            nf = len(st.facts.list)
            hev = st.ev
            backs, exits, done = self.explore([st])
            # what changed along each back edge
            new = set()
            vals = []
            for b in backs:
                d = {}
                for root in b.mem:
                    if root in st0.mem or root[0] in ("P", "D"):
                        self.diff(b, root, (), hv[root] if root in hv else self.base_value(st0, root), b.mem[root], d)
                vals.append(d)
                new |= set(d)
            changed = False
            for loc in sorted(new, key=str):
                if not any(covers(m, loc) for m in mods):
                    for m in [m for m in mods if covers(loc, m)]:
                        del mods[m]
                        ind.pop(m, None)
                        pops.pop(m, None)
                        locks = {x: y for x, y in locks.items() if m is not x and m is not y[0]}
                    mods[loc] = None
                    changed = True
            mm = any(b.log is not hdr_node for b in backs)
            if mm and not memmod:
                memmod = True
                changed = True
            if changed:
                continue
            # induction values
            for loc in list(mods):
                if loc in noind:
                    continue
                root, path = loc
                step = None
                good = bool(backs)
                for b in backs:
                    x = b.norm(self.read(b, root, path))
                    h = b.norm(self.readmem(hv, root, path))
                    if x.op in ("S", "U", "ref", "ptr") or isbool(x) or x.op.startswith("v"):
                        good = False
                        break
                    dlt = ival(sub(x, h))
                    if dlt is None or (step is not None and dlt != step):
                        good = False
                        break
                    step = dlt
                if good and step is not None and loc not in ind:
                    v0 = st0.norm(rec.v0[locname(loc)])
                    if v0.op not in ("S", "U", "ref", "ptr", "uninit", "const"):
                        ind[loc] = (v0, step)
                        changed = True
                    else:
                        noind.add(loc)
                elif loc in ind and (not good or step != ind[loc][1]):
                    del ind[loc]
                    noind.add(loc)
                    changed = True
                elif not good:
                    noind.add(loc)
            if changed:
                continue
            # a sequence that loses its last element in every iteration
            for loc in list(mods):
                if loc in ind or loc in nopops:
                    continue
                root, path = loc
                h = self.readmem(hv, root, path)
                xs = [self.read(b, root, path) for b in backs]
                good = bool(xs) and all(x.op == "vpop" and x.a[0] in (h, b.norm(h)) for x, b in zip(xs, backs))
                if good and loc not in pops:
                    v0 = st0.norm(rec.v0[locname(loc)])
                    pops[loc] = v0
                    # only a sequence with elements loses one
                    bounds.append(ge0(sub(seqlen(v0), k)))
                    changed = True
                elif not good:
                    if loc in pops:
                        bounds[:] = [b for b in bounds if b is not ge0(sub(seqlen(pops[loc]), k))]
                        del pops[loc]
                        changed = True
                    nopops.add(loc)
            if changed:
                continue
            # numbers that change by the same amount in every iteration
            moved = {}
            for loc in sorted(mods, key=str):
                if loc in ind or loc in pops or loc in nolocks:
                    continue
                root, path = loc
                h = self.readmem(hv, root, path)
                if loc not in locks and h.op != "phi":
                    continue
                ds = []
                for b in backs:
                    x = b.norm(self.read(b, root, path))
                    if x.op in ("S", "U", "ref", "ptr", "uninit", "const") or isbool(x) or x.op.startswith("v"):
                        break
                    ds.append(b.norm(sub(x, b.norm(h))))
                if ds and len(ds) == len(backs):
                    moved[loc] = tuple(ds)
            for loc in list(locks):
                if moved.get(loc) != moved.get(locks[loc][0]) or loc not in moved:
                    del locks[loc]
                    nolocks.add(loc)
                    changed = True
            lead = {}
            for loc, ds in moved.items():
                if loc in locks:
                    continue
                v0 = st0.norm(rec.v0[locname(loc)])
                if v0.op in ("S", "U", "ref", "ptr", "uninit", "const") or isbool(v0) or v0.op.startswith("v"):
                    continue
                if ds in lead:
                    a = lead[ds]
                    locks[loc] = (a, sub(v0, st0.norm(rec.v0[locname(a)])))
                    changed = True
                else:
                    lead[ds] = loc
            for b, (a, d) in list(locks.items()):
                if a in locks:
                    locks[b] = (locks[a][0], add(d, locks[a][1]))
            if changed:
                continue
            # facts that hold whenever the header is reached: k stays below an
            # invariant bound on every path back
            cand = None
            for b in backs:
                s = set()
                for g in list(b.facts.ge) + [f.a[0] for f in b.facts.list[nf:] if f.op == "ge0"]:
                    c, d = parts(g)
                    if d.get((k,)) == -1 and not any(k in x.ksub for m in d if m != (k,) for x in m) \
                            and self.invariant(g, uid):
                        s.add(g)
                cand = s if cand is None else cand & s
            for g in sorted(cand or (), key=lambda x: x.id):
                # on back: k <= X - 1 at this iteration, hence at the next header k <= X
                nb = ge0(add(g, ONE))
                base = subst(nb, {k: ZERO})
                if nb not in bounds and st0.known(base) is True:
                    bounds.append(nb)
                    changed = True
            if changed:
                continue
            rec.ind = {locname(l): v for l, v in ind.items()}
            rec.variants = []
            for b, d in zip(backs, vals):
                fs = [f for f in b.facts.list[nf:]]
                lg = b.logs(hdr_node)
                evs = []
                m = b.ev
                while m is not None and m is not hev:
                    evs.append(m.e)
                    m = m.p
                evs.reverse()
                rec.variants.append({"facts": fs, "log": lg, "vals": d, "ev": evs, "st": b})
            rec.mempat = rec.variants
            rec.seqpat = {}
            for loc in mods:
                if loc in ind or loc in pops or loc in locks:
                    continue
                ln = locname(loc)
                phi = mk("phi", uid, ln, *ks)
                pat = []
                okp = True
                for b in backs:
                    x = self.read(b, loc[0], loc[1])
                    if x is phi:
                        pat.append(None)
                    elif x.op == "vset" and x.a[0] is phi:
                        pat.append(("set", x.a[1], x.a[2]))
                    else:
                        okp = False
                        break
                if okp:
                    rec.seqpat[ln] = pat
                    continue
                # every iteration appends one element
                xs = [self.read(b, loc[0], loc[1]) for b in backs]
                if xs and all(x.op == "vpush" and x.a[0] is phi for x in xs):
                    rec.seqpat[ln] = [("push", x.a[1]) for x in xs]
            rec.exits = exits
            extra += 1
            if extra >= (3 if (memmod or rec.seqpat) else 1):
                break
        else:
            raise Limit("loop did not stabilise at " + str(rec.at))
        rec.mods = {locname(l): self.readmem(hv, *l) for l in mods}
        rec.locs = {locname(l): l for l in mods}
        rec.nexits = len(exits)
        for s in exits:
            s.loops = s.loops[:-1]
            s.ev = Node(("loop", rec, s.norm(k)), s.ev)
        return exits, done

    def invariant(self, g, uid):
        for x in atoms_in(g):
            if x.op in ("phi", "lmem") and x.a[0] == uid:
                return False
        return True

    def readmem(self, mem, root, path):
        class _S:
            pass
        v = mem[root]
        for e in path:
            if e[0] == "f":
                v = getf(v, e[1])
        return v

    def diff(self, b, root, path, h, v, out):
        if h is v:
            return
        if h.op == "S" and v.op == "S" and h.a[0] == v.a[0] and h.a[1] == v.a[1] and h.a[0] not in ("closure",) \
                and [n for n, _ in h.a[2]] == [n for n, _ in v.a[2]] and not (h.a[1] is not None):
            for n, x in v.a[2]:
                self.diff(b, root, path + (("f", n),), getf(h, n), x, out)
            return
        if v.op == "U" or h.op == "U":
            hb = h.a[0] if h.op == "U" else h
            vb = v.a[0] if v.op == "U" else v
            if hb is vb:
                names = {n for x in (h, v) if x.op == "U" for n, _ in x.a[1]}
                for n in sorted(names):
                    self.diff(b, root, path + (("f", n),), getf(h, n), getf(v, n), out)
                return
        if b.norm(h) is b.norm(v):
            return
        out[(root, path)] = v


WORDS = ("word", "mem", "lmem", "bset", "bclr", "btog", "uninit")


def covers(m, loc):
    return m[0] == loc[0] and loc[1][: len(m[1])] == m[1]


def locname(loc):
    root, path = loc
    r = ".".join(str(x) for x in root)
    return r + "".join("." + e[1] for e in path)


# ---------------------------------------------------------------- sequences

def index(proj, i):
    """the place of element i of the sequence at proj"""
    proj = list(proj)
    while proj and proj[-1][0] == "sub":
        i = add(proj.pop()[1], i)
    return proj + [("ix", i)]


def seqlen(v):
    op = v.op
    if op == "vsub":
        return v.a[2]
    if op == "vset":
        return seqlen(v.a[0])
    if op == "vpush":
        return add(seqlen(v.a[0]), ONE)
    if op == "vpop":
        return sub(seqlen(v.a[0]), ONE)
    if op == "vins":
        return add(seqlen(v.a[0]), ONE)
    if op in ("vrem", "vswrm"):
        return sub(seqlen(v.a[0]), ONE)
    if op == "vlit":
        return I(len(v.a))
    if op == "vempty":
        return ZERO
    if op == "vrep":
        return v.a[1]
    if op == "rawseq":
        return v.a[2]
    if op == "vsort":
        return seqlen(v.a[0])
    if op == "phi":
        rec = LOOPS.get(v.a[0])
        if rec and v.a[1] in rec.seqpat:
            n = seqlen(rec.v0[v.a[1]])
            if any(p and p[0] == "push" for p in rec.seqpat[v.a[1]]):
                return add(n, mk("k", rec.uid, *v.a[2:]))
            return n
    return mk("len", v)


def vset(v, i, x):
    if v.op == "vset" and v.a[1] is i:
        v = v.a[0]
    if v.op == "vlit" and ival(i) is not None and ival(i) < len(v.a):
        l = list(v.a)
        l[ival(i)] = x
        return mk("vlit", *l)
    if x.op == "at" and x.a[0] is v and x.a[1] is i:
        return v
    return mk("vset", v, i, x)


def simple_at(v, i):
    """at() where no decision is needed"""
    while True:
        if v.op == "vset":
            if v.a[1] is i:
                return v.a[2]
            d = sub(v.a[1], i)
            if isint(d) and ival(d) != 0:
                v = v.a[0]
                continue
            return None
        if v.op == "vpop":
            v = v.a[0]
            continue
        if v.op == "vlit" and ival(i) is not None and ival(i) < len(v.a):
            return v.a[ival(i)]
        return None


def unify(pat, t, k):
    """the value of k for which pat equals t, or None"""
    r = _unify(pat, t, k)
    return r


def lin_of(m, q):
    r = I(q)
    for x in m:
        r = mul(r, x)
    return r


def exact(p, factors, q):
    """p / (q * factors) when that is exact, or None"""
    c, d = parts(p)
    if c != 0:
        return None
    r = ZERO
    for m, k in d.items():
        m = list(m)
        for f in factors:
            if f not in m:
                return None
            m.remove(f)
        if k % q:
            return None
        r = add(r, lin_of(m, k // q))
    return r


def _unify(pat, t, k):
    if pat is t and k not in pat.ksub:
        return None
    if k not in pat.ksub:
        return None
    c, d = parts(pat)
    if (k,) in d and pat.op in ("lin", "k"):
        s = d[(k,)]
        rest = sub(pat, scale(k, s))
        if k in rest.ksub:
            return None
        q = sub(t, rest)
        if s in (1, -1):
            return scale(q, s)
        r = tdiv(q, I(s)) if s > 0 else None
        if r is not None and r.op != "div" and sub(scale(r, s), q) is ZERO:
            return r
        return None
    if pat.op == "lin":
        # k times something without k
        ms = [(m, q) for m, q in d.items() if any(k in x.ksub for x in m)]
        if len(ms) == 1 and len(ms[0][0]) > 1 and ms[0][0].count(k) == 1 and isinstance(t, T):
            m, q = ms[0]
            f = [x for x in m if x is not k]
            if not any(k in x.ksub for x in f):
                rest = sub(pat, lin_of(m, q))
                return exact(sub(t, rest), f, q)
            return None
        # a single atom containing k, plus terms without it
        ms = [(m, q) for m, q in d.items() if any(k in x.ksub for x in m)]
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] == 1:
            a = ms[0][0][0]
            return _unify(a, sub(t, sub(pat, a)), k)
        return None
    if t.op != pat.op or len(t.a) != len(pat.a):
        return None
    r = None
    for x, y in zip(pat.a, t.a):
        if isinstance(x, T):
            if k in x.ksub:
                u = _unify(x, y, k) if isinstance(y, T) else None
                if u is None or (r is not None and r is not u):
                    return None
                r = u
            elif x is not y:
                return None
        elif x != y:
            return None
    return r
