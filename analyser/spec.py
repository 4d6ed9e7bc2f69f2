"""Obligation framework: entry points, representation facts, and reporting."""
import os
import re
import signal
import sys
import time

from terms import *
import terms
import engine
from engine import Engine, Prog, Fork, Stop, Limit, Node, State, Frame, seqlen


class Missing(Exception):
    """an anchor of a rule is not there any more"""


# a check that takes longer than this decides nothing, and says so
DEADLINE = time.time() + 600


def timeout(*a):
    signal.alarm(5)
    raise Limit("out of time")


def arm():
    signal.signal(signal.SIGALRM, timeout)
    signal.alarm(max(1, int(DEADLINE - time.time())))


class Spec:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.p, self.tier = pid, prog, tier
        self.viol = []          # (key, text)
        self.known_hits = []
        self.entries = {}
        self.obl = 0
        self.obl_by = {}
        self.npaths = 0
        self.rules = {}
        self.notes = []
        self.inlined = set()
        self.sites = set()
        self.cur = None
        self.axioms = []
        self.samples = []
        self.unmodelled = set()
        self.watch = None       # called with every engine made

    # ------------------------------------------------------------ lookup
    def adt(self, name):
        if name in self.p.adts:
            return self.p.adts[name]
        c = [a for n, a in self.p.adts.items() if n.split("::")[-1] == name.split("::")[-1]]
        if "::" in name and len(c) > 1:
            mod = name.split("::")[-2]
            c = [a for a in c if mod in a["n"].split("::")] or c
        if len(c) != 1:
            raise Missing(f"type {name} ({len(c)} candidates)")
        return c[0]

    def f(self, adt, name):
        """current name of a field known as `name`: by name, else by position and type"""
        a = self.adt(adt)
        fs = [x["n"] for x in a["v"][0]["f"]]
        if name in fs:
            return name
        old = FIELDS.get((a["n"].split("::")[-1], name))
        if old is not None:
            i, ts = old
            known = {n for (t, n) in FIELDS if t == a["n"].split("::")[-1]}
            if i < len(fs) and fs[i] not in known and self.p.tys[a["v"][0]["f"][i]["t"]]["s"] == ts:
                return fs[i]
            c = [x["n"] for x in a["v"][0]["f"] if x["n"] not in known and self.p.tys[x["t"]]["s"] == ts]
            if len(c) == 1:
                return c[0]
        raise Missing(f"field {adt}.{name}")

    def has_fn(self, adt, m):
        try:
            self.fn(adt, m)
            return True
        except Missing:
            return False

    def fn(self, adt, m, trait=None):
        """method m of type adt"""
        a = self.adt(adt) if adt else None
        r = []
        for l in self.p.fns.values():
            for f in l:
                if f.get("m") != m and f["n"].split("::")[-1] != m:
                    continue
                if "i" not in f:
                    continue
                if a is not None:
                    if f.get("self") is None:
                        continue
                    t = self.p.tys[f["self"]]
                    if t.get("n") != a["n"]:
                        continue
                elif f.get("self") is not None:
                    continue
                if trait is not None and trait not in f["n"]:
                    continue
                if trait is None and adt and f["n"].startswith("<") and " as std::fmt" in f["n"]:
                    continue
                r.append(f)
        if len(r) != 1:
            raise Missing(f"function {adt}::{m} ({len(r)} candidates)")
        return r[0]

    def fnof(self, unit):
        for l in self.p.fns.values():
            for f in l:
                if f.get("i") == unit:
                    return f
        raise Missing(f"unit {unit}")

    def unit(self, adt, m, trait=None):
        return self.fn(adt, m, trait)["i"]

    def fld(self, v, *path):
        """fld(v, 'Store.entities_container', 'EntitiesContainer.gap_ids')"""
        for q in path:
            t, n = q.rsplit(".", 1)
            v = getf(v, self.f(t, n))
        return v

    # ------------------------------------------------------------ running
    def engine(self, opaque=(), budget=200, maxpaths=20000, otypes=()):
        e = Engine(self.p, opaque=opaque, budget=budget, maxpaths=maxpaths)
        e.otypes = frozenset(otypes)
        if self.watch:
            self.watch(e)
        return e

    def state(self, facts=()):
        st = State()
        st.frames, st.mem, st.log, st.facts = [], {}, None, Facts()
        st.ev, st.loops, st.kind, st.why, st.nforks, st.trace = None, (), None, None, 0, None
        for b in facts:
            st.assume(b)
        return st

    def call(self, eng, st, unit, args, forget=True, tys=None):
        """every way the function can end, from state st: (state, result);
        tys names the type parameters of the function, in order"""
        eng.tymap = ()
        if tys:
            g = [x for x in self.fnof(unit).get("g", ()) if not x.startswith("'")]
            if len(g) != len(tys):
                raise Missing(f"type parameters of {self.fnof(unit)['n']}: {g}")
            eng.tymap = tuple((re.compile(r"\b" + a + r"\b"), f"\0{n}\0") for n, (a, b) in enumerate(zip(g, tys))) \
                + tuple((re.compile(f"\0{n}\0"), b) for n, b in enumerate(tys))
        s = st.copy()
        s.kind = s.why = None
        s.frames = []
        fr = Frame()
        fr.uid, fr.unit, fr.bb, fr.si, fr.dst, fr.ret = next(eng.uid), unit, 0, 0, None, None
        s.frames.append(fr)
        eng.inlined.add(unit)
        for i, a in enumerate(args):
            s.mem[("L", fr.uid, i + 1)] = a
        if 0 in self.p.loops(unit) and not eng.unroll:
            s.kind = "loop"
            ex, dn = None, None
            s.kind = None
            ex, done = eng.do_loop(s)
            work = []
            for x in ex:
                x.kind = None
                eng.transfer(x, x.frames[-1].bb)
                work.append(x)
            b, e, d2 = eng.explore(work)
            done = done + d2
        else:
            b, e, done = eng.explore([s])
        out = []
        for x in done:
            ret = None
            if x.kind == "return":
                ret = x.mem.get(("L", fr.uid, 0), S("tup", None, []))
                ret = x.norm(ret)
            x.frames = []
            out.append((x, ret))
        self.npaths += len(out)
        self.inlined |= eng.inlined
        self.sites |= eng.sites
        self.unmodelled |= eng.unmodelled
        return out

    def entry(self, name):
        self.cur = name
        self.entries.setdefault(name, {"paths": 0, "obligations": 0})

    # ------------------------------------------------------------ axioms
    def saturate(self, st, extra=()):
        """assume the representation facts about every term in play"""
        st.facts.propagate()
        if not self.axioms:
            return
        done = set()
        for _ in range(6):
            atoms = set()
            for x in extra:
                atoms |= atoms_in(st.norm(x))
            fs = st.facts
            for b in fs.bools:
                atoms |= atoms_in(b)
            for x in fs.ge + fs.neq:
                atoms |= atoms_in(x)
            for k, v in fs.sub.items():
                atoms |= atoms_in(k)
                atoms |= atoms_in(v)
            n = st.log
            while n is not None:
                for x in n.e[1:]:
                    if isinstance(x, T):
                        atoms |= atoms_in(x)
                n = n.p
            todo = [a for a in atoms if a not in done]
            before = len(fs.list)
            done |= set(todo)
            order = sorted(atoms, key=lambda a: a.id)
            for ax in self.axioms:
                ax(st, order)
            if len(st.facts.list) == before and not todo:
                break

    def cases(self, eng, st, f):
        """evaluates f on st, splitting on whatever it needs decided"""
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 4000:
                raise Limit("too many cases")
            s2 = s.copy()
            try:
                self.saturate(s2)
                f(s2)
            except Fork as fk:
                s3 = s.copy()
                for alt in fk.alts:
                    x = s.copy()
                    try:
                        for b in alt:
                            x.facts.assume(b)
                        self.saturate(x)
                    except Contradiction:
                        continue
                    work.append(x)
            except Contradiction:
                pass

    def require(self, st, cond, rule, what, where=None):
        """cond must hold in st"""
        if st is None:
            st = self.state()
        c = st.norm(cond)
        r = st.known(c)
        if r is not True:
            self.saturate(st, [c])
            c = st.norm(cond)
            r = st.known(c)
        if r is None:
            l = self.leaf(st, c)
            if l is not None and l is not c:
                raise Fork([[l], [neg(l)]])
        if r is None and self.refuted(st, neg(c)):
            r = True
        self.obl += 1
        self.obl_by[rule] = self.obl_by.get(rule, 0) + 1
        if self.cur:
            self.entries[self.cur]["obligations"] += 1
        if r is True:
            return True
        self.violate(rule, what, st, c, where)
        return False

    def refuted(self, st, b):
        """the facts exclude b"""
        y = st.copy()
        try:
            y.assume(b)
            self.saturate(y)
        except Contradiction:
            return True
        except Fork:
            pass
        return False

    def parallel(self, jobs, n=8):
        """runs (function, arguments...) jobs in child processes and collects what they report"""
        import pickle
        import select
        if len(jobs) < 2 or os.environ.get("ECS_SERIAL"):
            for f, *a in jobs:
                self.guard(f, *a)
            return
        todo = list(enumerate(jobs))
        live, res = {}, {}
        sys.stdout.flush()
        while todo or live:
            while todo and len(live) < n:
                i, (f, *a) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        arm()
                        c = Spec(self.pid, self.p, self.tier)
                        c.cur = self.cur
                        c.guard(f, c, *a[1:]) if a and a[0] is self else c.guard(f, *a)
                        d = pickle.dumps((c.viol, c.entries, c.obl, c.obl_by, c.npaths, c.inlined, c.sites, c.unmodelled, c.notes, c.samples))
                        with os.fdopen(w, "wb") as fh:
                            fh.write(d)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (i, pid, [])
            ready, _, _ = select.select(list(live), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                i, pid, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                res[i] = b"".join(buf)
        for i in sorted(res):
            if not res[i]:
                self.violate("analysis-error", f"not decided: part {i} of the analysis ended early")
                continue
            v, e, o, ob, np, inl, si, um, nt, sa = pickle.loads(res[i])
            self.viol += v
            for k, x in e.items():
                y = self.entries.setdefault(k, {"paths": 0, "obligations": 0})
                y["paths"] += x["paths"]
                y["obligations"] += x["obligations"]
            self.obl += o
            for k, x in ob.items():
                self.obl_by[k] = self.obl_by.get(k, 0) + x
            self.npaths += np
            self.inlined |= inl
            self.sites |= si
            self.unmodelled |= um
            self.notes += nt
            self.samples += sa

    def leaf(self, st, c):
        if c.op == "not":
            return self.leaf(st, c.a[0]) if c.a[0].op in ("and", "or") else c
        if c.op in ("and", "or"):
            for x in c.a:
                if st.known(x) is None:
                    return self.leaf(st, x)
            return None
        return c

    def violate(self, rule, what, st=None, cond=None, where=None):
        key = f"{self.cur or '-'}|{rule}"
        lines = [f"rule {rule}: {what}", f"  entry: {self.cur}"]
        if where:
            lines.append(f"  at: {where}")
        if cond is not None:
            lines.append(f"  not established: {show(cond)}")
        if st is not None:
            tr = []
            n = st.trace
            while n is not None:
                tr.append(n.e)
                n = n.p
            tr.reverse()
            lines.append("  path: " + " -> ".join(f"{w}: {' & '.join(show(b) for b in a)}" for w, a in tr if w)[:3000])
            if st.why:
                lines.append(f"  end: {st.kind} {st.why}")
            lw = [e for e in st.logs() if e[0] in ("w", "bit", "fill", "cp", "free", "alloc")]
            for e in lw[-12:]:
                lines.append("  effect: " + " ".join(show(x) if isinstance(x, T) else str(x) for x in e)[:300])
        self.viol.append((key, "\n".join(lines)))

    def guard(self, f, *a):
        """a rule whose anchors are missing or that the analysis cannot follow fails closed"""
        try:
            f(*a)
        except Missing as e:
            self.violate("anchor", f"anchor missing: {e}")
        except Limit as e:
            self.violate("analysis-limit", f"not decided: {e}")
        except Exception as e:
            import traceback
            self.violate("analysis-error", "not decided: " + traceback.format_exc()[-1500:])


# layout of the private state the representation facts talk about, as confirmed
# on the pinned commit: (type, field) -> (position, type)
from fields import FIELDS


def pos(n):
    return ge0(sub(n, ONE))
