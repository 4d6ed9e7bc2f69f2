"""Contracts of the standard-library functions the crate calls. Each entry maps
a resolved callee to its effect on the abstract state; everything else in std is
either inlined from its own MIR (ALLOW) or left opaque."""
from terms import *
from engine import seqlen, vset, index, Stop, Node, Limit

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


UNIT = S("tup", None, [])
ITER = "std::slice::Iter"
RANGE = "std::ops::Range"


# ------------------------------------------------------------------ helpers

def toptr(v):
    if v.op == "ptr":
        return v
    if v.op == "ref":
        return mk("ptr", mk("rbase", v.a[0], v.a[1]), ZERO)
    return mk("ptr", v, ZERO)


def seqref(eng, st, v):
    """place of the sequence behind a reference to a Vec, slice or array"""
    return eng.deref(st, v, "r")


def seqval(eng, st, v):
    root, proj = seqref(eng, st, v)
    return st.norm(eng.read(st, root, proj))


def setseq(eng, st, v, x):
    root, proj = seqref(eng, st, v)
    eng.write(st, root, proj, x)


def elemref(eng, st, v, i):
    root, proj = seqref(eng, st, v)
    return eng.mkref(root, index(proj, i))


def readref(eng, st, v):
    root, proj = eng.deref(st, v, "r")
    return st.norm(eng.read(st, root, proj))


def writeref(eng, st, v, x):
    root, proj = eng.deref(st, v, "r")
    eng.write(st, root, proj, x)


def ty(eng, i):
    return eng.p.tys[i]


def argty(eng, n):
    o = eng.cur_t["args"][n]
    if o["o"] in ("copy", "move"):
        return eng.p.tys[o["p"]["t"]]
    return eng.p.tys[o["t"]]


def elemty(eng, n):
    """type id of T in *T / &T of the n-th argument"""
    t = argty(eng, n)
    return t.get("t")


def esz(eng, n):
    t = elemty(eng, n)
    return eng.tsize(t)


# ------------------------------------------------------------------ iterators

def mkiter(eng, st, ref, kind=ITER):
    n = seqlen(seqval(eng, st, ref))
    return S(kind, None, [("src", ref), ("i", ZERO), ("n", n)])


def it_next(eng, st, it, back=False):
    """(iterator', item or None) for the iterators known natively, else None"""
    n = it.a[0] if it.op == "S" else None
    if n == ITER:
        i, e = getf(it, "i"), getf(it, "n")
        if st.decide(lt(i, e)):
            if back:
                e2 = sub(e, ONE)
                return setf(it, "n", e2), elemref(eng, st, getf(it, "src"), e2)
            return setf(it, "i", add(i, ONE)), elemref(eng, st, getf(it, "src"), i)
        return it, None
    if n == "own":
        i, e = getf(it, "i"), getf(it, "n")
        if st.decide(lt(i, e)):
            if back:
                e2 = sub(e, ONE)
                return setf(it, "n", e2), eng.at(st, getf(it, "src"), e2)
            return setf(it, "i", add(i, ONE)), eng.at(st, getf(it, "src"), i)
        return it, None
    if n == RANGE:
        i, e = getf(it, "start"), getf(it, "end")
        if st.decide(lt(i, e)):
            if back:
                e2 = sub(e, ONE)
                return setf(it, "end", e2), e2
            return setf(it, "start", add(i, ONE)), i
        return it, None
    if n == "std::iter::Zip" and not back:
        r = it_next(eng, st, getf(it, "a"))
        if r is None:
            return None
        if r[1] is None:
            return setf(it, "a", r[0]), None
        q = it_next(eng, st, getf(it, "b"))
        if q is None:
            return None
        it2 = setf(setf(it, "a", r[0]), "b", q[0])
        return it2, (None if q[1] is None else tup(r[1], q[1]))
    if n == "std::iter::Rev":
        r = it_next(eng, st, getf(it, "iter"), not back)
        if r is None:
            return None
        return setf(it, "iter", r[0]), r[1]
    if n in ("std::iter::Copied", "std::iter::Cloned"):
        r = it_next(eng, st, getf(it, "it"), back)
        if r is None:
            return None
        return setf(it, "it", r[0]), (None if r[1] is None else readref(eng, st, r[1]))
    if n == "std::iter::Enumerate" and not back:
        r = it_next(eng, st, getf(it, "iter"))
        if r is None:
            return None
        if r[1] is None:
            return setf(it, "iter", r[0]), None
        c = getf(it, "count")
        return setf(setf(it, "iter", r[0]), "count", add(c, ONE)), tup(c, r[1])
    return None


def into_iter_val(eng, st, v, t):
    """IntoIterator::into_iter on a value of type t"""
    if v.op == "S" and v.a[0] in (ITER, "own", RANGE) or (v.op == "S" and str(v.a[0]).startswith("std::iter::")):
        return v
    k = t.get("k") if t else None
    if k == "ref":
        return mkiter(eng, st, v)
    if t and t.get("n") == "std::vec::Vec" or k == "array":
        v = st.norm(v)
        return S("own", None, [("src", v), ("i", ZERO), ("n", seqlen(v))])
    return None


def _next(back):
    def f(eng, st, fr, fn, u, a):
        root, proj = eng.deref(st, a[0], "r")
        it = st.norm(eng.read(st, root, proj))
        r = it_next(eng, st, it, back)
        if r is None:
            return NotImplemented
        eng.write(st, root, proj, r[0])
        return NONE if r[1] is None else some(r[1])
    return f


for _n in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
           "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
           "<std::iter::Zip<A, B> as std::iter::Iterator>::next", "<std::iter::Rev<I> as std::iter::Iterator>::next",
           "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next",
           "<std::iter::Enumerate<I> as std::iter::Iterator>::next",
           "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
           "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
           "<std::array::IntoIter<T, N> as std::iter::Iterator>::next",
           "std::iter::Iterator::next"):
    MODELS[_n] = _next(False)
for _n in ("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
           "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back",
           "std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back",
           "<std::iter::Rev<I> as std::iter::DoubleEndedIterator>::next_back",
           "<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back",
           "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back"):
    MODELS[_n] = _next(True)


@model("<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def slice_iter(eng, st, fr, fn, u, a):
    return mkiter(eng, st, a[0])


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::array::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def vec_into_iter(eng, st, fr, fn, u, a):
    return S("own", None, [("src", a[0]), ("i", ZERO), ("n", seqlen(a[0]))])


@model("std::vec::Vec::<T, A>::drain")
def vec_drain(eng, st, fr, fn, u, a):
    r = st.norm(a[1])
    v = seqval(eng, st, a[0])
    n = seqlen(v)
    name = r.a[0] if r.op == "S" else ""
    start, end = ZERO, n
    if name == RANGE:
        start, end = getf(r, "start"), getf(r, "end")
    elif name == "std::ops::RangeFrom":
        start = getf(r, "start")
    elif name == "std::ops::RangeTo":
        end = getf(r, "end")
    elif not str(name).endswith("RangeFull") and "RangeFull" not in str(fn["a"]) and \
            not any(eng.p.tys[x].get("n") == "std::ops::RangeFull" for x in fn["a"] if x is not None):
        return NotImplemented
    eng.sure(st, le(start, end))
    eng.sure(st, le(end, n))
    if st.known(eq(end, n)) is not True:
        return NotImplemented
    setseq(eng, st, a[0], mk("vempty") if st.known(eq(start, ZERO)) else mk("vsub", v, ZERO, start))
    return S("own", None, [("src", v), ("i", start), ("n", end)])


@model("<I as std::iter::IntoIterator>::into_iter")
def ident_into(eng, st, fr, fn, u, a):
    return a[0]


@model("std::iter::zip", "std::iter::Iterator::zip")
def zip_(eng, st, fr, fn, u, a):
    x = into_iter_val(eng, st, a[0], argty(eng, 0))
    y = into_iter_val(eng, st, a[1], argty(eng, 1))
    if x is None or y is None:
        return NotImplemented
    return S("std::iter::Zip", None, [("a", x), ("b", y)])


@model("std::iter::Iterator::rev")
def rev(eng, st, fr, fn, u, a):
    return S("std::iter::Rev", None, [("iter", a[0])])


@model("std::iter::Iterator::copied")
def copied(eng, st, fr, fn, u, a):
    return S("std::iter::Copied", None, [("it", a[0])])


@model("std::iter::Iterator::cloned")
def cloned(eng, st, fr, fn, u, a):
    return S("std::iter::Cloned", None, [("it", a[0])])


@model("std::iter::Iterator::enumerate")
def enum_(eng, st, fr, fn, u, a):
    return S("std::iter::Enumerate", None, [("iter", a[0]), ("count", ZERO)])


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "std::iter::ExactSizeIterator::len")
def it_len(eng, st, fr, fn, u, a):
    it = readref(eng, st, a[0])
    if it.op == "S" and it.a[0] in (ITER, "own"):
        return sub(getf(it, "n"), getf(it, "i"))
    t = argty(eng, 0)
    if eng.p.tys[t["t"]].get("n") == RANGE if t.get("k") == "ref" else False:
        i, e = getf(it, "start"), getf(it, "end")
        return sub(e, i) if st.decide(lt(i, e)) else ZERO
    return NotImplemented


def advance(st, it, n, back=False):
    """the iterator without its next n items, or None"""
    k = it.a[0] if it.op == "S" else None
    if k in (ITER, "own", RANGE):
        a, b = ("start", "end") if k == RANGE else ("i", "n")
        i, e = getf(it, a), getf(it, b)
        if back:
            return setf(it, b, sub(e, n) if st.decide(le(add(i, n), e)) else i)
        return setf(it, a, add(i, n) if st.decide(le(add(i, n), e)) else e)
    for w, f, r in (("Rev", "iter", True), ("Copied", "it", False), ("Cloned", "it", False)):
        if k == "std::iter::" + w:
            x = advance(st, getf(it, f), n, back != r)
            return None if x is None else setf(it, f, x)
    if k == "std::iter::Enumerate" and not back:
        x = advance(st, getf(it, "iter"), n)
        return None if x is None else setf(setf(it, "iter", x), "count", add(getf(it, "count"), n))
    return None


@model("std::iter::Iterator::skip")
def skip_(eng, st, fr, fn, u, a):
    x = advance(st, st.norm(a[0]), st.norm(a[1]))
    return NotImplemented if x is None else x


@model("std::iter::Iterator::take")
def take_(eng, st, fr, fn, u, a):
    it, n = st.norm(a[0]), st.norm(a[1])
    k = it.a[0] if it.op == "S" else None
    if k in (ITER, "own", RANGE):
        x, y = ("start", "end") if k == RANGE else ("i", "n")
        i, e = getf(it, x), getf(it, y)
        return setf(it, y, add(i, n)) if st.decide(le(add(i, n), e)) else it
    return NotImplemented


# ------------------------------------------------------------------ Vec / slice

@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def vec_new(eng, st, fr, fn, u, a):
    return mk("vempty")


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref")
def vec_deref(eng, st, fr, fn, u, a):
    return a[0]


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def vec_len(eng, st, fr, fn, u, a):
    if a[0].op == "fat":
        return a[0].a[2]
    return seqlen(seqval(eng, st, a[0]))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def vec_is_empty(eng, st, fr, fn, u, a):
    return eq(vec_len(eng, st, fr, fn, u, a), ZERO)


@model("std::vec::Vec::<T, A>::capacity")
def vec_cap(eng, st, fr, fn, u, a):
    return mk("capacity", seqval(eng, st, a[0]))


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve_exact")
def vec_noop(eng, st, fr, fn, u, a):
    return UNIT


@model("std::vec::Vec::<T, A>::push")
def vec_push(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    setseq(eng, st, a[0], mk("vpush", v, a[1]))
    return UNIT


@model("std::vec::Vec::<T, A>::pop")
def vec_pop(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    n = seqlen(v)
    if st.decide(eq(n, ZERO)):
        return NONE
    if v.op == "vpush":
        setseq(eng, st, a[0], v.a[0])
        return some(v.a[1])
    x = eng.at(st, v, sub(n, ONE))
    setseq(eng, st, a[0], mk("vpop", v))
    return some(x)


@model("std::vec::Vec::<T, A>::insert")
def vec_insert(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    i = st.norm(a[1])
    eng.sure(st, le(i, seqlen(v)))
    if st.known(eq(i, seqlen(v))):
        setseq(eng, st, a[0], mk("vpush", v, a[2]))
    else:
        setseq(eng, st, a[0], mk("vins", v, i, a[2]))
    return UNIT


@model("std::vec::Vec::<T, A>::remove")
def vec_remove(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    i = st.norm(a[1])
    n = seqlen(v)
    eng.sure(st, lt(i, n))
    x = eng.at(st, v, i)
    if st.known(eq(i, sub(n, ONE))):
        setseq(eng, st, a[0], mk("vpop", v))
    else:
        setseq(eng, st, a[0], mk("vrem", v, i))
    return x


@model("std::vec::Vec::<T, A>::swap_remove")
def vec_swap_remove(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    i = st.norm(a[1])
    n = seqlen(v)
    eng.sure(st, lt(i, n))
    x = eng.at(st, v, i)
    if st.known(eq(i, sub(n, ONE))):
        setseq(eng, st, a[0], mk("vpop", v))
    else:
        setseq(eng, st, a[0], mk("vswrm", v, i))
    return x


@model("std::vec::Vec::<T, A>::clear")
def vec_clear(eng, st, fr, fn, u, a):
    setseq(eng, st, a[0], mk("vempty"))
    return UNIT


@model("std::vec::Vec::<T, A>::truncate")
def vec_trunc(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    n = st.norm(a[1])
    if n is ZERO:
        setseq(eng, st, a[0], mk("vempty"))
        return UNIT
    if st.decide(le(seqlen(v), n)):
        return UNIT
    if st.known(eq(n, sub(seqlen(v), ONE))):
        setseq(eng, st, a[0], mk("vpop", v))
        return UNIT
    setseq(eng, st, a[0], mk("vtrunc", v, n))
    return UNIT


@model("core::slice::<impl [T]>::swap")
def vec_swap(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    x, y = eng.at(st, v, a[1]), eng.at(st, v, a[2])
    if st.decide(eq(a[1], a[2])):
        return UNIT
    setseq(eng, st, a[0], vset(vset(v, st.norm(a[1]), y), st.norm(a[2]), x))
    return UNIT


@model("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr",
       "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def vec_as_ptr(eng, st, fr, fn, u, a):
    t = ty(eng, fn["a"][0])
    if a[0].op == "fat":
        return mk("ptr", a[0].a[0], a[0].a[1])
    v = seqval(eng, st, a[0])
    if v.op == "rawseq":
        return mk("ptr", v.a[0], v.a[1])
    return mk("ptr", mk("vbuf", v, t.get("sz") or eng.tsize(fn["a"][0])), ZERO)


def _is_usize(eng, n):
    return argty(eng, n).get("n") == "usize"


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def vec_index(eng, st, fr, fn, u, a):
    if not _is_usize(eng, 1):
        return subslice(eng, st, a[0], a[1])
    i = st.norm(a[1])
    eng.sure(st, lt(i, seqlen(seqval(eng, st, a[0]))))
    return elemref(eng, st, a[0], i)


def subslice(eng, st, r, rng):
    v = seqval(eng, st, r)
    n = seqlen(v)
    name = rng.a[0] if rng.op == "S" else None
    lo, hi = ZERO, n
    if name == RANGE:
        lo, hi = getf(rng, "start"), getf(rng, "end")
    elif name == "std::ops::RangeTo":
        hi = getf(rng, "end")
    elif name == "std::ops::RangeFrom":
        lo = getf(rng, "start")
    elif name == "std::ops::RangeFull":
        pass
    else:
        raise Limit("slice index " + str(name))
    if lo is ZERO and hi is n:
        return r
    eng.sure(st, le(lo, hi))
    eng.sure(st, le(hi, n))
    if r.op == "fat":
        return mk("fat", r.a[0], add(r.a[1], mul(lo, r.a[3])), sub(hi, lo), r.a[3])
    root, proj = seqref(eng, st, r)
    return eng.mkref(root, list(proj) + [("sub", lo, sub(hi, lo))])


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def vec_get_unchecked(eng, st, fr, fn, u, a):
    if not _is_usize(eng, 1):
        return subslice(eng, st, a[0], a[1])
    return elemref(eng, st, a[0], st.norm(a[1]))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def vec_get(eng, st, fr, fn, u, a):
    if not _is_usize(eng, 1):
        return NotImplemented
    i = st.norm(a[1])
    if st.decide(lt(i, seqlen(seqval(eng, st, a[0])))):
        return some(elemref(eng, st, a[0], i))
    return NONE


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def vec_first(eng, st, fr, fn, u, a):
    n = seqlen(seqval(eng, st, a[0]))
    if st.decide(eq(n, ZERO)):
        return NONE
    return some(elemref(eng, st, a[0], ZERO))


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def vec_last(eng, st, fr, fn, u, a):
    n = seqlen(seqval(eng, st, a[0]))
    if st.decide(eq(n, ZERO)):
        return NONE
    return some(elemref(eng, st, a[0], sub(n, ONE)))


def found(seq, key):
    return mk("pred", "found", seq, key)


def is_sorted(eng, st, v):
    """v is known to be strictly ascending"""
    if v in eng.sorted or v.op == "vempty":
        return True
    if v.op == "vins":
        b, i, x = v.a
        return is_sorted(eng, st, b) and st.known(found(b, x)) is False and st.norm(mk("bsidx", b, x)) is st.norm(i)
    if v.op == "vrem":
        return is_sorted(eng, st, v.a[0])
    return False


def member(eng, st, v, key):
    """key occurs in v (decided, forking where needed)"""
    while True:
        v = st.norm(v)
        if v.op == "vempty":
            return False
        if v.op == "vins":
            if st.decide(eq(v.a[2], key)):
                return True
            v = v.a[0]
        elif v.op == "vpush":
            if st.decide(eq(v.a[1], key)):
                return True
            v = v.a[0]
        elif v.op == "vsort":
            v = v.a[0]
        elif v.op == "vlit":
            for x in v.a:
                if st.decide(eq(x, key)):
                    return True
            return False
        else:
            return st.decide(found(v, key))


def index_of(eng, st, v, key):
    """position of key in sorted v, or its insertion point; None when unknown"""
    v = st.norm(v)
    if v.op == "vins" and is_sorted(eng, st, v):
        b, i, x = v.a
        if st.decide(eq(x, key)):
            return i
        j = index_of(eng, st, b, key)
        if member(eng, st, b, key):
            return j if st.decide(lt(j, i)) else add(j, ONE)
        return None
    if v.op == "vempty":
        return ZERO
    return mk("bsidx", v, key)


@model("core::slice::<impl [T]>::contains")
def contains_(eng, st, fr, fn, u, a):
    if eng.p.tys[fn["a"][0]].get("n") in eng.p.adts:
        # compared by code of the crate: see the shim
        return NotImplemented
    v, key = seqval(eng, st, a[0]), readref(eng, st, a[1])
    there = member(eng, st, v, key)
    if there:
        v = st.norm(v)
        i = mk("bsidx", v, key)
        st.assume(ge0(i), lt(i, seqlen(v)))
        x = eng.at(st, v, i)
        if not isbool(x) and x.op != "S":
            st.assume(eq(x, key))
    return B(there)


@model("core::slice::<impl [T]>::binary_search")
def bsearch(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    key = readref(eng, st, a[1])
    st.ev = Node(("bsearch", v, key, eng.where(st)), st.ev)
    if v.op == "vins" and is_sorted(eng, st, v):
        there = member(eng, st, v, key)
        i = index_of(eng, st, v, key)
        if i is None:
            i = mk("bsidx", v, key)
    else:
        i = mk("bsidx", v, key)
        there = st.decide(found(v, key))
    if there:
        st.assume(lt(i, seqlen(v)))
        x = eng.at(st, v, i)
        if not isbool(x) and x.op != "S":
            st.assume(eq(x, key))
        return okv(i)
    st.assume(le(i, seqlen(v)))
    return errv(i)


@model("std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key",
       "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable",
       "core::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_by_cached_key")
def sort_(eng, st, fr, fn, u, a):
    v = seqval(eng, st, a[0])
    # what the key closure reads, named by its unit
    cid = -1
    if len(a) > 1:
        ct = argty(eng, 1)
        cid = ct.get("i", ct.get("s", -1))
    r = mk("vsort", v, str(cid))
    st.ev = Node(("sort", v, u["n"], eng.where(st), r, argty(eng, 1).get("n") if len(a) > 1 else None), st.ev)
    setseq(eng, st, a[0], r)
    return UNIT


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts",
       "std::ptr::slice_from_raw_parts_mut")
def from_raw(eng, st, fr, fn, u, a):
    p = toptr(a[0])
    if p.a[0].op == "vbuf" and p.a[1] is ZERO:
        pass
    return mk("fat", p.a[0], p.a[1], a[1], eng.tsize(fn["a"][0]))


# sequence equality
def _seqeq(eng, st, fr, fn, u, a):
    x, y = a
    # & & [T] or & [T]
    vx = readref(eng, st, x)
    if vx.op in ("fat", "ref"):
        vx = seqval(eng, st, vx)
    vy = readref(eng, st, y)
    if vy.op in ("fat", "ref"):
        vy = seqval(eng, st, vy)
    if vx is vy:
        return TRUE
    return band(eq(seqlen(vx), seqlen(vy)), mk("pred", "seqeq", *sorted((vx, vy), key=lambda t: t.id)))


MODELS["core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq"] = _seqeq
MODELS["<std::vec::Vec<T, A1> as std::cmp::PartialEq<std::vec::Vec<U, A2>>>::eq"] = _seqeq


# ------------------------------------------------------------------ raw pointers

def _ptradd(sign):
    def f(eng, st, fr, fn, u, a):
        p = toptr(a[0])
        n = eng.tsize(fn["a"][0])
        return mkptr(p.a[0], add(p.a[1], scale(mul(st.norm(a[1]), n), sign)))
    return f


for _k in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    b = f"std::ptr::{_k}::"
    for _m in ("add", "wrapping_add", "offset", "wrapping_offset"):
        MODELS[b + _m] = _ptradd(1)
    for _m in ("sub", "wrapping_sub"):
        MODELS[b + _m] = _ptradd(-1)


def _badd(sign):
    def f(eng, st, fr, fn, u, a):
        p = toptr(a[0])
        return mkptr(p.a[0], add(p.a[1], scale(st.norm(a[1]), sign)))
    return f


for _k in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    MODELS[f"std::ptr::{_k}::byte_add"] = _badd(1)
    MODELS[f"std::ptr::{_k}::byte_sub"] = _badd(-1)


@model("std::ptr::const_ptr::<impl *const T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast",
       "std::ptr::mut_ptr::<impl *mut T>::cast_const", "std::ptr::const_ptr::<impl *const T>::cast_mut",
       "std::ptr::NonNull::<T>::as_ptr", "std::ptr::NonNull::<T>::new_unchecked",
       "std::ptr::NonNull::<T>::cast")
def ptr_cast(eng, st, fr, fn, u, a):
    return a[0]


@model("std::ptr::null", "std::ptr::null_mut")
def null(eng, st, fr, fn, u, a):
    return mk("ptr", mk("null"), ZERO)


@model("std::ptr::const_ptr::<impl *const T>::is_null", "std::ptr::mut_ptr::<impl *mut T>::is_null")
def is_null(eng, st, fr, fn, u, a):
    p = toptr(a[0])
    if p.a[0].op == "null":
        return TRUE
    if p.a[0].op in ("new", "dangling", "rbase", "vbuf"):
        return FALSE
    return mk("pred", "isnull", p.a[0])


@model("std::ptr::NonNull::<T>::dangling", "std::ptr::dangling", "std::ptr::dangling_mut")
def dangling(eng, st, fr, fn, u, a):
    return mk("ptr", mk("dangling"), ZERO)


def rdptr(eng, st, p, t):
    root, proj = eng.deref(st, p, "p", t)
    return eng.read(st, root, proj)


def wrptr(eng, st, p, t, v):
    root, proj = eng.deref(st, p, "p", t)
    eng.write(st, root, proj, v)


@model("std::ptr::mut_ptr::<impl *mut T>::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::read")
def ptr_read(eng, st, fr, fn, u, a):
    v = st.norm(rdptr(eng, st, a[0], fn["a"][0]))
    t = ty(eng, fn["a"][0])
    if t.get("nd", True):
        st.ev = Node(("moveout", a[0], v, eng.where(st)), st.ev)
    return v


@model("std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::write")
def ptr_write(eng, st, fr, fn, u, a):
    wrptr(eng, st, a[0], fn["a"][0], a[1])
    return UNIT


@model("std::ptr::mut_ptr::<impl *mut T>::replace", "std::ptr::replace")
def ptr_replace(eng, st, fr, fn, u, a):
    v = st.norm(rdptr(eng, st, a[0], fn["a"][0]))
    wrptr(eng, st, a[0], fn["a"][0], a[1])
    return v


def _copy(fwd):
    def f(eng, st, fr, fn, u, a):
        s, d = (a[0], a[1]) if fwd else (a[1], a[0])
        eng.memcpy(st, toptr(s), toptr(d), st.norm(a[2]), eng.tsize(fn["a"][0]))
        return UNIT
    return f


for _k in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
    for _m in ("copy_to_nonoverlapping", "copy_to"):
        MODELS[f"std::ptr::{_k}::{_m}"] = _copy(True)
    for _m in ("copy_from_nonoverlapping", "copy_from"):
        MODELS[f"std::ptr::{_k}::{_m}"] = _copy(False)
MODELS["std::ptr::copy_nonoverlapping"] = _copy(True)
MODELS["std::ptr::copy"] = _copy(True)
MODELS["std::intrinsics::copy_nonoverlapping"] = _copy(True)
MODELS["std::intrinsics::copy"] = _copy(True)


@model("std::ptr::mut_ptr::<impl *mut T>::write_bytes", "std::ptr::write_bytes", "std::intrinsics::write_bytes")
def write_bytes(eng, st, fr, fn, u, a):
    p = toptr(a[0])
    n = mul(st.norm(a[2]), eng.tsize(fn["a"][0]))
    eng.check_live(st, st.norm(p.a[0]))
    if eng.onaccess:
        eng.onaccess(st, p.a[0], p.a[1], n)
    st.log = Node(("fill", st.norm(p.a[0]), st.norm(p.a[1]), st.norm(n), st.norm(a[1])), st.log)
    return UNIT


@model("std::ptr::mut_ptr::<impl *mut T>::as_ref", "std::ptr::mut_ptr::<impl *mut T>::as_mut",
       "std::ptr::const_ptr::<impl *const T>::as_ref")
def ptr_as_ref(eng, st, fr, fn, u, a):
    p = a[0]
    if is_null(eng, st, fr, fn, u, [p]) is TRUE:
        return NONE
    n = is_null(eng, st, fr, fn, u, [p])
    if n is not FALSE and st.decide(n):
        return NONE
    return some(p)


@model("std::ptr::NonNull::<T>::as_ref", "std::ptr::NonNull::<T>::as_mut")
def nn_as_ref(eng, st, fr, fn, u, a):
    return readref(eng, st, a[0])


@model("std::ptr::mut_ptr::<impl *mut T>::drop_in_place", "std::ptr::drop_in_place")
def drop_in_place(eng, st, fr, fn, u, a):
    v = st.norm(rdptr(eng, st, a[0], fn["a"][0]))
    st.ev = Node(("drop", ty(eng, fn["a"][0])["s"], v, eng.where(st)), st.ev)
    return UNIT


# ------------------------------------------------------------------ allocation

LAY = "std::alloc::Layout"


@model("std::alloc::Layout::from_size_align_unchecked")
def layout(eng, st, fr, fn, u, a):
    return S(LAY, None, [("size", a[0]), ("align", a[1])])


@model("std::alloc::Layout::from_size_align")
def layout_chk(eng, st, fr, fn, u, a):
    return okv(S(LAY, None, [("size", a[0]), ("align", a[1])]))


@model("std::alloc::Layout::array")
def layout_arr(eng, st, fr, fn, u, a):
    t = fn["a"][0]
    return okv(S(LAY, None, [("size", mul(eng.tsize(t), a[0])), ("align", eng.talign(t))]))


@model("std::alloc::Layout::new")
def layout_new(eng, st, fr, fn, u, a):
    t = fn["a"][0]
    return S(LAY, None, [("size", eng.tsize(t)), ("align", eng.talign(t))])


@model("std::alloc::Layout::size")
def layout_size(eng, st, fr, fn, u, a):
    return getf(readref(eng, st, a[0]), "size")


@model("std::alloc::Layout::align")
def layout_align(eng, st, fr, fn, u, a):
    return getf(readref(eng, st, a[0]), "align")


def _alloc(zeroed):
    def f(eng, st, fr, fn, u, a):
        b = mk("new", next(eng.uid), *st.ks())
        l = a[0]
        st.log = Node(("alloc", b, zeroed, st.norm(getf(l, "size")), st.norm(getf(l, "align")), eng.where(st)), st.log)
        return mk("ptr", b, ZERO)
    return f


MODELS["std::alloc::alloc"] = _alloc(False)
MODELS["std::alloc::alloc_zeroed"] = _alloc(True)


@model("std::alloc::dealloc")
def dealloc(eng, st, fr, fn, u, a):
    p = toptr(a[0])
    l = a[1]
    eng.check_live(st, st.norm(p.a[0]))
    st.log = Node(("free", st.norm(p.a[0]), st.norm(getf(l, "size")), st.norm(getf(l, "align")), st.norm(p.a[1]), eng.where(st)), st.log)
    return UNIT


@model("std::alloc::realloc")
def realloc(eng, st, fr, fn, u, a):
    p = toptr(a[0])
    l = a[1]
    old, al = st.norm(getf(l, "size")), st.norm(getf(l, "align"))
    new = st.norm(a[2])
    b = mk("new", next(eng.uid), *st.ks())
    st.log = Node(("alloc", b, False, new, al, eng.where(st)), st.log)
    n = old if st.decide(le(old, new)) else new
    st.log = Node(("cp", b, ZERO, st.norm(p.a[0]), st.norm(p.a[1]), n), st.log)
    st.log = Node(("free", st.norm(p.a[0]), old, al, st.norm(p.a[1]), eng.where(st)), st.log)
    return mk("ptr", b, ZERO)


@model("std::alloc::handle_alloc_error")
def hae(eng, st, fr, fn, u, a):
    raise Stop("abort", "allocation failure")


# ------------------------------------------------------------------ mem / types

MD = "std::mem::ManuallyDrop"


@model("std::mem::size_of")
def size_of(eng, st, fr, fn, u, a):
    return eng.tsize(fn["a"][0])


@model("std::mem::align_of")
def align_of(eng, st, fr, fn, u, a):
    return eng.talign(fn["a"][0])


@model("std::mem::needs_drop")
def needs_drop(eng, st, fr, fn, u, a):
    t = ty(eng, fn["a"][0])
    if not t.get("nd", True):
        return FALSE
    return mk("pred", "needs_drop", mk("const", t["s"]))


@model("std::mem::ManuallyDrop::<T>::new")
def md_new(eng, st, fr, fn, u, a):
    return S(MD, None, [("value", a[0])])


@model("<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref", "<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut")
def md_deref(eng, st, fr, fn, u, a):
    root, proj = eng.deref(st, a[0], "r")
    if root[0] == "R" and not proj:
        return mk("ptr", root[1], root[2]) if True else None
    return eng.mkref(root, list(proj) + [("f", "value")])


@model("std::mem::ManuallyDrop::<T>::take")
def md_take(eng, st, fr, fn, u, a):
    v = readref(eng, st, a[0])
    st.ev = Node(("moveout", a[0], v, eng.where(st)), st.ev)
    return getf(v, "value")


@model("std::mem::ManuallyDrop::<T>::into_inner")
def md_into(eng, st, fr, fn, u, a):
    return getf(a[0], "value")


@model("std::mem::ManuallyDrop::<T>::drop")
def md_drop(eng, st, fr, fn, u, a):
    v = readref(eng, st, a[0])
    st.ev = Node(("drop", ty(eng, fn["a"][0])["s"], getf(v, "value"), eng.where(st), a[0]), st.ev)
    return UNIT


@model("std::mem::forget")
def forget(eng, st, fr, fn, u, a):
    st.ev = Node(("forget", a[0], eng.where(st)), st.ev)
    return UNIT


@model("std::mem::drop")
def mem_drop(eng, st, fr, fn, u, a):
    t = ty(eng, fn["a"][0])
    if t.get("nd", True):
        st.ev = Node(("drop", t["s"], a[0], eng.where(st)), st.ev)
    return UNIT


@model("std::mem::replace")
def mem_replace(eng, st, fr, fn, u, a):
    v = readref(eng, st, a[0])
    writeref(eng, st, a[0], a[1])
    return v


@model("std::mem::swap")
def mem_swap(eng, st, fr, fn, u, a):
    x, y = readref(eng, st, a[0]), readref(eng, st, a[1])
    writeref(eng, st, a[0], y)
    writeref(eng, st, a[1], x)
    return UNIT


@model("std::mem::take")
def mem_take(eng, st, fr, fn, u, a):
    v = readref(eng, st, a[0])
    t = ty(eng, fn["a"][0])
    if t.get("n") == "std::vec::Vec":
        d = mk("vempty")
    elif t.get("k") == "prim":
        d = FALSE if t["n"] == "bool" else ZERO
    else:
        return NotImplemented
    writeref(eng, st, a[0], d)
    return v


def typeid(eng, t):
    return mk("typeid", eng.tyname(eng.p.tys[t]["s"]))


@model("std::any::TypeId::of")
def type_id_of(eng, st, fr, fn, u, a):
    return typeid(eng, fn["a"][0])


@model("std::any::type_name")
def type_name(eng, st, fr, fn, u, a):
    return mk("typename", eng.tyname(eng.p.tys[fn["a"][0]]["s"]))


def _derefeq(depth, ne=False):
    def f(eng, st, fr, fn, u, a):
        x, y = a
        for _ in range(depth):
            x, y = readref(eng, st, x), readref(eng, st, y)
        r = eq(x, y)
        return neg(r) if ne else r
    return f


MODELS["<std::any::TypeId as std::cmp::PartialEq>::eq"] = _derefeq(1)
MODELS["<std::any::TypeId as std::cmp::PartialEq>::ne"] = _derefeq(1, True)


def _tcmp(f):
    def g(eng, st, fr, fn, u, a):
        t = argty(eng, 0)
        x, y = readref(eng, st, a[0]), readref(eng, st, a[1])
        tt = eng.p.tys[t["t"]] if t.get("k") == "ref" else {}
        while tt.get("k") == "ref":
            x, y = readref(eng, st, x), readref(eng, st, y)
            tt = eng.p.tys[tt["t"]]
        if tt.get("k") == "prim" or tt.get("n") == "std::any::TypeId":
            return f(x, y)
        return NotImplemented
    return g


MODELS["std::cmp::PartialOrd::gt"] = _tcmp(lambda x, y: lt(y, x))
MODELS["std::cmp::PartialOrd::ge"] = _tcmp(lambda x, y: le(y, x))
MODELS["std::cmp::PartialOrd::lt"] = _tcmp(lambda x, y: lt(x, y))
MODELS["std::cmp::PartialOrd::le"] = _tcmp(lambda x, y: le(x, y))


@model("<std::any::TypeId as std::cmp::Ord>::cmp", "std::cmp::impls::<impl std::cmp::Ord for usize>::cmp",
       "std::cmp::impls::<impl std::cmp::Ord for u32>::cmp")
def ordcmp(eng, st, fr, fn, u, a):
    x, y = readref(eng, st, a[0]), readref(eng, st, a[1])
    return eng.binop(st, "Cmp", st.norm(x), st.norm(y), {})


@model("std::cmp::max", "std::cmp::Ord::max")
def cmax(eng, st, fr, fn, u, a):
    x, y = st.norm(a[0]), st.norm(a[1])
    if ty(eng, fn["a"][0]).get("k") != "prim":
        return NotImplemented
    return y if st.decide(le(x, y)) else x


@model("std::cmp::min", "std::cmp::Ord::min")
def cmin(eng, st, fr, fn, u, a):
    x, y = st.norm(a[0]), st.norm(a[1])
    if ty(eng, fn["a"][0]).get("k") != "prim":
        return NotImplemented
    return x if st.decide(le(x, y)) else y


MODELS["std::cmp::impls::<impl std::cmp::Ord for usize>::max"] = cmax
MODELS["std::cmp::impls::<impl std::cmp::Ord for u32>::max"] = cmax


@model("<&usize as std::ops::Rem<usize>>::rem")
def rem_ref(eng, st, fr, fn, u, a):
    return trem(st.norm(readref(eng, st, a[0])), st.norm(a[1]))


# ------------------------------------------------------------------ numbers

def _num(name):
    def d(f):
        for t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"):
            MODELS[f"core::num::<impl {t}>::{name}"] = f
        return f
    return d


@_num("wrapping_add")
def wadd(eng, st, fr, fn, u, a):
    return add(a[0], a[1])


@_num("wrapping_sub")
def wsub(eng, st, fr, fn, u, a):
    if st.decide(le(st.norm(a[1]), st.norm(a[0]))):
        return sub(a[0], a[1])
    return mk("wrap", sub(a[0], a[1]))


@_num("saturating_sub")
def ssub(eng, st, fr, fn, u, a):
    if st.decide(le(st.norm(a[1]), st.norm(a[0]))):
        return sub(a[0], a[1])
    return ZERO


@_num("saturating_add")
def sadd(eng, st, fr, fn, u, a):
    return add(a[0], a[1])


@_num("checked_sub")
def csub(eng, st, fr, fn, u, a):
    if st.decide(le(st.norm(a[1]), st.norm(a[0]))):
        return some(sub(a[0], a[1]))
    return NONE


@_num("checked_add")
def cadd(eng, st, fr, fn, u, a):
    return some(add(a[0], a[1]))


@_num("checked_mul")
def cmul(eng, st, fr, fn, u, a):
    return some(mul(a[0], a[1]))


@_num("div_ceil")
def divceil(eng, st, fr, fn, u, a):
    return tdiv(add(a[0], sub(a[1], ONE)), a[1])


@_num("next_multiple_of")
def nmo(eng, st, fr, fn, u, a):
    r = trem(a[0], a[1])
    if st.decide(eq(r, ZERO)):
        return a[0]
    return add(a[0], sub(a[1], r))


@_num("is_power_of_two")
def ispow2(eng, st, fr, fn, u, a):
    return mk("pred", "ispow2", a[0])


# ------------------------------------------------------------------ misc

@model("std::option::Option::<T>::unwrap_unchecked")
def unwrap_unchecked(eng, st, fr, fn, u, a):
    v = st.norm(a[0])
    if v.op == "S":
        if v.a[1] == "Some":
            return getf(v, "0")
        raise Stop("ub", "unwrap_unchecked on None at " + str(eng.where(st)))
    return getf(v, "Some.0")


@model("<std::marker::PhantomData<T> as std::default::Default>::default")
def phantom(eng, st, fr, fn, u, a):
    return mk("const", "PhantomData")


@model("std::intrinsics::unlikely", "std::intrinsics::likely", "std::hint::black_box", "std::convert::identity")
def ident(eng, st, fr, fn, u, a):
    return a[0]


@model("std::hint::assert_unchecked")
def assert_unchecked(eng, st, fr, fn, u, a):
    st.assume(a[0])
    return UNIT


@model("std::hint::unreachable_unchecked")
def unreach(eng, st, fr, fn, u, a):
    raise Stop("ub", "unreachable_unchecked at " + str(eng.where(st)))


@model("std::intrinsics::cold_path", "core::ub_checks::check_language_ub", "std::hint::spin_loop")
def unit_(eng, st, fr, fn, u, a):
    return UNIT


def fmt_(eng, st, fr, fn, u, a):
    return mk("const", "fmt")


def panic_(eng, st, fr, fn, u, a):
    raise Stop("panic", f"{u['n']} at {eng.where(st)}")


for _p in ("core::fmt::", "std::fmt::", "<std::fmt::", "alloc::fmt::", "std::io::", "<std::string::"):
    PREFIX.append((_p, fmt_))
for _p in ("core::panicking::", "std::rt::panic", "std::rt::begin_panic", "core::option::unwrap_failed", "std::process::abort",
           "core::result::unwrap_failed"):
    PREFIX.append((_p, panic_))

ALLOW = [
    "std::option::", "<std::option::", "std::result::", "<std::result::", "std::iter::", "<std::iter::",
    "<I as std::iter::", "<F as ", "<T as ", "<U as ", "std::cmp::", "<bool", "std::bool", "core::bool",
    "std::convert::", "core::num::", "std::num::", "std::ops::", "<std::ops::", "std::clone", "core::clone",
    "<&", "std::array::", "core::array::", "std::mem::", "std::ptr::", "core::ptr::", "std::slice::", "core::slice::",
    "core::tuple::", "std::tuple::", "<std::any::", "std::intrinsics::", "std::default", "std::borrow", "core::cmp",
    "<std::cmp", "core::ops", "core::iter", "<(", "<std::marker", "ecs_shims",
]
for _t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "bool"):
    for _r in ("", "&"):
        ALLOW += [f"<{_r}{_t} as std::{_m}::" for _m in ("ops", "default", "clone", "convert")]
