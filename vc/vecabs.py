"""Contract of the comparisons of CyclicVecBase<DIM,NONCYCLIC,int> used when callers are verified (established by P03):
a == b is the conjunction of the equalities of the elements, a != b its negation; isExceeded(size) is true exactly when a
non-cyclic element lies outside [0, size)."""
import re
from dom import *
import ir

NOINLINE = [r"CyclicVecBase<\d+, \d+, int>::operator(==|!=)(<int>)?\(", r"CyclicVecBase<\d+, \d+, int>::isExceeded\("]


def elems(ex, st, p, n):
    return [ex.toint(st, ex.load(st, Ptr(p.obj, ex.offadd(p.off, 4 * i), p.hint), ir.tint(32))) for i in range(n)]


def name(ex, st, I):
    return ex.demangle(I.x.v[1:]) if I.x.k == "global" else ex.demangle(ex.ev(st, I.x).obj[1])


def eq(ex, st, I, args):
    m = re.search(r"CyclicVecBase<(\d+), \d+, int>::operator(==|!=)", name(ex, st, I))
    n = int(m.group(1))
    r = band(*[ieq(a, b) for a, b in zip(elems(ex, st, args[0], n), elems(ex, st, args[1], n))])
    return bnot(r) if m.group(2) == "!=" else r


def exceeded(ex, st, I, args):
    m = re.search(r"CyclicVecBase<(\d+), (\d+), int>::isExceeded", name(ex, st, I))
    n = int(m.group(2))
    a, s = elems(ex, st, args[0], n), elems(ex, st, args[1], n)
    for x in s:
        ex.oblig(st, ile(0, x), "size of a map is not negative", "precondition")
    return bnot(band(*[band(ile(0, x), ilt(x, y)) for x, y in zip(a, s)]))


CONTRACTS = [(re.compile(NOINLINE[0]), eq), (re.compile(NOINLINE[1]), exceeded)]
