"""helpers shared by the contracts"""
import z3
from cxv.sym import *
from cxv.ast import Ty, Unsupported


def mp(c, v):
    return c.mapf(v)[1]


def sq(c, v):
    return c.seqf(v)[1]


def eqmap(m, dom, valf):
    """m is the map with domain dom(k) and values valf(k)"""
    k = z3.Const(fresh_name("k"), m.dom.sort().domain())
    return z3.ForAll([k], z3.And(m.dom[k] == dom(k), z3.Implies(dom(k), m.val[k] == valf(k))))


def string(c, st, name="key"):
    v = c.S.fresh(c.T("std::string"), name)
    st, p = c.put(st, v, name)
    return st, p, v


def num(c, st, ty, name):
    v = c.S.fresh(c.T(ty), name)
    st, p = c.put(st, v, name)
    return st, p, v


def any_is(c, a, ty):
    """the any holds exactly a value of type ty"""
    return AnyS.tag(a) == c.S.tag(c.T(ty))


def isref(r):
    return isinstance(r, Path)
