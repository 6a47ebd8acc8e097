"""Pieces shared by the units."""
import z3
from sym import *
from verify import Unit, Contract
import lib
import os

# declarations standing in for NuRaft, which is not installed here
_ST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
STUBS = ("-iquote", _ST, "-I" + _ST)


def Imp(a, b):
    return z3.Implies(a, b)


And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If


def uf_all(E, name, vals, rs=B):
    ts = [t for v in vals for t in v.t]
    return E.uf(name, ts, rs)


Hs = usort("Hash")


def hashbyte(E, h, i):
    return E.uf("elem_Hash", [h, z3.IntVal(i)], I)


def frange(i, n):
    return z3.And(0 <= i, i < n)
