"""serialization: the buffer, the serializers and the formats"""
from units.common import *
import lib
import text

B_ = "cbdc::buffer"
Z = "cbdc::size_serializer"
R = "cbdc::buffer_serializer"
TOP = z3.IntVal(2 ** 64)


class Clear(Contract):
    fn, short = B_ + "::clear", "buffer::clear"

    def modifies(self, C):
        return ["m_data"]

    def ensures(self, C):
        return [("no byte left", C.this.m_data.len == 0)]


class Append(Contract):
    fn, short = B_ + "::append", "buffer::append"

    def requires(self, C):
        return [("fits", C.this.m_data.len + C.arg(1).z < 2 ** 62)]

    def modifies(self, C):
        return ["m_data"]

    def ensures(self, C):
        o, t, n = C.old.m_data, C.this.m_data, C.arg(1).z
        return [("longer by that much", t.len == o.len + n),
                ("what was there stays", Forall([I], lambda i: Imp(frange(i, o.len), t.at(i).z == o.at(i).z), lambda i: [t.at(i).z])),
                ("the bytes follow in order", Forall([I], lambda i: Imp(And(o.len <= i, i < t.len), t.at(i).z == mem(C.E, C.arg(0), i - o.len)), lambda i: [t.at(i).z]))]


def mem(E, p, i):
    """byte i of the memory a pointer argument points to"""
    return E.uf("mem_byte", [p.t[0], i], I)


class Extend(Contract):
    fn, short = B_ + "::extend", "buffer::extend"

    def requires(self, C):
        return [("fits", C.this.m_data.len + C.arg(0).z < 2 ** 62)]

    def modifies(self, C):
        return ["m_data"]

    def ensures(self, C):
        o, t = C.old.m_data, C.this.m_data
        return [("longer by that much", t.len == o.len + C.arg(0).z), ("what was there stays", Forall([I], lambda i: Imp(frange(i, o.len), t.at(i).z == o.at(i).z), lambda i: [t.at(i).z])),
                ("the rest is zero", Forall([I], lambda i: Imp(And(o.len <= i, i < t.len), t.at(i).z == 0), lambda i: [t.at(i).z]))]


class Size(Contract):
    fn, short = B_ + "::size", "buffer::size"

    def ensures(self, C):
        return [("the number of bytes", C.ret.z == C.old.m_data.len)]


class Equal(Contract):
    fn, short = B_ + "::operator==", "buffer::operator=="

    def ensures(self, C):
        a, b = C.old.m_data, C.arg(0).m_data
        return [("the same bytes", C.ret.z == And(a.len == b.len, Forall([I], lambda i: Imp(frange(i, a.len), a.at(i).z == b.at(i).z))))]


# ---- serializers ----------------------------------------------------------------------------------
class SzBool(Contract):
    fn, short = Z + "::operator bool", "size_serializer::operator bool"

    def ensures(self, C):
        return [("never fails", C.ret.z)]


class SzAdvance(Contract):
    fn, short = Z + "::advance_cursor", "size_serializer::advance_cursor"

    def modifies(self, C):
        return ["m_cursor"]

    def ensures(self, C):
        return [("counts", Imp(C.old.m_cursor.z + C.arg(0).z < TOP, C.this.m_cursor.z == C.old.m_cursor.z + C.arg(0).z))]


class SzReset(Contract):
    fn, short = Z + "::reset", "size_serializer::reset"

    def modifies(self, C):
        return ["m_cursor"]

    def ensures(self, C):
        return [("counts from 0", C.this.m_cursor.z == 0)]


class SzEnd(Contract):
    fn, short = Z + "::end_of_buffer", "size_serializer::end_of_buffer"

    def ensures(self, C):
        return [("has no end", Not(C.ret.z))]


class SzWrite(Contract):
    fn, short = Z + "::write", "size_serializer::write"

    def modifies(self, C):
        return ["m_cursor"]

    def ensures(self, C):
        return [("accepted", C.ret.z), ("counts", Imp(C.old.m_cursor.z + C.arg(1).z < TOP, C.this.m_cursor.z == C.old.m_cursor.z + C.arg(1).z))]


class SzRead(Contract):
    fn, short = Z + "::read", "size_serializer::read"

    def ensures(self, C):
        return [("reads nothing", Not(C.ret.z))] + nothing_written(C)


class SzSize(Contract):
    fn, short = Z + "::size", "size_serializer::size"

    def ensures(self, C):
        return [("the bytes counted", C.ret.z == C.old.m_cursor.z)]


def nothing_written(C):
    return [("no byte is stored", z3.BoolVal(not stores(C.E)))]


def stores(E):
    return [x for x in E.events if x[0] == "store"]


class BsBool(Contract):
    fn, short = R + "::operator bool", "buffer_serializer::operator bool"

    def ensures(self, C):
        return [("valid unless a read failed", C.ret.z == C.old.m_valid.z)]


class BsAdvance(Contract):
    fn, short = R + "::advance_cursor", "buffer_serializer::advance_cursor"

    def modifies(self, C):
        return ["m_cursor"]

    def ensures(self, C):
        return [("moves on", Imp(C.old.m_cursor.z + C.arg(0).z < TOP, C.this.m_cursor.z == C.old.m_cursor.z + C.arg(0).z))]


class BsReset(Contract):
    fn, short = R + "::reset", "buffer_serializer::reset"

    def modifies(self, C):
        return ["m_cursor", "m_valid"]

    def ensures(self, C):
        return [("back to the start, valid again", And(C.this.m_cursor.z == 0, C.this.m_valid.z))]


class BsEnd(Contract):
    fn, short = R + "::end_of_buffer", "buffer_serializer::end_of_buffer"

    def ensures(self, C):
        return [("no byte left to read", C.ret.z == (C.old.m_cursor.z >= C.old.m_pkt.m_data.len))]


class BsWrite(Contract):
    fn, short = R + "::write", "buffer_serializer::write"

    def requires(self, C):
        return [("fits", C.this.m_cursor.z + C.arg(1).z < 2 ** 62)]

    def modifies(self, C):
        return ["m_cursor", "m_pkt"]

    def ensures(self, C):
        o, t, c, n = C.old.m_pkt.m_data, C.this.m_pkt.m_data, C.old.m_cursor.z, C.arg(1).z
        return [("accepted", C.ret.z), ("the cursor moves over it", C.this.m_cursor.z == c + n),
                ("the buffer grows where needed", t.len == If(c + n > o.len, c + n, o.len)),
                ("the bytes are at the cursor, in order", Forall([I], lambda i: Imp(And(c <= i, i < c + n), t.at(i).z == mem(C.E, C.arg(0), i - c)), lambda i: [t.at(i).z])),
                ("nothing else is written", Forall([I], lambda i: Imp(And(0 <= i, i < o.len, Or(i < c, i >= c + n)), t.at(i).z == o.at(i).z), lambda i: [t.at(i).z]))]


class BsRead(Contract):
    fn, short = R + "::read", "buffer_serializer::read"

    def modifies(self, C):
        return ["m_cursor", "m_valid"]

    def ensures(self, C):
        E, o, t, n = C.E, C.old, C.this, C.arg(1).z
        c, d = o.m_cursor.z, o.m_pkt.m_data
        st = stores(E)
        got = z3.BoolVal(False)
        if len(st) == 1:
            _, p, k, src = st[0]
            got = And(p == C.arg(0).t[0], k == n, Forall([I], lambda i: Imp(frange(i, n), src(i) == d.at(c + i).z), lambda i: [src(i)]))
        return [("accepted exactly when that many bytes are left", C.ret.z == (c + n <= d.len)),
                ("stores the bytes at the cursor, in order, and moves over them", Imp(C.ret.z, And(got, t.m_cursor.z == c + n, t.m_valid.z == o.m_valid.z))),
                ("a failed read stores nothing and is remembered", Imp(Not(C.ret.z), And(z3.BoolVal(not st), Not(t.m_valid.z), t.m_cursor.z == c)))]


def memcpy(E, this, args, e, f):
    d, s, n = E.ev(args[0], f), E.ev(args[1], f), E.ev(args[2], f).z
    def vec(p):
        return p is not None and not isinstance(p, Val) and hasattr(p, "cloc")
    def src(i):
        if vec(s):
            return v.at(s.pos + i).z
        return mem(E, s, i)
    if vec(s):
        v = E.read(s.cloc)
        E.oblige("memcpy reads inside the buffer", "safety", Or(n == 0, And(s.pos >= 0, s.pos + n <= v.len)), e)
    if vec(d):
        dv = E.read(d.cloc)
        E.oblige("memcpy writes inside the buffer", "safety", Or(n == 0, And(d.pos >= 0, d.pos + n <= dv.len)), e)
        arr = E.fresh(z3.ArraySort(I, I), "mem")
        rv = Val(dv.T, [dv.len, arr])
        E.assume(Forall([I], lambda i: rv.at(i).z == If(And(d.pos <= i, i < d.pos + n), src(i - d.pos), dv.at(i).z), lambda i: [z3.Select(arr, i)]))
        E.write(d.cloc, rv)
    else:
        E.events.append(("store", d.t[0], n, src))
    return d


class Serial(Unit):
    name = "serial"
    sources = ["src/util/serialization/buffer_serializer.cpp", "src/util/serialization/size_serializer.cpp", "src/util/common/buffer.cpp"]
    contracts = [Clear(), Append(), Extend(), Size(), Equal(), SzBool(), SzAdvance(), SzReset(), SzEnd(), SzWrite(), SzRead(), SzSize(), BsBool(), BsAdvance(), BsReset(), BsEnd(), BsWrite(), BsRead()]
    externs = {"fn": {"memcpy": memcpy, "std::memcpy": memcpy}}
    overrides = dict({k: v for k, v in text.OVERRIDES.items() if k != B_}, **{"void *": TOpaque("Mem"), "const void *": TOpaque("Mem"), B_: None})


unit = Serial()
