"""hexadecimal text: buffer.cpp (to_hex, from_hex, prefixed forms) and hash.cpp (to_string, hash_from_hex)

Strings are sequences of characters and buffers sequences of bytes, so the contracts state every character and byte."""
from units.common import *
import text
from text import STR, ishex, hexval, digit

BF = "cbdc::buffer"
LIMIT = 102400


def S(x):
    return x.len, (lambda i: z3.Select(x.t[1], i))


def data(b):
    return b.m_data if isinstance(b.T, TRec) else b


def encodes(s, d, n=None, upto=None):
    """text s is the lower-case hex form of the first n bytes of d"""
    n = d.len if n is None else n
    ls, cs = S(s)
    return And(ls == 2 * n, Forall([I], lambda j: Imp(frange(j, n), And(
        cs(2 * j) == digit(d.at(j).z / 16), cs(2 * j + 1) == digit(d.at(j).z % 16))), lambda j: [d.at(j).z]))


def decodes(d, s, off=0, n=None):
    """bytes d[0..n) are the values of the digit pairs of s starting at off"""
    n = d.len if n is None else n
    _, cs = S(s)
    return Forall([I], lambda j: Imp(frange(j, n), d.at(j).z == 16 * hexval(cs(off + 2 * j)) + hexval(cs(off + 2 * j + 1))), lambda j: [d.at(j).z])


def allhex(s, off=0, upto=None):
    ls, cs = S(s)
    return Forall([I], lambda i: Imp(And(off <= i, i < (ls if upto is None else upto)), ishex(cs(i))), lambda i: [cs(i)])


def streams(Lc):
    return [v for _, v, _ in Lc.locals(TRec) if v.T is text.STREAM]


class ToHex(Contract):
    fn, short = BF + "::to_hex", "buffer::to_hex"

    def src(self, C):
        return C.old.m_data

    def ensures(self, C):
        return [("two lower-case digits per byte, in order", encodes(C.ret, self.src(C))),
                ("decoding the text gives the bytes back", decodes(self.src(C), C.ret))]

    def loopcands(self, Lc):
        if Lc.pos is None:
            return
        d = self.src(Lc)
        for s in streams(Lc):
            yield "settings", And(s.hex.z, s.fill.z == 48, s.width.z == 0, s.ok.z)
            yield "written so far", encodes(s.buf, d, Lc.pos)


class HashToString(ToHex):
    fn, short, inv = "cbdc::to_string", "cbdc::to_string", False
    nparams = 1

    def src(self, C):
        return C.arg(0)


class FromHex(Contract):
    fn, short = BF + "::from_hex", "buffer::from_hex"

    def ok(self, s):
        n = s.len
        return And(n > 0, n % 2 == 0, n <= LIMIT, allhex(s))

    def ensures(self, C):
        s = C.arg(0)
        d = C.ret.val.m_data
        return [("accepted only if valid", Imp(C.ret.has(), self.ok(s))),
                ("valid text is accepted", Imp(self.ok(s), C.ret.has())),
                ("each byte is the value of its two digits", Imp(C.ret.has(), And(2 * d.len == s.len, decodes(d, s))))]

    def loopcands(self, Lc):
        s = Lc.arg(0)
        for nm, v, _ in Lc.locals(TRec):
            if v.T.q == BF:
                for n2, i, _ in Lc.locals(TInt):
                    yield "even " + n2, And(i.z % 2 == 0, i.z <= s.len, i.z >= 0)
                    yield "two per byte " + n2, 2 * v.m_data.len == i.z
                    yield "decoded so far " + n2, decodes(v.m_data, s)


class ToHexPrefixed(Contract):
    fn, short = BF + "::to_hex_prefixed", "buffer::to_hex_prefixed"

    def ensures(self, C):
        p, d, r = C.arg(0), C.old.m_data, C.ret
        _, cp = S(p)
        _, cr = S(r)
        return [("the prefix", And(r.len == p.len + 2 * d.len, Forall([I], lambda i: Imp(frange(i, p.len), cr(i) == cp(i)), lambda i: [cr(i)]))),
                ("then the digits", Forall([I], lambda j: Imp(frange(j, d.len), And(
                    cr(p.len + 2 * j) == digit(d.at(j).z / 16), cr(p.len + 2 * j + 1) == digit(d.at(j).z % 16))), lambda j: [d.at(j).z]))]


class FromHexPrefixed(Contract):
    fn, short = BF + "::from_hex_prefixed", "buffer::from_hex_prefixed"

    def parts(self, C):
        s, p = C.arg(0), C.arg(1)
        _, cs = S(s)
        _, cp = S(p)
        pre = And(p.len <= s.len, Forall([I], lambda i: Imp(frange(i, p.len), cs(i) == cp(i)), lambda i: [cp(i)]))
        off = If(pre, p.len, z3.IntVal(0))
        rest = s.len - off
        return s, off, rest, rest % 2

    def ensures(self, C):
        s, off, rest, odd = self.parts(C)
        _, cs = S(s)
        ok = And(rest > 0, rest + odd <= LIMIT, Forall([I], lambda i: Imp(And(off <= i, i < s.len), ishex(cs(i))), lambda i: [cs(i)]))
        r = C.ret
        d = r.val.m_data
        # an odd number of digits is read as if a 0 stood before them
        val = lambda i: If(i < 0, z3.IntVal(0), hexval(cs(off + i)))
        return [("accepted only if digits follow the prefix", Imp(r.has(), ok)),
                ("accepted if digits follow the prefix", Imp(ok, r.has())),
                ("each byte is the value of its two digits", Imp(r.has(), And(2 * d.len == rest + odd, Forall([I], lambda j: Imp(frange(j, d.len), d.at(j).z == 16 * val(2 * j - odd) + val(2 * j - odd + 1)), lambda j: [d.at(j).z]))))]


class HashFromHex(Contract):
    fn, short, inv = "cbdc::hash_from_hex", "cbdc::hash_from_hex", False

    def ensures(self, C):
        s, r = C.arg(0), C.ret
        return [("32 bytes", r.len == 32),
                ("64 digits decode to exactly their bytes", Imp(And(s.len == 64, allhex(s)), decodes(r, s, 0, z3.IntVal(32))))]

    def loopcands(self, Lc):
        s = Lc.arg(0)
        for nm, v, _ in Lc.locals(TVec):
            if v.T.fixed == 32:
                for n2, i, _ in Lc.locals(TInt):
                    yield "decoded so far " + n2, And(v.len == 32, i.z % 2 == 0, i.z >= 0, Imp(And(s.len == 64, allhex(s)), And(i.z <= 64, decodes(v, s, 0, i.z / 2))))


def new_stream(E, T, vals):
    from engine import Unsupported
    if len([v for v in vals if isinstance(v, (Val, Loc)) and not (isinstance(v, Val) and isinstance(v.T, TInt))]):
        raise Unsupported("stream initialised with text")
    return text.new_stream()


class HexUnit(Unit):
    name = "hex"
    sources = ["src/util/common/buffer.cpp", "src/util/common/hash.cpp"]
    overrides = dict(text.OVERRIDES, **{"cbdc::buffer": None})
    contracts = [ToHex(), FromHex(), ToHexPrefixed(), FromHexPrefixed(), HashToString(), HashFromHex()]
    opts = {"clean_array": True}
    externs = {"ctor": {"std::stringstream": new_stream}}


unit = HexUnit()
