"""parsec ticket machine and directory"""
from units.common import *

TM = "cbdc::parsec::ticket_machine::impl"
DI = "cbdc::parsec::directory::impl"
SIP = "cbdc::hashing::const_sip_hash<cbdc::buffer>::operator()"
TOP = z3.IntVal(2 ** 64)


def rely(E, a, b):
    """other requests only move the counter forward (and, assumed, never through 2^64)"""
    return And(b.z >= a.z, b.z + E.vars["this"].m_range.z < TOP)


def guar(E, a, b, e):
    r = E.vars["this"].m_range.z
    E.oblige("the counter only moves by one whole range in one atomic step, claiming the numbers it passes", "post", b.z == a.z + r, e)
    E.set_root("g:claims", Val(TInt(64, False), [E.vars["g:claims"].t[0] + 1]))
    E.set_root("g:start", Val(TInt(64, False), [a.z]))


def on_call(E, fv, vals, e, f):
    if E.K.fn == TM + "::get_ticket_number":
        r = vals[0]
        if isinstance(r.T, TVar):
            i = [j for j, t in enumerate(r.T.ts) if isinstance(t, TRec)][0]
            E.oblige("a request is answered with a range", "post", r.idx == i, e)
            r = r.alt(i)
        claims, given = E.vars["g:claims"].t[0], E.vars["g:given"].t[0]
        E.oblige("the range handed out is exactly the range this request claimed", "post",
                 And(claims == given + 1, r.first.z == E.vars["g:start"].t[0], r.second.z == r.first.z + E.vars["this"].m_range.z), e)
    else:
        k, n = E.pre_args[0].z, E.vars["this"].m_n_shards.z
        E.oblige("the location is an existing shard and depends on the key and the number of shards only", "post",
                 And(frange(vals[0].z, n), vals[0].z == loc_of(E, k, n)), e)
    E.set_root("g:given", Val(TInt(64, False), [E.vars["g:given"].t[0] + 1]))
    return VOID


def loc_of(E, k, n):
    return E.uf("location", [k, n], I)


class Sip(Contract):
    """assumed: SipHash of a buffer is a function of its bytes"""
    fn = SIP
    trusted = True

    def ensures(self, C):
        return [("function of the buffer", C.ret.z == C.E.uf("sip", [C.arg(0).z], I))]


class GetTicket(Contract):
    fn = TM + "::get_ticket_number"
    short = "ticket_machine::get_ticket_number"

    def modifies(self, C):
        return ["m_next_ticket_number"]

    def ensures(self, C):
        return [("answered exactly once", And(C.E.vars["g:given"].t[0] == 1, C.E.vars["g:claims"].t[0] == 1)), ("accepted", C.ret.z)]


class KeyLocation(Contract):
    fn = DI + "::key_location"
    short = "directory::key_location"

    def requires(self, C):
        return [("there is a shard", C.this.m_n_shards.z > 0)]

    def ensures(self, C):
        return [("answered exactly once", C.E.vars["g:given"].t[0] == 1), ("accepted", C.ret.z)]


class CtorRange(Contract):
    fn = TM + "::impl"
    short = "ticket_machine::impl"

    def ensures(self, C):
        return [("hands out ranges of the configured size", C.this.m_range.z == C.arg(1).z)]


class CtorDir(Contract):
    fn = DI + "::impl"
    short = "directory::impl"

    def ensures(self, C):
        return [("uses the configured number of shards", C.this.m_n_shards.z == C.arg(0).z)]


class Parsec(Unit):
    name = "parsec"
    sources = ["src/parsec/ticket_machine/impl.cpp", "src/parsec/directory/impl.cpp"]
    overrides = {"cbdc::buffer": TOpaque("Buf")}
    contracts = [GetTicket(), KeyLocation(), CtorRange(), CtorDir(), Sip()]
    externs = {"on_call": on_call, "atomic": {"m_next_ticket_number": dict(rely=rely, guar=guar)}}

    def axioms(self, E):
        k, n = z3.Const("k_", usort("Buf")), z3.Const("n_", I)
        return [z3.ForAll([k, n], E.uf("location", [k, n], I) == E.uf("sip", [k], I) % n, patterns=[E.uf("location", [k, n], I)])]

    def on_setup(self, E, C):
        for g in ("claims", "given"):
            E.vars["g:" + g] = Val(TInt(64, False), [z3.IntVal(0)])
        E.vars["g:start"] = Val(TInt(64, False), [z3.Int("g:start0")])


unit = Parsec()
