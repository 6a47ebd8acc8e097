"""transaction ids, attestations and stateless validation"""
from units.common import *
from front import params
import lib

T_ = "cbdc::transaction"
V = T_ + "::validation"
CT = T_ + "::compact_tx"
By, Ss, Xk = usort("Bytes"), usort("Sig"), usort("Xonly")
TOP = z3.IntVal(2 ** 64)
K33, KSIG = 33, 97


# ---- vocabulary ---------------------------------------------------------------------------------
def cat(E, a, b):
    return E.uf("cat", [a, b], By)


def eps(E):
    return z3.Const("eps", By)


def sha(E, b):
    return E.uf("sha256", [b], Hs)


def ser(E, v, without=()):
    """the serialized form of a value, a function of the value (containers: of what they hold)"""
    ts = []

    def go(x):
        if isinstance(x.T, TMap):
            nothing = z3.Const("nothing", usort("Content"))
            ts.append(If(x.t[0] == z3.K(x.t[0].sort().domain(), False), nothing, E.uf("content_" + sanit(x.T.name), list(x.t), usort("Content"))))
        elif isinstance(x.T, TRec):
            for n, _ in x.T.fields:
                if n in without:
                    ts.append(z3.Const("nothing", usort("Content")))
                else:
                    go(getattr(x, n))
        else:
            ts.extend(x.t)
    go(v)
    return E.uf("ser_" + sanit(v.T.name), ts, By)


def sanit(s):
    import re
    return re.sub(r"[^A-Za-z0-9_]", "_", s)


def hbytes(E, h):
    return E.uf("bytes_Hash", [h], By)


def vbytes(E, arr, off, n):
    return E.uf("bytes_vec", [arr, off if z3.is_expr(off) else z3.IntVal(off), n if z3.is_expr(n) else z3.IntVal(n)], By)


def u64bytes(E, x):
    return E.uf("bytes_u64", [x], By)


def tid(E, tx):
    """SHA-256 over the serialized inputs followed by the serialized outputs"""
    return sha(E, cat(E, cat(E, eps(E), ser(E, tx.m_inputs)), ser(E, tx.m_outputs)))


def in_hash(E, inp):
    return sha(E, cat(E, eps(E), ser(E, inp)))


def uhs(E, ent, i, out):
    return sha(E, cat(E, cat(E, cat(E, eps(E), hbytes(E, ent)), u64bytes(E, i)), ser(E, out)))


def payload(E, c):
    """what an attestation signs: id, inputs and outputs of the compact transaction"""
    return sha(E, cat(E, eps(E), ser(E, c, without=("m_attestations",))))


def parse_ok(E, k):
    return E.uf("xonly_parse_ok", [k], B)


def xkey(E, k):
    return E.uf("xonly_key", [k], Xk)


def sig_ok(E, s, m, x):
    return E.uf("schnorr_ok", [s, m, x], B)


def att_ok(E, c, k, s):
    return And(parse_ok(E, k), sig_ok(E, s, payload(E, c), xkey(E, k)))


# ---- library and dependency models --------------------------------------------------------------
def raw(E, p, n, e):
    """bytes designated by a pointer and a length"""
    if isinstance(p, Iter) and isinstance(p.T, TVec):
        v = E.read(p.cloc)
        E.oblige("hashed range in bounds", "safety", And(p.pos >= 0, n >= 0, p.pos + n <= v.len), e)
        return vbytes(E, v.t[1], p.pos, n)
    t = p.t[0]
    nm = t.decl().name()
    if nm in ("c_ptr_Buf_0", "data_Buf_0"):
        E.oblige("the whole buffer is hashed", "post", n == E.uf("len_Buf", [t.arg(0)], I), e)
        return E.uf("buf_bytes", [t.arg(0)], By)
    if nm == "data_Hash_0":
        E.oblige("the whole value is hashed", "post", n == 32, e)
        return hbytes(E, t.arg(0))
    raise lib.U()("bytes of %s" % p)


def sha_ctor(E, T, vals):
    return Val(T, [eps(E)])


def sha_write(E, p, args, e, f):
    cur = E.read(p)
    q, n = E.ev(args[0], f), E.ev(args[1], f).z
    E.write(p, Val(cur.T, [cat(E, cur.t[0], raw(E, q, n, e))]))
    return p


def sha_final(E, p, args, e, f):
    d = lib.opaque_dest(E, args[0], f)
    if d is None:
        raise lib.U()("digest destination")
    E.write(d[0], Val(d[1].T, [sha(E, E.read(p).t[0])]))
    return VOID


def make_buffer(E, this, args, e, f):
    v = E.rval(E.ev(args[0], f)) if hasattr(E, "rval") else E.ev(args[0], f)
    b = Val(TOpaque("Buf"), [E.uf("make_buffer", [ser(E, v)], usort("Buf"))])
    E.assume(E.uf("buf_bytes", [b.z], By) == ser(E, v))
    return b


def ptr_hash(E, a, f, s):
    p = E.ev(a, f)
    t = p.t[0]
    if t.decl().name() == "data_%s_0" % s:
        return t.arg(0)
    raise lib.U()("pointer to %s" % s)


def parse(E, this, args, e, f):
    k = ptr_hash(E, args[2], f, "Hash")
    d = E.ev(args[1], f)
    ok = parse_ok(E, k)
    old = E.read(d.loc)
    E.write(d.loc, Val(old.T, [If(ok, xkey(E, k), E.fresh(Xk, "unparsed"))]))
    return Val(TInt(32, True), [If(ok, z3.IntVal(1), z3.IntVal(0))])


def verify_sig(E, this, args, e, f):
    s = ptr_hash(E, args[1], f, "Sig")
    m = ptr_hash(E, args[2], f, "Hash")
    d = E.ev(args[-1], f)
    if len(args) == 5:
        E.oblige("32-byte message", "post", E.ev(args[3], f).z == 32, e)
    return Val(TInt(32, True), [If(sig_ok(E, s, m, E.read(d.loc).t[0]), z3.IntVal(1), z3.IntVal(0))])


def keypair(E, this, args, e, f):
    k = ptr_hash(E, args[2], f, "Hash")
    d = E.ev(args[1], f)
    E.write(d.loc, Val(E.read(d.loc).T, [E.uf("keypair_of", [k], usort("Keypair"))]))
    return Val(TInt(32, True), [If(E.uf("privkey_ok", [k], B), z3.IntVal(1), z3.IntVal(0))])


def sign(E, this, args, e, f):
    d = lib.opaque_dest(E, args[1], f)
    m = ptr_hash(E, args[2], f, "Hash")
    kp = E.ev(args[3], f)
    k = E.read(kp.loc).t[0]
    E.write(d[0], Val(d[1].T, [E.uf("schnorr_sign", [m, k], Ss)]))
    return Val(TInt(32, True), [z3.IntVal(1)])


def bytes_of(E, p, e, f):
    if isinstance(p, Ptr):
        v = E.read(p.loc)
        if isinstance(v.T, TInt) and v.T.bits == 64:
            return lambda i: E.uf("byte_u64", [v.z, i], I)
    raise lib.U()("raw bytes of %s" % p)


def pubkey_of(E, this, args, e, f):
    k = E.ev(args[0], f)
    return Val(TOpaque("Hash"), [E.uf("pubkey_of", [k.z], Hs)])


# ---- rules ---------------------------------------------------------------------------------------
NOIN, NOOUT, MISSW, ASYM, OVER = range(5)
DUP, DATA = 0, 1
WMISS, WUNK, WMAL, WPROG, WKEY, WSIG = range(6)


def SumIn(E, tx, k):
    return E.uf("sum_in", [leaf(tx.m_inputs, lambda x: x.m_prevout_data.m_value), k], I)


def SumOut(E, tx, k):
    return E.uf("sum_out", [leaf(tx.m_outputs, lambda x: x.m_value), k], I)


def leaf(vec, sel):
    """the array of one leaf of the elements of a vector"""
    a = sel(vec.at(z3.Int("leafidx"))).z
    assert z3.is_select(a), a
    return a.arg(0)


def dup(tx, i, j):
    a, b = tx.m_inputs.at(i).m_prevout, tx.m_inputs.at(j).m_prevout
    return And(a.m_tx_id.z == b.m_tx_id.z, a.m_index.z == b.m_index.z)


def points(tx):
    return leaf(tx.m_inputs, lambda x: x.m_prevout.m_tx_id), leaf(tx.m_inputs, lambda x: x.m_prevout.m_index)


def seen(E, tx, x, y, n):
    """one of the first n inputs spends outpoint (x, y)"""
    return E.uf("seen", list(points(tx)) + [x, y, n], B)


def prev_dup(E, tx, j):
    """input j spends the outpoint of an earlier input"""
    p = tx.m_inputs.at(j).m_prevout
    return seen(E, tx, p.m_tx_id.z, p.m_index.z, j)


def big(E, which, arr, n):
    """some prefix total of the first n values reaches 2^64"""
    return E.uf("big_" + which, [arr, n], B)


def big_in(E, tx):
    return big(E, "in", leaf(tx.m_inputs, lambda x: x.m_prevout_data.m_value), tx.m_inputs.len)


def big_out(E, tx):
    return big(E, "out", leaf(tx.m_outputs, lambda x: x.m_value), tx.m_outputs.len)


def wit_prog(E, w):
    return sha(E, cat(E, eps(E), vbytes(E, w.t[1], 0, K33)))


def wit_key(E, w):
    return E.uf("bytes_to_Hash", [w.t[1], z3.IntVal(1)], Hs)


def wit_sig(E, w):
    return E.uf("bytes_to_Sig", [w.t[1], z3.IntVal(K33)], Ss)


def wit_rules(E, tx, i):
    """the rules of one witness, in the order of their codes: what being broken means"""
    w = tx.m_witness.at(i)
    return {
        WMISS: w.len == 0,
        WUNK: And(w.len > 0, w.at(0).z != 0),
        WMAL: And(w.len > 0, w.at(0).z == 0, w.len != KSIG),
        WPROG: And(w.len == KSIG, wit_prog(E, w) != tx.m_inputs.at(i).m_prevout_data.m_witness_program_commitment.z),
        WKEY: And(w.len == KSIG, Not(parse_ok(E, wit_key(E, w)))),
        WSIG: And(w.len == KSIG, parse_ok(E, wit_key(E, w)), Not(sig_ok(E, wit_sig(E, w), tid(E, tx), xkey(E, wit_key(E, w))))),
    }


def wit_ok(E, tx, i):
    w = tx.m_witness.at(i)
    return And(w.len == KSIG, w.at(0).z == 0, wit_prog(E, w) == tx.m_inputs.at(i).m_prevout_data.m_witness_program_commitment.z,
               parse_ok(E, wit_key(E, w)), sig_ok(E, wit_sig(E, w), tid(E, tx), xkey(E, wit_key(E, w))))


def structure_ok(E, tx):
    n = tx.m_inputs.len
    return And(n > 0, tx.m_outputs.len > 0, tx.m_witness.len == n, Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < n), Not(dup(tx, i, j)))))


def sums_ok(E, tx):
    n, m = tx.m_inputs.len, tx.m_outputs.len
    return And(Not(big_in(E, tx)), Not(big_out(E, tx)), SumIn(E, tx, n) == SumOut(E, tx, m))


def values_ok(tx):
    return And(Forall([I], lambda i: Imp(frange(i, tx.m_inputs.len), tx.m_inputs.at(i).m_prevout_data.m_value.z != 0)),
               Forall([I], lambda i: Imp(frange(i, tx.m_outputs.len), tx.m_outputs.at(i).m_value.z != 0)))


def wits_ok(E, tx):
    return Forall([I], lambda i: Imp(frange(i, tx.m_witness.len), wit_ok(E, tx, i)))


def errs(E, tx, r):
    """an error names a rule the transaction really breaks, at the place it breaks it"""
    v = r.val
    ie, oe, we, te = (v.alt(k) for k in range(4))
    isA = [v.idx == k for k in range(4)]
    ins, outs = tx.m_inputs, tx.m_outputs
    wr = wit_rules(E, tx, we.m_idx.z)
    return [
        ("an input error names a repeated or worthless input", Imp(And(r.has(), isA[0]), And(
            frange(ie.m_idx.z, ins.len),
            Or(And(ie.m_code.z == DUP, Not(ie.m_data_err.has()), prev_dup(E, tx, ie.m_idx.z)),
               And(ie.m_code.z == DATA, ie.m_data_err.has(), ie.m_data_err.val.z == 0, ins.at(ie.m_idx.z).m_prevout_data.m_value.z == 0))))),
        ("an output error names a worthless output", Imp(And(r.has(), isA[1]), And(frange(oe.m_idx.z, outs.len), oe.m_code.z == 0, outs.at(oe.m_idx.z).m_value.z == 0))),
        ("a witness error names the rule that witness breaks", Imp(And(r.has(), isA[2]), And(
            frange(we.m_idx.z, tx.m_witness.len), Or(*[And(we.m_code.z == k, c) for k, c in wr.items()])))),
        ("a transaction error names the rule broken", Imp(And(r.has(), isA[3]), Or(
            And(te.z == NOIN, ins.len == 0), And(te.z == NOOUT, outs.len == 0), And(te.z == MISSW, ins.len != tx.m_witness.len),
            And(te.z == ASYM, SumIn(E, tx, ins.len) != SumOut(E, tx, outs.len)), And(te.z == OVER, Or(big_in(E, tx), big_out(E, tx)))))),
    ]


# ---- contracts -----------------------------------------------------------------------------------
class CheckTx(Contract):
    fn = V + "::check_tx"
    short = "validation::check_tx"

    def ensures(self, C):
        E, tx = C.E, C.arg(0)
        return [
            ("accepted means every structural rule holds", Imp(Not(C.ret.has()), structure_ok(E, tx))),
            ("accepted means every value is positive", Imp(Not(C.ret.has()), values_ok(tx))),
            ("accepted means totals fit 64 bits and agree", Imp(Not(C.ret.has()), sums_ok(E, tx))),
            ("accepted means every witness authorises its input", Imp(Not(C.ret.has()), wits_ok(E, tx))),
        ] + errs(E, tx, C.ret)


class CheckStructure(Contract):
    fn = V + "::check_tx_structure"
    short = "validation::check_tx_structure"

    def ensures(self, C):
        E, tx = C.E, C.arg(0)
        return [("accepted means every structural rule holds", Imp(Not(C.ret.has()), structure_ok(E, tx)))] + errs(E, tx, C.ret)


class CheckInputSet(Contract):
    fn = V + "::check_input_set"
    short = "validation::check_input_set"

    def ensures(self, C):
        E, tx = C.E, C.arg(0)
        n = tx.m_inputs.len
        return [("accepted means no outpoint is spent twice", Imp(Not(C.ret.has()), Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < n), Not(dup(tx, i, j))))))] + errs(E, tx, C.ret)


class CheckInOutSet(Contract):
    fn = V + "::check_in_out_set"
    short = "validation::check_in_out_set"

    def requires(self, C):
        return [("values are positive", values_ok(C.arg(0)))]

    def ensures(self, C):
        E, tx = C.E, C.arg(0)
        return [("accepted means totals fit 64 bits and agree", Imp(Not(C.ret.has()), sums_ok(E, tx)))] + errs(E, tx, C.ret)


class CheckWitness(Contract):
    fn = V + "::check_witness"
    short = "validation::check_witness"

    def requires(self, C):
        tx = C.arg(0)
        return [("an input for every witness", And(frange(C.arg(1).z, tx.m_witness.len), tx.m_witness.len == tx.m_inputs.len))]

    def ensures(self, C):
        E, tx, i = C.E, C.arg(0), C.arg(1).z
        return [("accepted means the witness authorises the input", Imp(Not(C.ret.has()), wit_ok(E, tx, i))),
                ("the code names the rule broken", Imp(C.ret.has(), Or(*[And(C.ret.val.z == k, c) for k, c in wit_rules(E, tx, i).items()])))]


class CheckOutputValue(Contract):
    fn = V + "::check_output_value"
    short = "validation::check_output_value"

    def ensures(self, C):
        return [("accepts exactly positive values", And(C.ret.has() == (C.arg(0).m_value.z == 0), Imp(C.ret.has(), C.ret.val.z == 0)))]


class Attestations(Contract):
    fn = V + "::check_attestations"
    short = "validation::check_attestations"

    def ensures(self, C):
        E, tx, keys = C.E, C.arg(0), C.arg(1)
        at = tx.m_attestations
        good = Forall([Hs], lambda k: Imp(at.has(k), And(keys.has(k), att_ok(E, tx, k, at.at(k).z))))
        return [
            ("accepted means at least as many attestations as demanded", Imp(C.ret.z, card(at.t[0]) >= C.arg(2).z)),
            ("accepted means each is by a known key over this transaction", Imp(C.ret.z, good)),
            ("refused only when one of these fails", Imp(And(card(at.t[0]) >= C.arg(2).z, good), C.ret.z)),
        ]


class HashData(Contract):
    fn = "cbdc::hash_data"
    short = "hash_data"

    def ensures(self, C):
        return []


class TxId(Contract):
    fn = T_ + "::tx_id"
    short = "transaction::tx_id"

    def ensures(self, C):
        return [("commits to all inputs and all outputs", C.ret.z == tid(C.E, C.arg(0)))]


class InHash(Contract):
    fn = T_ + "::input::hash"
    short = "input::hash"

    def ensures(self, C):
        return [("hash of the whole input", C.ret.z == in_hash(C.E, C.old))]


class UhsId(Contract):
    fn = T_ + "::uhs_id_from_output"
    short = "transaction::uhs_id_from_output"

    def ensures(self, C):
        return [("hash over transaction id, index and output", C.ret.z == uhs(C.E, C.arg(0).z, C.arg(1).z, C.arg(2)))]


class FromOutput(Contract):
    fn = T_ + "::input_from_output"
    short = "transaction::input_from_output"
    nparams = 3

    def ensures(self, C):
        tx, i, r = C.arg(0), C.arg(1).z, C.ret
        return [("an input for every output, none otherwise", r.has() == (i < tx.m_outputs.len)),
                ("refers to that output", Imp(r.has(), And(r.val.m_prevout.m_tx_id.z == C.arg(2).z, r.val.m_prevout.m_index.z == i, same(r.val.m_prevout_data, tx.m_outputs.at(i)))))]


class FromOutput2(Contract):
    """under the transaction's own id"""
    fn, short, nparams = T_ + "::input_from_output", "transaction::input_from_output(tx, i)", 2

    def ensures(self, C):
        tx, i, r = C.arg(0), C.arg(1).z, C.ret
        return [("an input for every output, none otherwise", r.has() == (i < tx.m_outputs.len)),
                ("refers to that output of the transaction", Imp(r.has(), And(r.val.m_prevout.m_tx_id.z == tid(C.E, tx), r.val.m_prevout.m_index.z == i, same(r.val.m_prevout_data, tx.m_outputs.at(i)))))]


class Compact(Contract):
    fn = CT + "::compact_tx"
    short = "compact_tx::compact_tx"
    nparams = 1
    ptypes = "full_tx"

    def ensures(self, C):
        E, tx, s = C.E, C.arg(0), C.this
        return [
            ("id of the transaction", s.m_id.z == tid(E, tx)),
            ("one hash per input, in order", And(s.m_inputs.len == tx.m_inputs.len, Forall([I], lambda i: Imp(frange(i, tx.m_inputs.len), s.m_inputs.at(i).z == in_hash(E, tx.m_inputs.at(i)))))),
            ("one id per output, in order", And(s.m_uhs_outputs.len == tx.m_outputs.len, Forall([I], lambda i: Imp(frange(i, tx.m_outputs.len), s.m_uhs_outputs.at(i).z == uhs(E, tid(E, tx), i, tx.m_outputs.at(i)))))),
            ("no attestation yet", Forall([Hs], lambda k: Not(s.m_attestations.has(k)))),
        ]

    def loopcands(self, Lc):
        E, tx = Lc.E, Lc.arg(0)
        s = Lc.this
        n = Lc.pos
        if n is None:
            return []
        return [
            ("id", s.m_id.z == tid(E, tx)),
            ("inputs so far", And(s.m_inputs.len == n, Forall([I], lambda i: Imp(frange(i, n), s.m_inputs.at(i).z == in_hash(E, tx.m_inputs.at(i)))))),
            ("outputs so far", And(s.m_uhs_outputs.len == n, Forall([I], lambda i: Imp(frange(i, n), s.m_uhs_outputs.at(i).z == uhs(E, tid(E, tx), i, tx.m_outputs.at(i)))))),
        ]


class CHash(Contract):
    fn = CT + "::hash"
    short = "compact_tx::hash"

    def ensures(self, C):
        return [("independent of the attestations", C.ret.z == payload(C.E, C.old))]


class Verify(Contract):
    fn = CT + "::verify"
    short = "compact_tx::verify"

    def ensures(self, C):
        return [("exactly the valid signatures over the transaction", C.ret.z == att_ok(C.E, C.old, C.arg(1).first.z, C.arg(1).second.z))]


class Sign(Contract):
    fn = CT + "::sign"
    short = "compact_tx::sign"

    def requires(self, C):
        return [("a valid private key", C.E.uf("privkey_ok", [C.arg(1).z], B))]

    def ensures(self, C):
        E, k = C.E, C.arg(1).z
        return [("signs the transaction with the key, under its public key", And(C.ret.first.z == E.uf("pubkey_of", [k], Hs),
                 C.ret.second.z == E.uf("schnorr_sign", [payload(E, C.old), E.uf("keypair_of", [k], usort("Keypair"))], Ss)))]


def S_ax(a, S, w):
    return z3.ForAll([a], S(w, z3.IntVal(0)) == 0, patterns=[S(w, z3.IntVal(0))])


SHIM = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))), "harness", "secp_shim.hpp")


class Validation(Unit):
    name = "validation"
    sources = ["src/uhs/transaction/validation.cpp", "src/uhs/transaction/transaction.cpp", "src/util/common/hash.cpp"]
    extra_args = ("-include", SHIM)
    overrides = {"cbdc::buffer": TOpaque("Buf"), "std::array<unsigned char, 64>": TOpaque("Sig"), "CSHA256": TOpaque("Bytes"),
                 "secp256k1_xonly_pubkey": TOpaque("Xonly"), "secp256k1_keypair": TOpaque("Keypair")}
    contracts = [CheckTx(), CheckStructure(), CheckInOutSet(), CheckWitness(), CheckOutputValue(), CheckInputSet(),
                 Attestations(), TxId(), InHash(), UhsId(), FromOutput(), FromOutput2(), Compact(), CHash(), Verify(), Sign()]
    externs = {"ctor": {"Bytes": sha_ctor}, "method": {("Bytes", "Write"): sha_write, ("Bytes", "Finalize"): sha_final},
               "vars": {"secp_context": lambda E: Val(TOpaque("P_secp256k1_context_struct"), [z3.Const("secp_context", usort("P_secp256k1_context_struct"))])},
               "fn": {"cbdc::make_buffer": make_buffer, "secp256k1_xonly_pubkey_parse": parse, "secp256k1_schnorrsig_verify": verify_sig,
                      "secp256k1_keypair_create": keypair, "secp256k1_schnorrsig_sign": sign, "cbdc::pubkey_from_privkey": pubkey_of},
               "bytes_of": bytes_of}

    def loopcands(self, Lc):
        E = Lc.E
        out = []
        try:
            tx = Lc.arg(0)
            v = tx.m_inputs
        except (KeyError, AttributeError, IndexError):
            return []
        n = Lc.pos
        if n is None or not isinstance(tx.T, TRec) or not tx.T.q.endswith("full_tx"):
            return []
        for nm, s_, s0 in Lc.locals(TSet):
            K = s_.t[0].sort().domain()
            m = lambda i: s_.has(keyterm(s_.T.k, v.at(i).m_prevout))
            out += [
                ("outpoints so far", Forall([I], lambda i: Imp(frange(i, n), m(i)))),
                ("only outpoints so far", Forall([K], lambda k: Imp(s_.has(k), seen(E, tx, K.accessor(0, 0)(k), K.accessor(0, 1)(k), n)))),
                ("distinct so far", Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < n), Not(dup(tx, i, j))))),
            ]
        for nm, x, x0 in Lc.locals(TInt):
            for w, S, m in (("in", SumIn, tx.m_inputs.len), ("out", SumOut, tx.m_outputs.len)):
                out.append(("total so far " + w + nm, x.z == S(E, tx, n)))
        for w, S in (("in", SumIn), ("out", SumOut)):
            out.append(("totals fit " + w, Forall([I], lambda k: Imp(And(0 <= k, k <= n), S(E, tx, k) < TOP), pats=lambda k: [S(E, tx, k)])))
        out += [("positive inputs", Forall([I], lambda i: Imp(frange(i, n), v.at(i).m_prevout_data.m_value.z != 0))),
                ("positive outputs", Forall([I], lambda i: Imp(frange(i, n), tx.m_outputs.at(i).m_value.z != 0))),
                ("witnesses", Forall([I], lambda i: Imp(frange(i, n), wit_ok(E, tx, i))))]
        return out

    def axioms(self, E):
        K = E.K.fn.split("::")[-1]
        if not K.startswith("check_") and K not in ("uhs_id_from_output",) or K == "check_attestations":
            return []
        A_ = z3.ArraySort(I, I)
        a, b = z3.Consts("a_ b_", A_)
        i, j, n, x = z3.Ints("i_ j_ n_ x_")
        va, vb = vbytes(E, a, i, n), vbytes(E, b, j, n)
        d = E.uf("differs_at", [a, i, b, j, n], I)
        by = lambda k: E.uf("byte_u64", [x, z3.IntVal(k)], I)
        S = lambda w, k: E.uf("sum_" + w, [a, k], I)
        H_ = z3.ArraySort(I, Hs)
        h = z3.Const("h_", H_)
        q = z3.Const("q_", Hs)
        sn = E.uf("seen", [h, a, q, x, n], B)
        w0 = E.uf("seen_at", [h, a, q, x, n], I)
        out = [
            # byte strings are equal when no position differs
            z3.ForAll([a, i, b, j, n], Or(va == vb, And(frange(d, n), z3.Select(a, i + d) != z3.Select(b, j + d))), patterns=[z3.MultiPattern(va, vb)]),
            z3.ForAll([a, x], Imp(And(*[z3.Select(a, k) == by(k) for k in range(8)]), vbytes(E, a, 0, 8) == u64bytes(E, x)), patterns=[z3.MultiPattern(vbytes(E, a, 0, 8), u64bytes(E, x))]),
            # one of the first n inputs spends outpoint (q, x)
            z3.ForAll([h, a, q, x, n, i], Imp(And(0 <= i, i < n, z3.Select(h, i) == q, z3.Select(a, i) == x), sn), patterns=[z3.MultiPattern(sn, z3.Select(h, i))]),
            z3.ForAll([h, a, q, x, n], Imp(sn, And(0 <= w0, w0 < n, z3.Select(h, w0) == q, z3.Select(a, w0) == x)), patterns=[sn]),
        ]
        for w in ("in", "out"):
            bg = E.uf("big_" + w, [a, n], B)
            wt = E.uf("bigat_" + w, [a, n], I)
            out += [
                # totals
                S_ax(a, S, w), z3.ForAll([a, i], Imp(i >= 0, S(w, i + 1) == S(w, i) + z3.Select(a, i)), patterns=[z3.MultiPattern(S(w, i), z3.Select(a, i))]),
                # some total over a prefix reaches 2^64
                z3.ForAll([a, n, i], Imp(And(0 <= i, i <= n, S(w, i) >= TOP), bg), patterns=[z3.MultiPattern(bg, S(w, i))]),
                z3.ForAll([a, n], Imp(bg, And(0 <= wt, wt <= n, S(w, wt) >= TOP)), patterns=[bg]),
            ]
        return out


unit = Validation()
