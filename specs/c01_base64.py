"""C01: Base64."""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, BV, BV8, Str
from cppcv.models import Models
from cppcv.engine import LoopSpec
from cppcv.ctypes_ import parse
from cppcv.front import qt, children

Bytes = L.seq_of(BV8)     # std::vector<uint8_t>, std::string and std::string_view are all byte sequences
L.CHARLITS = False
c8 = lambda x: z3.BitVecVal(ord(x), 8)
PAD = c8("=")

# --- the Base64 alphabet (RFC 4648 table 1), as a specification
alph = z3.Function("b64_alphabet", BV8, Bool)
val6 = z3.Function("b64_value", BV8, BV8)
chr6 = z3.Function("b64_char", BV8, BV8)


def alph_def(c):
    r = lambda a, b: z3.And(z3.UGE(c, c8(a)), z3.ULE(c, c8(b)))
    return z3.Or(r("A", "Z"), r("a", "z"), r("0", "9"), c == c8("+"), c == c8("/"))


def val_def(c):
    r = lambda a, b: z3.And(z3.UGE(c, c8(a)), z3.ULE(c, c8(b)))
    return z3.If(r("A", "Z"), c - c8("A"), z3.If(r("a", "z"), c - c8("a") + 26, z3.If(r("0", "9"), c - c8("0") + 52,
           z3.If(c == c8("+"), z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))


def chr_def(i):
    return z3.If(z3.ULT(i, 26), i + c8("A"), z3.If(z3.ULT(i, 52), i - 26 + c8("a"), z3.If(z3.ULT(i, 62), i - 52 + c8("0"),
           z3.If(i == 62, c8("+"), c8("/")))))


_c = z3.Const("c", BV8)
L.axiom_for(alph, z3.ForAll([_c], alph(_c) == alph_def(_c), patterns=[alph(_c)]))
L.axiom_for(val6, z3.ForAll([_c], val6(_c) == val_def(_c), patterns=[val6(_c)]))
L.axiom_for(chr6, z3.ForAll([_c], chr6(_c) == chr_def(_c), patterns=[chr6(_c)]))

# --- byte j of the decoding of s; character i of the encoding of b (n bytes)
dec = z3.Function("b64_decoded_byte", Bytes.sort, Int, BV8)
enc = z3.Function("b64_encoded_char", Bytes.sort, Int, BV8)
at = Bytes.at_
ln = Bytes.len_


def dec_def(s, j):
    g = j / 3
    q = lambda o: val6(at(s, 4 * g + o))
    return z3.If(j % 3 == 0, (q(0) << 2) | z3.LShR(q(1), 4), z3.If(j % 3 == 1, (q(1) << 4) | z3.LShR(q(2), 2), (q(2) << 6) | q(3)))


def enc_def(b, i):
    g = i / 4
    n = ln(b)
    B = lambda o: z3.If(3 * g + o < n, at(b, 3 * g + o), z3.BitVecVal(0, 8))
    six = z3.If(i % 4 == 0, z3.LShR(B(0), 2), z3.If(i % 4 == 1, ((B(0) & 3) << 4) | z3.LShR(B(1), 4),
          z3.If(i % 4 == 2, ((B(1) & 15) << 2) | z3.LShR(B(2), 6), B(2) & 63)))
    used = z3.If(i % 4 < 2, True, z3.If(i % 4 == 2, 3 * g + 1 < n, 3 * g + 2 < n))
    return z3.If(used, chr6(six), PAD)


_s = z3.Const("s", Bytes.sort)
_j = z3.Int("j")
L.axiom_for(dec, z3.ForAll([_s, _j], dec(_s, _j) == dec_def(_s, _j), patterns=[dec(_s, _j)]))
L.axiom_for(enc, z3.ForAll([_s, _j], enc(_s, _j) == enc_def(_s, _j), patterns=[enc(_s, _j)]))


def fa(lo, hi, body, pat=None):
    j = z3.Int("q")
    p = pat(j) if pat else None
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), body(j)), **({"patterns": [p]} if p is not None else {}))


def chars_for(r):
    """number of alphabet characters that carry r bytes"""
    return 4 * (r / 3) + z3.If(r % 3 == 0, 0, z3.If(r % 3 == 1, 2, 3))


def accepted(s, out):
    """s is a text the decoder may accept with result out"""
    r = ln(out); n = ln(s); m = chars_for(r)
    return [("the text is the data characters plus at most two more", z3.And(m <= n, n <= m + 2)),
            ("every data character is in the alphabet", fa(0, m, lambda i: alph(at(s, i)), lambda i: at(s, i))),
            ("everything after the data is padding", fa(m, n, lambda i: at(s, i) == PAD, lambda i: at(s, i))),
            ("the unused bits of the last character are zero", z3.And(z3.Implies(r % 3 == 1, (val6(at(s, m - 1)) & 15) == 0),
                                                                       z3.Implies(r % 3 == 2, (val6(at(s, m - 1)) & 3) == 0))),
            ("every byte is the one the characters denote", fa(0, r, lambda j: at(out, j) == dec(s, j), lambda j: at(out, j)))]


def canonical(s, p):
    """s is standard padded Base64 with p padding characters"""
    n = ln(s)
    return z3.And(n % 4 == 0, n >= p, z3.Implies(z3.IntVal(p) > 0, n > 0),
                  fa(0, n - p, lambda i: alph(at(s, i)), lambda i: at(s, i)),
                  fa(n - p, n, lambda i: at(s, i) == PAD, lambda i: at(s, i)),
                  z3.BoolVal(True) if p == 0 else (val6(at(s, n - p - 1)) & (15 if p == 2 else 3)) == 0)


def dec_char_post(c):
    ch, r = c.old[0], c.res_val()
    return [("alphabet characters map to their value", z3.Implies(alph(ch), z3.And(r == val6(ch), z3.ULE(r, 63)))),
            ("every other character is reported as invalid", z3.Implies(z3.Not(alph(ch)), z3.UGT(r, 63)))]


def enc_char_post(c):
    i, r = c.old[0], c.res_val()
    return [("six-bit values map to their character", z3.Implies(z3.ULE(i, 63), r == chr6(i))),
            ("larger values map to padding", z3.Implies(z3.UGT(i, 63), r == PAD))]


def is_overload(t):
    return lambda d, tu: parse(qt([c for c in children(d) if c["kind"] == "ParmVarDecl"][0])).bare().name == t


def dec_inv(ctx):
    ex = ctx.ex
    s = ex.callctx.old[0]
    k = ctx.k
    out = vec_local(ctx)
    return [("text consumed so far lies inside the input", 4 * k <= ln(s)),
            ("three bytes per group", ln(out) == 3 * k),
            ("bytes decoded so far are right", fa(0, 3 * k, lambda j: at(out, j) == dec(s, j), lambda j: at(out, j))),
            ("characters consumed so far are data", fa(0, 4 * k, lambda i: alph(at(s, i)), lambda i: at(s, i)))]


def enc_inv(ctx):
    ex = ctx.ex
    b = ex.callctx.old[0]
    k = ctx.k
    locs = ctx.locals_(lambda t, d: t.name == "std::basic_string" and d["kind"] == "VarDecl")
    if len(locs) != 1: raise Unsupported("cannot identify the output string")
    out = ex.val(locs[0])
    return [("groups consumed lie inside the input", 3 * k <= ln(b)),
            ("four characters per group", ln(out) == 4 * k),
            ("characters produced so far are right", fa(0, 4 * k, lambda j: at(out, j) == enc(b, j), lambda j: at(out, j)))]


def vec_local(ctx):
    locs = ctx.locals_(lambda t, d: t.name == "std::vector" and d["kind"] == "VarDecl")
    if len(locs) != 1: raise Unsupported("cannot identify the output vector")
    return ctx.ex.val(locs[0])


def enc_post(c):
    b, t = c.old[0], c.res_val()
    return [("length is four characters per started group", ln(t) == 4 * ((ln(b) + 2) / 3)),
            ("every character is the standard one", fa(0, ln(t), lambda i: at(t, i) == enc(b, i), lambda i: at(t, i)))]


def lemmas():
    b, t, b2 = z3.Consts("b t b2", Bytes.sort)
    encd = [ln(t) == 4 * ((ln(b) + 2) / 3), fa(0, ln(t), lambda i: at(t, i) == enc(b, i), lambda i: at(t, i))]
    p = z3.If(ln(b) % 3 == 0, 0, z3.If(ln(b) % 3 == 1, 2, 1))
    out = []
    for pv in (0, 1, 2):
        h = encd + [p == pv]
        n = ln(t)
        i = z3.Int("i0")
        out.append(("encoded text has only alphabet characters before its padding (%d)" % pv, h + [0 <= i, i < n - pv], alph(at(t, i))))
        out.append(("encoded text ends in its padding (%d)" % pv, h + [n - pv <= i, i < n], at(t, i) == PAD))
        out.append(("encoded text has a multiple of four characters (%d)" % pv, h, z3.And(n % 4 == 0, n >= pv)))
        if pv:
            out.append(("unused bits of encoded text are zero (%d)" % pv, h, (val6(at(t, n - pv - 1)) & (15 if pv == 2 else 3)) == 0))
        acc = [f for _, f in accepted(t, b2)]
        out.append(("decoding encoded text restores the length (%d)" % pv, h + acc + L.mention(at(t, n - 1), at(t, n - 2), at(t, n - 3)), ln(b2) == ln(b)))
        j = z3.Int("j0")
        out.append(("decoding encoded text restores every byte (%d)" % pv, h + acc + [ln(b2) == ln(b), 0 <= j, j < ln(b)], at(b2, j) == at(b, j)))
    return out


TUF = "src/Base64.cpp"
Q = "graphql::internal::Base64::"
contracts = [
    Contract("Base64::fromBase64(char)", TUF, Q + "fromBase64", is_overload("char"), post=dec_char_post),
    Contract("Base64::toBase64(uint8_t)", TUF, Q + "toBase64", is_overload("unsigned char"), post=enc_char_post),
    Contract("Base64::fromBase64(string_view)", TUF, Q + "fromBase64", is_overload("std::basic_string_view"),
             post=lambda c: accepted(c.old[0], c.res_val()),
             exc=lambda c: [("the text is not standard Base64 (%d padding)" % p, z3.Not(canonical(c.old[0], p))) for p in (0, 1, 2)],
             loops=[LoopSpec("decode groups", dec_inv)], use=False),
    Contract("Base64::toBase64(vector)", TUF, Q + "toBase64", is_overload("std::vector"), post=enc_post,
             loops=[LoopSpec("encode groups", enc_inv)], use=False),
]
PROPERTY = "C01"


def models(tu):
    m = Models()
    m.contracts = list(contracts)
    return m


LEMMAS = [Lemma("Base64 round trip", lemmas)]
HARNESS = {"main": "c01.cpp", "sources": ["src/Base64.cpp"]}
HARNESS_SECS = 10
TRUSTED = ["std::string, std::string_view and std::vector<uint8_t> as byte sequences (append, push_back, reserve, operator[], substr/remove_prefix)"]
ASSUMPTIONS = ["char and uint8_t are 8-bit machine integers (bit-vectors), uint32_t arithmetic wraps, size_t is mathematical with unsigned wrap-around on subtraction",
               "exceptions of std::bad_alloc are outside the contracts"]
