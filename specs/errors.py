"""C10: from a reported error to its entry in the response."""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, Str, strlit
from cppcv.engine import LoopSpec, Iter, Loc, StructV, RefV, ExcV, Ptr
from cppcv.ctypes_ import parse, CT
from cppcv.front import qt, children
from specs import value as W
from specs.value import *

PROPERTY = "C10"
TUF = "src/GraphQLService.cpp"
SV = "graphql::service::"
FP = SV + "field_path"


class E:
    """sorts of the error types, from the AST"""
    err = loc = seg = path = errs = fp = None


class EM(VM):
    recursive = VM.recursive + (FP,)

    def bind(self, ex):
        VM.bind(self, ex)
        if E.err is None:
            E.err = self.sort_of(CT(SV + "schema_error"))
            E.loc = L.rec_sort(E.err, "location"); E.path = L.rec_sort(E.err, "path")
            E.seg = L.seq_theory_for_sort(E.path).elem
            E.errs = L.seq_of(E.err)
            E.fp = self.sort_of(CT(FP))
            E.chain = z3.Function("path_of", L.option(E.fp), E.path)      # root to leaf


def PT(): return L.seq_theory_for_sort(E.path)
def chain_of(o):
    """path of a field: the path of its parent, then its own segment"""
    return E.chain(o)


def chain_axioms():
    o = z3.Const("fpo", E.chain.domain(0))
    h = L.opt_val(o); th = PT()
    return [z3.ForAll([o], z3.Implies(L.opt_is(o), E.chain(o) == th.push(E.chain(L.rec_get(h, "parent")), L.rec_get(h, "segment"))), patterns=[E.chain(o)]),
            z3.ForAll([o], z3.Implies(z3.Not(L.opt_is(o)), E.chain(o) == th.empty), patterns=[E.chain(o)])]


def msg(e): return L.rec_get(e, "message")
def loc(e): return L.rec_get(e, "location")
def path(e): return L.rec_get(e, "path")
def line(l): return L.rec_get(l, "line")
def col(l): return L.rec_get(l, "column")
def int_is(v, n): return z3.And(tag_is(v, INT), int_(v) == z3.Int2BV(n, 32))
def member_is(m, i, name): return name_at(m, i) == strlit(name)


def is_location(v, l):
    """[{ line, column }]"""
    ls = list_(v); m = seq_list().at_(ls, 0); mm = map_(m)
    return z3.And(tag_is(v, LIST), mlen(ls) == 1, tag_is(m, MAP), mlen(mm) == 2, member_is(mm, 0, b"line"), int_is(val_at(mm, 0), line(l)), member_is(mm, 1, b"column"), int_is(val_at(mm, 1), col(l)))


def is_segment(v, s):
    return z3.If(L.var_is(s, 0), z3.And(tag_is(v, STRING), str_(v) == L.var_get(s, 0)), int_is(v, L.var_get(s, 1)))


def is_path(v, p):
    i = z3.Int("psi")
    ls = list_(v); th = PT()
    return z3.And(tag_is(v, LIST), mlen(ls) == th.len_(p), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len_(p)), is_segment(seq_list().at_(ls, i), th.at_(p, i))), patterns=[seq_list().at_(ls, i), th.at_(p, i)]))


def has_loc(e): return line(loc(e)) != 0
def has_path(e): return PT().len_(path(e)) > 0


def is_entry(v, e):
    m = map_(v)
    return z3.And(tag_is(v, MAP), mlen(m) == 1 + z3.If(has_loc(e), 1, 0) + z3.If(has_path(e), 1, 0),
                  member_is(m, 0, b"message"), tag_is(val_at(m, 0), STRING), str_(val_at(m, 0)) == msg(e),
                  z3.Implies(has_loc(e), z3.And(member_is(m, 1, b"locations"), is_location(val_at(m, 1), loc(e)))),
                  z3.Implies(has_path(e), z3.And(member_is(m, mlen(m) - 1, b"path"), is_path(val_at(m, mlen(m) - 1), path(e)))))


# ------------------------------------------------------------------ the three parts of an entry
def adder(name, key, cond, isval):
    def pre(c):
        v = VAL(c, c.old[1])
        return inv_of(c, "", v) + [("the entry is an object", tag_is(v, MAP)), ("it has no such member yet", absent(v, strlit(key)))]
    def post(c):
        o, n = VAL(c, c.old[1]), VAL(c, c.args[1])
        m, m2 = map_(o), map_(n)
        k = cond(c) if cond else z3.BoolVal(True)
        th = TH(m)
        return [("the entry stays an object", tag_is(n, MAP)), ("nothing is added when there is none", z3.Implies(z3.Not(k), eqs(m2, m))),
                ("one member is added, after the others", z3.Implies(k, z3.And(mlen(m2) == mlen(m) + 1, eqs(th.slice_(m2, 0, mlen(m)), m)))),
                ("it has the right name", z3.Implies(k, name_at(m2, mlen(m)) == strlit(key))),
                ("it has the right content", z3.Implies(k, isval(c, val_at(m2, mlen(m)))))] + [("afterwards, " + l, f) for l, f in wf(n, c.ex.callctx is c)]
    def ap(c):
        ex = c.ex
        if ex.pure: raise NotPure()
        l = ex.loc(c.args[1])
        ex.write(l, ex.fresh("entry", V.S))
        for lab, f in post(c): ex.assume(f)
        v = VAL(c, l)
        ex.assume(V.wf_(v))
        if isinstance(c.args[0], Loc) and name == "addErrorMessage": ex.move_from(c.args[0])
        return VOID
    ct = Contract(name, TUF, SV + name, pre=pre, post=post, call=ap)
    ct.internal = True
    return ct


def path_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    p = ctx.seq()
    out = []
    if p is None or p.sort() != E.path: return out
    for l in ctx.locals_(lambda t, d: t.name == VT and d["kind"] == "VarDecl")[:1]:
        v = VAL(c, l)
        i = z3.Int("pii")
        ls = list_(v); th = PT()
        out += [("a list is being built", tag_is(v, LIST)), ("one element per segment so far", mlen(ls) == k),
                ("every element is its segment", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), is_segment(seq_list().at_(ls, i), th.at_(p, i))), patterns=[seq_list().at_(ls, i), th.at_(p, i)])),
                ("the value satisfies the invariant", V.wf_(v))]
    return out


add_msg = adder("addErrorMessage", b"message", None, lambda c, v: z3.And(tag_is(v, STRING), str_(v) == c.old[0]))
def L0(c): return c.M.pack_sort(c.old[0], E.loc)
add_loc = adder("addErrorLocation", b"locations", lambda c: line(L0(c)) != 0, lambda c, v: is_location(v, L0(c)))
add_path = adder("addErrorPath", b"path", lambda c: PT().len_(c.old[0]) > 0, lambda c, v: is_path(v, c.old[0]))
add_path.loops = [LoopSpec("segments", path_inv)]


# ------------------------------------------------------------------ path of the field in error
def chain_inv(ctx):
    ex = ctx.ex
    c = ex.callctx
    whole = c.old[0]
    th = PT()
    cur = [l for l in ctx.locals_(lambda t, d: t.name == "std::optional")]
    acc = [l for l in ctx.locals_(lambda t, d: t.name in ("std::list", "std::vector", "std::deque") and ex.M._sort_is(t, E.path))]
    out = []
    cands = [l for l in cur if ex.val(l).sort() == whole.sort() and not ex.deref(l).same(ex.deref(ex.loc(c.args[0])))]
    if not cands or not acc: return out
    acc = [l for l in acc if any(l.root == r for r, _ in ctx.mods)] or acc[-1:]      # the container the loop fills
    node, segs = ex.val(cands[0]), ex.val(acc[0])
    i = z3.Int("chi")
    n, w = chain_of(node), chain_of(whole)
    A, N = th.at_, th.len_
    return [("the segments left and those collected are as many as the path has", N(n) + N(segs) == N(w)),
            ("the segments left are the first ones", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N(n)), A(n, i) == A(w, i)), patterns=[A(w, i)])),
            ("those collected are the others", z3.ForAll([i], z3.Implies(z3.And(N(n) <= i, i < N(w)), A(segs, i - N(n)) == A(w, i)), patterns=[A(w, i)]))]


build_path = Contract("buildErrorPath", TUF, SV + "buildErrorPath", setup=lambda c: [c.ex.assume(a) for a in chain_axioms()], post=lambda c: [("names and indices from the root to the field", L.eqgoal(c.res_val(E.path), chain_of(c.old[0])))],
                      loops=[LoopSpec("chain", chain_inv)])


# ------------------------------------------------------------------ all errors
def entries_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    errs = c.ghost0
    out = []
    if not hasattr(ctx, "seq") or ctx.seq() is None or ctx.seq().sort() != E.errs.sort: return out
    cur = ctx.seq()
    i = z3.Int("eii")
    out.append(("errors not reached yet are untouched", z3.And(E.errs.len_(cur) == E.errs.len_(errs), z3.ForAll([i], z3.Implies(z3.And(k <= i, i < E.errs.len_(errs)), E.errs.at_(cur, i) == E.errs.at_(errs, i)), patterns=[E.errs.at_(cur, i), E.errs.at_(errs, i)]))))
    for l in ctx.locals_(lambda t, d: t.name == VT and d["kind"] == "VarDecl")[:1]:
        v = VAL(c, l); ls = list_(v)
        out += [("a list is being built", tag_is(v, LIST)), ("one entry per error so far", mlen(ls) == k),
                ("every entry is its error", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), is_entry(seq_list().at_(ls, i), E.errs.at_(errs, i))), patterns=[seq_list().at_(ls, i), E.errs.at_(errs, i)])),
                ("the value satisfies the invariant", V.wf_(v))]
    return out


def is_errors(v, errs):
    i = z3.Int("iei")
    ls = list_(v)
    return [("a list", tag_is(v, LIST)), ("one entry per error", mlen(ls) == E.errs.len_(errs)),
            ("every entry is its own error, in order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < E.errs.len_(errs)), is_entry(seq_list().at_(ls, i), E.errs.at_(errs, i))), patterns=[seq_list().at_(ls, i), E.errs.at_(errs, i)]))]


def bev_call(c):
    v = c.ex.fresh("errors", V.S)
    for l, f in is_errors(v, c.old[0]) + wf(v): c.ex.assume(f)
    c.ex.assume(V.wf_(v))
    if isinstance(c.args[0], Loc): c.ex.write(c.ex.deref(c.args[0]), c.ex.fresh("moved_errors", E.errs.sort))
    return v


def snap0(c): c.ghost0 = c.M.pack_sort(c.ex.val(c.args[0]), E.errs.sort)
build = Contract("buildErrorValues", TUF, SV + "buildErrorValues", setup=snap0, post=lambda c: is_errors(VAL(c, c.res), c.ghost0), loops=[LoopSpec("errors", entries_inv)], call=bev_call)

# ------------------------------------------------------------------ schema_exception
SE = SV + "schema_exception::"
def F0(c): return c.M.pack_sort(c.f_old("_structuredErrors"), E.errs.sort)
def F1(c): return c.M.pack_sort(c.f_new("_structuredErrors"), E.errs.sort)
MS = L.seq_of(Str.sort)


def from_messages(errs, ms):
    i = z3.Int("fmi")
    e = E.errs.at_(errs, i)
    return [("one error per message", E.errs.len_(errs) == MS.len_(ms)),
            ("each with its own message and no location or path", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < MS.len_(ms)), z3.And(msg(e) == MS.at_(ms, i), line(loc(e)) == 0, PT().len_(path(e)) == 0)), patterns=[E.errs.at_(errs, i), MS.at_(ms, i)]))]


def cm_call(c):
    r = c.ex.fresh("errors", E.errs.sort)
    for l, f in from_messages(r, c.old[0]): c.ex.assume(f)
    if isinstance(c.args[0], Loc): c.ex.write(c.ex.deref(c.args[0]), c.ex.fresh("moved_messages", MS.sort))
    return r


conv = Contract("schema_exception::convertMessages", TUF, SE + "convertMessages", post=lambda c: from_messages(c.res_val(E.errs.sort), c.old[0]), call=cm_call)
conv.internal = True
sel = lambda s: (lambda d, tu: s in d.get("type", {}).get("qualType", ""))
ctor_errors = Contract("schema_exception(errors)", TUF, SE + "schema_exception", pred=sel("list"), post=lambda c: [("carries exactly the given errors", eqs(F1(c), c.M.pack_sort(c.old[0], E.errs.sort)))])
ctor_msgs = Contract("schema_exception(messages)", TUF, SE + "schema_exception", pred=sel("vector"), post=lambda c: from_messages(F1(c), c.old[0]))
for c_ in (ctor_errors, ctor_msgs): c_.use = True
what = Contract("schema_exception::what", TUF, SE + "what", post=lambda c: [("text of the first error", c.res_val(Str.sort) == z3.If(E.errs.len_(F0(c)) > 0, cstr(msg(E.errs.at_(F0(c), 0))), strlit(b"Unknown schema error"))), ("the errors stay", eqs(F1(c), F0(c)))])
gse = Contract("schema_exception::getStructuredErrors", TUF, SE + "getStructuredErrors", post=lambda c: [("hands out exactly the errors", eqs(c.res_val(E.errs.sort), F0(c)))])
ge = Contract("schema_exception::getErrors", TUF, SE + "getErrors", post=lambda c: is_errors(VAL(c, c.res), F0(c)))

contracts = [add_msg, add_loc, add_path, build_path, build, ctor_errors, ctor_msgs, conv, what, gse, ge]


def models(tu):
    m = EM()
    m.contracts = [add_msg, add_loc, add_path, build, conv] + list(W.contracts) + W.base64
    return m


TRUSTED = ["response::Value contracts (proved by C03)"]
ASSUMPTIONS = ["source positions and list indices are below 2^31", "the fields an error path refers to outlive it and do not change (reference_wrapper is read as the value it refers to)"]

