"""ModifiedResult: lists, nullable values and objects keep their shape"""
import re
from specs.selection import *
from specs import selection as SE, errors as X

TUR = "tu/results.cpp"
MR = SV + "ModifiedResult"
Leaf = z3.DeclareSort("Leaf")
Obj = z3.DeclareSort("ObjectPtr")
Callback = z3.DeclareSort("ResolverCallback")
Item = z3.DeclareSort("Item")
null_node = z3.Function("is_null_node", Node, Bool)
is_null = z3.Function("is_null_object", Obj, Bool)


class R: pass


def res_setup(m):
    if hasattr(R, "call"): return
    R.path = S.path
    # one conversion of an inner value and what came of it
    R.call = L.record("Conversion", [("kind", Int), ("item", Item), ("in_errors", E.errs.sort), ("path", S.path), ("field", Node), ("name", Str.sort), ("args", V.S), ("nested", Bool), ("selection", Node), ("outcome", Int), ("future", Fut), ("errors", E.errs.sort)])
    R.calls = L.seq_of(R.call)
    R.vals = {}
    R.inj = {}
    R.CAT = z3.Function("errors_of_conversions", R.calls.sort, Int, E.errs.sort, Bool)


def fut_val(s):
    """what a future of that type yields"""
    if s.eq(S.res): return S.fut_res
    n = L.sort_name(s)
    if n not in R.vals: R.vals[n] = z3.Function("future_value_" + n, Fut, s)
    return R.vals[n]


def item(x):
    n = L.sort_name(x.sort())
    if n not in R.inj: R.inj[n] = z3.Function("item_" + n, x.sort(), Item)
    return R.inj[n](x)


# ------------------------------------------------------------------ which instantiation
def inst(cls, *mods):
    """the convert of ModifiedResult<cls> with those modifiers (0 none, 1 nullable, 2 list)"""
    pat = "ModifiedResultI%sE7convertILNS0_12TypeModifierE%dE" % (cls, mods[0]) + ("J" + "".join(r"LS\d_%dE" % m for m in mods[1:]) + "E" if len(mods) > 1 else "TpTn")
    return lambda d, tu: re.search(pat, d.get("mangledName", "")) is not None


LEAF, THING, BOOLS = "NS_5verif4LeafE", "NS_5verif5ThingE", "b"
FRES = SV + "FieldResult<%s>"


class RM(SM):
    def __init__(self):
        SM.__init__(self)
        self.opaque.update({"graphql::verif::Leaf": Leaf})
        for t in (OBJ, "graphql::verif::Thing"): self.opaque["std::shared_ptr<%s>" % t] = Obj
        mm = self.member_models
        mm[("std::promise", "set_value")] = self._set_value
        self.free_models["current_exception"] = self._current
        self.free_models["static_pointer_cast"] = lambda ex, n, a: ex.val(ex.eval(a[0]))

    def bind(self, ex):
        SM.bind(self, ex)
        res_setup(self)

    def sort_of(self, ct):
        if not ct.ptr and ct.name == "std::shared_ptr" and ct.args and ct.args[0].name in (OBJ, "graphql::verif::Thing"): return Obj
        return SM.sort_of(self, ct)

    def null_of(self, s):
        if not s.eq(Obj): return SM.null_of(self, s)
        o = self.ex.fresh("null", Obj)
        self.ex.assume(is_null(o))
        return o

    def default_of(self, ct, uninit=False):
        if not ct.ptr and ct.name == "std::shared_ptr" and self.sort_of(ct).eq(Obj):
            o = self.ex.fresh("null", Obj)
            self.ex.assume(is_null(o))
            return o
        return SM.default_of(self, ct, uninit)

    def binop(self, ex, op, u, w, *a):
        for x, y in ((u, w), (w, u)):
            if z3.is_expr(x) and x.sort() == Node and isinstance(y, Ptr) and y.loc is None and op in ("==", "!="): return null_node(x) if op == "==" else z3.Not(null_node(x))
        return SM.binop(self, ex, op, u, w, *a)

    def truth(self, v):
        if z3.is_expr(v) and v.sort() == Node: return z3.Not(null_node(v))
        if z3.is_expr(v) and v.sort() == Obj: return z3.Not(is_null(v))
        return SM.truth(self, v)

    def _set_value(self, ex, o, a, n):
        v = ex.val(ex.eval(a[0]))
        s = self.future_sort(ex, n)
        f = ex.fresh("ready", Fut)
        ex.assume(S.kind(f) == OK_); ex.assume(fut_val(s)(f) == self.pack_sort(v, s))
        ex.write(o, f)
        return VOID

    def future_sort(self, ex, n):
        m = children(n)[0]
        while m["kind"] != "MemberExpr": m = children(m)[0]
        t = parse(qt(children(m)[0])).bare()
        return self.sort_of(t.args[0])

    def _get(self, ex, o, a, n):
        if ex.pure: raise NotPure()
        s = self.future_sort(ex, n)
        if s.eq(S.res): return SM._get(self, ex, o, a, n)
        f = ex.val(o)
        if ex.choose(S.kind(f) == OK_): return fut_val(s)(f)
        if ex.choose(S.kind(f) == ERRORS): raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": S.fut_errs(f)})))
        ex.assume(S.kind(f) == STD)
        raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))

    def yields(self, ex, f, r, n):
        s = self.sort_of(parse(qt(n)).bare().args[0])
        ex.assume(fut_val(s)(f) == self.pack_sort(r, s))

    def _current(self, ex, n, a): return self.ptr_to(ex, ex.fresh("exception", ExcPtr), ex.ghost_exc[-1].val)


def settled(ex, fr):
    """what a FieldResult holds: a value (no future), or a future"""
    v = L.rec_get(fr, "_value")
    return ex.choose(L.var_is(v, 0))


def kind_of(ex, fr):
    v = L.rec_get(fr, "_value")
    return z3.IntVal(OK_) if settled(ex, fr) else S.kind(L.var_get(v, 1))


def value_of(ex, fr):
    v = L.rec_get(fr, "_value")
    x = L.var_get(v, 0)
    return x if settled(ex, fr) else fut_val(x.sort())(L.var_get(v, 1))


def errs_of(fr): return S.fut_errs(L.var_get(L.rec_get(fr, "_value"), 1))


def RP(c, i, f, s, new=False):
    p = c.new(i) if new else c.old[i]
    v = c.field(p, f)
    return c.M.pack_sort(v, s) if not isinstance(v, Ptr) else v


def conv_log(c, kind, it, in_errs):
    """the inner conversion is called: it returns a future or throws"""
    ex = c.ex
    if ex.pure: raise NotPure()
    sel = RP(c, 1, "selection", Node)
    nested = ex.fresh("nested", Bool); node = sel
    ex.assume(nested == z3.Not(null_node(sel)))
    out = ex.fresh("outcome", Int)
    fut, errs = ex.fresh("answer", Fut), ex.fresh("thrown", E.errs.sort)
    if ex.choose(out == OK_): o = OK_
    elif ex.choose(out == ERRORS): o = ERRORS
    else: o = STD
    k = L.rec_mk(R.call, [kind, it, in_errs, RP(c, 1, "errorPath", S.path), RP(c, 1, "field", Node), RP(c, 1, "fieldName", Str.sort), RP(c, 1, "arguments", V.S), nested, node, z3.IntVal(o), fut, errs])
    loc = ex.ghost["conversions"]
    ex.write(loc, R.calls.push(ex.val(loc), k))
    if o == OK_: return fut
    if o == ERRORS: raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": errs})))
    raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))


def inner_call(c):
    fr = c.M.pack(c.old[0], c.frt)
    return conv_log(c, kind_of(c.ex, fr), item(value_of(c.ex, fr)), errs_of(fr))


# ------------------------------------------------------------------ contracts
def FR_(c): return c.M.pack(c.old[0], c.frt)
def CALLS(c): return c.ex.val(c.ex.ghost["conversions"])


def typed(t):
    """the first parameter's type (clang prints it through the traits)"""
    def f(c, i, p, ct):
        if i: return None
        c.frt = parse(FRES % t)
        return c.M.fresh_arg(c.ex, parse(FRES % t + "&&"), "result")
    return f


def conv_start(c):
    sel_start(c)
    for a in X.chain_axioms(): c.ex.assume(a)
    for a in res_cat_axioms(): c.ex.assume(a)
    c.ex.ghost["conversions"] = c.ex.alloc(R.calls.empty, "conversions")


def params_ok(c): return [("the %s satisfy their invariant" % n, V.wf_(RP(c, 1, n, V.S))) for n in ("arguments", "fieldDirectives")]


def same_request(c, k):
    """everything but the path is the caller's"""
    sel = RP(c, 1, "selection", Node)
    return z3.And(CG(k, "field") == RP(c, 1, "field", Node), CG(k, "name") == RP(c, 1, "fieldName", Str.sort), CG(k, "nested") == z3.Not(null_node(sel)), CG(k, "selection") == sel,
                  z3.Or(CG(k, "args") == RP(c, 1, "arguments", V.S), V.veq_(CG(k, "args"), RP(c, 1, "arguments", V.S))))


def index_is(p, parent, i):
    h = L.opt_val(p); s = L.rec_get(h, "segment")
    return z3.And(L.opt_is(p), L.rec_get(h, "parent") == parent, L.var_is(s, 1), L.var_get(s, 1) == i)


def passed_on(c, f, k, es):
    """the outcome is that failure"""
    return z3.And(S.kind(f) == k, z3.Implies(k == ERRORS, S.fut_errs(f) == es))


def res_cat_axioms():
    """CAT(calls, k, es): es are the errors of the k conversions, one after the other"""
    if hasattr(R, "cat_ax"): return R.cat_ax
    cs = z3.Const("rccs", R.calls.sort); k = z3.Int("rck"); a, p = z3.Consts("rca rcp", E.errs.sort)
    q = R.calls.at_(cs, k); f = CG(q, "future")
    rc, re_ = CG(q, "outcome"), CG(q, "errors")
    ok, sk = z3.And(rc == OK_, S.kind(f) == OK_), z3.And(rc == OK_, S.kind(f) == ERRORS)
    one = z3.Or(rc == STD, z3.And(rc == OK_, S.kind(f) == STD))
    piece = lambda x: z3.And(z3.Implies(ok, x == L.rec_get(S.fut_res(f), "errors")), z3.Implies(sk, x == S.fut_errs(f)), z3.Implies(rc == ERRORS, x == re_), z3.Implies(one, single(x, q)))
    x = z3.Const("rcx", E.err)
    T3 = R.CAT
    R.cat_ax = [z3.ForAll([cs], T3(cs, z3.IntVal(0), E.errs.empty), patterns=[T3(cs, z3.IntVal(0), E.errs.empty)]),
                z3.ForAll([cs, k, a, p], z3.Implies(z3.And(0 <= k, T3(cs, k, a), piece(p)), T3(cs, k + 1, E.errs.cat_(a, p))), patterns=[z3.MultiPattern(T3(cs, k, a), E.errs.cat_(a, p))]),
                z3.ForAll([cs, k, a, x], z3.Implies(z3.And(0 <= k, T3(cs, k, a), piece(E.errs.push_(E.errs.empty, x))), T3(cs, k + 1, E.errs.push_(a, x))), patterns=[z3.MultiPattern(T3(cs, k, a), E.errs.push_(a, x))]),
                z3.ForAll([cs, k, a], z3.Implies(z3.And(0 <= k, T3(cs, k, a), piece(E.errs.empty)), T3(cs, k + 1, a)), patterns=[z3.MultiPattern(T3(cs, k, a), R.calls.at_(cs, k))])]
    return R.cat_ax


def single(x, q):
    """one error, at the field and path of that conversion"""
    e = E.errs.at_(x, z3.IntVal(0))
    return z3.And(E.errs.len_(x) == 1, located(e, CG(q, "field")), X.path(e) == X.chain_of(CG(q, "path")))


def childs(c, calls, vs, k):
    """the first k elements have been converted, each with its own index"""
    i = z3.Int("chi")
    TV = L.seq_theory_for_sort(vs.sort())
    q = R.calls.at_(calls, i)
    g = z3.And(0 <= i, i < k)
    fa = lambda f: z3.ForAll([i], z3.Implies(g, f), patterns=[R.calls.at_(calls, i), TV.at_(vs, i)])
    return [("each element is converted once", R.calls.len_(calls) == k),
            ("each with its own value, in order", fa(z3.And(CG(q, "kind") == OK_, CG(q, "item") == item(TV.at_(vs, i))))),
            ("at the path of its index", fa(index_is(CG(q, "path"), RP(c, 1, "errorPath", S.path), i))),
            ("for the same field", fa(same_request(c, q)))]


def slots(c, calls, ch, k):
    """the future in each slot is what its conversion came to"""
    i = z3.Int("sli")
    TF = L.seq_theory_for_sort(ch.sort())
    q = R.calls.at_(calls, i); f = TF.at_(ch, i)
    return [("one slot per element", TF.len_(ch) == k),
            ("each slot holds what its conversion came to", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.If(CG(q, "outcome") == OK_, f == CG(q, "future"), z3.And(S.kind(f) == CG(q, "outcome"), z3.Implies(CG(q, "outcome") == ERRORS, S.fut_errs(f) == CG(q, "errors"))))), patterns=[R.calls.at_(calls, i), TF.at_(ch, i)]))]


def list_doc(c, calls, r, k):
    d, es = L.rec_get(r, "data"), L.rec_get(r, "errors")
    l = list_(d); i = z3.Int("ldi")
    q = R.calls.at_(calls, i); f = CG(q, "future")
    okc = z3.And(CG(q, "outcome") == OK_, S.kind(f) == OK_)
    g = z3.And(0 <= i, i < k)
    x = TH(l).at_(l, i); y = L.rec_get(S.fut_res(f), "data")
    return [("a list", tag_is(d, LIST)), ("the value satisfies its invariant", V.wf_(d)), ("one entry per element", mlen(l) == k),
            ("each with what its conversion produced", z3.ForAll([i], z3.Implies(z3.And(g, okc), z3.Or(x == y, V.veq_(x, y))), patterns=[TH(l).at_(l, i), R.calls.at_(calls, i)])),
            ("null where it failed", z3.ForAll([i], z3.Implies(z3.And(g, z3.Not(okc)), tag_is(x, NULL)), patterns=[TH(l).at_(l, i), R.calls.at_(calls, i)])),
            ("every error once, in order", R.CAT(calls, k, es))]


def list_post(c):
    fr = FR_(c); k = kind_of(c.ex, fr); vs = value_of(c.ex, fr)
    calls = CALLS(c); f = c.res_val(Fut)
    n = L.seq_theory_for_sort(vs.sort()).len_(vs)
    return [("a failure is passed on", z3.Implies(k != OK_, z3.And(passed_on(c, f, k, errs_of(fr)), R.calls.len_(calls) == 0))), ("a result", z3.Implies(k == OK_, S.kind(f) == OK_))] + \
           [(l, z3.Implies(k == OK_, x)) for l, x in childs(c, calls, vs, n) + list_doc(c, calls, S.fut_res(f), n)]


def list_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None: return []
    calls = CALLS(c); vs = value_of(ex, FR_(c))
    ch = ctx.all_locals(lambda t, d: t.name == "std::vector" and t.args and t.args[0].name == "std::future")
    ps = [l for l in ctx.all_locals(lambda t, d: t.name == SV + "ResolverParams")]
    roots = {r for r, _ in ctx.mods}
    out = []
    import os
    if os.environ.get("DBG"): print("PS", ps, roots, ctx.mods)
    def path_at(i):
        return [("the path is that of the element", z3.And([index_is(c.M.pack_sort(c.field(ex.val(p), "errorPath"), S.path), RP(c, 1, "errorPath", S.path), i) for p in ps if p.root in roots] or [z3.BoolVal(True)]))]
    if s.sort().eq(vs.sort()):
        n = L.seq_theory_for_sort(s.sort()).len_(s)
        out += childs(c, calls, vs, k) + slots(c, calls, c.M.pack_sort(ex.val(ch[0]), L.seq_of(Fut).sort), k) + path_at(k)
        out.append(("the elements to come are as given", z3.ForAll([z3.Int("tci")], z3.Implies(z3.And(k <= z3.Int("tci"), z3.Int("tci") < n), L.seq_theory_for_sort(s.sort()).at_(s, z3.Int("tci")) == L.seq_theory_for_sort(s.sort()).at_(vs, z3.Int("tci"))), patterns=[L.seq_theory_for_sort(s.sort()).at_(s, z3.Int("tci"))])))
        out.append(("as many elements", n == L.seq_theory_for_sort(s.sort()).len_(vs)))
    elif s.sort().eq(L.seq_of(Fut).sort):
        docs = [l for l in ctx.all_locals(lambda t, d: t.name == SV + "ResolverResult") if l.root in roots]
        if docs: out += list_doc(c, calls, c.M.pack_sort(ex.val(docs[0]), S.res), k)
        out += path_at(k)
    return out


def gse_call(c):
    es = X.F0(c)
    c.ex.write(c.this.ext(("f", "_structuredErrors")), c.ex.fresh("moved_errors", E.errs.sort))
    return es


gse_used = Contract(X.gse.name, TUF, X.SE + "getStructuredErrors", post=X.gse.post, call=gse_call)


def loc_post(c):
    v = c.res_val()
    n = c.M.pack_sort(c.f_old("field"), Node)
    return [("the line of the field", c.M.pack_sort(c.field(v, "line"), Int) == nline(n)), ("its column", c.M.pack_sort(c.field(v, "column"), Int) == ncol(n))]


get_location = Contract("ResolverParams::getLocation", TUF, SV + "ResolverParams::getLocation", post=loc_post)


def conv_models(*contracts):
    def models(tu):
        m = RM()
        m.contracts = [X.build_path, gse_used, get_location] + list(contracts) + list(W.contracts) + W.base64
        return m
    return models


def mk_conv(name, cls, mods, t, post, call=None, exc=None, loops=()):
    c = Contract(name, TUR, MR + "::convert", pred=inst(cls, *mods), setup=conv_start, pre=params_ok, arg_setup=typed(t), post=post, exc=exc, loops=[LoopSpec("elements", list_inv, own)])
    c.has_post = post is not None
    if call is not None:
        def do(cc, t=t):
            cc.frt = parse(FRES % t)
            return call(cc)
        c.call = do
    return c


leaf_none = mk_conv("ModifiedResult<T>::convert<None>", LEAF, (0,), "graphql::verif::Leaf", None, inner_call)
leaf_list = mk_conv("ModifiedResult<T>::convert<List>", LEAF, (2,), "std::vector<graphql::verif::Leaf>", list_post, inner_call)
leaf_none_named = leaf_none


def unwrapped(v):
    """an optional or a pointer: is there a value, and which"""
    if v.sort() == Obj: return z3.Not(is_null(v)), v
    return L.opt_is(v), L.opt_val(v)


def same_path(c, q): return CG(q, "path") == RP(c, 1, "errorPath", S.path)


def one_conversion(c, calls, f, x):
    """one conversion, of that value, for the same field at the same path, and its outcome is the outcome"""
    q = R.calls.at_(calls, z3.IntVal(0)); g = CG(q, "future"); o = CG(q, "outcome")
    return [("one conversion", R.calls.len_(calls) == 1), ("of that value", z3.And(CG(q, "kind") == OK_, CG(q, "item") == item(x))), ("for the same field", same_request(c, q)), ("at the same path", same_path(c, q)),
            ("its result is the result", z3.Implies(o == OK_, z3.And(S.kind(f) == S.kind(g), z3.Implies(S.kind(g) == OK_, same_result(f, g)), z3.Implies(S.kind(g) == ERRORS, S.fut_errs(f) == S.fut_errs(g))))),
            ("its failure is the failure", z3.Implies(o != OK_, z3.And(S.kind(f) == o, z3.Implies(o == ERRORS, S.fut_errs(f) == CG(q, "errors")))))]


def same_result(f, g): return z3.Or(f == g, S.fut_res(f) == S.fut_res(g))


def nullable_post(c):
    fr = FR_(c); k = kind_of(c.ex, fr); v = value_of(c.ex, fr)
    calls = CALLS(c); f = c.res_val(Fut)
    some, x = unwrapped(v)
    r = S.fut_res(f)
    return [("a failure is passed on", z3.Implies(k != OK_, z3.And(passed_on(c, f, k, errs_of(fr)), R.calls.len_(calls) == 0))),
            ("no value is null, without errors", z3.Implies(z3.And(k == OK_, z3.Not(some)), z3.And(S.kind(f) == OK_, tag_is(L.rec_get(r, "data"), NULL), E.errs.len_(L.rec_get(r, "errors")) == 0, R.calls.len_(calls) == 0)))] + \
           [("a value: " + l, z3.Implies(z3.And(k == OK_, some), p)) for l, p in one_conversion(c, calls, f, x)]


leaf_maybe = mk_conv("ModifiedResult<T>::convert<Nullable>", LEAF, (1,), "std::optional<graphql::verif::Leaf>", nullable_post, inner_call)
leaf_maybes = mk_conv("ModifiedResult<T>::convert<List, Nullable>", LEAF, (2, 1), "std::vector<std::optional<graphql::verif::Leaf>>", list_post, inner_call)
leaf_maybe_list = mk_conv("ModifiedResult<T>::convert<Nullable, List>", LEAF, (1, 2), "std::optional<std::vector<graphql::verif::Leaf>>", nullable_post, inner_call)
leaf_lists = mk_conv("ModifiedResult<T>::convert<List, List>", LEAF, (2, 2), "std::vector<std::vector<graphql::verif::Leaf>>", list_post, inner_call)
bool_list = mk_conv("ModifiedResult<bool>::convert<List>", BOOLS, (2,), "std::vector<bool>", list_post, inner_call)
bool_none = mk_conv("ModifiedResult<bool>::convert<None>", BOOLS, (0,), "bool", None, inner_call)
THP = "std::shared_ptr<graphql::verif::Thing>"
thing_none = mk_conv("ModifiedResult<Thing>::convert<None>", THING, (0,), THP, None, inner_call)
thing_maybe = mk_conv("ModifiedResult<Thing>::convert<Nullable>", THING, (1,), THP, nullable_post, inner_call)
thing_list = mk_conv("ModifiedResult<Thing>::convert<List>", THING, (2,), "std::vector<%s>" % THP, list_post, inner_call)
thing_maybes = mk_conv("ModifiedResult<Thing>::convert<List, Nullable>", THING, (2, 1), "std::vector<%s>" % THP, list_post, inner_call)
CONVERSIONS = [leaf_none, leaf_list, leaf_maybe, leaf_maybes, leaf_maybe_list, leaf_lists, bool_none, bool_list, thing_none, thing_maybe, thing_list, thing_maybes]


# ------------------------------------------------------------------ a single value
def plain(cls): return lambda d, tu: re.search("ModifiedResultI%sE7convertE" % cls, d.get("mangledName", "")) is not None


def forwarded_post(c):
    """exactly one conversion, of what was given, with the same outcome"""
    fr = FR_(c); k = kind_of(c.ex, fr)
    calls = CALLS(c); f = c.res_val(Fut)
    q = R.calls.at_(calls, z3.IntVal(0)); g = CG(q, "future")
    return [("one conversion", R.calls.len_(calls) == 1), ("of what was given", z3.And(CG(q, "kind") == k, z3.Implies(k == OK_, CG(q, "item") == item(value_of(c.ex, fr))), z3.Implies(k == ERRORS, CG(q, "in_errors") == errs_of(fr)))),
            ("for the same field", same_request(c, q)), ("at the same path", same_path(c, q)), ("its result is the result", z3.And(CG(q, "outcome") == OK_, z3.Or(f == g, S.fut_res(f) == S.fut_res(g)), S.kind(f) == S.kind(g)))]


def forwarded_exc(c):
    calls = CALLS(c)
    q = R.calls.at_(calls, z3.IntVal(0)); k = exc_kind(c)
    return [("only the failure of the conversion", z3.And(R.calls.len_(calls) == 1, CG(q, "outcome") == k, z3.BoolVal(True) if k != ERRORS else exc_errs(c) == CG(q, "errors")))]


def exc_kind(c): return ERRORS if c.exc.ct.name == SV + "schema_exception" and isinstance(c.exc.val, StructV) else STD
def exc_errs(c): return c.M.pack_sort(c.exc.val.f["_structuredErrors"], E.errs.sort)


def settled_post(c, calls, f, data_ok, k, out, errs):
    """the result is always there: the value, or null and what went wrong"""
    r = S.fut_res(f); d, es = L.rec_get(r, "data"), L.rec_get(r, "errors")
    field, path = RP(c, 1, "field", Node), RP(c, 1, "errorPath", S.path)
    e = E.errs.at_(es, z3.IntVal(0))
    return [("always a result", S.kind(f) == OK_),
            ("the value as it was resolved", z3.Implies(out == OK_, z3.And(data_ok(d), E.errs.len_(es) == 0))),
            ("null when it failed", z3.Implies(out != OK_, tag_is(d, NULL))),
            ("every error of the failure", z3.Implies(out == ERRORS, L.eqgoal(es, errs))),
            ("any other failure is one error at the field", z3.Implies(out == STD, z3.And(E.errs.len_(es) == 1, located(e, field), L.eqgoal(X.path(e), X.chain_of(path)))))]


def leaf_post(c):
    fr = FR_(c); k = kind_of(c.ex, fr)
    calls = CALLS(c); f = c.res_val(Fut)
    q = R.calls.at_(calls, z3.IntVal(0))
    out = z3.If(k == OK_, CG(q, "outcome"), k)
    errs = z3.If(k == OK_, CG(q, "errors"), errs_of(fr))
    same = lambda d: z3.Or(d == L.rec_get(S.fut_res(CG(q, "future")), "data"), V.veq_(d, L.rec_get(S.fut_res(CG(q, "future")), "data")))
    return [("the value is resolved once", z3.Implies(k == OK_, z3.And(R.calls.len_(calls) == 1, CG(q, "item") == item(value_of(c.ex, fr)), same_path(c, q), same_request(c, q)))), ("or not at all", z3.Implies(k != OK_, R.calls.len_(calls) == 0))] + \
        settled_post(c, calls, f, same, k, out, errs)


def any_value_call(c):
    f = conv_log(c, z3.IntVal(OK_), item(c.old[0]), c.ex.fresh("no_errors", E.errs.sort))
    d = L.rec_get(S.fut_res(f), "data")
    c.ex.assume(V.wf_(d))            # every response::Value satisfies its invariant
    return d


any_value = Contract("(any resolver callback)", TUR, SV + "anyValue", call=any_value_call)
any_value.trusted = True
leaf_conv = Contract("ModifiedResult<T>::resolve", TUR, MR + "::convert", pred=plain(LEAF), setup=conv_start, pre=params_ok, arg_setup=typed("graphql::verif::Leaf"), post=leaf_post)
leaf_conv.call = lambda cc: (setattr(cc, "frt", parse(FRES % "graphql::verif::Leaf")), inner_call(cc))[1]
object_used = Contract("ModifiedResult<Object>::convert", TUF, MR + "::convert", pred=plain("NS0_6ObjectE|ModifiedResultINS0_6ObjectE" if 0 else "NS0_6ObjectE"))
object_used.call = lambda cc: (setattr(cc, "frt", parse(FRES % ("std::shared_ptr<%s>" % OBJ))), inner_call(cc))[1]
leaf_forward = mk_conv("ModifiedResult<T>::convert<None>", LEAF, (0,), "graphql::verif::Leaf", forwarded_post, None, forwarded_exc)
thing_forward = mk_conv("ModifiedResult<Thing>::convert<None>", THING, (0,), THP, forwarded_post, None, forwarded_exc)


# ------------------------------------------------------------------ the built-in types
def sub_field_error(c):
    """one schema error, at the field or its selection, with the field's path"""
    if exc_kind(c) != ERRORS: return [("a schema error", z3.BoolVal(False))]
    es = exc_errs(c); e = E.errs.at_(es, z3.IntVal(0))
    sel = RP(c, 1, "selection", Node)
    field, path = RP(c, 1, "field", Node), RP(c, 1, "errorPath", S.path)
    at = z3.Or(located(e, field), z3.And(z3.Not(null_node(sel)), located(e, sel)))
    return [("one error", E.errs.len_(es) == 1), ("at the field", at), ("with its path", L.eqgoal(X.path(e), X.chain_of(path)))]


def scalar_post(value_ok):
    def post(c):
        fr = FR_(c); k = kind_of(c.ex, fr); v = value_of(c.ex, fr)
        f = c.res_val(Fut)
        return [("a scalar has no selections", null_node(RP(c, 1, "selection", Node)))] + settled_post(c, None, f, lambda d: value_ok(d, v), k, k, errs_of(fr))
    return post


def scalar_exc(c): return [("only for selections on a scalar", z3.Not(null_node(RP(c, 1, "selection", Node))))] + sub_field_error(c)


def single_start(c):
    conv_start(c)


def scalar(name, cls, t, ok):
    return Contract("ModifiedResult<%s>::convert" % name, TUF, MR + "::convert", pred=plain(cls), setup=conv_start, pre=params_ok, arg_setup=typed(t), post=scalar_post(ok), exc=scalar_exc, use=False)
SCALARS = [scalar("IntType", "i", "int", lambda d, v: z3.And(tag_is(d, INT), int_(d) == v)), scalar("FloatType", "d", "double", lambda d, v: z3.And(tag_is(d, FLOAT), float_(d) == v)),
           scalar("StringType", "NSt7__cxx1112basic_string\\w*", "std::string", lambda d, v: z3.And(tag_is(d, STRING), str_(d) == v)), scalar("BooleanType", "b", "bool", lambda d, v: z3.And(tag_is(d, BOOL), bool_(d) == v)),
           scalar("IdType", "St6vectorIhSaIhEE", "std::vector<unsigned char>", lambda d, v: z3.And(tag_is(d, STRING), str_(d) == b64enc(v))), scalar("Value", "NS_8response5ValueE", VT, lambda d, v: z3.Or(d == v, V.veq_(d, v)))]


def value_wf(c):
    fr = FR_(c)
    v = L.rec_get(fr, "_value")
    x = L.var_get(v, 0)
    return [("a given value satisfies its invariant", z3.And(z3.Implies(L.var_is(v, 0), V.wf_(x)), V.wf_(fut_val(x.sort())(L.var_get(v, 1)))))]


SCALARS[-1].pre = lambda c: params_ok(c) + value_wf(c)


def object_call(c):
    """Object::resolve of that object: the parameters are the field's"""
    ex = c.ex
    if ex.pure: raise NotPure()
    obj = c.M.pack_sort(c.this_old, Obj)
    out = ex.fresh("outcome", Int); fut, errs = ex.fresh("answer", Fut), ex.fresh("thrown", E.errs.sort)
    if ex.choose(out == OK_): o = OK_
    elif ex.choose(out == ERRORS): o = ERRORS
    else: o = STD
    P = lambda f, s: c.M.pack_sort(c.field(c.old[0], f), s)
    k = L.rec_mk(R.call, [z3.IntVal(OK_), item(obj), E.errs.empty, P("errorPath", S.path), ex.fresh("nofield", Node), ex.fresh("noname", Str.sort), ex.fresh("noargs", V.S), z3.BoolVal(True), c.M.pack_sort(c.old[1], Node), z3.IntVal(o), fut, errs])
    loc = ex.ghost["conversions"]
    ex.write(loc, R.calls.push(ex.val(loc), k))
    if o == OK_: return fut
    if o == ERRORS: raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": errs})))
    raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))


resolve_used = Contract("Object::resolve", TUF, OBJ + "::resolve", pre=lambda c: [("there are selections", z3.Not(null_node(c.M.pack_sort(c.old[1], Node)))), ("there is an object", z3.Not(is_null(c.M.pack_sort(c.this_old, Obj))))], call=object_call)


def obj_common(c):
    fr = FR_(c); k = kind_of(c.ex, fr); v = value_of(c.ex, fr)
    calls = CALLS(c)
    q = R.calls.at_(calls, z3.IntVal(0)); g = CG(q, "future")
    out = z3.If(CG(q, "outcome") == OK_, S.kind(g), CG(q, "outcome"))
    errs = z3.If(CG(q, "outcome") == OK_, S.fut_errs(g), CG(q, "errors"))
    sel = RP(c, 1, "selection", Node)
    one = [("the object is resolved once", z3.And(R.calls.len_(calls) == 1, CG(q, "item") == item(v))), ("at the path of the field", same_path(c, q)), ("with the selections of the field", CG(q, "selection") == sel)]
    return k, v, calls, q, g, out, errs, one


def object_post(c):
    sel = RP(c, 1, "selection", Node)
    k, v, calls, q, g, out, errs, one = obj_common(c)
    f = c.res_val(Fut); r = S.fut_res(f)
    some = z3.Not(is_null(v))
    return [("an object needs selections", z3.Not(null_node(sel))), ("a failure is passed on", z3.Implies(k != OK_, z3.And(passed_on(c, f, k, errs_of(FR_(c))), R.calls.len_(calls) == 0))),
            ("no object is null, without errors", z3.Implies(z3.And(k == OK_, z3.Not(some)), z3.And(S.kind(f) == OK_, tag_is(L.rec_get(r, "data"), NULL), E.errs.len_(L.rec_get(r, "errors")) == 0, R.calls.len_(calls) == 0)))] + \
           [(l, z3.Implies(z3.And(k == OK_, some), p)) for l, p in one + [("what it resolves to is the result", z3.And(S.kind(f) == out, z3.Implies(out == OK_, S.fut_res(f) == S.fut_res(g)), z3.Implies(out == ERRORS, S.fut_errs(f) == errs)))]]


def object_exc(c):
    sel = RP(c, 1, "selection", Node)
    if c.ex.choose(null_node(sel)): return sub_field_error(c)
    k, v, calls, q, g, out, errs, one = obj_common(c)
    kk = exc_kind(c)
    return one + [("only what resolving it threw", z3.And(out == kk, z3.BoolVal(True) if kk != ERRORS else exc_errs(c) == errs))]


object_conv = Contract("ModifiedResult<Object>::convert", TUF, MR + "::convert", pred=plain("NS0_6ObjectE"), setup=conv_start, pre=params_ok, arg_setup=typed("std::shared_ptr<%s>" % OBJ), post=object_post, exc=object_exc, use=False)


def service_models(tu):
    m = RM()
    m.contracts = [X.build_path, gse_used, get_location, resolve_used, X.ctor_errors] + list(W.contracts) + W.base64
    return m
