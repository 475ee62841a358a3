"""ModifiedArgument: arguments reach resolvers with their declared type and nesting"""
import re
from specs.errors import *
from specs import errors as X
from specs.nodes import own

TUA = "tu/arguments.cpp"
TUG = "src/GraphQLService.cpp"
MA = SV + "ModifiedArgument"
Arg = z3.DeclareSort("Arg")
OK_, ERRORS, STD = 0, 1, 2
contains = z3.Function("contains_text", Str.sort, Str.sort, Bool)


class G: pass


def arg_setup(m):
    if hasattr(G, "ok"): return
    G.ok, G.val = {}, {}
    # the conversion of a plain value: a value, schema errors or some other exception
    G.kind = z3.Function("conversion_outcome", V.S, Int)
    G.errs = z3.Function("conversion_errors", V.S, E.errs.sort)
    for k in ("", "b"):
        for mods in ((), (0,), (1,), (2,), (2, 1), (1, 2), (2, 2), (1, 2, 1)): views(mods, k)


def base_sort(k): return Bool if k == "b" else Arg
def sort_for(mods, k):
    if not mods or mods == (0,): return base_sort(k)
    s = sort_for(mods[1:], k)
    return L.option(s) if mods[0] == 1 else L.seq_of(s).sort


def views(mods, k):
    """(is the value convertible, what it converts to) as uninterpreted functions, unfolded one level by `meaning`"""
    key = (mods if mods != (0,) else (), k)
    if key not in G.ok:
        n = "".join("NUL"[m] for m in key[0]) + k
        G.ok[key] = z3.Function("convertible_" + n, V.S, Bool)
        G.val[key] = z3.Function("converted_" + n, V.S, sort_for(mods, k))
    return G.ok[key], G.val[key]


def meaning(mods, k, v):
    """(ok, fn) : is v convertible, and fn(r): r is what it converts to"""
    if mods in ((), (0,)):
        ok, val = views((), k)
        return ok(v), lambda r: r == val(v)
    ok, val = views(mods[1:], k)
    if mods[0] == 1:
        nul = tag_is(v, NULL)
        return z3.Or(nul, ok(v)), lambda r: z3.If(nul, z3.Not(L.opt_is(r)), z3.And(L.opt_is(r), L.eqgoal(L.opt_val(r), val(v))))
    ls = list_(v); i = z3.Int("mei")
    at = seq_list().at_
    el = lambda f, *p: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(ls)), f), patterns=list(p))
    def is_(r):
        th = L.seq_theory_for_sort(r.sort())
        return z3.And(th.len_(r) == mlen(ls), el(th.at_(r, i) == val(at(ls, i)), th.at_(r, i), at(ls, i)))
    return z3.And(tag_is(v, LIST), el(ok(at(ls, i)), at(ls, i))), is_


def axioms(k):
    """conversions look at the content of a value only"""
    a, b = z3.Consts("ava avb", V.S)
    out = []
    for (m, kk), ok in G.ok.items():
        if kk != k: continue
        out.append(z3.ForAll([a, b], z3.Implies(V.veq_(a, b), z3.And(ok(a) == ok(b), G.val[(m, kk)](a) == G.val[(m, kk)](b))), patterns=[V.veq_(a, b)]))
    return out


def text_axioms():
    x, a, b = z3.Consts("tax taa tab", Str.sort)
    return [z3.ForAll([x], contains(x, x), patterns=[contains(x, x)]),
            z3.ForAll([x, a, b], z3.Implies(z3.Or(contains(x, a), contains(x, b)), contains(x, Str.cat_(a, b))), patterns=[contains(x, Str.cat_(a, b))])]


# ------------------------------------------------------------------ what is asked of a call
def NAME(c): return c.M.pack_sort(c.old[0], Str.sort)
def ARGS(c): return c.M.pack_sort(c.old[1], V.S)


def look(c):
    """is there a member with the name, and its value"""
    if hasattr(c, "seen"): return c.seen
    ex, a = c.ex, ARGS(c)
    c.seen = r = [None, None]
    if not ex.choose(tag_is(a, MAP)): r[0] = "not an object"
    elif not ex.choose(ex.fresh("there", Bool)):
        r[0] = "missing"; ex.assume(absent(a, NAME(c)))
    else:
        k = ex.fresh("at", Int)
        m = map_(a)
        ex.assume(z3.And(0 <= k, k < mlen(m), name_at(m, k) == NAME(c)))
        for l, f in wf(a): ex.assume(f)
        ex.assume(unique_names(a))
        r[0], r[1] = "there", val_at(m, k)
        ex.assume(V.wf_(r[1]))
        for l, f in wf(r[1]): ex.assume(f)
    return r


def unique_names(v):
    """a consequence of the class invariant (proved as a lemma)"""
    i, j = z3.Ints("uni unj")
    m = map_(v)
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < mlen(m), 0 <= j, j < mlen(m), name_at(m, i) == name_at(m, j)), i == j), patterns=[z3.MultiPattern(TH(m).at_(m, i), TH(m).at_(m, j))])


def start(c, k):
    for a in axioms(k) + text_axioms(): c.ex.assume(a)


def names_all(es, n):
    i = z3.Int("nai")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < E.errs.len_(es)), contains(n, msg(E.errs.at_(es, i)))), patterns=[E.errs.at_(es, i)])


def exc_errors(c):
    if c.exc.ct.name != SV + "schema_exception" or not isinstance(c.exc.val, StructV): return None
    return c.M.pack_sort(c.exc.val.f["_structuredErrors"], E.errs.sort)


def named_error(c, mods, k):
    """the argument cannot be read, and every error says which argument"""
    what, v = look(c)
    if what == "not an object": return [("arguments are an object", z3.BoolVal(True))]
    if what == "missing": bad = z3.BoolVal(mods[:1] != (1,))
    else: bad = z3.Not(meaning(mods, k, v)[0])
    es = exc_errors(c)
    if es is None: return [("a schema error", z3.BoolVal(False))]
    inner = not mods or mods == (0,)
    out = [("only an argument that is missing or of another type is refused", bad), ("every error names the argument", names_all(es, NAME(c)))]
    some = z3.Implies(user_errors(c, mods, k), E.errs.len_(es) > 0)
    return out + [("there is an error", some)]


def user_errors(c, mods, k):
    """(a conversion that throws schema errors throws at least one)"""
    v = z3.Const("uev", V.S)
    return z3.ForAll([v], z3.Implies(G.kind(v) == ERRORS, E.errs.len_(G.errs(v)) > 0), patterns=[G.errs(v)])


def require_post(mods, k):
    def post(c):
        what, v = look(c)
        if what == "not an object": return [("arguments are an object", z3.BoolVal(False))]
        r = c.res_val(sort_for(mods, k))
        if what == "missing":
            if mods[:1] == (1,): return [("a missing argument is absent", z3.Not(L.opt_is(r)))]
            return [("a missing argument is an error", z3.BoolVal(False))]
        ok, is_ = meaning(mods, k, v)
        return [("only a value of the declared type is accepted", ok), ("the value converted as declared", is_(r))]
    return post


def require_call(mods, k):
    def call(c):
        ex = c.ex
        if ex.pure: raise NotPure()
        what, v = look(c)
        if what == "missing" and mods[:1] == (1,): return L.opt_none(sort_for(mods, k))
        if what == "there":
            ok, val = views(mods, k)
            if ex.choose(ok(v)): return val(v)
        if what == "not an object" and mods[:1] in ((1,), (2,)): raise CppThrow(ExcV(LOGIC, None, ex.fresh("what", Str.sort)))
        es = ex.fresh("refused", E.errs.sort)
        ex.assume(names_all(es, NAME(c)))
        ex.assume(z3.Implies(user_errors(c, mods, k), E.errs.len_(es) > 0))
        raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": es})))
    return call


def find_post(mods, k):
    """what was found, and whether it was"""
    def post(c):
        what, v = look(c)
        r = c.res_val()
        val, found = first_second(c, r, sort_for(mods, k))
        if what == "not an object": return [("nothing is found", z3.Not(found))]
        if what == "missing":
            if mods[:1] == (1,): return [("a missing argument is found absent", z3.And(found, z3.Not(L.opt_is(val))))]
            return [("a missing argument is not found", z3.Not(found))]
        ok, conv = views(mods, k)
        return [("found exactly when it is of the declared type", found == ok(v)), ("the value converted as declared", z3.Implies(found, L.eqgoal(val, conv(v))))]
    return post


def first_second(c, r, s):
    if isinstance(r, StructV): return c.M.pack_sort(c.ex.val(r.f["first"]), s), c.M.pack_sort(c.ex.val(r.f["second"]), Bool)
    return L.rec_get(r, "first"), L.rec_get(r, "second")


# ------------------------------------------------------------------ loops
def loop_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None: return []
    if s.sort() == E.errs.sort: return errors_inv(ctx, c, s, k)
    what, v = look(c)
    if what != "there" or not s.sort().eq(vsort(LIST)): return []
    mods, kk = c.mods
    want = sort_for(mods, kk)
    ok, val = views(mods[1:], kk)
    ls = list_(v); i = z3.Int("eli")
    th = L.seq_theory_for_sort(want)
    out = []
    roots = {r for r, _ in ctx.mods}
    for l in ctx.all_locals(lambda t, d: ex.M._sort_is(t, want)):
        if roots and l.root not in roots: continue
        r = c.M.pack_sort(ex.val(l), want)
        r0, r = r, ex.fresh("so_far", want)
        ex.assume(r == r0)
        before = c.M.pack_sort(ex._pre_read(ctx.pre, l.root, l.path), want) if l.root in ctx.pre else None
        n0 = th.len_(before) if before is not None else z3.IntVal(0)
        out += [("room for every element, or one per element so far", z3.Or(z3.And(th.len_(r) == mlen(ls), n0 == mlen(ls)), z3.And(th.len_(r) == k, n0 == 0))),
                ("every element so far is converted, at its position", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(ok(seq_list().at_(ls, i)), th.at_(r, i) == val(seq_list().at_(ls, i)))), patterns=[th.at_(r, i), seq_list().at_(ls, i)]))]
    return out


def errors_inv(ctx, c, s, k):
    """the errors reached so far name the argument, and keep their own text and place"""
    what, v = look(c)
    if what != "there": return []
    o = G.errs(v); i = z3.Int("eri")
    a, b = E.errs.at_(s, i), E.errs.at_(o, i)
    pt = [E.errs.at_(s, i), E.errs.at_(o, i)]
    return [("as many errors", E.errs.len_(s) == E.errs.len_(o)),
            ("those reached name the argument", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(contains(NAME(c), msg(a)), contains(msg(b), msg(a)))), patterns=pt)),
            ("every error keeps its place", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < E.errs.len_(o)), z3.And(loc(a) == loc(b), path(a) == path(b))), patterns=pt)),
            ("those to come are as they were", z3.ForAll([i], z3.Implies(z3.And(k <= i, i < E.errs.len_(o)), a == b), patterns=pt))]


def plain_exc(c):
    """the conversion's own errors, each with the name of the argument added"""
    out = named_error(c, (), c.mods[1])
    what, v = look(c)
    es = exc_errors(c)
    if what != "there" or es is None: return out
    o = G.errs(v); i = z3.Int("pei")
    a, b = E.errs.at_(es, i), E.errs.at_(o, i)
    return out + [("one for each error of the conversion", z3.Implies(G.kind(v) == ERRORS, E.errs.len_(es) == E.errs.len_(o))),
                  ("each with its own text and place", z3.Implies(G.kind(v) == ERRORS, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < E.errs.len_(o)), z3.And(contains(msg(b), msg(a)), loc(a) == loc(b), path(a) == path(b))), patterns=[E.errs.at_(es, i), E.errs.at_(o, i)])))]


# ------------------------------------------------------------------ the conversion of one value
def convert_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    k = c.kind_
    v = c.M.pack_sort(c.old[0], V.S)
    ok, val = views((), k)
    ex.assume(ok(v) == (G.kind(v) == OK_))
    if ex.choose(ok(v)): return val(v)
    if ex.choose(G.kind(v) == ERRORS): raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": G.errs(v)})))
    ex.assume(G.kind(v) == STD)
    raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))


class AM(EM):
    def __init__(self):
        EM.__init__(self)
        self.opaque = dict(self.opaque)
        self.opaque["graphql::verif::Arg"] = Arg

        self.ctor_models["graphql::verif::Arg"] = lambda ex, ct, n, a: ex.val(ex.eval(a[0])) if a else ex.fresh("default", Arg)

    def bind(self, ex):
        EM.bind(self, ex)
        arg_setup(self)


CLS = {"": "INS_5verif3ArgEE", "b": "IbE"}


def inst(fn, mods, k):
    """the require or find with those modifiers; mods None: the one without"""
    pat = "ModifiedArgument" + CLS[k] + r"\d" + fn
    if mods is None: pat += "ERK"
    else: pat += r"ILNS0_12TypeModifierE%dE" % mods[0] + ("J" + "".join(r"LS\d_%dE" % m for m in mods[1:]) + "E" if len(mods) > 1 else r"TpTnS\d_JEE")
    return lambda d, tu: re.search("^_ZN7graphql7service16" + pat, d.get("mangledName") or "") is not None


WHAT = {0: "None", 1: "Nullable", 2: "List"}
def label(mods): return "" if mods is None else "<" + ", ".join(WHAT[m] for m in mods) + ">"
def args_ok(c):
    if c.ex.callctx is c: look(c)
    return [("the arguments satisfy their invariant", V.wf_(ARGS(c)))]


def contract(fn, mods, k=""):
    ms = mods or ()
    def setup(c):
        c.mods = (ms, k)
        start(c, k)
    if fn == "require": post, exc, call = require_post(ms, k), (lambda c: named_error(c, ms, k)) if mods is not None else plain_exc, require_call(ms, k)
    else: post, exc, call = find_post(ms, k), None, None
    c = Contract("ModifiedArgument<%s>::%s%s" % ("bool" if k else "T", fn, label(mods)), TUA, MA + "::" + fn, pred=inst(fn, mods, k), setup=setup, pre=args_ok, post=post, exc=exc, call=call, loops=[LoopSpec("elements", loop_inv, own)])
    return c


def conv_used(k):
    def call(c):
        c.kind_ = k
        return convert_call(c)
    c = Contract("(any conversion)", TUA, MA + "::convert", pred=lambda d, tu: ("ModifiedArgument" + CLS[k] + "7convert") in (d.get("mangledName") or ""), call=call)
    c.trusted = True
    return c


MODS = [None, (0,), (1,), (2,), (2, 1), (1, 2), (2, 2), (1, 2, 1)]
REQ = [contract("require", m) for m in MODS] + [contract("require", m, "b") for m in (None, (0,), (2,))]
FIND = [contract("find", m) for m in MODS] + [contract("find", m, "b") for m in ((2,),)]
gse_used = None


def gse_call(c):
    es = X.F0(c)
    c.ex.write(c.this.ext(("f", "_structuredErrors")), c.ex.fresh("moved_errors", E.errs.sort))
    return es


gse_used = Contract(X.gse.name, TUF, X.SE + "getStructuredErrors", post=X.gse.post, call=gse_call)


def models(tu):
    m = AM()
    used = [gse_used, X.ctor_errors, X.ctor_msgs] + list(W.contracts) + W.base64
    if tu.path.endswith("GraphQLService.cpp"): m.contracts = used
    else: m.contracts = REQ + [conv_used(""), conv_used("b")] + used
    return m


# ------------------------------------------------------------------ the built-in types
def scalar_post(ok, value_ok):
    def post(c):
        v = c.M.pack_sort(c.old[0], V.S)
        return [("only a value of that type is accepted", ok(v)), ("its content is the argument", value_ok(c, v))]
    return post


def scalar_exc(ok):
    def exc(c):
        v = c.M.pack_sort(c.old[0], V.S)
        es = exc_errors(c)
        if es is None: return [("a schema error", z3.BoolVal(False))]
        return [("a value of that type is not refused", z3.Not(ok(v))), ("there is an error", E.errs.len_(es) > 0)]
    return exc


def scalar_(name, cls, ok, value_ok):
    return Contract("ModifiedArgument<%s>::convert" % name, TUG, MA + "::convert", pred=lambda d, tu: re.search("ModifiedArgumentI%sE7convert" % cls, d.get("mangledName") or "") is not None,
                    pre=lambda c: inv_of(c, "", c.M.pack_sort(c.old[0], V.S)), post=scalar_post(ok, value_ok), exc=scalar_exc(ok), use=False)


def R_(c, s): return c.res_val(s)
SCALARS = [scalar_("IntType", "i", lambda v: tag_is(v, INT), lambda c, v: R_(c, vsort(INT)) == int_(v)),
           scalar_("FloatType", "d", lambda v: z3.Or(tag_is(v, FLOAT), tag_is(v, INT)), lambda c, v: R_(c, vsort(FLOAT)) == z3.If(tag_is(v, INT), dbl_of_int(int_(v)), float_(v))),
           scalar_("StringType", "NSt7__cxx1112basic_string\\w*", lambda v: tag_is(v, STRING), lambda c, v: R_(c, Str.sort) == str_(v)),
           scalar_("BooleanType", "b", lambda v: tag_is(v, BOOL), lambda c, v: R_(c, Bool) == bool_(v)),
           scalar_("IdType", "St6vectorIhSaIhEE", lambda v: z3.And(tag_is(v, STRING), b64ok(str_(v))), lambda c, v: L.eqgoal(R_(c, Bytes.sort), b64dec(str_(v)))),
           scalar_("Value", "NS_8response5ValueE", lambda v: z3.BoolVal(True), lambda c, v: z3.Or(R_(c, V.S) == v, V.veq_(R_(c, V.S), v)))]


# ------------------------------------------------------------------ what the contracts rest on
def names_lemma():
    bound_models(models, TUA)
    v = z3.Const("lv", V.S); i, j = z3.Ints("li lj")
    m, mem = map_(v), members(v)
    x, y = name_at(m, i), name_at(m, j)
    hyps = [f for _, f in wf_map(m, mem)] + [slot_hyp(m, mem), 0 <= i, i < mlen(m), 0 <= j, j < mlen(m), x == y]
    for a, b in ((i, j), (j, i)): hyps += L.mention(TH(m).at_(m, a), inv(mem, a))
    return [("two members with the same name are the same member", hyps, i == j)]


def content_lemma():
    """equal values convert alike, whatever the modifiers, if plain conversions do"""
    ex = bound_models(models, TUA)
    out = []
    for mods in MODS:
        if mods is None or mods == (0,): continue
        a, b = z3.Consts("cla clb", V.S)
        inner, val = views(mods[1:], "")
        x, y = z3.Consts("clx cly", V.S)
        cong = z3.ForAll([x, y], z3.Implies(V.veq_(x, y), z3.And(inner(x) == inner(y), val(x) == val(y))), patterns=[V.veq_(x, y)])
        hyps = [cong, V.veq_(a, b), veq_body(a, b)]
        oka, isa = meaning(mods, "", a); okb, isb = meaning(mods, "", b)
        # the quantified parts element by element
        k = z3.Int("clk")
        la, lb = list_(a), list_(b)
        at = seq_list().at_
        if mods[0] == 2:
            hyps += [z3.And(0 <= k, k < mlen(la))] + L.mention(at(la, k), at(lb, k))
            out.append(("%s: the same elements are convertible, to the same" % label(mods), hyps, z3.And(tag_is(a, LIST) == tag_is(b, LIST), z3.Implies(tag_is(a, LIST), z3.And(mlen(la) == mlen(lb), inner(at(la, k)) == inner(at(lb, k)), val(at(la, k)) == val(at(lb, k)))))))
        else:
            out.append(("%s: the same values are convertible, to the same" % label(mods), hyps, z3.And(oka == okb, tag_is(a, NULL) == tag_is(b, NULL), val(a) == val(b))))
    return out


LEMMAS = [Lemma("member names are unique", names_lemma), Lemma("conversions depend on the content only", content_lemma)]
