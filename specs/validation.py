"""ValidateExecutableVisitor: input values and variables against the types of the schema"""
from specs.nodes import *
from specs import nodes as N, errors as ER
from specs.errors import E, EM
from cppcv.engine import MapIter
from cppcv.contract import VOID
from cppcv.models import map_theory_for, map_of, map_kind

TUV = "src/Validation.cpp"
SV = "graphql::service::"
SC = "graphql::schema::"
VEV = SV + "ValidateExecutableVisitor"
AVV = SV + "ValidateArgumentValueVisitor"
BT, IV = SC + "BaseType", SC + "InputValue"
Ty = z3.DeclareSort("BaseType")
In = z3.DeclareSort("InputValue")
Schema = z3.DeclareSort("Schema")
KINDS = ("SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL")
VARIABLE, INTV, FLOATV, STRINGV, BOOLV, ENUMV, LISTV, MAPV = range(8)


class X:
    """sorts of the validator's types, from the AST"""
    ptr = None


def x_setup(m):
    if X.ptr is not None: return
    X.opt = L.option(Ty)
    X.ptr = m.sort_of(CT(SV + "ValidateArgumentValuePtr"))
    X.val = m.sort_of(CT(SV + "ValidateArgumentValue"))
    X.data = L.rec_sort(X.val, "data")
    X.arg = m.sort_of(CT(SV + "ValidateArgument"))
    X.values_of = lambda so: map_of(Str.sort, so, map_kind(CT("graphql::internal::sorted_map", [CT("std::string_view"), CT("int"), CT("less")]))).sort
    d = ptr_data(z3.Const("x0", X.ptr))
    X.values = L.rec_sort(L.var_get(d, MAPV).sort(), "values")
    X.list = L.rec_sort(L.var_get(d, LISTV).sort(), "values")
    X.kind = z3.Function("type_kind", Ty, Int)
    X.name = z3.Function("type_name", Ty, Str.sort)
    X.of = z3.Function("wrapped_type", Ty, X.opt)
    X.ins = z3.Function("input_fields_of", Ty, L.seq_of(L.option(In)).sort)
    X.iname = z3.Function("input_name", In, Str.sort)
    X.idefault = z3.Function("input_default", In, Str.sort)
    X.itype = z3.Function("input_type", In, X.opt)
    X.fields = X.values_of(X.arg)
    X.FIRST = z3.Function("first_inputs", L.seq_of(L.option(In)).sort, Int, X.fields)
    X.types = X.values_of(X.opt)
    X.vars = L.option(X.fields)
    X.names = m.sort_of(CT("graphql::internal::sorted_set", [CT("std::basic_string_view", [CT("char")]), CT("string_view_less")]))
    X.enums = X.values_of(X.names)
    X.env = [X.vars, X.types, X.enums, X.names]
    X.INPUT = z3.Function("allowed_input", *(X.env + [Bool, X.ptr, X.opt, Bool]))
    X.COMPAT = z3.Function("compatible", X.opt, X.opt, Bool)


def kind_is(t, k): return X.kind(t) == X.consts[k]
def some(o): return L.opt_is(o)
def the(o): return L.opt_val(o)
def ptr_value(a): return L.rec_get(a, "value")
def ptr_data(a): return L.rec_get(L.opt_val(ptr_value(a)), "data")
def is_null(a): return z3.Not(some(ptr_value(a)))
def a_is(a, t): return z3.And(some(ptr_value(a)), L.var_is(ptr_data(a), t))
def a_get(a, t): return L.var_get(ptr_data(a), t)
def a_list(a): return L.rec_get(a_get(a, LISTV), "values")
def a_map(a): return L.rec_get(a_get(a, MAPV), "values")
def var_named(a): return L.rec_get(a_get(a, VARIABLE), "name")
def enum_named(a): return L.rec_get(a_get(a, ENUMV), "value")


class XM(NM):
    """models for the validator"""
    recursive = EM.recursive + (SV + "ValidateArgumentValue",)
    stable_iterators = True

    def __init__(self):
        NM.__init__(self)
        self.model_types = set(self.model_types) | {"graphql::internal::sorted_map", "graphql::internal::sorted_set"}
        self.opaque = dict(self.opaque); self.opaque[BT] = Ty; self.opaque[IV] = In; self.opaque[SC + "Schema"] = Schema
        mm = self.member_models = dict(self.member_models)
        mm[(BT, "kind")] = lambda ex, o, a, n: X.kind(ex.val(o))
        mm[(BT, "name")] = lambda ex, o, a, n: X.name(ex.val(o))
        mm[(BT, "ofType")] = lambda ex, o, a, n: X.of(ex.val(o))
        mm[(IV, "name")] = lambda ex, o, a, n: X.iname(ex.val(o))
        mm[(IV, "defaultValue")] = lambda ex, o, a, n: X.idefault(ex.val(o))
        mm[(IV, "type")] = lambda ex, o, a, n: X.itype(ex.val(o))
        mm[(BT, "inputFields")] = lambda ex, o, a, n: ex.alloc(X.ins(ex.val(o)), "inputFields")

    def bind(self, ex):
        NM.bind(self, ex)
        x_setup(self)
        if not hasattr(X, "consts"):
            d = ex.tu.records.get("graphql::introspection::TypeKind")
            names = max(([c["name"] for c in children(x) if c["kind"] == "EnumConstantDecl"] for x in d), key=len)
            X.consts = {k: z3.IntVal(names.index(k)) for k in KINDS}
        if E.err is None: EM.bind(self, ex)


def models(tu):
    m = XM()
    m.contracts = CONTRACTS
    return m


# ------------------------------------------------------------------ errors
def errs(c, new): return c.M.pack_sort((c.f_new if new else c.f_old)("_errors"), E.errs.sort)


def one_more(o, w):
    i = z3.Int("omi")
    return z3.And(E.errs.len_(w) == E.errs.len_(o) + 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < E.errs.len_(o)), E.errs.at_(w, i) == E.errs.at_(o, i)), patterns=[E.errs.at_(w, i), E.errs.at_(o, i)]))


def verdict(c, ok):
    r = c.res_val(Bool)
    o, w = errs(c, False), errs(c, True)
    return [("accepted exactly when the type allows it", r == ok), ("what is accepted is not reported", z3.Implies(r, w == o)), ("what is refused is reported once, after the earlier errors", z3.Implies(z3.Not(r), one_more(o, w)))]


def report(c, ok):
    """the effect of a check on the errors"""
    ex = c.ex
    if ex.pure: raise NotPure()
    o = errs(c, False); w = ex.fresh("errors", E.errs.sort)
    ex.assume(z3.Implies(ok, w == o)); ex.assume(z3.Implies(z3.Not(ok), one_more(o, w)))
    ex.write(ex.deref(c.this).ext(("f", "_errors")), w)


# ------------------------------------------------------------------ a variable where a type is expected
def sane(o):
    """the schema's types: a non-null type does not wrap another"""
    return z3.Implies(z3.And(some(o), kind_is(the(o), "NON_NULL"), some(X.of(the(o)))), z3.Not(kind_is(the(X.of(the(o))), "NON_NULL")))


def sane_axiom():
    t = z3.Const("snt", Ty)
    return z3.ForAll([t], sane(L.opt_some(X.opt, t)), patterns=[X.of(t)])


def compat(v, i):
    """AreTypesCompatible of the GraphQL specification, one level"""
    V_, I = the(v), the(i)
    nn = lambda t: kind_is(t, "NON_NULL")
    ls = lambda t: kind_is(t, "LIST")
    named_ = z3.And(z3.Or([kind_is(I, k) for k in ("SCALAR", "ENUM", "INPUT_OBJECT")]), X.kind(V_) == X.kind(I), Str.len_(X.name(I)) != 0, X.name(V_) == X.name(I))
    C = X.COMPAT
    return z3.And(some(v), some(i), z3.If(nn(I), z3.And(nn(V_), C(X.of(V_), X.of(I))), z3.If(nn(V_), C(X.of(V_), i), z3.If(ls(I), z3.And(ls(V_), C(X.of(V_), X.of(I))), named_))))


def allowed(nn, v, i):
    """IsVariableUsageAllowed: a default makes up for a nullable variable where a non-null value is expected"""
    return z3.If(z3.And(nn, some(v), some(i), kind_is(the(i), "NON_NULL"), z3.Not(kind_is(the(v), "NON_NULL"))), X.COMPAT(v, X.of(the(i))), X.COMPAT(v, i))


def compat_axioms():
    v, i = z3.Consts("cpv cpi", X.opt)
    return [z3.ForAll([v, i], X.COMPAT(v, i) == compat(v, i), patterns=[X.COMPAT(v, i)]), sane_axiom()]


def OPT(c, i): return c.M.pack_sort(c.old[i], X.opt)


def vt_ok(c): return allowed(c.old[0], OPT(c, 1), OPT(c, 3))
def v_start(c):
    for a in compat_axioms(): c.ex.assume(a)


def vt_call(c):
    ok = vt_ok(c)
    report(c, ok)
    return ok


variable_type = Contract("ValidateExecutableVisitor::validateVariableType", TUV, VEV + "::validateVariableType", setup=v_start, post=lambda c: verdict(c, vt_ok(c)), call=vt_call)
get_type = Contract("getValidateType", TUV, SV + "getValidateType", post=lambda c: [("the type that is shared, or none", c.res_val(X.opt) == OPT(c, 0))], call=lambda c: OPT(c, 0))



# ------------------------------------------------------------------ the fields an input type declares
def MT(m): return map_theory_for(m.sort())
def haskey(m, k): return MT(m).has_(m, k)
def at(m, k): return MT(m).get_(m, k)


def declared(a):
    """what the validator keeps of an input field or argument"""
    d = Str.len_(X.idefault(a)) != 0
    return L.rec_mk(X.arg, [{"defaultValue": d, "nonNullDefaultValue": z3.And(d, X.idefault(a) != strlit(b"null")), "type": X.itype(a)}[f] for f in L.rec_fields(X.arg)])


def first_axioms():
    th = L.seq_of(L.option(In)); mt = map_theory_for(X.fields)
    s = z3.Const("fas", th.sort); k = z3.Int("fak")
    e = th.at_(s, k)
    return [z3.ForAll([s], X.FIRST(s, 0) == mt.empty, patterns=[X.FIRST(s, z3.IntVal(0))]),
            z3.ForAll([s, k], z3.Implies(0 <= k, X.FIRST(s, k + 1) == z3.If(some(e), mt.set_(X.FIRST(s, k), X.iname(the(e)), declared(the(e))), X.FIRST(s, k))), patterns=[z3.MultiPattern(X.FIRST(s, k), e)])]


def same_map(a, b): return MT(a).eq_(a, b)       # same keys, same values: the same sorted_map
def args_of(s): return X.FIRST(s, L.seq_theory_for_sort(s.sort()).len_(s))


def ga_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None or not z3.is_expr(s) or s.sort() != c.old[0].sort(): return []
    roots = {r for r, _ in ctx.mods}
    return [("the inputs so far", same_map(c.M.pack_sort(ex.val(l), X.fields), X.FIRST(s, k))) for l in ctx.all_locals(lambda t, d: ex.M._sort_is(t, X.fields)) if l.root in roots]


def a_start(c):
    for a in first_axioms(): c.ex.assume(a)


def ga_call(c):
    if c.ex.pure: raise NotPure()
    return args_of(c.old[0])


get_args = Contract("ValidateExecutableVisitor::getArguments", TUV, VEV + "::getArguments", setup=a_start, post=lambda c: [("every input by its name, with its type and default", same_map(c.res_val(X.fields), args_of(c.old[0])))], call=ga_call, loops=[LoopSpec("inputs", ga_inv, own)])


def types(c, new=False): return c.M.pack_sort((c.f_new if new else c.f_old)("_types"), X.types)
def cache(c, new=False): return (c.f_new if new else c.f_old)("_inputTypeFields")
def has_input(ts, n): return z3.And(haskey(ts, n), kind_is(the(at(ts, n)), "INPUT_OBJECT"))
def input_fields(ts, n): return args_of(X.ins(the(at(ts, n))))
def table_ok(ts):
    n = z3.Const("ton", Str.sort)
    return z3.ForAll([n], z3.Implies(haskey(ts, n), some(at(ts, n))), patterns=[haskey(ts, n)])


def cache_ok(ts, m):
    n = z3.Const("con", Str.sort)
    return z3.ForAll([n], z3.Implies(haskey(m, n), z3.And(has_input(ts, n), at(m, n) == input_fields(ts, n))), patterns=[haskey(m, n)])


def state_ok(c): return [("every type of the table is there", table_ok(types(c))), ("the fields that were looked up are those of their type", cache_ok(types(c), cache(c)))]


def gi_post(c):
    it, n, ts, w = c.ex.val(c.res), c.old[0], types(c), cache(c, True)
    return [("found exactly when it is an input type", it.valid == has_input(ts, n)), ("its fields", z3.Implies(has_input(ts, n), z3.And(it.key == n, haskey(w, n), at(w, n) == input_fields(ts, n)))),
            ("what was looked up stays right", cache_ok(ts, w)), ("the types stay", types(c, True) == ts)]


def new_cache(c):
    ex = c.ex
    w = ex.fresh("looked_up", cache(c).sort())
    ex.assume(cache_ok(types(c), w))
    l = ex.deref(c.this).ext(("f", "_inputTypeFields"))
    ex.write(l, w)
    return l, w


def gi_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    n, ts = c.old[0], types(c)
    l, w = new_cache(c)
    ex.assume(haskey(w, n) == has_input(ts, n))
    return MapIter(l, has_input(ts, n), n, w)


get_inputs = Contract("ValidateExecutableVisitor::getInputTypeFields", TUV, VEV + "::getInputTypeFields", setup=a_start, pre=state_ok, post=gi_post, call=gi_call)


# ------------------------------------------------------------------ an input value where a type is expected
def ENV(c, new=False):
    g = c.f_new if new else c.f_old
    return [c.M.pack_sort(g(f), s) for f, s in zip(("_operationVariables", "_types", "_enumValues", "_scalarTypes"), X.env)]


def INPUT(env, hd, a, t): return X.INPUT(*(env + [hd, a, t]))
def of(t): return X.of(the(t))
def field(r, f): return L.rec_get(r, f)
def member_ok(env, fs, values, n):
    """one member of an input object: declared, and allowed by the type of its field (a null may stand for a default)"""
    f, v = at(fs, n), at(values, n)
    return z3.And(haskey(fs, n), z3.Or(z3.And(is_null(v), field(f, "defaultValue")), INPUT(env, field(f, "nonNullDefaultValue"), v, field(f, "type"))))


def field_ok(values, fs, n):
    """one field of an input object: given, or may be left out"""
    f = at(fs, n)
    return z3.Or(field(f, "defaultValue"), haskey(values, n), z3.And(some(field(f, "type")), z3.Not(kind_is(the(field(f, "type")), "NON_NULL"))))


def all_keys(m, pred, upto=None):
    n = z3.Const("akn", Str.sort)
    g = haskey(m, n) if upto is None else z3.And(haskey(m, n), MT(m).idx_(m, n) < upto)
    return z3.ForAll([n], z3.Implies(g, pred(n)), patterns=[haskey(m, n)])


def iv_ok(env, hd, a, t):
    """the input coercion rules of the GraphQL specification, one level"""
    vs, ts, es, sc = env
    T = the(t)
    nm = X.name(T)
    i = z3.Int("ivi")
    ls = a_list(a); th = L.seq_theory_for_sort(ls.sort())
    fs, values = input_fields(ts, nm), a_map(a)
    kind = lambda k: kind_is(T, k)
    var = var_named(a)
    decl = at(the(vs), var)
    scalar = z3.And([z3.Implies(nm == strlit(n), z3.Or([a_is(a, x) for x in alts])) for n, alts in ((b"Int", (INTV,)), (b"Float", (FLOATV, INTV)), (b"String", (STRINGV,)), (b"Boolean", (BOOLV,)))]
                    + [z3.Implies(nm == strlit(b"ID"), z3.And(a_is(a, STRINGV), b64ok(a_get(a, STRINGV))))])
    cases = [("NON_NULL", z3.And(some(of(t)), INPUT(env, hd, a, of(t)))),
             ("LIST", z3.And(a_is(a, LISTV), some(of(t)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len_(ls)), INPUT(env, z3.BoolVal(False), th.at_(ls, i), of(t))), patterns=[th.at_(ls, i)]))),
             ("INPUT_OBJECT", z3.And(Str.len_(nm) != 0, a_is(a, MAPV), has_input(ts, nm), all_keys(values, lambda n: member_ok(env, fs, values, n)), all_keys(fs, lambda n: field_ok(values, fs, n)))),
             ("ENUM", z3.And(Str.len_(nm) != 0, a_is(a, ENUMV), haskey(es, nm), haskey(at(es, nm), enum_named(a)))),
             ("SCALAR", z3.And(Str.len_(nm) != 0, scalar, z3.Or(nm == strlit(b"ID"), haskey(sc, nm))))]
    value = z3.And([z3.Implies(kind(k), f) for k, f in cases] + [z3.Or([kind(k) for k, _ in cases])])
    return z3.And(some(t), z3.If(a_is(a, VARIABLE), z3.Or(z3.Not(some(vs)), z3.And(haskey(the(vs), var), allowed(z3.Or(hd, field(decl, "nonNullDefaultValue")), field(decl, "type"), t))),
                                 z3.If(is_null(a), z3.Or(hd, z3.Not(kind("NON_NULL"))), value)))


def PTRV(c, i): return c.M.pack_sort(c.old[i], X.ptr)
def iv_args(c): return ENV(c), c.M.pack_sort(c.old[0], Bool), PTRV(c, 1), OPT(c, 2)
def iv_start(c):
    v_start(c); a_start(c)


REST = ("_schema", "_operationTypes", "_matchingTypes", "_directives", "_variableDefinitions", "_fragmentStack", "_typeFields", "_selectionFields", "_fragmentDefinitions", "_operationDefinitions", "_referencedFragments", "_fragmentCycles", "_scopedType")
def unused(env, o, w): return z3.Implies(z3.Not(some(env[0])), o == w)
def iv_post(c):
    env, w = ENV(c), ENV(c, True)
    return verdict(c, iv_ok(*iv_args(c))) + [("what was looked up stays right", cache_ok(types(c), cache(c, True))), ("the schema and the variables stay", z3.And([a == b for a, b in zip(env, w)])),
            ("the rest of the visitor stays", z3.And([c.f_old(f) == c.f_new(f) for f in REST])), ("variables are noted as used only for an operation", unused(env, c.f_old("_referencedVariables"), c.f_new("_referencedVariables")))]


def iv_call(c):
    ok = INPUT(*iv_args(c))
    report(c, ok)
    new_cache(c)
    l = c.ex.deref(c.this).ext(("f", "_referencedVariables"))
    w = c.ex.fresh("referenced", X.names)
    c.ex.assume(unused(ENV(c), c.ex.val(l), w))
    c.ex.write(l, w)
    return ok


def iv_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    env, hd, a, t = iv_args(c)
    vs, ts, es, sc = env
    bounds = []
    if s is None:
        # a loop that counts through the elements, by number or by iterator
        at_ = [v.idx if isinstance(v, Iter) else v for l in ctx.all_locals(lambda t_, d: d["kind"] == "VarDecl") if l.root in {r for r, _ in ctx.mods}
               for v in [ex.store.get(l.root)] if isinstance(v, Iter) or z3.is_expr(v) and v.sort() == z3.IntSort()]
        if len(at_) != 1: return []
        s, k = a_list(a), at_[0]
        bounds = [("the count stays within the elements", z3.Implies(a_is(a, LISTV), z3.And(0 <= k, k <= L.seq_theory_for_sort(s.sort()).len_(s))))]
    if not z3.is_expr(s): return []
    out = [("nothing was reported so far", errs(c, True) == errs(c, False)), ("what was looked up stays right", cache_ok(ts, cache(c, True))), ("variables are noted as used only for an operation", unused(env, c.f_old("_referencedVariables"), c.f_new("_referencedVariables")))] + bounds
    if s.sort() == X.list:
        th = L.seq_theory_for_sort(s.sort()); i = z3.Int("lpi")
        out.append(("the elements so far are allowed", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), INPUT(env, z3.BoolVal(False), th.at_(s, i), of(t))), patterns=[th.at_(s, i)])))
    nm = X.name(the(t))
    fs = input_fields(ts, nm)
    if s.sort() == X.values:
        out.append(("the members so far are allowed", all_keys(s, lambda n: member_ok(env, fs, s, n), k)))
        for l in ctx.all_locals(lambda t_, d: ex.M._sort_is(t_, X.names) and d["kind"] == "VarDecl"):
            m = c.M.pack_sort(ex.val(l), X.names); n = z3.Const("sfn", Str.sort)
            out.append(("the names so far", z3.ForAll([n], haskey(m, n) == z3.And(haskey(s, n), MT(s).idx_(s, n) < k), patterns=[haskey(m, n), haskey(s, n)])))
        for l in ctx.all_locals(lambda t_, d: True):
            v = ex.store.get(l.root)
            if isinstance(v, MapIter) and v.loc.same(ex.deref(c.this).ext(("f", "_inputTypeFields"))):
                out.append(("the fields of the type", z3.And(v.valid, v.key == nm, haskey(cache(c, True), nm), *([v.at == cache(c, True)] if v.at is not None else []))))
    if s.sort() == X.fields:
        out.append(("the fields so far are given or may be left out", all_keys(s, lambda n: field_ok(a_map(a), s, n), k)))
    return out


input_value = Contract("ValidateExecutableVisitor::validateInputValue", TUV, VEV + "::validateInputValue", setup=iv_start, pre=state_ok, post=iv_post, call=iv_call, loops=[LoopSpec("elements, members and fields", iv_inv, own)])

CONTRACTS = [variable_type, get_type, get_args, get_inputs, input_value] + list(W.contracts) + W.base64
contracts = CONTRACTS[:5]
