"""ValidateExecutableVisitor: what one document leaves behind for the next"""
from specs.validation import *
from specs import validation as XV, nodes as N

# what belongs to one definition, and what belongs to one document
PER_DEFINITION = ("_operationVariables", "_variableDefinitions", "_referencedVariables", "_fragmentStack", "_scopedType", "_selectionFields")
PER_DOCUMENT = ("_fragmentDefinitions", "_operationDefinitions", "_referencedFragments", "_fragmentCycles")
SCHEMA = ("_schema", "_operationTypes", "_types", "_matchingTypes", "_directives", "_enumValues", "_scalarTypes")
CACHES = ("_typeFields", "_inputTypeFields")
# what visiting a selection or directives may change; see FRAME
VISITS = ("_errors", "_referencedFragments", "_fragmentCycles", "_referencedVariables", "_fragmentStack", "_fieldCount", "_typeFields", "_inputTypeFields", "_scopedType", "_selectionFields")
CHECKS = ("_errors", "_referencedVariables", "_inputTypeFields")
TITLE = {"_operationVariables": "no operation's variables", "_variableDefinitions": "no variable definitions", "_referencedVariables": "no used variables", "_fragmentStack": "no open fragments",
         "_scopedType": "no type", "_selectionFields": "no selected fields", "_fragmentDefinitions": "no fragments", "_operationDefinitions": "no operations", "_referencedFragments": "no used fragments", "_fragmentCycles": "no cycles"}


def ftype_(c, f):
    ex = c.ex
    d = ex.tu.record(VEV) if hasattr(ex.tu, "record") else None
    return None


# the grammar's shape of a document that was not validated: nothing is known about names being different
GS = z3.Function("grammatical", Node, z3.BoolSort())


def look_axiom():
    sch = z3.Const("las", Schema); n = z3.Const("lan", Str.sort)
    return z3.ForAll([sch, n], z3.Implies(some(X.LOOK(sch, n)), named(the(X.LOOK(sch, n)))), patterns=[X.LOOK(sch, n)])


def gs_axioms():
    n = z3.Const("gsn", Node); i = z3.Int("gsi")
    one = ("fragment_spread", "type_condition", "default_value", "selection_set", "operation_definition", "field", "inline_fragment", "directives", "arguments")
    return [z3.ForAll([n, i], z3.Implies(z3.And(GS(n), 0 <= i, i < nkids(n)), GS(kid(n, i))), patterns=[z3.MultiPattern(GS(n), kid(n, i))]),
            z3.ForAll([n], z3.Implies(z3.And(GS(n), z3.Or([is_(n, r) for r in one])), nkids(n) >= 1), patterns=[GS(n)]),
            z3.ForAll([n], z3.Implies(z3.And(GS(n), z3.Or(is_(n, "variable_name"), is_(n, "directive_name"), is_(n, "alias_name"), is_(n, "field_name"))), Str.len_(ntext(n)) >= 1), patterns=[GS(n)]),
            z3.ForAll([n], z3.Implies(z3.And(GS(n), is_(n, "field")), has(n, "field_name")), patterns=[GS(n)]),
            z3.ForAll([n, i], z3.Implies(z3.And(GS(n), is_(n, "arguments"), 0 <= i, i < nkids(n)), nkids(kid(n, i)) >= 1), patterns=[z3.MultiPattern(GS(n), kid(n, i))]),
            z3.ForAll([n], z3.Implies(z3.And(GS(n), z3.Or(is_(n, "fragment_definition"), is_(n, "operation_definition"))), z3.And(nkids(n) >= 1, is_(back(n), "selection_set"), GS(back(n)))), patterns=[GS(n)]),
            z3.ForAll([n], z3.Implies(z3.And(GS(n), is_(n, "fragment_definition")), z3.And(nkids(n) >= 3, is_(kid(n, z3.IntVal(1)), "type_condition"), GS(kid(n, z3.IntVal(1))), GS(back(n)))), patterns=[GS(n)])]


def h_start(c):
    for a in gs_axioms() + [look_axiom()]: c.ex.assume(a)


def grammatical(n, r): return [("a part of a document of the grammar", z3.And(GS(n), is_(n, r)))]


def packed(c, v):
    return v if z3.is_expr(v) else c.M.pack(v)


def is_empty(v):
    if hasattr(L, "opt_is") and v.sort().name().startswith("Opt"): return z3.Not(some(v))
    t = map_theory_for(v.sort())
    return v == t.empty


def clean(c, fields, new=False):
    return [(TITLE[f] + " left", is_empty(packed(c, (c.f_new if new else c.f_old)(f)))) for f in fields]


# ------------------------------------------------------------------ what is kept from one document to the next
Fl = z3.DeclareSort("Field")


def h_setup(m):
    if hasattr(X, "NAMED"): return
    fl = L.option(Fl)
    X.fl = L.seq_of(fl)
    X.tfields = X.values_of(m.sort_of(CT(SV + "ValidateTypeField")))
    X.SF = z3.Function("kept_fields", Schema, X.types, Ty, X.tfields)
    X.FF = z3.Function("first_fields", X.fl.sort, Int, X.tfields)
    X.fname = z3.Function("field_name_of", Fl, Str.sort)
    X.ftype = z3.Function("field_type_of", Fl, X.opt)
    X.fargs = z3.Function("field_arguments_of", Fl, L.seq_of(L.option(In)).sort)
    X.fls = z3.Function("fields_of", Ty, X.fl.sort)
    X.NAMED = z3.Function("type_named", Str.sort, Ty)                 # a name belongs to one type
    X.LOOK = z3.Function("type_in_schema", Schema, Str.sort, X.opt)
    X.WRAP = z3.Function("wrapping_type", Schema, Int, X.opt, X.opt)
    X.INTRO = z3.Function("has_introspection", Schema, Bool)


def composite(t): return z3.Or([kind_is(t, k) for k in ("OBJECT", "INTERFACE", "UNION")])
def named(t): return Str.len_(X.name(t)) != 0      # the types of the schema are; lists and non-nulls of them are not
def cacheF(c, new=False): return (c.f_new if new else c.f_old)("_typeFields")
def cacheF_ok(c, m):
    n = z3.Const("cfn", Str.sort)
    sf = X.SF; sch = the(packed(c, c.f_old("_schema"))); ts = packed(c, c.f_old("_operationTypes"))
    return z3.ForAll([n], z3.Implies(haskey(m, n), z3.And(Str.len_(n) != 0, composite(X.NAMED(n)), X.name(X.NAMED(n)) == n, at(m, n) == sf(sch, ts, X.NAMED(n)))), patterns=[haskey(m, n)])


KEPT_TITLE = "what is kept about the types is what the schema says"
def caches_ok(c, f): return z3.And(cache_ok(types(c), f("_inputTypeFields")), cacheF_ok(c, f("_typeFields")))
def caches(c, new=False): return [(KEPT_TITLE, caches_ok(c, lambda f: packed(c, (c.f_new if new else c.f_old)(f))))]
def caches_now(c):
    ex = c.ex
    return [(KEPT_TITLE, caches_ok(c, lambda f: packed(c, ex.val(ex.deref(c.this).ext(("f", f))))))]


def kept_field(e):
    args = args_of(X.fargs(e))
    return L.rec_mk(map_theory_for(X.tfields).v, [{"returnType": X.ftype(e), "arguments": args}[f] for f in L.rec_fields(map_theory_for(X.tfields).v)])


def scoped_axioms(c):
    mt = map_theory_for(X.tfields); th = X.fl
    s = z3.Const("scs", th.sort); k = z3.Int("sck"); t = z3.Const("sct", Ty); sch = z3.Const("scc", Schema); ts = z3.Const("scts", X.types)
    e = th.at_(s, k)
    keep = z3.And(some(e), Str.len_(X.fname(the(e))) != 0, some(X.ftype(the(e))))
    noargs = map_theory_for(X.fields).empty
    R = lambda ty, args: L.rec_mk(mt.v, [{"returnType": ty, "arguments": args}[f] for f in L.rec_fields(mt.v)])
    nn = X.consts["NON_NULL"]
    lk = lambda n: X.LOOK(sch, strlit(n))
    string = X.WRAP(sch, nn, lk(b"String"))
    fold = X.FF(X.fls(t), th.len_(X.fls(t)))
    named_arg = L.rec_mk(X.arg, [{"defaultValue": z3.BoolVal(False), "nonNullDefaultValue": z3.BoolVal(False), "type": string}[f] for f in L.rec_fields(X.arg)])
    root = mt.set_(mt.set_(fold, strlit(b"__schema"), R(X.WRAP(sch, nn, lk(b"__Schema")), noargs)), strlit(b"__type"), R(lk(b"__Type"), map_theory_for(X.fields).set_(noargs, strlit(b"name"), named_arg)))
    q = strlit(b"query")
    isroot = z3.And(X.INTRO(sch), haskey(ts, q), at(ts, q) == L.opt_some(X.opt, t))
    return [z3.ForAll([s], X.FF(s, 0) == mt.empty, patterns=[X.FF(s, z3.IntVal(0))]),
            z3.ForAll([s, k], z3.Implies(0 <= k, X.FF(s, k + 1) == z3.If(keep, mt.set_(X.FF(s, k), X.fname(the(e)), kept_field(the(e))), X.FF(s, k))), patterns=[z3.MultiPattern(X.FF(s, k), e)]),
            z3.ForAll([sch, ts, t], X.SF(sch, ts, t) == mt.set_(z3.If(isroot, root, fold), strlit(b"__typename"), R(string, noargs)), patterns=[X.SF(sch, ts, t)]),
            z3.ForAll([t], z3.Implies(named(t), X.NAMED(X.name(t)) == t), patterns=[X.name(t)])]


def scoped_type(c): return the(packed(c, c.f_old("_scopedType")))
def sf_start(c):
    h_start(c); a_start(c)
    for a in scoped_axioms(c): c.ex.assume(a)


def sf_post(c):
    it, t, w = c.ex.val(c.res), scoped_type(c), packed(c, cacheF(c, True))
    return [("found exactly for a type with fields", it.valid == composite(t)), ("its fields", z3.Implies(composite(t), z3.And(it.key == X.name(t), haskey(w, X.name(t)))))] + caches(c, True) + same(c, SCHEMA + PER_DOCUMENT + PER_DEFINITION + ("_errors",))


def sf_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None or not z3.is_expr(s) or s.sort() != X.fl.sort: return []
    return [("the fields so far", L.eqgoal(packed(c, ex.val(l)), X.FF(s, k))) for l in ctx.all_locals(lambda t, d: ex.M._sort_is(t, X.tfields)) if l.root in {r for r, _ in ctx.mods}]


def same(c, fields):
    out = []
    for f in fields:
        a, b = c.f_old(f), c.f_new(f)
        out.append((f + " stays", L.eqgoal(packed(c, a), packed(c, b)) if z3.is_expr(a) else z3.BoolVal(a is b or same_ref(a, b))))
    return out


def same_ref(a, b):
    from cppcv.engine import RefV
    if isinstance(a, RefV) and isinstance(b, RefV): return a.loc.same(b.loc)
    return str(a) == str(b)


def havoc(c, fields):
    ex = c.ex
    if ex.pure: raise NotPure()
    for f in fields:
        l = ex.deref(c.this).ext(("f", f))
        ex.write(l, ex.havoc_value(ex.val(l), f))


def unused(c):
    """variables are noted as used only while there are variables of an operation"""
    return z3.Implies(z3.Not(some(packed(c, c.f_old("_operationVariables")))), L.eqgoal(packed(c, c.f_old("_referencedVariables")), packed(c, c.f_new("_referencedVariables"))))


def effect(fields, result=None, keep_type=False):
    def call(c):
        ex = c.ex
        if ex.pure: raise NotPure()
        old = {f: packed(c, ex.val(ex.deref(c.this).ext(("f", f)))) for f in ("_operationVariables", "_referencedVariables")}
        havoc(c, [f for f in fields if not (keep_type and f == "_scopedType")])
        ex.assume(z3.Implies(z3.Not(some(old["_operationVariables"])), old["_referencedVariables"] == packed(c, ex.val(ex.deref(c.this).ext(("f", "_referencedVariables"))))))
        for _, f in caches_now(c): ex.assume(f)
        return VOID if result is None else result(c)
    return call


def some_call(c): return c.ex.fresh("accepted", Bool)


KEPT = SCHEMA + ("_operationVariables", "_variableDefinitions", "_fragmentDefinitions", "_operationDefinitions")


def kept(c, more=()):
    """what a visit leaves as it was"""
    return same(c, KEPT + more) + caches(c, True) + [("variables are noted as used only for an operation", unused(c))]


def typed(c): return [("there is a type to visit", z3.And(some(packed(c, c.f_old("_scopedType"))), named(scoped_type(c))))]
def visit_inv(ctx):
    ex = ctx.ex; c = ex.callctx
    get = lambda f: packed(c, ex.val(ex.deref(c.this).ext(("f", f))))
    old = lambda f: packed(c, c.f_old(f))
    out = [("variables are noted as used only for an operation", z3.Implies(z3.Not(some(old("_operationVariables"))), old("_referencedVariables") == get("_referencedVariables")))]
    for f in ("_scopedType",): out.append(("the type stays", old(f) == get(f)))
    return out + caches_now(c)


anyloop = [LoopSpec("parts", visit_inv, lambda ex, n, it: True)]


def visits(name, rule_, fields=VISITS):
    return Contract("ValidateExecutableVisitor::" + name, TUV, VEV + "::" + name, setup=h_start, pre=lambda c: tables(c) + typed(c) + defs(c) + grammatical(c.old[-1], rule_), post=lambda c: kept(c, ("_scopedType",)),
                    call=effect(fields, keep_type=True), loops=anyloop)


selection = visits("visitSelection", "selection_set")
field_ = visits("visitField", "field")
spread = visits("visitFragmentSpread", "fragment_spread")
inline_ = visits("visitInlineFragment", "inline_fragment")
directives = Contract("ValidateExecutableVisitor::visitDirectives", TUV, VEV + "::visitDirectives", setup=h_start, pre=lambda c: tables(c) + grammatical(c.old[-1], "directives"), post=lambda c: kept(c, PER_DOCUMENT + ("_scopedType", "_fragmentStack", "_selectionFields", "_typeFields")), call=effect(CHECKS), loops=anyloop)
input_check = Contract("ValidateExecutableVisitor::validateInputValue", TUV, VEV + "::validateInputValue", call=effect(CHECKS, some_call))


TV = SV + "ValidateVariableTypeVisitor"


def tv_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    for f in ("_isInputType", "_variableType"):
        l = ex.deref(c.this).ext(("f", f)); ex.write(l, ex.havoc_value(ex.val(l), f))
    return VOID


def av_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    l = ex.deref(c.this).ext(("f", "_argumentValue")); ex.write(l, ex.havoc_value(ex.val(l), "literal"))
    e = ex.deref(ex.deref(c.this).ext(("f", "_errors"))); ex.write(e, ex.havoc_value(ex.val(e), "errors"))
    return VOID


variable_type_of = Contract("ValidateVariableTypeVisitor::visit", TUV, TV + "::visit", call=tv_call)
literal_of = Contract("ValidateArgumentValueVisitor::visit", TUV, AVV + "::visit", call=av_call)

get_errors = Contract("ValidateExecutableVisitor::getStructuredErrors", TUV, VEV + "::getStructuredErrors",
                      post=lambda c: [("the errors of this document", c.res_val(E.errs.sort) == c.M.pack_sort(c.f_old("_errors"), E.errs.sort)), ("no errors left", E.errs.len_(errs(c, True)) == 0)]
                      + clean(c, PER_DOCUMENT, True) + same(c, PER_DEFINITION + SCHEMA + CACHES))
fragment = Contract("ValidateExecutableVisitor::visitFragmentDefinition", TUV, VEV + "::visitFragmentDefinition", setup=h_start,
                    pre=lambda c: tables(c) + defs(c) + clean(c, PER_DEFINITION) + grammatical(c.old[0], "fragment_definition"),
                    post=lambda c: clean(c, PER_DEFINITION, True) + caches(c, True) + same(c, SCHEMA + ("_fragmentDefinitions", "_operationDefinitions")), call=lambda c: definition_call(c))


def defs_ok(m):
    n = z3.Const("don", Str.sort)
    return z3.ForAll([n], z3.Implies(haskey(m, n), z3.And(GS(at(m, n)), is_(at(m, n), "fragment_definition"))), patterns=[haskey(m, n)])


def defs(c): return [("the fragments are those of the document", defs_ok(packed(c, c.f_old("_fragmentDefinitions"))))]
def table_named(m):
    n = z3.Const("ton", Str.sort)
    return z3.ForAll([n], z3.Implies(haskey(m, n), z3.And(some(at(m, n)), named(the(at(m, n))))), patterns=[haskey(m, n)])


def tables(c): return [("every type of the tables is there", z3.And(table_ok(types(c)), table_named(types(c)), table_named(packed(c, c.f_old("_operationTypes"))))), ("there is a schema", some(packed(c, c.f_old("_schema"))))] + caches(c)


def definition_call(c):
    havoc(c, VISITS + PER_DEFINITION)
    for _, f in clean_now(c) + caches_now(c): c.ex.assume(f)
    return VOID


def clean_now(c):
    ex = c.ex
    out = []
    for f in PER_DEFINITION: out.append((TITLE[f], is_empty(packed(c, ex.val(ex.deref(c.this).ext(("f", f)))))))
    return out


def op_inv(ctx):
    c = ctx.ex.callctx
    l = ctx.ex.deref(c.this).ext(("f", "_operationVariables"))
    return [("whether there are variables of an operation stays", some(packed(c, ctx.ex.val(l))) == some(packed(c, ctx.old(l))))] + caches_now(c)


operation = Contract("ValidateExecutableVisitor::visitOperationDefinition", TUV, VEV + "::visitOperationDefinition", setup=h_start,
                     pre=lambda c: tables(c) + defs(c) + clean(c, PER_DEFINITION) + grammatical(c.old[0], "operation_definition"),
                     post=lambda c: clean(c, PER_DEFINITION, True) + caches(c, True) + same(c, SCHEMA + ("_fragmentDefinitions", "_operationDefinitions")), call=lambda c: definition_call(c),
                     loops=[LoopSpec("variables and their parts", op_inv, lambda ex, n, it: True)])
def doc_inv(ctx):
    ex = ctx.ex; c = ex.callctx
    l = ex.deref(c.this).ext(("f", "_fragmentDefinitions"))
    return clean_now(c) + caches_now(c) + [("the fragments are those of the document", defs_ok(packed(c, ex.val(l))))]


visit = Contract("ValidateExecutableVisitor::visit", TUV, VEV + "::visit", setup=h_start,
                 pre=lambda c: tables(c) + clean(c, PER_DEFINITION + PER_DOCUMENT) + [("a document of the grammar", GS(c.old[0]))], post=lambda c: clean(c, PER_DEFINITION, True) + caches(c, True) + same(c, SCHEMA),
                 loops=[LoopSpec("definitions", doc_inv, lambda ex, n, it: True)])

def scoped_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    l = ex.deref(c.this).ext(("f", "_typeFields"))
    ex.write(l, ex.havoc_value(ex.val(l), "looked_up"))
    for _, f in caches_now(c): ex.assume(f)
    w, t = packed(c, ex.val(l)), scoped_type(c)
    ex.assume(z3.Implies(composite(t), haskey(w, X.name(t))))
    return MapIter(l, composite(t), X.name(t), w)


scoped_fields = Contract("ValidateExecutableVisitor::getScopedTypeFields", TUV, VEV + "::getScopedTypeFields", setup=sf_start, pre=lambda c: tables(c) + typed(c), post=sf_post, call=scoped_call, loops=[LoopSpec("fields", sf_inv, own)])
same_field = Contract("ValidateField::operator==", TUV, SV + "ValidateField::operator==", call=lambda c: c.ex.fresh("same_field", Bool))
# a static member function: what it answers is all it does
def of_fields(d, tu): return "ValidateTypeField>" in qt(d) or "FieldTypes" in qt(d)
def named_call(c):
    r = c.ex.fresh("field_type", X.opt)
    c.ex.assume(z3.Implies(some(r), named(the(r))))
    return r


field_type = Contract("ValidateExecutableVisitor::getFieldType", TUV, VEV + "::getFieldType", post=lambda c: [("a type with a name, if any", z3.Implies(some(c.res_val(X.opt)), named(the(c.res_val(X.opt)))))], call=lambda c: named_call(c), loops=[LoopSpec("wrappers", lambda ctx: [], lambda ex, n, it: True)])
wrapped_type = Contract("ValidateExecutableVisitor::getWrappedFieldType", TUV, VEV + "::getWrappedFieldType", call=lambda c: c.ex.fresh("wrapped_type", X.opt))
for _k in XV.contracts: _k.models = XV.models
contracts = [get_errors, fragment, operation, visit, selection, spread, inline_, directives, field_, field_type, wrapped_type, scoped_fields] + XV.contracts


def joins(ex, n, k):
    """the checks along the way that only note errors"""
    names = set()
    def walk(m):
        if m.get("kind") == "MemberExpr": names.add(m.get("name"))
        if m.get("kind") == "DeclRefExpr": names.add(m.get("referencedDecl", {}).get("name"))
        for ch in children(m): walk(ch)
    walk(n)
    if "visitSelection" in names or "visitField" in names: return False
    if k == "IfStmt":
        body = list(children(n))[-1]
        stmts = list(children(body)) if body.get("kind") == "CompoundStmt" else [body]
        if stmts and stmts[-1].get("kind") in ("ReturnStmt", "ContinueStmt", "BreakStmt"): return False
        return "_errors" in names and len(ex.loopstack) == 0
    if k == "CallExpr" or k == "ExprWithCleanups":
        return "on_first_child" in names and bool(names & {"visitDirectives", "_errors"}) and len(ex.loopstack) == 0
    return False


field_.join = (joins, visit_inv)


class HM(XM):
    fold_writes = True
    handle_sorts = {str(Ty)}      # a type of the schema is one object: its address tells it from the others

    def __init__(self):
        XM.__init__(self)
        mm = self.member_models = dict(self.member_models)
        self.opaque = dict(self.opaque); self.opaque[SC + "Field"] = Fl
        sch = lambda ex, o: ex.val(o)
        text = lambda ex, a: ex.M.pack_sort(ex.val(ex.eval(a)), Str.sort)
        mm[(SC + "Schema", "LookupType")] = lambda ex, o, a, n: X.LOOK(sch(ex, o), text(ex, a[0]))
        mm[(SC + "Schema", "WrapType")] = lambda ex, o, a, n: X.WRAP(sch(ex, o), ex.val(ex.eval(a[0])), ex.M.pack_sort(ex.val(ex.eval(a[1])), X.opt))
        mm[(SC + "Schema", "supportsIntrospection")] = lambda ex, o, a, n: X.INTRO(sch(ex, o))
        for cls in (BT, "std::enable_shared_from_this"): mm[(cls, "shared_from_this")] = lambda ex, o, a, n: L.opt_some(X.opt, ex.val(o))
        mm[(SC + "Field", "name")] = lambda ex, o, a, n: X.fname(ex.val(o))
        mm[(SC + "Field", "type")] = lambda ex, o, a, n: X.ftype(ex.val(o))
        mm[(SC + "Field", "args")] = lambda ex, o, a, n: ex.alloc(X.fargs(ex.val(o)), "args")
        mm[(BT, "fields")] = lambda ex, o, a, n: ex.alloc(X.fls(ex.val(o)), "fields")

    def bind(self, ex):
        XM.bind(self, ex)
        h_setup(self)

    def call_free(self, ex, rd, n, args):
        if rd.get("name") == "find_if" and len(args) == 3:
            """an element the predicate accepts, or the end when there is none"""
            found = self.quantified(ex, n, "any_of", args)
            a = ex.val(ex.eval(args[0]))
            if not isinstance(a, MapIter): raise Unsupported("find_if over a sequence")
            m = ex.val(a.loc); k = ex.fresh("found", MT(m).k)
            ex.assume(z3.Implies(found, haskey(m, k)))
            return MapIter(a.loc, found, k, m)
        if rd.get("name") == "make_optional" and not args:
            s = self.sort_of(parse(qt(n)))
            return L.opt_some(s, map_theory_for(s.accessor(1, 0).range()).empty)
        return XM.call_free(self, ex, rd, n, args)


def models(tu):
    m = HM()
    m.contracts = [k for k in contracts if k not in XV.contracts] + [input_check, same_field, get_inputs, variable_type_of, literal_of, get_type, get_args] + list(W.contracts)
    return m
