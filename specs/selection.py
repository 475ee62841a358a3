"""SelectionVisitor: which resolvers a selection set calls, with what, and in what order"""
from specs.visitors import *
from specs import visitors as VS, nodes as N, errors as X
from specs.errors import EM, E
from cppcv.models import map_theory_for, Int

SEL = SV + "SelectionVisitor"
Resolver = z3.DeclareSort("Resolver")
Fut = z3.DeclareSort("Future")
ExcPtr = z3.DeclareSort("ExceptionPtr")
St = z3.DeclareSort("RequestState")
Launch = z3.DeclareSort("Launch")


class S: pass


def sel_setup(m):
    if hasattr(S, "call"): return
    S.res = m.sort_of(CT(SV + "ResolverResult"))
    # what get() on a future does: gives a result, throws a schema_exception, or throws another std::exception
    S.kind = z3.Function("future_outcome", Fut, Int)
    S.fut_res = z3.Function("future_result", Fut, S.res)
    S.fut_errs = z3.Function("future_errors", Fut, E.errs.sort)
    S.fut_bad = lambda f: S.kind(f) == ERRORS
    S.ptr_errs = z3.Function("exception_errors", ExcPtr, E.errs.sort)
    S.ptr_kind = z3.Function("exception_kind", ExcPtr, Int)
    S.path = L.option(E.fp)
    S.frags = m.sort_of(parse("graphql::internal::sorted_map<std::string_view, graphql::service::Fragment, graphql::internal::shorter_or_less>"))
    S.types = m.sort_of(parse("graphql::internal::sorted_set<std::string_view, graphql::internal::shorter_or_less>"))
    S.resolvers = m.sort_of(parse("graphql::internal::sorted_map<std::string_view, std::function<int>, graphql::internal::shorter_or_less>"))
    S.entry = m.sort_of(parse("std::pair<std::string_view, std::future<int>>"))
    S.values = L.seq_of(S.entry)
    S.maptype = seq_map().sort
    # one call of a resolver and what came of it
    S.call = L.record("ResolverCall", [("resolver", Resolver), ("name", Str.sort), ("args", V.S), ("fdirs", V.S), ("odirs", V.S), ("path", S.path), ("field", Node), ("nested", Bool), ("selection", Node),
                                       ("frags", S.frags), ("vars", V.S), ("outcome", Int), ("future", Fut), ("errors", E.errs.sort), ("what", Str.sort)])
    S.calls = L.seq_of(S.call)
    env = [V.S, S.frags, S.types, S.resolvers, S.path, V.S]
    st = [S.types, S.values.sort, S.calls.sort]
    S.R = z3.Function("visits", *(env + st + [Node] + st + [Bool]))                  # one selection
    S.RS = z3.Function("visits_first", *(env + st + [Node, Int] + st + [Bool]))      # the first k selections of a set
    S.ERR = z3.Function("may_fail", *(env + [Node, Bool]))                           # a selection with an error in it
    S.ERRS = z3.Function("some_may_fail", *(env + [Node, Bool]))
    S.DIRS = z3.Function("directives_denote", V.S, V.S, Node, Bool)                  # variables, value, selection
    S.EXC = z3.Function("is_excluded", V.S, Node, Bool)
    S.BAD = z3.Function("has_invalid_condition", V.S, Node, Bool)


def CG(c, f): return L.rec_get(c, f)
OK_, ERRORS, STD = range(3)          # outcome of a call: a future, a schema_exception, another std::exception


class SM(NM, EM):
    recursive = EM.recursive

    def __init__(self):
        NM.__init__(self)
        self.opaque = dict(self.opaque)
        self.opaque.update({"std::function": Resolver, "std::future": Fut, "std::promise": Fut, "std::__exception_ptr::exception_ptr": ExcPtr, "std::exception_ptr": ExcPtr, SV + "RequestState": St, "std::launch": Launch,
                            "std::mutex": z3.DeclareSort("Mutex"), "std::unique_lock": z3.DeclareSort("Lock"), "std::lock_guard": z3.DeclareSort("Lock"), "std::scoped_lock": z3.DeclareSort("Lock")})
        mm = self.member_models
        mm[("std::promise", "set_exception")] = self._set_exception
        mm[("std::promise", "get_future")] = lambda ex, o, a, n: ex.val(o)
        mm[("std::future", "get")] = self._get
        self.free_models["async"] = self._async
        self.ctor_models = dict(self.ctor_models)
        for nm in ("unique_lock", "lock_guard", "scoped_lock"): self.ctor_models["std::" + nm] = lambda ex, ct, node, args: ex.fresh("lock", z3.DeclareSort("Lock"))
        self.ctor_models["std::mutex"] = lambda ex, ct, node, args: ex.fresh("mutex", z3.DeclareSort("Mutex"))
        self.ctor_models["std::promise"] = lambda ex, ct, node, args: ex.fresh("promise", Fut)
        self.model_types = set(self.model_types) | {"graphql::internal::sorted_map", "graphql::internal::sorted_set"}
        fr = self.free_models
        fr["make_exception_ptr"] = self._make_ptr

    def bind(self, ex):
        EM.bind(self, ex)
        sel_setup(self)

    def moved(self, v):
        if z3.is_expr(v) and v.sort() in (Fut, ExcPtr): return self.ex.fresh("moved", v.sort())
        return NM.moved(self, v)

    def _make_ptr(self, ex, n, a):
        e = ex.val(ex.eval(a[0]))
        p = ex.fresh("exception", ExcPtr)
        return self.ptr_to(ex, p, e)

    def ptr_to(self, ex, p, e):
        if isinstance(e, StructV) and "_structuredErrors" in e.f:
            ex.assume(S.ptr_kind(p) == ERRORS); ex.assume(S.ptr_errs(p) == self.pack_sort(e.f["_structuredErrors"], E.errs.sort))
        else: ex.assume(S.ptr_kind(p) == STD)
        return p

    def _set_exception(self, ex, o, a, n):
        p = ex.val(ex.eval(a[0]))
        f = ex.fresh("failed", Fut)
        ex.assume(S.kind(f) == S.ptr_kind(p)); ex.assume(S.fut_errs(f) == S.ptr_errs(p))
        ex.write(o, f)
        return VOID

    def _get(self, ex, o, a, n):
        if ex.pure: raise NotPure()
        f = ex.val(o)
        k = S.kind(f)
        if ex.choose(k == OK_):
            r = S.fut_res(f)
            ex.assume(V.wf_(L.rec_get(r, "data")))       # every response::Value satisfies its invariant
            return r
        if ex.choose(k == ERRORS): raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": S.fut_errs(f)})))
        ex.assume(k == STD)
        raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))

    def _async(self, ex, n, a):
        """the future's outcome is what running the closure gives; when it runs is not modelled"""
        if ex.pure: raise NotPure()
        args = [ex.eval(x) for x in a]
        fn = args[1:] if ex.M._is_launch(a[0]) else args
        f = ex.fresh("async", Fut)
        try:
            r = ex.val(ex.apply_value(fn[0], [x for x in fn[1:]], n))
            ex.assume(S.kind(f) == OK_)
            self.yields(ex, f, r, n)
        except CppThrow as t:
            e = t.exc.val
            if t.exc.ct.name == SV + "schema_exception" and isinstance(e, StructV):
                ex.assume(S.kind(f) == ERRORS); ex.assume(S.fut_errs(f) == self.pack_sort(e.f["_structuredErrors"], E.errs.sort))
            else: ex.assume(S.kind(f) == STD)
        return f

    def yields(self, ex, f, r, n): ex.assume(S.fut_res(f) == self.pack_sort(r, S.res))

    def enum_const(self, ct, rd):
        if ct.bare().name == "std::launch": return z3.Const("launch_" + rd["name"], Launch)
        return NM.enum_const(self, ct, rd)

    def _is_launch(self, a): return parse(qt(a)).bare().name == "std::launch"

    def apply_opaque(self, ex, f, args, n):
        if z3.is_expr(f) and f.sort() == Resolver: return self.resolve(ex, f, ex.val(args[0]))
        return NM.apply_opaque(self, ex, f, args, n)

    def resolve(self, ex, f, p):
        """a resolver is called: it returns a future or throws"""
        if ex.pure: raise NotPure()
        g = lambda nm, s: self.pack_sort(self._member(ex, p, nm), s)
        sel = self._member(ex, p, "selection")
        nested = z3.BoolVal(not isinstance(sel, Ptr))
        out = z3.simplify(ex.fresh("outcome", Int))
        fut, errs, what = ex.fresh("answer", Fut), ex.fresh("thrown", E.errs.sort), ex.fresh("what", Str.sort)
        node = sel if not isinstance(sel, Ptr) else ex.fresh("none", Node)
        if ex.choose(out == OK_): o = OK_
        elif ex.choose(out == ERRORS): o = ERRORS
        else:
            o = STD; ex.assume(out == STD)
        c = L.rec_mk(S.call, [f, g("fieldName", Str.sort), g("arguments", V.S), g("fieldDirectives", V.S), g("operationDirectives", V.S), g("errorPath", S.path), g("field", Node), nested, node,
                              g("fragments", S.frags), g("variables", V.S), z3.IntVal(o), fut, errs, what])
        loc = ex.ghost["calls"]
        ex.write(loc, S.calls.push(ex.val(loc), c))
        if o == OK_: return fut
        if o == ERRORS: raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": errs})))
        raise CppThrow(ExcV(CT("std::exception"), None, what))

    def _member(self, ex, p, nm):
        v = ex.field(p, nm)
        if isinstance(v, RefV): v = ex.val(v.loc)
        return v


# ------------------------------------------------------------------ views
class View:
    """the visitor's constants and its state, before or after"""
    def __init__(self, c, new, g=None):
        g = g or (c.f_new if new else c.f_old)
        p = lambda f, s: c.M.pack_sort(g(f), s)
        self.vars, self.frags, self.types, self.resolvers = p("_variables", V.S), p("_fragments", S.frags), p("_typeNames", S.types), p("_resolvers", S.resolvers)
        self.path = p("_path", S.path); self.odirs = p("_operationDirectives", V.S)
        self.names, self.values = p("_names", S.types), p("_values", S.values.sort)
        self.stack = g("_fragmentDirectives")
        self.calls = c.ex.val(c.ex.ghost["calls"]) if new else c.store_calls
        self.env = [self.vars, self.frags, self.types, self.resolvers, self.path, self.odirs]
        self.st = [self.names, self.values, self.calls]


def ViewOf(c, v): return View(c, True, lambda *a: c.field(v, *a))
def OLD(c):
    if not hasattr(c, "v_old"): c.v_old = View(c, False)
    return c.v_old
def NEW(c): return View(c, True)


def sel_start(c):
    if "calls" not in c.ex.ghost: c.ex.ghost["calls"] = c.ex.alloc(c.ex.fresh("calls", S.calls.sort), "calls")
    c.store_calls = c.ex.val(c.ex.ghost["calls"])


def distinct_names(names, values):
    """the response names taken are those of the values, each once"""
    i, j = z3.Ints("dnvi dnvj")
    at = lambda q: L.rec_get(S.values.at_(values, q), "first")
    n = S.values.len_(values)
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), has_name(names, at(i))), patterns=[S.values.at_(values, i)]),
                  z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) != at(j)), patterns=[z3.MultiPattern(S.values.at_(values, i), S.values.at_(values, j))]))


def has_name(names, x): return map_theory_for(names.sort()).has_(names, x)
def field_name(n): return z3.If(has(n, "field_name"), ntext(child(n, "field_name")), Str.empty)
def response(n): return z3.If(z3.And(has(n, "alias_name"), ntext(child(n, "alias_name")) != Str.empty), ntext(child(n, "alias_name")), field_name(n))
def dirs_undef(vars, n): return z3.And(has(n, "directives"), D.dundef(vars, child(n, "directives")))
def FRAG(frags, nm): return map_theory_for(frags.sort()).get_(frags, nm)
def ftype(f): return L.rec_get(f, "_type")
def fsel(f): return L.rec_get(f, "_selection")


def same_state(a, b): return z3.And([L.eqgoal(x, y) if x.sort() != S.types else x == y for x, y in zip(a.st, b.st)])


def at_path(e, p): return L.eqgoal(X.path(e), X.chain_of(p))
def err0(es): return E.errs.at_(es, z3.IntVal(0))
def located(e, n): return z3.And(X.line(X.loc(e)) == nline(n), X.col(X.loc(e)) == ncol(n))


def frags_ok(frags):
    th = map_theory_for(S.frags); k = z3.Const("fk", Str.sort)
    okf = lambda f: z3.And(V.wf_(L.rec_get(f, "_directives")), tag_is(L.rec_get(f, "_directives"), MAP), shape(fsel(f)), is_(fsel(f), "selection_set"))
    return z3.ForAll([k], z3.Implies(th.has_(frags, k), okf(th.get_(frags, k))), patterns=[th.has_(frags, k)])


def visit_pre_(c):
    sel_start(c)
    o = OLD(c); n = c.old[0]
    th = map_theory_for(S.frags)
    k = z3.Const("fk", Str.sort); i = z3.Int("fdi")
    st = c.M.pack_sort(o.stack, c.M.sort_of(parse("std::list<%s>" % (SV + "FragmentDirectives"))))
    sth = TH(st)
    return vars_ok(c, o.vars) + inv_of(c, "operation directives ", o.odirs) + [
        ("a selection of the grammar", z3.And(shape(n), z3.Or(is_(n, "field"), is_(n, "fragment_spread"), is_(n, "inline_fragment")))),
        ("the fragments are those of the document", frags_ok(o.frags)),
        ("inside at least the top level", sth.len_(st) >= 1),
        ("every value has its own response name", distinct_names(o.names, o.values)),
        ("the directives of the fragments around are objects", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sth.len_(st)), frame_ok(sth.at_(st, i))), patterns=[sth.at_(st, i)]))]


def applies(v, n):
    """the type condition of an inline fragment"""
    return z3.Or(z3.Not(has(n, "type_condition")), has_name(v.types, ntext(front(child(n, "type_condition")))))


def visit_post_(c):
    o, w, n = OLD(c), NEW(c), c.old[0]
    F, P, I = is_(n, "field"), is_(n, "fragment_spread"), is_(n, "inline_fragment")
    exc, bad, und = S.EXC(o.vars, n), S.BAD(o.vars, n), dirs_undef(o.vars, n)
    rn, fn = response(n), field_name(n)
    new = z3.And(F, z3.Not(exc), z3.Not(has_name(o.names, rn)))
    known = has_name(o.resolvers, fn)
    same = same_state(o, w)
    x = z3.Const("nmx", Str.sort)
    VL, CL = S.values, S.calls
    nv, nc = VL.len_(o.values), CL.len_(o.calls)
    last, call = VL.at_(w.values, nv), CL.at_(w.calls, nc)
    fut = L.rec_get(last, "second")
    es = S.fut_errs(fut)
    i = z3.Int("sei")
    ce = CG(call, "errors")
    fe, te = E.errs.at_(es, i), E.errs.at_(ce, i)
    noloc, nopath = X.line(X.loc(te)) == 0, X.PT().len_(X.path(te)) == 0
    okpath = z3.And(L.opt_is(CG(call, "path")), L.rec_get(L.opt_val(CG(call, "path")), "parent") == o.path, segment_is(L.rec_get(L.opt_val(CG(call, "path")), "segment"), rn))
    mypath = X.chain_of(CG(call, "path"))
    fr = FRAG(o.frags, ntext(front(n)))
    found = has_name(o.frags, ntext(front(n)))
    match = has_name(o.types, ntext_type(fr))
    into = z3.Or(z3.And(P, match, z3.Not(exc)), z3.And(I, applies(o, n), z3.Not(exc)))
    I_ = z3.Implies
    out = [
        ("only when the directives are valid", I_(z3.Or(F, I, z3.And(P, match)), z3.And(z3.Not(bad), z3.Not(und)))),
        ("an excluded field changes nothing", I_(z3.And(F, exc), same)),
        ("a response name already there is not resolved again", I_(z3.And(F, z3.Not(exc), has_name(o.names, rn)), same)),
        ("the response name is taken", I_(new, z3.ForAll([x], has_name(w.names, x) == z3.Or(has_name(o.names, x), x == rn), patterns=[has_name(w.names, x), has_name(o.names, x)]))),
        ("one value is added after the others", I_(new, z3.And(VL.len_(w.values) == nv + 1, L.eqgoal(VL.slice_(w.values, 0, nv), o.values)))),
        ("under the response name", I_(new, L.rec_get(last, "first") == rn)),
        ("no resolver is called for an unknown field", I_(z3.And(new, z3.Not(known)), L.eqgoal(w.calls, o.calls))),
        ("an unknown field is one error at its place", I_(z3.And(new, z3.Not(known)), z3.And(S.fut_bad(fut), E.errs.len_(es) == 1, located(err0(es), n), at_path(err0(es), o.path)))),
        ("exactly one resolver is called", I_(z3.And(new, known), z3.And(CL.len_(w.calls) == nc + 1, L.eqgoal(CL.slice_(w.calls, 0, nc), o.calls)))),
        ("only when every variable is defined", I_(z3.And(new, known), z3.Not(args_undef(o.vars, n)))),
        ("the resolver of that field", I_(z3.And(new, known), CG(call, "resolver") == FRAG(o.resolvers, fn))),
        ("under its response name", I_(z3.And(new, known), CG(call, "name") == rn)),
        ("with the arguments written on the field", I_(z3.And(new, known), D.args(o.vars, CG(call, "args"), n))),
        ("with the field's own directives", I_(z3.And(new, known), S.DIRS(o.vars, CG(call, "fdirs"), n))),
        ("with the operation's directives, fragments and variables", I_(z3.And(new, known), z3.And(CG(call, "odirs") == o.odirs, CG(call, "frags") == o.frags, CG(call, "vars") == o.vars))),
        ("for that field and its selection set", I_(z3.And(new, known), z3.And(CG(call, "field") == n, CG(call, "nested") == has(n, "selection_set"), I_(has(n, "selection_set"), CG(call, "selection") == child(n, "selection_set"))))),
        ("at the path of the object and the response name", I_(z3.And(new, known), okpath)),
        ("the value is what the resolver answers", I_(z3.And(new, known, CG(call, "outcome") == OK_), fut == CG(call, "future"))),
        ("a failing resolver fails its own value", I_(z3.And(new, known, CG(call, "outcome") != OK_), S.fut_bad(fut))),
        ("every error of the resolver is kept, in order", I_(z3.And(new, known, CG(call, "outcome") == ERRORS), z3.And(E.errs.len_(es) == E.errs.len_(ce),
            z3.ForAll([i], I_(z3.And(0 <= i, i < E.errs.len_(ce)), X.msg(fe) == X.msg(te)), patterns=[E.errs.at_(es, i), E.errs.at_(ce, i)])))),
        ("errors keep their location, or get the field's", I_(z3.And(new, known, CG(call, "outcome") == ERRORS),
            z3.ForAll([i], I_(z3.And(0 <= i, i < E.errs.len_(ce)), z3.If(noloc, located(fe, n), X.loc(fe) == X.loc(te))), patterns=[E.errs.at_(es, i), E.errs.at_(ce, i)]))),
        ("errors keep their path, or get the field's", I_(z3.And(new, known, CG(call, "outcome") == ERRORS),
            z3.ForAll([i], I_(z3.And(0 <= i, i < E.errs.len_(ce)), z3.If(nopath, X.path(fe) == mypath, X.path(fe) == X.path(te))), patterns=[E.errs.at_(es, i), E.errs.at_(ce, i)]))),
        ("any other failure is one error at the field", I_(z3.And(new, known, CG(call, "outcome") == STD), z3.And(E.errs.len_(es) == 1, located(err0(es), n), L.eqgoal(X.path(err0(es)), mypath)))),
        ("only when the fragment is known", I_(P, found)),
        ("a fragment of another type, or excluded, changes nothing", I_(z3.And(P, z3.Or(z3.Not(match), exc)), same)),
        ("an inline fragment of another type, or excluded, changes nothing", I_(z3.And(I, z3.Or(z3.Not(applies(o, n)), exc)), same)),
        ("a fragment contributes all its selections in order", I_(z3.And(P, match, z3.Not(exc)), S.RS(*(o.env + o.st + [fsel(fr), nkids(fsel(fr))] + w.st)))),
        ("an inline fragment contributes all its selections in order", I_(z3.And(I, applies(o, n), z3.Not(exc)), S.RS(*(o.env + o.st + [child(n, "selection_set"), nkids(child(n, "selection_set"))] + w.st)))),
        ("every value has its own response name", distinct_names(w.names, w.values)),
        ("the fragments around stay", L.eqgoal(c.M.pack_sort(w.stack, stack_sort(c)), c.M.pack_sort(o.stack, stack_sort(c)))),
    ]
    return out


def stack_sort(c): return c.M.sort_of(parse("std::list<%s>" % (SV + "FragmentDirectives")))
def ntext_type(f): return ftype(f)
def segment_is(s, nm): return z3.And(L.var_is(s, 0), L.var_get(s, 0) == nm)


def visit_exc_(c):
    o, n = OLD(c), c.old[0]
    F, P, I = is_(n, "field"), is_(n, "fragment_spread"), is_(n, "inline_fragment")
    bad, und = S.BAD(o.vars, n), dirs_undef(o.vars, n)
    found = has_name(o.frags, ntext(front(n)))
    fr = FRAG(o.frags, ntext(front(n)))
    match = has_name(o.types, ftype(fr))
    why = z3.Or(z3.And(F, z3.Or(und, bad, args_undef(o.vars, n))), z3.And(P, z3.Or(z3.Not(found), z3.And(match, z3.Or(und, bad, S.ERRS(*(o.env + [fsel(fr)])))))),
                z3.And(I, z3.Or(und, bad, z3.And(applies(o, n), S.ERRS(*(o.env + [child(n, "selection_set")]))))))
    out = [("only for a reason in the request", why), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]
    v = c.exc.val if c.exc is not None else None
    if isinstance(v, StructV) and "_structuredErrors" in v.f:
        es = c.M.pack_sort(v.f["_structuredErrors"], E.errs.sort)
        out.append(("an unknown fragment is one error at its place", z3.Implies(z3.And(P, z3.Not(found)), z3.And(E.errs.len_(es) == 1, located(err0(es), n), at_path(err0(es), o.path)))))
    else: out.append(("an unknown fragment is one error at its place", z3.Implies(P, found)))
    return out


def visit_call_(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    o, n = OLD(c), c.old[0]
    if ex.choose(z3.And(ex.fresh("fails", Bool), S.ERR(*(o.env + [n])))): raise CppThrow(ExcV(CT(SV + "schema_exception"), None, ex.fresh("msg", Str.sort)))
    t = ex.deref(c.this)
    st = [ex.fresh("names", S.types), ex.fresh("values", S.values.sort), ex.fresh("calls", S.calls.sort)]
    ex.write(t.ext(("f", "_names")), st[0]); ex.write(t.ext(("f", "_values")), st[1]); ex.write(ex.ghost["calls"], st[2])
    ex.assume(S.R(*(o.env + o.st + [n] + st)))
    ex.assume(distinct_names(st[0], st[1]))
    return VOID


def sel_axioms(ex):
    """RS folds R over the selections of a set; ERRS: some selection of the set may fail; what directives decide"""
    if not hasattr(S, "axioms"): S.axioms = make_axioms()
    for f in S.axioms: ex.assume(f)


def make_axioms():
    sorts = [V.S, S.frags, S.types, S.resolvers, S.path, V.S]
    env = [z3.Const("se%d" % i, s) for i, s in enumerate(sorts)]
    st = lambda p: [z3.Const("s%s%d" % (p, i), s) for i, s in enumerate([S.types, S.values.sort, S.calls.sort])]
    a, b, d = st("a"), st("b"), st("d")
    n = z3.Const("sn", Node); k, i = z3.Ints("sk si")
    v = z3.Const("sv", V.S); vs = env[0]
    out = [
        z3.ForAll(env + a + [n], S.RS(*(env + a + [n, z3.IntVal(0)] + a)), patterns=[S.RS(*(env + a + [n, z3.IntVal(0)] + a))]),
        z3.ForAll(env + a + b + d + [n, k, ], z3.Implies(z3.And(0 <= k, S.RS(*(env + a + [n, k] + b)), S.R(*(env + b + [kid(n, k)] + d))), S.RS(*(env + a + [n, k + 1] + d))), patterns=[z3.MultiPattern(S.RS(*(env + a + [n, k] + b)), S.R(*(env + b + [kid(n, k)] + d)))]),
        z3.ForAll(env + [n, i], z3.Implies(z3.And(0 <= i, i < nkids(n), S.ERR(*(env + [kid(n, i)]))), S.ERRS(*(env + [n]))), patterns=[S.ERR(*(env + [kid(n, i)]))]),
        z3.ForAll([vs, v, n], S.DIRS(vs, v, n) == z3.And(tag_is(v, MAP), z3.If(has(n, "directives"), z3.And([f for _, f in dirs_den(vs, v, child(n, "directives"))]), mlen(map_(v)) == 0)), patterns=[S.DIRS(vs, v, n)]),
        z3.ForAll([vs, v, n], z3.Implies(S.DIRS(vs, v, n), z3.And(S.EXC(vs, n) == K.ex(v), S.BAD(vs, n) == K.bad(v))), patterns=[z3.MultiPattern(S.EXC(vs, n), K.ex(v)), z3.MultiPattern(S.BAD(vs, n), K.bad(v))]),
        z3.ForAll([v], z3.Implies(mlen(map_(v)) == 0, z3.And(z3.Not(K.ex(v)), z3.Not(K.bad(v)))), patterns=[K.ex(v)]),
    ]
    return out


def sel_inv(ctx):
    """dispatch on what the loop visits"""
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None: return []
    o = OLD(c)
    n = seq_node(ctx)
    if n is not None:
        if ex.entails(is_(n, "arguments")): return args_inv(ctx, o.vars, n)
        # the state after the first k selections of a fragment
        w = NEW(c)
        st0, st1 = (c.M.pack_sort(v.stack, stack_sort(c)) for v in (o, w))
        th = TH(st0); m = th.len_(st0)
        top = th.at_(st1, m)
        i = z3.Int("svi")
        return [("the first selections are done", S.RS(*(o.env + o.st + [n, k] + w.st))),
                ("every value has its own response name", distinct_names(w.names, w.values)),
                ("one fragment more than around", z3.And(th.len_(st1) == m + 1, L.eqgoal(th.slice_(st1, 0, m), st0))),
                ("the directives of the fragments around are objects", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len_(st1)), frame_ok(th.at_(st1, i))), patterns=[th.at_(st1, i)]))]
    if s.sort() == E.errs.sort:
        # errors of a resolver get the field's location and path
        n = c.old[0]
        calls = ex.val(ex.ghost["calls"])
        call = S.calls.at_(calls, S.calls.len_(calls) - 1)
        ce = CG(call, "errors")
        i = z3.Int("sji")
        fe, te = E.errs.at_(s, i), E.errs.at_(ce, i)
        noloc, nopath = X.line(X.loc(te)) == 0, X.PT().len_(X.path(te)) == 0
        done = z3.And(X.msg(fe) == X.msg(te), z3.If(noloc, located(fe, n), X.loc(fe) == X.loc(te)), z3.If(nopath, X.path(fe) == X.chain_of(CG(call, "path")), X.path(fe) == X.path(te)))
        return [("as many errors", E.errs.len_(s) == E.errs.len_(ce)),
                ("the errors so far are located", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), done), patterns=[E.errs.at_(s, i), E.errs.at_(ce, i)])),
                ("the others are untouched", z3.ForAll([i], z3.Implies(z3.And(k <= i, i < E.errs.len_(ce)), fe == te), patterns=[E.errs.at_(s, i), E.errs.at_(ce, i)]))]
    if s.sort() == S.maptype:
        roots = {r for r, _ in ctx.mods}
        return [("an object of directives", z3.And(V.wf_(v), tag_is(v, MAP))) for v in [VAL(c, l) for l in ctx.all_locals(lambda t, d: t.name == VT) if l.root in roots]]
    return []


FDIRS = ("fragmentDefinitionDirectives", "fragmentSpreadDirectives", "inlineFragmentDirectives")
def frame_ok(t): return z3.And([z3.And(V.wf_(L.rec_get(t, f)), tag_is(L.rec_get(t, f), MAP)) for f in FDIRS])


def sel_setup_fn(c):
    skip_fns()
    tree_axioms(c.ex)
    for a in X.chain_axioms(): c.ex.assume(a)
    sel_axioms(c.ex)
    sel_start(c)


sel_visit = Contract("SelectionVisitor::visit", TUF, SEL + "::visit", setup=sel_setup_fn, pre=visit_pre_, post=visit_post_, exc=visit_exc_, call=visit_call_, loops=[LoopSpec("selections", sel_inv, own)])


# ------------------------------------------------------------------ the visitor of one selection set
def ctor_post(c):
    w = NEW(c)
    p = c.old[0]
    g = lambda nm, s: c.M.pack_sort(c.field(p, nm), s)
    th = TH(c.M.pack_sort(w.stack, stack_sort(c)))
    st = c.M.pack_sort(w.stack, stack_sort(c))
    x = z3.Const("ctx", Str.sort)
    return [("nothing is selected yet", z3.And(S.values.len_(w.values) == 0, z3.ForAll([x], z3.Not(has_name(w.names, x)), patterns=[has_name(w.names, x)]))),
            ("the object's fields and type names", z3.And(w.resolvers == c.old[4], w.types == c.old[3])),
            ("the document's fragments and variables", z3.And(w.frags == c.old[1], w.vars == c.old[2])),
            ("the operation's directives", w.odirs == g("operationDirectives", V.S)),
            ("the path of the object", w.path == g("errorPath", S.path)),
            ("no fragment around", z3.And(th.len_(st) == 1, frame_ok(th.at_(st, z3.IntVal(0)))))]


sel_ctor = Contract("SelectionVisitor::SelectionVisitor", TUF, SEL + "::SelectionVisitor", pred=lambda d, tu: len([p for p in children(d) if p["kind"] == "ParmVarDecl"]) == 6, setup=sel_start, post=ctor_post, use=False)
get_values = Contract("SelectionVisitor::getValues", TUF, SEL + "::getValues", setup=sel_start, post=lambda c: [("hands out exactly the values", L.eqgoal(c.res_val(S.values.sort), OLD(c).values))], use=False)


# ------------------------------------------------------------------ Object::resolve
OBJ = SV + "Object"


def resolve_env(c):
    p = c.old[0]
    g = lambda nm, s: c.M.pack_sort(c.field(p, nm), s)
    return [c.M.pack_sort(c.old[3], V.S), c.M.pack_sort(c.old[2], S.frags), c.M.pack_sort(c.f_old("_typeNames"), S.types), c.M.pack_sort(c.f_old("_resolvers"), S.resolvers), g("errorPath", S.path), g("operationDirectives", V.S)]


def resolve_pre(c):
    sel_start(c)
    env = resolve_env(c)
    th = map_theory_for(S.frags)
    k = z3.Const("fk", Str.sort)
    return vars_ok(c, env[0]) + inv_of(c, "operation directives ", env[5]) + [
        ("a selection set of the grammar", z3.And(shape(c.old[1]), is_(c.old[1], "selection_set"))),
        ("the fragments are those of the document", frags_ok(env[1]))]


def resolve_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None: return []
    n = seq_node(ctx)
    if n is not None and n.eq(c.old[1]):
        vis = [l for l in ctx.all_locals(lambda t, d: t.name == SEL)]
        if not vis: return []
        v = ex.val(vis[0])
        w = ViewOf(c, v)
        st = c.M.pack_sort(w.stack, stack_sort(c)); th = TH(st)
        i = z3.Int("rvi")
        return [("the first selections are done", S.RS(*(resolve_env(c) + empty_state(c) + [n, k] + w.st))),
                ("every value has its own response name", distinct_names(w.names, w.values)),
                ("no fragment around", z3.And(th.len_(st) == 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len_(st)), frame_ok(th.at_(st, i))), patterns=[th.at_(st, i)])))]
    if s.sort() == S.values.sort:
        docs = ctx.all_locals(lambda t, d: t.name == SV + "ResolverResult" and any(True for r, _ in ctx.mods))
        roots = {r for r, _ in ctx.mods}
        docs = [l for l in docs if l.root in roots]
        if not docs: return []
        r = c.M.pack_sort(ex.val(docs[0]), S.res)
        return [(l, f) for l, f in document(s, k, r)]
    return []


def document(values, k, r):
    """the object made of the first k values"""
    d, es = L.rec_get(r, "data"), L.rec_get(r, "errors")
    m = map_(d)
    i = z3.Int("doi")
    e = S.values.at_(values, i)
    f = L.rec_get(e, "second")
    g = z3.And(0 <= i, i < k)
    return [("an object", tag_is(d, MAP)), ("the value satisfies its invariant", V.wf_(d)),
            ("one member per response name", mlen(m) == k),
            ("in the order of selection", z3.ForAll([i], z3.Implies(g, name_at(m, i) == L.rec_get(e, "first")), patterns=[TH(m).at_(m, i), S.values.at_(values, i)])),
            ("each with what its resolver produced", z3.ForAll([i], z3.Implies(z3.And(g, S.kind(f) == OK_), z3.Or(val_at(m, i) == L.rec_get(S.fut_res(f), "data"), V.veq_(val_at(m, i), L.rec_get(S.fut_res(f), "data")))), patterns=[TH(m).at_(m, i), S.values.at_(values, i)])),
            ("null where it failed", z3.ForAll([i], z3.Implies(z3.And(g, S.kind(f) != OK_), tag_is(val_at(m, i), NULL)), patterns=[TH(m).at_(m, i), S.values.at_(values, i)])),
            ("every error once, in order", S.CAT(values, k, es))]


def cat_axioms():
    """CAT(values, k, es): es are the errors of the first k values one after the other"""
    if hasattr(S, "cat_ax"): return S.cat_ax
    S.CAT = z3.Function("errors_of_first", S.values.sort, Int, E.errs.sort, Bool)
    vs = z3.Const("cavs", S.values.sort); k = z3.Int("cak"); a, p = z3.Consts("caa cap", E.errs.sort)
    f = L.rec_get(S.values.at_(vs, k), "second")
    piece = lambda x: z3.And(z3.Implies(S.kind(f) == OK_, x == L.rec_get(S.fut_res(f), "errors")), z3.Implies(S.kind(f) == ERRORS, x == S.fut_errs(f)), z3.Implies(S.kind(f) == STD, E.errs.len_(x) == 1))
    x = z3.Const("cax", E.err)
    S.cat_ax = [z3.ForAll([vs], S.CAT(vs, z3.IntVal(0), E.errs.empty), patterns=[S.CAT(vs, z3.IntVal(0), E.errs.empty)]),
                z3.ForAll([vs, k, a, p], z3.Implies(z3.And(0 <= k, S.CAT(vs, k, a), piece(p)), S.CAT(vs, k + 1, E.errs.cat_(a, p))), patterns=[z3.MultiPattern(S.CAT(vs, k, a), E.errs.cat_(a, p))]),
                z3.ForAll([vs, k, a, x], z3.Implies(z3.And(0 <= k, S.CAT(vs, k, a), piece(E.errs.push_(E.errs.empty, x))), S.CAT(vs, k + 1, E.errs.push_(a, x))), patterns=[z3.MultiPattern(S.CAT(vs, k, a), E.errs.push_(a, x))]),
                z3.ForAll([vs, k, a], z3.Implies(z3.And(0 <= k, S.CAT(vs, k, a), piece(E.errs.empty)), S.CAT(vs, k + 1, a)), patterns=[z3.MultiPattern(S.CAT(vs, k, a), S.values.at_(vs, k))])]
    return S.cat_ax


def empty_state(c):
    return [map_theory_for(S.types).empty, S.values.empty, c.store_calls]


def resolve_post(c):
    env = resolve_env(c); n = c.old[1]
    calls = c.ex.val(c.ex.ghost["calls"])
    f = c.res_val(Fut)
    # some values, those of the selections visited in order, make up the object
    names, values = z3.Const("rpn", S.types), z3.Const("rpv", S.values.sort)
    rs = S.RS(*(env + empty_state(c) + [n, nkids(n)] + [names, values, calls]))
    parts = [("a result, not an exception", S.kind(f) == OK_)] + document(values, S.values.len_(values), S.fut_res(f))
    ex_ = lambda x: z3.Exists([names, values], z3.And(rs, x), patterns=[rs])
    out = [("the object is that of the selections: " + l, ex_(x)) for l, x in parts] + [("the object is that of the selections", ex_(z3.And([x for _, x in parts])))]
    return out


def models(tu):
    m = SM()
    m.contracts = [sel_visit, visit, dvisit, should_skip] + [X.build_path] + list(W.contracts) + W.base64
    return m


def resolve_setup(c):
    sel_setup_fn(c)
    for a in cat_axioms(): c.ex.assume(a)


def resolve_exc(c):
    return [("only for a reason in the request", S.ERRS(*(resolve_env(c) + [c.old[1]]))), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]


obj_resolve = Contract("Object::resolve", TUF, OBJ + "::resolve", setup=resolve_setup, pre=resolve_pre, post=resolve_post, exc=resolve_exc, loops=[LoopSpec("selections", resolve_inv, own)], use=False)
obj_ctor = Contract("Object::Object", TUF, OBJ + "::Object", setup=sel_start, post=lambda c: [("exactly the given type names and resolvers", z3.And(c.M.pack_sort(c.f_new("_typeNames"), S.types) == c.old[0], c.M.pack_sort(c.f_new("_resolvers"), S.resolvers) == c.old[1]))], use=False)
matches = Contract("Object::matchesType", TUF, OBJ + "::matchesType", setup=sel_start, post=lambda c: [("exactly the registered type names", c.res_val(Bool) == has_name(c.M.pack_sort(c.f_old("_typeNames"), S.types), c.old[0]))], use=False)
contracts = [sel_visit, sel_ctor, get_values, obj_ctor, matches, obj_resolve]


# ------------------------------------------------------------------ fragments
FR = SV + "Fragment"
FDV = SV + "FragmentDefinitionVisitor"


def frag_is(vars, fd, type_, dirs, sel):
    """the fragment a definition describes"""
    return [("the type it is for", type_ == ntext(front(kid(fd, z3.IntVal(1))))), ("its selection set", sel == back(fd)), ("its directives", S.DIRS(vars, dirs, fd)), ("the directives satisfy the invariant", V.wf_(dirs))]


def frag_pre(c, fd, vars): return vars_ok(c, vars) + [("a fragment definition of the grammar", z3.And(shape(fd), is_(fd, "fragment_definition")))]


def frag_ctor_post(c):
    p = lambda f, s: c.M.pack_sort(c.f_new(f), s)
    return [("only when every variable is defined", z3.Not(dirs_undef(VAL0(c, 1), c.old[0])))] + frag_is(VAL0(c, 1), c.old[0], p("_type", Str.sort), p("_directives", V.S), p("_selection", Node))


frag_exc = lambda vars: lambda c: [("only when a variable is not defined", dirs_undef(vars(c), c.old[0])), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]
frag_ctor = Contract("Fragment::Fragment", TUF, FR + "::Fragment", pred=lambda d, tu: len([p for p in children(d) if p["kind"] == "ParmVarDecl"]) == 2, setup=sel_setup_fn, pre=lambda c: frag_pre(c, c.old[0], VAL0(c, 1)),
                     post=frag_ctor_post, exc=frag_exc(lambda c: VAL0(c, 1)), loops=[LoopSpec("children", None, in_fn("for_each_child"))], use=False)
frag_type = Contract("Fragment::getType", TUF, FR + "::getType", post=lambda c: [("the type it is for", c.res_val(Str.sort) == c.M.pack_sort(c.f_old("_type"), Str.sort))], use=False)
frag_sel = Contract("Fragment::getSelection", TUF, FR + "::getSelection", post=lambda c: [("its selection set", c.res_val(Node) == c.M.pack_sort(c.f_old("_selection"), Node))], use=False)
frag_dirs = Contract("Fragment::getDirectives", TUF, FR + "::getDirectives", pre=lambda c: inv_of(c, "", c.M.pack_sort(c.f_old("_directives"), V.S)), post=lambda c: [("its directives", eqv(c.res_val(V.S), c.M.pack_sort(c.f_old("_directives"), V.S)))], use=False)


def FM(c, new): return c.M.pack_sort((c.f_new if new else c.f_old)("_fragments"), S.frags)


def fdv_post(c):
    o, w, fd = FM(c, False), FM(c, True), c.old[0]
    vars = VARS(c)
    th = map_theory_for(S.frags)
    nm = ntext(front(fd)); f = th.get_(w, nm)
    k = z3.Const("fdk", Str.sort)
    g = lambda x: L.rec_get(f, x)
    others = z3.ForAll([k], z3.And(th.has_(w, k) == z3.Or(k == nm, th.has_(o, k)), z3.Implies(z3.And(th.has_(o, k)), th.get_(w, k) == th.get_(o, k))), patterns=[th.has_(w, k), th.has_(o, k), th.get_(w, k)])
    return [("the fragment is known by its name", th.has_(w, nm)), ("the others stay as they were", others)] + \
           [("a new fragment: " + l, z3.Implies(z3.Not(th.has_(o, nm)), x)) for l, x in frag_is(vars, fd, g("_type"), g("_directives"), g("_selection"))] + \
           [("the fragments are fit for use", frags_ok(w))]


fdv_visit = Contract("FragmentDefinitionVisitor::visit", TUF, FDV + "::visit", setup=sel_setup_fn, pre=lambda c: frag_pre(c, c.old[0], VARS(c)) + [("the fragments so far are fit for use", frags_ok(FM(c, False)))],
                     post=fdv_post, exc=frag_exc(VARS), loops=[LoopSpec("children", None, in_fn("for_each_child"))], use=False)
fdv_get = Contract("FragmentDefinitionVisitor::getFragments", TUF, FDV + "::getFragments", setup=sel_start, post=lambda c: [("hands out exactly the fragments", c.res_val(S.frags) == FM(c, False))], use=False)
fragment_contracts = [frag_ctor, frag_type, frag_sel, frag_dirs, fdv_visit, fdv_get]
