"""Request: validation, the operation a request selects, the fragments of its document; registering a subscription"""
from specs.subscriptions import *
from specs import subscriptions as SB

SDV = SV + "SubscriptionDefinitionVisitor"
AST = "graphql::peg::ast"
AstInput = z3.DeclareSort("AstInput")
GETTERS = [("field", "field"), ("arguments", "args"), ("fieldDirectives", "fdirs"), ("callback", "cb"), ("selection", "sel"), ("data", "odata"), ("operationName", "opname")]


class P: pass


def p_setup():
    if hasattr(P, "verdict"): return
    P.verdict = z3.Function("validation_errors", Node, E.errs.sort)       # what the validator reports on a document (C13)
    P.first = z3.Function("selected_operation", Node, Str.sort, Int)        # index of the operation a name selects
    P.FSTEP = z3.Function("adds_fragment", V.S, S.frags, Node, S.frags, Bool)
    P.FR = z3.Function("fragments_of_first", V.S, Node, Int, S.frags, Bool)
    P.FUND = z3.Function("fragment_has_undefined_variable", V.S, Node, Bool)
    P.types = z3.Function("object_types", Obj, S.types)
    env = [V.S, S.frags, Obj]; st = [Str.sort, V.S, V.S]
    P.SS = z3.Function("subscribes_first", *(env + st + [Node, Int] + st + [Bool]))     # the first k selections of a set
    P.ONE = z3.Function("subscribes", *(env + st + [Node] + st + [Bool]))
    P.SBAD = z3.Function("cannot_subscribe", *(env + st + [Node, Bool]))                # a selection set with an error in it
    P.OBAD = z3.Function("is_rejected", *(env + st + [Node, Bool]))                     # a selection with an error in it


def op_type(n): return z3.If(has(n, "operation_type"), ntext(child(n, "operation_type")), strlit(b"query"))
def op_name(n): return z3.If(has(n, "operation_name"), ntext(child(n, "operation_name")), Str.empty)
def is_op(n): return is_(n, "operation_definition")
def selects(n, nm): return z3.And(is_op(n), z3.Or(Str.len_(nm) == 0, op_name(n) == nm))
def found(root, nm): return P.first(root, nm) < nkids(root)
def the_op(root, nm): return kid(root, P.first(root, nm))
def type_matches(obj, t): return z3.Or(is_null(obj), has_name(P.types(obj), t))


def p_axioms():
    if hasattr(P, "ax"): return P.ax
    root, n = z3.Consts("pr pn", Node); nm = z3.Const("pnm", Str.sort); i, j, k = z3.Ints("pi pj pk")
    F = P.first(root, nm)
    vs = z3.Const("pvs", V.S); fa, fb = z3.Consts("pfa pfb", S.frags); ob = z3.Const("pob", Obj)
    env = [vs, fa, ob]
    mk = lambda p: [z3.Const("p%s%d" % (p, q), s) for q, s in enumerate([Str.sort, V.S, V.S])]
    a, b, d = mk("a"), mk("b"), mk("d")
    noop = map_theory_for(S.frags).empty
    isf = lambda n: is_(n, "fragment_definition")
    SS = lambda x, n, k, y: P.SS(*(env + x + [n, k] + y))
    fr = FRAG(fa, ntext(front(n))); known = has_name(fa, ntext(front(n)))
    match = type_matches(ob, ftype(fr))
    applies_ = z3.Or(z3.Not(has(n, "type_condition")), type_matches(ob, ntext(front(child(n, "type_condition")))))
    exc, bad, und = S.EXC(vs, n), S.BAD(vs, n), dirs_undef(vs, n)
    same = z3.And([x == y for x, y in zip(a, d)])
    Fd, Sp, In = is_(n, "field"), is_(n, "fragment_spread"), is_(n, "inline_fragment")
    one = z3.And(
        z3.Implies(Fd, z3.And(Str.len_(a[0]) == 0, z3.Not(und), z3.Not(bad), z3.If(exc, same, z3.And(d[0] == field_name(n), D.args(vs, d[1], n), S.DIRS(vs, d[2], n), z3.Not(args_undef(vs, n)))))),
        z3.Implies(Sp, z3.And(known, z3.If(match, z3.And(z3.Not(und), z3.Not(bad), z3.If(exc, same, SS(a, fsel(fr), nkids(fsel(fr)), d))), same))),
        z3.Implies(In, z3.And(z3.Not(und), z3.Not(bad), z3.If(z3.And(z3.Not(exc), applies_), SS(a, child(n, "selection_set"), nkids(child(n, "selection_set")), d), same))))
    sbad = lambda m: P.SBAD(*(env + a + [m]))
    obad = z3.Or(z3.And(Fd, z3.Or(Str.len_(a[0]) != 0, und, bad, args_undef(vs, n))), z3.And(Sp, z3.Or(z3.Not(known), z3.And(match, z3.Or(und, bad, sbad(fsel(fr)))))),
                 z3.And(In, z3.Or(und, bad, z3.And(applies_, sbad(child(n, "selection_set"))))))
    P.ax = [
        z3.ForAll([root, nm], z3.And(0 <= F, F <= nkids(root), z3.Implies(F < nkids(root), selects(kid(root, F), nm))), patterns=[F]),
        z3.ForAll([root, nm, i], z3.Implies(z3.And(0 <= i, i < nkids(root), selects(kid(root, i), nm)), F <= i), patterns=[z3.MultiPattern(F, kid(root, i))]),
        z3.ForAll([vs, root], P.FR(vs, root, 0, noop), patterns=[P.FR(vs, root, z3.IntVal(0), noop)]),
        z3.ForAll([vs, root, fa, k], z3.Implies(z3.And(0 <= k, P.FR(vs, root, k, fa), z3.Not(isf(kid(root, k)))), P.FR(vs, root, k + 1, fa)), patterns=[z3.MultiPattern(P.FR(vs, root, k, fa), kid(root, k))]),
        z3.ForAll([vs, root, fa, fb, k], z3.Implies(z3.And(0 <= k, P.FR(vs, root, k, fa), isf(kid(root, k)), P.FSTEP(vs, fa, kid(root, k), fb)), P.FR(vs, root, k + 1, fb)), patterns=[z3.MultiPattern(P.FR(vs, root, k, fa), P.FSTEP(vs, fa, kid(root, k), fb))]),
        z3.ForAll([vs, root, i], z3.Implies(z3.And(0 <= i, i < nkids(root), isf(kid(root, i)), dirs_undef(vs, kid(root, i))), P.FUND(vs, root)), patterns=[z3.MultiPattern(P.FUND(vs, root), kid(root, i))]),
        z3.ForAll(env + a + [n], SS(a, n, z3.IntVal(0), a), patterns=[SS(a, n, z3.IntVal(0), a)]),
        z3.ForAll(env + a + b + d + [n, k, j], z3.Implies(z3.And(0 <= k, j == k + 1, SS(a, n, k, b), P.ONE(*(env + b + [kid(n, k)] + d))), SS(a, n, j, d)), patterns=[z3.MultiPattern(SS(a, n, k, b), SS(a, n, j, d))]),
        z3.ForAll(env + a + d + [n], P.ONE(*(env + a + [n] + d)) == one, patterns=[P.ONE(*(env + a + [n] + d))]),
        z3.ForAll(env + a + [n], P.OBAD(*(env + a + [n])) == obad, patterns=[P.OBAD(*(env + a + [n]))]),
        z3.ForAll(env + a + b + [n, k], z3.Implies(z3.And(0 <= k, k < nkids(n), SS(a, n, k, b), P.OBAD(*(env + b + [kid(n, k)]))), P.SBAD(*(env + a + [n]))), patterns=[z3.MultiPattern(SS(a, n, k, b), P.SBAD(*(env + a + [n])))]),
        z3.ForAll([n, i], z3.Not(null_node(kid(n, i))), patterns=[null_node(kid(n, i))]),
        # an operation ends with its selection set
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_op(n)), z3.And(nkids(n) >= 1, is_(back(n), "selection_set"), shape(back(n)))), patterns=[z3.MultiPattern(shape(n), ntype(n))]),
    ]
    return P.ax


class PM(QM):
    pointer_sorts = (Node,)

    def __init__(self):
        QM.__init__(self)
        self.opaque["std::shared_ptr<graphql::peg::ast_input>"] = AstInput; self.opaque["graphql::peg::ast_input"] = AstInput
        self.free_models = dict(self.free_models)
        mm = self.member_models = dict(self.member_models)
        CK = SV + "ValidateExecutableVisitor"
        for t in (REQ, "std::enable_shared_from_this"): mm[(t, "shared_from_this")] = self._self
        mm[(CK, "visit")] = self._check
        mm[(CK, "getStructuredErrors")] = self._errors
        for t in ("std::shared_ptr", "std::__shared_ptr"): mm[(t, "reset")] = self._reset

    def bind(self, ex):
        QM.bind(self, ex)
        p_setup()

    def sort_of(self, ct):
        if not ct.ptr and ct.name == "std::shared_ptr" and ct.args and ct.args[0].name == NODE: return Node
        if not ct.ptr and ct.name == "std::shared_ptr" and ct.args and ct.args[0].name == "graphql::peg::ast_input": return AstInput
        return QM.sort_of(self, ct)

    def pack_sort(self, v, sort):
        if isinstance(v, Ptr) and sort == Node: return nothing_of(self.ex) if v.loc is None else self.ex.val(v.loc)
        return QM.pack_sort(self, v, sort)

    def null_of(self, s):
        if s.eq(Node): return nothing_of(self.ex)
        if s.eq(Sub) or s.eq(AstInput): return self.ex.fresh("null", s)
        return QM.null_of(self, s)

    def default_of(self, ct, uninit=False):
        if not ct.ptr and ct.name == "std::shared_ptr":
            so = self.sort_of(ct)
            if so in (Node, Sub, AstInput): return self.null_of(so)
        return QM.default_of(self, ct, uninit)

    def moved(self, v):
        if z3.is_expr(v) and v.sort() in (Sub, Obj, AstInput, Resolver, St): return self.ex.fresh("moved", v.sort())
        return QM.moved(self, v)

    def _reset(self, ex, o, a, n):
        ex.write(o, ex.fresh("reset", ex.val(o).sort()))
        return VOID

    def call_free(self, ex, rd, n, args):
        if rd["name"] == "make_shared":
            t = parse(qt(n)).bare()
            if t.args and t.args[0].name == SDT:
                so = self.sort_of(CT(SDT))
                r = self.pack_sort(self.emplace_value(ex, t.args[0].bare(), args, so), so)
                s = ex.fresh("registration", Sub)
                for nm, fn in GETTERS: ex.assume(getattr(Q, fn)(s) == L.rec_get(r, nm))
                return s
        return QM.call_free(self, ex, rd, n, args)

    def _self(self, ex, o, a, n): return Ptr(ex.deref(o))

    def _check(self, ex, o, a, n):
        ex.ghost["checked"] = ex.alloc(ex.val(ex.eval(a[0])), "checked")
        return VOID

    def _errors(self, ex, o, a, n):
        if "checked" not in ex.ghost: return ex.fresh("errors", E.errs.sort)
        return P.verdict(ex.val(ex.ghost["checked"]))


def schema_error(ex): return CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": ex.fresh("errors", E.errs.sort)})))


def p_start(c):
    q_start(c)
    sel_axioms(c.ex)
    for a in p_axioms(): c.ex.assume(a)


# ------------------------------------------------------------------ validation
def ast_of(c, v): return c.M.pack_sort(c.field(v, "root"), Node), c.M.pack_sort(c.field(v, "validated"), Bool)


def doc_pre(c, v):
    root, ok = ast_of(c, v)
    return [("a document of the grammar", shape(root)), ("a document marked as valid was validated", z3.Implies(ok, E.errs.len_(P.verdict(root)) == 0))]


def val_post(c):
    root, _ = ast_of(c, c.old[0])
    r1, ok1 = ast_of(c, c.new(0))
    v = P.verdict(root)
    return [("exactly the errors of the document", L.eqgoal(c.res_val(E.errs.sort), v)), ("marked as valid exactly when there are none", ok1 == (E.errs.len_(v) == 0)), ("the document stays", r1 == root)]


def val_call(c):
    if c.ex.pure: raise NotPure()
    v = P.verdict(ast_of(c, c.old[0])[0])
    c.ex.write(c.ex.deref(c.args[0]).ext(("f", "validated")), E.errs.len_(v) == 0)
    return v


validate = Contract("Request::validate", TUF, REQ + "::validate", setup=p_start, pre=lambda c: doc_pre(c, c.old[0]), post=val_post, call=val_call)


# ------------------------------------------------------------------ the operation that is meant
def first_inv(root, nm):
    def inv(ctx):
        ex, k = ctx.ex, ctx.k
        c = ex.callctx
        s = ctx.seq()
        if s is None or s.sort() != KS.sort: return []
        roots = {r for r, _ in ctx.mods}
        out = [("no operation so far is the selected one", P.first(root(c), nm(c)) >= k)]
        for l in ctx.all_locals(lambda t, d: t.name == "std::pair"):
            if l.root in roots: out.append(("nothing was found yet", L.eqgoal(c.M.pack_sort(ex.val(l), P.pair(c)), c.M.pack_sort(ctx.old(l), P.pair(c)))))
        return out
    return inv


P.pair = lambda c: c.M.sort_of(parse("std::pair<std::string, const graphql::peg::ast_node *>"))


def op_post(root, nm):
    def post(c):
        v = c.ex.val(c.res)
        t, n = c.M.pack_sort(c.field(v, "first"), Str.sort), c.field(v, "second")
        n = nothing(c) if isinstance(n, Ptr) and n.loc is None else c.M.pack_sort(c.ex.val(n.loc) if isinstance(n, Ptr) else n, Node)
        r, x = root(c), nm(c)
        return [("nothing exactly when no operation is selected", null_node(n) == z3.Not(found(r, x))), ("the selected operation", z3.Implies(found(r, x), n == the_op(r, x))), ("its type", z3.Implies(found(r, x), t == op_type(the_op(r, x))))]
    return post


def nothing(c): return nothing_of(c.ex)
def nothing_of(ex):
    n = z3.Const("no_node", Node)
    ex.assume(null_node(n))
    return n


def op_result(c, r, x):
    t, n = c.ex.fresh("optype", Str.sort), c.ex.fresh("op", Node)
    c.ex.assume(null_node(n) == z3.Not(found(r, x)))
    c.ex.assume(z3.Implies(found(r, x), z3.And(n == the_op(r, x), t == op_type(n))))
    c.ex.assume(z3.Implies(z3.Not(found(r, x)), t == Str.empty))
    return StructV(CT("std::pair"), {"first": t, "second": n})


def fop_call(c):
    root = ast_of(c, c.old[0])[0]
    v = P.verdict(root)
    if c.ex.pure: raise NotPure()
    c.ex.write(c.ex.deref(c.args[0]).ext(("f", "validated")), E.errs.len_(v) == 0)
    if c.ex.choose(E.errs.len_(v) != 0): raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": v})))
    return op_result(c, root, c.old[1])


def fop_exc(c):
    v = P.verdict(ast_of(c, c.old[0])[0])
    ev = c.exc.val if c.exc is not None else None
    out = [("only an invalid document is refused", E.errs.len_(v) != 0), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]
    if isinstance(ev, StructV) and "_structuredErrors" in ev.f: out.append(("with the errors of the document", L.eqgoal(c.M.pack_sort(ev.f["_structuredErrors"], E.errs.sort), v)))
    return out


ARoot, AName = lambda c: ast_of(c, c.old[0])[0], lambda c: c.old[1]
is_ast = lambda d, tu: "peg::ast &" in [qt(p) for p in children(d) if p["kind"] == "ParmVarDecl"][0]
find_op = Contract("Request::findOperationDefinition", TUF, REQ + "::findOperationDefinition", pred=is_ast, setup=p_start, pre=lambda c: doc_pre(c, c.old[0]), post=lambda c: [("only a valid document is searched", E.errs.len_(P.verdict(ARoot(c))) == 0)] + op_post(ARoot, AName)(c),
                   exc=fop_exc, call=fop_call, loops=[LoopSpec("operations", first_inv(ARoot, AName), in_fn("on_first_child_if"))])
URoot, UName = lambda c: c.old[0], lambda c: c.old[1]
find_un = Contract("Request::findUnvalidatedOperationDefinition", TUF, REQ + "::findUnvalidatedOperationDefinition", setup=p_start, pre=lambda c: [("a document of the grammar", shape(c.old[0]))], post=op_post(URoot, UName),
                   call=lambda c: op_result(c, c.old[0], c.old[1]), loops=[LoopSpec("operations", first_inv(URoot, UName), in_fn("on_first_child_if"))])


# ------------------------------------------------------------------ contracts of C07/C08 used here
def fdv_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    vars = VARS(c)
    if ex.choose(dirs_undef(vars, c.old[0])): raise schema_error(ex)
    o = FM(c, False); w = ex.fresh("frags", S.frags)
    ex.assume(P.FSTEP(vars, o, c.old[0], w)); ex.assume(frags_ok(w))
    ex.write(ex.deref(c.this).ext(("f", "_fragments")), w)
    return VOID


fdv_used = Contract("FragmentDefinitionVisitor::visit", TUF, FDV + "::visit", pre=lambda c: frag_pre(c, c.old[0], VARS(c)) + [("the fragments so far are fit for use", frags_ok(FM(c, False)))], call=fdv_call)
matches_used = Contract("Object::matchesType", TUF, OBJ + "::matchesType", pre=lambda c: [("there is an object", z3.Not(is_null(c.M.pack_sort(c.this_old, Obj))))], call=lambda c: has_name(P.types(c.M.pack_sort(c.this_old, Obj)), c.old[0]))
def frags_inv(root, vars):
    """the fragments of the first k definitions are known"""
    def inv(ctx):
        ex, k = ctx.ex, ctx.k
        c = ex.callctx
        s = ctx.seq()
        if s is None or s.sort() != KS.sort: return []
        out = []
        for l in ctx.all_locals(lambda t, d: t.name == FDV):
            f = c.M.pack_sort(c.field(ex.val(l), "_fragments"), S.frags)
            out += [("the fragments so far", P.FR(vars(c), root(c), k, f)), ("are fit for use", frags_ok(f))]
        return out
    return inv


# ------------------------------------------------------------------ which field a subscription is for
class SubView:
    def __init__(self, c, new):
        g = c.f_new if new else c.f_old
        p = lambda f, s: c.M.pack_sort(g(f), s)
        pv = lambda f, s: c.M.pack_sort(g("_params", f), s)
        self.frags, self.obj = p("_fragments", S.frags), p("_subscriptionObject", Obj)
        self.vars = pv("variables", V.S); self.opname = pv("operationName", Str.sort); self.root = c.M.pack_sort(g("_params", "query", "root"), Node)
        self.cb = p("_callback", Resolver)
        self.st = [p("_field", Str.sort), p("_arguments", V.S), p("_fieldDirectives", V.S)]
        self.result = p("_result", Sub)
    @property
    def env(self): return [self.vars, self.frags, self.obj]


def sv_pre(c):
    o, n = SubView(c, False), c.old[0]
    return vars_ok(c, o.vars) + [("a selection set of the grammar", z3.And(shape(n), is_(n, "selection_set"))), ("the fragments are those of the document", frags_ok(o.frags)), ("what was found satisfies the invariant", state_ok(o))]


def state_ok(v): return z3.And([V.wf_(x) for x in v.st[1:]] + [z3.Implies(Str.len_(v.st[0]) != 0, z3.And(tag_is(v.st[1], MAP), tag_is(v.st[2], MAP)))])


def frame(o, w): return z3.And([x == y for x, y in zip(o.env, w.env)] + [o.opname == w.opname, o.root == w.root, o.cb == w.cb])


def sv_post(c):
    o, w, n = SubView(c, False), SubView(c, True), c.old[0]
    return [("exactly what the selections ask for", P.SS(*(o.env + o.st + [n, nkids(n)] + w.st))), ("what was found satisfies the invariant", state_ok(w)), ("the request stays", frame(o, w))]


def sv_exc(c):
    o, n = SubView(c, False), c.old[0]
    return [("only for a reason in the request", P.SBAD(*(o.env + o.st + [n]))), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]


def sv_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    o, n = SubView(c, False), c.old[0]
    if ex.choose(z3.And(ex.fresh("fails", Bool), P.SBAD(*(o.env + o.st + [n])))): raise schema_error(ex)
    t = ex.deref(c.this)
    st = [ex.fresh("field", Str.sort), ex.fresh("args", V.S), ex.fresh("fdirs", V.S)]
    for f, x in zip(("_field", "_arguments", "_fieldDirectives"), st): ex.write(t.ext(("f", f)), x)
    ex.assume(P.SS(*(o.env + o.st + [n, nkids(n)] + st)))
    ex.assume(state_ok(SubView(c, True)))
    return VOID


def sv_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    n = seq_node(ctx)
    if n is None: return []
    o, w = SubView(c, False), SubView(c, True)
    if n.eq(c.old[0]):
        return [("the first selections are done", P.SS(*(o.env + o.st + [n, k] + w.st))), ("what was found satisfies the invariant", state_ok(w)), ("the request stays", frame(o, w))]
    if ex.entails(is_(n, "arguments")): return args_inv(ctx, o.vars, n)
    return []


sub_sel = Contract("SubscriptionDefinitionVisitor::visitSelectionSet", TUF, SDV + "::visitSelectionSet", setup=p_start, pre=sv_pre, post=sv_post, exc=sv_exc, call=sv_call, loops=[LoopSpec("selections", sv_inv, own)])


# ------------------------------------------------------------------ a registration
def bound_to(vars, v, n): return [tag_is(v, MAP)] + [f for _, f in bound_upto(vars, map_(v), n, nkids(n))]


def registered(s, op, vars0, frags, obj, cb, opname):
    """the registration of that operation of that request"""
    d = L.opt_val(Q.odata(s))
    g = lambda f: L.rec_get(d, f)
    vs = g("variables")
    sel = back(op)
    return [("its own selection set", Q.sel(s) == sel), ("the request's callback and name", z3.And(Q.cb(s) == cb, Q.opname(s) == opname)), ("it has data", L.opt_is(Q.odata(s))), ("the document's fragments", g("fragments") == frags),
            ("the operation's variables", z3.And(bound_to(vars0, vs, op))), ("the operation's directives", S.DIRS(vs, g("directives"), op)),
            ("the field, arguments and directives the operation asks for", P.SS(*([vs, frags, obj, Str.empty, EMPTY(), EMPTY(), sel, nkids(sel)] + [Q.field(s), Q.args(s), Q.fdirs(s)])))]


def EMPTY():
    """what a default-constructed value holds"""
    if not hasattr(P, "nothing"): P.nothing = z3.Const("value_by_default", V.S)
    return P.nothing


def by_default(): 
    """there is one null value"""
    x = z3.Const("bdx", V.S)
    return [tag_is(EMPTY(), NULL), V.wf_(EMPTY()), z3.ForAll([x], z3.Implies(tag_is(x, NULL), x == EMPTY()), patterns=[V.wf_(x)])]


def rv_pre(c):
    o, n = SubView(c, False), c.old[0]
    return vars_ok(c, o.vars) + [("an operation of the grammar", z3.And(shape(n), is_op(n))), ("the fragments are those of the document", frags_ok(o.frags)),
                                 ("nothing was found yet", z3.And(Str.len_(o.st[0]) == 0, V.wf_(o.st[1]), V.wf_(o.st[2]), tag_is(o.st[1], NULL), tag_is(o.st[2], NULL)))]


def rv_post(c):
    o, w, n = SubView(c, False), SubView(c, True), c.old[0]
    return registered(w.result, n, o.vars, o.frags, o.obj, o.cb, o.opname) + [("the registration is complete", sub_ok(w.result))]


def rv_bad(vars, frags, obj, n):
    """why an operation cannot be subscribed to"""
    v = z3.Const("rvb", V.S)
    if not hasattr(P, "RBAD"):
        P.RBAD = z3.Function("is_not_subscribable", V.S, S.frags, Obj, Node, Bool)
        vs, f, ob, m = z3.Const("rbv", V.S), z3.Const("rbf", S.frags), z3.Const("rbo", Obj), z3.Const("rbn", Node)
        w = z3.Const("rbw", V.S)
        P.BOUND = z3.Function("operation_variables", V.S, V.S, Node, Bool)
        P.rb_ax = [z3.ForAll([vs, f, ob, m], z3.Implies(D.vundef(vs, m), P.RBAD(vs, f, ob, m)), patterns=[P.RBAD(vs, f, ob, m)]),
                   z3.ForAll([vs, f, ob, m, w], z3.Implies(z3.And(P.BOUND(vs, w, m), z3.Or(P.SBAD(w, f, ob, Str.empty, EMPTY(), EMPTY(), back(m)), dirs_undef(w, m))), P.RBAD(vs, f, ob, m)), patterns=[z3.MultiPattern(P.RBAD(vs, f, ob, m), P.BOUND(vs, w, m))]),
                   z3.ForAll([vs, w, m], P.BOUND(vs, w, m) == z3.And(bound_to(vs, w, m)), patterns=[P.BOUND(vs, w, m)])]
    return P.RBAD(vars, frags, obj, n)


def rv_exc(c):
    o, w, n = SubView(c, False), SubView(c, True), c.old[0]
    bad = rv_bad(o.vars, o.frags, o.obj, n)
    for f in L.mention(P.BOUND(o.vars, w.vars, n)): c.ex.assume(f)
    return [("only for a reason in the request", bad), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]


def rv_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    o, n = SubView(c, False), c.old[0]
    if ex.choose(z3.And(ex.fresh("fails", Bool), rv_bad(o.vars, o.frags, o.obj, n))): raise schema_error(ex)
    s = ex.fresh("registration", Sub)
    t = ex.deref(c.this)
    for l, f in registered(s, n, o.vars, o.frags, o.obj, o.cb, o.opname): ex.assume(f)
    ex.assume(sub_ok(s))
    ex.write(t.ext(("f", "_result")), s)
    return VOID


def r_start(c):
    p_start(c)
    rv_bad(EMPTY(), map_theory_for(S.frags).empty, z3.Const("rv0", Obj), z3.Const("rv1", Node))
    for a in P.rb_ax: c.ex.assume(a)
    for a in by_default(): c.ex.assume(a)


sub_visit = Contract("SubscriptionDefinitionVisitor::visit", TUF, SDV + "::visit", setup=r_start, pre=rv_pre, post=rv_post, exc=rv_exc, call=rv_call)
sub_get = Contract("SubscriptionDefinitionVisitor::getRegistration", TUF, SDV + "::getRegistration", setup=p_start, post=lambda c: [("hands out exactly the registration", c.res_val(Sub) == SubView(c, False).result)], use=False)


# ------------------------------------------------------------------ subscribing
def why_not(c, root, nm, vars, ob):
    """why a request cannot be subscribed to"""
    op = the_op(root, nm)
    if not hasattr(P, "NOSUB"):
        P.NOSUB = z3.Function("subscription_is_rejected", V.S, Node, Obj, Node, Bool)
        vs, r, o, m, f = z3.Const("nsv", V.S), z3.Const("nsr", Node), z3.Const("nso", Obj), z3.Const("nsm", Node), z3.Const("nsf", S.frags)
        P.ns_ax = [z3.ForAll([vs, r, o, m, f], z3.Implies(z3.And(P.FR(vs, r, nkids(r), f), P.RBAD(vs, f, o, m)), P.NOSUB(vs, r, o, m)), patterns=[z3.MultiPattern(P.NOSUB(vs, r, o, m), P.RBAD(vs, f, o, m))])]
    for a in P.ns_ax: c.ex.assume(a)
    return z3.Or(E.errs.len_(P.verdict(root)) != 0, z3.Not(found(root, nm)), op_type(op) != strlit(b"subscription"), P.FUND(vars, root), P.NOSUB(vars, root, ob, op))


class Wanted:
    """what is asked to be subscribed to"""
    def __init__(self, c):
        v = c.old[0]
        p = lambda s, *f: c.M.pack_sort(c.field(v, *f), s)
        self.query = c.field(v, "query")
        self.root, self.name, self.vars = p(Node, "query", "root"), p(Str.sort, "operationName"), p(V.S, "variables")
        self.cb = c.M.pack_sort(c.old[1], Resolver)
        ot = map_theory_for(Q.types)
        ops = Reg(c, False).ops
        sub = strlit(b"subscription")
        self.served, self.obj = ot.has_(ops, sub), ot.get_(ops, sub)
        self.op = the_op(self.root, self.name)


LAST = (1 << 64) - 1


def s_pre(c):
    w = Wanted(c); r = Reg(c, False)
    return reg_ok(r) + vars_ok(c, w.vars) + doc_pre(c, w.query) + [("there is a key left", z3.And(0 <= r.next, r.next < LAST))]


def s_state(c, key):
    """what subscribing leaves"""
    w = Wanted(c); o, n = Reg(c, False), Reg(c, True)
    st = map_theory_for(Q.subs)
    k = z3.Int("sk")
    s = st.get_(n.subs, key)
    fr = L.rec_get(L.opt_val(Q.odata(s)), "fragments")
    out = [("the key was not in use", z3.Not(st.has_(o.subs, key))), ("the subscription is there", st.has_(n.subs, key)),
           ("every other one stays as it was", z3.ForAll([k], z3.Implies(k != key, z3.And(st.has_(n.subs, k) == st.has_(o.subs, k), z3.Implies(st.has_(o.subs, k), st.get_(n.subs, k) == st.get_(o.subs, k)))), patterns=[st.has_(n.subs, k), st.has_(o.subs, k)])),
           ("the document is valid and the operation a subscription", z3.And(E.errs.len_(P.verdict(w.root)) == 0, found(w.root, w.name), op_type(w.op) == strlit(b"subscription"))),
           ("with the fragments of the document", P.FR(w.vars, w.root, nkids(w.root), fr)), ("the operation's key is the next one", z3.And(key == o.next, n.next == key + 1))]
    return out + registered(s, w.op, w.vars, fr, w.obj, w.cb, w.name) + reg_ok(n)


def s_exc(c):
    w = Wanted(c); o, n = Reg(c, False), Reg(c, True)
    why = z3.Or(z3.Not(w.served), why_not(c, w.root, w.name, w.vars, w.obj))
    return [("nothing is subscribed", z3.And(n.subs == o.subs, n.lists == o.lists, n.next == o.next)), ("only for a reason in the request", why), ("the error is a schema_exception when subscriptions are served", z3.Or(z3.BoolVal(is_schema_exc(c.exc)), z3.Not(w.served)))]


def s_start(c):
    r_start(c)
    root = z3.Const("ss0", Node)
    why_not(c, root, Str.empty, EMPTY(), z3.Const("ss1", Obj))


def s_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    if ex.choose(ex.fresh("fails", Bool)):
        ex.assume(z3.Or(z3.Not(Wanted(c).served), why_not(c, *(lambda w: (w.root, w.name, w.vars, w.obj))(Wanted(c)))))
        raise schema_error(ex)
    key = ex.fresh("key", Int)
    t = ex.deref(c.this)
    for f, so in (("_subscriptions", Q.subs), ("_listeners", Q.lists), ("_nextKey", Int)): ex.write(t.ext(("f", f)), ex.fresh(f, so))
    for l, f in s_state(c, key): ex.assume(f)
    return key


def s_inv(ctx):
    c = ctx.ex.callctx
    return frags_inv(lambda c: Wanted(c).root, lambda c: Wanted(c).vars)(ctx)


is_sync = lambda d, tu: "launch" not in "".join(qt(p) for p in children(d) if p["kind"] == "ParmVarDecl")
subscribe = Contract("Request::subscribe", TUF, REQ + "::subscribe", pred=is_sync, setup=s_start, pre=s_pre, post=lambda c: s_state(c, c.res_val(Int)), exc=s_exc, call=s_call, loops=[LoopSpec("fragments", s_inv, in_fn("for_each_child"))])


# ------------------------------------------------------------------ the asynchronous overloads
def unchanged(c):
    o, n = Reg(c, False), Reg(c, True)
    st = map_theory_for(Q.subs)
    k = z3.Int("ck")
    return z3.ForAll([k], z3.And(st.has_(n.subs, k) == st.has_(o.subs, k), z3.Implies(st.has_(o.subs, k), st.get_(n.subs, k) == st.get_(o.subs, k))), patterns=[st.has_(n.subs, k), st.has_(o.subs, k)])


def notified(c, s, obj, how, ok):
    """the default object, if there is one, hears about the subscription exactly once"""
    ex = c.ex
    r = ex.val(ex.ghost["resolved"]); g = lambda f: L.rec_get(r, f)
    n = ex.val(ex.ghost["resolves"])
    d = L.opt_val(Q.odata(s))
    return [("the default object is notified once, if there is one", z3.Implies(ok, n == z3.If(is_null(obj), 0, 1))),
            ("of this subscription", z3.Implies(z3.And(ok, z3.Not(is_null(obj))), z3.And(g("object") == obj, g("context") == context(how), g("selection") == Q.sel(s), g("frags") == L.rec_get(d, "fragments"), same_value(g("vars"), L.rec_get(d, "variables")), same_value(g("odirs"), L.rec_get(d, "directives")))))]


def shifted(c, k):
    """the same request without the launch policy"""
    d = CallCtxView(c)
    d.old = c.old[k:]
    return d


class CallCtxView:
    def __init__(self, c): self.__dict__.update(c.__dict__); self._c = c
    def __getattr__(self, n): return getattr(self._c, n)


def as_post(c):
    d = shifted(c, 1)
    f = c.res_val(Fut)
    ok = S.kind(f) == OK_
    key = fut_val(Int)(f)
    w = Wanted(d)
    s = map_theory_for(Q.subs).get_(Reg(c, True).subs, key)
    return [("when it succeeds, " + l, z3.Implies(ok, x)) for l, x in s_state(d, key)] + [("when it fails, every subscription stays as it was", z3.Implies(z3.Not(ok), unchanged(c)))] + reg_ok(Reg(c, True)) + notified(c, s, w.obj, "NotifySubscribe", ok)


is_async = lambda d, tu: not is_sync(d, tu)
subscribe_async = Contract("Request::subscribe(launch)", TUF, REQ + "::subscribe", pred=is_async, setup=s_start, pre=lambda c: s_pre(shifted(c, 1)) + [("subscriptions are served", Wanted(shifted(c, 1)).served), ("the variables satisfy the invariant", V.wf_(Wanted(shifted(c, 1)).vars))], post=as_post, use=False)


def au_pre(c): return reg_ok(Reg(c, False))


def au_post(c):
    o, n = Reg(c, False), Reg(c, True)
    st, ot = map_theory_for(Q.subs), map_theory_for(Q.types)
    f = c.res_val(Fut); ok = S.kind(f) == OK_
    key = c.old[1]
    k = z3.Int("auk")
    sub = strlit(b"subscription")
    others = z3.ForAll([k], z3.Implies(k != key, z3.And(st.has_(n.subs, k) == st.has_(o.subs, k), z3.Implies(st.has_(o.subs, k), st.get_(n.subs, k) == st.get_(o.subs, k)))), patterns=[st.has_(n.subs, k), st.has_(o.subs, k)])
    return [("when it succeeds, the subscription is gone", z3.Implies(ok, z3.Not(st.has_(n.subs, key)))), ("every other one stays as it was", others), ("when it fails, every subscription stays as it was", z3.Implies(z3.Not(ok), unchanged(c)))] + reg_ok(n) + \
        notified(c, st.get_(o.subs, key), z3.If(ot.has_(o.ops, sub), ot.get_(o.ops, sub), NOOBJ()), "NotifyUnsubscribe", ok)


def NOOBJ():
    if not hasattr(P, "noobj"): P.noobj = z3.Const("no_object", Obj)
    return P.noobj


def au_start(c):
    s_start(c)
    c.ex.assume(is_null(NOOBJ()))


unsubscribe_async = Contract("Request::unsubscribe(launch)", TUF, REQ + "::unsubscribe", pred=is_async, setup=au_start, pre=au_pre, post=au_post, use=False)


def models(tu):
    m = PM()
    m.contracts = [validate, find_op, find_un, fdv_used, matches_used, sub_sel, sub_visit, subscribe, deliver, unsubscribe, resolve_used, build_used, errors_used, visit, op_vars, dvisit, should_skip] + list(W.contracts) + W.base64
    return m


contracts = [validate, find_op, find_un, sub_sel, sub_visit, sub_get, subscribe, subscribe_async, unsubscribe_async]
