"""Request::resolve: one document for exactly the operation that was asked for"""
from specs.request import *
from specs import request as RQ, subscriptions as SB

ODV = SV + "OperationDefinitionVisitor"
DEFERRED = z3.Const("launch_deferred", Launch)


def now(ex): return ex.val(ex.ghost["resolved"]), ex.val(ex.ghost["resolves"])


def e_start(c):
    r_start(c)
    e_axioms(c.ex)
    c.resolves0 = c.ex.val(c.ex.ghost["resolves"])


def e_axioms(ex):
    """why a request is answered with errors only"""
    if not hasattr(P, "REFUSED"):
        P.REFUSED = z3.Function("operation_is_refused", V.S, Node, Node, Bool)
        P.OBADV = z3.Function("operation_has_undefined_variable", V.S, Node, Bool)
        vs, m, w = z3.Const("efv", V.S), z3.Const("efm", Node), z3.Const("efw", V.S)
        P.rf_ax = [z3.ForAll([vs, m], z3.Implies(D.vundef(vs, m), P.OBADV(vs, m)), patterns=[P.OBADV(vs, m)]),
                   z3.ForAll([vs, m, w], z3.Implies(z3.And(P.BOUND(vs, w, m), dirs_undef(w, m)), P.OBADV(vs, m)), patterns=[z3.MultiPattern(P.OBADV(vs, m), P.BOUND(vs, w, m))])]
    for a in P.rf_ax: ex.assume(a)


# ------------------------------------------------------------------ one operation
class Oper:
    """what the visitor of an operation holds"""
    def __init__(self, c, new=False):
        g = c.f_new if new else c.f_old
        p = lambda f, s: c.M.pack_sort(g(f), s)
        self.ctx, self.launch, self.ops = p("_resolverContext", Int), p("_launch", Launch), p("_operations", Q.types)
        self.data = p("_params", Q.data)
        d = L.opt_val(self.data)
        self.vars, self.frags = L.rec_get(d, "variables"), L.rec_get(d, "fragments")
        self.result = p("_result", Fut)


def served(ops, t):
    ot = map_theory_for(Q.types)
    return z3.And(ot.has_(ops, t), z3.Not(is_null(ot.get_(ops, t))))


def ov_pre(c):
    o = Oper(c); n = c.old[1]
    return [("there is data", L.opt_is(o.data)), ("the values it holds satisfy the invariant", z3.And(V.wf_(o.vars), V.wf_(L.rec_get(L.opt_val(o.data), "directives"))))] + vars_ok(c, o.vars) + [("an operation of the grammar", z3.And(shape(n), is_op(n))), ("the fragments are those of the document", frags_ok(o.frags))]


def executed(r, ops, t, op, vars0, frags_is, ctx, launch):
    """the operation's own selection set was resolved, on the object of its type"""
    g = lambda f: L.rec_get(r, f)
    return [("the object of the operation's type", z3.And(served(ops, t), g("object") == map_theory_for(Q.types).get_(ops, t))), ("the operation's selection set", g("selection") == back(op)), ("in the operation's context", g("context") == ctx),
            ("with the document's fragments", frags_is(g("frags"))), ("with the operation's variables", z3.And(bound_to(vars0, g("vars"), op))), ("with the operation's directives", S.DIRS(g("vars"), g("odirs"), op)), ("with the launch policy", g("launch") == launch)]


def same_outcome(f, r):
    g = lambda x: L.rec_get(r, x)
    return [("a result when the object has one", z3.Implies(g("outcome") == OK_, z3.And(S.kind(f) == OK_, S.fut_res(f) == S.fut_res(g("future"))))), ("its errors when it fails", z3.Implies(g("outcome") != OK_, z3.And(S.kind(f) == ERRORS, S.fut_errs(f) == g("errors"))))]


def ov_facts(c, o, f):
    r, n = now(c.ex)
    return [("exactly one selection set is resolved", n == c.resolves0 + 1)] + executed(r, o.ops, c.old[0], c.old[1], o.vars, lambda x: x == o.frags, o.ctx, o.launch) + same_outcome(f, r)


def ov_why(c, o): return z3.Or(z3.Not(served(o.ops, c.old[0])), P.OBADV(o.vars, c.old[1]))


def ov_exc(c):
    o, w = Oper(c), Oper(c, True)
    for f in L.mention(P.BOUND(o.vars, w.vars, c.old[1])): c.ex.assume(f)
    return [("nothing is resolved", now(c.ex)[1] == c.resolves0), ("only for a reason in the request", ov_why(c, o)), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]


def ov_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    o = Oper(c)
    why = ov_why(c, o)
    if ex.choose(z3.And(ex.fresh("fails", Bool), why)): raise schema_error(ex)
    c.resolves0 = ex.val(ex.ghost["resolves"])
    ran(ex, c.resolves0)
    f = ex.fresh("answer", Fut)
    for l, g in ov_facts(c, o, f): ex.assume(g)
    ex.write(ex.deref(c.this).ext(("f", "_result")), f)
    ex.write(ex.deref(c.this).ext(("f", "_params")), ex.fresh("moved_params", Q.data))
    return VOID


def ran(ex, n0):
    r = ex.fresh("resolved", Q.res)
    ex.assume(z3.Or(L.rec_get(r, "outcome") == OK_, L.rec_get(r, "outcome") == ERRORS))
    ex.write(ex.ghost["resolved"], r); ex.write(ex.ghost["resolves"], n0 + 1)


op_visit = Contract("OperationDefinitionVisitor::visit", TUF, ODV + "::visit", setup=e_start, pre=ov_pre, post=lambda c: ov_facts(c, Oper(c), Oper(c, True).result), exc=ov_exc, call=ov_call)
op_value = Contract("OperationDefinitionVisitor::getValue", TUF, ODV + "::getValue", setup=p_start, post=lambda c: [("hands out exactly the result", c.res_val(Fut) == Oper(c).result)], use=False)


# ------------------------------------------------------------------ one request
class Asked:
    """a request: where its parts are among the arguments"""
    def __init__(self, c, at, launch, checked):
        self.c, self.checked = c, checked
        q = c.old[at]
        self.root = ast_of(c, q)[0] if checked else q
        self.name, self.vars = c.M.pack_sort(c.old[at + 1], Str.sort), c.M.pack_sort(c.old[at + 2], V.S)
        self.launch = DEFERRED if launch is None else c.M.pack_sort(c.old[launch], Launch)
        self.at = at
        self.ops = c.M.pack_sort(c.f_old("_operations"), Q.types)
        self.op = the_op(self.root, self.name)
        self.type = op_type(self.op)


def a_pre(a):
    out = doc_pre(a.c, a.c.old[a.at]) if a.checked else [("a document of the grammar", shape(a.root))]
    return out + vars_ok(a.c, a.vars) + [("the variables satisfy the invariant", V.wf_(a.vars))]


def a_facts(a, f):
    """what the answer to the request is"""
    ex = a.c.ex
    r, n = now(ex)
    g = lambda x: L.rec_get(r, x)
    ran_ = n == a.c.resolves0 + 1
    not_ = n == a.c.resolves0
    d = fut_val(V.S)(f); m = map_(d)
    mut, qry = a.type == strlit(b"mutation"), a.type == strlit(b"query")
    valid = E.errs.len_(P.verdict(a.root)) == 0
    ok = [valid] if a.checked else []
    frags_is = lambda x: P.FR(a.vars, a.root, nkids(a.root), x)
    ctx = z3.If(mut, context("Mutation"), context("Query"))
    out = [("a document, not an exception", S.kind(f) == OK_), ("one selection set is resolved, or none", z3.Or(ran_, not_))]
    out += [("only the selected operation of a valid document", z3.Implies(ran_, z3.And(ok + [found(a.root, a.name), a.type != strlit(b"subscription")])))]
    out += [("executed: " + l, z3.Implies(ran_, x)) for l, x in executed(r, a.ops, a.type, a.op, a.vars, frags_is, ctx, z3.If(mut, DEFERRED, a.launch))]
    out += [("the answer: " + l, z3.Implies(ran_, x)) for l, x in is_document(d, g("outcome"), S.fut_res(g("future")), g("errors"))]
    why = z3.Or(([z3.Not(valid)] if a.checked else []) + [z3.Not(found(a.root, a.name)), a.type == strlit(b"subscription"), z3.Not(served(a.ops, a.type)), P.OBADV(a.vars, a.op), P.FUND(a.vars, a.root)])
    out += [("only for a reason in the request", z3.Implies(not_, why)), ("refused: null data and errors", z3.Implies(not_, z3.And(tag_is(d, MAP), mlen(m) == 2, name_at(m, 0) == strlit(b"data"), tag_is(val_at(m, 0), NULL), name_at(m, 1) == strlit(b"errors"), a_list(val_at(m, 1)))))]
    if a.checked: out.append(("the errors of an invalid document", z3.Implies(z3.And(z3.Not(valid), z3.Not(P.FUND(a.vars, a.root))), z3.And(not_, rendered(val_at(m, 1), P.verdict(a.root))))))
    return out


def a_list(v):
    """rendered from some errors"""
    if not hasattr(Q, "a_list"): 
        Q.a_list = z3.Function("is_error_list", V.S, Bool)
        v_, e_ = z3.Const("alv", V.S), z3.Const("ale", E.errs.sort)
        rendered(v_, e_)
        Q.al_ax = [z3.ForAll([v_, e_], z3.Implies(Q.rendered(v_, e_), Q.a_list(v_)), patterns=[Q.rendered(v_, e_)])]
    return Q.a_list(v)


def a_post(a, f):
    out = a_facts(a, f)
    if a.checked:
        r1, ok1 = ast_of(a.c, a.c.new(a.at))
        out += [("the document stays", r1 == a.root), ("marked as valid only when it is", z3.Implies(ok1, E.errs.len_(P.verdict(a.root)) == 0))]
    return out


def a_start(c):
    e_start(c)
    a_list(EMPTY())
    for x in Q.al_ax: c.ex.assume(x)


def a_call(at, launch, checked):
    def call(c):
        ex = c.ex
        if ex.pure: raise NotPure()
        a = Asked(c, at, launch, checked)
        c.resolves0 = ex.val(ex.ghost["resolves"])
        f = ex.fresh("document", Fut)
        if ex.choose(ex.fresh("executes", Bool)): ran(ex, c.resolves0)
        if checked: ex.write(ex.deref(c.args[at]).ext(("f", "validated")), ex.fresh("validated", Bool))
        for l, g in a_post(a, f): ex.assume(g)
        return f
    return call


def request(label, qual, at, launch, checked, use):
    inv = lambda ctx: frags_inv(lambda c: Asked(c, at, launch, checked).root, lambda c: Asked(c, at, launch, checked).vars)(ctx)
    def pred(d, tu):
        ps = [qt(p) for p in children(d) if p["kind"] == "ParmVarDecl"]
        return len(ps) == at + 3 and ("ast_node" not in ps[at]) == checked
    return Contract(label, TUF, REQ + "::" + qual, pred=pred, setup=a_start, pre=lambda c: a_pre(Asked(c, at, launch, checked)), post=lambda c: a_post(Asked(c, at, launch, checked), c.res_val(Fut)), loops=[LoopSpec("fragments", inv, in_fn("for_each_child"))], call=a_call(at, launch, checked), use=use)


resolve = request("Request::resolve(launch)", "resolve", 2, 0, True, True)
resolve_now = request("Request::resolve", "resolve", 1, None, True, False)
unvalidated = request("Request::resolveUnvalidated", "resolveUnvalidated", 2, 0, False, True)
tree_launch = request("Request::resolve(launch, tree)", "resolve", 2, 0, False, False)
tree_now = request("Request::resolve(tree)", "resolve", 1, None, False, False)
find_tree = Contract("Request::findOperationDefinition(tree)", TUF, REQ + "::findOperationDefinition", pred=lambda d, tu: not is_ast(d, tu), setup=p_start, pre=lambda c: [("a document of the grammar", shape(c.old[0]))], post=op_post(URoot, UName), use=False)


def models(tu):
    m = RQ.models(tu)
    m.contracts = m.contracts + [op_visit, resolve, unvalidated]
    return m


contracts = [op_visit, op_value, resolve, resolve_now, unvalidated, tree_launch, tree_now, find_tree]
