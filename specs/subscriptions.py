"""Request: the subscriptions it holds, and which of them an event reaches"""
from specs.results import *
from specs import results as RS, selection as SE, visitors as VS, nodes as N, errors as X
from specs.selection import S, SM, Fut, Resolver, St, Launch
from specs.visitors import *
from specs.errors import E
from cppcv.models import map_theory_for, map_of, MapIter, Int
from cppcv.contract import Contract

REQ = SV + "Request"
SDT = SV + "SubscriptionData"
ODT = SV + "OperationData"
Checker = z3.DeclareSort("Validation")
Sub = z3.DeclareSort("Subscription")      # one registration (std::shared_ptr<SubscriptionData>)


class Q: pass


def q_setup(m):
    if hasattr(Q, "subs"): return
    Q.subs = m.sort_of(parse("graphql::internal::sorted_map<unsigned long, std::shared_ptr<%s>>" % SDT))
    Q.keys = m.sort_of(parse("graphql::internal::sorted_set<unsigned long>"))
    Q.lists = m.sort_of(parse("graphql::internal::sorted_map<std::string, graphql::internal::sorted_set<unsigned long>>"))
    Q.types = m.sort_of(parse("graphql::internal::sorted_map<std::string_view, std::shared_ptr<%s>, graphql::internal::shorter_or_less>" % OBJ))
    Q.data = m.sort_of(parse("std::shared_ptr<%s>" % ODT))
    f = lambda nm, *s: z3.Function("registration_" + nm, Sub, *s)
    Q.field, Q.args, Q.fdirs, Q.cb, Q.sel, Q.odata, Q.opname = f("field", Str.sort), f("arguments", V.S), f("directives", V.S), f("callback", Resolver), f("selection", Node), f("data", Q.data), f("name", Str.sort)
    Q.accepts = z3.Function("filter_accepts", Resolver, Str.sort, V.S, Bool)      # a filter is a function of the argument
    Q.all = z3.Function("filter_accepts_all", Resolver, V.S, Bool)
    Q.wit = z3.Function("rejected_at", Resolver, V.S, Int)
    Q.log = L.seq_of(Sub)                     # callbacks called, in order
    Q.futs = L.seq_of(Fut)
    Q.DEL = z3.Function("delivered_first", Q.keys, Q.subs, Resolver, Resolver, Q.log.sort, Int, Q.log.sort)
    # the last time a subscription object was resolved
    Q.res = L.record("ObjectResolve", [("object", Obj), ("context", Int), ("odirs", V.S), ("selection", Node), ("frags", S.frags), ("vars", V.S), ("launch", Launch), ("outcome", Int), ("future", Fut), ("errors", E.errs.sort)])


def q_axioms():
    if hasattr(Q, "ax"): return Q.ax
    f, g = z3.Consts("qf qg", Resolver); v = z3.Const("qv", V.S); i = z3.Int("qi")
    m = map_(v)
    ks = z3.Const("qks", Q.keys); su = z3.Const("qsu", Q.subs); l0 = z3.Const("ql0", Q.log.sort); k = z3.Int("qk")
    kt, st = map_theory_for(Q.keys), map_theory_for(Q.subs)
    d = lambda k: Q.DEL(ks, su, f, g, l0, k)
    s = st.get_(su, kt.keys.at_(kt.keys_(ks), k))
    w = Q.wit(f, v)
    Q.ax = [z3.ForAll([f, v, i], z3.Implies(z3.And(Q.all(f, v), 0 <= i, i < mlen(m)), Q.accepts(f, name_at(m, i), val_at(m, i))), patterns=[z3.MultiPattern(Q.all(f, v), TH(m).at_(m, i))]),
            z3.ForAll([f, v], z3.Implies(z3.Not(Q.all(f, v)), z3.And(0 <= w, w < mlen(m), z3.Not(Q.accepts(f, name_at(m, w), val_at(m, w))))), patterns=[Q.all(f, v)]),
            z3.ForAll([ks, su, f, g, l0], d(0) == l0, patterns=[d(0)]),
            z3.ForAll([ks, su, f, g, l0, k], z3.Implies(0 <= k, d(k + 1) == z3.If(matched(s, f, g), Q.log.push_(d(k), s), d(k))), patterns=[z3.MultiPattern(d(k), kt.keys.at_(kt.keys_(ks), k))])]
    return Q.ax


def matched(s, f, g): return z3.And(Q.all(f, Q.args(s)), Q.all(g, Q.fdirs(s)))


class QM(RM):
    def __init__(self):
        RM.__init__(self)
        self.opaque["std::shared_ptr<%s>" % SDT] = Sub
        self.opaque[OBJ] = Obj; self.opaque[SV + "ValidateExecutableVisitor"] = Checker
        fm = self.field_models = dict(self.field_models)
        for nm, fn in (("field", "field"), ("arguments", "args"), ("fieldDirectives", "fdirs"), ("callback", "cb"), ("selection", "sel"), ("data", "odata"), ("operationName", "opname")):
            fm[(SDT, nm)] = (lambda fn: lambda ex, loc, n: ex.alloc(getattr(Q, fn)(ex.val(loc)), "registered"))(fn)
        self.ctor_models = dict(self.ctor_models)
        self.ctor_models["std::future"] = lambda ex, ct, node, args: ex.fresh("empty", Fut) if not args else None

    def bind(self, ex):
        RM.bind(self, ex)
        q_setup(self)

    def sort_of(self, ct):
        if not ct.ptr and ct.name == "std::shared_ptr" and ct.args and ct.args[0].name == SDT: return Sub
        if not ct.ptr and ct.name == "std::unique_ptr" and ct.args and ct.args[0].name == SV + "ValidateExecutableVisitor": return Checker
        return RM.sort_of(self, ct)

    def truth(self, v):
        if z3.is_expr(v) and v.sort() == Sub: return z3.BoolVal(True)
        return RM.truth(self, v)

    def pack_sort(self, v, sort):
        if isinstance(v, Closure) and sort == Resolver: return self.filter_of(v)
        return RM.pack_sort(self, v, sort)

    def filter_of(self, cl):
        """a lambda used as a filter: what it accepts, from its own text"""
        ex = self.ex
        f = ex.fresh("filter", Resolver)
        x, v = ex.fresh("nm", Str.sort), ex.fresh("arg", V.S)
        p = ex.alloc(StructV(CT("std::pair"), {"first": x, "second": RefV(ex.alloc(v, "arg"))}), "required")
        b = self.pred_formula(ex, cl, [p])
        ex.assume(z3.ForAll([x, v], Q.accepts(f, x, v) == b, patterns=[Q.accepts(f, x, v)]))
        return f

    def apply_opaque(self, ex, f, args, n):
        if z3.is_expr(f) and f.sort() == Resolver:
            a = ex.val(args[0])
            if z3.is_expr(a) and a.sort() == Fut: return self.called(ex, f, a)
            if z3.is_expr(a) and L.rec_fields(a.sort()) == ["first", "second"]: return Q.accepts(f, L.rec_get(a, "first"), L.rec_get(a, "second"))
            if isinstance(a, StructV) and set(a.f) == {"first", "second"}: return Q.accepts(f, self.pack_sort(ex.val(a.f["first"]), Str.sort), self.pack_sort(ex.val(a.f["second"]), V.S))
        return RM.apply_opaque(self, ex, f, args, n)

    def called(self, ex, f, doc):
        """a subscription's callback is called with a document; it returns (callbacks do not throw)"""
        if ex.pure: raise NotPure()
        if not (z3.is_app(f) and f.decl().eq(Q.cb)): raise Unsupported("a callback of no registration")
        s = f.arg(0)
        l = ex.ghost["delivered"]
        ex.write(l, Q.log.push(ex.val(l), s))
        for lab, g in document_of(ex, s, doc): ex.check("%s: the callback gets the event's document: %s" % (ex.contract.name, lab), g)
        return VOID

    def _get(self, ex, o, a, n):
        t = self.future_type(ex, n)
        if t.name != "void": return RM._get(self, ex, o, a, n)
        if ex.pure: raise NotPure()
        f = ex.val(o)
        if "awaited" in ex.ghost: ex.write(ex.ghost["awaited"], Q.futs.push(ex.val(ex.ghost["awaited"]), f))
        if ex.choose(S.kind(f) == OK_): return VOID
        raise CppThrow(ExcV(CT("std::exception"), None, ex.fresh("what", Str.sort)))

    def future_type(self, ex, n):
        m = children(n)[0]
        while m["kind"] != "MemberExpr": m = children(m)[0]
        return parse(qt(children(m)[0])).bare().args[0]

    def yields(self, ex, f, r, n):
        if parse(qt(n)).bare().args[0].name == "void":
            if "launched" in ex.ghost: ex.write(ex.ghost["launched"], Q.futs.push(ex.val(ex.ghost["launched"]), f))
            return
        RM.yields(self, ex, f, r, n)


# ------------------------------------------------------------------ documents
def rendered(v, errs):
    """v is the list of those errors, as C10 describes it"""
    if not hasattr(Q, "rendered"): Q.rendered = z3.Function("errors_rendered", V.S, E.errs.sort, Bool)
    return Q.rendered(v, errs)


def rendered_call(c, errs):
    v = c.ex.fresh("errors", V.S)
    c.ex.assume(rendered(v, errs)); c.ex.assume(V.wf_(v))
    return v


def build_call(c):
    r = rendered_call(c, c.M.pack_sort(c.old[0], E.errs.sort))
    if isinstance(c.args[0], Loc): c.ex.write(c.ex.deref(c.args[0]), c.ex.fresh("moved_errors", E.errs.sort))
    return r


def ge_call(c):
    r = rendered_call(c, c.M.pack_sort(c.f_old("_structuredErrors"), E.errs.sort))
    c.ex.write(c.ex.deref(c.this).ext(("f", "_structuredErrors")), c.ex.fresh("moved_errors", E.errs.sort))
    return r


build_used = Contract("buildErrorValues", TUF, SV + "buildErrorValues", call=build_call)
errors_used = Contract("schema_exception::getErrors", TUF, SV + "schema_exception::getErrors", call=ge_call)


def same_value(a, b): return z3.Or(a == b, V.veq_(a, b))


def is_document(d, outcome, res, errs):
    """data, and errors exactly when there are some"""
    m = map_(d)
    ok = outcome == OK_
    es = z3.If(ok, L.rec_get(res, "errors"), errs)
    some = z3.Or(z3.Not(ok), E.errs.len_(es) != 0)
    return [("an object", tag_is(d, MAP)), ("data, and errors exactly when some were reported", mlen(m) == z3.If(some, 2, 1)),
            ("the data member comes first", name_at(m, 0) == strlit(b"data")), ("the data that was resolved", z3.If(ok, same_value(val_at(m, 0), L.rec_get(res, "data")), tag_is(val_at(m, 0), NULL))),
            ("the errors member", z3.Implies(some, name_at(m, 1) == strlit(b"errors"))), ("every error that was reported", z3.Implies(some, rendered(val_at(m, 1), es)))]


def document_of(ex, s, doc):
    """what the callback of a subscription receives"""
    c = ex.callctx
    r = ex.val(ex.ghost["resolved"])
    g = lambda f: L.rec_get(r, f)
    d = L.opt_val(Q.odata(s))
    own = c.M.pack_sort(c.old[4], Obj) if len(c.old) > 4 else None
    out = [("its own selection was resolved", g("selection") == Q.sel(s)), ("with its own variables and fragments", z3.And(same_value(g("vars"), L.rec_get(d, "variables")), g("frags") == L.rec_get(d, "fragments"))),
           ("and its operation's directives", same_value(g("odirs"), L.rec_get(d, "directives"))),
           ("as an event", g("context") == context("Subscription")), ("a document, not an exception", S.kind(doc) == OK_)]
    if own is not None: out.append(("on the event's object", z3.Implies(z3.Not(is_null(own)), g("object") == own)))
    return out + is_document(fut_val(V.S)(doc), g("outcome"), S.fut_res(g("future")), g("errors"))


def context(nm): return z3.IntVal(["Query", "Mutation", "NotifySubscribe", "Subscription", "NotifyUnsubscribe"].index(nm))


# ------------------------------------------------------------------ the registrations
class Reg:
    def __init__(self, c, new):
        g = c.f_new if new else c.f_old
        p = lambda f, s: c.M.pack_sort(g(f), s)
        self.subs, self.lists, self.next, self.ops = p("_subscriptions", Q.subs), p("_listeners", Q.lists), p("_nextKey", Int), p("_operations", Q.types)


def reg_ok(r):
    """the class invariant: keys below the next one, each listed under its own field and nowhere else"""
    st, lt, kt = (map_theory_for(s) for s in (Q.subs, Q.lists, Q.keys))
    k = z3.Int("rk"); x = z3.Const("rx", Str.sort)
    s = st.get_(r.subs, k)
    ls = lt.get_(r.lists, x)
    return [("every key is below the next one", z3.ForAll([k], z3.Implies(st.has_(r.subs, k), z3.And(0 <= k, k < r.next)), patterns=[st.has_(r.subs, k)])),
            ("every subscription is listed for its field", z3.ForAll([k], z3.Implies(st.has_(r.subs, k), z3.And(lt.has_(r.lists, Q.field(s)), kt.has_(lt.get_(r.lists, Q.field(s)), k))), patterns=[st.has_(r.subs, k)])),
            ("only subscriptions are listed, for their field", z3.ForAll([x, k], z3.Implies(z3.And(lt.has_(r.lists, x), kt.has_(ls, k)), z3.And(st.has_(r.subs, k), Q.field(s) == x)), patterns=[z3.MultiPattern(lt.has_(r.lists, x), kt.has_(ls, k))])),
            ("every registration is complete", z3.ForAll([k], z3.Implies(st.has_(r.subs, k), sub_ok(s)), patterns=[st.has_(r.subs, k)]))]


def sub_ok(s):
    d = Q.odata(s)
    rec = L.opt_val(d)
    a, b = Q.args(s), Q.fdirs(s)
    return z3.And([L.opt_is(d)] + [z3.And(V.wf_(v), tag_is(v, MAP)) for v in (L.rec_get(rec, "variables"), L.rec_get(rec, "directives"))] + [V.wf_(a), V.wf_(b), z3.Implies(Str.len_(Q.field(s)) != 0, z3.And(tag_is(a, MAP), tag_is(b, MAP)))])


def q_start(c):
    skip_fns()
    tree_axioms(c.ex)
    for a in q_axioms(): c.ex.assume(a)
    for nm, th in (("delivered", Q.log), ("launched", Q.futs), ("awaited", Q.futs)):
        if nm not in c.ex.ghost: c.ex.ghost[nm] = c.ex.alloc(th.empty if nm != "delivered" else c.ex.fresh(nm, th.sort), nm)
    if "resolved" not in c.ex.ghost:
        c.ex.ghost["resolved"] = c.ex.alloc(c.ex.fresh("resolved", Q.res), "resolved")
        c.ex.ghost["resolves"] = c.ex.alloc(z3.IntVal(0), "resolves")
    c.log0 = c.ex.val(c.ex.ghost["delivered"])


def uns_post(c):
    o, w = Reg(c, False), Reg(c, True)
    st = map_theory_for(Q.subs)
    k = z3.Int("uk")
    return [("the subscription is gone", z3.Not(st.has_(w.subs, c.old[0]))),
            ("every other one stays as it was", z3.ForAll([k], z3.Implies(k != c.old[0], z3.And(st.has_(w.subs, k) == st.has_(o.subs, k), z3.Implies(st.has_(o.subs, k), st.get_(w.subs, k) == st.get_(o.subs, k)))), patterns=[st.has_(w.subs, k), st.has_(o.subs, k)])),
            ] + reg_ok(w)


def params(n): return lambda d, tu: len([p for p in children(d) if p["kind"] == "ParmVarDecl"]) == n
def with_types(*ts):
    """the overload whose parameter types end in those names"""
    def pred(d, tu):
        ps = [qt(p) for p in children(d) if p["kind"] == "ParmVarDecl"]
        return len(ps) == len(ts) and all(t in p for t, p in zip(ts, ps))
    return pred


unsubscribe = Contract("Request::unsubscribe(key)", TUF, REQ + "::unsubscribe", pred=params(1), setup=q_start, pre=lambda c: reg_ok(Reg(c, False)), post=uns_post, modifies=lambda c: [c.this.ext(("f", f)) for f in ("_subscriptions", "_listeners", "_nextKey")])


# ------------------------------------------------------------------ events
def del_pre(c):
    return named(c.old[1]) + reg_ok(Reg(c, False))


def named(x): return [("events are for a field", Str.len_(x) != 0)]


def filters(c): return [c.M.pack_sort(c.old[i], Resolver) for i in (2, 3)]


def object_used(c):
    """the object resolves a selection set: a future with its result, or an error of the request (C08)"""
    ex = c.ex
    if ex.pure: raise NotPure()
    P = lambda f, s: c.M.pack_sort(c.field(c.old[0], f), s)
    out = ex.fresh("outcome", Int); fut, errs = ex.fresh("answer", Fut), ex.fresh("thrown", E.errs.sort)
    o = OK_ if ex.choose(out == OK_) else ERRORS
    k = L.rec_mk(Q.res, [c.M.pack_sort(c.this_old, Obj), P("resolverContext", Int), P("operationDirectives", V.S), c.M.pack_sort(c.old[1], Node), c.M.pack_sort(c.old[2], S.frags), c.M.pack_sort(c.old[3], V.S), P("launch", Launch), z3.IntVal(o), fut, errs])
    ex.write(ex.ghost["resolved"], k)
    ex.write(ex.ghost["resolves"], ex.val(ex.ghost["resolves"]) + 1)
    if o == OK_:
        ex.assume(S.kind(fut) == OK_)
        return fut
    raise CppThrow(ExcV(CT(SV + "schema_exception"), StructV(CT(SV + "schema_exception"), {"_structuredErrors": errs})))


resolve_used = Contract("Object::resolve", TUF, OBJ + "::resolve", pre=lambda c: [("there is an object", z3.Not(is_null(c.M.pack_sort(c.this_old, Obj))))], call=object_used)


def del_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None: return []
    r = Reg(c, False)
    if z3.is_expr(s) and s.sort() == Q.keys:
        f, g = filters(c)
        cbs = [l for l in ctx.all_locals(lambda t, d: t.name == "std::vector" and t.args and t.args[0].name == "std::future")]
        out = [("the listeners so far that match were called, once each, in order", ex.val(ex.ghost["delivered"]) == Q.DEL(s, r.subs, f, g, c.log0, k))]
        la = ex.val(ex.ghost["launched"])
        i = z3.Int("dvi")
        out += [("none was awaited yet", Q.futs.len_(ex.val(ex.ghost["awaited"])) == 0),
                ("no callback failed", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Q.futs.len_(la)), S.kind(Q.futs.at_(la, i)) == OK_), patterns=[Q.futs.at_(la, i)]))]
        for l in cbs: out.append(("every call is kept", L.eqgoal(ex.val(l), la)))
        return out
    if z3.is_expr(s) and s.sort() == Q.futs.sort:
        aw = ex.val(ex.ghost["awaited"])
        return [("each was awaited", L.eqgoal(aw, Q.futs.slice_(s, z3.IntVal(0), k)))]
    if z3.is_expr(s) and s.sort() == S.maptype:
        # every member so far is accepted; the loop leaves on the first that is not
        flags = [l for l in ctx.all_locals(lambda t, d: t.name == "bool") if l.root in {r for r, _ in ctx.mods}]
        i = z3.Int("dmi")
        out = [("nothing is rejected so far", ex.val(l) == ctx.old(l)) for l in flags]
        v = s
        while z3.is_app(v) and v.num_args() == 1 and v.sort() != V.S: v = v.arg(0)
        if v.sort() == V.S:
            f = filters(c)[0 if z3.is_app(v) and v.decl().eq(Q.args) else 1]
            out.append(("the filter accepts every member so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), Q.accepts(f, name_at(s, i), val_at(s, i))), patterns=[TH(s).at_(s, i)])))
        return out
    return []


def del_post(c):
    o = Reg(c, False)
    f, g = filters(c)
    lt, kt = map_theory_for(Q.lists), map_theory_for(Q.keys)
    nm = c.old[1]
    ls = lt.get_(o.lists, nm)
    log = c.ex.val(c.ex.ghost["delivered"])
    return [("exactly the matching listeners of that field are called, once each, in order of subscription", log == z3.If(lt.has_(o.lists, nm), Q.DEL(ls, o.subs, f, g, c.log0, kt.size_(ls)), c.log0)),
            ("every callback has run", L.eqgoal(c.ex.val(c.ex.ghost["awaited"]), c.ex.val(c.ex.ghost["launched"])))]


deliver = Contract("Request::deliver(filters)", TUF, REQ + "::deliver", pred=with_types("launch", "SubscriptionName", "SubscriptionFilterCallback", "SubscriptionFilterCallback", "shared_ptr"), setup=q_start, pre=del_pre, post=del_post,
                   exc=lambda c: [("nobody is called", c.ex.val(c.ex.ghost["delivered"]) == c.log0)], loops=[LoopSpec("listeners", del_inv, own)])


# ------------------------------------------------------------------ the other ways to send an event
def by_args(m):
    """the filter that accepts exactly the members of a map"""
    if not hasattr(Q, "by"):
        Q.argmap = m.sort()
        Q.by = z3.Function("filter_of_map", Q.argmap, Resolver)
        Q.any = z3.Const("filter_of_anything", Resolver)
        Q.dx, Q.dv = z3.Function("filters_differ_name", Resolver, Resolver, Str.sort), z3.Function("filters_differ_value", Resolver, Resolver, V.S)
        Q.pair = z3.Function("filters_compared", Resolver, Resolver, z3.BoolSort())
        th = map_theory_for(Q.argmap)
        a = z3.Const("bm", Q.argmap); x = z3.Const("bx", Str.sort); v = z3.Const("bv", V.S); f, g = z3.Consts("bf bg", Resolver)
        Q.by_ax = [z3.ForAll([a, x, v], Q.accepts(Q.by(a), x, v) == z3.And(th.has_(a, x), V.veq_(th.get_(a, x), v)), patterns=[Q.accepts(Q.by(a), x, v)]),
                   z3.ForAll([x, v], Q.accepts(Q.any, x, v), patterns=[Q.accepts(Q.any, x, v)]),
                   # a filter is what it accepts
                   z3.ForAll([f, g], z3.Or(f == g, Q.accepts(f, Q.dx(f, g), Q.dv(f, g)) != Q.accepts(g, Q.dx(f, g), Q.dv(f, g))), patterns=[Q.pair(f, g)])]
    return Q.by(m)


def arg_map(c): return c.M.sort_of(parse("std::map<std::string_view, %s>" % VT))
def launched_log(c, r, nm, f, g, log0):
    lt, kt = map_theory_for(Q.lists), map_theory_for(Q.keys)
    ls = lt.get_(r.lists, nm)
    return z3.If(lt.has_(r.lists, nm), Q.DEL(ls, r.subs, f, g, log0, kt.size_(ls)), log0)


def del_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    r = Reg(c, False)
    ot = map_theory_for(Q.types)
    own = c.M.pack_sort(c.old[4], Obj)
    sub = strlit(b"subscription")
    if not ex.choose(ot.has_(r.ops, sub)): raise CppThrow(ExcV(CT("std::logic_error"), None, ex.fresh("what", Str.sort)))
    if ex.choose(z3.And(is_null(own), is_null(ot.get_(r.ops, sub)))): raise CppThrow(ExcV(CT("std::invalid_argument"), None, ex.fresh("what", Str.sort)))
    f, g = filters(c)
    l = ex.ghost["delivered"]
    if ("to" in ex.ghost): ex.write(ex.ghost["to"], own); ex.write(ex.ghost["sent"], ex.val(ex.ghost["sent"]) + 1)
    for y, x in zip(getattr(ex, "filter_specs", ()), (f, g)): ex.assume(Q.pair(y, x))
    ex.write(l, launched_log(c, r, c.old[1], f, g, ex.val(l)))
    return VOID


deliver.call = del_call


def fwd(label, types, name, fa, fd, obj):
    def specs(c):
        fs = []
        for q in (fa, fd):
            if q is None: fs.append(Q.any)
            elif q == "none": fs.append(by_args(map_theory_for(arg_map(c)).empty))
            else:
                v = c.ex.val(c.old[q])
                fs.append(v if v.sort() == Resolver else by_args(v))
        return fs
    def start(c):
        q_start(c)
        by_args(z3.Const("bm0", arg_map(c)))
        for a in Q.by_ax: c.ex.assume(a)
        if "to" not in c.ex.ghost:
            c.ex.ghost["to"] = c.ex.alloc(c.ex.fresh("to", Obj), "to"); c.ex.ghost["sent"] = c.ex.alloc(z3.IntVal(0), "sent")
    def pre(c):
        c.ex.filter_specs = specs(c)
        th = map_theory_for(arg_map(c)); k = z3.Const("pk", Str.sort)
        out = [("arguments satisfy the invariant", z3.ForAll([k], V.wf_(th.get_(m, k)), patterns=[th.get_(m, k)])) for m in c.old if z3.is_expr(m) and m.sort() == arg_map(c)]
        return named(c.old[name]) + reg_ok(Reg(c, False)) + out
    def post(c):
        log = c.ex.val(c.ex.ghost["delivered"])
        f, g = specs(c)
        return [("sent once", c.ex.val(c.ex.ghost["sent"]) == 1), ("to the given object", c.ex.val(c.ex.ghost["to"]) == c.M.pack_sort(c.old[obj], Obj)),
                ("exactly the listeners whose arguments and directives match are called", log == launched_log(c, Reg(c, False), c.old[name], f, g, c.log0))]
    return Contract("Request::deliver(%s)" % label, TUF, REQ + "::deliver", pred=with_types(*types), setup=start, pre=pre, post=post, exc=lambda c: [("nobody is called", c.ex.val(c.ex.ghost["delivered"]) == c.log0)], use=False)


N_, A_, F_, P_, L_ = "SubscriptionName", "SubscriptionArguments", "SubscriptionFilterCallback", "shared_ptr", "launch"
FORWARDS = [fwd("name", (N_, P_), 0, "none", "none", 1), fwd("name, arguments", (N_, A_, P_), 0, 1, "none", 2), fwd("name, arguments, directives", (N_, A_, A_, P_), 0, 1, 2, 3),
            fwd("name, filter", (N_, F_, P_), 0, 1, None, 2), fwd("name, filters", (N_, F_, F_, P_), 0, 1, 2, 3),
            fwd("launch, name", (L_, N_, P_), 1, "none", "none", 2), fwd("launch, name, arguments", (L_, N_, A_, P_), 1, 2, "none", 3), fwd("launch, name, arguments, directives", (L_, N_, A_, A_, P_), 1, 2, 3, 4),
            fwd("launch, name, filter", (L_, N_, F_, P_), 1, 2, None, 3)]


def models(tu):
    m = QM()
    m.contracts = [deliver, unsubscribe, resolve_used, build_used, errors_used] + list(W.contracts) + W.base64
    return m


contracts = [unsubscribe, deliver] + FORWARDS
