"""contracts of the visitors that turn parse trees into values"""
from specs.nodes import *
from specs import nodes as N

TUF = "src/GraphQLService.cpp"
SV = "graphql::service::"
VV = SV + "ValueVisitor"


def VARS(c): return c.M.pack_sort(c.f_old("_variables"), V.S)
def IN(c): return c.M.pack_sort(c.f_old("_value"), V.S)
def OUT(c): return c.M.pack_sort(c.f_new("_value"), V.S)


def vars_ok(c, v): return inv_of(c, "variables ", v) + [("the variables are an object", tag_is(v, MAP))]


def lit_inv(ctx):
    """values of the children visited so far"""
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = ctx.seq()
    if s is None or s.sort() != KS.sort or not (z3.is_app(s) and s.decl().name() == "kids"): return []
    n = s.arg(0)
    vars = VARS(c)
    v = OUT(c)
    i = z3.Int("lii")
    ls, m = list_(v), map_(v)
    out = [("the values satisfy the invariant", z3.And([V.wf_(v)] + [V.wf_(c.M.pack_sort(c.field(ex.val(l), "_value"), V.S)) for l in ctx.locals_(lambda t, d: t.name == VV)])), ("no undefined variable so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(z3.If(is_(n, "list_value"), D.undef(vars, kid(n, i)), D.undef(vars, back(kid(n, i)))))), patterns=[kid(n, i)]))]
    if ex.entails(is_(n, "list_value")):
        out += [("a list is being built", z3.And(tag_is(v, LIST), mlen(ls) == k)),
                ("the elements so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), D.den(vars, TH(ls).at_(ls, i), kid(n, i))), patterns=[TH(ls).at_(ls, i), kid(n, i)]))]
    else:
        out += [("an object is being built", z3.And(tag_is(v, MAP), mlen(m) == k)),
                ("the names so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), name_at(m, i) == ntext(front(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)])),
                ("the members so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), D.den(vars, val_at(m, i), back(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)]))]
    return out


def visit_pre(c):
    n = c.old[0]
    return inv_of(c, "the visitor's ", IN(c)) + vars_ok(c, VARS(c)) + [("a value literal of the grammar", z3.And(shape(n), is_value(n)))]


def visit_post(c):
    vars, v, n = VARS(c), OUT(c), c.old[0]
    return [("only when every variable is defined", z3.Not(D.undef(vars, n)))] + denotes(vars, v, n) + inv_after(v)


def is_schema_exc(e): return e is not None and e.ct.name == SV + "schema_exception"


def visit_exc(c):
    return [("only when a variable is not defined", D.undef(VARS(c), c.old[0])), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))]


def visit_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    vars, n = VARS(c), c.old[0]
    if ex.choose(D.undef(vars, n)):
        raise CppThrow(ExcV(CT(SV + "schema_exception"), None, ex.fresh("msg", Str.sort)))
    v = ex.fresh("literal", V.S)
    ex.write(ex.deref(c.this).ext(("f", "_value")), v)
    ex.assume(D.den(vars, v, n))
    ex.assume(V.wf_(v))
    return VOID


visit = Contract("ValueVisitor::visit", TUF, VV + "::visit", setup=lambda c: tree_axioms(c.ex), pre=visit_pre, post=visit_post, exc=visit_exc, call=visit_call, loops=[LoopSpec("children", lit_inv, own)])




# ------------------------------------------------------------------ operation variables
def seq_node(ctx):
    """the node whose children the loop visits"""
    s = ctx.seq()
    if s is None or s.sort() != KS.sort or not (z3.is_app(s) and s.decl().name() == "kids"): return None
    return s.arg(0)


def bound_upto(vars, m, n, k):
    """the map m binds every variable defined by the first k children of n"""
    j = z3.Int("bui")
    d = kid(n, nth(n, rule("variable"), j))      # the j-th definition
    g = z3.And(0 <= j, j < mlen(m))
    return [("one member per definition", mlen(m) == cnt(n, rule("variable"), k)),
            ("named as defined", z3.ForAll([j], z3.Implies(g, name_at(m, j) == vdname(d)), patterns=[TH(m).at_(m, j)])),
            ("with the supplied value, or else the default", z3.ForAll([j], z3.Implies(g, D.bound(vars, val_at(m, j), d)), patterns=[TH(m).at_(m, j)]))]


def vars_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    n = seq_node(ctx)
    if n is None or not n.eq(c.old[0]): return []
    vars = VAL0(c, 1)
    out = []
    i, j = z3.Ints("vii vij")
    roots = {r for r, _ in ctx.mods}
    cands = [l for l in ctx.all_locals(lambda t, d: t.name == VT) if l.root in roots] if roots else []
    for l in cands[:1]:
        v = VAL(c, l); m = map_(v)
        out += [("an object is being built", tag_is(v, MAP)), ("the value satisfies the invariant", V.wf_(v))] + bound_upto(vars, m, n, k)
    out.append(("no undefined variable so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k, is_(kid(n, i), "variable")), z3.Not(z3.And(absent(vars, vdname(kid(n, i))), has(kid(n, i), "default_value"), D.undef(vars, front(child(kid(n, i), "default_value")))))), patterns=[kid(n, i)])))
    return out


def VAL0(c, i): return c.M.pack_sort(c.old[i], V.S)


def ov_pre(c): return vars_ok(c, VAL0(c, 1)) + [("an operation of the grammar", z3.And(shape(c.old[0]), is_(c.old[0], "operation_definition")))]


def ov_post(c):
    n, vars = c.old[0], VAL0(c, 1)
    v = c.res_val(V.S)
    return [("the variables are an object", tag_is(v, MAP)), ("only when every default is defined", z3.Not(D.vundef(vars, n)))] + bound_upto(vars, map_(v), n, nkids(n)) + inv_after(v)


def ov_call(c):
    ex = c.ex
    n, vars = c.old[0], VAL0(c, 1)
    if ex.choose(D.vundef(vars, n)): raise CppThrow(ExcV(CT(SV + "schema_exception"), None, ex.fresh("msg", Str.sort)))
    v = ex.fresh("opvars", V.S)
    for l, f in [("", tag_is(v, MAP))] + bound_upto(vars, map_(v), n, nkids(n)): ex.assume(f)
    ex.assume(V.wf_(v))
    return v


op_vars = Contract("getOperationVariables", TUF, SV + "getOperationVariables", setup=lambda c: tree_axioms(c.ex), pre=ov_pre, post=ov_post,
                   exc=lambda c: [("only when a default uses a variable that is not defined", D.vundef(VAL0(c, 1), c.old[0])), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))],
                   call=ov_call, loops=[LoopSpec("definitions", vars_inv, in_fn("for_each_child"))])

# ------------------------------------------------------------------ directives
DV = SV + "DirectiveVisitor"
def DOUT(c): return c.M.pack_sort(c.f_new("_directives"), V.S)
def DIN(c): return c.M.pack_sort(c.f_old("_directives"), V.S)


def dirs_den(vars, v, n, k=None):
    """v maps the name of every directive in n to its arguments, in order"""
    i = z3.Int("ddi")
    m = map_(v)
    k = nkids(n) if k is None else k
    return [("the directives are an object", tag_is(v, MAP)), ("one member per directive", mlen(m) == k),
            ("named as the directive", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), name_at(m, i) == dname(kid(n, i))), patterns=[TH(m).at_(m, i), kid(n, i)])),
            ("with the directive's own arguments", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), D.args(vars, val_at(m, i), kid(n, i))), patterns=[TH(m).at_(m, i), kid(n, i)]))]


def dir_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    n = seq_node(ctx)
    if n is None: return []
    vars = VARS(c)
    i = z3.Int("dii")
    roots = {r for r, _ in ctx.mods}
    out = []
    if n.eq(c.old[0]):
        for l in [l for l in ctx.all_locals(lambda t, d: t.name == VT) if l.root in roots][:1]:
            v = VAL(c, l)
            out += [("the value satisfies the invariant", V.wf_(v))] + dirs_den(vars, v, n, k)
        out.append(("no undefined variable so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(args_undef(vars, kid(n, i)))), patterns=[kid(n, i)])))
    else:
        out += args_inv(ctx, vars, n)
    return out


def args_inv(ctx, vars, n):
    """the arguments of one field or directive, while they are collected"""
    ex, k, c = ctx.ex, ctx.k, ctx.ex.callctx
    i = z3.Int("aii")
    roots = {r for r, _ in ctx.mods}
    out = []
    for l in [l for l in ctx.all_locals(lambda t, d: t.name == VT) if l.root in roots][:1]:
        v = VAL(c, l); m = map_(v)
        out += [("an object is being built", z3.And(tag_is(v, MAP), mlen(m) == k)), ("the value satisfies the invariant", V.wf_(v)),
                ("the names so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), name_at(m, i) == ntext(front(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)])),
                ("the members so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), D.den(vars, val_at(m, i), back(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)]))]
    for l in ctx.all_locals(lambda t, d: t.name == VV): out.append(("the visitor's value satisfies the invariant", V.wf_(c.M.pack_sort(c.field(ex.val(l), "_value"), V.S))))
    out.append(("no undefined variable so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(D.undef(vars, back(kid(n, i))))), patterns=[kid(n, i)])))
    return out


def dir_pre(c): return vars_ok(c, VARS(c)) + inv_of(c, "the visitor's ", DIN(c)) + [("directives of the grammar", z3.And(shape(c.old[0]), is_(c.old[0], "directives")))]


def dir_call(c):
    ex = c.ex
    n, vars = c.old[0], VARS(c)
    if ex.choose(D.dundef(vars, n)): raise CppThrow(ExcV(CT(SV + "schema_exception"), None, ex.fresh("msg", Str.sort)))
    v = ex.fresh("directives", V.S)
    for l, f in dirs_den(vars, v, n): ex.assume(f)
    ex.assume(V.wf_(v))
    ex.write(ex.deref(c.this).ext(("f", "_directives")), v)
    return VOID


dvisit = Contract("DirectiveVisitor::visit", TUF, DV + "::visit", setup=lambda c: tree_axioms(c.ex), pre=dir_pre,
                  post=lambda c: [("only when every variable is defined", z3.Not(D.dundef(VARS(c), c.old[0])))] + dirs_den(VARS(c), DOUT(c), c.old[0]) + inv_after(DOUT(c)),
                  exc=lambda c: [("only when a variable is not defined", D.dundef(VARS(c), c.old[0])), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))],
                  call=dir_call, loops=[LoopSpec("directives", dir_inv, own)])


# shouldSkip: [present, valid, condition] of one directive
def at_name(d, nm, f):
    """some member of d has the name and satisfies f"""
    k = z3.Int("ank"); m = map_(d)
    return z3.Exists([k], z3.And(0 <= k, k < mlen(m), name_at(m, k) == strlit(nm), f(val_at(m, k))), patterns=[TH(m).at_(m, k)])


def valid_if(a): return z3.And(tag_is(a, MAP), mlen(map_(a)) == 1, name_at(map_(a), 0) == strlit(b"if"), tag_is(val_at(map_(a), 0), BOOL))
def if_value(a): return bool_(val_at(map_(a), 0))
def excludes(d): return z3.Or(at_name(d, b"skip", lambda a: z3.And(valid_if(a), if_value(a))), at_name(d, b"include", lambda a: z3.And(valid_if(a), z3.Not(if_value(a)))))
def invalid(d): return z3.Or(at_name(d, b"skip", lambda a: z3.Not(valid_if(a))), at_name(d, b"include", lambda a: z3.Not(valid_if(a))))


class K: pass
def skip_fns():
    if not hasattr(K, "ex"):
        K.ex = z3.Function("excluded_by_directives", V.S, Bool)
        K.bad = z3.Function("invalid_condition", V.S, Bool)


def skip_call(c):
    """the outcome is one of: kept, excluded, error; what each means is proved of the function"""
    skip_fns()
    ex = c.ex
    d = DIN(c)
    if ex.choose(K.bad(d)): raise CppThrow(ExcV(CT(SV + "schema_exception"), None, ex.fresh("msg", Str.sort)))
    return K.ex(d)


should_skip = Contract("DirectiveVisitor::shouldSkip", TUF, DV + "::shouldSkip", pre=lambda c: inv_of(c, "", DIN(c)) + [("the directives are an object", tag_is(DIN(c), MAP))],
                       post=lambda c: [("excluded exactly when a condition says so", c.res_val(Bool) == excludes(DIN(c))), ("kept only when every condition is valid", z3.Implies(z3.Not(c.res_val(Bool)), z3.Not(invalid(DIN(c))))), ("the directives stay", eqv(DOUT(c), DIN(c)))],
                       exc=lambda c: [("only when a condition is not valid", invalid(DIN(c))), ("the error is a schema_exception", z3.BoolVal(is_schema_exc(c.exc)))],
                       call=skip_call, loops=[LoopSpec("conditions", None, own, unroll=4)])
get_dirs = Contract("DirectiveVisitor::getDirectives", TUF, DV + "::getDirectives", pre=lambda c: inv_of(c, "", DIN(c)), post=lambda c: [("hands out exactly the directives", eqv(c.res_val(V.S), DIN(c)))], use=False)
get_value = Contract("ValueVisitor::getValue", TUF, VV + "::getValue", pre=lambda c: inv_of(c, "", IN(c)), post=lambda c: [("hands out exactly the value", eqv(c.res_val(V.S), IN(c)))], use=False)


def models(tu):
    m = NM()
    m.contracts = [visit, op_vars, dvisit, should_skip] + list(W.contracts) + W.base64
    return m
