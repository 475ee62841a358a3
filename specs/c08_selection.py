"""C08: which resolvers a selection set calls."""
from specs.selection import *
from specs import selection as SE, visitors as VS, svc
from cppcv.contract import Lemma, bound_models

PROPERTY = "C08"
contracts = [SE.sel_visit, SE.sel_ctor, SE.get_values, SE.obj_ctor, SE.matches, SE.obj_resolve] + SE.fragment_contracts
TRUSTED = ["response::Value contracts (proved by C03)", "ValueVisitor::visit (proved by C06)", "DirectiveVisitor::visit and shouldSkip (proved by C07)", "buildErrorPath (proved by C10)", "sorted_map/sorted_set as finite maps and sets (proved by C02)"]
ASSUMPTIONS = ["the parse tree has the shape the grammar gives it (C17 is not claimed)", "every directive and argument name appears once, as validation requires", "ast_node::is_type tells the grammar rule of a node (trusted)",
               "resolvers are opaque: each call returns a future or throws", "std::async runs its closure and its future yields what the closure did (when it runs is not modelled)", "beginSelectionSet/endSelectionSet overrides do not touch the executor's state"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["exec"]}
HARNESS_SECS = 20
EAGER_HARNESS = True


def dirs_lemma():
    """what the directives of a selection decide depends on the request, not on which of several equal values holds them"""
    ex = bound_models(models, TUF)
    setup_den()
    vs, v1, v2 = z3.Consts("lvs lv1 lv2", V.S); n = z3.Const("ln", Node)
    k = z3.Int("lk"); vm = map_(vs)
    out = []
    # the value of one condition
    same = lambda a, b: z3.And(tag_is(a, BOOL) == tag_is(b, BOOL), z3.Implies(tag_is(a, BOOL), bool_(a) == bool_(b)))
    hyp = [f for _, f in denotes(vs, v1, n)] + [f for _, f in denotes(vs, v2, n)] + [z3.Or([is_(n, r) for r in VALUE_RULES])]
    sup = val_at(vm, k)
    isv = is_(n, "variable_value")
    kk = z3.Int("lkk")
    wv = lambda v: z3.Or([tag_is(v, t) for t in range(9)])
    out.append(("a literal condition has one meaning", hyp + [z3.Not(isv)] + list(L.mention(ntype(n))), same(v1, v2)))
    out.append(("a condition given by a variable has one meaning", hyp + [isv, 0 <= k, k < mlen(vm), name_at(vm, k) == var_name(n), z3.Implies(V.veq_(v1, sup), veq_body(v1, sup)), z3.Implies(V.veq_(v2, sup), veq_body(v2, sup))], same(v1, v2)))
    # the directives of one selection
    d = child(n, "directives")
    i = z3.Int("li")
    def args_of(v, i): return [tag_is(v, MAP), z3.If(has(kid(d, i), "arguments"), z3.And([f for _, f in members_den(vs, map_(v), child(kid(d, i), "arguments"))]), mlen(map_(v)) == 0)]
    a1, a2 = val_at(map_(v1), i), val_at(map_(v2), i)
    lit = back(kid(child(kid(d, i), "arguments"), z3.IntVal(0)))
    x1, x2 = val_at(map_(a1), 0), val_at(map_(a2), 0)
    one = args_of(a1, i) + args_of(a2, i) + [0 <= i, i < nkids(d), z3.Implies(z3.And(D.den(vs, x1, lit), D.den(vs, x2, lit)), same(x1, x2))] + list(L.mention(TH(map_(a1)).at_(map_(a1), z3.IntVal(0)), TH(map_(a2)).at_(map_(a2), z3.IntVal(0)), kid(child(kid(d, i), "arguments"), z3.IntVal(0))))
    verdict = lambda a, b: z3.And(valid_if(a) == valid_if(b), z3.Implies(valid_if(a), if_value(a) == if_value(b)))
    out.append(("one directive has one meaning", one, verdict(a1, a2)))
    every = [f for _, f in dirs_den(vs, v1, d)] + [f for _, f in dirs_den(vs, v2, d)]
    j = z3.Int("lj"); m1, m2 = map_(v1), map_(v2)
    every.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nkids(d)), verdict(val_at(m1, j), val_at(m2, j))), patterns=[TH(m1).at_(m1, j), TH(m2).at_(m2, j)]))
    out.append(("excluded or not", every, excludes(v1) == excludes(v2)))
    out.append(("valid or not", every, invalid(v1) == invalid(v2)))
    none = [tag_is(v1, MAP), mlen(map_(v1)) == 0]
    out.append(("no directives, no exclusion", none, z3.And(z3.Not(excludes(v1)), z3.Not(invalid(v1)))))
    return out


LEMMAS = [Lemma("the directives of a selection decide one thing", dirs_lemma)]
