"""peg::ast_node as an opaque tree: ghost functions for what a node is, and the helpers that walk it"""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, Str, strlit
from cppcv.engine import LoopSpec, Iter, Loc, StructV, RefV, ExcV, Ptr
from cppcv.ctypes_ import parse, CT
from cppcv.front import qt, children, Unsupported
from cppcv.models import Dbl, PTRT, cstr
from specs.value import *
from specs import value as W

NODE = "graphql::peg::ast_node"
Node = z3.DeclareSort("Node")
KS = L.seq_of(Node)
kids_ = z3.Function("kids", Node, KS.sort)
ntext = z3.Function("ntext", Node, Str.sort)
unesc = z3.Function("unescaped", Node, Str.sort)
nline = z3.Function("nline", Node, Int)
ncol = z3.Function("ncolumn", Node, Int)
ntype = z3.Function("ntype", Node, Int)
int_of = z3.Function("int_of_text", Str.sort, Int)
dbl_of = z3.Function("double_of_text", Str.sort, Dbl)
RULES = {}


def rule(name):
    """identity of a grammar rule"""
    name = name.rsplit("::", 1)[-1]
    return z3.IntVal(RULES.setdefault(name, len(RULES) + 1))


for _r in ("variable_value", "integer_value", "float_value", "string_value", "true_keyword", "false_keyword", "null_keyword", "enum_value", "list_value", "object_value",
           "directive_name", "arguments", "directives", "field_name", "alias_name", "selection_set", "type_condition", "field", "fragment_spread", "inline_fragment",
           "operation_definition", "operation_type", "operation_name", "variable", "variable_name", "default_value", "fragment_definition", "fragment_name"): rule(_r)


def is_(n, r): return ntype(n) == rule(r)
def nkids(n): return KS.len_(kids_(n))
def kid(n, i): return KS.at_(kids_(n), i)
def front(n): return kid(n, z3.IntVal(0))
def back(n): return KS.at_(kids_(n), nkids(n) - 1)


# first child of a type
has_child = z3.Function("has_child", Node, Int, Bool)
first_idx = z3.Function("first_child_index", Node, Int, Int)


def child(n, r): return kid(n, first_idx(n, rule(r)))
def has(n, r): return has_child(n, rule(r))


def _first_axioms():
    n = z3.Const("fcn", Node); t, j = z3.Ints("fct fcj")
    fi = first_idx(n, t)
    return [z3.ForAll([n, t], z3.Implies(has_child(n, t), z3.And(0 <= fi, fi < nkids(n), ntype(kid(n, fi)) == t)), patterns=[has_child(n, t)]),
            z3.ForAll([n, t, j], z3.Implies(z3.And(0 <= j, j < nkids(n), ntype(kid(n, j)) == t), z3.And(has_child(n, t), first_idx(n, t) <= j)), patterns=[z3.MultiPattern(kid(n, j), has_child(n, t))])]


for _a in _first_axioms(): L.axiom_for(has_child, _a)


def frame_rule(ex):
    d = ex.frames[-1].decl
    ta = [c for c in children(d) if c.get("kind") == "TemplateArgument" and "type" in c]
    if not ta: raise Unsupported("no rule for " + str(d.get("name")))
    return rule(qt(ta[0]))


def in_fn(*names): return lambda ex, n, it: ex.frames[-1].decl is not None and ex.frames[-1].decl.get("name") in names
def not_in(*names): return lambda ex, n, it: not (ex.frames[-1].decl is not None and ex.frames[-1].decl.get("name") in names)
HELPERS = ("on_first_child", "for_each_child", "on_first_child_if")
own = not_in(*HELPERS)


def search_inv(ctx):
    """children before k do not have the wanted type"""
    ex, k = ctx.ex, ctx.k
    s = ctx.seq()
    if s is None or s.sort() != KS.sort: return []
    t = frame_rule(ex)
    if not (z3.is_app(s) and s.decl().name() == "kids"): return []
    n = s.arg(0)
    return [("no child of the wanted type so far", z3.Implies(has_child(n, t), first_idx(n, t) >= k))]


first_loop = LoopSpec("first child", search_inv, in_fn("on_first_child"))


class NM(VM):
    """models for code that walks a parse tree"""
    identity_sorts = {"Node"}

    def __init__(self):
        VM.__init__(self)
        self.opaque = dict(self.opaque); self.opaque[NODE] = Node
        mm = self.member_models = dict(self.member_models)
        mm[(NODE, "is_type")] = self._is_type
        mm[(NODE, "string_view")] = lambda ex, o, a, n: ntext(ex.val(o))
        mm[(NODE, "string")] = lambda ex, o, a, n: ntext(ex.val(o))
        mm[(NODE, "has_content")] = lambda ex, o, a, n: Str.len_(ntext(ex.val(o))) != 0
        mm[(NODE, "unescaped_view")] = lambda ex, o, a, n: unesc(ex.val(o))
        mm[(NODE, "begin")] = self._begin
        fm = self.field_models = dict(self.field_models)
        fm[(NODE, "children")] = lambda ex, loc, n: ex.alloc(kids_(ex.val(loc)), "kids")
        fr = self.free_models = dict(self.free_models)
        fr["strtoll"] = self._strtoll; fr["strtol"] = self._strtoll
        fr["atof"] = lambda ex, n, a: dbl_of(self._text(ex.val(ex.eval(a[0]))))
        fr["strtod"] = fr["atof"]
        self.loops = [first_loop]

    def _text(self, p):
        """the characters a NUL-terminated reader sees; number literals contain no NUL"""
        return p.arg(0) if z3.is_expr(p) and p.decl().name() == cstr.name() else p

    def _strtoll(self, ex, n, a):
        i = int_of(self._text(ex.val(ex.eval(a[0]))))
        lo, hi = -(1 << 63), (1 << 63) - 1
        return z3.If(i < lo, z3.IntVal(lo), z3.If(i > hi, z3.IntVal(hi), i))

    def _is_type(self, ex, o, a, n):
        m = children(n)[0]
        while m["kind"] != "MemberExpr": m = children(m)[0]
        d = ex.tu.by_id.get(m.get("referencedMemberDecl"))
        ta = [c for c in children(d) if c.get("kind") == "TemplateArgument" and "type" in c] if d else []
        if not ta: raise Unsupported("is_type of an unknown rule")
        return ntype(ex.val(o)) == rule(qt(ta[0]))

    def _begin(self, ex, o, a, n):
        v = ex.val(o)
        return StructV(CT("tao::graphqlpeg::position"), {"line": nline(v), "column": ncol(v)})

    def sort_of(self, ct):
        if not ct.ptr and ct.name in ("std::unique_ptr",) and ct.args and ct.args[0].name == NODE: return Node
        if ct.ptr == 1 and ct.name == NODE: return Node
        return VM.sort_of(self, ct)

    def truth(self, v):
        if z3.is_expr(v) and v.sort() == Node: return z3.BoolVal(True)
        return VM.truth(self, v)


# ------------------------------------------------------------------ the tree the grammar builds
shape = z3.Function("tree_shape", Node, Bool)


# how many of the first k children have a type
cnt = z3.Function("count_of_type", Node, Int, Int, Int)
nth = z3.Function("nth_of_type", Node, Int, Int, Int)
def _nth_axioms():
    n = z3.Const("nn", Node); t, k, j = z3.Ints("nt nk nj")
    w = nth(n, t, j)
    return [z3.ForAll([n, t, j, k], z3.Implies(z3.And(0 <= j, 0 <= k, j < cnt(n, t, k)), z3.And(0 <= w, w < k, ntype(kid(n, w)) == t, cnt(n, t, w) == j)), patterns=[z3.MultiPattern(w, cnt(n, t, k))]),
            z3.ForAll([n, t, k], z3.Implies(z3.And(0 <= k, ntype(kid(n, k)) == t), nth(n, t, cnt(n, t, k)) == k), patterns=[cnt(n, t, k)])]


def _cnt_axioms():
    n = z3.Const("cn", Node); t, k = z3.Ints("ct ck")
    c = cnt(n, t, k)
    return [z3.ForAll([n, t], cnt(n, t, 0) == 0, patterns=[cnt(n, t, 0)]),
            z3.ForAll([n, t, k], z3.Implies(k >= 0, z3.And(c >= 0, c <= k)), patterns=[c]),
            z3.ForAll([n, t, k], z3.Implies(k >= 0, cnt(n, t, k + 1) == c + z3.If(ntype(kid(n, k)) == t, 1, 0)), patterns=[cnt(n, t, k + 1)]),
            z3.ForAll([n, t, k], z3.Implies(k >= 0, cnt(n, t, k + 1) == c + z3.If(ntype(kid(n, k)) == t, 1, 0)), patterns=[z3.MultiPattern(c, kid(n, k))])]
for _a in _cnt_axioms(): L.axiom_for(cnt, _a)
for _a in _nth_axioms(): L.axiom_for(nth, _a)


def shape_axioms():
    n = z3.Const("shn", Node); i, j = z3.Ints("shi shj")
    two = lambda m: z3.And(nkids(m) >= 2)
    return [
        # a field of an object literal and an argument are a name and a value
        z3.ForAll([n, i], z3.Implies(z3.And(shape(n), z3.Or(is_(n, "object_value"), is_(n, "arguments")), 0 <= i, i < nkids(n)), z3.And(two(kid(n, i)), shape(back(kid(n, i))), is_value(back(kid(n, i))))), patterns=[z3.MultiPattern(shape(n), kid(n, i))]),
        # names within one object literal / argument list differ (validation rejects the others)
        z3.ForAll([n, i, j], z3.Implies(z3.And(shape(n), z3.Or(is_(n, "object_value"), is_(n, "arguments")), 0 <= i, i < j, j < nkids(n)), ntext(front(kid(n, i))) != ntext(front(kid(n, j)))), patterns=[z3.MultiPattern(shape(n), kid(n, i), kid(n, j))]),
        # children of a list literal are values
        z3.ForAll([n, i], z3.Implies(z3.And(shape(n), is_(n, "list_value"), 0 <= i, i < nkids(n)), z3.And(shape(kid(n, i)), is_value(kid(n, i)))), patterns=[z3.MultiPattern(shape(n), kid(n, i))]),
        # every part of a tree has that shape too
        z3.ForAll([n, i], z3.Implies(z3.And(shape(n), 0 <= i, i < nkids(n)), shape(kid(n, i))), patterns=[z3.MultiPattern(shape(n), kid(n, i))]),
        # a variable reference is a dollar sign and its name
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "variable_value")), Str.len_(ntext(n)) >= 1), patterns=[shape(n)]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "directive_name")), Str.len_(ntext(n)) >= 1), patterns=[shape(n)]),
        z3.ForAll([n, i, j], z3.Implies(z3.And(shape(n), is_(n, "directives"), 0 <= i, i < j, j < nkids(n)), dname(kid(n, i)) != dname(kid(n, j))), patterns=[z3.MultiPattern(shape(n), kid(n, i), kid(n, j))]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "default_value")), z3.And(nkids(n) >= 1, is_value(front(n)))), patterns=[shape(n)]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "variable")), has(n, "variable_name")), patterns=[shape(n)]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "variable_name")), Str.len_(ntext(n)) >= 1), patterns=[shape(n)]),
        z3.ForAll([n, i, j], z3.Implies(z3.And(shape(n), is_(n, "operation_definition"), 0 <= i, i < j, j < nkids(n), is_(kid(n, i), "variable"), is_(kid(n, j), "variable")), vdname(kid(n, i)) != vdname(kid(n, j))), patterns=[z3.MultiPattern(shape(n), kid(n, i), kid(n, j))]),
        z3.ForAll([n, i], z3.Implies(z3.And(shape(n), is_(n, "directives"), 0 <= i, i < nkids(n)), has(kid(n, i), "directive_name")), patterns=[z3.MultiPattern(shape(n), kid(n, i))]),
        # selections
        z3.ForAll([n, i], z3.Implies(z3.And(shape(n), is_(n, "selection_set"), 0 <= i, i < nkids(n)), z3.Or(is_(kid(n, i), "field"), is_(kid(n, i), "fragment_spread"), is_(kid(n, i), "inline_fragment"))), patterns=[z3.MultiPattern(shape(n), kid(n, i))]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), z3.Or(is_(n, "fragment_spread"), is_(n, "type_condition"))), nkids(n) >= 1), patterns=[shape(n)]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "inline_fragment")), has(n, "selection_set")), patterns=[shape(n)]),
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "field")), has(n, "field_name")), patterns=[shape(n)]),
        # a fragment definition: name, type condition, directives, selection set
        z3.ForAll([n], z3.Implies(z3.And(shape(n), is_(n, "fragment_definition")), z3.And(nkids(n) >= 3, is_(front(n), "fragment_name"), is_(kid(n, z3.IntVal(1)), "type_condition"), is_(back(n), "selection_set"), shape(back(n)), shape(kid(n, z3.IntVal(1))))), patterns=[shape(n)]),
    ]


VALUE_RULES = ("variable_value", "integer_value", "float_value", "string_value", "true_keyword", "false_keyword", "null_keyword", "enum_value", "list_value", "object_value")
def is_value(n): return z3.Or([is_(n, r) for r in VALUE_RULES])
def dname(n): return ntext(child(n, "directive_name"))
def vdname(n): return var_name(child(n, "variable_name"))
def var_name(n): return Str.slice_(ntext(n), 1, Str.len_(ntext(n)))


# ------------------------------------------------------------------ what a value literal denotes
class D: pass


def setup_den():
    if hasattr(D, "den"): return
    D.den = z3.Function("denotes", V.S, V.S, Node, Bool)        # variables, value, literal (the nested relation, not unfolded)
    D.undef = z3.Function("has_undefined_variable", V.S, Node, Bool)
    D.wit = z3.Function("undefined_at", V.S, Node, Int)
    D.args = z3.Function("denotes_arguments", V.S, V.S, Node, Bool)     # of a field or directive with or without arguments
    D.dundef = z3.Function("directives_have_undefined_variable", V.S, Node, Bool)
    D.dwit = z3.Function("undefined_directive", V.S, Node, Int)
    D.vundef = z3.Function("defaults_have_undefined_variable", V.S, Node, Bool)
    D.vwit = z3.Function("undefined_default", V.S, Node, Int)
    D.bound = z3.Function("binds_variable", V.S, V.S, Node, Bool)       # supplied variables, value, definition


def members_den(vars, m, n):
    """the map m has one member per (name, value) child of n, in order"""
    i = z3.Int("mdi")
    return [("one member per field", mlen(m) == nkids(n)),
            ("names in order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nkids(n)), name_at(m, i) == ntext(front(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)])),
            ("each with the value its literal denotes", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nkids(n)), D.den(vars, val_at(m, i), back(kid(n, i)))), patterns=[TH(m).at_(m, i), kid(n, i)]))]


def find_idx(vars, nm):
    return nm


def denotes(vars, v, n):
    """unfolded: [(label, formula)]"""
    i = z3.Int("dni")
    ls = list_(v)
    txt = ntext(n)
    fits = z3.And(int_of(txt) >= -(1 << 31), int_of(txt) <= (1 << 31) - 1)
    k = z3.Int("dnk")
    vm = map_(vars)
    out = [
        ("a variable is its supplied value", is_(n, "variable_value"), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < mlen(vm), name_at(vm, k) == var_name(n)), V.veq_(v, val_at(vm, k))), patterns=[TH(vm).at_(vm, k)])),
        ("an integer is its number", z3.And(is_(n, "integer_value"), fits), z3.And(tag_is(v, INT), int_(v) == z3.Int2BV(int_of(txt), 32))),
        ("an integer beyond 32 bits is that number as a float", z3.And(is_(n, "integer_value"), z3.Not(fits)), z3.And(tag_is(v, FLOAT), float_(v) == dbl_of(txt))),
        ("a float is its number", is_(n, "float_value"), z3.And(tag_is(v, FLOAT), float_(v) == dbl_of(txt))),
        ("a string is its text, unescaped", is_(n, "string_value"), z3.And(tag_is(v, STRING), str_(v) == unesc(n), z3.Not(fromjson(v)))),
        ("true", is_(n, "true_keyword"), z3.And(tag_is(v, BOOL), bool_(v))),
        ("false", is_(n, "false_keyword"), z3.And(tag_is(v, BOOL), z3.Not(bool_(v)))),
        ("null", is_(n, "null_keyword"), tag_is(v, NULL)),
        ("an enum value is its name", is_(n, "enum_value"), z3.And(tag_is(v, ENUM), enum_(v) == txt)),
        ("a list", is_(n, "list_value"), z3.And(tag_is(v, LIST), mlen(ls) == nkids(n))),
        ("list elements in order", is_(n, "list_value"), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nkids(n)), D.den(vars, TH(ls).at_(ls, i), kid(n, i))), patterns=[TH(ls).at_(ls, i), kid(n, i)])),
        ("an object", is_(n, "object_value"), tag_is(v, MAP)),
    ]
    out += [("object: " + l, is_(n, "object_value"), f) for l, f in members_den(vars, map_(v), n)]
    return [(l, z3.Implies(c, f)) for l, c, f in out]


def undef_axioms():
    vs = z3.Const("uvs", V.S); n = z3.Const("un", Node); i = z3.Int("ui")
    U, w = D.undef, D.wit
    return [
        z3.ForAll([vs, n, i], z3.Implies(z3.And(is_(n, "list_value"), 0 <= i, i < nkids(n), U(vs, kid(n, i))), U(vs, n)), patterns=[U(vs, kid(n, i))]),
        z3.ForAll([vs, n, i], z3.Implies(z3.And(z3.Or(is_(n, "object_value"), is_(n, "arguments")), 0 <= i, i < nkids(n), U(vs, back(kid(n, i)))), U(vs, n)), patterns=[U(vs, back(kid(n, i)))]),
        z3.ForAll([vs, n], z3.Implies(z3.And(is_(n, "list_value"), U(vs, n)), z3.And(0 <= w(vs, n), w(vs, n) < nkids(n), U(vs, kid(n, w(vs, n))))), patterns=[U(vs, n)]),
        z3.ForAll([vs, n], z3.Implies(z3.And(z3.Or(is_(n, "object_value"), is_(n, "arguments")), U(vs, n)), z3.And(0 <= w(vs, n), w(vs, n) < nkids(n), U(vs, back(kid(n, w(vs, n)))))), patterns=[U(vs, n)]),
        z3.ForAll([vs, n], z3.Implies(is_(n, "variable_value"), U(vs, n) == absent(vs, var_name(n))), patterns=[U(vs, n)]),
        z3.ForAll([vs, n], z3.Implies(z3.Or([is_(n, r) for r in VALUE_RULES if r not in ("variable_value", "list_value", "object_value")]), z3.Not(U(vs, n))), patterns=[U(vs, n)]),
    ]


def args_undef(vars, n): return z3.And(has(n, "arguments"), D.undef(vars, child(n, "arguments")))


def def_axioms():
    """definitions of the non-recursive relations"""
    vs, v = z3.Consts("dvs dv", V.S); n = z3.Const("dn", Node); i = z3.Int("di")
    a = child(n, "arguments")
    nm = vdname(n)
    k = z3.Int("dk")
    vm = map_(vs)
    dflt = front(child(n, "default_value"))
    var = lambda i: is_(kid(n, i), "variable")
    vu = lambda m: z3.And(absent(vs, vdname(m)), has(m, "default_value"), D.undef(vs, front(child(m, "default_value"))))
    return [
        z3.ForAll([vs, v, n], D.args(vs, v, n) == z3.And(tag_is(v, MAP), z3.If(has(n, "arguments"), z3.And([f for _, f in members_den(vs, map_(v), a)]), mlen(map_(v)) == 0)), patterns=[D.args(vs, v, n)]),
        z3.ForAll([vs, n, i], z3.Implies(z3.And(0 <= i, i < nkids(n), args_undef(vs, kid(n, i))), D.dundef(vs, n)), patterns=[z3.MultiPattern(D.dundef(vs, n), kid(n, i))]),
        z3.ForAll([vs, n], z3.Implies(D.dundef(vs, n), z3.And(0 <= D.dwit(vs, n), D.dwit(vs, n) < nkids(n), args_undef(vs, kid(n, D.dwit(vs, n))))), patterns=[D.dundef(vs, n)]),
        z3.ForAll([vs, v, n], D.bound(vs, v, n) == z3.And(
            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < mlen(vm), name_at(vm, k) == nm), V.veq_(v, val_at(vm, k))), patterns=[TH(vm).at_(vm, k)]),
            z3.Implies(absent(vs, nm), z3.If(has(n, "default_value"), D.den(vs, v, dflt), tag_is(v, NULL)))), patterns=[D.bound(vs, v, n)]),
        z3.ForAll([vs, n, i], z3.Implies(z3.And(0 <= i, i < nkids(n), var(i), vu(kid(n, i))), D.vundef(vs, n)), patterns=[z3.MultiPattern(D.vundef(vs, n), kid(n, i))]),
        z3.ForAll([vs, n], z3.Implies(D.vundef(vs, n), z3.And(0 <= D.vwit(vs, n), D.vwit(vs, n) < nkids(n), var(D.vwit(vs, n)), vu(kid(n, D.vwit(vs, n))))), patterns=[D.vundef(vs, n)]),
    ]


def tree_axioms(ex):
    setup_den()
    if not hasattr(D, "axioms"): D.axioms = shape_axioms() + undef_axioms() + def_axioms()
    for a in D.axioms: ex.assume(a)
