"""response::Value: sort, invariant, equality and contracts of all its members (proved by C03, used by the other properties)"""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, BV, Str
from cppcv.models import Models, map_theory_for, str_lt, Dbl, dbl_of_int, cstr
from cppcv.engine import LoopSpec, Iter, Loc, StructV, RefV, ExcV, Ptr
from cppcv.ctypes_ import parse, CT
from cppcv.front import qt, children

VT = "graphql::response::Value"
MAP, LIST, STRING, NULL, BOOL, INT, FLOAT, ENUM, SCALAR = range(9)
Bytes = L.seq_of(z3.BitVecSort(8))
b64enc = z3.Function("b64enc", Bytes.sort, Str.sort)
b64ok = z3.Function("b64ok", Str.sort, Bool)
b64dec = z3.Function("b64dec", Str.sort, Bytes.sort)


class V:
    """views of the Value sort (built from the AST of the real struct)"""
    S = None


def data(v): return L.rec_get(v, "_data")
def tag_is(v, t): return L.var_is(data(v), t)
def tag(v):
    d = data(v)
    r = z3.IntVal(8)
    for i in reversed(range(8)): r = z3.If(L.var_is(d, i), z3.IntVal(i), r)
    return r
def alt(v, t): return L.var_get(data(v), t)
def map_(v): return L.rec_get(alt(v, MAP), "map")
def members(v): return L.rec_get(alt(v, MAP), "members")
def list_(v): return alt(v, LIST)
def str_(v): return L.rec_get(alt(v, STRING), "string")
def fromjson(v): return L.rec_get(alt(v, STRING), "from_json")
def bool_(v): return alt(v, BOOL)
def int_(v): return alt(v, INT)
def float_(v): return alt(v, FLOAT)
def enum_(v): return alt(v, ENUM)
def scalar(v): return L.rec_get(alt(v, SCALAR), "scalar")
def TH(s): return L.seq_theory_for_sort(s.sort())
def name_at(m, i): return L.rec_get(TH(m).at_(m, i), "first")
def val_at(m, i): return L.rec_get(TH(m).at_(m, i), "second")
def mlen(m): return TH(m).len_(m)


inv = z3.Function("member_slot", L.seq_of(Int).sort, Int, Int)   # Skolem witness: where a map position is listed in members


def wf_map(m, mem, tagp="w"):
    i, j, k = z3.Ints(tagp + "i " + tagp + "j " + tagp + "k")
    A = TH(mem).at_
    n = mlen(m)
    return [("as many slots as members", mlen(mem) == n),
            ("slots are positions", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= A(mem, i), A(mem, i) < n)), patterns=[A(mem, i)])),
            ("slots are sorted by name, each name once", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), str_lt(name_at(m, A(mem, i)), name_at(m, A(mem, j)))), patterns=[z3.MultiPattern(A(mem, i), A(mem, j))])),
            ]


def slot_hyp(m, mem):
    k = z3.Int("hk")
    A = TH(mem).at_
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < mlen(m)), z3.And(0 <= inv(mem, k), inv(mem, k) < mlen(m), A(mem, inv(mem, k)) == k)), patterns=[TH(m).at_(m, k), inv(mem, k)])


def slot_goal(m, mem):
    """every member has a slot: for an arbitrary position k"""
    w = z3.Int("gw")
    k = V.ex.fresh("anypos", Int)
    A = TH(mem).at_
    for t in L.mention(TH(m).at_(m, k), inv(mem, k)): V.ex.assume(t)
    return z3.Implies(z3.And(0 <= k, k < mlen(m)), z3.Exists([w], z3.And(0 <= w, w < mlen(m), A(mem, w) == k), patterns=[A(mem, w)]))


def wf_children(v):
    i = z3.Int("ci")
    m, l = map_(v), list_(v)
    return z3.And(z3.Implies(tag_is(v, MAP), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(m)), V.wf_(val_at(m, i))), patterns=[TH(m).at_(m, i)])),
                  z3.Implies(tag_is(v, LIST), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(l)), V.wf_(TH(l).at_(l, i))), patterns=[TH(l).at_(l, i)])),
                  z3.Implies(z3.And(tag_is(v, SCALAR), L.opt_is(scalar(v))), V.wf_(L.opt_val(scalar(v)))))


def wf(v, goal=False):
    """class invariant: [(label, formula)]"""
    if not goal:
        r = _wf.get(v.get_id())
        if r is None: r = _wf[v.get_id()] = (_wf_of(v, False), v)
        return list(r[0])
    return _wf_of(v, True)


_wf = {}
def _wf_of(v, goal):
    m, mem = map_(v), members(v)
    out = [("invariant: " + l, z3.Implies(tag_is(v, MAP), f)) for l, f in wf_map(m, mem)]
    out.append(("invariant: every member has a slot", z3.Implies(tag_is(v, MAP), slot_goal(m, mem) if goal else slot_hyp(m, mem))))
    out.append(("invariant: nested values satisfy the invariant", wf_children(v)))
    return out


def inv_of(c, l, v):
    """the class invariant as a precondition: assumed at entry, checked at calls"""
    if c.ex.callctx is c: return [(l + x, f) for x, f in wf(v)] + [(l + "invariant", V.wf_(v))]
    w = V.wf_(v)
    if w.get_id() in c.ex.pcset: return [(l + "class invariant of Value", z3.BoolVal(True))]
    return [(l + "class invariant of Value", z3.Or(V.wf_(v), z3.And([f for _, f in wf(v, True)])))]


def inv_after(v):
    """the class invariant as a postcondition of code that only uses the members of Value"""
    w = V.wf_(v)
    if w.get_id() in V.ex.pcset: return [("the value satisfies its invariant", w)]
    return [("the value satisfies its invariant", z3.Or(V.wf_(v), z3.And([f for _, f in wf(v, True)])))]


def veq_body(a, b):
    i = z3.Int("qi")
    a, b = named(V.ex, a, "cmp_a"), named(V.ex, b, "cmp_b")
    m1, m2, l1, l2 = map_(a), map_(b), list_(a), list_(b)
    s1, s2 = scalar(a), scalar(b)
    both = lambda t, *f: z3.And(tag_is(a, t), tag_is(b, t), *f)
    return z3.Or(
        both(MAP, mlen(m1) == mlen(m2), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(m1)), z3.And(name_at(m1, i) == name_at(m2, i), V.veq_(val_at(m1, i), val_at(m2, i)))), patterns=[TH(m1).at_(m1, i), TH(m2).at_(m2, i)])),
        both(LIST, mlen(l1) == mlen(l2), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(l1)), V.veq_(TH(l1).at_(l1, i), TH(l2).at_(l2, i))), patterns=[TH(l1).at_(l1, i), TH(l2).at_(l2, i)])),
        both(STRING, str_(a) == str_(b), fromjson(a) == fromjson(b)),
        both(NULL), both(BOOL, bool_(a) == bool_(b)), both(INT, int_(a) == int_(b)), both(FLOAT, float_(a) == float_(b)), both(ENUM, enum_(a) == enum_(b)),
        both(SCALAR, L.opt_is(s1) == L.opt_is(s2), z3.Implies(L.opt_is(s1), V.veq_(L.opt_val(s1), L.opt_val(s2)))))


def setup(m):
    """called when the models are bound: builds the Value sort once"""
    S = m.sort_of(CT(VT))
    if V.S is None:
        V.S = S
        V.veq_ = z3.Function("veq_", S, S, Bool)     # equality of nested values (the same relation, not unfolded)
        V.wf_ = z3.Function("wf_", S, Bool)
        V.D = data(z3.Const("v0", S)).sort()
    return S


class VM(Models):
    recursive = (VT,)

    def bind(self, ex):
        self.ex = V.ex = ex
        setup(self)

    def moved(self, v):
        if z3.is_expr(v) and V.S is not None and v.sort() == V.S:
            return L.rec_mk(V.S, [self.moved(data(v))])
        if z3.is_expr(v) and V.S is not None and v.sort() == V.D:
            i0 = lambda i, x: L.var_mk(V.D, i, x)
            md = L.var_get(v, MAP).sort()
            emp = L.rec_mk(md, [L.seq_theory_for_sort(s).empty for s in (L.rec_sort(md, "map"), L.rec_sort(md, "members"))])
            ls = L.var_get(v, LIST).sort(); sd = L.var_get(v, STRING).sort(); sc = L.var_get(v, SCALAR).sort()
            after = {MAP: lambda: i0(MAP, emp), LIST: lambda: i0(LIST, L.seq_theory_for_sort(ls).empty),
                     STRING: lambda: i0(STRING, L.rec_mk(sd, [self.ex.fresh("moved_str", Str.sort), L.rec_get(L.var_get(v, STRING), "from_json")])),
                     ENUM: lambda: i0(ENUM, self.ex.fresh("moved_str", Str.sort)), SCALAR: lambda: i0(SCALAR, L.rec_mk(sc, [L.opt_none(L.rec_sort(sc, "scalar"))]))}
            for t in range(9):
                if z3.is_true(L.var_is(v, t)): return after[t]() if t in after else v
            r = self.ex.fresh("moved", V.D)
            for t in range(9):
                self.ex.assume(z3.Implies(L.var_is(v, t), r == (after[t]() if t in after else v)))
            return r
        return Models.moved(self, v)


# ------------------------------------------------------------------ contract helpers
def VAL(c, o): return c.M.pack_sort(c.ex.val(o), V.S)
def T0(c): return c.M.pack_sort(c.this_old, V.S)
def T1(c):
    if getattr(c, "t1", None) is None: c.t1 = named(c.ex, c.M.pack_sort(c.this_new, V.S), "after")
    return c.t1
def same(a, b): return data(a) == data(b) if not data(a).eq(data(b)) else z3.BoolVal(True)
def strict_same(c): return [("the value is unchanged", same(T1(c), T0(c)))]
def eqs(a, b): return L.eqgoal(a, b)


def pre_this(c): return wf(T0(c))


def old_arg(c, i): return c.old[i]


def res(c): return c.ex.val(c.res)


def ref_path(c):
    l = c.res
    if not isinstance(l, Loc): raise Unsupported("result is not a reference")
    return c.ex.deref(l)


TUF = "src/GraphQLResponse.cpp"
LOGIC = CT("std::logic_error")


class VC(Contract):
    """contract of a Value member: when it succeeds (cond), what it returns (value), what the value becomes (effect)"""

    def __init__(self, name, fn, pred=None, cond=None, value=None, effect=None, exc_ct=LOGIC, post=None, ctor=False, label="", argpre=None, apply=None, const=False, nopre=False, place=None):
        self.place = place
        Contract.__init__(self, "Value::" + name, TUF, VT + "::" + fn, pred)
        self.cond_, self.value_, self.effect_, self.exc_ct_ = cond, value, effect, exc_ct
        self.post_, self.ctor, self.label, self.apply_, self.const = post, ctor, label or "result", apply, const
        self.argpre = argpre
        self.pre = self._pre if not nopre else (lambda c: []); self.post = self._post
        self.exc = self._exc if cond is not None else None
        if apply is not None or post is None: self.call = self._call

    def _pre(self, c):
        out = []
        vals = [] if self.ctor or c.this is None else [("", T0(c))]
        for i, a in enumerate(c.old):
            try:
                vals.append(("argument ", c.M.pack_sort(a, V.S)))
            except Unsupported:
                pass
        for l, v in vals: out += inv_of(c, l, v)
        if self.argpre: out += self.argpre(c)
        return out

    def _post(self, c):
        out = []
        if self.cond_ is not None: out.append(("succeeds only when the type allows it", self.cond_(c)))
        if self.value_ is not None:
            want = self.value_(c)
            out.append((self.label, eqs(c.M.pack_sort(c.ex.val(c.res), want.sort()), want)))
        if self.place is not None: out.append(("a reference to the content itself", z3.BoolVal(ref_path(c).same(c.ex.deref(self.place(c))))))
        if self.post_ is not None: out += self.post_(c)
        if c.this is not None:
            if self.effect_ is not None: out.append(("the value afterwards", eqv(T1(c), self.effect_(c))))
            elif self.const: out += strict_same(c)
            if self.ctor or not self.const: out += [("afterwards, " + l, f) for l, f in wf(T1(c), True)]
        return out

    def _exc(self, c):
        return [("fails only when the type does not allow it", z3.Not(self.cond_(c))), ("the error is a logic_error or runtime_error", z3.BoolVal(c.exc is not None and c.exc.ct.name in ("std::logic_error", "std::runtime_error", "std::out_of_range", "std::exception")))] + ([] if self.ctor else strict_same(c))

    def _call(self, c):
        ex = c.ex
        if ex.pure and not self.const: raise NotPure()
        if self.cond_ is not None and not ex.choose(self.cond_(c)):
            raise CppThrow(ExcV(self.exc_ct_, None, ex.fresh("msg", Str.sort)))
        if self.apply_ is not None:
            r = self.apply_(c)
            self._known_wf(c)
            return r
        r = VOID
        if self.value_ is not None: r = self.value_(c)
        if self.effect_ is not None: ex.write(c.this, named(ex, self.effect_(c), "val"))
        self._known_wf(c)
        if self.place is not None: return c.ex.deref(self.place(c))
        if self.value_ is not None and qt(c.decl).split("(")[0].rstrip().endswith("&"): return ex.alloc(r, "ref")
        return r


    def _known_wf(self, c):
        """the postcondition of every mutating member includes the class invariant"""
        if not self.const and c.this is not None: c.ex.assume(V.wf_(c.M.pack_sort(c.ex.val(c.this), V.S)))


def has_ite(t):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(x) for x in t.children()))


def named(ex, t, nm):
    if not has_ite(t) and not has_ite(z3.simplify(t)): return t
    r = ex.fresh(nm, t.sort())
    ex.assume(r == t)
    return r


def eqv(a, b):
    """structural equality of two values as a goal"""
    da, db = data(a), data(b)
    out = []
    for i in range(9):
        x, y = L.var_get(da, i), L.var_get(db, i)
        out.append(z3.And(L.var_is(da, i) == L.var_is(db, i), z3.Implies(L.var_is(da, i), L.eqgoal(x, y))))
    return z3.And(out)


def mk(t, x):
    return L.rec_mk(V.S, [L.var_mk(V.D, t, x)])


def vsort(t): return V.D.accessor(t, 0).range()
def rmk(t, *xs): return mk(t, L.rec_mk(vsort(t), list(xs)))
def m_map(m, mem): return rmk(MAP, m, mem)
def m_str(s, j=False): return rmk(STRING, s, z3.BoolVal(j) if isinstance(j, bool) else j)
def m_scalar(o): return rmk(SCALAR, o)
def opt_val_sort(): return L.rec_sort(vsort(SCALAR), "scalar")
def seq_map(): return L.seq_theory_for_sort(L.rec_sort(vsort(MAP), "map"))
def seq_list(): return L.seq_theory_for_sort(vsort(LIST))
IntSeq = L.seq_of(Int)
def m_null(): return mk(NULL, unit_of(vsort(NULL)))


def unit_of(s): return L.rec_mk(s, [z3.BoolVal(True)])


def mg(part): return lambda d, tu: ("5Value" + part) in d.get("mangledName", "")


def tags(c, *ts): return z3.Or([tag_is(T0(c), t) for t in ts])


def string_of(v): return z3.If(tag_is(v, ENUM), enum_(v), str_(v))


def with_string(v, s): return z3.If(tag_is(v, ENUM), mk(ENUM, s), m_str(s, fromjson(v)))


I_STR = "INSt7__cxx1112basic"
I_MAP = "ISt6vectorISt4pairIN"
I_LIST = "ISt6vectorIS1_"
I_ID = "ISt6vectorIh"
contracts = []


def add(*a, **k): contracts.append(VC(*a, **k)); return contracts[-1]


# ---- set
add("set<String>", "set", mg("3set" + I_STR), cond=lambda c: tags(c, ENUM, STRING), effect=lambda c: with_string(T0(c), c.old[0]))
add("set<Boolean>", "set", mg("3setIb"), cond=lambda c: tags(c, BOOL), effect=lambda c: mk(BOOL, c.old[0]))
add("set<Int>", "set", mg("3setIi"), cond=lambda c: tags(c, INT, FLOAT), effect=lambda c: z3.If(tag_is(T0(c), FLOAT), mk(FLOAT, dbl_of_int(c.old[0])), mk(INT, c.old[0])))
add("set<Float>", "set", mg("3setId"), cond=lambda c: tags(c, FLOAT), effect=lambda c: mk(FLOAT, c.old[0]))
add("set<Scalar>", "set", mg("3setIS1_"), cond=lambda c: tags(c, SCALAR), effect=lambda c: m_scalar(L.opt_some(opt_val_sort(), c.M.pack_sort(c.old[0], V.S))))
add("set<Id>", "set", mg("3set" + I_ID), cond=lambda c: tags(c, STRING), effect=lambda c: m_str(b64enc(c.old[0]), fromjson(T0(c))))
# ---- get
def getter(nm, part, cond, value, **k): add("get<%s>" % nm, "get", mg("3get" + part), cond=cond, value=value, const=True, label="the content stored last", **k)
getter("Map", I_MAP, lambda c: tags(c, MAP), lambda c: map_(T0(c)), place=lambda c: c.this.ext(("f", "_data"), ("v", MAP), ("f", "map")))
getter("List", I_LIST, lambda c: tags(c, LIST), lambda c: list_(T0(c)), place=lambda c: c.this.ext(("f", "_data"), ("v", LIST)))
getter("String", I_STR, lambda c: tags(c, ENUM, STRING), lambda c: string_of(T0(c)))
getter("Boolean", "Ib", lambda c: tags(c, BOOL), lambda c: bool_(T0(c)))
getter("Int", "Ii", lambda c: tags(c, INT), lambda c: int_(T0(c)))
getter("Float", "Id", lambda c: tags(c, INT, FLOAT), lambda c: z3.If(tag_is(T0(c), INT), dbl_of_int(int_(T0(c))), float_(T0(c))))
getter("Scalar", "IS1_", lambda c: z3.And(tags(c, SCALAR), L.opt_is(scalar(T0(c)))), lambda c: L.opt_val(scalar(T0(c))))
getter("Id", I_ID, lambda c: z3.And(tags(c, STRING), b64ok(str_(T0(c)))), lambda c: b64dec(str_(T0(c))))


# ---- release: hands out the content; the value keeps its type and its invariant
def releaser(nm, part, cond, value, after):
    def post(c): return [("the type stays", tag(T1(c)) == tag(T0(c)))] + after(c)
    def ap(c):
        r = value(c)
        n = c.ex.fresh("released", V.S)
        c.ex.write(c.this, n)
        for l, f in post(c) + wf(n): c.ex.assume(f)
        return r
    add("release<%s>" % nm, "release", mg("7release" + part), cond=cond, value=value, post=post, apply=ap, label="hands out exactly the content")
releaser("Map", I_MAP, lambda c: tags(c, MAP), lambda c: map_(T0(c)), lambda c: [("nothing is left", mlen(map_(T1(c))) == 0)])
releaser("List", I_LIST, lambda c: tags(c, LIST), lambda c: list_(T0(c)), lambda c: [("nothing is left", mlen(list_(T1(c))) == 0)])
releaser("String", I_STR, lambda c: tags(c, ENUM, STRING), lambda c: string_of(T0(c)), lambda c: [])
releaser("Scalar", "IS1_", lambda c: z3.And(tags(c, SCALAR), L.opt_is(scalar(T0(c)))), lambda c: L.opt_val(scalar(T0(c))), lambda c: [])
_rid = VC("release<Id>", "release", mg("7release" + I_ID), cond=lambda c: z3.And(tags(c, STRING), b64ok(str_(T0(c)))), value=lambda c: b64dec(str_(T0(c))), post=lambda c: [("the type stays", tag(T1(c)) == tag(T0(c)))], label="hands out exactly the content")
_rid._exc0 = _rid.exc
_rid.exc = lambda c: [("fails only when the content is no identifier", z3.Not(_rid.cond_(c))), ("the type stays", tag(T1(c)) == tag(T0(c)))]
def _rid_call(c):
    ex = c.ex
    if ex.pure: raise NotPure()
    ok = ex.choose(_rid.cond_(c))
    r = b64dec(str_(T0(c)))
    n = ex.fresh("released", V.S)
    ex.assume(tag(n) == tag(T0(c)))
    for l, f in wf(n): ex.assume(f)
    ex.assume(V.wf_(n))
    ex.write(c.this, n)
    if not ok: raise CppThrow(ExcV(LOGIC, None, ex.fresh("msg", Str.sort)))
    return r
_rid.call = _rid_call
contracts.append(_rid)


# ---- constructors
def default_of(t):
    e = {MAP: lambda: m_map(seq_map().empty, IntSeq.empty), LIST: lambda: mk(LIST, seq_list().empty), STRING: lambda: m_str(Str.empty),
         NULL: m_null, BOOL: lambda: mk(BOOL, z3.BoolVal(False)), INT: lambda: mk(INT, z3.BitVecVal(0, 32)), FLOAT: lambda: mk(FLOAT, FZERO()),
         ENUM: lambda: mk(ENUM, Str.empty), SCALAR: lambda: m_scalar(L.opt_none(opt_val_sort()))}
    return e[t]()


def FZERO():
    return Models.float_const(Models(), "0")


def default_val(t):
    r = default_of(8)
    for i in range(8): r = z3.If(t == i, default_of(i), r)
    return r


def ctor(nm, mangled, effect, **k):
    add(nm, "Value", lambda d, tu: d.get("mangledName", "").endswith("5ValueC1E" + mangled), effect=effect, ctor=True, **k)
ctor("Value(Type)", "NS0_4TypeE", lambda c: default_val(c.old[0]), argpre=lambda c: [("a Type", z3.And(c.old[0] >= 0, c.old[0] <= 8))])
ctor("Value(const char*)", "PKc", lambda c: m_str(c.old[0]))
ctor("Value(StringType&&)", "ONSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", lambda c: m_str(c.old[0]))
ctor("Value(BooleanType)", "b", lambda c: mk(BOOL, c.old[0]))
ctor("Value(IntType)", "i", lambda c: mk(INT, c.old[0]))
ctor("Value(FloatType)", "d", lambda c: mk(FLOAT, c.old[0]))
ctor("Value(const IdType&)", "RKSt6vectorIhSaIhEE", lambda c: m_str(b64enc(c.old[0])))


def arg_val(c, i): return c.M.pack_sort(c.old[i], V.S)


def moved_ok(c):
    n = VAL(c, c.args[0])
    return [("the moved-from value keeps its type", tag(n) == tag(arg_val(c, 0)))] + [("moved-from value, " + l, f) for l, f in wf(n, True)]


def move_apply(c):
    v = arg_val(c, 0)
    src = c.args[0]
    c.ex.write(c.this, v)
    if isinstance(src, Loc):
        c.ex.move_from(src)
        c.ex.assume(V.wf_(c.M.pack_sort(c.ex.val(src), V.S)))
    return c.this if c.decl["kind"] != "CXXConstructorDecl" else VOID
ctor("Value(Value&&)", "OS1_", lambda c: arg_val(c, 0), post=moved_ok, apply=move_apply)


def copy_inv(ctx):
    """whatever is being rebuilt: the containers filled so far correspond to the elements visited so far"""
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    o = arg_val(c, 0)
    out = []
    i = z3.Int("li")
    q = z3.Const("lq", Str.sort)
    pairs = L.rec_sort(vsort(MAP), "map")
    isdata = lambda t, d: t.name == VT + "::MapData" or (t.name == "std::vector" and ex.M._sort_is(t, pairs))
    cur = ctx.seq()
    for l in ctx.locals_(isdata):
        v = ex.val(l)
        m = ex.val(ex.field(v, "map")) if not (z3.is_expr(v) and v.sort() == pairs) else v
        if cur is not None and cur.eq(map_(o)):
            om = map_(o)
            out += [("as many members as visited", mlen(m) == k),
                    ("every member visited is copied", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(name_at(m, i) == name_at(om, i), V.veq_(val_at(m, i), val_at(om, i)), V.wf_(val_at(m, i)))), patterns=[TH(m).at_(m, i), TH(om).at_(om, i)]))]
    for l in ctx.locals_(lambda t, d: t.name == "std::map"):
        w = ex.val(l)
        mt = map_theory_for(w.sort())
        if cur is not None and z3.is_expr(cur) and cur.sort() == pairs and not cur.eq(map_(o)):
            out += [("as many names as visited", mt.size_(w) == k), ("positions visited are within the object", k <= mlen(cur)),
                    ("every name visited has its position", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(mt.has_(w, name_at(cur, i)), mt.get_(w, name_at(cur, i)) == i)), patterns=[TH(cur).at_(cur, i)])),
                    ("every position is the one of its name", z3.ForAll([q], z3.Implies(mt.has_(w, q), z3.And(0 <= mt.get_(w, q), mt.get_(w, q) < k, name_at(cur, mt.get_(w, q)) == q)), patterns=[mt.has_(w, q)]))]
    if cur is None:
        for l in ctx.locals_(lambda t, d: ex.M._sort_is(t, vsort(LIST))):
            m = ex.val(l); ol = list_(o); th = TH(ol)
            out += [("as many elements as visited", z3.And(th.len_(m) == k, k <= th.len_(ol))),
                    ("every element visited is copied", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(V.veq_(th.at_(m, i), th.at_(ol, i)), V.wf_(th.at_(m, i)))), patterns=[th.at_(m, i), th.at_(ol, i)]))]
    return out


def copy_post(c): return [("the copy is equal to the original", veq_body(T1(c), arg_val(c, 0)))]
def copy_apply(c):
    n = c.ex.fresh("copy", V.S)
    c.ex.write(c.this, n)
    c.ex.assume(V.veq_(n, arg_val(c, 0)))
    c.ex.assume(V.wf_(n)); c.ex.assume(tag(n) == tag(arg_val(c, 0)))
    for l, f in wf(n): c.ex.assume(f)
    return VOID
ctor("Value(const Value&)", "RKS1_", None, post=copy_post, apply=copy_apply)
contracts[-1].loops = [LoopSpec("copy", copy_inv)]
add("operator=(Value&&)", "operator=", lambda d, tu: True, effect=lambda c: arg_val(c, 0), post=lambda c: moved_ok(c) + [("returns this", z3.BoolVal(ref_path(c).same(c.this)))], apply=move_apply)


# ---- comparison
def veq_apply(c): return V.veq_(T0(c), arg_val(c, 0))
add("operator==", "operator==", None, post=lambda c: [("equal exactly when type and content are equal", res(c) == veq_body(T0(c), arg_val(c, 0)))], apply=veq_apply, const=True, nopre=True)
add("operator!=", "operator!=", None, post=lambda c: [("negation of ==", res(c) == z3.Not(V.veq_(T0(c), arg_val(c, 0))))], apply=lambda c: z3.Not(V.veq_(T0(c), arg_val(c, 0))), const=True, nopre=True)
def scal_eq(c):
    a = c.M.pack_sort(c.this_old, vsort(SCALAR)); b = c.M.pack_sort(c.old[0], vsort(SCALAR))
    a, b = L.rec_get(a, "scalar"), L.rec_get(b, "scalar")
    return z3.And(L.opt_is(a) == L.opt_is(b), z3.Implies(L.opt_is(a), V.veq_(L.opt_val(a), L.opt_val(b))))
contracts.append(Contract("Value::ScalarData::operator==", TUF, VT + "::ScalarData::operator==", post=lambda c: [("equal content, or both empty", res(c) == scal_eq(c))], call=scal_eq))
# ---- type queries
add("type", "type", None, value=lambda c: tag(T0(c)), const=True, label="the one type of the value")
def fj(c): return z3.If(tag_is(T0(c), STRING), m_str(str_(T0(c)), True), T0(c))
def fj_apply(c): c.ex.write(c.this, fj(c)); return c.this
add("from_json", "from_json", None, effect=fj, post=lambda c: [("returns this", z3.BoolVal(ref_path(c).same(c.this)))], apply=fj_apply)
add("maybe_enum", "maybe_enum", None, value=lambda c: z3.Or(tag_is(T0(c), ENUM), z3.And(tag_is(T0(c), STRING), fromjson(T0(c)))), const=True, label="an enum, or a string flagged as JSON input")
add("reserve", "reserve", None, cond=lambda c: tags(c, MAP, LIST), const=True)
add("size", "size", None, cond=lambda c: tags(c, MAP, LIST), value=lambda c: z3.If(tag_is(T0(c), MAP), mlen(map_(T0(c))), mlen(list_(T0(c)))), const=True, label="number of members or elements")


# ---- objects
def absent(v, nm):
    k = z3.Int("ab")
    m = map_(v)
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < mlen(m)), name_at(m, k) != nm), patterns=[TH(m).at_(m, k)])


def present(v, nm):
    k = z3.Int("pk")
    m = map_(v)
    return z3.Exists([k], z3.And(0 <= k, k < mlen(m), name_at(m, k) == nm), patterns=[TH(m).at_(m, k)])


def emplace_post(c):
    o, n = T0(c), T1(c)
    m, m2 = map_(o), map_(n)
    th = TH(m)
    nm, v = c.old[0], arg_val(c, 1)
    r = res(c)
    pair = L.rec_mk(th.elem, [nm, v])
    return [("still an object", tag_is(n, MAP)),
            ("a name already there is refused and changes nothing", z3.Implies(z3.Not(r), z3.And(present(o, nm), eqs(m2, m)))),
            ("a new name is accepted", z3.Implies(r, absent(o, nm))),
            ("the member is added at the end, the others stay", z3.Implies(r, eqs(m2, th.push(m, pair))))]


def emplace_apply(c):
    ex = c.ex
    c.res = ex.fresh("added", Bool)
    n = ex.fresh("obj", V.S)
    ex.write(c.this, n)
    for l, f in emplace_post(c) + wf(n): ex.assume(f)
    ex.assume(V.wf_(n))
    for a in c.args:
        if isinstance(a, Loc): ex.move_from(a)
    return c.res
add("emplace_back(name, value)", "emplace_back", mg("12emplace_backEONSt"), cond=lambda c: tags(c, MAP), post=emplace_post, apply=emplace_apply,
    argpre=lambda c: [("the member value satisfies the invariant", V.wf_(arg_val(c, 1)))])


def map_iter(c):
    it = c.ex.val(c.res)
    if not isinstance(it, Iter): raise Unsupported("iterator")
    l = c.ex.deref(it.loc)
    if not l.same(c.ex.deref(c.this.ext(("f", "_data"), ("v", MAP), ("f", "map")))): raise Unsupported("iterator into something else: %r" % (l,))
    return it.idx


def find_post(c):
    v = T0(c); i = map_iter(c); m = map_(v)
    return [("finds the member with the name, or the end exactly when there is none", z3.Or(z3.And(0 <= i, i < mlen(m), name_at(m, i) == c.old[0]), z3.And(i == mlen(m), absent(v, c.old[0]))))]


def this_map(c):
    return c.this.ext(("f", "_data"), ("v", MAP), ("f", "map"))


def find_apply(c):
    i = c.ex.fresh("pos", Int)
    m = map_(T0(c))
    c.res = Iter(this_map(c), i)
    for l, f in find_post(c): c.ex.assume(f)
    return c.res
add("find", "find", None, cond=lambda c: tags(c, MAP), post=find_post, apply=find_apply, const=True)
def begin_apply(c):
    c.ex.assume(wf_children(T0(c)))       # part of the invariant just required
    return Iter(this_map(c), z3.IntVal(0))
add("begin", "begin", None, cond=lambda c: tags(c, MAP), post=lambda c: [("the first member", map_iter(c) == 0)], apply=begin_apply, const=True)
add("end", "end", None, cond=lambda c: tags(c, MAP), post=lambda c: [("past the last member", map_iter(c) == mlen(map_(T0(c))))], apply=lambda c: Iter(this_map(c), mlen(map_(T0(c)))), const=True)


def member_post(c):
    l = ref_path(c)
    v = T0(c)
    if l.path[-1] != ("f", "second") or l.path[-2][0] != "i": raise Unsupported("reference to something else %r" % (l,))
    i = l.path[-2][1]
    return [("the member with the name", z3.And(0 <= i, i < mlen(map_(v)), name_at(map_(v), i) == c.old[0], z3.BoolVal(Loc(l.root, l.path[:-2]).same(c.ex.deref(this_map(c))))))]


def member_apply(c):
    i = c.ex.fresh("pos", Int)
    m = map_(T0(c))
    c.ex.assume(z3.And(0 <= i, i < mlen(m), name_at(m, i) == c.old[0]))
    c.ex.assume(V.wf_(val_at(m, i)))
    return c.ex.deref(this_map(c)).ext(("i", i), ("f", "second"))
add("operator[](name)", "operator[]", mg("ixESt17"), cond=lambda c: z3.And(tags(c, MAP), present(T0(c), c.old[0])), post=member_post, apply=member_apply, const=True, exc_ct=CT("std::runtime_error"))
# ---- lists
def push_effect(c): return mk(LIST, seq_list().push(list_(T0(c)), arg_val(c, 0)))
def push_apply(c):
    c.ex.write(c.this, push_effect(c))
    if isinstance(c.args[0], Loc): c.ex.move_from(c.args[0])
    return VOID
add("emplace_back(value)", "emplace_back", mg("12emplace_backEOS1_"), cond=lambda c: tags(c, LIST), effect=push_effect, apply=push_apply, post=lambda c: [], argpre=lambda c: [("the element satisfies the invariant", V.wf_(arg_val(c, 0)))])


def elem_post(c):
    l = ref_path(c)
    if l.path[-1][0] != "i": raise Unsupported("reference to something else")
    return [("the element at the index", z3.And(l.path[-1][1] == c.old[0], z3.BoolVal(Loc(l.root, l.path[:-1]).same(c.ex.deref(c.this.ext(("f", "_data"), ("v", LIST)))))))]


def elem_apply(c):
    c.ex.assume(V.wf_(TH(list_(T0(c))).at_(list_(T0(c)), c.old[0])))
    return c.ex.deref(c.this.ext(("f", "_data"), ("v", LIST), ("i", c.old[0])))
add("operator[](index)", "operator[]", mg("ixEm"), cond=lambda c: z3.And(tags(c, LIST), 0 <= c.old[0], c.old[0] < mlen(list_(T0(c)))), post=elem_post, apply=elem_apply, const=True)


def b64enc_call(c): return b64enc(c.old[0])
def b64dec_call(c):
    if not c.ex.choose(b64ok(c.old[0])): raise CppThrow(ExcV(LOGIC))
    return b64dec(c.old[0])
base64 = [Contract("Base64::toBase64", "src/Base64.cpp", "graphql::internal::Base64::toBase64", call=b64enc_call, exc=None),
          Contract("Base64::fromBase64", "src/Base64.cpp", "graphql::internal::Base64::fromBase64", call=b64dec_call)]
for _c in base64: _c.trusted = True
