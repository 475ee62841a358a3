"""C04: JSON writer and reader events."""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, Str
from cppcv.engine import LoopSpec, Iter, Loc, StructV, RefV, ExcV, Ptr
from cppcv.models import cstr, ptr_text, int_of_bv
from cppcv.ctypes_ import parse, CT
from cppcv.front import qt, children
from specs import value as W
from specs.value import *

PROPERTY = "C04"
TUF = "src/JSONResponse.cpp"
RJ = "graphql::rapidjson::"
Tok = z3.Datatype("Tok")
for _n, *_f in [("StartObject",), ("EndObject",), ("StartArray",), ("EndArray",), ("Null",), ("Key", ("key", Str.sort)), ("String", ("text", Str.sort)), ("Bool", ("b", Bool)), ("Int", ("i", z3.BitVecSort(32))), ("Double", ("d", Dbl))]:
    Tok.declare(_n, *_f)
Tok = Tok.create()
TS = L.seq_of(Tok)
render = z3.Function("render", TS.sort, Str.sort)     # the JSON text of a token sequence (rapidjson)


class S:
    emit = emitm = emitl = full_ = denoted = None


def ready():
    if S.emit is None:
        v, m, l = V.S, seq_map().sort, seq_list().sort
        S.emit = z3.Function("emit", TS.sort, v, TS.sort)
        S.emitm = z3.Function("emit_members", TS.sort, m, Int, TS.sort)
        S.emitl = z3.Function("emit_elements", TS.sort, l, Int, TS.sort)
        S.full_ = z3.Function("full_", v, Bool)
        S.denoted = z3.Function("json_value", Str.sort, v)


def T(n, *a): return getattr(Tok, n)(*a) if a else getattr(Tok, n)


def emit_body(w, v):
    """tokens of a value, written after w (one unfolding)"""
    P = TS.push
    m, l = map_(v), list_(v)
    return [(tag_is(v, MAP), P(S.emitm(P(w, T("StartObject")), m, mlen(m)), T("EndObject"))),
            (tag_is(v, LIST), P(S.emitl(P(w, T("StartArray")), l, mlen(l)), T("EndArray"))),
            (tag_is(v, STRING), P(w, T("String", str_(v)))), (tag_is(v, ENUM), P(w, T("String", enum_(v)))),
            (tag_is(v, NULL), P(w, T("Null"))), (tag_is(v, BOOL), P(w, T("Bool", bool_(v)))), (tag_is(v, INT), P(w, T("Int", int_(v)))),
            (tag_is(v, FLOAT), P(w, T("Double", float_(v)))), (tag_is(v, SCALAR), S.emit(w, L.opt_val(scalar(v))))]


def emit_def(w, v): return [z3.Implies(c, S.emit(w, v) == r) for c, r in emit_body(w, v)]


def members_def(w, m):
    k = z3.Int("mk")
    body = S.emit(TS.push(S.emitm(w, m, k), T("Key", name_at(m, k))), val_at(m, k))
    return [S.emitm(w, m, 0) == w, z3.ForAll([k], z3.Implies(0 <= k, S.emitm(w, m, k + 1) == body), patterns=[S.emitm(w, m, k)])]


def elements_def(w, l):
    k = z3.Int("ek")
    return [S.emitl(w, l, 0) == w, z3.ForAll([k], z3.Implies(0 <= k, S.emitl(w, l, k + 1) == S.emit(S.emitl(w, l, k), TH(l).at_(l, k))), patterns=[S.emitl(w, l, k)])]


def defs(w, v):
    P = TS.push
    return emit_def(w, v) + members_def(P(w, T("StartObject")), map_(v)) + elements_def(P(w, T("StartArray")), list_(v))


def full(v):
    """no empty Scalar inside (it has no value to write)"""
    i = z3.Int("fi")
    m, l = map_(v), list_(v)
    return [z3.Implies(tag_is(v, SCALAR), z3.And(L.opt_is(scalar(v)), S.full_(L.opt_val(scalar(v))))),
            z3.Implies(tag_is(v, MAP), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(m)), S.full_(val_at(m, i))), patterns=[TH(m).at_(m, i)])),
            z3.Implies(tag_is(v, LIST), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(l)), S.full_(TH(l).at_(l, i))), patterns=[TH(l).at_(l, i)]))]


def is_writer(n): return n.endswith("rapidjson::Writer")


class JM(VM):
    def bind(self, ex):
        VM.bind(self, ex)
        ready()
        for t in ("rapidjson::Writer", "graphql::rapidjson::Writer"): self.writer(t)
        for t in ("rapidjson::", "graphql::rapidjson::"):
            self.ctor_models[t + "GenericStringBuffer"] = lambda ex, ct, node, args: StructV(ct, {"toks": TS.empty})
            self.member_models[(t + "GenericStringBuffer", "GetString")] = lambda ex, o, a, n: cstr(render(ex.val(ex.field(ex.val(o), "toks"))))
            self.member_models[(t + "GenericStringBuffer", "GetSize")] = lambda ex, o, a, n: Str.len(render(ex.val(ex.field(ex.val(o), "toks"))))
            self.member_models[(t + "GenericStringBuffer", "GetLength")] = self.member_models[(t + "GenericStringBuffer", "GetSize")]
            self.ctor_models[t + "GenericReader"] = lambda ex, ct, node, args: StructV(ct, {})
            self.ctor_models[t + "GenericStringStream"] = lambda ex, ct, node, args: StructV(ct, {"src": ex.val(ex.eval(args[0]))})
            self.member_models[(t + "GenericReader", "Parse")] = self.parse_call

    def parse_call(self, ex, o, args, n):
        """rapidjson feeds the events of the text to the handler; what they build is the handler contracts' business (round-trip lemma)"""
        ss, h = ex.val(ex.eval(args[0])), ex.loc(ex.eval(args[1]))
        ex.write(h.ext(("f", "_responseStack")), seq_list().push(seq_list().empty, S.denoted(ss.f["src"])))
        ex.assume(V.wf_(S.denoted(ss.f["src"])))
        return VOID

    def writer(self, t):
        self.ctor_models[t] = lambda ex, ct, node, args: StructV(ct, {"os": RefV(ex.deref(ex.loc(ex.eval(args[0]))))})
        def out(nm, arg=None):
            def f(ex, o, args, n):
                l = wloc(ex, o)
                a = [ex.val(ex.eval(x)) for x in self._live(args)]
                if arg == "text":
                    if len(a) >= 2:
                        w = int_of_bv(a[1]) if z3.is_bv(a[1]) else a[1]
                        txt = ptr_text(a[0], w) if z3.is_expr(a[0]) else None
                        if txt is None:
                            p = a[0]
                            s = ex.val(Loc(p.loc.root, p.loc.path[:-1])); i = p.loc.path[-1][1]
                            txt = self.norm_slice(Str, s, i, z3.simplify(i + w))
                    else:
                        txt = a[0]
                        if not z3.is_expr(txt):
                            p = txt
                            txt = cstr(ex.val(Loc(p.loc.root, p.loc.path[:-1])))
                    tok = T(nm, txt)
                elif arg: tok = T(nm, a[0])
                else: tok = T(nm)
                ex.write(l, TS.push(ex.val(l), tok))
                return z3.BoolVal(True)
            return f
        for nm in ("StartObject", "EndObject", "StartArray", "EndArray", "Null"): self.member_models[(t, nm)] = out(nm)
        for nm in ("Key", "String"): self.member_models[(t, nm)] = out(nm, "text")
        for nm in ("Bool", "Int", "Double"): self.member_models[(t, nm)] = out(nm, "v")


def wloc(ex, o):
    v = ex.val(o)
    return v.f["os"].loc.ext(("f", "toks"))


def writer_arg(c, i, p, t):
    if is_writer(t.bare().name):
        buf = c.ex.alloc(StructV(CT(RJ + "GenericStringBuffer"), {"toks": c.ex.fresh("tokens", TS.sort)}), "buffer")
        return c.ex.alloc(StructV(t.bare(), {"os": RefV(buf)}), "writer")


def toks_of(c): return c.ex.val(wloc(c.ex, c.args[0]))


def snap(c): c.ghost0 = toks_of(c)


def write_pre(c):
    v = arg_val(c, 1)
    if not hasattr(c, "ghost0"): c.ghost0 = toks_of(c)
    if c.ex.callctx is c:
        for f in defs(c.ghost0, v): c.ex.assume(f)
        for f in full(v): c.ex.assume(f)
        return inv_of(c, "", v) + [("no empty scalar", S.full_(v))]
    return inv_of(c, "", v) + [("no empty scalar", S.full_(v))]


def write_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    v = arg_val(c, 1)
    cur = ctx.seq()
    w0 = c.ghost0
    P = TS.push
    ts = toks_of(c)
    if z3.is_expr(cur) and cur.sort() == seq_map().sort:
        return [("the members written so far", ts == S.emitm(P(w0, T("StartObject")), map_(v), k))]
    if z3.is_expr(cur) and cur.sort() == seq_list().sort:
        return [("the elements written so far", ts == S.emitl(P(w0, T("StartArray")), list_(v), k))]
    return []


def write_call(c):
    l = wloc(c.ex, c.args[0])
    c.ex.write(l, S.emit(c.ex.val(l), arg_val(c, 1)))
    return VOID


write = Contract("writeResponse", TUF, "graphql::response::writeResponse", pre=write_pre, post=lambda c: [("writes exactly the tokens of the value", toks_of(c) == S.emit(c.ghost0, arg_val(c, 1)))],
                 loops=[LoopSpec("write", write_inv)], setup=snap, arg_setup=writer_arg)
_apply = write.apply
def _wapply(ex, decl, this, args, node):
    if ex.pure: raise NotPure()
    c = CallCtx(ex, decl)
    c.args = list(args); c.old = [ex.val(a) for a in args]
    for lab, f in write_pre(c): ex.check("%s: precondition of writeResponse: %s" % (ex.contract.name, lab), f, ex.line(node) if node else ""); ex.assume(f)
    return write_call(c)
write.apply = _wapply

tojson = Contract("toJSON", TUF, "graphql::response::toJSON", pre=lambda c: inv_of(c, "", arg_val(c, 0)) + [("no empty scalar", S.full_(arg_val(c, 0)))],
                  post=lambda c: [("the text is the one of exactly that value", z3.Or(c.res_val(Str.sort) == cstr(render(S.emit(TS.empty, arg_val(c, 0)))), c.res_val(Str.sort) == render(S.emit(TS.empty, arg_val(c, 0)))))])

# ------------------------------------------------------------------ reader events
H = "graphql::response::ResponseHandler"


def stacks(c, new=False):
    f = c.f_new if new else c.f_old
    return c.M.pack_sort(f("_responseStack"), seq_list().sort), f("_keyStack")


KS = L.seq_of(Str.sort)
def top(s): return seq_list().at_(s, seq_list().len(s) - 1)
def pop(s):
    th = L.seq_theory_for_sort(s.sort())
    return th.slice_(s, 0, th.len(s) - 1)


def all_wf(s):
    i = z3.Int("aw")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(s)), V.wf_(TH(s).at_(s, i))), patterns=[TH(s).at_(s, i)])


def inv_state(s, ks): return [("the stack is not empty", mlen(s) >= 1), ("stacked values satisfy the invariant", all_wf(s))]
def can_set(s, ks, ex=None):
    return [("a value is expected here", z3.And(mlen(s) >= 1, z3.Implies(tag_is(top(s), MAP), KS.len_(ks) >= 1)))]


def set_post(c, s, ks, v, s2, k2):
    """s2/k2 is the state after the value v arrived in state s/ks"""
    i = z3.Int("sp")
    th = seq_list()
    n = mlen(s)
    t, t2 = top(s), th.at_(s2, n - 1)
    key = KS.at_(ks, KS.len_(ks) - 1)
    m = map_(t)
    mth = TH(m)
    new = absent(t, key)
    ismap, islist = tag_is(t, MAP), tag_is(t, LIST)
    return [("the stack keeps its height", mlen(s2) == n),
            ("the containers below stay as they are", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1), th.at_(s2, i) == th.at_(s, i)), patterns=[th.at_(s2, i), th.at_(s, i)])),
            ("the open container keeps its type", z3.Implies(z3.Or(ismap, islist), tag(t2) == tag(t))),
            ("a member is added under the pending key", z3.Implies(z3.And(ismap, new), eqs(map_(t2), mth.push(m, L.rec_mk(mth.elem, [key, v]))))),
            ("a repeated member is dropped", z3.Implies(z3.And(ismap, z3.Not(new)), eqs(map_(t2), m))),
            ("the key is used up", z3.Implies(ismap, eqs(k2, pop(ks)))),
            ("an element is added at the end", z3.Implies(islist, eqs(list_(t2), th.push(list_(t), v)))),
            ("a document value replaces the initial null", z3.Implies(z3.And(z3.Not(ismap), z3.Not(islist)), eqv(t2, v))),
            ("no key is used up outside objects", z3.Implies(z3.Not(ismap), eqs(k2, ks))),
            ("stacked values satisfy the invariant", all_wf(s2))]


def set_ctr(name, val, pre_extra=None, popped=False, exc=None, args=None, cond=None):
    def pre(c):
        s, ks = stacks(c)
        out = inv_state(s, ks)
        s = pop(s) if popped else s
        if popped: out.append(("an open container ends", mlen(stacks(c)[0]) >= 2))
        out += can_set(s, ks)
        if c.ex.callctx is c:
            for f in inv_of(c, "", top(s)): c.ex.assume(f[1])
        return out + (pre_extra(c) if pre_extra else [])
    def post(c):
        s, ks = stacks(c)
        s2, k2 = stacks(c, True)
        v = val(c)
        out = set_post(c, pop(s) if popped else s, ks, v, s2, k2)
        if name != "setValue": out.append(("parsing goes on", c.res if z3.is_expr(c.res) else z3.BoolVal(True)))
        if cond is not None: out.append(("accepts only what fits", cond(c)))
        return out
    ct = Contract("ResponseHandler::" + name, TUF, H + "::" + name, pre=pre, post=post, exc=exc, arg_setup=args)
    def ap(ex, decl, this, a, node):
        if ex.pure: raise NotPure()
        c = CallCtx(ex, decl); c.args = list(a); c.this = this
        c.old = [ex.val(x) for x in a]; c.this_old = ex.read(this)
        for lab, f in pre(c): ex.check("%s: precondition of %s: %s" % (ex.contract.name, ct.name, lab), f, ex.line(node) if node else "")
        if cond is not None and not ex.choose(cond(c)): raise CppThrow(ExcV(CT("std::overflow_error")))
        s, ks = stacks(c)
        s0 = pop(s) if popped else s
        s2, k2 = ex.fresh("stack", seq_list().sort), ex.fresh("keys", KS.sort)
        ex.write(this.ext(("f", "_responseStack")), s2); ex.write(this.ext(("f", "_keyStack")), k2)
        for lab, f in set_post(c, s0, ks, val(c), s2, k2): ex.assume(f)
        return z3.BoolVal(True) if name != "setValue" else VOID
    ct.apply = ap
    return ct


def text_arg(c, i, p, t):
    if t.name.startswith("const") or p["type"]["qualType"].endswith("*"):
        c.text = c.ex.fresh("text", Str.sort)
        return cstr(c.text)
    if i == 1:
        return z3.Int2BV(Str.len(c.text), 32)


def text_of(c): return c.text
OVER = lambda c: c.exc is not None and c.exc.ct.name in ("std::overflow_error", "std::runtime_error", "std::exception")
fits = lambda c: z3.ULE(c.old[0], z3.BitVecVal(2147483647, 32))


def stack_post(f):
    def post(c):
        s, ks = stacks(c)
        s2, k2 = stacks(c, True)
        return f(c, s, ks, s2, k2) + [("parsing goes on", c.res if z3.is_expr(c.res) else z3.BoolVal(True))]
    return post
def simple(name, f, args=None):
    return Contract("ResponseHandler::" + name, TUF, H + "::" + name, pre=lambda c: inv_state(*stacks(c)), post=stack_post(f), arg_setup=args)


def dropv(c): return c.exc is not None


handler = [
    set_ctr("setValue", lambda c: arg_val(c, 0), pre_extra=lambda c: [("the value satisfies the invariant", V.wf_(arg_val(c, 0)))]),
    set_ctr("Null", lambda c: m_null()),
    set_ctr("Bool", lambda c: mk(BOOL, c.old[0])),
    set_ctr("Int", lambda c: mk(INT, c.old[0])),
    set_ctr("Uint", lambda c: mk(INT, c.old[0]), cond=fits, exc=lambda c: [("rejects only what does not fit", z3.Not(fits(c))), ("the error is an overflow_error", z3.BoolVal(OVER(c)))]),
    set_ctr("Double", lambda c: mk(FLOAT, c.old[0])),
    set_ctr("String", lambda c: m_str(text_of(c), True), args=text_arg),
    set_ctr("EndObject", lambda c: top(stacks(c)[0]), popped=True),
    set_ctr("EndArray", lambda c: top(stacks(c)[0]), popped=True),
    simple("StartObject", lambda c, s, ks, s2, k2: [("an empty object is opened", z3.And(mlen(s2) == mlen(s) + 1, tag_is(top(s2), MAP), mlen(map_(top(s2))) == 0)), ("the other containers stay", eqs(pop(s2), s)), ("the keys stay", eqs(k2, ks)), ("stacked values satisfy the invariant", all_wf(s2))]),
    simple("StartArray", lambda c, s, ks, s2, k2: [("an empty list is opened", z3.And(mlen(s2) == mlen(s) + 1, tag_is(top(s2), LIST), mlen(list_(top(s2))) == 0)), ("the other containers stay", eqs(pop(s2), s)), ("the keys stay", eqs(k2, ks)), ("stacked values satisfy the invariant", all_wf(s2))]),
    simple("Key", lambda c, s, ks, s2, k2: [("the whole key is pending", eqs(k2, KS.push(ks, text_of(c)))), ("the containers stay", eqs(s2, s))], args=text_arg),
]
for n in ("Int64", "Uint64"):
    handler.append(Contract("ResponseHandler::" + n, TUF, H + "::" + n, post=lambda c: [("a number outside 32 bits is never accepted", z3.BoolVal(False))], exc=lambda c: [("the error is an overflow_error", z3.BoolVal(OVER(c)))]))
init = Contract("ResponseHandler::ResponseHandler", TUF, H + "::ResponseHandler", pred=lambda d, tu: d.get("mangledName", "").endswith("C1Ev"),
                post=lambda c: [("starts with a single null", z3.And(mlen(stacks(c, True)[0]) == 1, tag_is(top(stacks(c, True)[0]), NULL))), ("no key is pending", KS.len_(stacks(c, True)[1]) == 0), ("stacked values satisfy the invariant", all_wf(stacks(c, True)[0]))])
getr = Contract("ResponseHandler::getResponse", TUF, H + "::getResponse", pre=lambda c: inv_state(*stacks(c)),
                post=lambda c: [("hands out the last value", eqv(c.M.pack_sort(c.ex.val(c.res), V.S), top(stacks(c)[0]))), ("and removes it", eqs(stacks(c, True)[0], pop(stacks(c)[0]))), ("the keys stay", eqs(stacks(c, True)[1], stacks(c)[1]))])
parsej = Contract("parseJSON", TUF, "graphql::response::parseJSON", post=lambda c: [("the value built from the events of the text", eqv(c.M.pack_sort(c.ex.val(c.res), V.S), S.denoted(cstr(c.old[0]))))])
for x in [handler[0], init, getr]: x.internal = True
contracts = [write, tojson, parsej, init, getr] + handler


def models(tu):
    m = JM()
    m.contracts = [write] + handler[:1] + [h for h in handler if h.name.endswith("::Int")] + list(W.contracts) + W.base64
    return m


# ------------------------------------------------------------------ round trip: what the handler builds from the tokens of a value
def roundtrip():
    ex = bound_models(models, TUF)
    Vs, Ms, Ls = V.S, seq_map(), seq_list()
    nrm_ = z3.Function("normal_", Vs, Vs, Bool)       # v' is v as JSON can carry it
    sS = z3.Function("state_stack", TS.sort, Ls.sort)  # handler state after the tokens
    sK = z3.Function("state_keys", TS.sort, KS.sort)
    back = z3.Function("read_back", TS.sort, Vs, Vs)   # Skolem: the value read back
    P = TS.push
    W, = z3.Consts("W", TS.sort)
    v = z3.Const("v", Vs); x = z3.Const("x", Vs); w = z3.Const("w", TS.sort)
    i, k = z3.Ints("ri rk")
    m, l = map_(v), list_(v)

    def nrm(a, b):
        m1, m2, l1, l2 = map_(a), map_(b), list_(a), list_(b)
        j = z3.Int("nj")
        return z3.And(z3.Implies(tag_is(a, MAP), z3.And(tag_is(b, MAP), mlen(m1) == mlen(m2), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mlen(m1)), z3.And(name_at(m1, j) == name_at(m2, j), nrm_(val_at(m1, j), val_at(m2, j)))), patterns=[Ms.at_(m1, j), Ms.at_(m2, j)]))),
                      z3.Implies(tag_is(a, LIST), z3.And(tag_is(b, LIST), mlen(l1) == mlen(l2), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mlen(l1)), nrm_(Ls.at_(l1, j), Ls.at_(l2, j))), patterns=[Ls.at_(l1, j), Ls.at_(l2, j)]))),
                      z3.Implies(z3.Or(tag_is(a, STRING), tag_is(a, ENUM)), z3.And(tag_is(b, STRING), str_(b) == string_of(a), fromjson(b))),
                      z3.Implies(tag_is(a, NULL), tag_is(b, NULL)), z3.Implies(tag_is(a, BOOL), z3.And(tag_is(b, BOOL), bool_(a) == bool_(b))),
                      z3.Implies(tag_is(a, INT), z3.And(tag_is(b, INT), int_(a) == int_(b))), z3.Implies(tag_is(a, FLOAT), z3.And(tag_is(b, FLOAT), float_(a) == float_(b))),
                      z3.Implies(tag_is(a, SCALAR), nrm_(L.opt_val(scalar(a)), b)))

    def ready_at(s, ks):
        """a value may come next, and in an object its name is new"""
        t = top(s)
        return z3.And(mlen(s) >= 1, z3.Implies(tag_is(t, MAP), z3.And(KS.len_(ks) >= 1, absent(t, KS.at_(ks, KS.len_(ks) - 1)))))

    def setp(s, ks, val, s2, k2): return z3.And([f for lab, f in set_post(None, s, ks, val, s2, k2) if "invariant" not in lab])
    s, ks = sS(W), sK(W)
    def step(tok, W0):
        """handler contract of one event (proved above), applied after the tokens W0"""
        s0, k0, s1, k1 = sS(W0), sK(W0), sS(P(W0, tok)), sK(P(W0, tok))
        nm = tok.decl().name()
        if nm in ("StartObject", "StartArray"):
            t = MAP if nm == "StartObject" else LIST
            return [mlen(s1) == mlen(s0) + 1, tag_is(top(s1), t), mlen(map_(top(s1)) if t == MAP else list_(top(s1))) == 0, Ls.slice_(s1, 0, mlen(s1) - 1) == s0, k1 == k0]
        if nm == "Key": return [s1 == s0, k1 == KS.push(k0, tok.arg(0))]
        if nm in ("EndObject", "EndArray"): return [setp(pop(s0), k0, top(s0), s1, k1)]
        val = {"Null": lambda: m_null(), "Bool": lambda: mk(BOOL, tok.arg(0)), "Int": lambda: mk(INT, tok.arg(0)), "Double": lambda: mk(FLOAT, tok.arg(0)), "String": lambda: m_str(tok.arg(0), True)}[nm]()
        return [setp(s0, k0, val, s1, k1)]
    def claim(W0, val): return z3.Implies(ready_at(sS(W0), sK(W0)), z3.And(nrm_(val, back(W0, val)), setp(sS(W0), sK(W0), back(W0, val), sS(S.emit(W0, val)), sK(S.emit(W0, val)))))
    def goal(witness): return [("the value read back is the same", nrm(v, witness)), ("it is stored where the value belongs", setp(s, ks, witness, sS(S.emit(W, v)), sK(S.emit(W, v))))]
    base = defs(W, v) + [ready_at(s, ks)]
    out = []
    for t, tok, wit in [(STRING, T("String", str_(v)), m_str(str_(v), True)), (ENUM, T("String", enum_(v)), m_str(enum_(v), True)), (NULL, T("Null"), m_null()), (BOOL, T("Bool", bool_(v)), mk(BOOL, bool_(v))), (INT, T("Int", int_(v)), mk(INT, int_(v))), (FLOAT, T("Double", float_(v)), mk(FLOAT, float_(v)))]:
        for lab, g in goal(wit): out.append(("%s value: %s" % (["", "", "string", "null", "boolean", "int", "float", "enum"][t], lab), base + [tag_is(v, t)] + step(tok, W), g))
    c = L.opt_val(scalar(v))
    for lab, g in goal(back(W, c)): out.append(("scalar: " + lab, base + [tag_is(v, SCALAR), L.opt_is(scalar(v)), claim(W, c)], g))
    # lists
    W1 = P(W, T("StartArray"))
    Wk = lambda n: S.emitl(W1, l, n)
    def linv(n, W0):
        t = top(sS(W0)); j = z3.Int("lj")
        return [("a list is open on top of the others", z3.And(mlen(sS(W0)) == mlen(s) + 1, tag_is(t, LIST))), ("it holds the elements so far", mlen(list_(t)) == n),
                ("each read back at its position", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), nrm_(Ls.at_(l, j), Ls.at_(list_(t), j))), patterns=[Ls.at_(l, j), Ls.at_(list_(t), j)])),
                ("the containers below stay", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mlen(s)), Ls.at_(sS(W0), j) == Ls.at_(s, j)), patterns=[Ls.at_(sS(W0), j), Ls.at_(s, j)])), ("the keys stay", L.eqgoal(sK(W0), ks))]
    F = lambda q: [f for _, f in q]
    bl = base + [tag_is(v, LIST)]
    for lab, g in linv(z3.IntVal(0), W1): out.append(("list, start: " + lab, bl + step(T("StartArray"), W), g))
    for lab, g in linv(k + 1, Wk(k + 1)): out.append(("list, next element: " + lab, bl + [0 <= k, k < mlen(l), Wk(k + 1) == S.emit(Wk(k), Ls.at_(l, k)), claim(Wk(k), Ls.at_(l, k))] + F(linv(k, Wk(k))), g))
    for lab, g in goal(top(sS(Wk(mlen(l))))): out.append(("list, end: " + lab, bl + F(linv(mlen(l), Wk(mlen(l)))) + step(T("EndArray"), Wk(mlen(l))), g))
    # objects
    W1 = P(W, T("StartObject"))
    Wm = lambda n: S.emitm(W1, m, n)
    mem = members(v)
    j, j2 = z3.Ints("uj uk")
    uniq = z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < mlen(m)), name_at(m, j) != name_at(m, j2)), patterns=[z3.MultiPattern(Ms.at_(m, j), Ms.at_(m, j2))])
    out.append(("object: names are unique", [tag_is(v, MAP), 0 <= k, k < i, i < mlen(m), slot_hyp(m, mem)] + F(wf_map(m, mem)) + L.mention(Ms.at_(m, k), Ms.at_(m, i)), name_at(m, k) != name_at(m, i)))
    def minv(n, W0):
        t = top(sS(W0)); j = z3.Int("oj"); tm = map_(t)
        return [("an object is open on top of the others", z3.And(mlen(sS(W0)) == mlen(s) + 1, tag_is(t, MAP))), ("it holds the members so far", mlen(tm) == n),
                ("each read back at its position under its name", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(name_at(m, j) == name_at(tm, j), nrm_(val_at(m, j), val_at(tm, j)))), patterns=[Ms.at_(m, j), Ms.at_(tm, j)])),
                ("the containers below stay", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mlen(s)), Ls.at_(sS(W0), j) == Ls.at_(s, j)), patterns=[Ls.at_(sS(W0), j), Ls.at_(s, j)])), ("the keys stay", L.eqgoal(sK(W0), ks))]
    bm = base + [tag_is(v, MAP), uniq]
    for lab, g in minv(z3.IntVal(0), W1): out.append(("object, start: " + lab, bm + step(T("StartObject"), W), g))
    Wk1 = P(Wm(k), T("Key", name_at(m, k)))
    hk = bm + [0 <= k, k < mlen(m), Wm(k + 1) == S.emit(Wk1, val_at(m, k))] + step(T("Key", name_at(m, k)), Wm(k)) + F(minv(k, Wm(k))) + L.mention(Ms.at_(m, k))
    out.append(("object, next member: its value is expected", hk, ready_at(sS(Wk1), sK(Wk1))))
    for lab, g in minv(k + 1, Wm(k + 1)): out.append(("object, next member: " + lab, hk + [ready_at(sS(Wk1), sK(Wk1)), claim(Wk1, val_at(m, k))], g))
    for lab, g in goal(top(sS(Wm(mlen(m))))): out.append(("object, end: " + lab, bm + F(minv(mlen(m), Wm(mlen(m)))) + step(T("EndObject"), Wm(mlen(m))), g))
    return out


LEMMAS = [Lemma("reading back what was written (induction over the value)", roundtrip)]
TRUSTED = ["rapidjson::Writer renders the token sequence, rapidjson::Reader feeds the tokens of the text to the handler", "response::Value contracts (proved by C03)"]
ASSUMPTIONS = ["strings are shorter than 2^32 characters", "floats are finite (JSON has no other)", "no empty Scalar is serialised"]
HARNESS = {"main": "c04.cpp", "sources": ["src/JSONResponse.cpp", "src/GraphQLResponse.cpp", "src/Base64.cpp"]}
HARNESS_SECS = 15
