"""GraphQLClient: a service response taken apart, variables written and responses read through their modifiers"""
import re
from specs.value import *
from specs import value as W
from specs.nodes import own

TUC = "src/GraphQLClient.cpp"
TUT = "tu/client.cpp"
CL = "graphql::client::"
place = None                 # place(v, name): where an object has a member with the name, -1 without one


class K:
    """sorts of the client's types, from the AST"""
    resp = None


def client_setup(m):
    global place
    if K.resp is not None: return
    place = z3.Function("member_place", V.S, Str.sort, Int)
    K.loc, K.seg, K.err, K.resp = (m.sort_of(CT(CL + x)) if x != "ErrorPathSegment" else None for x in ("ErrorLocation", "ErrorPathSegment", "Error", "ServiceResponse"))
    K.seg = L.seq_theory_for_sort(L.rec_sort(K.err, "path")).elem
    K.locs, K.segs, K.errs = L.rec_sort(K.err, "locations"), L.rec_sort(K.err, "path"), L.rec_sort(K.resp, "errors")
    K.LOC, K.SEG, K.ERR = (z3.Function(n, V.S, s) for n, s in (("location_in", K.loc), ("segment_in", K.seg), ("error_in", K.err)))


def place_facts(v):
    """names are unique in an object (lemma), so there is one place for each"""
    s = z3.Const("pln", Str.sort); i = z3.Int("pli")
    m = map_(v); w = place(v, s)
    return [z3.ForAll([s], z3.Implies(tag_is(v, MAP), z3.And(-1 <= w, w < mlen(m), z3.Implies(w >= 0, name_at(m, w) == s))), patterns=[w]),
            z3.ForAll([i, s], z3.Implies(z3.And(tag_is(v, MAP), 0 <= i, i < mlen(m), name_at(m, i) == s), place(v, s) == i), patterns=[z3.MultiPattern(TH(m).at_(m, i), place(v, s))])]


def has(v, name, t=None):
    """an object with such a member (of that type)"""
    w = place(v, strlit(name))
    return z3.And(tag_is(v, MAP), w >= 0, *([tag_is(val_at(map_(v), w), t)] if t is not None else []))
def get(v, name): return val_at(map_(v), place(v, strlit(name)))
def F(r, n): return L.rec_get(r, n)
def strlit(s): return L.strlit(s)


def each(v, s, fn, upto=None):
    """s is fn of the elements of the list v (the first ones)"""
    ls = list_(v); i = z3.Int("eai"); th = L.seq_theory_for_sort(s.sort()); n = mlen(ls) if upto is None else upto
    return z3.And(th.len_(s) == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), th.at_(s, i) == fn(seq_list().at_(ls, i))), patterns=[th.at_(s, i), seq_list().at_(ls, i)]))


def empty(s): return L.seq_theory_for_sort(s.sort()).len_(s) == 0


# the parts: (field, member, its type, is the field what the member says, is the field what it is without one)
def number(name): return (name, name.encode(), INT, lambda r, v: r == int_(v), lambda r: r == 0)
def listed(field, name, fn): return (field, name, LIST, lambda r, v: each(v, r, fn), empty)
LOC_PARTS = [number("line"), number("column")]
ERR_PARTS = [("message", b"message", STRING, lambda r, v: r == str_(v), lambda r: r == Str.empty),
             listed("locations", b"locations", lambda v: K.LOC(v)), listed("path", b"path", lambda v: K.SEG(v))]
RESP_PARTS = [("data", b"data", None, lambda r, v: data(r) == data(v), lambda r: tag_is(r, NULL)), listed("errors", b"errors", lambda v: K.ERR(v))]


def parts_are(v, r, parts, upto=None):
    out = []
    for f, n, t, is_, none in parts:
        h = has(v, n, t)
        if upto is not None: h = z3.And(h, place(v, strlit(n)) < upto)
        x = F(r, f)
        out += [("%s is what the response says" % f, z3.Implies(h, is_(x, get(v, n)))), ("%s is empty when the response has none" % f, z3.Implies(z3.Not(h), none(x)))]
    return out


def is_segment(v, s):
    return z3.If(tag_is(v, STRING), z3.And(L.var_is(s, 0), L.var_get(s, 0) == str_(v)), z3.And(L.var_is(s, 1), L.var_get(s, 1) == z3.If(tag_is(v, INT), int_(v), 0)))


# ------------------------------------------------------------------ loops
TYPES = {CL + "ErrorLocation": (LOC_PARTS, lambda: K.loc), CL + "Error": (ERR_PARTS, lambda: K.err), CL + "ServiceResponse": (RESP_PARTS, lambda: K.resp)}


def ARG(c, i=0): return c.M.pack_sort(c.old[i], V.S)


def source(ctx, sorts):
    """what the loop walks over: its range, or (a loop over positions) the innermost such variable it reads"""
    s = ctx.seq()
    if s is not None and z3.is_expr(s): return s
    for so in reversed(sorts):
        for l in ctx.all_locals(lambda t, d: ctx.ex.M._sort_is(t, so)): return ctx.ex.val(l)
    return None


def walk_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = source(ctx, [L.rec_sort(vsort(MAP), "map"), vsort(LIST)])
    if s is None: return []
    v = ARG(c)
    out = []
    if s.sort() == L.rec_sort(vsort(MAP), "map"):       # the members of the argument
        m = map_(v); i = z3.Int("wai")
        out += [("the members to come are as they were", z3.And(mlen(s) == mlen(m), z3.ForAll([i], z3.Implies(z3.And(k <= i, i < mlen(m)), TH(m).at_(s, i) == TH(m).at_(m, i)), patterns=[TH(m).at_(s, i), TH(m).at_(m, i)])))]
        for l in ctx.all_locals(lambda t, d: t.name in TYPES):
            t = parse(qt(ex.tu.by_id[next(q for fr in ex.frames for q, x in fr.env.items() if ex.deref(x).root == l.root)])).bare().name
            r = named(ex, c.M.pack_sort(ex.val(l), TYPES[t][1]()), "r_")
            out += parts_are(v, r, TYPES[t][0], k)
            if t == CL + "ServiceResponse": out += [("data satisfies its invariant", V.wf_(F(r, "data")))]
    elif s.sort().eq(vsort(LIST)):
        out += elements_inv(ctx, c, v, s, k)
    return out


def untouched(s, o, k):
    i = z3.Int("uti")
    return ("the elements to come are as they were", z3.And(mlen(s) == mlen(o), k <= mlen(o), z3.ForAll([i], z3.Implies(z3.And(k <= i, i < mlen(o)), seq_list().at_(s, i) == seq_list().at_(o, i)), patterns=[seq_list().at_(s, i), seq_list().at_(o, i)])))


def elements_inv(ctx, c, v, s, k):
    """the list of a member: its elements so far are in the field"""
    ex = ctx.ex
    out = []
    for l in ctx.all_locals(lambda t, d: t.name in TYPES):
        t = parse(qt(ex.tu.by_id[next(q for fr in ex.frames for q, x in fr.env.items() if ex.deref(x).root == l.root)])).bare().name
        parts, sort = TYPES[t]
        r = c.M.pack_sort(ex.val(l), sort())
        for f, n, ty, is_, none in parts:
            if ty != LIST or not any(p and p[0] == ("f", f) and root == l.root for root, p in ctx.mods): continue
            fn = {"locations": K.LOC, "path": K.SEG, "errors": K.ERR}[f]
            w = get(v, n)
            ex.assume(z3.Implies(V.wf_(w), wf_children(w)))     # part of the class invariant
            x = named(ex, F(r, f), "list_")
            out += [untouched(s, list_(w), k), ("the member is the one with the list", has(v, n, LIST)), ("every element so far is in its place", each(w, x, fn, k))]
    # a list of its own, not yet in the field
    for n, fn, so in ((b"locations", K.LOC, K.locs), (b"path", K.SEG, K.segs), (b"errors", K.ERR, K.errs)):
        for l in ctx.all_locals(lambda t, d: ex.M._sort_is(t, so)):
            if not any(root == l.root for root, p in ctx.mods): continue
            w = get(v, n)
            ex.assume(z3.Implies(V.wf_(w), wf_children(w)))     # part of the class invariant
            x = named(ex, c.M.pack_sort(ex.val(l), so), "list_")
            out += [untouched(s, list_(w), k), ("the member is the one with the list", has(v, n, LIST)), ("every element so far is in its place", each(w, x, fn, k))]
    return out


LOOPS = [LoopSpec("members and elements", walk_inv, own)]


def known(c, v):
    ex = c.ex
    for a in place_facts(v): ex.assume(a)


def part_contract(name, parts, sort, FN=None, post=None):
    def pre(c):
        if c.ex.callctx is c: known(c, ARG(c))
        return inv_of(c, "", ARG(c))
    def pst(c):
        r = c.res_val(sort())
        return post(ARG(c), r) if post else parts_are(ARG(c), r, parts)
    def call(c):
        if c.ex.pure: raise NotPure()
        v = ARG(c)
        if isinstance(c.args[0], Loc): c.ex.move_from(c.args[0])
        return FN()(v)
    return Contract("client::" + name, TUC, CL + name, pre=pre, post=pst, call=call if FN else None, loops=LOOPS)


def resp_post(v, r): return parts_are(v, r, RESP_PARTS)
PARSE = [part_contract("parseServiceErrorLocation", LOC_PARTS, lambda: K.loc, lambda: K.LOC),
         part_contract("parseServiceErrorPathSegment", None, lambda: K.seg, lambda: K.SEG, lambda v, r: [("a name or an index, as given", is_segment(v, r))]),
         part_contract("parseServiceError", ERR_PARTS, lambda: K.err, lambda: K.ERR),
         part_contract("parseServiceResponse", RESP_PARTS, lambda: K.resp)]


class CM(VM):
    transform_as_loop = True

    def bind(self, ex):
        VM.bind(self, ex)
        if self.parts_known(ex): client_setup(self)

    def parts_known(self, ex): return True


def models(tu):
    m = CM()
    m.contracts = PARSE + list(W.contracts) + W.base64
    return m


# ------------------------------------------------------------------ built-in scalars
def scalar_writer(name, cls, is_):
    return Contract("ModifiedVariable<%s>::serialize" % name, TUC, CL + "ModifiedVariable::serialize", pred=lambda d, tu: re.search("ModifiedVariableI%sE9serialize" % cls, d.get("mangledName") or "") is not None,
                    pre=lambda c: inv_of(c, "", ARG(c)) if name == "Value" else [], post=lambda c: [("the value that was given", is_(c, c.res_val(V.S)))], use=False)


def scalar_reader(name, cls, ok, is_):
    return Contract("ModifiedResponse<%s>::parse" % name, TUC, CL + "ModifiedResponse::parse", pred=lambda d, tu: re.search("ModifiedResponseI%sE5parse" % cls, d.get("mangledName") or "") is not None,
                    pre=lambda c: inv_of(c, "", ARG(c)), post=lambda c: [("only a value of that type is accepted", ok(ARG(c))), ("its content is what was decoded", is_(c, ARG(c)))],
                    exc=lambda c: [("a value of that type is not refused", z3.Not(ok(ARG(c)))), ("the error is a logic_error or runtime_error", z3.BoolVal(c.exc.ct.name in ("std::logic_error", "std::runtime_error")))], use=False)


def R_(c, s): return c.res_val(s)
def A_(c, s): return c.M.pack_sort(c.old[0], s)
STRS = "NSt7__cxx1112basic_string\\w*"
WRITE = [scalar_writer("IntType", "i", lambda c, r: z3.And(tag_is(r, INT), int_(r) == A_(c, vsort(INT)))),
         scalar_writer("FloatType", "d", lambda c, r: z3.And(tag_is(r, FLOAT), float_(r) == A_(c, vsort(FLOAT)))),
         scalar_writer("StringType", STRS, lambda c, r: z3.And(tag_is(r, STRING), str_(r) == A_(c, Str.sort))),
         scalar_writer("BooleanType", "b", lambda c, r: z3.And(tag_is(r, BOOL), bool_(r) == A_(c, Bool))),
         scalar_writer("IdType", "St6vectorIhSaIhEE", lambda c, r: z3.And(tag_is(r, STRING), str_(r) == b64enc(A_(c, Bytes.sort)))),
         scalar_writer("Value", "NS_8response5ValueE", lambda c, r: data(r) == data(ARG(c)))]
READ = [scalar_reader("IntType", "i", lambda v: tag_is(v, INT), lambda c, v: R_(c, vsort(INT)) == int_(v)),
        scalar_reader("FloatType", "d", lambda v: z3.Or(tag_is(v, FLOAT), tag_is(v, INT)), lambda c, v: R_(c, vsort(FLOAT)) == z3.If(tag_is(v, INT), dbl_of_int(int_(v)), float_(v))),
        scalar_reader("StringType", STRS, lambda v: tag_is(v, STRING), lambda c, v: R_(c, Str.sort) == str_(v)),
        scalar_reader("BooleanType", "b", lambda v: tag_is(v, BOOL), lambda c, v: R_(c, Bool) == bool_(v)),
        scalar_reader("IdType", "St6vectorIhSaIhEE", lambda v: z3.And(tag_is(v, STRING), b64ok(str_(v))), lambda c, v: L.eqgoal(R_(c, Bytes.sort), b64dec(str_(v)))),
        scalar_reader("Value", "NS_8response5ValueE", lambda v: z3.BoolVal(True), lambda c, v: data(R_(c, V.S)) == data(v))]


# ------------------------------------------------------------------ modifiers
Arg = z3.DeclareSort("ClientArg")


class G: ser = None


def sort_for(mods):
    if not mods or mods == (0,): return Arg
    s = sort_for(mods[1:])
    return L.option(s) if mods[0] == 1 else L.seq_of(s).sort


MODS = [(0,), (1,), (2,), (2, 1), (1, 2), (2, 2), (1, 2, 1)]
WHAT = {0: "None", 1: "Nullable", 2: "List"}
def label(mods): return "<" + ", ".join(WHAT[m] for m in mods) + ">"


def mod_setup():
    """what a value is written as, and what a value is read as, one function per list of modifiers, unfolded one level by `written` and `read`"""
    if G.ser is not None: return
    G.ser, G.ok, G.val = {}, {}, {}
    for m in ((),) + tuple(MODS[1:]):
        n = "".join("NUL"[x] for x in m)
        G.ser[m] = z3.Function("written_" + n, sort_for(m), V.S)
        G.ok[m] = z3.Function("readable_" + n, V.S, Bool)
        G.val[m] = z3.Function("read_" + n, V.S, sort_for(m))


def fn_of(d, mods): return d[() if mods == (0,) else mods]


def written(mods, x, r):
    """r is what x is written as"""
    if mods in ((), (0,)): return [("written by its own type", data(r) == data(G.ser[()](x)))]
    inner = G.ser[mods[1:]]
    if mods[0] == 1: return [("absent is null", z3.Implies(z3.Not(L.opt_is(x)), tag_is(r, NULL))), ("present is its value", z3.Implies(L.opt_is(x), data(r) == data(inner(L.opt_val(x)))))]
    return [("a list", tag_is(r, LIST)), ("every element at its position", elements(x, list_(r), inner))]


def elements(x, r, fn, upto=None):
    th, tr = L.seq_theory_for_sort(x.sort()), L.seq_theory_for_sort(r.sort())
    i = z3.Int("eli"); n = th.len_(x) if upto is None else upto
    return z3.And(tr.len_(r) == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), tr.at_(r, i) == fn(th.at_(x, i))), patterns=[tr.at_(r, i), th.at_(x, i)]))


def readable(mods, v):
    if mods in ((), (0,)): return G.ok[()](v)
    ok = G.ok[mods[1:]]
    if mods[0] == 1: return z3.Or(tag_is(v, NULL), ok(v))
    i = z3.Int("rbi"); ls = list_(v); at = seq_list().at_(ls, i)
    return z3.Implies(tag_is(v, LIST), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mlen(ls)), ok(at)), patterns=[at]))


def read(mods, v, r):
    """r is what v is read as"""
    if mods in ((), (0,)): return [("read by its own type", r == G.val[()](v))]
    val = G.val[mods[1:]]
    if mods[0] == 1: return [("null is absent", z3.Implies(tag_is(v, NULL), z3.Not(L.opt_is(r)))), ("anything else is present", z3.Implies(z3.Not(tag_is(v, NULL)), z3.And(L.opt_is(r), L.eqgoal(L.opt_val(r), val(v)))))]
    return [("every element at its position", z3.Implies(tag_is(v, LIST), elements(list_(v), r, val))), ("anything but a list has no elements", z3.Implies(z3.Not(tag_is(v, LIST)), L.seq_theory_for_sort(r.sort()).len_(r) == 0))]


def mod_inv(ctx):
    ex, k = ctx.ex, ctx.k
    c = ex.callctx
    s = source(ctx, [sort_for(c.mods) if c.fn == "serialize" and c.mods[0] == 2 else vsort(LIST)])
    if s is None: return []
    th = L.seq_theory_for_sort(s.sort()); i = z3.Int("moi")
    def rest(o): return ("the elements to come are as they were", z3.And(k <= th.len_(o), th.len_(s) == th.len_(o), z3.ForAll([i], z3.Implies(z3.And(k <= i, i < th.len_(o)), th.at_(s, i) == th.at_(o, i)), patterns=[th.at_(s, i), th.at_(o, i)])))
    roots = {r for r, _ in ctx.mods}
    out = []
    if c.fn == "serialize":
        x = A_(c, sort_for(c.mods))
        if s.sort() != x.sort(): return []
        out.append(rest(x))
        for l in ctx.all_locals(lambda t, d: t.name == VT and d["kind"] == "VarDecl"):
            if roots and l.root not in roots: continue
            r = named(ex, VAL(c, l), "r_")
            out += [("a list is being written", tag_is(r, LIST)), ("every element so far is in its place", elements(x, list_(r), G.ser[c.mods[1:]], k)), ("the value satisfies its invariant", V.wf_(r))]
    else:
        v = ARG(c)
        if not s.sort().eq(vsort(LIST)): return []
        out.append(rest(list_(v)))
        j = z3.Int("rej"); at = seq_list().at_(list_(v), j)
        out.append(("every element so far is readable", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), G.ok[c.mods[1:]](at)), patterns=[at])))
        for l in ctx.all_locals(lambda t, d: ex.M._sort_is(t, sort_for(c.mods))):
            if roots and l.root not in roots: continue
            r = named(ex, c.M.pack_sort(ex.val(l), sort_for(c.mods)), "r_")
            out.append(("every element so far is in its place", elements(list_(v), r, G.val[c.mods[1:]], k)))
    return out


def tmpl(fn, cls, mods):
    pat = r"Modified%sINS_5verif3ArgEE\d%s" % (cls, fn) + r"ILNS0_12TypeModifierE%dE" % mods[0] + ("J" + "".join(r"LS\d_%dE" % m for m in mods[1:]) + "E" if len(mods) > 1 else r"TpTnS\d_JEE")
    return lambda d, tu: re.search(pat, d.get("mangledName") or "") is not None


def writer(mods):
    def call(c):
        if c.ex.pure: raise NotPure()
        r = fn_of(G.ser, mods)(A_(c, sort_for(mods)))
        c.ex.assume(V.wf_(r))
        if isinstance(c.args[0], Loc): c.ex.move_from(c.args[0])
        return r
    def setup(c): c.mods, c.fn = mods, "serialize"
    return Contract("ModifiedVariable<T>::serialize" + label(mods), TUT, CL + "ModifiedVariable::serialize", pred=tmpl("serialize", "Variable", mods), setup=setup, call=call,
                    post=lambda c: written(mods, A_(c, sort_for(mods)), c.res_val(V.S)) + inv_after(c.res_val(V.S)), loops=[LoopSpec("elements", mod_inv, own)])


def reader(mods):
    def call(c):
        if c.ex.pure: raise NotPure()
        v = ARG(c)
        if not c.ex.choose(fn_of(G.ok, mods)(v)): raise CppThrow(ExcV(LOGIC, None, c.ex.fresh("what", Str.sort)))
        if isinstance(c.args[0], Loc):
            c.ex.move_from(c.args[0])
            c.ex.assume(V.wf_(VAL(c, c.args[0])))
        return fn_of(G.val, mods)(v)
    def setup(c): c.mods, c.fn = mods, "parse"
    return Contract("ModifiedResponse<T>::parse" + label(mods), TUT, CL + "ModifiedResponse::parse", pred=tmpl("parse", "Response", mods), setup=setup, pre=lambda c: inv_of(c, "", ARG(c)), call=call,
                    post=lambda c: [("only a readable value is accepted", readable(mods, ARG(c)))] + read(mods, ARG(c), c.res_val(sort_for(mods))),
                    exc=lambda c: [("only a value that cannot be read is refused", z3.Not(readable(mods, ARG(c))))], loops=[LoopSpec("elements", mod_inv, own)])


WRITERS = [writer(m) for m in MODS]
READERS = [reader(m) for m in MODS]


def user(fn, cls, call):
    c = Contract("(any %s)" % fn, TUT, CL + "Modified%s::%s" % (cls, fn), pred=lambda d, tu: ("Modified%sINS_5verif3ArgEE%d%sE" % (cls, len(fn), fn)) in (d.get("mangledName") or ""), call=call)
    c.trusted = True
    return c


USER = [user("serialize", "Variable", WRITERS[0].call), user("parse", "Response", READERS[0].call)]


class TM(CM):
    def __init__(self):
        CM.__init__(self)
        self.opaque = dict(self.opaque)
        self.opaque["graphql::verif::Arg"] = Arg
        self.ctor_models = dict(self.ctor_models)
        self.ctor_models["graphql::verif::Arg"] = lambda ex, ct, n, a: ex.val(ex.eval(a[0])) if a else ex.fresh("default", Arg)

    def bind(self, ex):
        CM.bind(self, ex)
        mod_setup()


def models_t(tu):
    m = TM()
    m.contracts = WRITERS + READERS + USER + list(W.contracts) + W.base64
    return m


for _c in WRITERS + READERS: _c.models = models_t


# ------------------------------------------------------------------ what the contracts rest on
def names_lemma():
    bound_models(models, TUC)
    v = z3.Const("lv", V.S); i, j = z3.Ints("li lj")
    m, mem = map_(v), members(v)
    hyps = [f for _, f in wf_map(m, mem)] + [slot_hyp(m, mem), 0 <= i, i < mlen(m), 0 <= j, j < mlen(m), name_at(m, i) == name_at(m, j)]
    for a, b in ((i, j), (j, i)): hyps += L.mention(TH(m).at_(m, a), inv(mem, a))
    return [("two members with the same name are the same member", hyps, i == j)]


LEMMAS = [Lemma("member names are unique", names_lemma)]
