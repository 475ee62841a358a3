"""C02: sorted_map / sorted_set / shorter_or_less, for opaque key, value and ordering types."""
import z3
from cppcv.contract import *
from cppcv import logic as L
from cppcv.logic import Int, Bool, Str
from cppcv.models import Models, str_lt
from cppcv.engine import Iter, Loc, StructV, RefV
from cppcv.ctypes_ import parse, CT
from cppcv.front import qt, children

Key = z3.DeclareSort("Key"); Val = z3.DeclareSort("Val"); Arg = z3.DeclareSort("Arg")
lt = z3.Function("key_less", Key, Key, Bool)
key_of = z3.Function("key_of_arg", Arg, Key)
val_of = z3.Function("val_of_arg", Arg, Val)
val_default = z3.Const("val_default", Val)
a, b, c_ = z3.Consts("ka kb kc", Key)
# the supplied ordering is a strict weak ordering
L.axiom_for(lt, z3.ForAll([a], z3.Not(lt(a, a)), patterns=[lt(a, a)]))
L.axiom_for(lt, z3.ForAll([a, b, c_], z3.Implies(z3.And(lt(a, b), lt(b, c_)), lt(a, c_)), patterns=[z3.MultiPattern(lt(a, b), lt(b, c_))]))
L.axiom_for(lt, z3.ForAll([a, b], z3.Not(z3.And(lt(a, b), lt(b, a))), patterns=[lt(a, b)]))
L.axiom_for(lt, z3.ForAll([a, b, c_], z3.Implies(lt(a, b), z3.Or(lt(a, c_), lt(c_, b))), patterns=[z3.MultiPattern(lt(a, b), lt(a, c_)), z3.MultiPattern(lt(a, b), lt(c_, b))]))
eqv = lambda x, y: z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x)))

PairS = L.record("pair_Key_Val", [("first", Key), ("second", Val)])
MSeq = L.seq_of(PairS)
KSeq = L.seq_of(Key)


class M(Models):
    MAPT = ("std::map",); SETT = ("std::set",)


def th_of(d): return L.seq_theory_for_sort(d.sort())
def key_at(d, i):
    th = th_of(d)
    x = th.at_(d, i)
    return L.rec_get(x, "first") if th is MSeq else x


def data(c, new=False):
    return c.f_new("_data") if new else c.f_old("_data")


def sorted_(d, name="s"):
    i, j = z3.Ints("si sj")
    th = th_of(d)
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len_(d)), lt(key_at(d, i), key_at(d, j))),
                     patterns=[z3.MultiPattern(th.at_(d, i), th.at_(d, j))])


def absent(d, k):
    i = z3.Int("ai")
    th = th_of(d)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len_(d)), z3.Not(eqv(key_at(d, i), k))), patterns=[th.at_(d, i)])


def pre(c): return [("entries are strictly increasing by key", sorted_(data(c)))]


def arg_key(c, i=0):
    v = c.old[i]
    return key_of(v) if v.sort() == Arg else v


def it_idx(c, it):
    it = c.ex.val(it)
    assert isinstance(it, Iter) and not it.rev, it
    if not c.ex.deref(it.loc).same(c.this.ext(("f", "_data"))): raise Unsupported("iterator into something else")
    return it.idx


def unchanged(c): return L.eqgoal(data(c, True), data(c)) if not data(c, True).eq(data(c)) else z3.BoolVal(True)


def find_post(c):
    d = data(c); k = arg_key(c); r = it_idx(c, c.res); n = th_of(d).len_(d)
    return [("finds an entry with the key, or reports the end exactly when there is none",
             z3.Or(z3.And(0 <= r, r < n, eqv(key_at(d, r), k)), z3.And(r == n, absent(d, k)))),
            ("lookup changes nothing", unchanged(c))]


def inserted(d, d2, p, x):
    """d2 is d with x inserted at p"""
    th = th_of(d); n = th.len_(d)
    i = z3.Int("ii")
    return [("one entry more", z3.And(th.len_(d2) == n + 1, 0 <= p, p <= n)),
            ("the new entry is the one given", L.eqgoal(th.at_(d2, p), x)),
            ("entries before it are kept", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), th.at_(d2, i) == th.at_(d, i)), patterns=[th.at_(d2, i)])),
            ("entries after it are kept", z3.ForAll([i], z3.Implies(z3.And(p < i, i <= n), th.at_(d2, i) == th.at_(d, i - 1)), patterns=[th.at_(d2, i)])),
            ("entries stay strictly increasing by key", sorted_(d2))]


def emplace_post(c):
    d, d2 = data(c), data(c, True)
    th = th_of(d); n = th.len_(d)
    k = arg_key(c)
    r = c.ex.val(c.res)
    idx = it_idx(c, r.f["first"]); ok = r.f["second"]
    if th is MSeq:
        v = c.old[1]
        x = L.rec_mk(PairS, [k, val_of(v) if v.sort() == Arg else v])
    else:
        x = k
    out = [("a duplicate is refused and changes nothing", z3.Implies(z3.Not(ok), L.eqgoal(d2, d))),
           ("a refused insertion points at the entry already there", z3.Implies(z3.Not(ok), z3.And(0 <= idx, idx < n, eqv(key_at(d, idx), k)))),
           ("an insertion is accepted only when the key was absent", z3.Implies(ok, absent(d, k)))]
    out += [("inserted: " + l, z3.Implies(ok, f)) for l, f in inserted(d, d2, idx, x)]
    return out


def removed(d, d2, p):
    th = th_of(d); n = th.len_(d)
    i = z3.Int("ii")
    return [("one entry less", z3.And(th.len_(d2) == n - 1, 0 <= p, p < n)),
            ("entries before it are kept", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), th.at_(d2, i) == th.at_(d, i)), patterns=[th.at_(d2, i)])),
            ("entries after it are kept", z3.ForAll([i], z3.Implies(z3.And(p <= i, i < n - 1), th.at_(d2, i) == th.at_(d, i + 1)), patterns=[th.at_(d2, i)])),
            ("entries stay strictly increasing by key", sorted_(d2))]


def erase_post(c):
    d, d2 = data(c), data(c, True)
    th = th_of(d); n = th.len_(d)
    k = arg_key(c)
    idx = it_idx(c, c.res)
    hit = z3.And(0 <= idx, idx < n, eqv(key_at(d, idx), k))
    out = [("erasing an absent key changes nothing", z3.Implies(absent(d, k), z3.And(L.eqgoal(d2, d), idx == n))),
           ("if nothing was erased the key was absent", z3.Or(hit, absent(d, k)))]
    out += [("erased: " + l, z3.Implies(z3.Not(absent(d, k)), f)) for l, f in removed(d, d2, idx)]
    out += [("the entry with the key is the one erased", z3.Implies(z3.Not(absent(d, k)), hit))]
    return out


def erase_it_setup(c):
    p = c.ex.fresh("pos", Int)
    c.pos = p
    c.ex.assume(z3.And(p >= 0, p < th_of(data_now(c)).len_(data_now(c))))
    c.args[0] = Iter(c.this.ext(("f", "_data")), p)


def data_now(c): return c.ex.val(c.this.ext(("f", "_data")))


def erase_it_arg(c, i, p, t):
    return Iter(c.this.ext(("f", "_data")), z3.IntVal(0))


def erase_it_post(c):
    return removed(data(c), data(c, True), c.pos) + [("the result is the position after the erased entry", it_idx(c, c.res) == c.pos)]


def ref_idx(c):
    """index of the entry whose mapped value the returned reference designates"""
    l = c.res
    if not isinstance(l, Loc): raise Unsupported("reference result")
    l = c.ex.deref(l)
    if l.path[-1] != ("f", "second") or l.path[-2][0] != "i" or not Loc(l.root, l.path[:-2]).same(c.this.ext(("f", "_data"))):
        raise Unsupported("reference to something else")
    return l.path[-2][1]


def index_post(c):
    d, d2 = data(c), data(c, True)
    n = MSeq.len_(d)
    k = arg_key(c)
    p = ref_idx(c)
    was = z3.And(0 <= p, p < n, eqv(key_at(d, p), k))
    out = [("a known key leaves the map unchanged", z3.Implies(z3.Not(absent(d, k)), z3.And(was, L.eqgoal(d2, d)))),
           ("the reference designates the entry of the key", z3.And(0 <= p, p < MSeq.len_(d2), eqv(key_at(d2, p), k)))]
    out += [("new key: " + l, z3.Implies(absent(d, k), f)) for l, f in inserted(d, d2, p, L.rec_mk(PairS, [k, val_default]))]
    return out


def at_post(c):
    d = data(c); k = arg_key(c); p = ref_idx(c)
    return [("the reference designates the entry of the key", z3.And(0 <= p, p < MSeq.len_(d), eqv(key_at(d, p), k))), ("the map is unchanged", unchanged(c))]


def at_exc(c): return [("the key is absent", absent(data(c), arg_key(c))), ("the map is unchanged", unchanged(c))]


def ctor_pre(c):
    v = c.old[0]
    th = th_of(v)
    i, j = z3.Ints("ci cj")
    return [("the initial keys are pairwise different", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len_(v)), z3.Not(eqv(key_at(v, i), key_at(v, j)))), patterns=[z3.MultiPattern(th.at_(v, i), th.at_(v, j))]))]


def ctor_post(c):
    v = c.old[0]; d = data(c, True); th = th_of(v)
    n = th.len_(v)
    i = z3.Int("pi")
    out = [("as many entries as given", th.len_(d) == n), ("entries are strictly increasing by key", sorted_(d))]
    gs = getattr(c.ex, "ghost_sort", None)
    if gs is None: raise Unsupported("no permutation witness")
    _, perm, inv = gs
    out += [("every entry was given", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= perm(i), perm(i) < n, th.at_(d, i) == th.at_(v, perm(i)))), patterns=[th.at_(d, i)])),
            ("every given entry is there", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, th.at_(d, inv(i)) == th.at_(v, i))), patterns=[th.at_(v, i)]))]
    return out


def whole(name):
    def post(c):
        d = data(c); n = th_of(d).len_(d)
        r = c.ex.val(c.res) if c.res is not None else None
        if name == "empty": return [("tells whether there are entries", r == (n == 0)), ("changes nothing", unchanged(c))]
        if name == "size": return [("number of entries", r == n), ("changes nothing", unchanged(c))]
        if name == "clear": return [("no entry is left", th_of(d).len(data(c, True)) == 0)]
        if name == "reserve": return [("contents unchanged", unchanged(c))]
        if name == "begin": return [("first entry", it_idx(c, r) == 0), ("changes nothing", unchanged(c))]
        if name == "end": return [("past the last entry", it_idx(c, r) == n), ("changes nothing", unchanged(c))]
        if name in ("rbegin", "rend"):
            r = c.ex.val(r)
            return [("iterates the same entries backwards", z3.And(z3.BoolVal(r.rev and c.ex.deref(r.loc).same(c.this.ext(("f", "_data")))), r.idx == (n if name == "rbegin" else 0)))]
        if name == "operator==":
            d2 = c.field(c.old[0], "_data")
            return [("equal exactly when the entries are equal", r == L.eqgoal(d, d2))]
    return post


def less_post(c):
    l, r = c.old[0], c.old[1]
    return [("shorter first, then alphabetical", c.res_val() == z3.If(Str.len_(l) == Str.len_(r), str_lt(l, r), Str.len_(l) < Str.len_(r)))]


def less_lemma():
    x, y, z = z3.Consts("x y z", Str.sort)
    f = lambda l, r: z3.If(Str.len_(l) == Str.len_(r), str_lt(l, r), Str.len_(l) < Str.len_(r))
    return [("irreflexive", [], z3.Not(f(x, x))), ("transitive", [f(x, y), f(y, z)], f(x, z)), ("total", [x != y], z3.Or(f(x, y), f(y, x)))]


def hist_lemma():
    """one-step preservation of 'the entries are exactly those inserted and not erased' by the contracts of emplace and erase"""
    out = []
    for th, mk in ((MSeq, "map"), (KSeq, "set")):
        d, d2 = z3.Consts("d d2", th.sort)
        p, q = z3.Ints("p q")
        x = z3.Const("x", th.elem); k2 = z3.Const("k2", Key)
        kx = L.rec_get(x, "first") if th is MSeq else x
        ins = [sorted_(d), absent(d, kx)] + [f for _, f in inserted(d, d2, p, x)]
        g1 = z3.Implies(z3.And(0 <= q, q < th.len_(d)), th.at_(d2, z3.If(q < p, q, q + 1)) == th.at_(d, q))
        out.append((mk + ": insertion keeps every entry", ins, g1))
        out.append((mk + ": insertion adds only the given entry", ins, z3.Implies(z3.And(0 <= q, q < th.len_(d2), q != p), th.at_(d2, q) == th.at_(d, z3.If(q < p, q, q - 1)))))
        rem = [sorted_(d)] + [f for _, f in removed(d, d2, p)]
        out.append((mk + ": erasure keeps every other entry", rem, z3.Implies(z3.And(0 <= q, q < th.len_(d), q != p), th.at_(d2, z3.If(q < p, q, q - 1)) == th.at_(d, q))))
        out.append((mk + ": the erased key is gone", rem, absent(d2, key_at(d, p))))
        out.append((mk + ": no key occurs twice", [sorted_(d), 0 <= p, p < q, q < th.len_(d)], z3.Not(eqv(key_at(d, p), key_at(d, q)))))
    return out


TUF = "tu/sortedmap.cpp"
contracts = []


def params(d): return [parse(qt(p)) for p in children(d) if p["kind"] == "ParmVarDecl"]
def has(*names):
    return lambda d, tu: [p.bare().name.split("::")[-1] for p in params(d)] == list(names)


def rref(d, tu): return params(d) and qt([p for p in children(d) if p["kind"] == "ParmVarDecl"][0]).endswith("&&")


def add(cls, fn, pred, suffix="", **kw):
    q = "graphql::internal::%s::%s" % (cls, fn)
    kw.setdefault("pre", pre)
    contracts.append(Contract("%s::%s%s" % (cls, fn, suffix), TUF, q, pred, use=False, **kw))


for cls in ("sorted_map", "sorted_set"):
    for nm in ("empty", "size", "clear", "begin", "end", "rbegin", "rend"):
        add(cls, nm, None, post=whole(nm))
    add(cls, "reserve", None, post=whole("reserve"))
    add(cls, "operator==", None, post=whole("operator=="))
    add(cls, cls, lambda d, tu: len(params(d)) == 1 and params(d)[0].bare().name == "std::initializer_list", "(initializer_list)", pre=ctor_pre, post=ctor_post)
    add(cls, "find", has("Key"), "(key)", post=find_post)
    add(cls, "find", has("Arg"), "(arg)", post=find_post)
    add(cls, "erase", has("Key"), "(key)", post=erase_post)
    add(cls, "erase", has("Arg"), "(arg)", post=erase_post)
    add(cls, "erase", lambda d, tu: "normal_iterator" in params(d)[0].name, "(iterator)", arg_setup=erase_it_arg, setup=erase_it_setup, post=erase_it_post)
add("sorted_map", "emplace", has("Arg", "Arg"), "(arg)", post=emplace_post)
add("sorted_map", "emplace", has("Key", "Arg"), "(key)", post=emplace_post)
add("sorted_map", "operator[]", has("Arg"), "(arg)", post=index_post)
add("sorted_map", "operator[]", has("Key"), "(key)", post=index_post)
add("sorted_map", "at", has("Arg"), "(arg)", post=at_post, exc=at_exc)
add("sorted_map", "at", has("Key"), "(key)", post=at_post, exc=at_exc)
add("sorted_set", "emplace", lambda d, tu: not rref(d, tu), "(const key&)", post=emplace_post)
add("sorted_set", "emplace", lambda d, tu: rref(d, tu), "(key&&)", post=emplace_post)
contracts.append(Contract("shorter_or_less", TUF, "graphql::internal::shorter_or_less::operator()", post=less_post, pre=lambda c: [], use=False))
PROPERTY = "C02"
HARNESS = {"main": "c02.cpp", "sources": []}
HARNESS_SECS = 10
V = "graphql::verif::"


def less_call(c):
    return lt(c.ex.val(c.args[0]), c.ex.val(c.args[1]))


less_contract = Contract("supplied ordering", TUF, V + "Less::operator()", call=less_call)
less_contract.trusted = True


def models(tu):
    m = M()
    m.contracts = [less_contract]
    m.opaque = {V + "Key": Key, V + "Val": Val, V + "Arg": Arg}

    def key_ctor(ex, ct, node, args):
        args = m._live(args)
        src = ex.eval(args[0]); v = ex.val(src)
        if z3.is_expr(v) and v.sort() == Arg: return key_of(v)
        if node is not None and "&&" in node.get("ctorType", {}).get("qualType", "") and isinstance(src, Loc): ex.move_from(src)
        elif node is None and args[0].get("valueCategory") == "xvalue" and isinstance(src, Loc): ex.move_from(src)
        return v

    def val_ctor(ex, ct, node, args):
        args = m._live(args)
        if not args: return val_default
        v = ex.val(ex.eval(args[0]))
        return val_of(v) if z3.is_expr(v) and v.sort() == Arg else v
    m.ctor_models = {V + "Key": key_ctor, V + "Val": val_ctor}
    return m


LEMMAS = [Lemma("shorter_or_less is a strict total order", less_lemma), Lemma("finite map/set", hist_lemma)]
TRUSTED = ["std::equal_range, std::sort, std::vector insert/erase/iterators (models with their standard preconditions checked)", "std::string_view operator< is a strict total order"]
ASSUMPTIONS = ["the supplied ordering is a strict weak ordering without side effects", "initial keys of an initializer list are pairwise different (duplicates are not removed by the constructor)",
               "Key and Val operations do not throw (the members are noexcept)"]
