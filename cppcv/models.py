"""Trusted models: machine integers, standard library types, opaque library types."""
import re
import z3
from .front import Unsupported, children, qt, FUNC_KINDS
from .ctypes_ import parse, CT, INTS
from . import logic as L
from .logic import Int, Bool, BV, BV8, Str, strlit, simp
from .engine import *
from .engine import _has_body

STRT = ("std::basic_string", "std::basic_string_view")
SEQT = ("std::vector", "std::list", "std::deque", "std::queue", "std::stack", "std::initializer_list")
PTRT = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")
MAPT = ("std::map", "std::unordered_map", "graphql::internal::sorted_map")
SETT = ("std::set", "std::unordered_set", "graphql::internal::sorted_set")

Dbl = z3.DeclareSort("Dbl")
dbl_of_int = z3.Function("dbl_of_int", BV(32), Dbl)


# strict total order on strings (lexicographic): uninterpreted with the order axioms
str_lt = z3.Function("str_lt", Str.sort, Str.sort, Bool)
str_cmp_f = z3.Function("str_compare", Str.sort, Str.sort, BV(32))
_a, _b, _c = z3.Consts("a b c", Str.sort)
L.axiom_for(str_lt, z3.ForAll([_a], z3.Not(str_lt(_a, _a)), patterns=[str_lt(_a, _a)]))
L.axiom_for(str_lt, z3.ForAll([_a, _b, _c], z3.Implies(z3.And(str_lt(_a, _b), str_lt(_b, _c)), str_lt(_a, _c)), patterns=[z3.MultiPattern(str_lt(_a, _b), str_lt(_b, _c))]))
L.axiom_for(str_lt, z3.ForAll([_a, _b], z3.Or(str_lt(_a, _b), _a == _b, str_lt(_b, _a)), patterns=[str_lt(_a, _b)]))
L.axiom_for(str_cmp_f, z3.ForAll([_a, _b], z3.And((str_cmp_f(_a, _b) < 0) == str_lt(_a, _b), (str_cmp_f(_a, _b) > 0) == str_lt(_b, _a), (str_cmp_f(_a, _b) == 0) == (_a == _b)), patterns=[str_cmp_f(_a, _b)]))


def str_cmp(a, b):
    return str_cmp_f(a, b)


class MapTheory:
    """finite maps: has/get plus functional update"""
    cache = {}

    def __init__(self, ksort, vsort, kind=""):
        self.k, self.v = ksort, vsort
        n = self.name = kind + L.sort_name(ksort) + "_" + L.sort_name(vsort)
        M = self.sort = z3.DeclareSort("Map_" + n)
        f = lambda nm, *a: z3.Function(nm + "_" + n, *a)
        self.has_ = f("mhas", M, ksort, Bool)
        self.get_ = f("mget", M, ksort, vsort)
        self.set_ = f("mset", M, ksort, vsort, M)
        self.del_ = f("mdel", M, ksort, M)
        self.size_ = f("msize", M, Int)
        self.empty = z3.Const("mempty_" + n, M)
        self.keys = L.seq_of(ksort)
        self.keys_ = f("mkeys", M, self.keys.sort)       # keys in iteration order
        self.idx_ = f("mkeyidx", M, ksort, Int)
        self.eq_ = f("meq", M, M, Bool)
        m, m2 = z3.Consts("m m2", M)
        k, j = z3.Consts("k j", ksort)
        v = z3.Const("v", vsort)
        i = z3.Int("i")
        FA = z3.ForAll
        L.SORT_AXIOMS[M.name()] = [
            FA([k], z3.Not(self.has_(self.empty, k)), patterns=[self.has_(self.empty, k)]),
            self.size_(self.empty) == 0,
            FA([m], self.size_(m) >= 0, patterns=[self.size_(m)]),
            FA([m, k], z3.Implies(self.has_(m, k), self.size_(m) > 0), patterns=[z3.MultiPattern(self.has_(m, k), self.size_(m))]),
            FA([m, k, v, j], self.has_(self.set_(m, k, v), j) == z3.Or(j == k, self.has_(m, j)), patterns=[self.has_(self.set_(m, k, v), j)]),
            FA([m, k, v, j], self.has_(self.set_(m, k, v), j) == z3.Or(j == k, self.has_(m, j)), patterns=[z3.MultiPattern(self.set_(m, k, v), self.has_(m, j))]),
            FA([m, k, v, j], self.get_(self.set_(m, k, v), j) == z3.If(j == k, v, self.get_(m, j)), patterns=[self.get_(self.set_(m, k, v), j)]),
            FA([m, k, j], self.has_(self.del_(m, k), j) == z3.And(j != k, self.has_(m, j)), patterns=[self.has_(self.del_(m, k), j)]),
            FA([m, k, j], self.has_(self.del_(m, k), j) == z3.And(j != k, self.has_(m, j)), patterns=[z3.MultiPattern(self.del_(m, k), self.has_(m, j))]),
            FA([m, k, j], z3.Implies(j != k, self.get_(self.del_(m, k), j) == self.get_(m, j)), patterns=[self.get_(self.del_(m, k), j)]),
            # iteration order
            FA([m], self.keys.len_(self.keys_(m)) == self.size_(m), patterns=[self.keys_(m)]),
            FA([m, i], z3.Implies(z3.And(0 <= i, i < self.size_(m)), z3.And(self.has_(m, self.keys.at_(self.keys_(m), i)), self.idx_(m, self.keys.at_(self.keys_(m), i)) == i)), patterns=[self.keys.at_(self.keys_(m), i)]),
            FA([m, k], z3.Implies(self.has_(m, k), z3.And(0 <= self.idx_(m, k), self.idx_(m, k) < self.size_(m), self.keys.at_(self.keys_(m), self.idx_(m, k)) == k)), patterns=[self.has_(m, k)]),
            FA([m, k, v], self.size_(self.set_(m, k, v)) == self.size_(m) + z3.If(self.has_(m, k), 0, 1), patterns=[self.set_(m, k, v)]),
            FA([m, k], self.size_(self.del_(m, k)) == self.size_(m) - z3.If(self.has_(m, k), 1, 0), patterns=[self.del_(m, k)]),
            FA([m, m2], self.eq_(m, m2) == FA([k], z3.And(self.has_(m, k) == self.has_(m2, k), z3.Implies(self.has_(m, k), self.get_(m, k) == self.get_(m2, k))), patterns=[self.has_(m, k), self.has_(m2, k)]), patterns=[self.eq_(m, m2)]),
        ]
        i2 = z3.Int("i2")
        if kind == "" and (ksort == Int or ksort == Str.sort):
            ka = self.keys.at_
            lt = (lambda a, b: a < b) if ksort == Int else str_lt
            L.SORT_AXIOMS[M.name()].append(FA([m, i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < self.size_(m)), lt(ka(self.keys_(m), i), ka(self.keys_(m), i2))), patterns=[z3.MultiPattern(ka(self.keys_(m), i), ka(self.keys_(m), i2))]))


_maps = {}


def map_of(k, v, kind=""):
    """kind "": ordered by std::less; other kinds have an unspecified iteration order"""
    key = (k.name() if hasattr(k, "name") else str(k), str(v), kind)
    if key not in _maps:
        _maps[key] = MapTheory(k, v, kind)
    return _maps[key]


def map_kind(ct):
    if ct.name in ("std::map", "std::set"):
        return "" if len(ct.args) <= (2 if ct.name == "std::map" else 1) else "C"
    if ct.name.startswith("graphql::internal::sorted_") and len(ct.args) <= (2 if ct.name.endswith("map") else 1): return ""      # std::less by default
    return "U"


def map_theory_for(sort):
    for m in _maps.values():
        if m.sort == sort:
            return m
    return None


class Iteration:
    def __init__(self, ln, elem, seq=None):
        self.len = ln; self.elem = elem; self.seq = seq or (lambda: None)


REC_SORTS = {}


class Models:
    MAPT, SETT = MAPT, SETT
    recursive = ()
    wide_variant_eq = True
    stable_iterators = False

    def __init__(self):
        self.globals = {}
        self.contracts = []        # contracts usable at call sites
        self.loops = []            # LoopSpec candidates
        self.cur_loops = []
        self.opaque = {}           # class name -> sort
        self.sort_ct = {}          # sort name -> CT
        self.member_models = {}    # (class name, member) -> fn(ex, obj, args_nodes, node)
        self.field_models = {}     # (class name, field) -> fn(ex, loc)
        self.free_models = {}      # qualified/unqualified function name -> fn(ex, node, arg_nodes)
        self.ctor_models = {}      # class name -> fn(ex, ct, node, args)
        self.model_types = set()
        self.model_fns = set()
        self.inline_rec = set()
        self.global_values = {}

    def bind(self, ex):
        self.ex = ex

    # ------------------------------------------------------------ dispatch knobs
    def contract_for(self, ex, decl):
        q = ex.tu.qualname(decl)
        for c in self.contracts:
            if c.matches(ex.tu, q, decl):
                return c
        return None

    def allow_recursion(self, body):
        return False

    def is_model(self, q):
        return q in self.model_fns or q in self.free_models

    def is_model_type(self, ct, q):
        if ct.name in self.model_types:
            return True
        own = q.rsplit("::", 1)
        return own[0] in self.model_types or (own[0], own[1] if len(own) > 1 else "") in self.member_models

    def loop_spec(self, ex, n, it):
        for s in list(self.cur_loops) + list(self.loops):
            if s.pred is None or s.pred(ex, n, it):
                return s
        return None

    def global_value(self, rd, d):
        nm = rd.get("name")
        if nm == "nullopt" and nm not in self.global_values: return StructV(CT("std::nullopt_t"), {})
        if nm in self.global_values:
            return self.global_values[nm]
        q = d.get("_q") if d else None
        return self.global_values.get(q)

    # ------------------------------------------------------------ sorts
    def sort_of(self, ct):
        if ct.ptr:
            p = ct.pointee()
            if p.name in self.opaque:
                return self.ptr_sort(p)
            if p.name == "char":
                return Str.sort
            raise Unsupported("sort of pointer " + repr(ct))
        n = ct.name
        if n in self.opaque:
            return self.opaque[n]
        if n == "bool": return Bool
        if n in INTS:
            k, w = INTS[n]
            return Int if w == 64 else BV(w)
        if n == "double" or n == "float": return Dbl
        if n == "std::reference_wrapper": return self.sort_of(ct.args[0].bare())   # the referred-to value (const, outlives the wrapper)
        if n in STRT: return Str.sort
        if n in SEQT:
            return L.seq_of(self.sort_of(ct.args[0])).sort
        if n == "std::array":
            return L.seq_of(self.sort_of(ct.args[0])).sort
        if n == "std::pair" or n == "std::tuple":
            names = ["first", "second"] if n == "std::pair" else ["e%d" % i for i in range(len(ct.args))]
            ss = [self.sort_of(a) for a in ct.args]
            nm = n[5:] + "_" + "_".join(L.sort_name(s) for s in ss)
            s = L.record(nm, list(zip(names, ss)))
            self.sort_ct.setdefault(s.name(), ct.bare())
            return s
        if n in ("std::optional",) or n in PTRT:
            s = L.option(self.sort_of(ct.args[0]))
            return s
        if n == "std::variant":
            ss = [self.sort_of(a) for a in ct.args]
            return L.variant("Var_" + "_".join(L.sort_name(s) for s in ss), ss)
        if n == "std::monostate":
            return L.UnitSort
        if n in self.MAPT:
            return map_of(self.sort_of(ct.args[0]), self.sort_of(ct.args[1]), map_kind(ct)).sort
        if n in self.SETT:
            return map_of(self.sort_of(ct.args[0]), L.UnitSort, map_kind(ct)).sort
        # enum?
        ds = self.ex.tu.records.get(n)
        if ds and ds[0]["kind"] == "EnumDecl":
            return Int
        if n in self.recursive:
            if n not in REC_SORTS:
                S = REC_SORTS[n] = L.recursive_record(L.sort_name(n.replace("graphql::", "")))
                self.sort_ct.setdefault(S.name(), ct.bare())
                L.define_recursive(S, [(f["name"], self.field_sort(parse(qt(f)))) for f in self.ex.fields_of(ct)])
            self.sort_ct.setdefault(REC_SORTS[n].name(), ct.bare())
            return REC_SORTS[n]
        fs = self.ex.fields_of(ct)
        if fs is not None:
            nm = L.sort_name(n.replace("graphql::", "")) + ("_" + "_".join(L.sort_name(repr(a)) for a in ct.args) if ct.args else "")
            flds = [(f["name"], self.field_sort(parse(qt(f)))) for f in fs]
            if not flds:
                flds = [("dummy", Bool)]
            s = L.record(nm, flds)
            self.sort_ct.setdefault(s.name(), ct.bare())
            return s
        if n.startswith("graphql::") and n.rsplit("::", 1)[-1] in self.enum_names():
            return Int
        raise Unsupported("no sort for type %r" % ct)

    def enum_names(self):
        return ()

    def field_sort(self, ct):
        return self.sort_of(ct.bare() if ct.ref else ct)

    def ptr_sort(self, p):
        return self.opaque[p.name]

    def ct_of_sort(self, sort):
        return self.sort_ct.get(sort.name())

    def this_type(self, ex, owner):
        if owner["kind"] == "ClassTemplateSpecializationDecl":
            args = []
            for c in children(owner):
                if c.get("kind") == "TemplateArgument":
                    if "type" in c: args.append(parse(qt(c)))
                    elif "value" in c: args.append(CT(str(c["value"])))
            return CT(owner["_q"], args)
        return CT(owner["_q"])

    def fresh_this(self, ex, ct, decl):
        if decl["kind"] == "CXXConstructorDecl":
            return ex.new_struct(ct)
        if ct.name in self.opaque:
            return ex.fresh("this", self.opaque[ct.name])
        return StructV(ct, {f["name"]: self.fresh_field(ex, parse(qt(f)), f["name"]) for f in ex.fields_of(ct)})

    def fresh_field(self, ex, t, name):
        if t.ref:
            return RefV(ex.alloc(self.fresh_of(t.bare(), name), name))
        return self.fresh_of(t, name)

    def fresh_arg(self, ex, t, name):
        v = self.fresh_of(t.bare(), name)
        return ex.alloc(v, name) if t.ref else v

    def fresh_of(self, ct, name):
        """fresh symbolic value of a C++ type"""
        return self.ex.fresh(name, self.sort_of(ct))

    # ------------------------------------------------------------ pack / unpack
    def pack(self, v, ct):
        return self.pack_sort(v, self.sort_of(ct))

    def pack_sort(self, v, sort):
        if z3.is_expr(v):
            if v.sort() != sort:
                raise Unsupported("sort mismatch %s vs %s" % (v.sort(), sort))
            return v
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, RefV):
            return self.pack_sort(self.ex.val(v.loc), sort)
        if isinstance(v, StructV):
            fs = L.rec_fields(sort)
            if fs:
                if fs == ["dummy"]:
                    return L.rec_mk(sort, [z3.BoolVal(True)])
                return L.rec_mk(sort, [self.pack_sort(v.f[f], L.rec_sort(sort, f)) for i, f in enumerate(fs)])
            if L.is_opt(sort):
                if v.ct.name == "std::nullopt_t": return L.opt_none(sort)
                if "val" not in v.f: return L.opt_some(sort, self.pack_sort(v, sort.accessor(1, 0).range()))
                return L.opt_some(sort, self.pack_sort(v.f["val"], sort.accessor(1, 0).range()))
        if isinstance(v, ListV):
            th = L.seq_theory_for_sort(sort)
            if th is not None:
                r = th.empty
                for x in v.items:
                    r = th.push(r, self.pack_sort(self.ex.val(x), th.elem))
                return r
        if isinstance(v, Ptr) and L.is_opt(sort):
            if v.loc is None: return L.opt_none(sort)
        if isinstance(v, Ptr) and v.loc is not None:
            return self.pack_sort(self.ex.val(v.loc), sort)
        raise Unsupported("cannot pack %r into %s" % (v, sort))

    def unpack_hint(self, t):
        return t

    def moved(self, v):
        if z3.is_expr(v):
            th = L.seq_theory_for_sort(v.sort())
            if th is not None and th.elem != BV8:
                return th.empty            # moved-from std::vector is empty
            if th is not None:
                return self.ex.fresh("moved_str", v.sort())
            if L.is_opt(v.sort()):
                return v if not self.is_ptr_like(v) else L.opt_none(v.sort())
            m = map_theory_for(v.sort())
            if m is not None:
                return m.empty
            if v.sort() in self.opaque.values():
                return self.ex.fresh("moved", v.sort())
            return v
        if isinstance(v, StructV):
            return StructV(v.ct, {f: self.moved(x) for f, x in v.f.items()})
        return v

    def is_ptr_like(self, v):
        return False

    # ------------------------------------------------------------ integers
    def int_const(self, ct, v):
        if ct.name == "bool": return z3.BoolVal(bool(v))
        if ct.name not in INTS: return z3.IntVal(v)
        k, w = INTS[ct.name]
        if w == 64: return z3.IntVal(v)
        return z3.BitVecVal(v, w)

    def float_const(self, s):
        return z3.Const("dblconst_" + str(s), Dbl)

    def is_signed(self, ct):
        if ct.name in INTS:
            return INTS[ct.name][0] == "s"
        return True

    widened = {}         # id of an integer term -> (the bit vector it is the value of, signed, the term itself)

    def int_cast(self, v, src, dst):
        if z3.is_bool(v):
            if dst.name == "bool": return v
            return z3.If(v, self.int_const(dst, 1), self.int_const(dst, 0))
        if isinstance(v, Ptr) or not z3.is_expr(v):
            return v
        if dst.name == "bool":
            return self.ex.as_bool(v)
        dk = INTS.get(dst.name)
        if dk is None:      # enum
            if z3.is_bv(v): return simp(z3.BV2Int(v, self.is_signed(src)))
            return v
        if z3.is_int(v):
            if dk[1] == 64:
                if z3.is_int_value(v):
                    n = v.as_long()
                    if dk[0] == "u" and n < 0: return z3.IntVal(n + (1 << 64))
                    return v
                if dk[0] == "u" and self.is_signed(src) and src.name in INTS:
                    if self.ex.entails(v >= 0): return v
                    return z3.If(v >= 0, v, v + (1 << 64))
                return v
            if z3.is_int_value(v):
                return z3.BitVecVal(v.as_long(), dk[1])
            o = self.widened.get(v.get_id())
            if o is not None:       # a widened value cut back: a machine operation, whatever the sign
                x, signed = o[0], o[1]
                if x.size() == dk[1]: return x
                if dk[1] < x.size(): return simp(z3.Extract(dk[1] - 1, 0, x))
                return simp(z3.SignExt(dk[1] - x.size(), x) if signed else z3.ZeroExt(dk[1] - x.size(), x))
            return z3.Int2BV(v, dk[1])
        sw = v.size()
        if dk[1] == 64:
            if z3.is_bv_value(v):
                n = v.as_signed_long() if self.is_signed(src) else v.as_long()
                if dk[0] == "u" and n < 0: n += 1 << 64
                return z3.IntVal(n)
            r = z3.BV2Int(v, self.is_signed(src))
            if dk[0] == "u" and self.is_signed(src):
                r = z3.If(r >= 0, r, r + (1 << 64))
            self.widened[r.get_id()] = (v, self.is_signed(src), r)
            return r
        if dk[1] == sw: return v
        if dk[1] < sw:
            return simp(z3.Extract(dk[1] - 1, 0, v))
        return simp(z3.SignExt(dk[1] - sw, v) if self.is_signed(src) else z3.ZeroExt(dk[1] - sw, v))

    def to_index(self, i, ct):
        if z3.is_int(i): return i
        return self.int_cast(i, ct, CT("long"))

    def int_to_float(self, v, src):
        if z3.is_bv(v):
            return dbl_of_int(v if v.size() == 32 else self.int_cast(v, src, CT("int")))
        raise Unsupported("int to float")

    def float_to_int(self, v, dst):
        raise Unsupported("float to int")

    def neg(self, v):
        return -v

    def binop(self, ex, op, x, y, tx, ty, tr, n):
        if isinstance(x, (Ptr, Iter)) or isinstance(y, (Ptr, Iter)):
            return self.ptr_op(ex, op, x, y, n)
        if not (z3.is_expr(x) and z3.is_expr(y)):
            raise Unsupported("binary %s on %r %r" % (op, x, y))
        if z3.is_bool(x) and z3.is_bool(y):
            if op == "==": return x == y
            if op == "!=": return x != y
            if op == "|": return z3.Or(x, y)
            if op == "&": return z3.And(x, y)
        if x.sort() == Dbl and y.sort() == Dbl:
            if op == "==": return x == y
            if op == "!=": return x != y
        if x.sort() == Str.sort and y.sort() == Str.sort and op in ("==", "!="):
            return x == y if op == "==" else x != y
        if z3.is_bv(x) and z3.is_bv(y):
            if x.size() != y.size():
                if op in ("<<", ">>"):
                    y = z3.ZeroExt(x.size() - y.size(), y) if y.size() < x.size() else z3.Extract(x.size() - 1, 0, y)
                else:
                    raise Unsupported("bv width")
            s = self.is_signed(tx)
            if op in ("+", "-", "*") and s and x.size() >= 32:
                z = {"+": lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                     "-": lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                     "*": lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
                ex.check("%s: signed arithmetic does not overflow" % ex.contract.name, z, ex.line(n))
            f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<<": lambda: x << y, ">>": lambda: (x >> y) if s else z3.LShR(x, y),
                 "==": lambda: x == y, "!=": lambda: x != y,
                 "<": lambda: x < y if s else z3.ULT(x, y), ">": lambda: x > y if s else z3.UGT(x, y),
                 "<=": lambda: x <= y if s else z3.ULE(x, y), ">=": lambda: x >= y if s else z3.UGE(x, y),
                 "/": lambda: (x / y) if s else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if s else z3.URem(x, y)}
            if op in f: return f[op]()
            raise Unsupported("bv op " + op)
        if z3.is_bv(x) and z3.is_int(y) and op in ("<<", ">>"):
            y = z3.Int2BV(y, x.size())
            return self.binop(ex, op, x, y, tx, tx, tr, n)
        if z3.is_int(x) and z3.is_int(y):
            if op == "+": return simp(x + y)
            if op == "*": return simp(x * y)
            if op == "-":
                if not self.is_signed(tx) and not ex.entails(x >= y):
                    return z3.If(x >= y, x - y, x - y + (1 << 64))
                return simp(x - y)
            if op == "/":
                ex.check("%s: division by zero" % ex.contract.name, y != 0, ex.line(n))
                if self.is_signed(tr) and not ex.entails(z3.And(x >= 0, y > 0)):
                    return z3.If(z3.And(x < 0, y > 0), -((-x) / y), z3.If(z3.And(x >= 0, y < 0), -(x / -y), z3.If(z3.And(x < 0, y < 0), (-x) / -y, x / y)))
                return simp(x / y)
            if op == "%":
                ex.check("%s: division by zero" % ex.contract.name, y != 0, ex.line(n))
                if self.is_signed(tr) and not ex.entails(z3.And(x >= 0, y > 0)):
                    return z3.If(x < 0, -((-x) % y), x % y)
                return simp(x % y)
            f = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}
            if op in f: return f[op]()
            if z3.is_int_value(y) and op in (">>", "<<"):
                c = 1 << y.as_long()
                return simp(x / c) if op == ">>" else simp(x * c)
            for u, w in ((x, y), (y, x)):
                if op == "&" and z3.is_int_value(w) and w.as_long() >= 0 and w.as_long() & (w.as_long() + 1) == 0: return simp(u % (w.as_long() + 1))
            if op in ("&", "|", "^"):
                bx, by = z3.Int2BV(x, 64), z3.Int2BV(y, 64)
                return z3.BV2Int(bx & by if op == "&" else bx | by if op == "|" else bx ^ by, self.is_signed(tr))
            raise Unsupported("size_t op " + op)
        if op in ("==", "!=") and x.sort() == y.sort():
            return x == y if op == "==" else x != y
        raise Unsupported("binop %s %s %s" % (op, x.sort(), y.sort()))

    def ptr_op(self, ex, op, x, y, n):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.loc is None or y.loc is None:
                e = (x.loc is None and y.loc is None)
                return z3.BoolVal(e if op == "==" else not e)
            if op in ("==", "!="):
                if x.loc.root == y.loc.root and len(x.loc.path) == len(y.loc.path):
                    if x.loc.same(y.loc):
                        return z3.BoolVal(op == "==")
                    if all(a[0] == b[0] for a, b in zip(x.loc.path, y.loc.path)) and x.loc.path[-1][0] == "i" and Loc(x.loc.root, x.loc.path[:-1]).same(Loc(y.loc.root, y.loc.path[:-1])):
                        e = x.loc.path[-1][1] == y.loc.path[-1][1]
                        return e if op == "==" else z3.Not(e)
                if getattr(self, "handle_sorts", None):
                    # objects that are what they are: their addresses are equal when they are the same
                    u, v = ex.val(x.loc), ex.val(y.loc)
                    if z3.is_expr(u) and z3.is_expr(v) and u.sort() == v.sort() and u.sort().name() in self.handle_sorts:
                        return (u == v) if op == "==" else (u != v)
                if x.loc.root != y.loc.root:
                    return z3.BoolVal(op != "==")
                raise Unsupported("pointer comparison")
            if op in ("-", "<", ">", "<=", ">=") and x.loc.path and x.loc.path[-1][0] == "i":
                return self.binop(ex, op, x.loc.path[-1][1], y.loc.path[-1][1], CT("long"), CT("long"), CT("long"), n)
        if isinstance(x, Ptr) and x.loc is not None and z3.is_expr(y):
            y = self.to_index(y, CT("long") if z3.is_int(y) else CT("int"))
            st = x.loc.path[-1]
            if st[0] == "i":
                return Ptr(Loc(x.loc.root, x.loc.path[:-1] + (("i", simp(st[1] + y) if op == "+" else simp(st[1] - y)),)))
        if isinstance(x, Iter) and isinstance(y, Iter):
            a, b = x.idx, y.idx
            if op == "-": return simp(a - b) if not x.rev else simp(b - a)
            return self.binop(ex, op, a, b, CT("long"), CT("long"), CT("long"), n)
        if isinstance(x, Iter) and z3.is_expr(y):
            y = self.to_index(y, CT("long") if z3.is_int(y) else CT("int"))
            d = y if op == "+" else -y
            if x.rev: d = -d
            return Iter(x.loc, simp(x.idx + d), x.rev)
        for u, w in ((x, y), (y, x)):
            if z3.is_expr(u) and u.sort() in self.opaque.values() and isinstance(w, Ptr) and w.loc is None and op in ("==", "!="): return z3.BoolVal(op == "!=")
            if z3.is_expr(u) and u.sort() == Str.sort and isinstance(w, Ptr) and w.loc is None and op in ("==", "!="): return z3.BoolVal(op == "!=")
        if z3.is_expr(x) and isinstance(y, (Ptr, Iter)):
            if isinstance(y, Ptr) and y.loc is None and L.is_opt(x.sort()):
                r = L.opt_is(x)
                return z3.Not(r) if op == "==" else r
            return self.ptr_op(ex, op, y, x, n)
        if isinstance(x, Ptr) and x.loc is None and z3.is_expr(y) and L.is_opt(y.sort()):
            r = L.opt_is(y)
            return z3.Not(r) if op == "==" else r
        raise Unsupported("pointer op %s %r %r" % (op, x, y))

    # ------------------------------------------------------------ truth / deref / members
    def truth(self, v):
        if z3.is_expr(v) and L.is_opt(v.sort()):
            return L.opt_is(v)
        if isinstance(v, (Closure, BoundFn, FnRef)):
            return z3.BoolVal(True)
        if isinstance(v, StructV) and v.ct and v.ct.name in PTRT + ("std::optional",):
            return z3.BoolVal(True)
        raise Unsupported("truth value of %r" % (v,))

    def opt_loc(self, ex, loc, n, what="optional"):
        v = ex.val(loc)
        if isinstance(v, StructV):
            return loc.ext(("o",)) if isinstance(loc, Loc) else v.f["val"]
        if z3.is_expr(v) and L.is_opt(v.sort()):
            ex.check("%s: %s is engaged when dereferenced" % (ex.contract.name, what), L.opt_is(v), ex.line(n))
            ex.assume(L.opt_is(v))
            if isinstance(loc, Loc):
                return ex.deref(loc).ext(("o",))
            return L.opt_val(v)
        raise Unsupported("deref of %r" % (v,))

    def pointee(self, ex, p, b):
        """b->member where b is an optional/smart pointer/iterator operand"""
        if isinstance(p, Iter): return self.iter_loc(ex, p)
        if isinstance(p, MapIter): return self.mapiter_loc(ex, p)
        if isinstance(p, Ptr): return p.loc
        if z3.is_expr(p) and p.sort() in self.opaque.values():
            return ex.alloc(p, "node")
        raise Unsupported("-> on %r" % (p,))

    def deref_value(self, ex, p, n):
        if isinstance(p, Iter): return self.iter_loc(ex, p)
        if isinstance(p, MapIter): return self.mapiter_loc(ex, p)
        if z3.is_expr(p) and p.sort() in self.opaque.values(): return p
        raise Unsupported("* on %r" % (p,))

    def iter_loc(self, ex, it):
        v = ex.val(it.loc)
        idx = simp(it.idx - 1) if it.rev else it.idx
        ln = self.seq_len(v)
        ex.check("%s: iterator is dereferenceable" % ex.contract.name, z3.And(idx >= 0, idx < ln))
        ex.assume(z3.And(idx >= 0, idx < ln))
        return ex.deref(it.loc).ext(("i", idx))

    def mapiter_loc(self, ex, it):
        ex.check("%s: map iterator is dereferenceable" % ex.contract.name, it.valid)
        ex.assume(it.valid)
        m = ex.val(it.loc)
        th = map_theory_for(m.sort())
        if self.stable_iterators and it.at is not None and not it.at.eq(m):
            # iterators of a sorted_map are those of a vector: a new member invalidates them
            ex.check("%s: the map has not grown since the iterator was obtained" % ex.contract.name, th.keys_(it.at) == th.keys_(m))
            ex.assume(th.keys_(it.at) == th.keys_(m))
        kv = StructV(CT("std::pair", ()), {"first": it.key, "second": RefV(ex.deref(it.loc).ext(("m", it.key)))})
        if th.v == L.UnitSort:
            return ex.alloc(it.key, "key")
        return ex.alloc(kv, "kv")

    def member(self, ex, loc, name, n):
        base = children(n)[0]
        bt = parse(qt(base))
        fm = self.field_models.get((bt.name, name))
        if fm is None and bt.name == "element_type":
            b = base
            while b["kind"] in ("ImplicitCastExpr", "ParenExpr"): b = children(b)[0]
            if b["kind"] == "CXXOperatorCallExpr":
                t = parse(qt(children(b)[1])).bare()
                if t.args and t.name in PTRT + ("std::__shared_ptr_access",): fm = self.field_models.get((t.args[0].name, name))
        if fm is not None:
            return fm(ex, loc, n)
        return loc.ext(("f", name))

    def address_of(self, ex, v):
        if not isinstance(v, Loc): return None
        x = ex.val(v)
        if z3.is_expr(x) and x.sort() in self.opaque.values() and x.sort().name() in self.identity_sorts:
            return x
        return None

    identity_sorts = set()

    # ------------------------------------------------------------ sequences
    def seq_at(self, v, i):
        if isinstance(v, ListV):
            i = simp(i) if z3.is_expr(i) else z3.IntVal(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(v.items):
                return self.ex.val(v.items[i.as_long()])
            raise Unsupported("symbolic index into literal array")
        th = L.seq_theory_for_sort(v.sort())
        return th.at(v, i)

    def seq_upd(self, v, i, x):
        if isinstance(v, ListV):
            i = simp(i)
            if z3.is_int_value(i):
                items = list(v.items); items[i.as_long()] = x
                return ListV(items)
            raise Unsupported("symbolic index write")
        th = L.seq_theory_for_sort(v.sort())
        return th.upd(v, i, self.pack_sort(x, th.elem))

    def seq_len(self, v):
        if isinstance(v, ListV): return z3.IntVal(len(v.items))
        th = L.seq_theory_for_sort(v.sort())
        if th is None: raise Unsupported("length of %s" % v.sort())
        return th.len(v)

    def to_seq(self, v, sort=None):
        if isinstance(v, ListV):
            return self.pack_sort(v, sort)
        return v

    def iteration(self, ex, loc):
        v = ex.val(loc)
        if isinstance(v, ListV):
            return Iteration(lambda: z3.IntVal(len(v.items)), lambda k: v.items[simp(k).as_long()] if z3.is_int_value(simp(k)) else _bad())
        if z3.is_expr(v):
            th = L.seq_theory_for_sort(v.sort())
            if th is not None:
                l2 = ex.deref(loc)
                return Iteration(lambda: th.len(ex.val(l2)), lambda k: l2.ext(("i", k)), lambda: ex.val(l2))
            m = map_theory_for(v.sort())
            if m is not None:
                l2 = ex.deref(loc)
                def elem(k):
                    key = m.keys.at(m.keys_(v), k)
                    if m.v == L.UnitSort:
                        return key
                    return ex.alloc(StructV(CT("std::pair"), {"first": key, "second": RefV(l2.ext(("m", key)))}), "kv")
                return Iteration(lambda: m.size_(v), elem, lambda: v)
        r = self.class_range(ex, loc, v)
        if r is not None: return r
        raise Unsupported("range-for over %r" % (v,))

    def class_range(self, ex, loc, v):
        """a class with begin()/end() members"""
        ct = v.ct if isinstance(v, StructV) else self.ct_of_sort(v.sort()) if z3.is_expr(v) else None
        d = ex.class_decl(ct) if ct is not None else None
        if d is None: return None
        out = []
        for nm in ("begin", "end"):
            c = [c for c in children(d) if c.get("kind") == "CXXMethodDecl" and c.get("name") == nm]
            if len(c) != 1: return None
            out.append(ex.val(ex.call(ex.tu.bodies.get(c[0].get("mangledName"), c[0]), loc, [])))
        a, b = out
        if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.rev or b.rev or not ex.deref(a.loc).same(ex.deref(b.loc)): return None
        l2 = ex.deref(a.loc)
        a0 = simp(a.idx)
        return Iteration(lambda: simp(b.idx - a0), lambda k: l2.ext(("i", simp(a0 + k))), lambda: ex.val(l2))

    def transform(self, ex, n, args):
        a, b = ex.val(ex.eval(args[0])), ex.val(ex.eval(args[1]))
        out = ex.val(ex.eval(args[2])); f = ex.val(ex.eval(args[3]))
        if isinstance(out, Iter) and isinstance(a, Iter): return self.transform_into(ex, n, a, b, out, f)
        if not (isinstance(out, StructV) and out.ct.name == "std::back_insert_iterator"): raise Unsupported("transform into a range")
        if getattr(self, "transform_as_loop", False) and isinstance(a, Iter) and isinstance(b, Iter):
            l, v, th, lo, hi = self.span(ex, a, b)
            dst = out.f["c"].loc
            it = Iteration(lambda: simp(hi - lo), lambda k: l.ext(("i", simp(lo + k))), lambda: ex.val(l))
            def push(k):
                x = ex.val(ex.apply_value(f, [l.ext(("i", simp(lo + k)))]))
                dv = ex.val(dst); dth = L.seq_theory_for_sort(dv.sort())
                ex.write(dst, dth.push(dv, self.pack_sort(x, dth.elem)))
            ex.loop(n, it, None, None, None, action=push)
            return VOID
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            m = ex.val(a.loc); mt = map_theory_for(m.sort())
            if not z3.is_false(simp(b.valid)) or not a.key.eq(mt.keys.at(mt.keys_(m), z3.IntVal(0))): raise Unsupported("transform over a part of a map")
            lo, hi = z3.IntVal(0), mt.size_(m)
            it = self.iteration(ex, a.loc)
            elem = it.elem; at = lambda i: mt.keys.at_(mt.keys_(m), i)
        elif isinstance(a, Iter) and isinstance(b, Iter):
            l, v, th, lo, hi = self.span(ex, a, b)
            elem = lambda i: l.ext(("i", i)); at = lambda i: th.at_(v, i)
        else: raise Unsupported("transform range")
        dst = out.f["c"].loc
        dv = ex.val(dst); dth = L.seq_theory_for_sort(dv.sort())
        src = a.loc
        res = ex.fresh("transformed", dth.sort)
        rng = lambda q: z3.And(lo <= q, q < hi)
        t, facts, touched = self.generic_element(ex, lambda l: ex.val(ex.apply_value(f, [l])), elem, rng)
        t = self.pack_sort(t, dth.elem) if not callable(t) else t
        ex.assume(dth.len_(res) == hi - lo)
        q = z3.Int("tq")
        body = lambda x: z3.substitute(t, (facts.i, x))
        ex.assume(z3.ForAll([q], z3.Implies(rng(q), dth.at_(res, simp(q - lo)) == body(q)), patterns=[dth.at_(res, simp(q - lo)), at(q)]))
        for g in facts: ex.assume(z3.ForAll([q], z3.Implies(rng(q), z3.substitute(g, (facts.i, q))), patterns=[dth.at_(res, simp(q - lo)), at(q)]))
        if touched:
            l0 = ex.deref(src)
            ex.write(l0, self.ex.fresh("after_transform", ex.val(l0).sort()))
            ex.assume(self.seq_len(ex.val(l0)) == th.len(v))
        ex.write(dst, dth.cat(dv, res))
        return VOID

    def for_each(self, ex, n, args):
        """std::for_each: a loop calling the callable on one element after the other"""
        a, b = ex.val(ex.eval(args[0])), ex.val(ex.eval(args[1])); f = ex.val(ex.eval(args[2]))
        l, v, th, lo, hi = self.span(ex, a, b)
        it = Iteration(lambda: simp(hi - lo), lambda k: l.ext(("i", simp(lo + k))), lambda: ex.val(l))
        ex.loop(n, it, None, None, None, action=lambda k: ex.apply_value(f, [l.ext(("i", simp(lo + k)))]))
        return f

    def quantified(self, ex, n, name, args):
        """std::all_of, any_of, none_of with a callable free of side effects"""
        a, b = ex.val(ex.eval(args[0])), ex.val(ex.eval(args[1])); f = ex.val(ex.eval(args[2]))
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            m = ex.val(a.loc); mt = map_theory_for(m.sort())
            if not z3.is_false(simp(b.valid)) or not a.key.eq(mt.keys.at(mt.keys_(m), z3.IntVal(0))): raise Unsupported("algorithm over a part of a map")
            lo, hi = z3.IntVal(0), mt.size_(m)
            elem = self.iteration(ex, a.loc).elem; at = lambda i: mt.keys.at_(mt.keys_(m), i)
        else:
            l, v, th, lo, hi = self.span(ex, a, b)
            elem = lambda i: l.ext(("i", i)); at = lambda i: th.at_(v, i)
        rng = lambda q: z3.And(lo <= q, q < hi)
        t, facts, touched = self.generic_element(ex, lambda x: ex.as_bool(ex.val(ex.apply_value(f, [x]))), elem, rng)
        if touched: raise Unsupported("callable with side effects in an algorithm")
        q = z3.Int("qnq"); w = ex.fresh("witness", Int); r = ex.fresh("quantified", Bool)
        body = lambda x: z3.substitute(t, (facts.i, x)) if name != "any_of" else z3.Not(z3.substitute(t, (facts.i, x)))
        if name == "none_of": body = lambda x: z3.Not(z3.substitute(t, (facts.i, x)))
        every = z3.ForAll([q], z3.Implies(rng(q), body(q)), patterns=[at(q)])
        for g in facts: ex.assume(z3.ForAll([q], z3.Implies(rng(q), z3.substitute(g, (facts.i, q))), patterns=[at(q)]))
        for g in facts: ex.assume(z3.Implies(rng(w), z3.substitute(g, (facts.i, w))))
        for x in L.mention(at(w)): ex.assume(x)
        ex.assume(z3.Implies(r, every)); ex.assume(z3.Implies(z3.Not(r), z3.And(rng(w), z3.Not(body(w)))))
        return r if name != "any_of" else simp(z3.Not(r))

    def transform_into(self, ex, n, a, b, out, f):
        """std::transform over a range that is there already: a loop writing one element after the other"""
        l, v, th, lo, hi = self.span(ex, a, b)
        if out.rev: raise Unsupported("transform into a reversed range")
        it = Iteration(lambda: simp(hi - lo), lambda k: l.ext(("i", simp(lo + k))), lambda: ex.val(l))
        def action(k):
            x = ex.val(ex.apply_value(f, [l.ext(("i", simp(lo + k)))]))
            ex.write(self.iter_loc(ex, Iter(out.loc, simp(out.idx + k))), x)
        ex.loop(n, it, None, None, None, action=action)
        return Iter(out.loc, simp(out.idx + (hi - lo)))

    def generic_element(self, ex, run, elem, rng):
        """run a callable on an arbitrary element: (value, facts, whether it changed its own element).
        Constants introduced on the way become functions of the position, so the facts can be generalised."""
        i = ex.fresh("ti", Int)
        mark = dict(ex.nfresh)
        x = ex.val(elem(i))
        l = ex.alloc(x, "elem")
        before = dict(ex.store)
        pc, pcset, nd, nk = ex.pc, ex.pcset, len(ex.decisions), ex.nkey
        ex.pc, ex.pcset = list(pc) + [rng(i)], set(pcset)
        k = len(ex.pc)
        wl, ex.generic = getattr(ex, "generic", 0), getattr(ex, "generic", 0) + 1
        try:
            r = run(l)
        except CppThrow:
            raise Unsupported("callable that throws in an algorithm")
        finally:
            new = ex.pc[k:]
            ex.pc, ex.pcset = pc, pcset
            ex.generic = wl
        for root, v0 in before.items():
            if root != l.root and ex.store.get(root) is not v0: raise Unsupported("callable with side effects in an algorithm")
        touched = ex.store[l.root] is not x
        r = self.pack_any(r)
        sub, seen = [], set()
        for e in [r] + new:
            for c in consts_of(e):
                nm = c.decl().name()
                if nm in seen or c.eq(i): continue
                seen.add(nm)
                if "!" in nm:
                    b, n = nm.rsplit("!", 1)
                    if n.isdigit() and int(n) >= mark.get(b, 0): sub.append((c, z3.Function("sk_" + nm, Int, c.sort())(i)))
        class F(list): pass
        facts = F(z3.substitute(g, *sub) if sub else g for g in new)
        facts.i = i
        return (z3.substitute(r, *sub) if sub else r), facts, touched

    def pack_any(self, v):
        if z3.is_expr(v): return v
        if isinstance(v, StructV): return self.pack(v, v.ct)
        raise Unsupported("value of %r in an algorithm" % (v,))

    fold_writes = False       # a value just stored is read back as it is, and stored over

    def map_get(self, v, key):
        m = map_theory_for(v.sort())
        if self.fold_writes and z3.is_app(v) and v.decl().eq(m.set_) and v.arg(1).eq(key): return v.arg(2)
        return m.get_(v, key)

    def map_set(self, v, key, x):
        m = map_theory_for(v.sort())
        x = self.pack_sort(x, m.v)
        if self.fold_writes:
            x = z3.simplify(x)
            while z3.is_app(v) and v.decl().eq(m.set_) and v.arg(1).eq(key): v = v.arg(0)
        return m.set_(v, key, x)

    def tuple_fields(self, v, n):
        if isinstance(v, StructV):
            return list(v.f)[:n]
        fs = L.rec_fields(v.sort())
        if fs: return fs[:n]
        raise Unsupported("structured binding of %r" % (v,))

    # ------------------------------------------------------------ default values / construction
    def default_of(self, ct, uninit, field=None):
        ct = ct.bare()
        if ct.ptr: return Ptr(None) if not uninit else Ptr(None)
        n = ct.name
        if n in STRT: return Str.empty
        if n in SEQT: return L.seq_of(self.sort_of(ct.args[0])).empty
        if n == "std::array": return ListV([self.default_of(ct.args[0], uninit) for _ in range(int(ct.args[1].name.rstrip("uUlL")))])
        if n == "std::optional" or n in PTRT:
            try:
                return L.opt_none(self.sort_of(ct))
            except Unsupported:
                return Ptr(None)
        if n in self.MAPT or n in self.SETT: return map_theory_for(self.sort_of(ct)).empty
        if n == "std::function": return Ptr(None)
        if n in ("std::pair", "std::tuple"):
            names = ["first", "second"] if n == "std::pair" else ["e%d" % i for i in range(len(ct.args))]
            return StructV(ct, {f: self.default_of(a, uninit) for f, a in zip(names, ct.args)})
        if n == "std::variant":
            return self.variant_mk(ct, 0, self.default_of(ct.args[0], uninit))
        if n == "bool": return z3.BoolVal(False) if not uninit else self.ex.fresh("uninit", Bool)
        if n in INTS: return self.int_const(ct, 0) if not uninit else self.ex.fresh("uninit", self.sort_of(ct))
        if n in self.opaque:
            if n in self.ctor_models and not uninit:
                r = self.ctor_models[n](self.ex, ct, None, [])
                if r is not None: return r
            return self.ex.fresh("dflt_" + L.sort_name(n)[-10:], self.opaque[n])
        if n in ("double", "float"): return self.float_const("0") if not uninit else self.ex.fresh("uninit", Dbl)
        fs = self.ex.fields_of(ct)
        if fs is not None:
            s = StructV(ct, {})
            for f in fs:
                ft = parse(qt(f))
                if ft.ref:
                    s.f[f["name"]] = None
                else:
                    ini = [c for c in children(f) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))] if not uninit else []
                    s.f[f["name"]] = self.ex.init_value(ini[0], ft) if ini else self.default_of(ft, uninit)
            return s
        ds = self.ex.tu.records.get(n)
        if ds and ds[0]["kind"] == "EnumDecl": return z3.IntVal(0) if not uninit else self.ex.fresh("uninit", Int)
        if uninit:
            return None
        raise Unsupported("default value of %r" % ct)

    def variant_mk(self, ct, i, v):
        s = self.sort_of(ct)
        return L.var_mk(s, i, self.pack_sort(v, s.accessor(i, 0).range()))

    def enum_const(self, ct, rd):
        d = self.ex.tu.by_id.get(rd["id"])
        p = self.ex.tu.parent.get(rd["id"])
        if p is None or p.get("kind") != "EnumDecl":
            raise Unsupported("enum constant " + str(rd.get("name")))
        v = -1
        for c in children(p):
            if c.get("kind") != "EnumConstantDecl": continue
            ini = [x for x in children(c) if x.get("kind")]
            if ini:
                v = _const_int(ini[0])
            else:
                v += 1
            if c["id"] == rd["id"]: return z3.IntVal(v)
        raise Unsupported("enum constant")

    def from_init_list(self, v, t):
        items = v.items
        if t is None: raise Unsupported("init list")
        t = t.bare()
        if t.name in SEQT or t.name == "std::array":
            if t.name == "std::array":
                return ListV([self.ex.val(x) for x in items])
            th = L.seq_of(self.sort_of(t.args[0]))
            r = th.empty
            for x in items:
                r = th.push(r, self.pack_sort(self.ex.val(x), th.elem))
            return r
        if t.name == "std::initializer_list" :
            return ListV([self.ex.val(x) for x in items])
        if t.name in ("std::pair",):
            return StructV(t, {"first": self.ex.val(items[0]), "second": self.ex.val(items[1])})
        if len(items) == 1 and (t.name in INTS or t.name == "bool" or t.name in STRT):
            return self.ex.val(items[0])
        raise Unsupported("init list for %r" % t)

    def init_list_expr(self, ex, t, n, items):
        if t.name == "std::array":
            # std::array brace elision or C array
            if len(items) == 1 and items[0].get("kind") == "InitListExpr":
                return ex.eval(items[0])
            vals = []
            for c in items:
                v = ex.eval(c)
                vals.append(ex.val(v))
            nn = int(t.args[1].name.rstrip("uUlL"))
            fl = n.get("array_filler")
            while len(vals) < nn: vals.append(self.default_of(t.args[0], False))
            return ListV(vals)
        if t.name in ("std::pair",):
            return None
        return None

    # ------------------------------------------------------------ constructors of model types
    def construct(self, ex, ct, node, args):
        n = ct.name
        if n in self.ctor_models:
            r = self.ctor_models[n](ex, ct, node, args)
            if r is not None: return r
        if n == "std::reference_wrapper":
            return ex.val(ex.eval(args[0]))
        if n in self.opaque and len(args) == 1 and parse(qt(args[0])).bare() == ct:
            src = ex.eval(args[0])
            v = ex.val(src)
            if "&&" in node.get("ctorType", {}).get("qualType", "") and isinstance(src, Loc):
                ex.move_from(src)
            return v
        cm = node.get("ctorType", {}).get("qualType", "") if node else ""
        if n in STRT: return self.c_string(ex, ct, node, args, cm)
        if n in SEQT or n == "std::array": return self.c_seq(ex, ct, node, args, cm)
        if n == "std::optional" or n in PTRT: return self.c_opt(ex, ct, node, args, cm)
        if n in ("std::pair", "std::tuple"): return self.c_pair(ex, ct, node, args, cm)
        if n == "std::variant": return self.c_variant(ex, ct, node, args, cm)
        if n == "std::function":
            if not args: return Ptr(None)
            return ex.val(ex.eval(args[0]))
        if n in self.MAPT or n in self.SETT: return self.c_map(ex, ct, node, args, cm)
        if n in EXC_BASES or n == "std::exception":
            a = [ex.val(ex.eval(x)) for x in args if x.get("kind") != "CXXDefaultArgExpr"]
            if a and isinstance(a[0], ExcV): return a[0]
            return ExcV(ct, None, a[0] if a else None)
        if n == "__gnu_cxx::__normal_iterator" or "iterator" in n:
            v = ex.eval(args[0])
            return ex.val(v)
        if n in ("std::basic_ostringstream", "std::basic_stringstream", "std::ostringstream"):
            return Str.empty
        if n.startswith(("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::mutex")):
            return Ptr(None)
        if n.startswith("(lambda"):
            return ex.val(ex.eval(args[0]))
        if n in ("std::less", "std::greater", "std::less_equal", "std::equal_to", "std::hash"):
            return StructV(ct, {})
        if n in ("std::allocator", "std::char_traits", "std::nullopt_t", "std::in_place_t", "std::piecewise_construct_t", "std::monostate"):
            return L.unit if n == "std::monostate" else StructV(ct, {})
        return None

    def construct_base(self, this, ct, e):
        return None

    def _one(self, ex, args, cm):
        src = ex.eval(args[0])
        v = ex.val(src)
        return src, v

    def _live(self, args):
        return [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]

    def c_string(self, ex, ct, node, args, cm):
        args = self._live(args)
        if not args: return Str.empty
        vs = [ex.eval(a) for a in args]
        v = ex.val(vs[0])
        if len(args) == 1 or (len(args) == 2 and "allocator" in qt(args[1])):
            if isinstance(v, ListV):
                return self.pack_sort(v, Str.sort)
            if z3.is_expr(v) and v.sort() == Str.sort:
                if "&&" in cm and isinstance(vs[0], Loc): ex.move_from(vs[0])
                return v
        if len(args) == 2:
            w = ex.val(vs[1])
            if z3.is_expr(v) and v.sort() == Str.sort and z3.is_bv(w): w = int_of_bv(w)
            if z3.is_expr(v) and v.sort() == Str.sort and v.decl().name() == cstr.name() and z3.is_int(w):
                return ptr_text(v, w)
            if z3.is_expr(v) and z3.is_bv(v) is False and v.sort() == Str.sort and z3.is_int(w):
                # (pointer, length)
                self.range_check(ex, w, Str.len(v), node, "string length argument")
                return self.norm_slice(Str, v, z3.IntVal(0), w)
            if isinstance(v, Ptr) and v.loc is not None and z3.is_int(w):
                base = Loc(v.loc.root, v.loc.path[:-1]); i = v.loc.path[-1][1]
                s = ex.val(base)
                self.range_check(ex, simp(i + w), self.seq_len(s), node, "string length argument")
                return self.norm_slice(Str, s, i, simp(i + w))
            if isinstance(v, (Iter, Ptr)) and isinstance(w, (Iter, Ptr)):
                return self.range_value(ex, v, w)
            if z3.is_int(v) and z3.is_bv(w):
                return Str.repl_(v, w)
        raise Unsupported("string constructor " + cm)

    def range_check(self, ex, hi, ln, node, what):
        f = z3.And(hi >= 0, hi <= ln)
        ex.check("%s: %s within bounds" % (ex.contract.name, what), f, ex.line(node) if node else "")
        ex.assume(f)

    def norm_slice(self, th, s, i, j):
        i = simp(i); j = simp(j)
        if s.decl().name() == th.slice_.name():
            a, b = s.arg(1), s.arg(2)
            return th.slice(s.arg(0), simp(a + i), simp(a + j))
        if z3.is_int_value(i) and i.as_long() == 0 and simp(j == th.len(s)).eq(z3.BoolVal(True)):
            return s
        if s.decl().name() in L.STRLITS and z3.is_int_value(i) and z3.is_int_value(j):
            return strlit(L.STRLITS[s.decl().name()][i.as_long():j.as_long()])
        return th.slice(s, i, j)

    def range_value(self, ex, a, b, sort=None):
        """sequence between two iterators/pointers of the same container"""
        def parts(x):
            if isinstance(x, Iter): return x.loc, (x.idx)
            return Loc(x.loc.root, x.loc.path[:-1]), x.loc.path[-1][1]
        la, i = parts(a); lb, j = parts(b)
        if not ex.deref(la).same(ex.deref(lb)): raise Unsupported("range over two containers")
        v = ex.val(la)
        if isinstance(v, ListV):
            i, j = simp(i), simp(j)
            return ListV(v.items[i.as_long():j.as_long()])
        th = L.seq_theory_for_sort(v.sort())
        if th is None: raise Unsupported("range over %s" % v.sort())
        if getattr(a, "rev", False):
            raise Unsupported("reverse range")
        ex.check("%s: iterator range is valid" % ex.contract.name, z3.And(0 <= i, i <= j, j <= th.len(v)))
        ex.assume(z3.And(0 <= i, i <= j, j <= th.len(v)))
        return self.norm_slice(th, v, i, j)

    def c_seq(self, ex, ct, node, args, cm):
        args = self._live(args)
        if not args: return self.default_of(ct, False)
        th = L.seq_of(self.sort_of(ct.args[0]))
        vs = [ex.eval(a) for a in args]
        v = ex.val(vs[0])
        if len(args) == 1:
            if isinstance(v, ListV): return self.pack_sort(v, th.sort)
            if isinstance(v, InitList): return self.from_init_list(v, ct)
            if z3.is_expr(v) and v.sort() == th.sort:
                if "&&" in cm and isinstance(vs[0], Loc): ex.move_from(vs[0])
                return v
            if z3.is_expr(v) and z3.is_int(v):
                if z3.is_int_value(simp(v)) and simp(v).as_long() == 0: return th.empty
                d = self.pack(self.default_of(ct.args[0], False), ct.args[0])
                return th.repl_(v, d)
        if len(args) == 2:
            w = ex.val(vs[1])
            if isinstance(v, (Iter, Ptr)) and isinstance(w, (Iter, Ptr)):
                return self.pack_sort(self.range_value(ex, v, w), th.sort)
            if z3.is_expr(v) and z3.is_int(v): return th.repl_(v, self.pack_sort(w, th.elem))
        raise Unsupported("sequence constructor " + cm)

    def null_of(self, s): return L.opt_none(s)

    def c_opt(self, ex, ct, node, args, cm):
        args = self._live(args)
        if not args: return self.default_of(ct, False)
        src = ex.eval(args[0])
        v = ex.val(src)
        at = parse(qt(args[0])).bare()
        if at.name in ("std::nullopt_t", "std::nullptr_t") or (isinstance(v, Ptr) and v.loc is None):
            return self.default_of(ct, False)
        if at.name == ct.name or (at.name in PTRT and ct.name in PTRT) :
            if "&&" in cm and isinstance(src, Loc):
                if ct.name in PTRT and z3.is_expr(v):
                    ex.write(ex.deref(src), self.null_of(v.sort()))
                elif ct.name in PTRT:
                    ex.write(ex.deref(src), Ptr(None))
                else:
                    ex.move_from(src)
            if at == ct: return v
            if z3.is_expr(v) and v.sort() == self.sort_of(ct): return v
            raise Unsupported("optional conversion %r -> %r" % (at, ct))
        if ct.name == "std::optional":
            if at.name == "std::in_place_t":
                raise Unsupported("in_place")
            # converting constructor
            x = v
            if "&&" in cm and isinstance(src, Loc): 
                ex.move_from(src)
            s = self.sort_of(ct)
            return L.opt_some(s, self.pack_sort(self.convert(ex, x, at, ct.args[0]), s.accessor(1, 0).range()))
        raise Unsupported("smart pointer constructor " + cm)

    def convert(self, ex, v, src, dst):
        return v

    def c_pair(self, ex, ct, node, args, cm):
        args = self._live(args)
        names = ["first", "second"] if ct.name == "std::pair" else ["e%d" % i for i in range(len(ct.args))]
        if not args: return self.default_of(ct, False)
        vs = [ex.eval(a) for a in args]
        if len(args) == 1 and len(names) != 1:
            v = ex.val(vs[0])
            if "&&" in cm and isinstance(vs[0], Loc): ex.move_from(vs[0])
            return v
        if len(vs) == len(names):
            out = {}
            ats = [parse(qt(a)).bare() for a in args]
            for f, t, x, a, an in zip(names, ct.args, vs, ats, args):
                if t.ref:
                    out[f] = RefV(ex.loc(x)); continue
                v = ex.val(x)
                if isinstance(v, InitList): v = self.from_init_list(v, t)
                out[f] = self.convert(ex, v, a, t)
                if isinstance(x, Loc) and an.get("valueCategory") == "xvalue": ex.move_from(x)
            return StructV(ct, out)
        raise Unsupported("pair constructor " + cm)

    def variant_index(self, ct, at):
        for i, a in enumerate(ct.args):
            if a.bare() == at.bare(): return i
        # converting: string-ish
        for i, a in enumerate(ct.args):
            if a.name in STRT and at.name in STRT + ("std::array",): return i
        return None

    def c_variant(self, ex, ct, node, args, cm):
        args = self._live(args)
        if not args: return self.default_of(ct, False)
        src = ex.eval(args[0]); v = ex.val(src)
        at = parse(qt(args[0])).bare()
        if at == ct:
            if "&&" in cm and isinstance(src, Loc): ex.move_from(src)
            return v
        if at.name == "std::in_place_type_t":
            i = [k for k, a in enumerate(ct.args) if a.bare() == at.args[0].bare()][0]
            return self.variant_mk(ct, i, self.default_of(ct.args[i], False) if len(args) == 1 else ex.val(ex.eval(args[1])))
        i = self.variant_index(ct, at)
        if i is None: raise Unsupported("variant from %r" % at)
        if args[0].get("valueCategory") == "xvalue" and isinstance(src, Loc): ex.move_from(src)
        return self.variant_mk(ct, i, self.convert(ex, v, at, ct.args[i]))

    def c_map(self, ex, ct, node, args, cm):
        args = self._live(args)
        if not args: return self.default_of(ct, False)
        src = ex.eval(args[0]); v = ex.val(src)
        th = map_theory_for(self.sort_of(ct))
        if z3.is_expr(v) and v.sort() == th.sort:
            if "&&" in cm and isinstance(src, Loc): ex.move_from(src)
            return v
        if isinstance(v, ListV):
            m = th.empty
            for x in v.items:
                x = ex.val(x)
                if th.v == L.UnitSort: m = th.set_(m, x, L.unit)
                else: m = th.set_(m, self.ex.val(ex.field(x, "first")), self.pack_sort(ex.val(ex.field(x, "second")), th.v))
            return m
        raise Unsupported("map constructor " + cm)

    # ------------------------------------------------------------ member calls on model types
    def call_member(self, ex, obj, bt, name, n, args, decl):
        mm = self.member_models.get((bt.name, name))
        if mm is not None:
            return mm(ex, obj, args, n)
        v = ex.val(obj)
        if bt.name == "element_type" and z3.is_expr(v):        # what a smart pointer points to
            for t, so in self.opaque.items():
                if so.eq(v.sort()) and (t, name) in self.member_models: return self.member_models[(t, name)](ex, obj, args, n)
        if bt.name == "std::reference_wrapper" and (name == "get" or name.startswith("operator ")): return ex.deref(obj)
        if name.startswith("operator ") :
            # conversion operators of std types
            if z3.is_expr(v) and v.sort() == Str.sort: return v
            if name == "operator bool": return ex.as_bool(v)
        if bt.name in SEQT or bt.name == "std::array": return self.m_seq(ex, obj, v, bt, name, n, args)
        if bt.name in STRT or (z3.is_expr(v) and v.sort() == Str.sort): return self.m_string(ex, obj, v, name, n, args)
        if bt.name == "std::optional" or bt.name in PTRT: return self.m_opt(ex, obj, v, bt, name, n, args)
        if bt.name in self.MAPT or bt.name in self.SETT: return self.m_map(ex, obj, v, bt, name, n, args)
        if bt.name == "std::variant":
            if name == "index": return self.var_index(v)
        if isinstance(v, ExcV) and name == "what":
            return v.msg if v.msg is not None else ex.fresh("what", Str.sort)
        if isinstance(v, Iter):
            if name == "base": return v
        raise Unsupported("member call %r::%s" % (bt, name))

    def var_index(self, v):
        r = z3.IntVal(v.sort().num_constructors() - 1)
        for i in reversed(range(v.sort().num_constructors() - 1)):
            r = z3.If(L.var_is(v, i), z3.IntVal(i), r)
        return simp(r)

    def _args(self, ex, args):
        return [ex.val(ex.eval(a)) for a in self._live(args)]

    def m_string(self, ex, obj, v, name, n, args):
        th = Str
        if name in ("size", "length"): return th.len(v)
        if name == "empty": return simp(th.len(v) == 0) if z3.is_int_value(th.len(v)) else v == th.empty
        if name in ("reserve", "shrink_to_fit"):
            self._args(ex, args); return VOID
        if name == "data": return Ptr(ex.deref(obj).ext(("i", z3.IntVal(0))))
        if name == "c_str": return cstr(v)
        if name == "str" and not self._live(args): return v           # std::ostringstream: the text written so far
        if name == "clear":
            ex.write(obj, th.empty); return VOID
        if name in ("begin", "cbegin"): return Iter(obj, z3.IntVal(0))
        if name in ("end", "cend"): return Iter(obj, th.len(v))
        if name in ("front", "back"):
            i = z3.IntVal(0) if name == "front" else simp(th.len(v) - 1)
            ex.bounds(obj, i, n)
            return ex.deref(obj).ext(("i", i))
        if name == "at":
            i = self._args(ex, args)[0]
            if not ex.choose(z3.And(i >= 0, i < th.len(v))): raise CppThrow(ExcV(CT("std::out_of_range")))
            return ex.deref(obj).ext(("i", i))
        a = self._args(ex, args)
        if name == "push_back":
            ex.write(obj, th.push(v, a[0])); return VOID
        if name == "pop_back":
            ex.bounds(obj, simp(th.len(v) - 1), n)
            ex.write(obj, self.norm_slice(th, v, z3.IntVal(0), simp(th.len(v) - 1))); return VOID
        if name in ("append", "assign"):
            base = v if name == "append" else th.empty
            if len(a) == 1:
                x = a[0]
                if isinstance(x, ListV): x = self.pack_sort(x, th.sort)
                if isinstance(x, InitList): x = self.pack_sort(ListV(x.items), th.sort)
                ex.write(obj, th.cat(base, x)); return obj
            if isinstance(a[0], (Iter, Ptr)) and isinstance(a[1], (Iter, Ptr)):
                ex.write(obj, th.cat(base, self.pack_sort(self.range_value(ex, a[0], a[1]), th.sort))); return obj
            if z3.is_expr(a[0]) and z3.is_int(a[0]) and z3.is_bv(a[1]):
                ex.check("%s: append count is not negative" % ex.contract.name, a[0] >= 0)
                c = simp(a[0])
                if z3.is_int_value(c) and c.as_long() <= 8:
                    r = base
                    for _ in range(c.as_long()): r = th.push(r, a[1])
                    ex.write(obj, r)
                else:
                    ex.write(obj, th.cat(base, th.repl_(a[0], a[1])))
                return obj
            if z3.is_expr(a[0]) and a[0].sort() == th.sort and len(a) == 2 and z3.is_int(a[1]):
                self.range_check(ex, a[1], th.len(a[0]), n, "append length")
                ex.write(obj, th.cat(base, self.norm_slice(th, a[0], z3.IntVal(0), a[1]))); return obj
            if isinstance(a[0], Ptr) and len(a) == 2 and z3.is_int(a[1]):
                i = a[0].loc.path[-1][1]
                s = ex.val(Loc(a[0].loc.root, a[0].loc.path[:-1]))
                if isinstance(s, ListV): s = self.pack_sort(s, th.sort)
                self.range_check(ex, simp(i + a[1]), th.len(s), n, "append length")
                ex.write(obj, th.cat(base, self.norm_slice(th, s, i, simp(i + a[1])))); return obj
            if len(a) == 3 and z3.is_expr(a[0]):
                pos, cnt = a[1], a[2]
                ln = th.len(a[0])
                ex.write(obj, th.cat(base, self.norm_slice(th, a[0], pos, simp(z3.If(pos + cnt < ln, pos + cnt, ln))))); return obj
        if name == "substr":
            pos = a[0] if a else z3.IntVal(0)
            ln = th.len(v)
            if not ex.choose(pos <= ln): raise CppThrow(ExcV(CT("std::out_of_range")))
            if len(a) > 1:
                c = a[1]
                e = simp(pos + c)
                if ex.entails(e <= ln): pass
                elif ex.entails(e >= ln): e = ln
                else: e = z3.If(e < ln, e, ln)
            else:
                e = ln
            return self.norm_slice(th, v, pos, e)
        if name in ("remove_prefix", "remove_suffix"):
            ln = th.len(v)
            self.range_check(ex, a[0], ln, n, name)
            ex.write(obj, self.norm_slice(th, v, a[0], ln) if name == "remove_prefix" else self.norm_slice(th, v, z3.IntVal(0), simp(ln - a[0])))
            return VOID
        if name == "compare" and len(a) == 1:
            r = str_cmp(v, a[0])
            return r
        if name == "compare" and len(a) == 3 and z3.is_int(a[0]) and z3.is_int(a[1]):
            ln = th.len(v)
            if not ex.choose(a[0] <= ln): raise CppThrow(ExcV(CT("std::out_of_range")))
            e = simp(a[0] + a[1])
            return str_cmp(self.norm_slice(th, v, a[0], simp(z3.If(e < ln, e, ln))), a[2])
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of"):
            f = z3.Function("str_" + name, Str.sort, *( [x.sort() for x in a] + [Int]))
            return f(v, *a)
        if name == "swap":
            o = ex.loc(ex.eval(self._live(args)[0]))
            ov = ex.val(o)
            ex.write(obj, ov); ex.write(o, v); return VOID
        raise Unsupported("string::" + name)

    def m_seq(self, ex, obj, v, bt, name, n, args):
        if isinstance(v, ListV):
            if name == "size": return z3.IntVal(len(v.items))
            if name in ("begin", "cbegin"): return Ptr(ex.deref(obj).ext(("i", z3.IntVal(0)))) 
            if name in ("end", "cend"): return Ptr(ex.deref(obj).ext(("i", z3.IntVal(len(v.items)))))
            if name == "data": return Ptr(ex.deref(obj).ext(("i", z3.IntVal(0))))
            if name == "empty": return z3.BoolVal(not v.items)
            if name in ("front",): return ex.deref(obj).ext(("i", z3.IntVal(0)))
            if name == "back": return ex.deref(obj).ext(("i", z3.IntVal(len(v.items) - 1)))
            raise Unsupported("array::" + name)
        th = L.seq_theory_for_sort(v.sort())
        o = ex.deref(obj)
        if name == "size": return th.len(v)
        if name == "empty":
            l = th.len(v)
            return z3.BoolVal(l.as_long() == 0) if z3.is_int_value(l) else l == 0
        if name in ("reserve", "shrink_to_fit"):
            self._args(ex, args); return VOID
        if name == "capacity": return ex.fresh("capacity", Int)
        if name == "data": return Ptr(o.ext(("i", z3.IntVal(0))))
        if name == "clear":
            ex.write(o, th.empty); return VOID
        if name in ("begin", "cbegin"): return Iter(o, z3.IntVal(0))
        if name in ("end", "cend"): return Iter(o, th.len(v))
        if name in ("rbegin", "crbegin"): return Iter(o, th.len(v), True)
        if name in ("rend", "crend"): return Iter(o, z3.IntVal(0), True)
        if name in ("front", "back", "top"):
            i = z3.IntVal(0) if name == "front" else simp(th.len(v) - 1)
            ex.bounds(o, i, n)
            return o.ext(("i", i))
        if name == "at":
            i = self._args(ex, args)[0]
            if not ex.choose(z3.And(i >= 0, i < th.len(v))): raise CppThrow(ExcV(CT("std::out_of_range")))
            return o.ext(("i", i))
        if name in ("push_back", "emplace_back", "push"):
            et = bt.args[0] if bt.args else None
            x = self.emplace_value(ex, et, args, th.elem)
            v2 = ex.val(o)
            ex.write(o, th.push(v2, x))
            return o.ext(("i", th.len(v2)))
        if name in ("push_front", "emplace_front"):
            x = self.emplace_value(ex, bt.args[0], args, th.elem)
            v2 = ex.val(o)
            ex.write(o, th.cat(th.single(x), v2))
            return o.ext(("i", z3.IntVal(0)))
        if name == "pop_back" or (name == "pop" and bt.name == "std::stack"):
            ex.bounds(o, simp(th.len(v) - 1), n)
            if v.decl().name() == th.push_.name():
                ex.write(o, v.arg(0))
            else:
                ex.write(o, self.norm_slice(th, v, z3.IntVal(0), simp(th.len(v) - 1)))
            return VOID
        if name in ("pop_front", "pop"):
            ex.bounds(o, z3.IntVal(0), n)
            ex.write(o, self.norm_slice(th, v, z3.IntVal(1), th.len(v))); return VOID
        if name == "resize":
            a = self._args(ex, args)
            raise Unsupported("resize")
        if name == "erase":
            a = self._args(ex, args)
            i = a[0].idx
            j = a[1].idx if len(a) > 1 else simp(i + 1)
            ex.check("%s: erased position is valid" % ex.contract.name, z3.And(0 <= i, i <= j, j <= th.len(v)), ex.line(n))
            ex.assume(z3.And(0 <= i, i <= j, j <= th.len(v)))
            ex.write(o, th.cat(self.norm_slice(th, v, z3.IntVal(0), i), self.norm_slice(th, v, j, th.len(v))))
            return Iter(o, i)
        if name in ("insert", "emplace"):
            live = self._live(args)
            it = ex.val(ex.eval(live[0]))
            if name == "insert" and len(live) == 3:
                a = [ex.val(ex.eval(x)) for x in live[1:]]
                add = self.pack_sort(self.range_value(ex, a[0], a[1]), th.sort)
            else:
                add = th.single(self.emplace_value(ex, bt.args[0], live[1:], th.elem))
            v = ex.val(o)
            i = it.idx
            ex.check("%s: insert position is valid" % ex.contract.name, z3.And(0 <= i, i <= th.len(v)), ex.line(n))
            ex.assume(z3.And(0 <= i, i <= th.len(v)))
            if simp(i == th.len(v)).eq(z3.BoolVal(True)):
                ex.write(o, th.cat(v, add))
            else:
                ex.write(o, th.cat(th.cat(self.norm_slice(th, v, z3.IntVal(0), i), add), self.norm_slice(th, v, i, th.len(v))))
            return Iter(o, i)
        if name == "splice" and len(self._live(args)) == 2:
            it = ex.val(ex.eval(args[0]))
            src = ex.deref(ex.loc(ex.eval(args[1])))
            add = ex.val(src); v = ex.val(o); i = it.idx
            ex.check("%s: splice position is valid" % ex.contract.name, z3.And(0 <= i, i <= th.len(v)), ex.line(n))
            ex.assume(z3.And(0 <= i, i <= th.len(v)))
            at = lambda j: simp(i == j).eq(z3.BoolVal(True))
            if at(th.len(v)): ex.write(o, th.cat(v, add))
            elif at(z3.IntVal(0)): ex.write(o, th.cat(add, v))
            else: ex.write(o, th.cat(th.cat(self.norm_slice(th, v, z3.IntVal(0), i), add), self.norm_slice(th, v, i, th.len(v))))
            ex.write(src, th.empty)
            return VOID
        if name == "swap":
            p = ex.loc(ex.eval(self._live(args)[0]))
            pv = ex.val(p)
            ex.write(o, pv); ex.write(p, v); return VOID
        if name == "assign":
            a = self._args(ex, args)
            if len(a) == 2 and isinstance(a[0], (Iter, Ptr)):
                ex.write(o, self.range_value(ex, a[0], a[1])); return VOID
        raise Unsupported("sequence::" + name)

    def emplace_value(self, ex, et, args, sort):
        args = self._live(args)
        if et is not None and et.name in self.ctor_models or (et is not None and et.name in self.opaque):
            r = self.ctor_models[et.name](ex, et, None, args) if et.name in self.ctor_models else None
            if r is not None: return self.pack_sort(r, sort)
        if len(args) == 1:
            src = ex.eval(args[0])
            v = ex.val(src)
            if isinstance(v, InitList): v = self.from_init_list(v, et)
            if isinstance(src, Loc) and args[0].get("valueCategory") == "xvalue" and args[0].get("kind") != "MaterializeTemporaryExpr":
                ex.move_from(src)
            if isinstance(v, ExcV): raise Unsupported("exception in container")
            at = parse(qt(args[0])).bare()
            if et is not None and at != et.bare():
                v = self.emplace_convert(ex, v, at, et)
            elif isinstance(src, Loc) and args[0].get("valueCategory") == "lvalue":
                cc = self.copy_ctor(ex, et)
                if cc is not None:
                    this = ex.alloc(ex.new_struct(et.bare()), "obj")
                    ex.call(cc, this, [src])
                    v = ex.read(this)
            return self.pack_sort(v, sort)
        if not args:
            return self.pack_sort(self.default_of(et, False), sort)
        if et.name in STRT:
            return self.pack_sort(self.c_string(ex, et, None, args, "emplace"), sort)
        if et.name in ("std::pair", "std::tuple"):
            return self.pack_sort(self.c_pair(ex, et, None, args, "emplace"), sort)
        fs = ex.fields_of(et)
        if fs is not None:
            d = ex.class_decl(et)
            vals = [ex.eval(a) for a in args]
            ctor = self.pick_ctor(ex, d, et, args)
            if ctor is not None:
                this = ex.alloc(ex.new_struct(et), "obj")
                ex.call(ctor, this, vals)
                return self.pack_sort(ex.read(this), sort)
        raise Unsupported("emplace of %r with %d arguments" % (et, len(args)))

    def emplace_convert(self, ex, v, at, et):
        if et.name == "std::optional":
            s = self.sort_of(et)
            if z3.is_expr(v) and v.sort() == s: return v
            return L.opt_some(s, self.pack_sort(v, s.accessor(1, 0).range()))
        if et.name in INTS and at.name in INTS:
            return self.int_cast(v, at, et)
        return v

    def copy_ctor(self, ex, et):
        """user-provided copy constructor of a class, if it has one"""
        d = ex.class_decl(et) if et is not None else None
        if d is None: return None
        for c in children(d):
            if c.get("kind") != "CXXConstructorDecl": continue
            ps = [p for p in children(c) if p["kind"] == "ParmVarDecl"]
            if len(ps) == 1 and qt(ps[0]).rstrip().endswith("&") and not qt(ps[0]).rstrip().endswith("&&") and parse(qt(ps[0])).bare() == et.bare():
                b = ex.tu.bodies.get(c.get("mangledName"), c)
                return b if _has_body(ex.tu, b) else None
        return None

    def pick_ctor(self, ex, d, et, args):
        cands = [c for c in children(d) if c.get("kind") == "CXXConstructorDecl"]
        out = []
        for c in cands:
            ps = [p for p in children(c) if p["kind"] == "ParmVarDecl"]
            if len(ps) == len(args):
                out.append(ex.tu.bodies.get(c.get("mangledName"), c))
        if len(out) == 1 and _has_body(ex.tu, out[0]): return out[0]
        return None

    def m_opt(self, ex, obj, v, bt, name, n, args):
        o = ex.deref(obj)
        if name in ("has_value", "operator bool"): return self.ex.as_bool(v)
        if name == "value":
            if z3.is_expr(v):
                if not ex.choose(L.opt_is(v)): raise CppThrow(ExcV(CT("std::bad_optional_access")))
            return o.ext(("o",))
        if name == "get":
            if bt.name in PTRT:
                return self.ptr_get(ex, o, v, n)
        if name == "reset":
            a = self._args(ex, args)
            if a and not (isinstance(a[0], Ptr) and a[0].loc is None): raise Unsupported("reset(p)")
            ex.write(o, L.opt_none(v.sort()) if z3.is_expr(v) else Ptr(None)); return VOID
        if name == "value_or":
            if ex.choose(L.opt_is(v)): return L.opt_val(v)
            return self._args(ex, args)[0]
        if name == "emplace":
            s = v.sort()
            ex.write(o, L.opt_some(s, self.emplace_value(ex, bt.args[0], args, s.accessor(1, 0).range())))
            return o.ext(("o",))
        if name == "lock": return v
        if name == "swap":
            p = ex.loc(ex.eval(self._live(args)[0])); pv = ex.val(p)
            ex.write(o, pv); ex.write(p, v); return VOID
        if name == "operator=":
            src = ex.eval(self._live(args)[0]); sv = ex.val(src)
            if z3.is_expr(sv) and sv.sort() == v.sort():
                ex.write(o, sv); return o
        raise Unsupported("optional/pointer::" + name)

    def ptr_get(self, ex, o, v, n):
        if ex.choose(ex.as_bool(v)): return Ptr(o.ext(("o",)))
        return Ptr(None)

    def m_map(self, ex, obj, v, bt, name, n, args):
        th = map_theory_for(v.sort())
        o = ex.deref(obj)
        isset = th.v == L.UnitSort
        if name == "size": return th.size_(v)
        if name == "empty": return th.size_(v) == 0
        if name == "clear":
            ex.write(o, th.empty); return VOID
        if name in ("end", "cend", "begin", "cbegin"):
            if name in ("end", "cend"): return MapIter(o, z3.BoolVal(False), z3.Const("endkey", th.k))
            return MapIter(o, th.size_(v) > 0, th.keys.at(th.keys_(v), z3.IntVal(0)))
        if name in ("rbegin", "crbegin"): return MapIter(o, th.size_(v) > 0, th.keys.at(th.keys_(v), th.size_(v) - 1))     # only dereferenced: its ++ is not modelled
        if name == "reserve":
            self._args(ex, args); return VOID
        if name == "capacity":
            r = ex.fresh("capacity", Int); ex.assume(r >= th.size_(v)); return r
        if name == "contains": return th.has_(v, self.pack_sort(self._args(ex, args)[0], th.k))
        if name == "find":
            k = self.pack_sort(self._args(ex, args)[0], th.k)
            return MapIter(o, th.has_(v, k), k, v)
        if name == "count":
            k = self._args(ex, args)[0]
            return z3.If(th.has_(v, k), z3.IntVal(1), z3.IntVal(0))
        if name == "at":
            k = self._args(ex, args)[0]
            if not ex.choose(th.has_(v, k)): raise CppThrow(ExcV(CT("std::out_of_range")))
            return o.ext(("m", k))
        if name in ("insert", "emplace", "insert_or_assign", "emplace_hint", "try_emplace"):
            live = self._live(args)
            if isset:
                k = self.pack_sort(self.ex.val(ex.eval(live[0])), th.k)
                had = th.has_(v, k)
                if not ex.choose(had): ex.write(o, th.set_(v, k, L.unit))
                return StructV(CT("std::pair"), {"first": MapIter(o, z3.BoolVal(True), k), "second": z3.Not(had)})
            if name == "insert":
                p = ex.val(ex.eval(live[0]))
                k = ex.val(ex.field(p, "first")); x = ex.val(ex.field(p, "second"))
            else:
                ks = ex.eval(live[0]); k = ex.val(ks)
                x = self.emplace_value(ex, bt.args[1], live[1:], th.v)
            k = self.pack_sort(k, th.k)
            x = self.pack_sort(x, th.v)
            had = th.has_(v, k)
            if name == "insert_or_assign": ex.write(o, th.set_(v, k, x))
            else:
                if ex.choose(had): pass
                else: ex.write(o, th.set_(v, k, x))
            return StructV(CT("std::pair"), {"first": MapIter(o, z3.BoolVal(True), k, ex.val(o)), "second": z3.Not(had)})
        if name == "erase":
            a = self._args(ex, args)
            if isinstance(a[0], MapIter):
                ex.check("%s: erased map iterator is valid" % ex.contract.name, a[0].valid, ex.line(n))
                ex.write(o, th.del_(v, a[0].key)); return MapIter(o, ex.fresh("nx", Bool), ex.fresh("nk", th.k))
            had = th.has_(v, a[0])
            ex.write(o, th.del_(v, a[0]))
            return z3.If(had, z3.IntVal(1), z3.IntVal(0))
        if name == "operator=":
            sv = ex.val(ex.eval(self._live(args)[0]))
            if z3.is_expr(sv) and sv.sort() == v.sort():
                ex.write(o, sv); return o
        raise Unsupported("map::" + name)

    # ------------------------------------------------------------ operators on model types
    def call_operator(self, ex, name, n, args):
        if name == "operator=":
            return self.op_assign(ex, n, args)
        if name == "operator[]":
            return self.op_index(ex, n, args)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a = ex.val(ex.eval(args[0])); b = ex.val(ex.eval(args[1]))
            return self.compare(ex, name[8:], a, b, n, args)
        if name in ("operator*", "operator->"):
            l = ex.eval(args[0]); v = ex.val(l)
            if isinstance(v, (Iter, MapIter)): 
                r = self.deref_value(ex, v, n)
                return Ptr(r) if name == "operator->" and isinstance(r, Loc) else r
            if isinstance(v, Ptr):
                if v.loc is None:
                    ex.check("%s: null pointer dereference" % ex.contract.name, z3.BoolVal(False), ex.line(n)); raise PathEnd()
                return v if name == "operator->" else v.loc
            if z3.is_expr(v) and v.sort() in self.opaque.values():
                return l if name == "operator->" else l
            r = self.opt_loc(ex, ex.loc(l), n, "pointer/optional")
            return Ptr(r) if name == "operator->" else r
        if name in ("operator++", "operator--"):
            l = ex.loc(ex.eval(args[0])); v = ex.val(l)
            d = 1 if name == "operator++" else -1
            if isinstance(v, Iter):
                nv = Iter(v.loc, simp(v.idx + (-d if v.rev else d)), v.rev)
                ex.write(l, nv)
                return v if len(args) > 1 else l
        if name in ("operator+", "operator-"):
            a = ex.val(ex.eval(args[0])); b = ex.val(ex.eval(args[1]))
            if isinstance(a, (Iter, Ptr)) or isinstance(b, (Iter, Ptr)): return self.ptr_op(ex, name[8:], a, b, n)
            if name == "operator+": return self.str_cat(a, b)
        if name in ("operator+=",):
            l = ex.loc(ex.eval(args[0])); v = ex.val(l); b = ex.val(ex.eval(args[1]))
            if isinstance(v, Iter):
                ex.write(l, self.ptr_op(ex, "+", v, b, n)); return l
            ex.write(l, self.str_cat(v, b)); return l
        if name == "operator-=":
            l = ex.loc(ex.eval(args[0])); v = ex.val(l); b = ex.val(ex.eval(args[1]))
            if isinstance(v, Iter):
                ex.write(l, self.ptr_op(ex, "-", v, b, n)); return l
        if name == "operator<<":
            l = ex.loc(ex.eval(args[0])); v = ex.val(l); b = ex.val(ex.eval(args[1]))
            if isinstance(b, FnRef): return l
            bt = parse(qt(args[1])).bare()
            ex.write(l, self.str_cat(v, self.stream_text(ex, b, bt))); return l
        if name == "operator()":
            f = ex.val(ex.eval(args[0]))
            return ex.apply_value(f, ex.args_of(args[1:]), n)
        if name == "operator|" or name == "operator&":
            a = ex.val(ex.eval(args[0])); b = ex.val(ex.eval(args[1]))
            return self.binop(ex, name[8:], a, b, parse(qt(args[0])), parse(qt(args[1])), parse(qt(n)), n)
        if name == 'operator""sv' or name == 'operator""s':
            return ex.val(ex.eval(args[0]))
        raise Unsupported(name + " on " + qt(args[0]))

    def stream_text(self, ex, b, bt):
        if z3.is_expr(b) and b.sort() == Str.sort: return b
        if z3.is_expr(b) and z3.is_int(b): return itoa(b)
        if z3.is_expr(b) and z3.is_bv(b) and b.size() == 8: return b
        if z3.is_expr(b) and z3.is_bv(b): return itoa(self.int_cast(b, bt, CT("long")))
        raise Unsupported("<< of %r" % bt)

    def str_cat(self, a, b):
        if z3.is_bv(a): a = Str.single(a)
        if z3.is_bv(b): return Str.push(a, b)
        if not (z3.is_expr(a) and z3.is_expr(b) and a.sort() == Str.sort and b.sort() == Str.sort):
            raise Unsupported("string + %r" % (b,))
        return Str.cat(a, b)

    def op_assign(self, ex, n, args):
        src = ex.eval(args[1])
        dst = ex.loc(ex.eval(args[0]))
        v = ex.val(src)
        dt = parse(qt(args[0])).bare(); st = parse(qt(args[1])).bare()
        cal = children(n)[0]
        while cal["kind"] != "DeclRefExpr": cal = children(cal)[0]
        mv = "&&" in cal["referencedDecl"]["type"]["qualType"].split("(", 1)[-1]
        if isinstance(v, InitList): v = self.from_init_list(v, dt)
        nv = v
        if dt.name == "std::optional" or dt.name in PTRT:
            if isinstance(v, Ptr) and v.loc is None or st.name == "std::nullopt_t" or (isinstance(v, StructV) and v.ct.name == "std::nullopt_t"):
                nv = self.default_of(dt, False)
            elif st != dt and dt.name == "std::optional":
                s = self.sort_of(dt)
                nv = L.opt_some(s, self.pack_sort(self.convert(ex, v, st, dt.args[0]), s.accessor(1, 0).range()))
            if mv and isinstance(src, Loc) and dt.name in PTRT and z3.is_expr(v):
                ex.write(ex.deref(src), self.null_of(v.sort())); mv = False
        elif dt.name == "std::variant" and st != dt:
            i = self.variant_index(dt, st)
            if i is None: raise Unsupported("variant assign")
            nv = self.variant_mk(dt, i, v)
        elif isinstance(v, ListV) and dt.name in SEQT:
            nv = self.pack(v, dt)
        elif isinstance(v, ListV) and dt.name in self.MAPT + self.SETT:
            nv = self.c_map_list(ex, dt, v)
        if mv and isinstance(src, Loc) and args[1].get("kind") != "MaterializeTemporaryExpr":
            if not ex.deref(src).same(dst): ex.move_from(src)
        ex.write(dst, nv)
        return dst

    def c_map_list(self, ex, dt, v):
        th = map_theory_for(self.sort_of(dt))
        m = th.empty
        for x in v.items: raise Unsupported("map list assign")
        return m

    def op_index(self, ex, n, args):
        b = ex.eval(args[0])
        i = ex.val(ex.eval(args[1]))
        bl = ex.loc(b)
        v = ex.val(bl)
        bt = parse(qt(args[0]))
        if isinstance(v, ListV) or (z3.is_expr(v) and L.seq_theory_for_sort(v.sort()) is not None):
            i = self.to_index(i, parse(qt(args[1])))
            ex.bounds(bl, i, n)
            return bl.ext(("i", i))
        if z3.is_expr(v) and map_theory_for(v.sort()) is not None:
            th = map_theory_for(v.sort())
            if not ex.choose(th.has_(v, i)):
                ex.write(bl, th.set_(v, i, self.pack(self.default_of(bt.args[1], False), bt.args[1])))
            return bl.ext(("m", i))
        raise Unsupported("operator[] on %r" % bt)

    def compare(self, ex, op, a, b, n, args):
        if isinstance(a, (Iter, Ptr)) or isinstance(b, (Iter, Ptr)):
            if isinstance(a, Iter) and isinstance(b, Iter):
                if not ex.deref(a.loc).same(ex.deref(b.loc)): raise Unsupported("iterators of different containers")
            return self.ptr_op(ex, op, a, b, n)
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            va, vb = simp(a.valid), simp(b.valid)
            if z3.is_false(vb): e = z3.Not(a.valid)
            elif z3.is_false(va): e = z3.Not(b.valid)
            else: e = z3.Or(z3.And(a.valid, b.valid, a.key == b.key), z3.And(z3.Not(a.valid), z3.Not(b.valid)))
            return e if op == "==" else z3.Not(e)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            if op in ("==", "!="):
                if a.sort() == Str.sort:
                    e = a == b
                else:
                    try:
                        ct = parse(qt(args[0])).bare()
                    except Exception:
                        ct = None
                    e = self.type_eq(ex, ct, a, b) if ct is not None and not ct.ref and self._sort_is(ct, a.sort()) else self.value_eq(a, b)
                return e if op == "==" else z3.Not(e)
            if a.sort() == Str.sort:
                c = str_lt(a, b)
                return {"<": c, ">": str_lt(b, a), "<=": z3.Not(str_lt(b, a)), ">=": z3.Not(c)}[op]
            if z3.is_int(a): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if z3.is_expr(a) and L.is_opt(a.sort()) and op in ("==", "!="):
            if z3.is_expr(b) and b.sort() == a.sort().accessor(1, 0).range():
                e = z3.And(L.opt_is(a), self.value_eq(L.opt_val(a), b))
                return e if op == "==" else z3.Not(e)
        if isinstance(a, StructV) and isinstance(b, StructV) or True:
            try:
                s = a.sort() if z3.is_expr(a) else (b.sort() if z3.is_expr(b) else self.sort_of(a.ct))
                e = self.value_eq(self.pack_sort(a, s), self.pack_sort(b, s))
                if op in ("==", "!="): return e if op == "==" else z3.Not(e)
            except AttributeError:
                pass
        raise Unsupported("comparison %s %r %r" % (op, a, b))

    def value_eq(self, a, b):
        return a == b

    def _sort_is(self, ct, s):
        try:
            return self.sort_of(ct) == s
        except Unsupported:
            return False

    def user_eq(self, ex, ct):
        """member operator==(const T&) of a class, if it has one"""
        d = ex.class_decl(ct)
        if d is None: return None
        for c in children(d):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator==": return ex.tu.bodies.get(c.get("mangledName"), c)
        return None

    def type_eq(self, ex, ct, a, b, deep=False):
        """operator== of a C++ type on two terms, following user-defined operators inside std containers"""
        n = ct.name
        if n in ("std::vector", "std::list", "std::deque"):
            th = L.seq_theory_for_sort(a.sort())
            x, y = ex.fresh("ea", th.elem), ex.fresh("eb", th.elem)
            g = self.type_eq(ex, ct.args[0].bare(), x, y, True)
            if g.eq(x == y): return a == b
            i = z3.Int("eqi")
            return z3.And(th.len(a) == th.len(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(a)), z3.substitute(g, (x, th.at_(a, i)), (y, th.at_(b, i)))), patterns=[th.at_(a, i), th.at_(b, i)]))
        if n in ("std::pair", "std::tuple"):
            return z3.And([self.type_eq(ex, t.bare(), L.rec_get(a, f), L.rec_get(b, f), True) for f, t in zip(L.rec_fields(a.sort()), ct.args)])
        if n == "std::variant":
            return z3.Or([z3.And(L.var_is(a, i), L.var_is(b, i), self.type_eq(ex, t.bare(), L.var_get(a, i), L.var_get(b, i), True)) for i, t in enumerate(ct.args)])
        if n == "std::optional":
            return z3.And(L.opt_is(a) == L.opt_is(b), z3.Implies(L.opt_is(a), self.type_eq(ex, ct.args[0].bare(), L.opt_val(a), L.opt_val(b), True)))
        d = self.user_eq(ex, ct) if not n.startswith("std::") else None
        if d is None or not (_has_body(ex.tu, d) or self.contract_for(ex, d)): return self.value_eq(a, b)
        x, y = ex.fresh("ea", a.sort()), ex.fresh("eb", b.sort())
        g = self.pred_formula(ex, lambda ops: ex.call(d, ops[0], [ops[1]]), [ex.alloc(x, "ea"), ex.alloc(y, "eb")])
        return z3.substitute(g, (x, a), (y, b))

    # ------------------------------------------------------------ free functions
    def call_free(self, ex, rd, n, args):
        name = rd["name"]
        fm = self.free_models.get(name)
        if fm is not None: return fm(ex, n, args)
        d = ex.tu.by_id.get(rd["id"])
        if name in ("cref", "ref"): return ex.val(ex.eval(args[0]))
        if name in ("move", "forward", "as_const", "addressof"):
            if name == "move" and len(args) == 3:
                raise Unsupported("std::move algorithm")
            v = ex.eval(args[0])
            return v
        if name == "make_pair":
            vs = [ex.eval(a) for a in args]
            out = []
            for x, a in zip(vs, args):
                out.append(ex.val(x))
                if a.get("valueCategory") == "xvalue" and isinstance(x, Loc): ex.move_from(x)
            return StructV(parse(qt(n)), {"first": out[0], "second": out[1]})
        if name == "make_optional":
            t = parse(qt(n)); s = self.sort_of(t)
            x = ex.eval(args[0]); v = ex.val(x)
            if args[0].get("valueCategory") == "xvalue" and isinstance(x, Loc): ex.move_from(x)
            return L.opt_some(s, self.pack_sort(v, s.accessor(1, 0).range()))
        if name == "distance":
            a, b = [ex.val(ex.eval(x)) for x in args]
            return self.ptr_op(ex, "-", b, a, n)
        if name in ("next", "prev", "advance"):
            a = ex.eval(args[0]); it = ex.val(a)
            d = ex.val(ex.eval(args[1])) if len(self._live(args)) > 1 else z3.IntVal(1)
            r = self.ptr_op(ex, "+" if name != "prev" else "-", it, d, n)
            if name == "advance":
                ex.write(ex.loc(a), r); return VOID
            return r
        if name in ("begin", "end", "cbegin", "cend", "size", "data", "empty"):
            l = ex.loc(ex.eval(args[0]))
            bt = parse(qt(args[0])).bare()
            return self.call_member(ex, l, bt, name, n, [], None)
        if name in ("min", "max", "lowest") and not args:
            t = parse(qt(n)).bare()
            sg, w = INTS[t.name][0] == "s", INTS[t.name][1]
            return self.int_const(t, ((1 << (w - 1)) - 1 if sg else (1 << w) - 1) if name == "max" else (-(1 << (w - 1)) if sg else 0))
        if name in ("min", "max"):
            la, lb = ex.eval(args[0]), ex.eval(args[1])
            a, b = ex.val(la), ex.val(lb)
            t = parse(qt(args[0]))
            lt = self.binop(ex, "<", b if name == "min" else a, a if name == "min" else b, t, t, CT("bool"), n)
            return lb if ex.choose(lt) else la
        if name == "swap":
            la, lb = ex.loc(ex.eval(args[0])), ex.loc(ex.eval(args[1]))
            a, b = ex.val(la), ex.val(lb)
            ex.write(la, b); ex.write(lb, a); return VOID
        if name == "get":
            return self.std_get(ex, n, args)
        if name == "holds_alternative":
            v = ex.val(ex.eval(args[0]))
            t = self.template_arg(ex, n, rd, 0)
            vt = parse(qt(args[0])).bare()
            return L.var_is(v, [a.bare() for a in vt.args].index(t.bare()))
        if name == "to_string":
            v = ex.val(ex.eval(args[0]))
            return itoa(v if z3.is_int(v) else self.int_cast(v, parse(qt(args[0])), CT("long")))
        if name in ("make_unique", "make_shared"):
            t = parse(qt(n)).bare()
            so = self.sort_of(t)
            es = so.accessor(1, 0).range()
            return L.opt_some(so, self.pack_sort(self.emplace_value(ex, t.args[0].bare(), args, es), es))
        if name == "exchange":
            l = ex.loc(ex.eval(args[0])); v = ex.val(l)
            ex.write(l, ex.val(ex.eval(args[1]))); return v
        if name == "back_inserter":
            return StructV(CT("std::back_insert_iterator"), {"c": RefV(ex.deref(ex.loc(ex.eval(args[0]))))})
        if name in ("copy", "move") and len(args) == 3:
            a, b = ex.val(ex.eval(args[0])), ex.val(ex.eval(args[1]))
            d = ex.val(ex.eval(args[2]))
            if not (isinstance(d, StructV) and d.ct.name == "std::back_insert_iterator"): raise Unsupported("std::copy to an iterator")
            l = d.f["c"].loc; v = ex.val(l); th = L.seq_theory_for_sort(v.sort())
            ex.write(l, th.cat(v, self.pack_sort(self.range_value(ex, a, b), th.sort)))
            return d
        if name == "transform" and len(args) == 4: return self.transform(ex, n, args)
        if name == "for_each" and len(args) == 3: return self.for_each(ex, n, args)
        if name in ("all_of", "any_of", "none_of") and len(args) == 3: return self.quantified(ex, n, name, args)
        if name == "equal_range" and len(args) == 4: return self.equal_range(ex, n, args)
        if name == "sort" and len(args) == 3: return self.std_sort(ex, n, args)
        raise Unsupported("free function " + name)

    # ------------------------------------------------------------ algorithms with a caller-supplied ordering
    def pred_formula(self, ex, f, operands):
        """truth value of a side-effect-free callable on given operands, as a formula"""
        snap = (dict(ex.store), list(ex.pc), ex.pcset.copy(), ex.nkey, len(ex.obls))
        ex.pure += 1
        fr = list(ex.frames); depth = ex.depth
        try:
            if isinstance(f, Closure):
                ps = [c for c in children(f.op) if c.get("kind") == "ParmVarDecl"]
                operands = [self.implicit_convert(ex, o, parse(qt(p))) for o, p in zip(operands, ps)]
            r = ex.as_bool(ex.val(f(operands) if callable(f) and not isinstance(f, Closure) else ex.apply_value(f, operands)))
        except (NotPure, CppThrow, PathEnd):
            raise Unsupported("callable with side effects in an algorithm")
        finally:
            ex.pure -= 1
            ex.frames[:] = fr; ex.depth = depth
        return r

    def implicit_convert(self, ex, o, t):
        """operand passed to a parameter of class type t through a converting constructor, as the algorithm would"""
        ct = t.bare()
        if ct.name == "std::optional":
            v = ex.val(o); so = self.sort_of(ct)
            if z3.is_expr(v) and v.sort() == so: return o
            if isinstance(v, StructV) and v.ct.name == "std::nullopt_t": return ex.alloc(L.opt_none(so), "conv")
            return ex.alloc(L.opt_some(so, self.pack_sort(v, so.accessor(1, 0).range())), "conv")
        if ct.name in self.opaque or ex.class_decl(ct) is None: return o
        try:
            s = ex.val(o).sort() if z3.is_expr(ex.val(o)) else None
        except Unsupported:
            s = None
        cands = []
        for c in children(ex.class_decl(ct)):
            if c.get("kind") != "CXXConstructorDecl": continue
            ps = [p for p in children(c) if p["kind"] == "ParmVarDecl"]
            if len(ps) != 1: continue
            pt = parse(qt(ps[0])).bare()
            if pt == ct: continue
            try:
                if self.sort_of(pt) == s: cands.append(c)
            except Unsupported:
                pass
        if len(cands) != 1: return o
        this = ex.alloc(ex.new_struct(ct), "conv")
        pure = ex.pure; ex.pure = 0
        try:
            ex.call(ex.tu.bodies.get(cands[0].get("mangledName"), cands[0]), this, [o])
        finally:
            ex.pure = pure
        return this

    def elem_pred(self, ex, f, th, mk, within=None):
        """(x, ...) -> formula, by running the callable once on a generic element (of the range `within`)"""
        x = ex.fresh("elem", th.elem)
        l = ex.alloc(x, "elem")
        if within is None:
            g = self.pred_formula(ex, f, mk(l))
        else:
            p = ex.fresh("where", Int)
            v, a, b = within
            guard = z3.And(a <= p, p < b, th.at_(v, p) == x)
            pc, pcset = ex.pc, ex.pcset
            ex.pc, ex.pcset = list(pc) + [guard], set(pcset)
            k = len(ex.pc)
            try:
                g = self.pred_formula(ex, f, mk(l))
            finally:
                new = ex.pc[k:]
                ex.pc, ex.pcset = pc, pcset
            for h in new: ex.assume(z3.Implies(guard, h))
        return lambda t: z3.substitute(g, (x, t))

    def span(self, ex, a, b):
        a, b = ex.val(a), ex.val(b)
        if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.rev or not ex.deref(a.loc).same(ex.deref(b.loc)):
            raise Unsupported("algorithm over an unusual range")
        l = ex.deref(a.loc)
        v = ex.val(l)
        th = L.seq_theory_for_sort(v.sort())
        ex.check("%s: iterator range is valid" % ex.contract.name, z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= th.len(v)))
        return l, v, th, a.idx, b.idx

    def equal_range(self, ex, n, args):
        l, v, th, i0, i1 = self.span(ex, ex.eval(args[0]), ex.eval(args[1]))
        key = ex.loc(ex.eval(args[2]))
        f = ex.val(ex.eval(args[3]))
        lo_p = self.elem_pred(ex, f, th, lambda x: [x, key], (v, i0, i1))
        hi_p = self.elem_pred(ex, f, th, lambda x: [key, x], (v, i0, i1))
        at = lambda i: th.at_(v, i)
        i, j = z3.Ints("er_i er_j")
        rng = z3.And(i0 <= i, i < j, j < i1)
        nm = ex.contract.name
        ex.check("%s: range is partitioned by 'less than key'" % nm, z3.ForAll([i, j], z3.Implies(z3.And(rng, lo_p(at(j))), lo_p(at(i))), patterns=[z3.MultiPattern(at(i), at(j))]), ex.line(n))
        ex.check("%s: range is partitioned by 'greater than key'" % nm, z3.ForAll([i, j], z3.Implies(z3.And(rng, hi_p(at(i))), hi_p(at(j))), patterns=[z3.MultiPattern(at(i), at(j))]), ex.line(n))
        ex.check("%s: no element is both less and greater than the key" % nm, z3.ForAll([i], z3.Implies(z3.And(i0 <= i, i < i1, lo_p(at(i))), z3.Not(hi_p(at(i)))), patterns=[at(i)]), ex.line(n))
        lo, hi = ex.fresh("lo", Int), ex.fresh("hi", Int)
        ex.assume(z3.And(i0 <= lo, lo <= hi, hi <= i1))
        fa = lambda a, b, g: ex.assume(z3.ForAll([i], z3.Implies(z3.And(a <= i, i < b), g(at(i))), patterns=[at(i)]))
        fa(i0, lo, lo_p); fa(lo, i1, lambda x: z3.Not(lo_p(x)))
        fa(hi, i1, hi_p); fa(i0, hi, lambda x: z3.Not(hi_p(x)))
        # the boundary elements, so that the branch test on lo == hi has consequences
        ex.assume(z3.Implies(lo < hi, z3.And(z3.Not(lo_p(at(lo))), z3.Not(hi_p(at(lo))))))
        return StructV(CT("std::pair"), {"first": Iter(l, lo), "second": Iter(l, hi)})

    def std_sort(self, ex, n, args):
        l, v, th, i0, i1 = self.span(ex, ex.eval(args[0]), ex.eval(args[1]))
        f = ex.val(ex.eval(args[2]))
        if not (z3.is_int_value(simp(i0)) and simp(i0).as_long() == 0 and simp(i1 == th.len(v)).eq(z3.BoolVal(True))):
            raise Unsupported("sort of a part")
        x, y = ex.fresh("elem", th.elem), ex.fresh("elem", th.elem)
        g = self.pred_formula(ex, f, [ex.alloc(x), ex.alloc(y)])
        cmp = lambda a, b: z3.substitute(g, (x, a), (y, b))
        a, b, c = z3.Consts("so_a so_b so_c", th.elem)
        nm = ex.contract.name
        x2 = ex.fresh("elem", th.elem)
        ex.check("%s: sort comparator is irreflexive" % nm, z3.Not(cmp(x, x)), ex.line(n))
        ex.check("%s: sort comparator is transitive" % nm, z3.Implies(z3.And(cmp(x, y), cmp(y, x2)), cmp(x, x2)), ex.line(n))
        r = ex.fresh("sorted", th.sort)
        perm = z3.Function("perm_%s" % r.decl().name(), Int, Int); inv = z3.Function("inv_%s" % r.decl().name(), Int, Int)
        i, j = z3.Ints("so_i so_j")
        at = th.at_
        N = th.len(v)
        ex.assume(th.len_(r) == N)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= perm(i), perm(i) < N, at(r, i) == at(v, perm(i)), inv(perm(i)) == i)), patterns=[at(r, i)]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= inv(i), inv(i) < N, perm(inv(i)) == i, at(r, inv(i)) == at(v, i))), patterns=[at(v, i)]))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), z3.Not(cmp(at(r, j), at(r, i)))), patterns=[z3.MultiPattern(at(r, i), at(r, j))]))
        ex.write(l, r)
        ex.ghost_sort = (v, perm, inv)
        return VOID

    def template_arg(self, ex, n, rd, i):
        f = children(n)[0]
        while f.get("kind") != "DeclRefExpr": f = children(f)[0]
        txt = ex.tu.text(f)
        if "<" not in txt: raise Unsupported("template argument of call")
        a = txt[txt.index("<") + 1:txt.rindex(">")].strip()
        d = ex.frames[-1].decl
        while d is not None and d.get("name") == "operator()" and ex.tu.parent.get(d["id"]) is not None: d = ex.tu.parent[d["id"]]
        scope = ""
        for fr in reversed(ex.frames):
            if fr.decl is not None and not fr.decl.get("name", "").startswith("operator()"):
                scope = ex.tu.qualname(fr.decl).rsplit("::", 1)[0]; break
        sub = {}
        for fr in reversed(ex.frames):
            o = ex.tu.owner(fr.decl) if fr.decl is not None else None
            if o is None or o.get("kind") != "ClassTemplateSpecializationDecl": continue
            p = ex.tu.parent.get(o["id"])
            if p is None or p.get("kind") != "ClassTemplateDecl": continue
            names = [x.get("name") for x in children(p) if x.get("kind") == "TemplateTypeParmDecl"]
            targs = [x for x in children(o) if x.get("kind") == "TemplateArgument" and "type" in x]
            for nm, ta in zip(names, targs): sub.setdefault(nm, parse(qt(ta)))
            break
        def subst(t):
            if t.name in sub and not t.args:
                b = sub[t.name]
                return CT(b.name, b.args, t.ref or b.ref, t.ptr + b.ptr, t.const or b.const, b.fn, b.raw) if (t.const or t.ref or t.ptr) else b
            return CT(t.name, [subst(x) for x in t.args], t.ref, t.ptr, t.const, t.fn, t.raw) if t.args else t
        if sub and re.search(r"\b(%s)\b" % "|".join(map(re.escape, sub)), a): return subst(parse(a))
        return self.type_text(ex, a, scope)

    def type_text(self, ex, a, scope):
        al = ex.tu.alias(a, scope)
        if al is not None: return parse(al)
        t = parse(a)
        return t

    def std_get(self, ex, n, args):
        l = ex.eval(args[0]); v = ex.val(l)
        bt = parse(qt(args[0])).bare()
        rt = parse(qt(n)).bare()
        if bt.name == "std::variant":
            i = [a.bare() for a in bt.args].index(rt)
            if isinstance(v, StructV):
                raise Unsupported("variant struct")
            if not ex.choose(L.var_is(v, i)): raise CppThrow(ExcV(CT("std::bad_variant_access")))
            return ex.deref(l).ext(("v", i)) if isinstance(l, Loc) else L.var_get(v, i)
        raise Unsupported("std::get on %r" % bt)

    def apply_opaque(self, ex, f, args, n):
        raise Unsupported("call of opaque callable %r" % (f,))

    def ptr_cast(self, ex, n, v):
        return v

    def ptr_member_call(self, ex, m, n, args):
        raise Unsupported("pointer to member call")


def consts_of(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
    return out


def _bad():
    raise Unsupported("symbolic index")


def _const_int(e):
    if "value" in e and e["kind"] in ("ConstantExpr", "IntegerLiteral"): return int(e["value"])
    for c in children(e):
        return _const_int(c)
    raise Unsupported("enum value")


itoa = z3.Function("itoa", Int, Str.sort)
cstr = z3.Function("up_to_first_nul", Str.sort, Str.sort)   # what a NUL-terminated reader sees
_ptr_text = z3.Function("ptr_text", Str.sort, Int, Str.sort)   # the first n characters behind a pointer


def ptr_text(p, n):
    n = z3.simplify(n)
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_BV2INT: n = int_of_bv(n.arg(0))
    if p.decl().name() == cstr.name() and n.eq(z3.simplify(Str.len(p.arg(0)))): return p.arg(0)
    return _ptr_text(p, n)


def int_of_bv(w):
    """length given as a machine word; a length converted from size_t keeps its value (strings shorter than 2^32)"""
    w = z3.simplify(w)
    if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_INT2BV: return w.arg(0)
    return z3.BV2Int(w)

