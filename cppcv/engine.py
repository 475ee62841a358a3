"""Path-by-path symbolic execution of the clang AST against contracts.

Every path of a function is executed from the start with a recorded prefix of branch decisions, so the
interpreter can be written in direct style.  Loops are cut by invariants: the invariant is checked on entry,
the locations the body writes are havocked, and the body is executed once from an arbitrary iteration.
"""
import z3, time, itertools, sys
from .front import Unsupported, children, qt, FUNC_KINDS
from .ctypes_ import parse, CT, INTS
from . import logic as L
from .logic import Int, Bool, BV, Str, strlit, simp

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root; self.path = tuple(path)

    def ext(self, *steps):
        return Loc(self.root, self.path + steps)

    def __repr__(self):
        return "Loc(%s%s)" % (self.root, "".join("." + str(p) for p in self.path))

    def same(self, o):
        return isinstance(o, Loc) and self.root == o.root and len(self.path) == len(o.path) and all(_stepeq(a, b) for a, b in zip(self.path, o.path))


def _stepeq(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if z3.is_expr(x) and z3.is_expr(y):
            if not x.eq(y): return False
        elif z3.is_expr(x) or z3.is_expr(y): return False
        elif x != y: return False
    return True


class StructV:
    __slots__ = ("ct", "f")

    def __init__(self, ct, f):
        self.ct = ct; self.f = f

    def set(self, n, v):
        g = dict(self.f); g[n] = v
        return StructV(self.ct, g)

    def __repr__(self):
        return "%s%r" % (self.ct, self.f)


class RefV:      # value of a reference-typed field
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "RefV(%r)" % self.loc


class Ptr:       # raw pointer to a location (or null)
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "Ptr(%r)" % self.loc


class Iter:      # iterator into a sequence-like container
    def __init__(self, loc, idx, rev=False): self.loc = loc; self.idx = idx; self.rev = rev
    def __repr__(self): return "Iter(%r,%s)" % (self.loc, self.idx)


class MapIter:   # iterator into a map: key (None = end)
    def __init__(self, loc, valid, key, at=None): self.loc = loc; self.valid = valid; self.key = key; self.at = at     # at: the container when the iterator was obtained
    def __repr__(self): return "MapIter(%r)" % self.loc


class Closure:
    def __init__(self, op, frame, caps, node): self.op = op; self.frame = frame; self.caps = caps; self.node = node


class BoundFn:
    """a Python-implemented callable (used for opaque std::function values)"""
    def __init__(self, fn, name="fn"): self.fn = fn; self.name = name


class FnRef:
    def __init__(self, decl): self.decl = decl


class TypeV:
    def __init__(self, ct): self.ct = ct


class InitList:
    def __init__(self, items): self.items = items


class ListV:
    """sequence of statically known length whose elements need not be SMT terms"""
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return "ListV(%d)" % len(self.items)


class Void:
    pass


VOID = Void()


class ExcV:
    """a C++ exception object: its C++ type plus the value"""
    def __init__(self, ct, val=None, msg=None): self.ct = ct; self.val = val; self.msg = msg
    def __repr__(self): return "Exc(%s)" % self.ct


# ------------------------------------------------------------------ control flow
class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class CppThrow(Exception):
    def __init__(self, exc): self.exc = exc


class PathEnd(Exception): pass
class Restart(Exception):
    """what was derived after these decisions has to be derived again"""
    def __init__(self, decisions): self.decisions = decisions
class NotPure(Exception): pass


class Obligation:
    def __init__(self, name, hyps, goal, where=""):
        self.name = name; self.hyps = list(hyps); self.goal = goal; self.where = where


EXC_BASES = {"std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::invalid_argument": "std::logic_error",
             "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error", "std::bad_variant_access": "std::exception",
             "std::bad_optional_access": "std::exception", "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error",
             "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error", "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception",
             "std::future_error": "std::logic_error", "std::system_error": "std::runtime_error"}


class Frame:
    def __init__(self, decl, this=None, parent=None, base=None):
        self.decl = decl; self.this = this; self.env = {}; self.parent = parent; self.base = base; self.namecap = {}

    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.base
        return None

    def lookup_name(self, n):
        f = self
        while f is not None:
            if n in f.namecap:
                return f.namecap[n]
            f = f.base
        return None


class Engine:
    """Executes one function of one TU against one contract."""

    def __init__(self, tu, contract, models, opts=None):
        self.tu = tu
        self.contract = contract
        self.M = models              # Models: sorts and STL models + contracts of other functions
        models.bind(self)
        self.opts = opts or {}
        self.modsets = {}            # persistent across re-executions
        self.idle = {}
        self.dropped = set()         # dropped candidate invariants
        self.autoinv = {}
        self.obls = []
        self.feas_cache = {}
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.npaths = 0
        self.maxpaths = self.opts.get("maxpaths", 4000)

    # ---------------------------------------------------------------- driving
    def run(self):
        self.obls = []; self.tags = []
        self.exit_pcs = []; self.exit_tags = []
        stack = [[]]
        again = {}
        while stack:
            self.prefix = stack.pop()
            self.pending = []
            self.npaths += 1
            if self.npaths > self.maxpaths:
                raise Unsupported("too many paths")
            self._reset()
            try:
                self.contract.execute(self)
            except PathEnd:
                pass
            except Restart as r:
                # only the paths through the loop whose modified variables were incomplete
                d = r.decisions; n = len(d)
                again[str(d)] = again.get(str(d), 0) + 1
                if again[str(d)] > 60: raise Unsupported("loop modification sets do not stabilise")
                out = lambda t: t[:n] != d
                keep = [k for k, t in enumerate(self.tags) if out(t)]
                self.obls = [self.obls[k] for k in keep]; self.tags = [self.tags[k] for k in keep]
                keep = [k for k, t in enumerate(self.exit_tags) if out(t)]
                self.exit_pcs = [self.exit_pcs[k] for k in keep]; self.exit_tags = [self.exit_tags[k] for k in keep]
                stack = [p for p in stack + self.pending if out(p)] + [d]
                continue
            stack += self.pending
        return self.obls

    def _reset(self):
        self.decisions = []
        self.pc = []
        self.pcset = set()
        self.store = {}
        self.nkey = 0
        self.nfresh = {}
        self.pure = 0
        self.generic = 0
        self.frames = []
        self.loopstack = []
        self.depth = 0
        self.ghost = {}
        self.trace = []
        self.writelog = None

    # ---------------------------------------------------------------- path condition
    def fresh(self, name, sort):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        return z3.Const("%s!%d" % (name, n), sort)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = f if z3.is_quantifier(f) else f
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if f.get_id() in self.pcset and any(f.eq(g) for g in self.pc):
            return
        if z3.is_false(f):
            raise PathEnd()
        if z3.is_true(f):
            return
        self.pcset.add(f.get_id())
        self.pc.append(f)

    def in_prefix(self):
        return len(self.decisions) < len(self.prefix)

    def check(self, name, goal, where=""):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.in_prefix():
            return
        g = simp(goal) if not z3.is_quantifier(goal) else goal
        if not z3.is_true(g) and z3.is_implies(goal): g = self.by_literals(goal)
        if z3.is_true(g):
            self.obls.append(Obligation(name, [], z3.BoolVal(True), where)); self.tags.append(list(self.decisions))
            return
        self.obls.append(Obligation(name, self.pc, goal, where)); self.tags.append(list(self.decisions))

    def by_literals(self, goal):
        """an implication whose guard contradicts a literal or an equation term = constant of the path holds"""
        fneg, feq, fpos = set(), {}, set()
        for p in self.pc:
            k, a, b = _literal(p)
            if k == "p": fpos.add(a)
            elif k == "n": fneg.add(a)
            elif k == "e": feq[a] = b; fpos.add(p.get_id())
        todo = [goal.arg(0)]
        while todo:
            g = todo.pop()
            if z3.is_and(g): todo += [g.arg(i) for i in range(g.num_args())]; continue
            k, a, b = _literal(g)
            if k == "p" and a in fneg or k == "n" and a in fpos or k == "e" and (feq.get(a, b) != b or g.get_id() in fneg): return z3.BoolVal(True)
        return goal

    def feasible(self, extra):
        if _info(extra)[1]: return True        # a quantified condition: both ways are followed
        infos = [i for i in map(_info, self.pc) if not i[1]] + [_info(extra)]
        key = tuple(i[0].get_id() for i in infos)
        r = self.feas_cache.get(key)
        if r is not None: return r[0]
        fs = [i[0] for i in infos]
        s = z3.Solver()
        s.set("timeout", 400)
        lits = {}
        for i in infos: lits.update(i[2])
        if lits:
            s.add(z3.Distinct(*([lits[n] for n in sorted(lits)] + [Str.empty])))
        s.add(fs)
        # lengths are not negative
        lens = {}
        for i in infos:
            for t in i[3]: lens[t.get_id()] = t
        s.add([t >= 0 for t in lens.values()])
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, fs)
        return r

    def entails(self, f):
        f = simp(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return not self.feasible(z3.Not(f))

    def choose(self, cond, label=""):
        """branch on a Bool term"""
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pure:
            raise NotPure()
        if getattr(self, "generic", 0):
            if self.entails(cond): return True
            if self.entails(z3.Not(cond)): return False
            raise Unsupported("branch on an arbitrary element in an algorithm")
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            if isinstance(d, tuple):
                d, forced = d
                if forced: return d
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathEnd()
        if t and f:
            self.pending.append(self.decisions + [False])
            self.decisions.append(True)
            self.assume(cond)
            return True
        self.decisions.append((t, True))
        return t

    def choose_n(self, conds):
        """exactly-one style multiway choice; returns index of the chosen condition"""
        for i, c in enumerate(conds[:-1]):
            if self.choose(c):
                return i
        self.assume(conds[-1])
        return len(conds) - 1

    def nondet(self):
        return self.choose(self.fresh("nd", Bool))

    # ---------------------------------------------------------------- store
    def alloc(self, v, name=""):
        self.nkey += 1
        k = "%s#%d" % (name, self.nkey)
        self.store[k] = v
        return Loc(k)

    def read(self, loc):
        if not isinstance(loc, Loc):
            return loc
        if loc.root not in self.store:
            raise Unsupported("dangling location %r" % loc)
        v = self.store[loc.root]
        for st in loc.path:
            v = self.step_get(v, st)
        return v

    def write(self, loc, val):
        if self.pure:
            raise NotPure()
        if self.writelog is not None:
            self.writelog.append(loc)
        self.store[loc.root] = self._wr(self.store[loc.root], loc.path, val)

    def _wr(self, cur, path, val):
        if not path:
            return val
        st = path[0]
        if len(path) == 1:
            inner = val
        else:
            inner = self._wr(self.step_get(cur, st), path[1:], val)
        return self.step_set(cur, st, inner)

    def step_get(self, v, st):
        k = st[0]
        if k == "f":
            return self.field(v, st[1])
        if k == "i":
            return self.M.seq_at(v, st[1])
        if k == "o":
            if isinstance(v, StructV):
                return v.f["val"]
            return self.M.unpack_hint(L.opt_val(v))
        if k == "v":
            if isinstance(v, StructV):
                return v.f["alt"]
            return L.var_get(v, st[1])
        if k == "m":
            return self.M.map_get(v, st[1])
        raise Unsupported("step %r" % (st,))

    def step_set(self, v, st, x):
        k = st[0]
        if k == "f":
            if isinstance(v, StructV):
                return v.set(st[1], x)
            if isinstance(v, ExcV) and v.val is not None: return ExcV(v.ct, self.step_set(v.val, st, x), v.msg)
            v = self.expand(v)
            return v.set(st[1], x)
        if k == "i":
            return self.M.seq_upd(v, st[1], x)
        if k == "o":
            if isinstance(v, StructV):
                return v.set("val", x)
            return L.opt_some(v.sort(), self.M.pack_sort(x, v.sort().accessor(1, 0).range()))
        if k == "v":
            if isinstance(v, StructV):
                return v.set("alt", x)
            return L.var_mk(v.sort(), st[1], self.M.pack_sort(x, v.sort().accessor(st[1], 0).range()))
        if k == "m":
            return self.M.map_set(v, st[1], x)
        raise Unsupported("step %r" % (st,))

    def field(self, v, n):
        if isinstance(v, StructV):
            if n not in v.f:
                raise Unsupported("no field %s in %s" % (n, v.ct))
            return v.f[n]
        if z3.is_expr(v):
            if L.rec_fields(v.sort()) and n in L.rec_fields(v.sort()):
                return L.rec_get(v, n)
        if isinstance(v, ExcV) and v.val is not None: return self.field(v.val, n)
        raise Unsupported("field %s of %r" % (n, v))

    def expand(self, v):
        """record term -> StructV"""
        if isinstance(v, StructV):
            return v
        fs = L.rec_fields(v.sort()) if z3.is_expr(v) else None
        if not fs:
            raise Unsupported("cannot expand %r" % (v,))
        return StructV(self.M.ct_of_sort(v.sort()), {f: L.rec_get(v, f) for f in fs})

    def val(self, x):
        """operand -> value"""
        while isinstance(x, Loc):
            x = self.read(x)
            if isinstance(x, RefV):
                x = x.loc
        return x

    def deref(self, loc):
        """follow reference-typed storage"""
        if isinstance(loc, Loc):
            v = None
            try:
                v = self.read(loc)
            except Unsupported:
                return loc
            if isinstance(v, RefV):
                return v.loc
        return loc

    def loc(self, x, name="tmp"):
        if isinstance(x, Loc):
            return self.deref(x)
        return self.alloc(x, name)

    # ---------------------------------------------------------------- function calls
    def call(self, decl, this, args, node=None):
        """args: operands (Loc or value). Returns operand (value, or Loc for reference results)."""
        m = decl.get("mangledName")
        spec = self.M.contract_for(self, decl)
        if spec is not None and not (self.depth == 0 and spec is self.contract):
            self.used_contracts.add(spec.name)
            return spec.apply(self, decl, this, args, node)
        body = self.tu.bodies.get(m) if m else None
        if body is None and any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in children(decl)):
            body = decl
        if body is None:
            raise Unsupported("no body for " + self.tu.qualname(decl))
        return self.inline(body, this, args, node)

    def inline(self, body, this, args, node=None, base=None, closure=None):
        if self.depth > 60:
            raise Unsupported("inlining too deep (recursion without contract): " + str(body.get("name")))
        if sum(1 for f in self.frames if f.decl is body) >= 1 and not self.M.allow_recursion(body):
            raise Unsupported("recursive function without contract: " + str(body.get("name")))
        if self.depth > 0:
            self.inlined.add(self.tu.qualname(body))
        fr = Frame(body, this, base=base)
        if closure is not None:
            fr.env.update(closure.caps.get("env", {}))
            fr.namecap.update(closure.caps.get("names", {}))
        params = [c for c in children(body) if c.get("kind") == "ParmVarDecl"]
        if len(params) < len(args):
            raise Unsupported("variadic call")
        self.frames.append(fr)
        self.depth += 1
        try:
            for p, a in itertools.zip_longest(params, args):
                if a is None:
                    a = self.default_arg(p)
                self.bind_param(fr, p, a)
            if body["kind"] == "CXXConstructorDecl":
                self.ctor_inits(body, fr)
            try:
                if not any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in children(body)):
                    if body.get("explicitlyDefaulted"):
                        return VOID
                    raise Unsupported("no body " + str(body.get("name")))
                for c in children(body):
                    if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                        self.stmt(c)
            except ReturnEx as r:
                return r.v
            return VOID
        finally:
            self.frames.pop()
            self.depth -= 1

    def default_arg(self, p):
        init = [c for c in children(p) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
        if not init:
            raise Unsupported("missing argument for " + p.get("name", "?"))
        return self.eval(init[0])

    def bind_param(self, fr, p, a):
        t = parse(qt(p))
        if t.ref:
            fr.env[p["id"]] = self.loc(a, p.get("name", "arg"))
        else:
            v = self.val(a)
            fr.env[p["id"]] = self.alloc(v, p.get("name", "arg"))

    def class_decl(self, ct):
        ds = self.tu.records.get(ct.name)
        if not ds:
            return None
        if len(ds) == 1:
            return ds[0]
        inst = [d for d in ds if not self.tu.in_template_pattern(d)]
        if len(inst) == 1: return inst[0]
        if len(inst) > 1 and all(d["kind"] == "CXXRecordDecl" for d in inst):
            # class nested in several instantiations: the one of the function being executed
            owners = set()
            for f in self.frames:
                o = self.tu.owner(f.decl) if f.decl else None
                while o is not None:
                    owners.add(o["id"]); o = self.tu.parent.get(o["id"])
            for d in inst:
                p = self.tu.parent.get(d["id"])
                if p is not None and p["id"] in owners: return d
        # template specialisations: compare the arguments
        for d in ds:
            if d["kind"] != "ClassTemplateSpecializationDecl":
                continue
            targs = [c for c in children(d) if c.get("kind") == "TemplateArgument"]
            if len(targs) >= len(ct.args):
                ok = True
                for c, a in zip(targs, ct.args):
                    s = c.get("type", {}).get("qualType")
                    if s is not None:
                        if parse(qt(c)) != a: ok = False
                if ok: return d
        return ds[0]

    def fields_of(self, ct):
        d = self.class_decl(ct)
        if d is None:
            return None
        out = []
        for b in d.get("bases", ()):
            bt = parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            bf = self.fields_of(bt)
            if bf:
                out += bf
        out += [c for c in children(d) if c.get("kind") == "FieldDecl"]
        return out

    def ctor_inits(self, body, fr):
        this = fr.this
        inits = [c for c in children(body) if c.get("kind") == "CXXCtorInitializer"]
        for c in inits:
            ai = c.get("anyInit")
            e = children(c)[0]
            if ai is not None:
                floc = this.ext(("f", ai["name"]))
                ft = parse(ai["type"].get("desugaredQualType") or ai["type"]["qualType"])
                if e.get("kind") == "CXXDefaultInitExpr":
                    fd = self.tu.by_id.get(ai["id"])
                    e = [x for x in children(fd)][0]
                if ft.ref:
                    while e.get("kind") == "InitListExpr" and len(children(e)) == 1: e = children(e)[0]
                    self.write(floc, RefV(self.loc(self.eval(e))))
                else:
                    self.write(floc, self.init_value(e, ft))
            else:
                bt = c.get("baseInit")
                if bt is None:
                    # delegating constructor
                    while e.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"): e = children(e)[0]
                    own = self.tu.owner(body)
                    ctor = self.find_ctor(own, e)
                    if e.get("kind") != "CXXConstructExpr" or ctor is None: raise Unsupported("delegating constructor")
                    self.call(ctor, this, self.args_of(children(e)), e)
                    continue
                bct = parse(bt.get("desugaredQualType") or bt["qualType"])
                self.construct_into(this, bct, e)

    def construct_into(self, this, ct, e):
        while e.get("kind") in ("ExprWithCleanups",):
            e = children(e)[0]
        if e.get("kind") == "CXXConstructExpr":
            d = self.class_decl(ct)
            if d is None:
                r = self.M.construct_base(this, ct, e)
                return
            ctor = self.find_ctor(d, e)
            args = [self.eval(a) for a in children(e)]
            if ctor is not None:
                self.call(ctor, this, args, e)
            return
        if e.get("kind") == "CXXInheritedCtorInitExpr":
            raise Unsupported("inherited ctor")
        raise Unsupported("base init " + e.get("kind"))

    def find_ctor(self, d, e):
        want = e.get("ctorType", {}).get("qualType")
        cands = []

        def rec(n):
            for c in children(n):
                if c.get("kind") == "CXXConstructorDecl":
                    cands.append(c)
                elif c.get("kind") == "FunctionTemplateDecl":
                    rec(c)
        rec(d)
        m = [c for c in cands if c.get("type", {}).get("qualType") == want]
        if not m:
            return None
        for c in m:
            if c.get("mangledName") in self.tu.bodies:
                return self.tu.bodies[c["mangledName"]]
        return m[0]

    def new_struct(self, ct):
        fs = self.fields_of(ct)
        if fs is None:
            raise Unsupported("unknown class %s" % ct)
        return StructV(ct, {f["name"]: None if parse(qt(f)).ref else self.M.default_of(parse(qt(f)), True) for f in fs})

    def construct(self, ct, node, args_nodes):
        """CXXConstructExpr / CXXTemporaryObjectExpr of type ct; returns a value"""
        r = self.M.construct(self, ct, node, args_nodes)
        if r is not None:
            return r
        d = self.class_decl(ct)
        if d is None:
            raise Unsupported("construct %s" % ct)
        ctor = self.find_ctor(d, node)
        cm = node.get("ctorType", {}).get("qualType", "")
        args = self.args_of(args_nodes)
        # implicit copy / move
        if len(args) == 1 and (ctor is None or not (_has_body(self.tu, ctor) or self.M.contract_for(self, ctor))) and self._same_class(args_nodes[0], ct):
            src = args[0]
            v = self.val(src)
            if "&&" in cm and isinstance(src, Loc):
                self.move_from(src)
            return self.copy_value(v)
        this = self.alloc(self.new_struct(ct), "obj")
        if ctor is None and not args:
            self.default_init(this, ct)
            return self.read(this)
        if ctor is None:
            raise Unsupported("no ctor for %s %s" % (ct, cm))
        if not _has_body(self.tu, ctor) and self.M.contract_for(self, ctor) is None:
            if not args:
                self.default_init(this, ct)
                return self.read(this)
            raise Unsupported("ctor without body for %s %s" % (ct, cm))
        self.call(ctor, this, args, node)
        return self.read(this)

    def default_init(self, this, ct):
        for f in self.fields_of(ct):
            ini = [c for c in children(f) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            ft = parse(qt(f))
            if ini and f.get("hasInClassInitializer"):
                fr = Frame(None, this)
                self.frames.append(fr)
                try:
                    self.write(this.ext(("f", f["name"])), self.init_value(ini[0], ft))
                finally:
                    self.frames.pop()

    def _same_class(self, node, ct):
        return parse(qt(node)).bare() == ct.bare()

    def copy_value(self, v):
        return v

    def move_from(self, loc):
        """the source of a move is left valid but unspecified"""
        v = self.val(loc)
        nv = self.M.moved(v)
        if nv is not v:
            self.write(self.deref(loc), nv)

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n.get("kind")
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(n)
        j = self.join_for(n, k)
        if j is not None:
            return self.joined(n, j, None, lambda: self.eval(n))
        if k is None:
            return
        self.eval(n)      # expression statement

    def s_CompoundStmt(self, n):
        for c in children(n):
            self.stmt(c)

    def s_NullStmt(self, n): pass

    def s_AttributedStmt(self, n):
        for c in children(n):
            if not c.get("kind", "").endswith("Attr"):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for d in children(n):
            k = d.get("kind")
            if k == "VarDecl":
                self.vardecl(d)
            elif k == "DecompositionDecl":
                self.decomposition(d)
            elif k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl", "EnumDecl"):
                pass
            else:
                raise Unsupported("decl " + k)

    def vardecl(self, d):
        t = parse(qt(d))
        fr = self.frames[-1]
        if t.name == "auto":
            t = CT("auto", (), t.ref)
        ini = [c for c in children(d) if c.get("kind") and not c["kind"].endswith("Attr")]
        if d.get("storageClass") == "static" and ini:
            pass
        if t.ref:
            fr.env[d["id"]] = self.loc(self.eval(ini[0]), d.get("name", "ref"))
            return
        if ini:
            v = self.init_value(ini[0], t)
        else:
            v = self.M.default_of(t, False)
        fr.env[d["id"]] = self.alloc(v, d.get("name", "v"))

    def decomposition(self, d):
        t = parse(qt(d))
        ini = [c for c in children(d) if c.get("kind") and not c["kind"].startswith("Binding")]
        v = self.eval(ini[0])
        loc = self.loc(v, "dec") if t.ref else self.alloc(self.val(v), "dec")
        fr = self.frames[-1]
        fr.env[d["id"]] = loc
        binds = [c for c in children(d) if c.get("kind") == "BindingDecl"]
        names = self.M.tuple_fields(self.val(loc), len(binds))
        for b, nm in zip(binds, names):
            fl = loc.ext(("f", nm))
            fr.env[b["id"]] = self.deref(fl)
            # holding variable of tuple-like bindings
            for c in children(b):
                if c.get("kind") == "VarDecl":
                    fr.env[c["id"]] = fr.env[b["id"]]

    def init_value(self, e, t):
        """value of initialiser e for an object of type t"""
        v = self.eval(e)
        if isinstance(v, InitList):
            return self.M.from_init_list(v, t)
        return self.val(v)

    def cond(self, e):
        v = self.val(self.eval(e))
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if z3.is_bool(v): return v
        if z3.is_bv(v): return v != 0
        if z3.is_int(v): return v != 0
        if isinstance(v, Ptr):
            return z3.BoolVal(v.loc is not None)
        return self.M.truth(v)

    def s_IfStmt(self, n):
        cs = list(children(n))
        if n.get("hasInit"):
            self.stmt(cs.pop(0))
        if n.get("hasVar"):
            self.stmt(cs.pop(0))
        c = cs.pop(0)
        if n.get("isConstexpr"):
            b = self._const_eval(c)
        else:
            q = self.cond(c)
            if not n.get("hasElse"):
                if self.no_effect(q, cs[0]): return
                j = self.join_for(n, "IfStmt")
                if j is not None: return self.joined(n, j, q, lambda: self.stmt(cs[0]))
            b = self.choose(q, "if")
        if b:
            self.stmt(cs[0])
        elif n.get("hasElse") and len(cs) > 1:
            self.stmt(cs[1])

    def no_effect(self, q, body):
        """runs a branch that turns out to change nothing, so that the paths need not be told apart"""
        if self.pure or self.generic or getattr(self, "in_trial", False) or z3.is_true(simp(q)) or z3.is_false(simp(q)): return False
        if not self.may_be_idle(body): return False
        prefix, replay = self.prefix, self.in_prefix()
        nkey = self.nkey
        if not self.feasible(q): return False
        npc, nob, ndec, nroots = len(self.pc), len(self.obls), list(self.decisions), set(self.store)
        st, nd, npend, frames, env = dict(self.store), self.depth, len(self.pending), len(self.frames), dict(self.frames[-1].env) if self.frames else None
        pcset, gh, ll, nf = set(self.pcset), dict(self.ghost), len(self.loopstack), dict(self.nfresh)
        ok = False
        nx = len(getattr(self, "ghost_exc", []))
        def undo():
            del self.pc[npc:]; self.pcset = pcset; self.store = st; self.ghost = gh; del self.loopstack[ll:]
        self.in_trial = True; self.prefix = []
        try:
            self.assume(q)
            self.stmt(body)
            same = lambda a, b: a is b or z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
            ok = self.decisions == ndec and all(same(self.store.get(r), st[r]) for r in nroots) and all(z3.is_expr(v) and z3.is_expr(self.ghost.get(g)) and v.eq(self.ghost[g]) or v is self.ghost.get(g) for g, v in gh.items())
        except (PathEnd, CppThrow, ReturnEx, BreakEx, ContinueEx, NotPure, Restart): pass
        del self.frames[frames:]; self.depth = nd
        if env is not None: self.frames[-1].env = env
        if hasattr(self, "ghost_exc"): del self.ghost_exc[nx:]
        del self.pending[npend:]
        self.decisions = ndec
        undo()
        self.in_trial = False; self.prefix = prefix
        self.nfresh = nf; self.nkey = nkey
        if not ok or replay: del self.obls[nob:]; del self.tags[nob:]
        return ok

    def may_be_idle(self, body):
        c = self.idle.get(body["id"])
        if c is None:
            c = True
            todo = [body]
            while todo and c:
                x = todo.pop()
                k = x.get("kind")
                if k in ("CXXThrowExpr", "ReturnStmt", "BreakStmt", "ContinueStmt", "LambdaExpr", "ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt", "CXXTryStmt", "CompoundAssignOperator", "IfStmt", "SwitchStmt"): c = False
                elif k == "BinaryOperator" and x.get("opcode") == "=": c = False
                elif k == "UnaryOperator" and x.get("opcode") in ("++", "--"): c = False
                elif k == "MemberExpr" and x.get("name") in ("push_back", "emplace_back", "insert", "emplace", "splice", "clear", "pop_back", "erase", "set", "append", "assign", "swap"): c = False
                elif k == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") in ("operator=", "operator<<", "operator+=", "operator++"): c = False
                todo += children(x)
            self.idle[body["id"]] = c
        return c

    def _const_eval(self, c):
        if c.get("kind") == "ConstantExpr" and "value" in c:
            return c["value"] not in ("0", "false")
        return self.choose(self.cond(c))

    def s_ReturnStmt(self, n):
        cs = children(n)
        if not cs:
            raise ReturnEx(VOID)
        ft = self.frames[-1].decl
        v = self.eval(cs[0])
        try: rt = self._ret_type(ft)
        except ValueError: rt = parse(cs[0]["type"].get("desugaredQualType", cs[0]["type"]["qualType"]))      # a type clang prints through template arguments
        if rt is not None and rt.ref:
            raise ReturnEx(self.loc(v))
        if isinstance(v, InitList):
            v = self.M.from_init_list(v, rt)
        raise ReturnEx(self.val(v) if v is not VOID else VOID)

    def _ret_type(self, decl):
        t = decl.get("type", {}).get("qualType", "")
        t = decl.get("type", {}).get("desugaredQualType", t)
        return ret_type(t)

    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()

    def s_WhileStmt(self, n):
        cs = list(children(n))
        if n.get("hasVar"):
            raise Unsupported("while with variable")
        self.loop(n, None, cs[0], None, cs[1])

    def s_DoStmt(self, n):
        cs = children(n)
        first = [True]
        self.loop(n, None, cs[1], None, cs[0], do=True)

    def s_ForStmt(self, n):
        cs = children(n)
        init, var, cond, inc, body = cs
        if init.get("kind"):
            self.stmt(init)
        self.loop(n, None, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)

    def s_CXXForRangeStmt(self, n):
        cs = children(n)
        init, rng, beg, end, cond, inc, var, body = cs
        if init.get("kind"):
            self.stmt(init)
        rv = [c for c in children(rng) if c["kind"] == "VarDecl"][0]
        rexpr = [c for c in children(rv) if c.get("kind")][0]
        r = self.eval(rexpr)
        rloc = self.loc(r, "range")
        vd = children(var)[0]
        self.range_loop(n, rloc, vd, body)

    def range_loop(self, n, rloc, vd, body):
        it = self.M.iteration(self, rloc)     # object with .len() and .elem(k) -> Loc/operand
        def bind(k):
            t = parse(qt(vd))
            e = it.elem(k)
            if vd["kind"] == "DecompositionDecl":
                loc = self.loc(e, "it") if t.ref else self.alloc(self.val(e), "it")
                self.frames[-1].env[vd["id"]] = loc
                binds = [c for c in children(vd) if c.get("kind") == "BindingDecl"]
                names = self.M.tuple_fields(self.val(loc), len(binds))
                for b, nm in zip(binds, names):
                    self.frames[-1].env[b["id"]] = self.deref(loc.ext(("f", nm)))
                    for c in children(b):
                        if c.get("kind") == "VarDecl":
                            self.frames[-1].env[c["id"]] = self.frames[-1].env[b["id"]]
                return
            if t.ref:
                self.frames[-1].env[vd["id"]] = self.loc(e, vd.get("name", "it"))
            else:
                # copy (possibly with conversion)
                self.frames[-1].env[vd["id"]] = self.alloc(self.val(e), vd.get("name", "it"))
        self.loop(n, it, None, None, body, bind=bind)

    def loop(self, n, it, cond, inc, body, bind=None, do=False, action=None):
        kidx = [0]
        # --- statically bounded loops are simply executed
        def test(k):
            if it is not None:
                return z3.IntVal(k) < it.len() if isinstance(k, int) else k < it.len()
            if cond is None:
                return z3.BoolVal(True)
            return self.cond(cond)

        def once(k):
            if bind is not None:
                bind(z3.IntVal(k) if isinstance(k, int) else k)
            if action is not None:
                action(z3.IntVal(k) if isinstance(k, int) else k)
                return
            try:
                self.stmt(body)
            except ContinueEx:
                pass
            if inc is not None:
                self.eval(inc)

        ln = None
        if it is not None:
            ln = simp(it.len())
        spec = self.M.loop_spec(self, n, it)
        static = (ln is not None and z3.is_int_value(ln))
        if spec is not None and getattr(spec, "unroll", 0):
            # every path through the loop is followed; it ends by itself within the given number of rounds
            k = 0
            try:
                while self.choose(test(k)):
                    if k >= spec.unroll: raise Unsupported("loop %s goes on after %d rounds" % (spec.name, k))
                    once(k)
                    k += 1
            except BreakEx:
                pass
            return
        if spec is None or (static and ln.as_long() <= 8):
            limit = 40
            k = 0
            try:
                while True:
                    if not (do and k == 0):
                        c = simp(test(k))
                        if not (z3.is_true(c) or z3.is_false(c)):
                            if self.entails(c): c = z3.BoolVal(True)
                            elif self.entails(z3.Not(c)): c = z3.BoolVal(False)
                            else:
                                raise Unsupported("loop without invariant in %s line %s" % (self.tu.qualname(self.frames[-1].decl) if self.frames[-1].decl else "?", self.line(n)))
                        if z3.is_false(c): break
                    if k >= limit:
                        raise Unsupported("loop without invariant (unrolling limit) in %s" % self.frames[-1].decl.get("name"))
                    once(k)
                    k += 1
            except BreakEx:
                pass
            return
        # --- invariant
        key = (n["id"], tuple(f.decl["id"] if f.decl else None for f in self.frames), tuple(str(d) for d in self.decisions), len(self.loopstack))
        mods = self.modsets.setdefault(key, {})
        entry = list(self.decisions)
        pre = dict(self.store)
        ctx = LoopCtx(self, n, it, pre, spec)
        ctx.k = z3.IntVal(0)
        ctx.entry_ghost = dict(self.ghost)
        ctx.mods = mods
        name = spec.name
        for lab, f in ctx.inv():
            self.check("%s/loop %s: invariant '%s' holds on entry" % (self.contract.name, name, lab), f, self.line(n))
        # havoc
        k = self.fresh("k", Int)
        ctx.k = k
        self.assume(k >= 0)
        for (root, path), kind in list(mods.items()):
            if root == "$ghost":
                g = self.ghost[path[0][1]]
                self.ghost[path[0][1]] = self.fresh("g_" + str(path[0][1]), g.sort())
                continue
            loc = Loc(root, [p for p in path])
            old = self.read(loc)
            au = self.autoinv.get(key, {}).get((root, path))
            if au is not None and (key, root, path) not in self.dropped:
                nv = au(self._pre_read(pre, root, path), k)
            else:
                nv = self.havoc_value(old, str(root).split("#")[0], kind)
            self.store[root] = self._wr(self.store[root], loc.path, nv)
        post_havoc = dict(self.store)
        post_ghost = dict(self.ghost)
        autos = self.autoinv.setdefault(key, {})
        if it is not None:
            self.assume(k <= it.len())
        for lab, f in ctx.inv():
            self.assume(f)
        self.loopstack.append(ctx)
        try:
            if do:
                raise Unsupported("do loop with invariant")
            t = self.choose(test(k), "loop")
            if not t:
                return      # loop exits; state is the invariant plus negated condition
            if it is not None:
                pass
            try:
                once(k)
            except BreakEx:
                return
        finally:
            self.loopstack.pop()
        # end of body: discover writes
        changed = []
        for root, v0 in post_havoc.items():
            v1 = self.store.get(root)
            if v1 is not v0:
                diff_values(v0, v1, (), changed, root)
        for g, v0 in post_ghost.items():
            if z3.is_expr(v0) and not self.ghost[g].eq(v0):
                changed.append(("$ghost", (("g", g),)))
        new = [c for c in changed if not covered(c, mods)]
        if new:
            for c in new:
                if c[0] != "$ghost" and any(st[0] == "i" and z3.is_expr(st[1]) for st in c[1]):
                    # element writes: the whole container is modified
                    p = []
                    for st in c[1]:
                        if st[0] in ("i", "m"): break
                        p.append(st)
                    c = (c[0], tuple(p))
                mods[c] = self.sample(self.read(Loc(*c))) if c[0] != "$ghost" else True
                if c[0] != "$ghost":
                    a = guess_auto(self._pre_read(post_havoc, *c), self.read(Loc(*c)))
                    if a is not None: autos[c] = a
            raise Restart(entry)
        # candidate (automatically found) invariants
        for (root, path), kind in list(mods.items()):
            a = autos.get((root, path))
            if a is not None and ((key, root, path) not in self.dropped):
                f = same_value(a(self._pre_read(pre, root, path), simp(k + 1)), self.read(Loc(root, path)))
                r = L.prove(self.pc, f, timeout=3)
                if r.status != "proved":
                    self.dropped.add((key, root, path))
                    raise Restart(entry)
                self.check("%s/loop %s: induction variable %s" % (self.contract.name, name, str(root).split("#")[0]), f, self.line(n))
        ctx.k = k + 1
        for lab, f in ctx.inv():
            self.check("%s/loop %s: invariant '%s' is preserved" % (self.contract.name, name, lab), f, self.line(n))
        raise PathEnd()

    def join_for(self, n, k):
        """the invariant under which what follows statement n is verified once, whether n was executed or not"""
        j = getattr(self.contract, "join", None)
        if j is None: return None
        return j[1] if j[0](self, n, k) else None

    def joined(self, n, inv, q, body):
        """a statement as a loop of at most one round: what it may change is arbitrary after it, up to the invariant"""
        key = (n["id"], tuple(f.decl["id"] if f.decl else None for f in self.frames), tuple(str(d) for d in self.decisions), "join")
        shared = self.modsets.setdefault(key[:2] + ("join",), {})
        mods = self.modsets.setdefault(key, {c: v for c, v in shared.items() if c[0] in self.store})
        entry = list(self.decisions)
        pre, gpre = dict(self.store), dict(self.ghost)
        ctx = LoopCtx(self, n, None, pre, None)
        ctx.k = z3.IntVal(0); ctx.mods = mods
        for lab, f in inv(ctx):
            self.check("%s/statement: '%s' holds before it" % (self.contract.name, lab), f, self.line(n))
        if self.choose(self.fresh("executed", z3.BoolSort()), "join"):
            if q is not None: self.assume(q)
            body()
            changed = []
            for root, v0 in pre.items():
                v1 = self.store.get(root)
                if v1 is not v0: diff_values(v0, v1, (), changed, root)
            for g, v0 in gpre.items():
                if z3.is_expr(v0) and not self.ghost[g].eq(v0): raise Unsupported("ghost state in a joined statement")
            new = [c for c in changed if not covered(c, mods)]
            if new:
                for c in new:
                    if any(st[0] == "i" and z3.is_expr(st[1]) for st in c[1]):
                        p = []
                        for st in c[1]:
                            if st[0] in ("i", "m"): break
                            p.append(st)
                        c = (c[0], tuple(p))
                    mods[c] = shared[c] = self.sample(self.read(Loc(*c)))
                raise Restart(entry)
            for lab, f in inv(ctx):
                self.check("%s/statement: '%s' holds after it" % (self.contract.name, lab), f, self.line(n))
            raise PathEnd()
        for (root, path), seen in list(mods.items()):
            loc = Loc(root, list(path))
            self.store[root] = self._wr(self.store[root], loc.path, self.havoc_value(self.read(loc), str(root).split("#")[0], seen))
        for lab, f in inv(ctx): self.assume(f)

    def _pre_read(self, store, root, path):
        v = store[root]
        for st in path:
            v = self.step_get(v, st)
        return v

    def sample(self, v):
        """v, with what its pointers point to in their place"""
        if isinstance(v, StructV): return StructV(v.ct, {f: self.sample(x) for f, x in v.f.items()})
        if isinstance(v, Ptr) and v.loc is not None:
            try: return self.val(v.loc)
            except Exception: return None
        return v

    def havoc_value(self, v, name, seen=None):
        """seen: a value the loop wrote there"""
        seen = seen if not isinstance(seen, bool) else None
        if z3.is_expr(v):
            return self.fresh("h_" + name, v.sort())
        if isinstance(v, StructV):
            return StructV(v.ct, {f: self.havoc_value(x, name + "." + f, seen.f.get(f) if isinstance(seen, StructV) else None) for f, x in v.f.items()})
        if isinstance(v, Iter):
            return Iter(v.loc, self.fresh("h_" + name, Int), v.rev)
        if isinstance(v, MapIter) and v.at is not None:
            return MapIter(v.loc, self.fresh("h_valid", Bool), self.fresh("h_key", v.key.sort()), self.fresh("h_at", v.at.sort()))
        if isinstance(v, Ptr):
            if v.loc is not None and v.loc.path and v.loc.path[-1][0] == "i":
                return Ptr(Loc(v.loc.root, v.loc.path[:-1] + (("i", self.fresh("h_" + name, Int)),)))
            # a pointer to an opaque object is a term of that sort, null among them
            p = next((x for x in (self.sample(v), seen) if z3.is_expr(x)), None)
            if p is not None and p.sort() in getattr(self.M, "pointer_sorts", ()): return self.fresh("h_" + name, p.sort())
        if isinstance(v, RefV):
            return v
        raise Unsupported("cannot havoc %r" % (v,))

    def line(self, n):
        r = n.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        return str(r.get("line", r.get("offset", "?")))

    def s_SwitchStmt(self, n):
        cs = list(children(n))
        if n.get("hasInit"): self.stmt(cs.pop(0))
        if n.get("hasVar"): self.stmt(cs.pop(0))
        c = self.val(self.eval(cs[0]))
        body = children(cs[1])
        # flatten labels
        flat = []     # list of (labels, stmt)
        def flatten(s):
            labels = []
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                ch = children(s)
                if s["kind"] == "CaseStmt":
                    labels.append(ch[0]); s = ch[-1]
                else:
                    labels.append(None); s = ch[0]
            return labels, s
        for s in body:
            flat.append(flatten(s))
        start = None
        default = None
        for i, (labels, s) in enumerate(flat):
            for l in labels:
                if l is None:
                    default = i
                    continue
                lv = self.val(self.eval(l))
                if self.choose(c == lv):
                    start = i
                    break
            if start is not None:
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for labels, s in flat[start:]:
                self.stmt(s)
        except BreakEx:
            pass

    def s_CXXTryStmt(self, n):
        cs = children(n)
        nframes = len(self.frames)
        depth = self.depth
        nl = len(self.loopstack)
        try:
            self.stmt(cs[0])
        except CppThrow as t:
            del self.frames[nframes:]
            self.depth = depth
            del self.loopstack[nl:]
            for h in cs[1:]:
                hs = children(h)
                vd = hs[0] if hs[0].get("kind") == "VarDecl" else None
                if vd is None and len(hs) > 1 or vd is None:
                    self.cur_exc_push(t.exc)
                    try:
                        self.stmt(hs[-1])
                    finally:
                        self.cur_exc_pop()
                    return
                ct = parse(qt(vd)).bare()
                if self.exc_matches(t.exc, ct):
                    loc = self.alloc(t.exc, "exc")
                    self.frames[-1].env[vd["id"]] = loc
                    self.cur_exc_push(t.exc)
                    try:
                        self.stmt(hs[-1])
                    finally:
                        self.cur_exc_pop()
                    return
            raise

    def cur_exc_push(self, e):
        self.ghost_exc = getattr(self, "ghost_exc", [])
        self.ghost_exc.append(e)

    def cur_exc_pop(self):
        self.ghost_exc.pop()

    def exc_matches(self, exc, ct):
        t = exc.ct
        while t is not None:
            if t.name == ct.name:
                return True
            t = self.base_of(t)
        return False

    def base_of(self, ct):
        if ct.name in EXC_BASES:
            return CT(EXC_BASES[ct.name])
        d = self.class_decl(ct)
        if d:
            for b in d.get("bases", ()):
                return parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
        return None

    # ---------------------------------------------------------------- expressions
    def eval(self, n):
        k = n["kind"]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression kind " + k)
        return f(n)

    def _pass(self, n):
        return self.eval(children(n)[0])

    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = _pass
    e_FullExpr = _pass

    def e_SubstNonTypeTemplateParmExpr(self, n):
        for c in reversed(children(n)):
            if c.get("kind") and not c["kind"].endswith("Decl"):
                return self.eval(c)
        raise Unsupported("SubstNonTypeTemplateParmExpr")

    def e_ConstantExpr(self, n):
        return self.eval(children(n)[0])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.eval(children(n)[0])
        if isinstance(v, Loc): return v
        if isinstance(v, InitList):
            v = self.M.from_init_list(v, parse(qt(n)))
        return self.alloc(v, "tmp")

    def e_CXXDefaultArgExpr(self, n):
        if children(n):
            return self.eval(children(n)[0])
        raise DefaultArg()

    def e_CXXDefaultInitExpr(self, n):
        if children(n): return self.eval(children(n)[0])
        raise Unsupported("default init expr")

    def e_IntegerLiteral(self, n):
        return self.M.int_const(parse(qt(n)), int(n["value"]))

    def e_UserDefinedLiteral(self, n):
        for c in children(n)[1:]:
            return self.eval(c)
        raise Unsupported("user-defined literal")

    def e_CharacterLiteral(self, n):
        return self.M.int_const(parse(qt(n)), int(n["value"]))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(n["value"] in (True, "true"))

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def e_GNUNullExpr(self, n): return Ptr(None)

    def e_FloatingLiteral(self, n):
        return self.M.float_const(n["value"])

    def e_StringLiteral(self, n):
        return strlit(decode_cstr(n["value"]))

    def e_CXXThisExpr(self, n):
        f = self.frames[-1]
        while f is not None:
            if f.this is not None:
                return Ptr(f.this)
            f = f.base
        raise Unsupported("this")

    def e_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        k = rd["kind"]
        if k in ("ParmVarDecl", "VarDecl", "BindingDecl", "DecompositionDecl"):
            l = self.frames[-1].lookup(rd["id"])
            if l is not None:
                return l
            l = self.frames[-1].lookup_name(rd.get("name"))
            if l is not None:
                return l
            return self.global_var(rd, n)
        if k == "EnumConstantDecl":
            return self.M.enum_const(parse(qt(n)), rd)
        if k in FUNC_KINDS:
            return FnRef(rd)
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        raise Unsupported("ref to " + k)

    def global_var(self, rd, n):
        if rd["id"] in self.M.globals:
            v = self.M.globals[rd["id"]]
            key = "global:" + rd["id"]
            if key not in self.store: self.store[key] = v
            return Loc(key)
        d = self.tu.by_id.get(rd["id"])
        key = "global:" + (rd.get("name") or "?") + rd["id"]
        if key in self.store:
            return Loc(key)
        v = self.M.global_value(rd, d)
        if v is None:
            if d is None:
                raise Unsupported("global variable " + str(rd.get("name")))
            t = parse(qt(d))
            ini = [c for c in children(d) if c.get("kind") and not c["kind"].endswith("Attr")]
            if not ini:
                # declared in class, defined elsewhere
                raise Unsupported("global without initialiser " + str(rd.get("name")))
            fr = Frame(None)
            self.frames.append(fr)
            try:
                v = self.init_value(ini[0], t)
            finally:
                self.frames.pop()
        self.store[key] = v
        return Loc(key)

    def e_MemberExpr(self, n):
        base = children(n)[0]
        b = self.eval(base)
        if n.get("isArrow"):
            p = self.val(b)
            if isinstance(p, Ptr):
                if p.loc is None:
                    self.check("%s: null pointer dereference" % self.contract.name, z3.BoolVal(False), self.line(n))
                    raise PathEnd()
                b = p.loc
            else:
                b = self.M.pointee(self, p, b)
        md = self.tu.by_id.get(n.get("referencedMemberDecl"))
        if md is not None and md.get("kind") == "VarDecl":
            return self.global_var(md, n)
        bl = self.loc(b)
        return self.deref(self.M.member(self, bl, n["name"], n))

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n.get("castKind")
        e = children(n)[0]
        if ck == "ToVoid":
            self.eval(e)
            return VOID
        if ck == "ArrayToPointerDecay":
            v = self.eval(e)
            if isinstance(v, Loc):
                vv = self.val(v)
                if z3.is_expr(vv) and vv.sort() == Str.sort:
                    return vv
                return Ptr(v.ext(("i", z3.IntVal(0))))
            return v
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.eval(e)
        if ck == "LValueToRValue":
            v = self.eval(e)
            return self.val(v)
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.eval(e)
        if ck == "IntegralCast":
            return self.M.int_cast(self.val(self.eval(e)), parse(qt(e)), parse(qt(n)))
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return self.as_bool(self.val(self.eval(e)))
        if ck == "IntegralToFloating":
            return self.M.int_to_float(self.val(self.eval(e)), parse(qt(e)))
        if ck == "FloatingCast":
            return self.val(self.eval(e))
        if ck == "NullToPointer":
            return Ptr(None)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return self.eval(e)
        if ck == "FloatingToIntegral":
            return self.M.float_to_int(self.val(self.eval(e)), parse(qt(n)))
        if ck == "BitCast" or ck == "Dynamic":
            return self.M.ptr_cast(self, n, self.eval(e))
        raise Unsupported("cast " + str(ck))

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = children(n)
        if op == "=":
            rv = self.eval(b)
            lv = self.eval(a)
            self.write(self.loc(lv), self.val(rv))
            return lv
        if op in ("&&", "||"):
            x = self.as_bool(self.val(self.eval(a)))
            xs = simp(x)
            if op == "&&":
                if z3.is_false(xs): return xs
                if z3.is_true(xs): return self.as_bool(self.val(self.eval(b)))
            else:
                if z3.is_true(xs): return xs
                if z3.is_false(xs): return self.as_bool(self.val(self.eval(b)))
            y = self.pure_eval(b, x if op == "&&" else z3.Not(x))
            if y is not None:
                return z3.And(x, y) if op == "&&" else z3.Or(x, y)
            if op == "&&":
                if not self.choose(x): return z3.BoolVal(False)
            else:
                if self.choose(x): return z3.BoolVal(True)
            return self.as_bool(self.val(self.eval(b)))
        if op == ",":
            self.eval(a)
            return self.eval(b)
        x = self.val(self.eval(a)); y = self.val(self.eval(b))
        return self.M.binop(self, op, x, y, parse(qt(a)), parse(qt(b)), parse(qt(n)), n)

    def pure_eval(self, e, guard, as_bool=True):
        """evaluate e as a pure boolean under an extra hypothesis; None if it forks, writes or throws"""
        snap = (dict(self.store), list(self.pc), set(self.pcset), self.nkey, dict(self.nfresh), len(self.decisions), list(self.frames), self.depth, len(self.obls), dict(self.ghost), list(self.trace))
        self.pure += 1
        try:
            self.pc = list(self.pc) + [guard]
            v = self.val(self.eval(e))
            if as_bool: v = self.as_bool(v)
            ok = True
        except (NotPure, CppThrow, PathEnd):
            ok = False
            v = None
        finally:
            self.pure -= 1
            self.frames[:] = snap[6]
            self.depth = snap[7]
        nobl = len(self.obls)
        if ok:
            newfacts = [f for f in self.pc[len(snap[1]) + 1:]]
            self.pc = snap[1]; self.pcset = snap[2]
            for f in newfacts:
                self.assume(z3.Implies(guard, f))
            return v
        self.store = snap[0]; self.pc = snap[1]; self.pcset = snap[2]; self.nkey = snap[3]; self.nfresh = snap[4]
        del self.obls[snap[8]:]; del self.tags[snap[8]:]
        self.ghost = snap[9]; self.trace = snap[10]
        return None

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = children(n)
        lv = self.loc(self.eval(a))
        x = self.val(lv); y = self.val(self.eval(b))
        ct = parse(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType") or qt(n))
        at = parse(qt(a)); bt = parse(qt(b))
        lt = parse(n.get("computeLHSType", {}).get("desugaredQualType") or n.get("computeLHSType", {}).get("qualType") or qt(a))
        if z3.is_expr(x) and (z3.is_bv(x) or z3.is_int(x)):
            x = self.M.int_cast(x, at, lt)
        r = self.M.binop(self, op, x, y, lt, bt, ct, n)
        if z3.is_expr(r) and (z3.is_bv(r) or z3.is_int(r)):
            r = self.M.int_cast(r, ct, at)
        self.write(lv, r)
        return lv

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        e = children(n)[0]
        t = parse(qt(e))
        if op == "&":
            v = self.eval(e)
            if isinstance(v, FnRef): return v
            r = self.M.address_of(self, v)
            if r is not None: return r
            return Ptr(self.loc(v))
        if op == "*":
            p = self.val(self.eval(e))
            if isinstance(p, Ptr):
                if p.loc is None:
                    self.check("%s: null pointer dereference" % self.contract.name, z3.BoolVal(False), self.line(n))
                    raise PathEnd()
                return p.loc
            return self.M.deref_value(self, p, n)
        if op == "!":
            return z3.Not(self.as_bool(self.val(self.eval(e))))
        if op in ("++", "--"):
            lv = self.loc(self.eval(e))
            old = self.val(lv)
            one = self.M.int_const(t, 1) if t.ptr == 0 else z3.IntVal(1)
            nv = self.M.binop(self, "+" if op == "++" else "-", old, one, t, t, t, n)
            self.write(lv, nv)
            return old if n.get("isPostfix") else lv
        v = self.val(self.eval(e))
        if op == "-":
            if z3.is_bv(v) and z3.is_bv_value(v):
                return simp(-v)
            return self.M.neg(v)
        if op == "+": return v
        if op == "~": return ~v
        raise Unsupported("unary " + op)

    def e_ConditionalOperator(self, n):
        c, a, b = children(n)
        cv = simp(self.cond(c))
        if not (z3.is_true(cv) or z3.is_false(cv)) and n.get("valueCategory") == "prvalue":
            x = self.pure_eval(a, cv, False)
            if z3.is_expr(x):
                y = self.pure_eval(b, z3.Not(cv), False)
                if z3.is_expr(y) and y.sort() == x.sort():
                    return z3.If(cv, x, y)
        t = self.choose(cv)
        return self.eval(a if t else b)

    def e_ArraySubscriptExpr(self, n):
        a, b = children(n)
        p = self.val(self.eval(a)); i = self.val(self.eval(b))
        i = self.M.to_index(i, parse(qt(b)))
        if isinstance(p, Ptr) and p.loc is not None and p.loc.path and p.loc.path[-1][0] == "i":
            j = simp(p.loc.path[-1][1] + i)
            base = Loc(p.loc.root, p.loc.path[:-1])
            self.bounds(base, j, n)
            return base.ext(("i", j))
        if z3.is_expr(p) and p.sort() == Str.sort:
            return self.alloc(Str.at(p, i), "ch")
        raise Unsupported("subscript of %r" % (p,))

    def bounds(self, base, j, n):
        v = self.val(base)
        ln = self.M.seq_len(v)
        self.check("%s: index within bounds" % self.contract.name, z3.And(j >= 0, j < ln), self.line(n))
        self.assume(z3.And(j >= 0, j < ln))

    def e_InitListExpr(self, n):
        t = parse(qt(n))
        if t.name == "std::initializer_list":
            pass
        items = [c for c in children(n) if c.get("kind")]
        r = self.M.init_list_expr(self, t, n, items)
        if r is not None:
            return r
        fs = self.fields_of(t)
        if fs is not None:
            vals = {}
            # one-element list of the same class = copy
            for f, c in itertools.zip_longest(fs, items):
                ft = parse(qt(f))
                if c is None or c.get("kind") == "ImplicitValueInitExpr":
                    vals[f["name"]] = self.M.default_of(ft, False, f)
                elif c.get("kind") == "CXXDefaultInitExpr":
                    ini = [x for x in children(f) if x.get("kind")]
                    vals[f["name"]] = self.init_value(ini[0], ft)
                elif ft.ref:
                    vals[f["name"]] = RefV(self.loc(self.eval(c)))
                else:
                    vals[f["name"]] = self.init_value(c, ft)
            return StructV(t.bare(), vals)
        if len(items) == 1 and not t.args:
            return self.val(self.eval(items[0]))
        if not items:
            return self.M.default_of(t, False)
        return InitList([self.eval(c) for c in items])

    def e_CXXStdInitializerListExpr(self, n):
        v = self.eval(children(n)[0])
        return self.val(v)

    def e_ImplicitValueInitExpr(self, n):
        return self.M.default_of(parse(qt(n)), False)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXConstructExpr(self, n):
        t = parse(qt(n)).bare()
        return self.construct(t, n, children(n))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n):
        cs = children(n)
        if self.pure: raise NotPure()
        if not cs:
            raise CppThrow(self.ghost_exc[-1])
        v = self.val(self.eval(cs[0]))
        if isinstance(v, ExcV):
            raise CppThrow(v)
        raise CppThrow(ExcV(parse(qt(cs[0])).bare(), v))

    def args_of(self, nodes, decl=None):
        out = []
        for i, a in enumerate(nodes):
            if a.get("kind") == "CXXDefaultArgExpr" and not children(a):
                out.append(None)
            else:
                out.append(self.eval(a))
        while out and out[-1] is None:
            out.pop()
        return out

    def e_CallExpr(self, n):
        cs = children(n)
        callee = self.callee(cs[0])
        if isinstance(callee, FnRef):
            rd = callee.decl
            d = self.tu.by_id.get(rd["id"])
            if d is not None and not self.M.is_model(self.tu.qualname(d)):
                return self.call(d, None, self.args_of(cs[1:]), n)
            return self.M.call_free(self, rd, n, cs[1:])
        return self.call_value(callee, cs[1:], n)

    def callee(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            n = children(n)[0]
        if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] in FUNC_KINDS:
            return FnRef(n["referencedDecl"])
        return self.val(self.eval(n))

    def call_value(self, f, arg_nodes, n):
        args = self.args_of(arg_nodes)
        return self.apply_value(f, args, n)

    def apply_value(self, f, args, n=None):
        f = self.val(f)
        if isinstance(f, Closure):
            return self.inline(f.op, f.caps.get("this"), args, n, base=f.frame, closure=f)
        if isinstance(f, BoundFn):
            return f.fn(self, args)
        if isinstance(f, FnRef):
            d = self.tu.by_id.get(f.decl["id"])
            return self.call(d, None, args, n)
        if isinstance(f, StructV):
            # functor object
            d = self.class_decl(f.ct)
            for c in children(d):
                if c.get("name") == "operator()":
                    return self.call(c, self.loc(f), args, n)
        return self.M.apply_opaque(self, f, args, n)

    def e_CXXMemberCallExpr(self, n):
        cs = children(n)
        m = cs[0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            m = children(m)[0]
        if m["kind"] != "MemberExpr":
            if m["kind"] == "BinaryOperator":
                return self.M.ptr_member_call(self, m, n, cs[1:])
            raise Unsupported("member call via " + m["kind"])
        base = children(m)[0]
        b = self.eval(base)
        obj = None
        if m.get("isArrow"):
            p = self.val(b)
            if isinstance(p, Ptr):
                if p.loc is None:
                    self.check("%s: null pointer dereference" % self.contract.name, z3.BoolVal(False), self.line(n))
                    raise PathEnd()
                obj = p.loc
            else:
                obj = self.M.pointee(self, p, b)
        else:
            obj = b
        obj = self.loc(obj) if not isinstance(obj, Loc) else self.deref(obj)
        bt = parse(qt(base))
        if m.get("isArrow"):
            bt = bt.pointee() if bt.ptr else bt
        d = self.tu.by_id.get(m.get("referencedMemberDecl"))
        if d is not None and not self.M.is_model_type(bt, self.tu.qualname(d)):
            return self.call(d, obj, self.args_of(cs[1:]), n)
        return self.M.call_member(self, obj, bt, m["name"], n, cs[1:], d)

    def e_CXXOperatorCallExpr(self, n):
        cs = children(n)
        callee = cs[0]
        while callee["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            callee = children(callee)[0]
        rd = callee["referencedDecl"]
        d = self.tu.by_id.get(rd["id"])
        if rd["name"] == "operator()" :
            f = self.eval(cs[1])
            fv = self.val(f)
            if isinstance(fv, (Closure, BoundFn, FnRef)):
                return self.apply_value(fv, self.args_of(cs[2:]), n)
            if d is not None:
                return self.call(d, self.loc(f), self.args_of(cs[2:]), n)
            return self.M.apply_opaque(self, fv, self.args_of(cs[2:]), n)
        if d is not None and not self.M.is_model_type(parse(qt(cs[1])), self.tu.qualname(d)):
            if d["kind"] == "CXXMethodDecl":
                ob = self.loc(self.eval(cs[1]))
                if not _has_body(self.tu, d) and rd["name"] == "operator=" and self.M.contract_for(self, d) is None:
                    src = self.eval(cs[2])
                    v = self.val(src)
                    if "&&" in d["type"]["qualType"] and isinstance(src, Loc):
                        self.move_from(src)
                    self.write(ob, v)
                    return ob
                return self.call(d, ob, self.args_of(cs[2:]), n)
            return self.call(d, None, self.args_of(cs[1:]), n)
        return self.M.call_operator(self, rd["name"], n, cs[1:])

    def e_LambdaExpr(self, n):
        rec = children(n)[0]
        op = [c for c in children(rec) if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        tmpl = [c for c in children(rec) if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()"]
        fields = [c for c in children(rec) if c["kind"] == "FieldDecl"]
        inits = children(n)[1:1 + len(fields)]
        caps = {"env": {}, "names": {}}
        icaps = init_captures(self.tu, n)
        for f, e in zip(fields, inits):
            ft = parse(qt(f))
            ids = _declrefs(e)
            if e.get("kind") == "CXXThisExpr":
                caps["this"] = self.val(self.eval(e)).loc
                continue
            if ft.ref:
                loc = self.loc(self.eval(e))
            else:
                loc = self.alloc(self.init_value(e, ft), "cap")
            if f.get("name"):
                caps["names"][f["name"]] = loc
            nm = captured_name(self.tu, f) if icaps else None
            if nm in icaps:
                caps["env"][icaps[nm]] = loc; caps["names"].setdefault(nm, loc)
                caps.setdefault("list", []).append(loc)
                continue
            for i, nm in ids[:1]:
                caps["env"][i] = loc
                caps["names"].setdefault(nm, loc)
            caps.setdefault("list", []).append(loc)
        # init-captures: the body refers to a VarDecl that is not otherwise declared
        body = [c for c in children(n) if c.get("kind") == "CompoundStmt"]
        opd = op[0] if op else None
        if opd is None:
            cands = [self.tu.by_id.get(c["id"], c) for c in children(tmpl[0]) if c.get("kind") == "CXXMethodDecl"]
            inst = [c for c in cands if _has_body(self.tu, c) and not any("auto" in qt(p) for p in children(c) if p.get("kind") == "ParmVarDecl")]
            if len(inst) == 1: opd = self.tu.bodies.get(inst[0].get("mangledName"), inst[0])
            else: raise Unsupported("generic lambda with %d instantiations" % len(inst))
        inner_names = set()
        frame = self.frames[-1]
        return Closure(opd, frame, caps, n)

    def e_CXXTypeidExpr(self, n): raise Unsupported("typeid")

    def e_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported("sizeof")

    def e_CXXNewExpr(self, n): raise Unsupported("new")

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.eval(children(n)[0])

    def e_CXXInheritedCtorInitExpr(self, n): raise Unsupported("inherited ctor")

    def e_CXXNoexceptExpr(self, n): return z3.BoolVal(bool(n.get("value")))


class DefaultArg(Exception): pass


def init_captures(tu, n):
    """the variables an init-capture declares: the body refers to them, nothing else declares them"""
    out = {}
    def walk(m):
        if m.get("kind") == "DeclRefExpr":
            r = m.get("referencedDecl", {})
            if r.get("kind") == "VarDecl" and r["id"] not in tu.by_id: out[r.get("name")] = r["id"]
        for c in children(m): walk(c)
    for c in children(n): walk(c)
    return out


def captured_name(tu, f):
    """the identifier a capture is written with"""
    l = f.get("loc", {})
    if "offset" not in l: return None
    if not hasattr(tu, "source_bytes"): tu.source_bytes = open(tu.path, "rb").read()
    return tu.source_bytes[l["offset"]:l["offset"] + l.get("tokLen", 0)].decode("utf8", "replace")


def ret_type(t):
    # "R (args) const noexcept"
    depth = 0
    if " -> " in t:
        t = t[t.rindex(" -> ") + 4:]
        return parse(t)
    for i, c in enumerate(t):
        if c in "<[": depth += 1
        elif c in ">]": depth -= 1
        elif c == "(" and depth == 0:
            if t.startswith("(lambda", i):
                continue
            r = t[:i].strip()
            if "enable_if_t<" in r: r = enabled(r)
            return parse(r) if r and r != "void" else None
    return None


def enabled(r):
    """the type an enable_if_t<condition, type> stands for"""
    a = r[r.index("enable_if_t<") + 12:]
    depth = 1
    for j in range(a.rindex(">") - 1, -1, -1):
        if a[j] == ">": depth += 1
        elif a[j] == "<": depth -= 1
        elif a[j] == "," and depth == 1: return a[j + 1:a.rindex(">")].strip()
    return "void"


def _has_body(tu, d):
    if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in children(d)):
        return True
    b = tu.bodies.get(d.get("mangledName"))
    return b is not None and any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in children(b))


def _declrefs(e):
    out = []
    st = [e]
    while st:
        x = st.pop()
        if x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            out.append((x["referencedDecl"]["id"], x["referencedDecl"].get("name")))
        st.extend(reversed(children(x)))
    return out


_lits = {}
def _literal(p):
    k = p.get_id()
    r = _lits.get(k)
    if r is None:
        x = (None, None, None)
        if z3.is_quantifier(p) or z3.is_and(p) or z3.is_or(p): pass
        elif z3.is_not(p): x = ("n", p.arg(0).get_id(), None)
        elif z3.is_eq(p) and z3.is_int_value(p.arg(1)) and not z3.is_int_value(p.arg(0)): x = ("e", p.arg(0).get_id(), p.arg(1).as_long())
        elif z3.is_eq(p) and z3.is_int_value(p.arg(0)) and not z3.is_int_value(p.arg(1)): x = ("e", p.arg(1).get_id(), p.arg(0).as_long())
        else: x = ("p", k, None)
        r = _lits[k] = (p, x)
    return r[1]


_infos = {}
def _info(e):
    """(formula, quantified?, string literals in it, length terms in it)"""
    k = e.get_id()
    r = _infos.get(k)
    if r is None:
        if _has_q(e): r = (e, True, None, None)
        else:
            decls, _ = L.collect([e])
            r = (e, False, {n: L._lit[L.STRLITS[n]] for n in decls if n in L.STRLITS}, _ground_lens([e]))
        _infos[k] = r
    return r


def _has_q(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False


def _ground_lens(fs):
    out = []
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.decl().name().startswith("len_") and x.num_args() == 1:
            out.append(x)
        st.extend(x.children())
    return out


def decode_cstr(v):
    # clang prints the literal with quotes and C escapes
    s = v
    i = s.index('"')
    s = s[i + 1:-1]
    out = bytearray()
    i = 0
    b = s
    esc = {"n": 10, "t": 9, "r": 13, "\\": 92, '"': 34, "'": 39, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11}
    while i < len(b):
        c = b[i]
        if c == "\\":
            d = b[i + 1]
            if d in "01234567":
                j = i + 1
                while j < len(b) and j < i + 4 and b[j] in "01234567": j += 1
                out.append(int(b[i + 1:j], 8)); i = j; continue
            if d == "x":
                j = i + 2
                while j < len(b) and b[j] in "0123456789abcdefABCDEF" and j < i + 4: j += 1
                out.append(int(b[i + 2:j], 16)); i = j; continue
            out.append(esc[d]); i += 2; continue
        out += c.encode(); i += 1
    return bytes(out)


# ------------------------------------------------------------------ loops
class LoopCtx:
    def __init__(self, ex, node, it, pre, spec):
        self.ex = ex; self.node = node; self.it = it; self.pre = pre; self.spec = spec; self.k = None

    def inv(self):
        return self.spec.inv(self)

    def seq(self):
        return self.it.seq() if self.it is not None else None

    def cur(self, root):
        return self.ex.store[root]

    def old(self, loc):
        return self.ex._pre_read(self.pre, loc.root, loc.path)

    def all_locals(self, pred):
        """as locals_, also through reference captures; each variable once"""
        seen, out = set(), []
        for l in self.locals_(pred):
            l = self.ex.deref(l)
            if l.root not in seen: seen.add(l.root); out.append(l)
        return out

    def locals_(self, pred):
        """locations of in-scope variables whose C++ type satisfies pred, innermost first"""
        out = []
        for fr in reversed(self.ex.frames):
            for i, loc in fr.env.items():
                d = self.ex.tu.by_id.get(i)
                if d is not None and pred(parse(qt(d)).bare(), d):
                    out.append(loc)
        return out


class LoopSpec:
    def __init__(self, name, inv, pred=None, unroll=0):
        self.name = name; self.inv_ = inv; self.pred = pred; self.unroll = unroll

    def inv(self, ctx):
        r = self.inv_(ctx)
        return [(l, f) for l, f in r]


def diff_values(a, b, path, out, root):
    if a is b:
        return
    if z3.is_expr(a) and z3.is_expr(b):
        if not a.eq(b): out.append((root, path))
        return
    if isinstance(a, StructV) and isinstance(b, StructV):
        for f in a.f:
            diff_values(a.f[f], b.f.get(f), path + (("f", f),), out, root)
        return
    if isinstance(a, Iter) and isinstance(b, Iter):
        if not (a.loc.same(b.loc) and a.idx.eq(b.idx)): out.append((root, path))
        return
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        if not (a.loc.same(b.loc) and a.valid.eq(b.valid) and a.key.eq(b.key) and (a.at is b.at or a.at is not None and b.at is not None and a.at.eq(b.at))): out.append((root, path))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.loc is None and b.loc is None: return
        if a.loc is not None and b.loc is not None and a.loc.same(b.loc): return
        out.append((root, path)); return
    if isinstance(a, RefV) and isinstance(b, RefV) and a.loc.same(b.loc):
        return
    if z3.is_expr(a) and isinstance(b, StructV) or isinstance(a, StructV):
        out.append((root, path)); return
    out.append((root, path))


def covered(c, mods):
    r, p = c
    for (mr, mp) in mods:
        if mr == r and len(mp) <= len(p) and all(_stepeq(x, y) for x, y in zip(mp, p)):
            return True
    return False


def same_value(a, b):
    if z3.is_expr(a) and z3.is_expr(b):
        return L.eqgoal(a, b)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return z3.And(z3.BoolVal(a.loc.same(b.loc)), a.idx == b.idx)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc is not None and b.loc is not None and a.loc.path and b.loc.path:
        return z3.And(z3.BoolVal(Loc(a.loc.root, a.loc.path[:-1]).same(Loc(b.loc.root, b.loc.path[:-1]))), a.loc.path[-1][1] == b.loc.path[-1][1])
    return z3.BoolVal(False)


def guess_auto(before, after):
    """candidate closed form (initial value, iteration) -> value of an induction variable"""
    if z3.is_expr(before) and z3.is_expr(after) and z3.is_int(before):
        d = simp(after - before)
        if z3.is_int_value(d):
            c = d.as_long()
            return lambda pre, k: simp(pre + c * k)
    if isinstance(before, Iter) and isinstance(after, Iter):
        d = simp(after.idx - before.idx)
        if z3.is_int_value(d):
            c = d.as_long()
            return lambda pre, k: Iter(pre.loc, simp(pre.idx + c * k), pre.rev)
    if isinstance(before, Ptr) and isinstance(after, Ptr) and before.loc is not None and after.loc is not None and before.loc.root == after.loc.root and before.loc.path and before.loc.path[-1][0] == "i" and after.loc.path:
        d = simp(after.loc.path[-1][1] - before.loc.path[-1][1])
        if z3.is_int_value(d):
            c = d.as_long()
            return lambda pre, k: Ptr(Loc(pre.loc.root, pre.loc.path[:-1] + (("i", simp(pre.loc.path[-1][1] + c * k)),)))
    if z3.is_expr(before) and z3.is_expr(after) and before.sort() == after.sort():
        th = L.seq_theory_for_sort(before.sort())
        if th is not None and after.decl().name() == th.slice_.name() and after.arg(0).eq(before) and z3.is_int_value(after.arg(1)):
            c = after.arg(1).as_long()
            if simp(after.arg(2) == th.len(before)).eq(z3.BoolVal(True)):
                return lambda pre, k: th.slice(pre, simp(c * k), th.len(pre))
    return None
