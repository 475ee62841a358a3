"""Contracts: pre/postconditions on real functions, loop invariants, lemmas."""
import z3, time
from .front import Unsupported, children, qt, TU, REPO
from .ctypes_ import parse, CT
from . import logic as L
from .engine import *
from .engine import ret_type


class CallCtx:
    """what a specification can talk about"""

    def __init__(self, ex, decl):
        self.ex = ex; self.decl = decl; self.M = ex.M
        self.args = []          # operands
        self.old = []           # values at entry
        self.this = None; self.this_old = None
        self.res = None; self.exc = None
        self.ghost_old = {}
        self.names = []
        self.store_old = {}

    def new(self, i):
        return self.ex.val(self.args[i])

    @property
    def this_new(self):
        return self.ex.read(self.this)

    def field(self, v, *names):
        for n in names:
            v = self.ex.field(v, n)
            if isinstance(v, RefV): v = self.ex.val(v.loc)
        return v

    def f_old(self, *names): return self.field(self.this_old, *names)
    def f_new(self, *names): return self.field(self.this_new, *names)

    def res_val(self, sort=None):
        v = self.ex.val(self.res)
        if sort is not None: v = self.M.pack_sort(v, sort)
        return v


class Contract:
    """
    qual    qualified name of the function
    tu      source file (relative to /repo) or wrapper TU (absolute path)
    pred    selects the overload / instantiation (decl, tu) -> bool
    pre     c -> list of (label, formula) assumed at entry / checked at calls
    post    c -> list of (label, formula) checked on normal return, assumed at calls
    exc     c -> list of (label, formula) checked on exceptional exit (c.exc set); default: no exception may escape
    throws  c -> formula or None: condition under which the call throws (used at call sites)
    """
    name = None
    loops = ()
    trusted = False
    join = None       # (which statements, invariant): see Engine.joined

    def __init__(self, name, tu, qual, pred=None, pre=None, post=None, exc=None, throws=None, loops=(), setup=None,
                 modifies=None, call=None, use=True, nothrow=False, exc_value=None, result=None, props=(), maxpaths=4000, ghost=None, arg_setup=None):
        self.name = name; self.tu = tu; self.qual = qual; self.pred = pred
        self.pre = pre or (lambda c: []); self.post = post or (lambda c: []); self.exc = exc
        self.throws = throws; self.loops = list(loops); self.setup = setup; self.modifies = modifies
        self.call = call; self.use = use; self.nothrow = nothrow; self.exc_value = exc_value
        self.result = result; self.maxpaths = maxpaths; self.ghost = ghost; self.arg_setup = arg_setup

    # -------------------------------------------------- matching
    def matches(self, tu, q, decl):
        if not self.use: return False
        if q != self.qual: return False
        return self.pred is None or bool(self.pred(decl, tu))

    def find(self, tu):
        ds = tu.find(self.qual, (lambda d: self.pred(d, tu)) if self.pred else None)
        seen = {}
        for d in ds: seen[d.get("mangledName", d["id"])] = d
        ds = list(seen.values())
        if not ds:
            raise Unsupported("function %s not found in %s" % (self.qual, tu.path))
        if len(ds) > 1:
            raise Unsupported("function %s is ambiguous in %s (%s)" % (self.qual, tu.path, [qt(d) for d in ds]))
        return ds[0]

    # -------------------------------------------------- verification
    def execute(self, ex):
        M = ex.M
        decl = self.find(ex.tu)
        self.decl = decl
        c = CallCtx(ex, decl)
        ex.callctx = c
        M.cur_loops = self.loops
        if decl["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl") and decl.get("storageClass") != "static" and not self._static(ex, decl):
            o = ex.tu.owner(decl)
            ct = M.this_type(ex, o)
            c.this = ex.alloc(M.fresh_this(ex, ct, decl), "this")
        params = [p for p in children(decl) if p["kind"] == "ParmVarDecl"]
        for i, p in enumerate(params):
            t = parse(qt(p))
            a = None
            if self.arg_setup is not None:
                a = self.arg_setup(c, i, p, t)
            if a is None:
                a = M.fresh_arg(ex, t, p.get("name") or "arg%d" % i)
            c.args.append(a)
            c.names.append(p.get("name"))
        if self.setup: self.setup(c)
        c.old = [ex.val(a) for a in c.args]
        if c.this is not None: c.this_old = ex.read(c.this)
        c.ghost_old = dict(ex.ghost)
        c.store_old = dict(ex.store)
        for lab, f in self.pre(c): ex.assume(f)
        try:
            c.res = ex.inline(decl, c.this, list(c.args))
        except CppThrow as t:
            c.exc = t.exc
        c.trace = ex.trace
        if not ex.in_prefix():
            if c.exc is None: ex.exit_pcs.append(list(ex.pc)); ex.exit_tags.append(list(ex.decisions))
        if c.exc is not None:
            if self.exc is None:
                ex.check("%s: no exception escapes" % self.name, z3.BoolVal(False), "exception " + repr(c.exc.ct))
                return
            for lab, f in self.exc(c): ex.check("%s: on error, %s" % (self.name, lab), f)
        else:
            for lab, f in self.post(c): ex.check("%s: %s" % (self.name, lab), f)
        ex.completed = getattr(ex, "completed", 0) + 1

    def _static(self, ex, decl):
        pd = decl
        while pd is not None:
            if pd.get("storageClass") == "static": return True
            pid = pd.get("previousDecl")
            pd = ex.tu.by_id.get(pid) if pid else None
        return False

    # -------------------------------------------------- use at a call site
    def apply(self, ex, decl, this, args, node):
        if ex.pure and (self.modifies): raise NotPure()
        params = [p for p in children(decl) if p["kind"] == "ParmVarDecl"]
        c = CallCtx(ex, decl)
        args = list(args)
        while len(args) < len(params):
            args.append(ex.default_arg(params[len(args)]))
        c.args = args
        c.this = this
        c.old = [ex.val(a) for a in args]
        c.this_old = ex.read(this) if this is not None else None
        c.ghost_old = dict(ex.ghost)
        for lab, f in self.pre(c):
            ex.check("%s: precondition of %s: %s" % (ex.contract.name, self.name, lab), f, ex.line(node) if node else "")
            ex.assume(f)
        if self.call is not None:
            return self.call(c)
        if self.modifies:
            for loc in self.modifies(c):
                old = ex.read(loc)
                ex.write(loc, ex.havoc_value(old, "mod"))
        thrown = False
        if self.exc is not None and not self.nothrow:
            if self.throws is not None:
                thrown = ex.choose(self.throws(c))
            else:
                thrown = ex.choose(ex.fresh("throws", L.Bool))
        if thrown:
            c.exc = self.exc_value(c) if self.exc_value else ExcV(CT("std::exception"))
            for lab, f in self.exc(c): ex.assume(f)
            raise CppThrow(c.exc)
        rt = ret_type(qt(decl))
        if self.result is not None:
            c.res = self.result(c)
        elif rt is None:
            c.res = VOID
        else:
            v = ex.M.fresh_of(rt.bare(), "r_" + decl["name"][:12].replace(" ", "_"))
            c.res = ex.alloc(v, "res") if rt.ref else v
        for lab, f in self.post(c): ex.assume(f)
        return c.res


class Lemma:
    """a property-level consequence of contracts: hyps |- goal"""

    def __init__(self, name, fn):
        self.name = name; self.fn = fn

    def obligations(self):
        out = []
        for lab, hyps, goal in self.fn():
            out.append(Obligation("%s: %s" % (self.name, lab), hyps, goal))
        return out


def bound_models(models_fn, tu_path):
    """models bound to a translation unit, for lemmas that talk about its types"""
    import os
    f = tu_path if os.path.isabs(tu_path) else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), tu_path) if tu_path.startswith("tu/") else os.path.join(REPO, tu_path)
    tu = TU(f, "graphql")
    m = models_fn(tu)
    ex = Engine(tu, Contract("lemma", tu_path, "lemma"), m)
    ex.prefix = []; ex.pending = []
    ex._reset()
    return ex
