"""Sorts, axioms and solver back ends."""
import z3, subprocess, tempfile, os, time, itertools
from .ctypes_ import CT, INTS
from .front import Unsupported

Int, Bool = z3.IntSort(), z3.BoolSort()


def BV(n):
    return z3.BitVecSort(n)


BV8 = BV(8)
# ---------------------------------------------------------------- axiom registry
AXIOMS = {}      # decl name -> list of z3 axioms triggered by that decl occurring in the query
SORT_AXIOMS = {}  # sort name -> list of axioms


def axiom_for(decl, ax):
    AXIOMS.setdefault(decl.name(), []).append(ax)


class SeqTheory:
    cache = {}

    def __init__(self, name, elem):
        self.name = name
        self.elem = elem
        S = self.sort = z3.DeclareSort("Seq_" + name)
        f = lambda n, *a: z3.Function(n + "_" + name, *a)
        self.len_ = f("len", S, Int)
        self.at_ = f("at", S, Int, elem)
        self.empty = z3.Const("empty_" + name, S)
        self.push_ = f("push", S, elem, S)
        self.cat_ = f("cat", S, S, S)
        self.slice_ = f("slice", S, Int, Int, S)
        self.upd_ = f("upd", S, Int, elem, S)
        self.eq_ = f("seqeq", S, S, Bool)
        self.repl_ = f("repl", Int, elem, S)
        s, t = z3.Consts("s t", S)
        i, j, k = z3.Ints("i j k")
        x = z3.Const("x", elem)
        L, A = self.len_, self.at_
        FA = z3.ForAll
        ax = [
            FA([s], L(s) >= 0, patterns=[L(s)]),
            L(self.empty) == 0,
            FA([s], z3.Implies(L(s) == 0, s == self.empty), patterns=[L(s)]),
            # push
            FA([s, x], L(self.push_(s, x)) == L(s) + 1, patterns=[self.push_(s, x)]),
            FA([s, x], A(self.push_(s, x), L(s)) == x, patterns=[self.push_(s, x)]),
            FA([s, x, i], z3.Implies(z3.And(0 <= i, i < L(s)), A(self.push_(s, x), i) == A(s, i)),
               patterns=[A(self.push_(s, x), i)]),
            FA([s, x, i], z3.Implies(z3.And(0 <= i, i < L(s)), A(self.push_(s, x), i) == A(s, i)),
               patterns=[z3.MultiPattern(A(s, i), self.push_(s, x))]),
            # cat
            FA([s, t], L(self.cat_(s, t)) == L(s) + L(t), patterns=[self.cat_(s, t)]),
            FA([s, t, i], z3.Implies(z3.And(0 <= i, i < L(s) + L(t)),
               A(self.cat_(s, t), i) == z3.If(i < L(s), A(s, i), A(t, i - L(s)))),
               patterns=[A(self.cat_(s, t), i)]),
            FA([s, t, i], z3.Implies(z3.And(0 <= i, i < L(s)), A(self.cat_(s, t), i) == A(s, i)),
               patterns=[z3.MultiPattern(A(s, i), self.cat_(s, t))]),
            # slice [i,j)
            FA([s, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= L(s)), L(self.slice_(s, i, j)) == j - i),
               patterns=[self.slice_(s, i, j)]),
            FA([s, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= L(s), 0 <= k, k < j - i),
               A(self.slice_(s, i, j), k) == A(s, i + k)), patterns=[A(self.slice_(s, i, j), k)]),
            FA([s, i, j, k], z3.Implies(z3.And(0 <= i, i <= k, k < j, j <= L(s)),
               A(self.slice_(s, i, j), k - i) == A(s, k)), patterns=[z3.MultiPattern(A(s, k), self.slice_(s, i, j))]),
            FA([s, t, i], z3.Implies(z3.And(0 <= i, i < L(t)), A(self.cat_(s, t), L(s) + i) == A(t, i)),
               patterns=[z3.MultiPattern(A(t, i), self.cat_(s, t))]),
            FA([s, i, j], z3.Implies(z3.And(i == 0, j == L(s)), self.slice_(s, i, j) == s), patterns=[self.slice_(s, i, j)]),
            # update
            FA([s, i, x], L(self.upd_(s, i, x)) == L(s), patterns=[self.upd_(s, i, x)]),
            FA([s, i, x, j], z3.Implies(z3.And(0 <= j, j < L(s)),
               A(self.upd_(s, i, x), j) == z3.If(i == j, x, A(s, j))), patterns=[A(self.upd_(s, i, x), j)]),
            FA([s, i, x, j], z3.Implies(z3.And(0 <= j, j < L(s)),
               A(self.upd_(s, i, x), j) == z3.If(i == j, x, A(s, j))), patterns=[z3.MultiPattern(A(s, j), self.upd_(s, i, x))]),
            # repl n x
            FA([k, x], z3.Implies(k >= 0, L(self.repl_(k, x)) == k), patterns=[self.repl_(k, x)]),
            FA([k, x, i], z3.Implies(z3.And(0 <= i, i < k), A(self.repl_(k, x), i) == x), patterns=[A(self.repl_(k, x), i)]),
            # extensionality
            FA([s, t], self.eq_(s, t) == z3.And(L(s) == L(t),
               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L(s)), A(s, i) == A(t, i)), patterns=[A(s, i), A(t, i)])),
               patterns=[self.eq_(s, t)]),
            FA([s, t], z3.Implies(self.eq_(s, t), s == t), patterns=[self.eq_(s, t)]),
        ]
        SORT_AXIOMS[S.name()] = ax

    # constructor helpers with light simplification
    def len(self, s):
        d = s.decl().name()
        if d == self.empty.decl().name():
            return z3.IntVal(0)
        if d == self.push_.name():
            return simp(self.len(s.arg(0)) + 1)
        if d == self.upd_.name():
            return self.len(s.arg(0))
        if d == self.cat_.name():
            return simp(self.len(s.arg(0)) + self.len(s.arg(1)))
        if s.decl().name() in STRLITS:
            return z3.IntVal(len(STRLITS[s.decl().name()]))
        return self.len_(s)

    def at(self, s, i):
        if not z3.is_expr(i):
            i = z3.IntVal(i)
        if s.decl().name() in STRLITS and z3.is_int_value(i):
            b = STRLITS[s.decl().name()]
            if 0 <= i.as_long() < len(b):
                return z3.BitVecVal(b[i.as_long()], 8)
        if s.decl().name() == self.push_.name():
            l = self.len(s.arg(0))
            if simp(l == i).eq(z3.BoolVal(True)):
                return s.arg(1)
            if z3.is_int_value(i) and z3.is_int_value(l) and i.as_long() < l.as_long():
                return self.at(s.arg(0), i)
        return self.at_(s, i)

    def push(self, s, x):
        return self.push_(s, x)

    def cat(self, s, t):
        if s.eq(self.empty): return t
        if t.eq(self.empty): return s
        if t.decl().name() == self.push_.name():
            return self.push(self.cat(s, t.arg(0)), t.arg(1))
        return self.cat_(s, t)

    def slice(self, s, i, j):
        i = z3.IntVal(i) if not z3.is_expr(i) else simp(i)
        j = z3.IntVal(j) if not z3.is_expr(j) else simp(j)
        return self.slice_(s, i, j)

    def upd(self, s, i, x):
        return self.upd_(s, i, x)

    def single(self, x):
        return self.push(self.empty, x)

    def eq(self, a, b):
        return self.eq_(a, b)


def simp(e):
    return z3.simplify(e)


_seqs = {}


def seq_of(elem):
    n = "Str" if elem == BV8 else sort_name(elem)
    if n not in _seqs:
        _seqs[n] = SeqTheory(n, elem)
    return _seqs[n]


def seq_theory_for_sort(sort):
    n = sort.name()
    if n.startswith("Seq_"):
        return _seqs.get(n[4:])
    return None


def sort_name(s):
    n = str(s)
    return "".join(c if c.isalnum() else "_" for c in n)


Str = seq_of(BV8)

# ---------------------------------------------------------------- string literals
STRLITS = {}   # const name -> bytes
_lit = {}


def strlit(b):
    if isinstance(b, str):
        b = b.encode()
    if len(b) == 0:
        return Str.empty
    if b not in _lit:
        name = "lit!%d!%s" % (len(_lit), "".join(c if c.isalnum() else "_" for c in b.decode("latin1"))[:20])
        c = z3.Const(name, Str.sort)
        _lit[b] = c
        STRLITS[name] = b
    return _lit[b]


# ---------------------------------------------------------------- datatypes
_records = {}


def record(name, fields):
    """fields: [(fname, sort)]"""
    if name not in _records:
        d = z3.Datatype(name)
        d.declare("mk_" + name, *[(name + "." + f, s) for f, s in fields])
        d = d.create()
        _records[name] = (d, [f for f, _ in fields])
    return _records[name][0]


_recfun = {}   # recursive records: name -> (mk, {field: accessor})


def recursive_record(name):
    """a record whose fields may mention its own sort: an uninterpreted sort with constructor and accessors"""
    return z3.DeclareSort(name)


def define_recursive(S, fields):
    name = S.name()
    mk = z3.Function("mk_" + name, *([s for _, s in fields] + [S]))
    get = {f: z3.Function(name + "." + f, S, s) for f, s in fields}
    _records[name] = (S, [f for f, _ in fields])
    _recfun[name] = (mk, get)
    xs = [z3.Const("rx%d" % i, s) for i, (_, s) in enumerate(fields)]
    v = z3.Const("rv", S)
    ax = [z3.ForAll(xs, get[f](mk(*xs)) == x, patterns=[mk(*xs)]) for (f, _), x in zip(fields, xs)]
    ax.append(z3.ForAll([v], mk(*[get[f](v) for f, _ in fields]) == v, patterns=[get[fields[0][0]](v)]))
    SORT_AXIOMS[name] = ax


def rec_sort(sort, f):
    if sort.name() in _recfun: return _recfun[sort.name()][1][f].range()
    return sort.accessor(0, _records[sort.name()][1].index(f)).range()


def rec_fields(sort):
    return _records[sort.name()][1] if sort.name() in _records else None


_memo = {}
def memo(fn):
    """terms are built once"""
    nm = fn.__name__
    def f(term, x):
        k = (nm, term.get_id(), x)
        r = _memo.get(k)
        if r is None: r = _memo[k] = (fn(term, x), term)
        return r[0]
    return f


@memo
def rec_get(term, f):
    sort = term.sort()
    fields = _records[sort.name()][1]
    i = fields.index(f)
    if sort.name() in _recfun:
        mk, get = _recfun[sort.name()]
        return term.arg(i) if z3.is_app(term) and term.decl().eq(mk) else get[f](term)
    ctor = sort.constructor(0)
    if z3.is_app(term) and term.decl().eq(ctor):
        return term.arg(i)
    if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
        pass
    return sort.accessor(0, i)(term)


def rec_mk(sort, vals):
    if sort.name() in _recfun: return _recfun[sort.name()][0](*vals)
    return sort.constructor(0)(*vals)


_opts = {}


def option(elem, nm=None):
    n = "Opt_" + (nm or sort_name(elem))
    if n not in _opts:
        d = z3.Datatype(n)
        d.declare("none_" + n)
        d.declare("some_" + n, (n + ".val", elem))
        _opts[n] = d.create()
    return _opts[n]


def opt_none(S):
    return S.constructor(0)()


def opt_some(S, x):
    return S.constructor(1)(x)


def opt_is(t):
    if z3.is_app(t):
        if t.decl().eq(t.sort().constructor(1)): return z3.BoolVal(True)
        if t.decl().eq(t.sort().constructor(0)): return z3.BoolVal(False)
    return t.sort().recognizer(1)(t)


def opt_val(t):
    if z3.is_app(t) and t.decl().eq(t.sort().constructor(1)):
        return t.arg(0)
    return t.sort().accessor(1, 0)(t)


def is_opt(sort):
    return sort.name() in _opts


_variants = {}


def variant(name, alts):
    if name not in _variants:
        d = z3.Datatype(name)
        for i, s in enumerate(alts):
            d.declare("alt%d_%s" % (i, name), ("%s.%d" % (name, i), s))
        _variants[name] = d.create()
    return _variants[name]


def var_mk(S, i, x):
    return S.constructor(i)(x)


@memo
def var_is(t, i):
    if z3.is_app(t):
        for k in range(t.sort().num_constructors()):
            if t.decl().eq(t.sort().constructor(k)):
                return z3.BoolVal(k == i)
    return t.sort().recognizer(i)(t)


@memo
def var_get(t, i):
    if z3.is_app(t) and t.decl().eq(t.sort().constructor(i)):
        return t.arg(0)
    return t.sort().accessor(i, 0)(t)


UnitSort = record("Unit", [("u", Bool)])
unit = rec_mk(UnitSort, [z3.BoolVal(True)])


# ---------------------------------------------------------------- equality as a goal
def eqgoal(a, b):
    """equality usable as a goal: structural, with sequence extensionality"""
    s = a.sort()
    t = seq_theory_for_sort(s)
    if t is not None:
        if a.eq(b):
            return z3.BoolVal(True)
        return t.eq(a, b)
    if s.kind() == z3.Z3_DATATYPE_SORT and s.name() in _records and s.name() not in NO_EXPAND:
        return z3.And([eqgoal(rec_get(a, f), rec_get(b, f)) for f in rec_fields(s)] or [z3.BoolVal(True)])
    if s.kind() == z3.Z3_DATATYPE_SORT and is_opt(s):
        return z3.And(opt_is(a) == opt_is(b), z3.Or(z3.Not(opt_is(a)), eqgoal(opt_val(a), opt_val(b))))
    return a == b


NO_EXPAND = set()


# ---------------------------------------------------------------- query assembly
def collect(exprs):
    """decl names and sort names occurring in exprs"""
    seen = set()
    decls = {}
    sorts = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        sorts.add(e.sort().name())
        if z3.is_quantifier(e):
            stack.append(e.body())
            for q in range(e.num_vars()):
                sorts.add(e.var_sort(q).name())
            continue
        if z3.is_app(e):
            d = e.decl()
            decls[d.name()] = d
            stack.extend(e.children())
    return decls, sorts


def with_axioms(exprs):
    out = []
    done = set()
    todo = list(exprs)
    lits = set()
    while todo:
        decls, sorts = collect(todo)
        todo = []
        for n in sorts:
            if ("s", n) not in done:
                done.add(("s", n))
                todo += SORT_AXIOMS.get(n, [])
        for n in decls:
            if ("d", n) not in done:
                done.add(("d", n))
                todo += AXIOMS.get(n, [])
                if n in STRLITS:
                    lits.add(n)
        out += todo
    ls = sorted(lits)
    if ls:
        cs = [_lit[STRLITS[n]] for n in ls]
        for c, n in zip(cs, ls):
            b = STRLITS[n]
            out.append(Str.len_(c) == len(b))
        need_chars = any(d.startswith("at_Str") for d in decls) or CHARLITS
        if CHARLITS:
            for c, n in zip(cs, ls):
                b = STRLITS[n]
                if len(b) <= 80:
                    out += [Str.at_(c, z3.IntVal(i)) == z3.BitVecVal(v, 8) for i, v in enumerate(b)]
        out.append(z3.Distinct(*(cs + [Str.empty])))
    return out


CHARLITS = False


class Result:
    def __init__(self, status, backend, secs, model=None):
        self.status = status; self.backend = backend; self.secs = secs; self.model = model


def prove(hyps, goal, timeout=10, want_model=False, seeds=(0,)):
    """is (and hyps) -> goal valid?  returns Result(status in proved|refuted|unknown)"""
    t0 = time.time()
    ng = z3.Not(goal)
    fs = list(hyps) + [ng]
    ax = with_axioms(fs)
    mdl = None
    st = "unknown"
    # a few short attempts from different seeds: a search that takes a wrong turn rarely does so twice
    attempts = [(dict(mbqi=False), min(3, timeout), s) for s in (0, 7, 23)] + ([(dict(mbqi=False), timeout, 0)] if timeout > 3 else []) + [(dict(mbqi=False), timeout, s) for s in seeds if s]
    for opts, to, seed in attempts:
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set("timeout", int(to * 1000))
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        if seed:
            s.set("smt.random_seed", seed)
        s.add(ax)
        s.add(fs)
        r = s.check()
        if r == z3.unsat:
            return Result("proved", "z3", time.time() - t0)
    # try cvc5 on the same query
    r = cvc5(fs + ax, timeout)
    if r == "unsat":
        return Result("proved", "cvc5", time.time() - t0)
    if want_model:
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(fs)
        if s.check() == z3.sat:
            mdl = s.model()
    return Result("failed", "z3+cvc5", time.time() - t0, mdl)


def cvc5(fs, timeout):
    s = z3.Solver()
    s.add(fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    # z3-specific spellings
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
            out = r.stdout.decode("utf8", "replace").strip().split("\n")[0]
            return out
        except subprocess.TimeoutExpired:
            return "timeout"
    finally:
        os.unlink(p)


def mention(*terms):
    """puts ground terms into a query as trigger hints: an uninterpreted predicate with no axioms, so always satisfiable"""
    return [z3.Function("hint_" + sort_name(t.sort()), t.sort(), Bool)(t) for t in terms]
