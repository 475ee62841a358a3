"""C++ type strings -> structured types."""
import re
from functools import lru_cache


class CT:
    __slots__ = ("name", "args", "ref", "ptr", "const", "fn", "raw")

    def __init__(self, name, args=(), ref="", ptr=0, const=False, fn=None, raw=""):
        self.name = name; self.args = tuple(args); self.ref = ref; self.ptr = ptr
        self.const = const; self.fn = fn; self.raw = raw

    def key(self):
        return (self.name, tuple(a.key() if isinstance(a, CT) else a for a in self.args), self.ptr)

    def bare(self):
        return CT(self.name, self.args, "", self.ptr, False, self.fn, self.raw)

    def pointee(self):
        return CT(self.name, self.args, "", self.ptr - 1, False, self.fn, self.raw)

    def __repr__(self):
        s = self.name
        if self.args:
            s += "<" + ",".join(map(repr, self.args)) + ">"
        return s + "*" * self.ptr + self.ref

    def __eq__(self, o):
        return isinstance(o, CT) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


_tok = re.compile(r"\s*(\(lambda at [^)]*\)|\(anonymous[^)]*\)|::|[A-Za-z_][A-Za-z_0-9]*|-?\d+[a-zA-Z]*|&&|.)")


def _tokens(s):
    return [m.group(1) for m in _tok.finditer(s) if m.group(1).strip()]


INTS = {"bool": ("bool", 1), "char": ("s", 8), "signed char": ("s", 8), "unsigned char": ("u", 8),
        "short": ("s", 16), "unsigned short": ("u", 16), "int": ("s", 32), "unsigned int": ("u", 32),
        "long": ("s", 64), "unsigned long": ("u", 64), "long long": ("s", 64), "unsigned long long": ("u", 64)}

ALIASES = {"std::string": "std::basic_string<char>", "std::string_view": "std::basic_string_view<char>",
           "std::uint8_t": "unsigned char", "uint8_t": "unsigned char", "std::uint32_t": "unsigned int", "uint32_t": "unsigned int",
           "std::uint16_t": "unsigned short", "uint16_t": "unsigned short", "size_t": "unsigned long",
           "std::size_t": "unsigned long", "std::ptrdiff_t": "long", "ptrdiff_t": "long",
           "int32_t": "int", "std::int32_t": "int", "uint64_t": "unsigned long", "std::uint64_t": "unsigned long", "std::int64_t": "long", "int64_t": "long"}


class _P:
    def __init__(self, toks):
        self.t = toks; self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def type(self):
        const = False
        words = []
        name = None
        args = []
        while True:
            p = self.peek()
            if p is None:
                break
            if p in ("const", "volatile"):
                const = True; self.next(); continue
            if p in ("class", "struct", "enum", "typename", "union"):
                self.next(); continue
            if p in ("unsigned", "signed", "long", "short", "int", "char", "bool", "double", "float", "void") and not name:
                words.append(self.next()); continue
            if words:
                break
            if name is None and (p == "::" or re.match(r"[A-Za-z_(]|-?\d", p)):
                if p == "(" or (p.startswith("(") and not p.startswith("(lambda") and not p.startswith("(anon")):
                    break
                # qualified name
                n = ""
                while True:
                    p = self.peek()
                    if p is None: break
                    if p == "::":
                        n += self.next(); continue
                    if n == "" or n.endswith("::"):
                        if p == "(":
                            # (anonymous namespace)-style token already merged
                            pass
                        n += self.next()
                        if self.peek() == "<":
                            self.next()
                            args = []
                            while self.peek() != ">":
                                args.append(self.type())
                                if self.peek() == ",":
                                    self.next()
                                elif self.peek() is None:
                                    raise ValueError("type")
                            self.next()
                            if self.peek() == "::":
                                n = n + "<" + ",".join(map(repr, args)) + ">"
                                args = []
                        continue
                    break
                name = n.lstrip(":")
                continue
            break
        if words:
            w = sorted(words)
            name = _words(words)
        if name is None:
            raise ValueError("bad type at %s" % self.t[self.i:self.i + 5])
        ct = CT(name, args, "", 0, const)
        while True:
            p = self.peek()
            if p == "*":
                self.next(); ct = CT(ct.name, ct.args, "", ct.ptr + 1, False, ct.fn); continue
            if p == "const":
                self.next(); ct.const = True; continue
            if p in ("&", "&&"):
                self.next(); ct = CT(ct.name, ct.args, p, ct.ptr, ct.const, ct.fn); continue
            if p == "[":
                self.next(); n = self.next(); self.next()
                ct = CT("std::array", [ct, CT(n)], "", 0, ct.const); continue
            if p == "(":
                # function type or pointer to function
                depth = 0
                start = self.i
                toks = []
                # "(*)(args)" or "(args)"
                sub = self.t[self.i:self.i + 3]
                if sub[:2] == ["(", "*"] :
                    while self.next() != ")":
                        pass
                elif sub[:2] == ["(", "&"]:
                    while self.next() != ")":
                        pass
                self.next()
                fargs = []
                while self.peek() != ")":
                    if self.peek() is None: raise ValueError("fn type")
                    fargs.append(self.type())
                    if self.peek() == ",": self.next()
                self.next()
                while self.peek() in ("const", "noexcept", "&", "&&"):
                    self.next()
                ct = CT("fn", [ct] + fargs, "", 0, False, True)
                continue
            break
        return ct


def _words(w):
    u = "unsigned" in w
    s = "signed" in w
    if "double" in w: return "double"
    if "float" in w: return "float"
    if "void" in w: return "void"
    if "bool" in w: return "bool"
    if "char" in w:
        return "unsigned char" if u else "signed char" if s else "char"
    if "short" in w:
        return "unsigned short" if u else "short"
    if "long" in w:
        return "unsigned long" if u else "long"
    return "unsigned int" if u else "int"


TRAITS = re.compile(r"(?:typename )?(?:\w+::)*(?:Variable|Response)Traits<([\w:]+), (\(TypeModifier\)\d(?:, \(TypeModifier\)\d)*)>::type")


def _traits(m):
    """the type a list of modifiers makes (clang prints it undesugared as a parameter type)"""
    t = m.group(1)
    for k in reversed(re.findall(r"\d", m.group(2))):
        t = {"0": "%s", "1": "std::optional<%s>", "2": "std::vector<%s>"}[k] % t
    return t


@lru_cache(maxsize=None)
def parse(s):
    if "Traits<" in s: s = TRAITS.sub(_traits, s)
    p = _P(_tokens(s))
    t = p.type()
    t = norm(t)
    t.raw = s
    return t


RESOLVE = [None]     # maps a partially qualified class name to the unique fully qualified one (set by the front end)


def norm(t):
    if RESOLVE[0] is not None and ("<" in t.name or not t.name.startswith(("std::", "graphql::", "__gnu"))):
        r = RESOLVE[0](t.name)
        if isinstance(r, tuple):
            if r[1] and not t.args and r[1].split(" ")[0] != t.name and "type-parameter" not in r[1] and not r[1].startswith("typename"):
                b = parse(r[1])
                return CT(b.name, b.args, t.ref or b.ref, t.ptr + b.ptr, t.const or b.const, b.fn)
        elif r: t = CT(r, t.args, t.ref, t.ptr, t.const, t.fn)
    if t.name in ALIASES and not t.args:
        b = parse(ALIASES[t.name])
        return CT(b.name, b.args, t.ref, t.ptr, t.const, t.fn)
    args = tuple(norm(a) for a in t.args)
    n = t.name.replace("__cxx11::", "")
    if n.startswith("std::basic_string") and n in ("std::basic_string", "std::basic_string_view"):
        args = args[:1]
    if n in ("std::vector", "std::list", "std::set", "std::map", "std::unique_ptr", "std::queue", "std::stack", "std::deque", "std::unordered_map", "std::unordered_set"):
        keep = {"std::vector": 1, "std::list": 1, "std::set": 1, "std::map": 2, "std::unique_ptr": 1, "std::deque": 1,
                "std::queue": 1, "std::stack": 1, "std::unordered_map": 2, "std::unordered_set": 1}[n]
        if n in ("std::map", "std::set") and len(args) > keep and args[keep].name != "std::less": keep += 1
        args = args[:keep]
    return CT(n, args, t.ref, t.ptr, t.const, t.fn)
