"""Front end: the typed AST of /repo's real sources, taken from clang on every run."""
import json, os, subprocess, hashlib
import functools

CLANG = os.environ.get("CPPCV_CLANG", "/usr/bin/clang++-18")
REPO = os.environ.get("CPPCV_REPO", "/repo")


class FrontError(Exception):
    pass


class Unsupported(Exception):
    """The function (or its annotation) is outside what the verifier can handle."""


FLAGS = ["-std=c++17", "-DRAPIDJSON_NAMESPACE=graphql::rapidjson",
         "-DRAPIDJSON_NAMESPACE_BEGIN=namespace graphql { namespace rapidjson {",
         "-DRAPIDJSON_NAMESPACE_END=} /* namespace rapidjson */ } /* namespace graphql */",
         "-DTAO_PEGTL_NAMESPACE=tao::graphqlpeg"]


def flags():
    return FLAGS + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/PEGTL/include"]


FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}


class TU:
    def __init__(self, path, filt="graphql"):
        self.path = path
        cmd = [CLANG] + flags() + ["-fsyntax-only", "-w", "-Xclang", "-ast-dump=json",
                                   "-Xclang", "-ast-dump-filter=" + filt, path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontError("clang cannot parse %s: %s" % (path, p.stderr.decode()[-2000:]))
        self.cmd = " ".join(cmd)
        s = p.stdout.decode("utf8", "replace")
        dec = json.JSONDecoder()
        i = 0
        self.docs = []
        n = len(s)
        while True:
            while i < n and s[i] in " \r\n\t":
                i += 1
            if i >= n:
                break
            if s[i] != "{":
                i = s.index("\n", i)
                continue
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.by_id = {}
        self.parent = {}
        self.qual = {}
        self.bodies = {}      # mangled -> decl with body
        self.records = {}     # qualified record name (canonical, with template args) -> list of decl
        self.vars = {}
        self.funcs = []       # (qualname, decl) having bodies
        self._file = None
        self.aliases = {}     # last name -> [(qualified name, type string)]
        for d in self.docs:
            self._index(d, d.get("_prefix", ""), None)
        from . import ctypes_
        by_last = {}
        for q in self.records:
            by_last.setdefault(q.split("::")[-1], set()).add(q)

        def resolve(name):
            if name in self.records: return None
            if "<" in name:
                out, dep = "", 0
                for ch in name:
                    if ch == "<": dep += 1
                    elif ch == ">": dep -= 1
                    elif dep == 0: out += ch
                return out if out in self.records else None
            c = [q for q in by_last.get(name.split("::")[-1], ()) if q.endswith("::" + name)]
            if len(c) == 1: return c[0]
            if not c and name.split("::")[-1] in self.aliases: return ("alias", self.alias(name, "graphql"))
            return None
        ctypes_.RESOLVE[0] = resolve
        ctypes_.parse.cache_clear()

    def _index(self, n, prefix, parent):
        k = n.get("kind")
        i = n.get("id")
        if k is None:
            return
        self._loc(n.get("loc")); r = n.get("range")
        if r: self._loc(r.get("begin")); self._loc(r.get("end"))
        isdecl = k.endswith("Decl")
        if k == "DeclRefExpr": n["_file"] = self._file
        elif k in ("TypeAliasDecl", "TypedefDecl"):
            self.aliases.setdefault(n.get("name"), []).append(((prefix + "::" if prefix else "") + n.get("name", ""), qt(n)))
        if not isdecl:
            # statements / expressions may contain decls (VarDecl, lambdas)
            for c in n.get("inner", ()):
                self._index(c, prefix, n)
            return
        if i is not None:
            old = self.by_id.get(i)
            if old is None or len(n.get("inner", ())) >= len(old.get("inner", ())):
                self.by_id[i] = n
            if parent is not None:
                self.parent[i] = parent
        name = n.get("name", "")
        q = prefix
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl",
                 "ClassTemplatePartialSpecializationDecl", "EnumDecl"):
            q = prefix + "::" + name if prefix else name
            n["_q"] = q
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "EnumDecl"):
                if n.get("completeDefinition") or k == "EnumDecl":
                    self.records.setdefault(q, []).append(n)
        elif k in FUNC_KINDS:
            q = prefix + "::" + name if prefix else name
            n["_q"] = q
            has_body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ()))
            m = n.get("mangledName")
            if has_body or n.get("explicitlyDefaulted"):
                if m:
                    self.bodies.setdefault(m, n)
            if has_body:
                self.funcs.append((q, n))
        elif k in ("VarDecl", "FieldDecl"):
            n["_q"] = prefix + "::" + name if prefix else name
            if k == "VarDecl":
                self.vars.setdefault(n["_q"], n)
        for c in n.get("inner", ()):
            self._index(c, q, n)

    def _loc(self, l):
        if not l: return
        if "file" in l: self._file = l["file"]
        if "spellingLoc" in l: self._loc(l["spellingLoc"])
        if "expansionLoc" in l: self._loc(l["expansionLoc"])

    _texts = {}

    def text(self, n):
        """source text of a DeclRefExpr"""
        r = n.get("range", {}); b = r.get("begin", {}); e = r.get("end", {})
        f = n.get("_file")
        if f is None or "offset" not in b or "offset" not in e: raise Unsupported("source text")
        if f not in self._texts: self._texts[f] = open(f, "rb").read()
        return self._texts[f][b["offset"]:e["offset"] + e.get("tokLen", 0)].decode("utf8", "replace")

    def alias(self, name, scope):
        """type string behind a (partially qualified) alias name seen from a scope"""
        c = {}
        for q, t in self.aliases.get(name.split("::")[-1], ()):
            if q == name or q.endswith("::" + name): c[q] = t
        best = None
        for q, t in c.items():
            sc = q[:len(q) - len(name)].rstrip(":")
            if scope == sc or scope.startswith(sc + "::") or sc == "":
                if best is None or len(q) > len(best[0]): best = (q, t)
        if best: return best[1]
        ts = set(c.values())
        return ts.pop() if len(ts) == 1 else None

    # the class that lexically/semantically owns a method
    def owner(self, decl):
        pid = decl.get("parentDeclContextId")
        if pid and pid in self.by_id:
            return self.by_id[pid]
        p = self.parent.get(decl["id"])
        if p is not None and p.get("kind") == "FunctionTemplateDecl":
            p = self.parent.get(p["id"])
        if p is not None and p.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            return p
        pd = decl.get("previousDecl")
        if pd and pd in self.by_id:
            return self.owner(self.by_id[pd])
        return None

    def qualname(self, decl):
        """qualified name of a function, using its semantic parent for out-of-line definitions"""
        o = self.owner(decl)
        if o is not None and "_q" in o:
            return o["_q"] + "::" + decl.get("name", "")
        return decl.get("_q", decl.get("name", ""))

    def find(self, qual, pred=None):
        out = []
        for q, d in self.funcs:
            if d.get("name") != qual.split("::")[-1]:
                continue
            fq = self.qualname(d)
            if fq == qual or q == qual:
                # skip uninstantiated templates
                if self.is_dependent(d):
                    continue
                if pred is None or pred(d):
                    out.append(d)
        return out

    def is_dependent(self, d):
        p = self.parent.get(d["id"])
        if p is not None and p.get("kind") in ("FunctionTemplateDecl",):
            # first FunctionDecl child of the template is the pattern
            pats = [c for c in p.get("inner", ()) if c.get("kind") in FUNC_KINDS]
            if pats and pats[0]["id"] == d["id"]:
                return True
        while p is not None:
            if p.get("kind") == "ClassTemplateDecl":
                return True if self._is_pattern_in(p, d) else False
            if p.get("kind") == "ClassTemplateSpecializationDecl":
                return False
            p = self.parent.get(p.get("id"))
        o = self.owner(d)
        if o is not None:
            pp = self.parent.get(o["id"])
            if pp is not None and pp.get("kind") == "ClassTemplateDecl" and o.get("kind") == "CXXRecordDecl":
                return True
        return False

    def in_template_pattern(self, rec):
        """is this class (part of) an uninstantiated class template?"""
        d = rec
        while d is not None:
            if d.get("kind") == "ClassTemplateSpecializationDecl": return False
            p = self.parent.get(d.get("id"))
            if p is not None and p.get("kind") == "ClassTemplateDecl": return True
            d = p
        return False

    def _is_pattern_in(self, tmpl, d):
        return True

    def file_line(self, decl):
        r = decl.get("loc", {})
        r = r.get("expansionLoc", r)
        return r.get("line")


def children(n):
    return n.get("inner", [])


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""
