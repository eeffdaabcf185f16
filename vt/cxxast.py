"""Loads the clang AST of the code in /repo and indexes it."""
import json, os, re, subprocess, tempfile, hashlib

CLANG = "/usr/bin/clang++"


class ExtractionError(Exception):
    """The code could not be brought into the verifier's reach (never a violation)."""


def load_ast(entry_text, repo="/repo", extra=()):
    with tempfile.TemporaryDirectory(prefix="vt_") as td:
        src = os.path.join(td, "entry.cpp")
        with open(src, "w") as f:
            f.write(entry_text)
        out = os.path.join(td, "ast.json")
        cmd = [CLANG, "-std=c++20", "-include", "cstdint", "-I" + repo + "/src", "-fsyntax-only",
               "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=log_surgeon", *extra, src]
        with open(out, "w") as f:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise ExtractionError("clang: " + r.stderr[-3000:])
        s = open(out).read()
    d = json.JSONDecoder()
    i, n, tops = 0, len(s), []
    ws = re.compile(r"\s*")
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        tops.append(o)
    return AST(tops)


SCOPES = {"NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl",
          "ClassTemplatePartialSpecializationDecl", "EnumDecl", "ClassTemplateDecl",
          "FunctionTemplateDecl", "LinkageSpecDecl"}
FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}


class AST:
    def __init__(self, tops):
        self.by_id = {}
        self.parent = {}
        self.funcs = {}      # mangledName -> decl with body
        self.classes = {}    # qualified name (with template args) -> decl
        self.aliases = {}    # simple name -> set of type strings
        for t in tops:
            self._index(t, None)
        self.qn_cache = {}
        self.func_by_qn = {}
        for fd in self.funcs.values():
            self.func_by_qn.setdefault(self.qualname(fd), []).append(fd)
        for o in list(self.by_id.values()):
            if o.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and o.get("completeDefinition"):
                if o.get("kind") == "CXXRecordDecl" and self._in_template(o):
                    continue
                self.classes.setdefault(self.qualname(o), o)

    def _in_template(self, o):
        p = self.parent.get(o["id"])
        return p is not None and p.get("kind") == "ClassTemplateDecl"

    def _in_dependent(self, o):
        while o is not None:
            p = self.parent.get(o["id"])
            if p is None:
                return False
            if p.get("kind") in ("ClassTemplateDecl",) and o.get("kind") == "CXXRecordDecl":
                return True
            if p.get("kind") in ("FunctionTemplateDecl",):
                # first function child of a FunctionTemplateDecl is the pattern
                fs = [c for c in p.get("inner", []) if c.get("kind") in FUNCS]
                return bool(fs) and fs[0] is o
            if p.get("kind") == "ClassTemplatePartialSpecializationDecl":
                return True
            o = p
        return False

    def _index(self, o, parent):
        stack = [(o, parent)]
        while stack:
            o, parent = stack.pop()
            if not isinstance(o, dict):
                continue
            oid = o.get("id")
            if oid is not None and "kind" in o:
                if oid not in self.by_id or ("inner" in o and "inner" not in self.by_id[oid]):
                    self.by_id[oid] = o
                    if parent is not None:
                        self.parent[oid] = parent
            k = o.get("kind")
            if k in ("TypedefDecl", "TypeAliasDecl") and "type" in o:
                self.aliases.setdefault(o.get("name"), []).append(o)
            nxt = o if (k in SCOPES or k in FUNCS) else parent
            for c in o.get("inner", []) or []:
                stack.append((c, nxt if nxt is not None else o))
            if k in FUNCS and o.get("mangledName") and any(c.get("kind") == "CompoundStmt" for c in o.get("inner", []) or []):
                self.funcs.setdefault(o["mangledName"], o)

    def tmpl_args(self, o):
        args = []
        for c in o.get("inner", []) or []:
            if c.get("kind") == "TemplateArgument":
                t = c.get("type", {})
                if t:
                    args.append(short_type(t.get("desugaredQualType") or t["qualType"]))
                elif "value" in c:
                    args.append(str(c["value"]))
        return args

    def qualname(self, o):
        oid = o["id"]
        if oid in self.qn_cache:
            return self.qn_cache[oid]
        parts = []
        cur = o
        while cur is not None:
            k = cur.get("kind")
            if k in ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl"):
                pass
            else:
                nm = cur.get("name", "")
                if k == "ClassTemplateSpecializationDecl":
                    nm += "<" + ",".join(self.tmpl_args(cur)) + ">"
                if nm:
                    parts.append(nm)
            p = None
            if "parentDeclContextId" in cur and cur["parentDeclContextId"] in self.by_id:
                p = self.by_id[cur["parentDeclContextId"]]
            else:
                p = self.parent.get(cur["id"])
            cur = p
        q = "::".join(reversed(parts))
        self.qn_cache[oid] = q
        return q

    def definition(self, decl):
        m = decl.get("mangledName")
        if m and m in self.funcs:
            return self.funcs[m]
        if any(c.get("kind") == "CompoundStmt" for c in decl.get("inner", []) or []):
            return decl
        return None

    def find_funcs(self, pattern):
        """Concrete (non-dependent) function definitions whose qualified name matches the regex."""
        r = re.compile(pattern)
        out = []
        for q, fds in self.func_by_qn.items():
            if r.fullmatch(q):
                for fd in fds:
                    if not self._in_dependent(fd):
                        out.append(fd)
        return out


def short_type(s):
    s = re.sub(r"\bclass |\bstruct |\benum ", "", s)
    s = re.sub(r"\b(?:[A-Za-z_]\w*::)+", "", s)
    return s.replace(" ", "") if "<" in s else s
