"""Generation of one WhyML module per verified function, and extraction bookkeeping."""
import re
from .cxxast import ExtractionError, load_ast
from .ctypes_ import Ty, BOOL, VOID, U, I
from .trans import (Translator, Fn, FnSpec, Unit, LRef, LConst, LFlat, LObj, Val, base, cname, logic)

HEADER = """  use prelude.P
  use int.Int
  use ref.Ref
  use map.Map as Map
  use seq.Seq as Seq
  use set.Fset as Fset
  use option.Option
"""


class Contract:
    """Signature of a function in WhyML: shared by the verified function and by `val` declarations."""


class Gen:
    def __init__(self, ast, unit: Unit):
        self.ast, self.unit = ast, unit

    def find(self, qn, sig=None):
        """The definition of the function with base name qn (for instance PrefixTree::insert)."""
        fds = []
        qn = qn.split("#")[0]
        for q, l in self.ast.func_by_qn.items():
            arg = self.unit.fieldmap.get("instance", {}).get(qn.split("::")[0])
            if base(q) == qn and (not arg or "%s<%s>" % (qn.split("::")[0], arg) in q or "<" not in q):
                fds += [f for f in l if not self.ast._in_dependent(f)]
        if sig:
            fds = [f for f in fds if re.search(sig, f["type"]["qualType"])]
        seen = {}
        for f in fds:
            seen[f.get("mangledName")] = f
        fds = list(seen.values())
        if len(fds) != 1:
            raise ExtractionError("%d definitions of %s" % (len(fds), qn))
        return fds[0]

    def setup(self, fn, fd, spec):
        """Binds this and the parameters; returns (parameter text, preconditions, prologue lines)."""
        tr = fn.tr
        params, pre, prol = [], [], []
        par = None
        if fd["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl") and fd.get("storageClass") != "static":
            q = fn.qn.split("::")[-2]
            t = Ty("rec", n=q)
            q0 = q
            if q in self.unit.heap:
                fn.this = LObj("this_", t)
                params.append("(this_: int)")
                pre.append("this_ <> 0")
            elif q in self.unit.immutable:
                fn.this = LObj("this_", t)
                params.append("(this_: int)")
            elif q in self.unit.single or q in self.unit.flat:
                fn.this = LFlat(q, t)
                for f, ft, _ in tr.all_fields(q):
                    try:
                        tr.wty(ft)
                    except ExtractionError:
                        continue
            elif q in self.unit.value:
                tr.need_record(q)
                fn.this = LRef("this_", t)
                params.append("(this_: ref r_%s)" % q.lower())
            else:
                raise ExtractionError("class %s has no memory model" % q)
        body = [c for c in fd["inner"] if c.get("kind") == "CompoundStmt"] if fd.get("inner") else []
        assigned = fn.assigned_ids(body[0]) if body else set()
        for p in fn.params_of(fd):
            t = tr.ty(p)
            nm = p.get("name") or ("anon%d" % len(params))
            pn = "p_" + nm
            rt = t
            if t.k == "ref":
                rt = t.a[0]
                if rt.k == "rec" and rt.n in self.unit.single:
                    x = LFlat(rt.n, rt)
                elif rt.k == "rec" and rt.n in self.unit.flat and rt.n not in self.unit.value:
                    x = LFlat(pn, rt)
                    for f, ft, _ in tr.all_fields(rt.n):
                        params.append("(%s__%s: ref %s)" % (pn, f, tr.wty(ft)))
                elif rt.k == "rec" and (rt.n in self.unit.heap or rt.n in self.unit.immutable):
                    x = LObj(pn, rt)
                    params.append("(%s: int)" % pn)
                    if rt.n in self.unit.heap:
                        pre.append("%s <> 0" % pn)
                elif fn.is_nonconst_ref(p):
                    x = LRef(pn, rt)
                    params.append("(%s: ref %s)" % (pn, tr.wty(rt)))
                else:
                    x = LConst(pn, rt)
                    params.append("(%s: %s)" % (pn, tr.wty(rt)))
                    r = tr.rng(rt, pn)
                    if r:
                        pre.append(r)
            else:
                if t.k == "rec" and t.n in self.unit.single:
                    x = LFlat(t.n, t)
                else:
                    if t.k == "ptr" and t.a[0].k == "rec" and t.a[0].n in self.unit.single:
                        x = Val("1", t)
                        x.lv = LFlat(t.a[0].n, t.a[0])
                    else:
                        params.append("(%s: %s)" % (pn, tr.wty(t)))
                        r = tr.rng(t, pn)
                        if r:
                            pre.append(r)
                        if p["id"] in assigned:
                            v = "v_" + nm
                            prol.append("let %s = ref %s in" % (v, pn))
                            x = LRef(v, t)
                        else:
                            x = LConst(pn, t)
            fn.env[p["id"]] = x
            fn.names.setdefault(nm, []).append(x)
            # the specification may refer to a parameter by position
            fn.names.setdefault("#p%d" % fn.params_of(fd).index(p), []).append(x if isinstance(x, (LFlat, LObj)) else
                                                                               (x if not isinstance(x, LRef) or x.name == pn else LConst(pn, t)))
        if not params:
            params.append("()")
        return params, pre, prol

    def clauses(self, fn, spec, pre):
        out = []
        for x in pre:
            out.append("requires { [@expl:parameter type] %s }" % x)
        for j, x in enumerate(spec.requires):
            out.append("requires { [@expl:precondition %d of %s] %s }" % (j, fn.qn, fn.subst(x)))
        for j, x in enumerate(spec.ensures):
            out.append("ensures { [@expl:postcondition %d of %s] %s }" % (j, fn.qn, fn.subst(x)))
        for ex, posts in spec.raises.items():
            if isinstance(posts, str):
                posts = [posts]
            out.append("raises { %s -> %s }" % (ex, " /\\ ".join(
                "([@expl:postcondition of %s on %s] %s)" % (fn.qn, ex, fn.subst(x)) for x in posts)))
        return out

    def ret_ty(self, fn, fd, spec):
        if spec.ret_ty:
            return spec.ret_ty
        if fd["kind"] == "CXXConstructorDecl":
            return VOID
        return fn.ret_type(fd)

    def val(self, q, spec, tr):
        fd = None
        if q.startswith("virtual "):
            raise ExtractionError("virtual contract")
        fd = self.find(q, spec.sig if hasattr(spec, "sig") else None)
        fn = Fn(tr, fd, spec, q)
        params, pre, prol = self.setup(fn, fd, spec)
        # in a declaration a by-value parameter is the argument itself
        for p in fn.params_of(fd):
            x = fn.env[p["id"]]
            if isinstance(x, LRef) and x.name.startswith("v_"):
                y = LConst("p_" + p["name"], x.ty)
                fn.env[p["id"]] = y
                fn.names[p["name"]] = [y]
        rt = self.ret_ty(fn, fd, spec)
        wt = "unit" if rt is None or rt.k == "void" else tr.wty(rt)
        w = "writes { %s }" % ", ".join(fn.subst(x).replace("!", "") for x in spec.writes) if spec.writes else ""
        div = "diverges" if spec.diverges else ""
        if rt is not None and rt.k == "int":
            rng = ["ensures { %s }" % tr.rng(rt, "result")]
        else:
            rng = []
        return "  val %s %s : %s\n    %s" % (cname(q), " ".join(params), wt, "\n    ".join(
            [x for x in [div, w] if x] + self.clauses(fn, spec, pre) + rng))

    def unit_module(self):
        """Records of the value classes, predicates and lemmas shared by the functions of the unit."""
        tr = Translator(self.ast, self.unit)
        for n in sorted(self.unit.value):
            tr.need_record(n)
        pre_text = self.unit.prelude(tr) if callable(self.unit.prelude) else self.unit.prelude
        out = []
        for n in tr.recorder:
            fs = tr.all_fields(n)
            out.append("  type r_%s = { %s }" % (n.lower(), "; ".join("%s: %s" % (tr.fld(n, f), tr.wty(t)) for f, t, _ in fs)))
        for t in self.unit.fieldmap.get("lits", ()):
            out.append("  (* \"%s\" *)\n  val constant lit_%s : seq int ensures { Seq.length result = %d }%s" % (t, t.encode().hex(), len(t), "".join(
                " ensures { Seq.get result %d = %d }" % (i, ord(c)) for i, c in enumerate(t))))
        return "module U\n%s%s\n%s\n%s\nend\n" % (HEADER, self.unit.uses, "\n".join(out), pre_text)

    def function(self, q):
        """WhyML text of the module that verifies q."""
        spec = self.unit.contracts[q]
        tr = Translator(self.ast, self.unit)
        fd = self.find(q, getattr(spec, "sig", None))
        fn = Fn(tr, fd, spec, q)
        fn.used_anchors = set()
        params, pre, prol = self.setup(fn, fd, spec)
        fn.out += prol
        rt = self.ret_ty(fn, fd, spec)
        body = [c for c in fd["inner"] if c.get("kind") == "CompoundStmt"][0]
        if fd["kind"] == "CXXConstructorDecl":
            self.ctor_inits(fn, fd)
        fn.anchor("begin")
        r = fn.run_body(body, fd, rt)
        fn.anchor("end", {"result": r.e if isinstance(r, Val) else ""})
        if rt is None or rt.k == "void":
            final = "()"
        else:
            if rt.k == "ref":
                rt = rt.a[0]
            r = fn.toval(r)
            if hasattr(r, "val"):
                r = r.val
            r = fn.coerce(r, rt)
            final = r.e
        missing = [a for a, _ in spec.ghost if a not in fn.used_anchors]
        if missing:
            raise ExtractionError("%s: the places %s of the specification do not exist here" % (q, missing))
        nl = [k for k in spec.loops if k >= fn.loopn]
        if nl:
            raise ExtractionError("%s: the loops %s of the specification do not exist here" % (q, nl))
        clauses = self.clauses(fn, spec, pre)
        if rt is not None and rt.k == "int":
            clauses.append("ensures { [@expl:result type] %s }" % tr.rng(rt, "result"))
        for ex in sorted(fn.raised):
            if ex not in spec.raises:
                clauses.append("raises { %s -> [@expl:%s is never thrown] false }" % (ex, ex))
        wt = "unit" if rt is None or rt.k == "void" else tr.wty(rt)
        vals = []
        done = set()
        for c in sorted(tr.used_contracts):
            if c == q:
                continue
            vals.append(self.val(c, self.unit.contracts[c], tr))
        rec = "rec " if q in tr.used_contracts else ""
        var = "variant { %s }" % fn.subst(spec.variant) if spec.variant else ""
        div = "diverges" if spec.diverges else ""
        text = "  let %s%s %s : %s\n    %s\n  = [@vc:%s] %s" % (
            rec, cname(q), " ".join(params), wt, "\n    ".join([x for x in [div] if x] + clauses + ([var] if var else [])), spec.vc,
            fn.block(fn.out, final))
        # frame
        decls = self.decls(tr)
        declared = set(re.findall(r"\bval (?:ghost )?(\w+) : ref", decls))
        globs = set(w for w in fn.writes if w in declared or self.is_global(tr, w))
        extra = sorted(globs - set(spec.writes))
        excs = "\n".join("  exception %s%s" % (n, (" " + t) if t else "") for n, t in tr.exc_decls)
        modname = "M_" + re.sub(r"\W+", "_", q)
        m = "module %s\n%s%s  use unit.U\n%s\n%s\n%s\n%s\nend\n" % (modname, HEADER, self.unit.uses, decls, excs, "\n".join(vals), text)
        probe = None
        if any(c.startswith("requires") for c in clauses):
            probe = "module %s\n%s%s  use unit.U\n%s\n%s\n  let probe %s : unit\n    %s\n  = assert { [@expl:probe] false }\nend\n" % (
                modname + "_probe", HEADER, self.unit.uses, decls, excs, " ".join(params),
                "\n    ".join(c for c in clauses if c.startswith("requires")))
        return {"text": m, "name": q, "probe": probe, "inlined": sorted(tr.inlined), "uses": sorted(tr.used_contracts),
                "frame": extra, "file": fd.get("loc", {}).get("file"), "line": fd.get("loc", {}).get("line"),
                "dropped": sorted(tr.dropped)}

    def is_global(self, tr, w):
        return w in ("cmem", "alive") or w in self.unit.fieldmap.get("ghost_refs", {}) or w in tr.flat_fields

    def ctor_inits(self, fn, fd):
        q = fn.qn.split("::")[-2]
        fs = fn.tr.all_fields(q)
        inits = {}
        for c in fd.get("inner", []) or []:
            if c.get("kind") == "CXXCtorInitializer" and "anyInit" in c:
                inits[c["anyInit"]["name"]] = c["inner"][0]
        for f, ft, fdcl in fs:
            try:
                lv = fn.member(fn.this, f, ft)
                if ft.k == "rec" and ft.n in self.unit.single and f not in self.unit.fieldmap.get("ignore_fields", ()) and not (
                        f in inits and inits[f].get("inner")):
                    self.default_single(fn, lv, ft)
                    continue
                if f in inits and inits[f]["kind"] != "CXXDefaultInitExpr":
                    v = fn.rv(inits[f])
                    if hasattr(v, "val"):
                        v = v.val
                    v = fn.coerce(v, ft)
                else:
                    v = fn.field_default(fdcl, ft)
                fn.write(lv, v.e)
            except ExtractionError:
                if f in self.unit.fieldmap.get("ignore_fields", ()):
                    continue
                raise

    def default_single(self, fn, obj, t):
        """A member of a class with one modelled object is made by its default constructor."""
        for f, ft, fdcl in fn.tr.all_fields(t.n):
            try:
                lv = fn.member(obj, f, ft)
                fn.write(lv, fn.field_default(fdcl, ft).e)
            except ExtractionError:
                pass  # the value of the field stays unknown

    def decls(self, tr):
        out = []
        heaprefs = {}
        for cls in sorted(self.unit.heap):
            try:
                fs = tr.all_fields(cls)
            except ExtractionError:
                continue
            for f, t, _ in fs:
                if "%s.%s" % (cls, f) in self.unit.fieldmap:
                    continue
                try:
                    heaprefs["h_%s_%s" % (tr_owner(self.unit, cls, f), f)] = "(map int %s)" % tr.wty(t)
                except ExtractionError:
                    pass
            out.append("  val next_%s : ref int" % cls)
            out.append("  val alloc_%s () : int writes { next_%s } ensures { result = old !next_%s /\\ !next_%s = result + 1 /\\ result > 0 }" % (cls, cls, cls, cls))
        for (cls, f), t in tr.heap_fields.items():
            heaprefs.setdefault("h_%s_%s" % (cls, f), "(map int %s)" % tr.wty(t))
        for n in sorted(heaprefs):
            out.append("  val %s : ref %s" % (n, heaprefs[n]))
        out.append("  val cmem : ref (map int (map int int))")
        for n in sorted(self.unit.fieldmap.get("items", ())):
            tr.need_record(n)
            out.append("  val mem_%s : ref (map int (map int r_%s))" % (n.lower(), n.lower()))
        if self.unit.fieldmap.get("alive"):
            out.append("  val alive : ref (fset int)")
            out.append("  val alloc_block (n: int) : int writes { alive } ensures { result > 0 /\\ not (Fset.mem result (old !alive)) }\n"
                       "    ensures { !alive = Fset.add result (old !alive) } ensures { csize result = n }")
        flats = dict(tr.flat_fields)
        for cls in sorted(self.unit.single | self.unit.flat):
            self.flat_decl(tr, cls, cls, flats)
        for n in sorted(flats):
            if n.startswith("p_") or n.startswith("obj_"):
                continue
            out.append("  val %s : ref %s" % (n, tr.wty(flats[n])))
        for n in tr.recorder:
            if n not in self.unit.value:
                raise ExtractionError("record %s is not declared" % n)
        for n, t in self.unit.fieldmap.get("ghost_refs", {}).items():
            out.append("  val %s : ref %s" % (n, t))
        out.append(self.unit.fieldmap.get("decls", ""))
        return "\n".join(out)

    def flat_decl(self, tr, prefix, cls, flats):
        try:
            fs = tr.all_fields(cls)
        except ExtractionError:
            return
        for f, t, _ in fs:
            if "%s.%s" % (cls, f) in self.unit.fieldmap:
                continue
            tt = t
            while tt.k == "ref":
                tt = tt.a[0]
            if tt.k == "rec" and tt.n in self.unit.single:
                continue
            if tt.k == "rec" and tt.n in self.unit.flat and tt.n not in self.unit.value:
                self.flat_decl(tr, prefix + "__" + f, tt.n, flats)
                continue
            try:
                tr.wty(tt)
                flats.setdefault("%s%s__%s" % ("o_" if prefix[0].isupper() else "", prefix, f), tt)
            except ExtractionError:
                pass


def tr_owner(unit, cls, f):
    return unit.fieldmap.get("owner", {}).get(cls, cls)
