"""Translation of C++ function bodies (clang AST of the real code) to WhyML.

Every construct is translated by the C++ semantics listed in DESIGN.md (section "Extraction"); anything else
raises ExtractionError, which makes the check fall back to its bounded stand-in (it is never a violation).
"""
import os
import re
from .cxxast import AST, ExtractionError, FUNCS
from .ctypes_ import Ty, TypeParser, U, I, BOOL, VOID

SKIP = {"ImplicitCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ParenExpr",
        "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr",
        "CStyleCastExpr", "FullExpr", "CXXConstCastExpr"}


def base(q):
    """log_surgeon::finite_automata::RegexDFA<...>::new_state -> RegexDFA::new_state"""
    out, d = "", 0
    for c in q:
        if c == "<":
            d += 1
        if d == 0:
            out += c
        if c == ">":
            d -= 1
    parts = [p for p in out.split("::") if p not in ("log_surgeon", "finite_automata")]
    return "::".join(parts[-2:]) if len(parts) > 1 else parts[0]


class Val:
    """A pure WhyML term."""
    def __init__(self, e, ty):
        self.e, self.ty = e, ty


class LV:
    pass


class LRef(LV):
    def __init__(self, name, ty):
        self.name, self.ty = name, ty


class LConst(LV):
    def __init__(self, e, ty):
        self.e, self.ty = e, ty


class LFlat(LV):
    """A class object whose fields are separate references prefix__field."""
    def __init__(self, prefix, ty):
        self.prefix, self.ty = prefix, ty


class LObj(LV):
    """A heap object at a location (Burstall memory: one map per field)."""
    def __init__(self, loc, ty):
        self.loc, self.ty = loc, ty


class LHeap(LV):
    def __init__(self, cls, field, loc, ty):
        self.cls, self.field, self.loc, self.ty = cls, field, loc, ty


class LImm(LV):
    def __init__(self, e, ty):
        self.e, self.ty = e, ty


class LField(LV):
    def __init__(self, b, field, ty):
        self.b, self.field, self.ty = b, field, ty


class LElem(LV):
    def __init__(self, b, idx, ty, kind):
        self.b, self.idx, self.ty, self.kind = b, idx, ty, kind  # kind: seq | arr | map | opt | buf


class Iter:
    """Iterator into a container. kind: find (key in e), begin, end, ins"""
    def __init__(self, kind, cont, key=None, ty=None):
        self.kind, self.cont, self.key, self.ty = kind, cont, key, ty
        self.found = None


class Lambda:
    def __init__(self, node):
        self.node = node


class Special:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class FnSpec:
    def __init__(self, requires=(), ensures=(), raises=None, loops=None, ghost=(), diverges=False, writes=(),
                 variant=None, params=None, pre="", inline_ok=False, params_extra=(), ret=None, locals=None,
                 val_requires=None, val_ensures=None, ret_ty=None, reads=(), noproof=False, this_nonnull=True, sig=None, vc=None):
        self.vc = vc or os.environ.get("VC", "sp")
        self.sig = sig
        self.requires, self.ensures = list(requires), list(ensures)
        self.raises = raises or {}
        self.loops = loops or {}
        self.ghost = list(ghost)
        self.diverges, self.writes, self.variant = diverges, list(writes), variant
        self.pre = pre
        self.params = params
        self.noproof = noproof
        self.ret_ty = ret_ty


class Unit:
    """What is translated together: memory model of the classes, contracts, prelude."""
    def __init__(self, name, entry, prelude, heap=(), single=(), flat=(), value=(), immutable=(), contracts=None,
                 type_alias=None, enums=(), opaque_calls=None, fieldmap=None, nullable=(), hooks=None, gtypes=None,
                 seq_bound=True, uses=""):
        self.name, self.entry, self.prelude = name, entry, prelude
        self.heap, self.single, self.flat = set(heap), set(single), set(flat)
        self.value, self.immutable = set(value), dict(immutable) if isinstance(immutable, dict) else {k: None for k in immutable}
        self.contracts = contracts or {}
        self.type_alias = type_alias or {}
        self.enums = set(enums)
        self.hooks = hooks or {}          # qualified name -> python function(translator, node, args) -> Val
        self.fieldmap = fieldmap or {}
        self.uses = uses


class Translator:
    def __init__(self, ast: AST, unit: Unit):
        self.ast, self.unit = ast, unit
        self.tp = TypeParser(unit)
        self.tp.const = self.const_by_name
        self.records = {}      # value class name -> list of (field, Ty)
        self.recorder = []
        self.heap_fields = {}  # (cls, field) -> Ty
        self.flat_fields = {}  # refname -> Ty
        self.exc_decls = []
        self.used_contracts = set()
        self.inlined = set()
        self.verified = {}
        self.dropped = set()

    def const_by_name(self, name):
        if not hasattr(self.ast, "constvals"):
            self.ast.constvals = {}
        if name not in self.ast.constvals:
            f = Fn.__new__(Fn)
            f.ast = self.ast
            v = None
            for o in self.ast.by_id.values():
                if o.get("kind") == "VarDecl" and o.get("name") == name and o.get("inner"):
                    v = f.constval(o["inner"][-1])
                    if v is not None:
                        break
            self.ast.constvals[name] = v
        v = self.ast.constvals[name]
        if v is None:
            raise ExtractionError("constant " + name)
        return v

    def enum_value(self, enum, name):
        for o in self.ast.by_id.values():
            if o.get("kind") == "EnumDecl" and o.get("name") == enum:
                val = -1
                for c in o.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        ex = [q for q in c.get("inner", []) if q.get("kind") == "ConstantExpr"]
                        val = int(ex[0]["value"]) if ex and "value" in ex[0] else val + 1
                        if c.get("name") == name:
                            return val
        raise ExtractionError("enumerator %s::%s" % (enum, name))

    # ---------------------------------------------------------------- types
    def cls_decl(self, name):
        c = [d for q, d in self.ast.classes.items() if base(q).split("::")[-1] == name and not q.endswith("::" + name + "::" + name)]
        if not c:
            raise ExtractionError("class " + name)
        arg = self.unit.fieldmap.get("instance", {}).get(name)
        if arg:
            c = [d for q, d in self.ast.classes.items() if re.search(r"\b%s<%s>$" % (name, re.escape(arg)), q)] or c
        # prefer concrete specialisations
        sp = [d for d in c if d["kind"] == "ClassTemplateSpecializationDecl" and any(k.get("kind") == "FieldDecl" for k in d.get("inner", []))]
        return (sp or c)[0]

    def fields(self, name):
        key = ("F", name)
        if key in self.records:
            return self.records[key]
        d = self.cls_decl(name)
        fs = []
        for c in d.get("inner", []) or []:
            if c.get("kind") == "FieldDecl":
                fs.append((c["name"], self.ty(c), c))
        self.records[key] = fs
        return fs

    def all_fields(self, name):
        fs = []
        d = self.cls_decl(name)
        for b in d.get("bases", []) or []:
            bn = self.tp.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            try:
                fs += self.all_fields(bn.n)
            except ExtractionError:
                pass
        return fs + self.fields(name)

    def ty(self, node):
        t = node["type"]
        s = t.get("desugaredQualType") or t["qualType"]
        if "(lambda" in s:
            return Ty("lambda")
        q = t["qualType"]
        try:
            r = self.tp.parse(s)
        except ExtractionError:
            r = self.tp.parse(q)
        return r

    def wty(self, t):
        k = t.k
        if k == "int":
            return "int"
        if k == "bool":
            return "bool"
        if k == "void":
            return "unit"
        if k in ("ptr",):
            if t.a and t.a[0].k == "int" and t.a[0].w == 8:
                return "cptr"
            if t.a and t.a[0].k == "rec" and t.a[0].n in self.unit.fieldmap.get("items", ()):
                return "cptr"
            if t.a and t.a[0].k == "rec" and t.a[0].n in self.unit.fieldmap.get("ptr_as", {}):
                return self.unit.fieldmap["ptr_as"][t.a[0].n]
            return "int"
        if k == "ref":
            return self.wty(t.a[0])
        if k in ("vec", "stack", "queue"):
            return "(seq %s)" % self.wty(t.a[0])
        if k == "arr":
            return "(map int %s)" % self.wty(t.a[0])
        if k == "set":
            return "(fset %s)" % self.wty(t.a[0])
        if k == "map":
            return "(mp %s %s)" % (self.wty(t.a[0]), self.wty(t.a[1]))
        if k == "opt":
            return "(option %s)" % self.wty(t.a[0])
        if k == "pair":
            return "(%s, %s)" % (self.wty(t.a[0]), self.wty(t.a[1]))
        if k == "rec":
            if t.n in self.unit.value:
                self.need_record(t.n)
                return "r_" + t.n.lower()
            if t.n in self.unit.heap:
                return "int"
        raise ExtractionError("no WhyML type for %r" % t)

    def mem(self, t):
        """The memory that a pointer of type t refers to."""
        et = t.a[0]
        return "mem_" + et.n.lower() if et.k == "rec" else "cmem"

    def need_record(self, n):
        if ("R", n) in self.records:
            return
        self.records[("R", n)] = True
        for f, t, _ in self.all_fields(n):
            self.wty(t)
        self.recorder.append(n)

    def fld(self, cls, f):
        return "%s_%s" % (cls.lower(), f)

    def default(self, t):
        k = t.k
        if k in ("int", "ptr"):
            return "cnull" if self.wty(t) == "cptr" else "0"
        if k == "bool":
            return "false"
        if k in ("vec", "stack", "queue"):
            return "(Seq.empty: %s)" % self.wty(t)
        if k == "set":
            return "(fempty: %s)" % self.wty(t)
        if k == "map":
            return "(mp_empty: %s)" % self.wty(t)
        if k == "opt":
            return "(None: %s)" % self.wty(t)
        if k == "arr":
            return "(aconst %s: %s)" % (self.default(t.a[0]), self.wty(t))
        if k == "pair":
            return "(%s, %s)" % (self.default(t.a[0]), self.default(t.a[1]))
        raise ExtractionError("default of %r" % t)

    def rng(self, t, e):
        if t.k == "int":
            if t.signed:
                return "(%d <= %s <= %d)" % (-(1 << (t.w - 1)), e, (1 << (t.w - 1)) - 1)
            return "(0 <= %s <= %d)" % (e, (1 << t.w) - 1)
        return None


LOGIC = {"mget": "Map.get", "fmem": "Fset.mem", "fadd": "Fset.add", "fremove": "Fset.remove", "funion": "Fset.union",
         "fempty": "Fset.empty", "mset": "Map.set"}


def logic(e):
    return re.sub(r"\b(mget|mset|fmem|fadd|fremove|funion|fempty)\b", lambda m: LOGIC[m.group(1)], e)


def is_unsigned(t):
    return t.k == "int" and not t.signed


class Fn:
    assigned = set()

    """Translates one function body."""
    def __init__(self, tr: Translator, fd, spec: FnSpec, qn):
        self.tr, self.unit, self.ast = tr, tr.unit, tr.ast
        self.fd, self.spec, self.qn = fd, spec, qn
        self.out = []
        self.env = {}         # decl id -> LV/Lambda/Iter
        self.names = {}       # source name -> list of LV (latest last)
        self.n = 0
        self.loopn = 0
        self.this = None
        self.retstack = []
        self.loopstack = []
        self.excs = []
        self.raised = set()
        self.writes = set()
        self.depth = 0
        self.calln = {}
        self.local_sig = []
        self.inl_stack = []

    # ------------------------------------------------------------ utilities
    def fresh(self, p="t"):
        self.n += 1
        p = re.sub(r"\W", "_", p)
        if not re.match(r"[a-z_]", p):
            p = "v" + p
        return "%s_%d" % (p, self.n)

    def emit(self, s):
        self.out.append(s)

    def obl(self, expl, f):
        self.nobl = getattr(self, "nobl", 0) + 1
        self.emit("assert { [@expl:%s] %s };" % (expl, logic(f)))

    def bind(self, e, p="t"):
        if re.fullmatch(r"-?\w+", e) or re.fullmatch(r"\(-\d+\)", e):
            return e
        t = self.fresh(p)
        self.emit("let %s = %s in" % (t, e))
        return t

    def sub(self, fn):
        sv = self.out
        self.out = []
        r = fn()
        o = self.out
        self.out = sv
        return o, r

    def block(self, lines, final="()"):
        return "begin\n" + "\n".join(lines) + "\n" + final + "\nend"

    def err(self, msg, node=None):
        raise ExtractionError("%s: %s%s" % (self.qn, msg, (" [" + node.get("kind", "?") + "]") if node else ""))

    # ---------------------------------------------------------- lvalues
    def read(self, lv):
        if isinstance(lv, Val):
            return lv
        if isinstance(lv, LRef):
            e = "!" + lv.name
            if lv.ty.k == "int":
                t = self.fresh("r")
                self.emit("let %s = rd_%s%d %s in" % (t, "i" if lv.ty.signed else "u", lv.ty.w, e))
                return Val(t, lv.ty)
            return Val(self.bind("!" + lv.name, "r"), lv.ty)
        e = self.pure(lv)
        if isinstance(lv, LConst):
            return Val(e, lv.ty)
        if lv.ty.k == "int":
            t = self.fresh("r")
            self.emit("let %s = rd_%s%d %s in" % (t, "i" if lv.ty.signed else "u", lv.ty.w, self.paren(e)))
            return Val(t, lv.ty)
        if isinstance(lv, (LObj,)):
            return Val(e, lv.ty)
        return Val(self.bind(e, "r"), lv.ty)

    def pure(self, lv):
        """Current value as a term that may dereference references (no emission)."""
        if isinstance(lv, Val):
            return lv.e
        if isinstance(lv, LRef):
            return "!" + lv.name
        if isinstance(lv, (LConst, LImm)):
            return lv.e
        if isinstance(lv, LObj):
            return lv.loc
        if isinstance(lv, LHeap):
            self.tr.heap_fields[(lv.cls, lv.field)] = lv.ty
            return "(mget !h_%s_%s %s)" % (lv.cls, lv.field, lv.loc)
        if isinstance(lv, LField):
            return "%s.%s" % (self.paren(self.pure(lv.b)), self.tr.fld(lv.b.ty.n, lv.field)) if lv.b.ty.k == "rec" else \
                "(%s %s)" % ("fst" if lv.field == "first" else "snd", self.pure(lv.b))
        if isinstance(lv, LElem):
            b = self.pure(lv.b)
            if lv.kind == "seq":
                return "(Seq.get %s %s)" % (b, lv.idx)
            if lv.kind == "arr":
                return "(mget %s %s)" % (b, lv.idx)
            if lv.kind == "map":
                return "(mp_get %s %s)" % (b, lv.idx)
            if lv.kind == "opt":
                return "(opt_get %s)" % b
            if lv.kind == "cptr":
                return "(mget (mget !%s %s.cbase) (%s.coff + %s))" % (self.tr.mem(lv.b.ty), b, b, lv.idx)
        if isinstance(lv, LFlat):
            n = lv.ty.n
            if n in self.unit.value:
                self.tr.need_record(n)
                return "{ " + "; ".join("%s = %s" % (self.tr.fld(n, f), self.pure(self.member(lv, f, t)))
                                        for f, t, _ in self.tr.all_fields(n)) + " }"
        self.err("cannot read %s %r" % (type(lv).__name__, getattr(lv, "ty", None)))

    def paren(self, e):
        return e if re.fullmatch(r"[\w']+|\(.*\)", e) and e.count("(") <= 1 else "(" + e + ")"

    def write(self, lv, e):
        if isinstance(lv, LRef):
            self.writes.add(lv.name)
            self.emit("%s := %s;" % (lv.name, e))
        elif isinstance(lv, LHeap):
            nm = "h_%s_%s" % (lv.cls, lv.field)
            self.tr.heap_fields[(lv.cls, lv.field)] = lv.ty
            self.writes.add(nm)
            self.emit("%s := mset !%s %s (%s);" % (nm, nm, lv.loc, e))
        elif isinstance(lv, LField):
            b = self.pure(lv.b)
            if lv.b.ty.k == "pair":
                self.write(lv.b, "(%s, snd %s)" % (e, b) if lv.field == "first" else "(fst %s, %s)" % (b, e))
            else:
                self.write(lv.b, "{ %s with %s = %s }" % (self.paren(b), self.tr.fld(lv.b.ty.n, lv.field), e))
        elif isinstance(lv, LElem):
            b = self.pure(lv.b)
            if lv.kind == "seq":
                self.write(lv.b, "seq_set %s %s (%s)" % (b, lv.idx, e))
            elif lv.kind == "arr":
                self.write(lv.b, "mset %s %s (%s)" % (b, lv.idx, e))
            elif lv.kind == "map":
                self.write(lv.b, "mp_set %s %s (%s)" % (b, lv.idx, e))
            elif lv.kind == "opt":
                self.write(lv.b, "Some (%s)" % e)
            elif lv.kind == "cptr":
                m = self.tr.mem(lv.b.ty)
                self.writes.add(m)
                self.emit("%s := mset !%s %s.cbase (mset (mget !%s %s.cbase) (%s.coff + %s) (%s));" % (m, m, b, m, b, b, lv.idx, e))
            else:
                self.err("write elem")
        elif isinstance(lv, LFlat):
            t = self.bind(e)
            for f, ft, _ in self.tr.all_fields(lv.ty.n):
                self.write(self.member(lv, f, ft), "%s.%s" % (t, self.tr.fld(lv.ty.n, f)))
        else:
            self.err("cannot write %s" % type(lv).__name__)

    def flatref(self, prefix, f, t):
        nm = "%s%s__%s" % ("o_" if prefix[0].isupper() else "", prefix, f)
        self.tr.flat_fields[nm] = t
        return LRef(nm, t)

    def member(self, obj, f, t):
        while t.k == "ref":
            t = t.a[0]
        if isinstance(obj, LFlat):
            fm = self.unit.fieldmap.get("%s.%s" % (obj.ty.n, f))
            if fm:
                return fm(self, obj)
            if t.k == "rec" and t.n in self.unit.single:
                return LFlat(t.n, t)
            if t.k == "rec" and t.n in self.unit.flat:
                return LFlat("%s__%s" % (obj.prefix, f), t)
            return self.flatref(obj.prefix, f, t)
        if isinstance(obj, LObj):
            if obj.ty.n in self.unit.immutable:
                return LImm("(f_%s %s)" % (f, obj.loc), t)
            if t.k == "rec" and t.n in self.unit.heap:
                return LObj("(sub_%s %s)" % (f, obj.loc), t)
            cls = obj.ty.n
            fm = self.unit.fieldmap.get("%s.%s" % (cls, f))
            if fm:
                return fm(self, obj)
            return LHeap(self.owner(cls, f), f, obj.loc, t)
        return LField(obj, f, t)

    def owner(self, cls, f):
        return self.unit.fieldmap.get("owner", {}).get(cls, cls)

    def deref(self, v):
        """Object designated by a pointer value."""
        t = v.ty
        if t.k == "ref":
            t = t.a[0]
        pt = t.a[0] if t.k == "ptr" else t
        while pt.k == "ref":
            pt = pt.a[0]
        if pt.k == "rec":
            if pt.n in self.unit.single:
                return LFlat(pt.n, pt)
            if pt.n in self.unit.heap or pt.n in self.unit.immutable:
                if pt.n in self.unit.heap and v.e != "this_":
                    self.obl("null dereference", "%s <> 0" % v.e)
                return LObj(v.e, pt)
        if getattr(v, "lv", None) is not None:
            return v.lv
        fm = self.unit.fieldmap.get("deref")
        if fm:
            r = fm(self, v)
            if r is not None:
                return r
        self.err("dereference of %r" % t)

    def as_obj(self, x):
        """lvalue or value of class type -> something with members"""
        if isinstance(x, (LFlat, LObj)):
            return x
        t = x.ty
        while t.k == "ref":
            t = t.a[0]
        if t.k == "rec" and (t.n in self.unit.heap or t.n in self.unit.immutable) and isinstance(x, (Val, LConst)):
            return LObj(x.e, t)
        return x

    # ---------------------------------------------------------- expressions
    def strip(self, n):
        while n.get("kind") in SKIP and len(n.get("inner", [])) == 1 or n.get("kind") in SKIP and n.get("inner"):
            n = n["inner"][-1] if n["kind"] == "ConstantExpr" else n["inner"][0]
        return n

    def rv(self, n):
        """Evaluates to a Val (pure term, already bound if effects require it)."""
        x = self.ev(n)
        return self.toval(x)

    def toval(self, x):
        if isinstance(x, Val):
            return x
        if isinstance(x, (Iter, Lambda, Special)):
            return x
        return self.read(x)

    def args(self, nodes):
        """Evaluates argument expressions left to right to values, protecting earlier ones from later effects."""
        res = []
        for n in nodes:
            res.append(self.rv(n))
        return res

    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.err("expression kind " + k)
        return m(n)

    def pass1(self, n):
        return self.ev(n["inner"][0])

    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ParenExpr = pass1
    e_SubstNonTypeTemplateParmExpr = pass1

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(n["inner"][0])

    def e_ConstantExpr(self, n):
        return self.ev(n["inner"][0])

    def e_CXXDefaultInitExpr(self, n):
        self.err("default init")

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            x = self.ev(n["inner"][0])
            return self.toval(x)
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay", "UncheckedDerivedToBase",
                  "DerivedToBase", "ArrayToPointerDecay", "BuiltinFnToFnPtr", "Dynamic", "BaseToDerived"):
            return self.ev(n["inner"][0])
        if ck == "NullToPointer":
            return Val(self.tr.default(self.tr.ty(n)), self.tr.ty(n))
        if ck == "ToVoid":
            self.ev(n["inner"][0])
            return Val("()", VOID)
        if ck in ("IntegralCast",):
            v = self.rv(n["inner"][0])
            return self.cast(v, self.tr.ty(n))
        if ck in ("IntegralToBoolean",):
            v = self.rv(n["inner"][0])
            return Val("(%s <> 0)" % v.e, BOOL)
        if ck == "PointerToBoolean":
            v = self.rv(n["inner"][0])
            return Val("(%s <> 0)" % v.e, BOOL)
        if ck == "BitCast":
            v = self.rv(n["inner"][0])
            return Val(v.e, self.tr.ty(n))
        self.err("cast " + str(ck))

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, v, t):
        if t.k == "ref":
            t = t.a[0]
        if v.ty.k == "bool" and t.k == "int":
            r = Val("(if %s then 1 else 0)" % v.e, t)
            r.asbool = v
            return r
        if t.k == "int" and v.ty.k == "int":
            if re.fullmatch(r"\d+", v.e) and int(v.e) < (1 << (t.w - (1 if t.signed else 0))):
                return Val(v.e, t)
            if v.ty.signed == t.signed and v.ty.w <= t.w:
                return Val(v.e, t)
            if not v.ty.signed and t.signed and v.ty.w < t.w:
                return Val(v.e, t)
            if t.signed:
                return Val("(wrap_i%d %s)" % (t.w, v.e), t)
            return Val("(wrap_u%d %s)" % (t.w, v.e), t)
        if t.k == "bool" and v.ty.k == "int":
            return Val("(%s <> 0)" % v.e, t)
        return Val(v.e, t)

    def e_IntegerLiteral(self, n):
        return Val(n["value"], self.tr.ty(n))

    def e_CharacterLiteral(self, n):
        v = int(n["value"])
        return Val(str(v) if v >= 0 else "(%d)" % v, self.tr.ty(n))

    def e_CXXBoolLiteralExpr(self, n):
        return Val("true" if n["value"] else "false", BOOL)

    def e_CXXNullPtrLiteralExpr(self, n):
        return Val("0", Ty("ptr", [VOID]))

    def e_GNUNullExpr(self, n):
        return Val("0", Ty("ptr", [VOID]))

    def e_StringLiteral(self, n):
        s = n["value"]
        try:
            import ast as pyast
            sv = pyast.literal_eval(s)
        except Exception:
            sv = "?"
        if sv in self.unit.fieldmap.get("lits", ()):
            return Val("lit_" + sv.encode().hex(), Ty("vec", [I(8)]))
        e = "(Seq.empty: seq int)"
        for c in sv:
            e = "(Seq.snoc %s %d)" % (e, ord(c))
        return Val(e, Ty("vec", [I(8)]))

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") == "sizeof":
            t = self.tr.tp.parse(n["argType"].get("desugaredQualType") or n["argType"]["qualType"]) if n.get("argType") else self.exprty(n["inner"][0])
            if t.k in ("int", "bool"):
                return Val(str(t.w // 8 if t.k == "int" else 1), self.tr.ty(n))
        self.err("sizeof")

    def e_CXXThisExpr(self, n):
        t = self.tr.ty(n)
        o = self.this
        v = Val(getattr(o, "loc", "this_"), t)
        v.lv = o
        return v

    def e_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        i = rd["id"]
        if i in self.env:
            return self.env[i]
        if rd["kind"] == "EnumConstantDecl":
            d = self.ast.by_id.get(i)
            par = self.ast.parent.get(i)
            val = -1
            for c in par["inner"]:
                if c["kind"] == "EnumConstantDecl":
                    ex = [q for q in c.get("inner", []) if q.get("kind") == "ConstantExpr"]
                    val = int(ex[0]["value"]) if ex and "value" in ex[0] else val + 1
                    if c["id"] == i:
                        return Val(str(val), U(32))
            self.err("enum")
        if rd["kind"] == "VarDecl":
            d = self.ast.by_id.get(i)
            nm = rd.get("name")
            if nm in self.unit.fieldmap.get("globals", {}):
                return self.unit.fieldmap["globals"][nm](self, n)
            if d is not None and d.get("inner") and (d.get("constexpr") or "const" in d["type"]["qualType"].split()):
                init = d["inner"][-1]
                cv = self.constval(init)
                if cv is not None:
                    return Val(str(cv), self.tr.ty(n))
                if self.strip(init).get("kind") == "StringLiteral":
                    return self.e_StringLiteral(self.strip(init))
            self.err("global variable %s" % nm)
        if rd["kind"] in FUNCS:
            return Special("fn", decl=rd)
        if rd["kind"] == "BindingDecl":
            return self.env[i]
        self.err("reference to %s %s" % (rd["kind"], rd.get("name")))

    def constval(self, n):
        n0 = n
        if "value" in n and n["kind"] in ("ConstantExpr", "IntegerLiteral", "CharacterLiteral"):
            return int(n["value"])
        if n["kind"] in SKIP or n["kind"] == "InitListExpr":
            return self.constval(n["inner"][0]) if n.get("inner") else None
        if n["kind"] == "BinaryOperator":
            a, b = self.constval(n["inner"][0]), self.constval(n["inner"][1])
            if a is None or b is None:
                return None
            return {"+": a + b, "-": a - b, "*": a * b}.get(n["opcode"])
        if n["kind"] == "DeclRefExpr":
            d = self.ast.by_id.get(n["referencedDecl"]["id"])
            if d is not None and d.get("inner"):
                return self.constval(d["inner"][-1])
        return None

    def e_MemberExpr(self, n):
        f = n["name"]
        b = n["inner"][0]
        if n.get("isArrow"):
            p = self.ev(b)
            if not isinstance(p, Val) and not isinstance(p, (Iter, Special)):
                p = self.toval(p)
            if isinstance(p, Iter):
                return self.iter_member(p, f)
            o = getattr(p, "lv", None) or self.deref(p)
        else:
            o = self.ev(b)
            if isinstance(o, Iter):
                return self.iter_member(o, f)
        md = self.ast.by_id.get(n.get("referencedMemberDecl"))
        if md is not None and md.get("kind") in ("VarDecl",):
            cv = self.constval(md["inner"][-1])
            if cv is not None:
                return Val(str(cv), self.tr.ty(n))
        o = self.as_obj(o)
        return self.member(o, f, self.tr.ty(n))

    def iter_member(self, it, f):
        c = it.cont
        ct = c.ty
        if it.kind in ("find", "elem"):
            if ct.k == "map":
                if f == "second":
                    return LElem(c, it.key, ct.a[1], "map")
                return Val(it.key, ct.a[0])
            if ct.k == "set":
                o = self.as_obj(Val(it.key, ct.a[0]))
                t = [ft for ff, ft, _ in self.tr.all_fields(ct.a[0].n) if ff == f][0]
                return self.member(o, f, t)
        self.err("iterator member " + f)

    def e_ArraySubscriptExpr(self, n):
        b = self.ev(n["inner"][0])
        i = self.rv(n["inner"][1])
        if isinstance(b, Val) and self.tr.wty(b.ty) == "cptr" or (not isinstance(b, Val) and b.ty.k == "ptr"):
            bv = self.toval(b)
            be = self.bind(bv.e)
            fm = self.unit.fieldmap.get("subscript")
            if fm:
                return fm(self, bv, i, self.tr.ty(n))
            ie = self.bind(i.e, "i")
            self.obl("index in bounds", "0 <= %s.coff + %s < csize %s.cbase" % (be, ie, be))
            self.obl_alive(be)
            return LElem(Val(be, bv.ty), ie, self.tr.ty(n), "cptr")
        return self.index(b, i, self.tr.ty(n))

    def obl_alive(self, p):
        if self.unit.fieldmap.get("alive"):
            self.obl("the block of the pointer is allocated", "Fset.mem %s.cbase !alive" % p)

    def ev_assigned(self, a):
        """The left side of an assignment: a missing element of a map needs no value of its own first."""
        self.assigned.add(self.strip(a).get("id"))
        return self.ev(a)

    def index(self, b, i, t, assigned=False):
        ie = self.bind(i.e, "i")
        bt = b.ty
        while bt.k == "ref":
            bt = bt.a[0]
        if bt.k == "arr":
            self.obl("index in bounds", "0 <= %s < %d" % (ie, bt.n))
            return LElem(b, ie, bt.a[0], "arr")
        if bt.k == "vec":
            self.obl("index in bounds", "0 <= %s < Seq.length %s" % (ie, self.pure(b)))
            return LElem(b, ie, bt.a[0], "seq")
        if bt.k == "map":
            if not assigned:
                self.emit_mapdef(b, ie)
            return LElem(b, ie, bt.a[1], "map")
        self.err("index of %r" % bt)

    def emit_mapdef(self, b, ie):
        bt = b.ty
        # operator[] default-constructs a missing element
        d = self.tr.default(bt.a[1])
        o, _ = self.sub(lambda: self.write(b, "mp_set %s %s %s" % (self.pure(b), ie, d)))
        self.emit("if not (mp_mem %s %s) then %s;" % (ie, self.pure(b), self.block(o)))

    BIN = {"<": "<", ">": ">", "<=": "<=", ">=": ">=", "+": "+", "-": "-", "*": "*"}

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op in ("&&", "||"):
            x = self.rv(a)
            o, y = self.sub(lambda: self.rv(b))
            if o:
                t = self.fresh("c")
                if op == "&&":
                    self.emit("let %s = if %s then %s else false in" % (t, x.e, self.block(o, y.e)))
                else:
                    self.emit("let %s = if %s then true else %s in" % (t, x.e, self.block(o, y.e)))
                return Val(t, BOOL)
            return Val("(%s %s %s)" % (x.e, op, y.e), BOOL)
        if op == "=":
            r = self.rv(b)
            l = self.ev_assigned(a)
            self.assign(l, r)
            return l
        if op == ",":
            self.ev(a)
            return self.ev(b)
        x = self.rv(a)
        y = self.rv(b)
        return self.binop(op, x, y, self.tr.ty(n))

    def assign(self, l, r):
        if isinstance(l, (LFlat,)) and isinstance(r, Val):
            self.write(l, r.e)
            return
        if isinstance(l, Special):
            self.err("assign special")
        self.write(l, r.e)

    def binop(self, op, x, y, t):
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_cmp(op, x, y)
        if op in ("==", "!="):
            return self.eq(op, x, y)
        if op in ("<", ">", "<=", ">="):
            if x.ty.k == "pair":
                e = {"<": "pair_lt %s %s", ">": "pair_lt %2$s %1$s"}
                if op == "<":
                    return Val("(pair_lt %s %s)" % (x.e, y.e), BOOL)
                if op == ">":
                    return Val("(pair_lt %s %s)" % (y.e, x.e), BOOL)
                self.err("pair compare")
            return Val("(%s %s %s)" % (x.e, op, y.e), BOOL)
        if x.ty.k == "ptr" or y.ty.k == "ptr":
            if self.tr.wty(x.ty) == "cptr" and op in ("+", "-") and y.ty.k == "int":
                return Val("{ cbase = %s.cbase; coff = %s.coff %s %s }" % (self.bind(x.e), self.bind(x.e), op, y.e), x.ty)
            h = self.unit.fieldmap.get("ptrarith")
            if h:
                return h(self, op, x, y, t)
            self.err("pointer arithmetic")
        if op in ("+", "-", "*"):
            e = "(%s %s %s)" % (x.e, op, y.e)
            if is_unsigned(t):
                return Val("(wrap_u%d %s)" % (t.w, e), t)
            r = self.bind(e, "a")
            self.obl("signed overflow", "%s" % self.tr.rng(t, r))
            return Val(r, t)
        if op in ("/", "%"):
            if not is_unsigned(t):
                self.err("signed division")
            self.obl("division by zero", "%s <> 0" % y.e)
            return Val("(%s %s %s)" % ("cdiv" if op == "/" else "cmod", x.e, y.e), t)
        self.err("operator " + op)

    def eq(self, op, x, y):
        neg = op == "!="
        if hasattr(x, "asbool") and hasattr(y, "asbool"):
            x, y = x.asbool, y.asbool
        if x.ty.k == "bool" and y.ty.k == "bool":
            if y.e in ("true", "false") or x.e in ("true", "false"):
                if x.e in ("true", "false"):
                    x, y = y, x
                pos = (y.e == "true") != neg
                return Val(x.e if pos else "(not %s)" % x.e, BOOL)
            return Val("(%sbool_eq %s %s)" % ("not " if neg else "", x.e, y.e), BOOL)
        wx = self.tr.wty(x.ty)
        if wx == "int" and x.e == "0" and self.tr.wty(y.ty) == "cptr":
            x, y, wx = y, x, "cptr"
        if wx == "cptr":
            if y.e == "0":
                y = Val("cnull", x.ty)
            if x.e == "0":
                x = Val("cnull", y.ty)
            return Val("(%scptr_eq %s %s)" % ("not " if neg else "", x.e, y.e), BOOL)
        if wx == "int":
            return Val("(%s %s %s)" % (x.e, "<>" if neg else "=", y.e), BOOL)
        if wx == "(seq int)":
            return Val("(%sseqint_eq %s %s)" % ("not " if neg else "", x.e, y.e), BOOL)
        if wx == "(int, int)":
            return Val("(%spair_eq %s %s)" % ("not " if neg else "", x.e, y.e), BOOL)
        self.err("comparison of %r" % x.ty)

    def iter_cmp(self, op, x, y):
        if isinstance(y, Iter) and isinstance(x, Iter):
            if x.kind == "end":
                x, y = y, x
            if x.kind == "find" and y.kind == "end":
                m = x.found or self.contains(x.cont, x.key)
                return Val("(not %s)" % m if op == "==" else m, BOOL)
            if x.kind == "begin" and y.kind == "end":
                return Val("(%s)" % self.isempty(x.cont) if op == "==" else "(not %s)" % self.isempty(x.cont), BOOL)
        self.err("iterator comparison")

    def contains(self, c, key):
        e = self.pure(c)
        if c.ty.k == "map":
            return "(mp_mem %s %s)" % (key, e)
        return "(fmem %s %s)" % (key, e)

    def isempty(self, c):
        e = self.pure(c)
        if c.ty.k == "map":
            return "(mp_is_empty %s)" % e
        if c.ty.k == "set":
            return "(fset_is_empty %s)" % e
        return "(Seq.length %s = 0)" % e

    def e_CompoundAssignOperator(self, n):
        l = self.ev(n["inner"][0])
        r = self.rv(n["inner"][1])
        cur = self.toval(l)
        t = self.tr.ty(n)
        op = n["opcode"][:-1]
        ct = self.tr.tp.parse(n["computeResultType"].get("desugaredQualType") or n["computeResultType"]["qualType"]) if "computeResultType" in n else t
        v = self.binop(op, self.cast(cur, ct), r, ct)
        v = self.cast(v, t if t.k != "ref" else t.a[0])
        self.assign(l, v)
        return l

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        if op == "!":
            v = self.rv(n["inner"][0])
            return Val("(not %s)" % v.e, BOOL)
        if op == "-":
            v = self.rv(n["inner"][0])
            t = self.tr.ty(n)
            return Val("(- %s)" % v.e if t.signed else "(wrap_u%d (- %s))" % (t.w, v.e), t)
        if op == "*":
            x = self.ev(n["inner"][0])
            if isinstance(x, Iter):
                if x.kind == "begin":
                    return self.itval(x)
                return Val(x.key, x.cont.ty.a[0])
            v = self.toval(x)
            return getattr(v, "lv", None) or self.deref(v)
        if op == "&":
            l = self.ev(n["inner"][0])
            t = self.tr.ty(n)
            h = self.unit.fieldmap.get("addressof")
            if h:
                r = h(self, l, t)
                if r is not None:
                    return r
            if isinstance(l, LObj):
                return Val(l.loc, t)
            v = Val("0", t)
            v.lv = l
            v.is_addr = True
            return v
        if op in ("++", "--"):
            l = self.ev(n["inner"][0])
            old = self.toval(l)
            t = old.ty
            oe = self.bind(old.e, "o")
            v = self.binop("+" if op == "++" else "-", Val(oe, t), Val("1", t), t)
            self.write(l, v.e)
            if n.get("isPostfix"):
                return Val(oe, t)
            return l
        if op == "+":
            return self.ev(n["inner"][0])
        self.err("unary " + op)

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        if self.is_assert(n):
            o, v = self.sub(lambda: self.rv(c))
            for l in o:
                self.emit(l)
            self.obl("C++ assert", self.bind(v.e, "cond"))
            return Val("()", VOID)
        cv = self.rv(c)
        oa, va = self.sub(lambda: self.rv(a))
        ob, vb = self.sub(lambda: self.rv(b))
        t = self.tr.ty(n)
        if t.k == "void":
            self.emit("if %s then %s else %s;" % (cv.e, self.block(oa), self.block(ob)))
            return Val("()", VOID)
        r = self.fresh("c")
        self.emit("let %s = if %s then %s else %s in" % (r, cv.e, self.block(oa, va.e), self.block(ob, vb.e)))
        return Val(r, va.ty if va.ty.k != "ptr" else t)

    def is_assert(self, n):
        def has(o):
            if isinstance(o, dict):
                if o.get("kind") == "DeclRefExpr" and o.get("referencedDecl", {}).get("name") == "__assert_fail":
                    return True
                return any(has(c) for c in o.get("inner", []) or [])
            return False
        return has(n["inner"][2])

    def e_CXXThrowExpr(self, n):
        # which exception: the class of the thrown object
        t = self.tr.ty(n["inner"][0]) if n.get("inner") else None
        nm = "Ex_" + (t.n if t is not None and t.k == "rec" else "other")
        self.raised.add(nm)
        self.emit("raise %s;" % nm)
        return Val("()", VOID)

    def e_LambdaExpr(self, n):
        return Lambda(n)

    def e_InitListExpr(self, n):
        t = self.tr.ty(n)
        inner = n.get("inner", []) or []
        if t.k in ("int", "bool", "ptr"):
            return self.rv(inner[0]) if inner else Val(self.tr.default(t), t)
        if t.k == "rec":
            return self.construct_agg(t, inner)
        if t.k in ("vec",):
            if len(inner) == 1 and self.exprty(inner[0]) == t:
                return self.rv(inner[0])
            e = "(Seq.empty: %s)" % self.tr.wty(t)
            for c in inner:
                v = self.rv(c)
                e = "(Seq.snoc %s %s)" % (e, v.e)
            return Val(self.bind(e), t)
        if t.k == "arr":
            inner = [c for c in (n.get("inner") or n.get("array_filler") or []) if c.get("kind") != "ImplicitValueInitExpr"]
            e = self.tr.default(t)
            i = 0
            for c in inner:
                if c.get("kind") == "InitListExpr" and len(inner) == 1:
                    return self.e_InitListExpr_arr(c, t)
                v = self.rv(c)
                e = "(mset %s %d %s)" % (e, i, v.e)
                i += 1
            return Val(e, t)
        if t.k == "pair":
            a = self.rv(inner[0])
            b = self.rv(inner[1])
            return Val("(%s, %s)" % (a.e, b.e), t)
        if t.k == "iter" and len(inner) == 1:
            return self.ev(inner[0])
        self.err("init list of %r" % t)

    def e_CXXStdInitializerListExpr(self, n):
        x = n["inner"][0]
        while x["kind"] in ("MaterializeTemporaryExpr", "ImplicitCastExpr", "ExprWithCleanups"):
            x = x["inner"][0]
        t = self.tr.ty(x)
        et = t.a[0]
        e = "(Seq.empty: %s)" % self.tr.wty(Ty("vec", [et]))
        for c in x.get("inner", []) or []:
            v = self.rv(c)
            e = "(Seq.snoc %s %s)" % (e, self.paren(v.e))
        return Val(self.bind(e), Ty("vec", [et]))

    def e_InitListExpr_arr(self, n, t):
        inner = [c for c in (n.get("inner") or n.get("array_filler") or []) if c.get("kind") != "ImplicitValueInitExpr"]
        e = self.tr.default(t)
        for i, c in enumerate(inner):
            v = self.rv(c)
            e = "(mset %s %d %s)" % (e, i, v.e)
        return Val(e, t)

    def construct_agg(self, t, inner):
        fs = self.tr.all_fields(t.n)
        vals = {}
        for (f, ft, fd), c in zip(fs, inner):
            if c["kind"] == "CXXDefaultInitExpr":
                vals[f] = self.field_default(fd, ft)
            else:
                vals[f] = self.rv(c)
        for f, ft, fd in fs:
            if f not in vals:
                vals[f] = self.field_default(fd, ft)
        return self.mkrec(t, vals)

    def field_default(self, fd, ft):
        init = [c for c in fd.get("inner", []) or [] if "kind" in c and not c["kind"].endswith("Attr")]
        if fd.get("hasInClassInitializer") and init:
            return self.rv(init[-1])
        return Val(self.tr.default(ft), ft)

    def mkrec(self, t, vals):
        self.tr.need_record(t.n)
        e = "{ " + "; ".join("%s = %s" % (self.tr.fld(t.n, f), vals[f].e) for f, ft, _ in self.tr.all_fields(t.n)) + " }"
        return Val(self.bind("(%s: r_%s)" % (e, t.n.lower()), "rec"), t)

    def e_CXXConstructExpr(self, n):
        t = self.tr.ty(n)
        inner = [c for c in (n.get("inner", []) or []) if c.get("kind") != "CXXDefaultArgExpr"]
        return self.construct(t, inner, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, inner, n=None):
        h = self.unit.hooks.get("construct:" + (t.n or t.k))
        if h:
            r = h(self, t, inner, n)
            if r is not None:
                return r
        if t.k in ("int", "bool"):
            return self.rv(inner[0]) if inner else Val(self.tr.default(t), t)
        if t.k == "rec" and t.n in self.unit.value:
            if len(inner) == 1:
                at = self.exprty(inner[0])
                if at == t:
                    return self.rv(inner[0])
            return self.run_ctor(t, inner, n)
        if t.k == "rec" and (t.n in self.unit.heap):
            if len(inner) == 1:
                return self.ev(inner[0])
        if t.k in ("ptr",):
            if not inner:
                return Val("0", t)
            v = self.ev(inner[0])
            if isinstance(v, Special):
                return v
            if not isinstance(v, Val):
                v = self.toval(v)
            r = Val(v.e, t)
            if getattr(v, "lv", None) is not None:
                r.lv = v.lv
            return r
        if t.k in ("set", "map", "stack", "queue", "vec"):
            if not inner:
                return Val(self.tr.default(t), t)
            if t.k == "vec" and len(inner) >= 1:
                i0 = self.exprty(inner[0])
                if i0.k == "int" and len(inner) <= 2 and (len(inner) == 1 or self.exprty(inner[1]).k == t.a[0].k):
                    n_ = self.rv(inner[0])
                    v = self.rv(inner[1]) if len(inner) == 2 else Val(self.tr.default(t.a[0]), t.a[0])
                    if v.ty.k == "int" and t.a[0].k == "int":
                        v = self.cast(v, t.a[0])
                    if re.search(r"string", (n or {}).get("type", {}).get("qualType", "")):
                        self.err("string(n, c)")
                    return Val(self.bind("seq_make %s %s" % (self.paren(n_.e), self.paren(v.e))), t)
                if len(inner) == 2 and t.a[0].k == "int" and i0.k == "ptr":
                    return self.string_range(inner, t)
            if len(inner) == 1:
                v = self.rv(inner[0])
                if isinstance(v, Special) and v.kind == "move":
                    v = v.val
                return Val(v.e, t)
            if len(inner) == 2:
                x, y = self.ev(inner[0]), self.ev(inner[1])
                if isinstance(x, Iter) and x.kind == "begin" and isinstance(y, Iter) and y.kind == "end":
                    return Val(self.bind(self.pure(x.cont)), t)
        if t.k == "opt":
            if not inner:
                return Val(self.tr.default(t), t)
            v = self.rv(inner[0])
            if v.ty.k == "opt" or v.e == "None":
                return Val(v.e, t)
            return Val("(Some %s)" % self.paren(v.e), t)
        if t.k == "pair":
            if len(inner) == 2:
                a = self.rv(inner[0])
                b = self.rv(inner[1])
                return Val("(%s, %s)" % (a.e, b.e), t)
            if len(inner) == 1:
                v = self.rv(inner[0])
                return Val(v.e, t)
        if t.k == "rec" and t.n == "nullopt_t":
            return Val("None", t)
        self.err("construct %r with %d args" % (t, len(inner)), n)

    def string_range(self, inner, t):
        a = self.rv(inner[0])
        b = self.rv(inner[1])
        ae, be = self.bind(a.e), self.bind(b.e)
        if self.exprty(inner[1]).k == "int":
            self.obl("range in bounds", "0 <= %s.coff /\\ 0 <= %s /\\ %s.coff + %s <= csize %s.cbase" % (ae, be, ae, be, ae))
            return Val(self.bind("cslice (mget !cmem %s.cbase) %s.coff (%s.coff + %s)" % (ae, ae, ae, be)), t)
        self.obl("range in bounds", "%s.cbase = %s.cbase /\\ 0 <= %s.coff <= %s.coff <= csize %s.cbase" % (ae, be, ae, be, ae))
        return Val(self.bind("cslice (mget !cmem %s.cbase) %s.coff %s.coff" % (ae, ae, be)), t)

    def exprty(self, n):
        t = self.tr.ty(n)
        while t.k == "ref":
            t = t.a[0]
        return t

    def find_ctor(self, t, inner, n):
        d = self.tr.cls_decl(t.n)
        cts = []
        def walk(o):
            for c in o.get("inner", []) or []:
                if c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit"):
                    cts.append(c)
                elif c.get("kind") == "FunctionTemplateDecl":
                    walk(c)
        walk(d)
        sel = None
        if n is not None and "ctorType" in n:
            for c in cts:
                if c["type"]["qualType"] == n["ctorType"]["qualType"]:
                    sel = c
        if sel is None:
            for c in cts:
                ps = [p for p in c.get("inner", []) or [] if p.get("kind") == "ParmVarDecl"]
                need = [p for p in ps if not p.get("init")]
                if len(need) <= len(inner) <= len(ps):
                    ok = True
                    for p, a in zip(ps, inner):
                        pt = self.tr.ty(p)
                        while pt.k == "ref":
                            pt = pt.a[0]
                        at = self.exprty(a) if isinstance(a, dict) else a.ty
                        if pt.k != at.k and not (pt.k in ("int", "bool", "opt") and at.k in ("int", "bool")):
                            ok = False
                    if ok:
                        sel = c
                        break
        return sel

    def run_ctor(self, t, inner, n, target=None):
        """Constructs a value of a value class (returns Val) or initialises the object `target`."""
        fs = self.tr.all_fields(t.n)
        c = self.find_ctor(t, inner, n)
        if c is None:
            if inner:
                if target is None:
                    return self.construct_agg(t, inner)
                self.err("constructor of %r" % t, n)
            vals = {f: self.field_default(fd, ft) for f, ft, fd in fs}
            if target is None:
                return self.mkrec(t, vals)
            for f, ft, fd in fs:
                self.write(self.member(target, f, ft), vals[f].e)
            return None
        d = self.ast.definition(c) or c
        ps = [p for p in d.get("inner", []) or [] if p.get("kind") == "ParmVarDecl"]
        for p, a in zip(ps, inner):
            v = self.rv(a) if isinstance(a, dict) else a
            if isinstance(v, Special) and v.kind == "move":
                v = v.val
            pt = self.tr.ty(p)
            while pt.k == "ref":
                pt = pt.a[0]
            v = self.coerce(v, pt)
            self.env[p["id"]] = LConst(self.bind(v.e), pt)
            self.env[p["id"]].lvv = getattr(v, "lv", None)
        for p in ps[len(inner):]:
            ini = [q for q in p.get("inner", []) if "kind" in q]
            v = self.rv(ini[-1])
            self.env[p["id"]] = LConst(v.e, v.ty)
        if target is None:
            tmp = LFlat(self.fresh("obj"), t)
            local = True
        vals = {}
        svthis = self.this
        inits = {}
        for q in d.get("inner", []) or []:
            if q.get("kind") == "CXXCtorInitializer":
                if "anyInit" in q:
                    inits[q["anyInit"]["name"]] = q["inner"][0]
                elif "baseInit" in q:
                    inits["@base"] = q["inner"][0]
        bodyn = [q for q in d.get("inner", []) if q.get("kind") == "CompoundStmt"]
        hasbody = bodyn and (bodyn[0].get("inner"))
        for f, ft, fd in fs:
            if f in inits and inits[f]["kind"] != "CXXDefaultInitExpr":
                ini = inits[f]
                v = self.rv(ini)
                if isinstance(v, Special) and v.kind == "move":
                    v = v.val
                v = self.coerce(v, ft)
            else:
                v = self.field_default(fd, ft)
            vals[f] = v
        if target is None:
            if hasbody:
                # run the body on a temporary with its own references
                for f, ft, fd in fs:
                    self.emit("let %s__%s = ref %s in" % (tmp.prefix, f, vals[f].e))
                self.this = tmp
                self.stmts(bodyn[0]["inner"])
                self.this = svthis
                return Val(self.bind("(%s: r_%s)" % (self.pure(tmp), t.n.lower()), "rec"), t)
            return self.mkrec(t, vals)
        for f, ft, fd in fs:
            self.write(self.member(target, f, ft), vals[f].e)
        if hasbody:
            self.this = target
            self.stmts(bodyn[0]["inner"])
            self.this = svthis
        return None

    def coerce(self, v, t):
        if t.k == "opt" and v.ty.k != "opt" and v.e != "None":
            return Val("(Some %s)" % self.paren(v.e), t)
        if t.k == "opt" and v.e == "None":
            return Val("(None: %s)" % self.tr.wty(t), t)
        return v

    def e_CXXScalarValueInitExpr(self, n):
        t = self.tr.ty(n)
        return Val(self.tr.default(t), t)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXNewExpr(self, n):
        t = self.tr.ty(n)
        ct = t.a[0]
        c = [q for q in n["inner"] if q.get("kind") in ("CXXConstructExpr",)]
        args = c[0].get("inner", []) if c else []
        return self.alloc(ct, args, c[0] if c else None)

    def alloc(self, ct, args, cn=None):
        h = self.unit.hooks.get("new:" + ct.n)
        if h:
            return h(self, ct, args, cn)
        vs = [self.rv(a) for a in args]
        l = self.fresh("new")
        self.emit("let %s = alloc_%s () in" % (l, ct.n))
        self.writes.add("next_" + ct.n)
        self.run_ctor(ct, vs, cn, target=LObj(l, ct))
        return Val(l, Ty("ptr", [ct]))

    # ---------------------------------------------------------- calls
    def e_CXXMemberCallExpr(self, n):
        me = n["inner"][0]
        while me["kind"] in SKIP:
            me = me["inner"][0]
        args = [a for a in n["inner"][1:]]
        f = me["name"]
        bn = me["inner"][0]
        decl = self.ast.by_id.get(me.get("referencedMemberDecl"))
        if me.get("isArrow"):
            p = self.ev(bn)
            if isinstance(p, Iter):
                obj = self.itval(p)
            elif isinstance(p, Val) and getattr(p, "lv", None) is not None:
                obj = p.lv
            else:
                p = self.toval(p)
                obj = getattr(p, "lv", None) or self.deref(p)
        else:
            obj = self.ev(bn)
        if isinstance(obj, Special):
            return self.special_call(obj, f, args, n)
        ot = obj.ty
        while ot.k == "ref":
            ot = ot.a[0]
        if ot.k == "rec":
            return self.method(obj, ot, f, args, decl, n)
        return self.container(obj, ot, f, args, n)

    def itval(self, it):
        ct = it.cont.ty
        if it.kind == "begin":
            # the first element in an unspecified order: any element
            if it.key is None:
                it.key = self.fresh("it")
                self.emit("let %s = fset_choose %s in" % (it.key, self.pure(it.cont)))
            return self.as_obj(Val(it.key, ct.a[0]))
        return self.as_obj(Val(it.key, ct.a[0] if ct.k == "set" else ct.a[1]))

    def special_call(self, sp, f, args, n):
        self.err("call on special " + sp.kind)

    def contract_for(self, q, decl):
        if q in self.unit.contracts:
            return q, self.unit.contracts[q]
        for k, sp in self.unit.contracts.items():
            if k.startswith(q + "#") and sp.sig and re.search(sp.sig, decl["type"]["qualType"]):
                return k, sp
        return q, None

    def method(self, obj, ot, f, args, decl, n):
        if decl is None:
            self.err("unknown method %s of %r" % (f, ot))
        q = base(self.ast.qualname(decl))
        h = self.unit.hooks.get(q)
        if h:
            return h(self, obj, args, n)
        if decl.get("kind") == "CXXConversionDecl":
            self.err("conversion")
        d = self.ast.definition(decl)
        q, sp = self.contract_for(q, decl)
        vspec = self.unit.contracts.get("virtual " + q)
        if vspec is not None and (decl.get("virtual") or decl.get("pure")):
            sp = vspec
        if sp is not None and not (self.inl_stack and False):
            return self.call_contract(q, sp, obj, args, decl if d is None else d, n)
        if d is None:
            self.err("no body for %s" % q)
        obj = self.as_obj(obj)
        return self.inline(d, obj, args, q)

    def params_of(self, d):
        return [p for p in d.get("inner", []) or [] if p.get("kind") == "ParmVarDecl"]

    def call_contract(self, q, sp, obj, args, d, n):
        self.tr.used_contracts.add(q)
        ps = self.params_of(d)
        out = []
        if obj is not None:
            o = self.as_obj(obj)
            if isinstance(o, LObj):
                out.append(o.loc)
            elif isinstance(o, (LField, LElem, LRef, LHeap)) :
                # method of a value object
                out.append(self.bind(self.pure(o)))
        post = []
        for p, a in zip(ps, args):
            if a.get("kind") == "CXXDefaultArgExpr":
                ini = [q2 for q2 in p.get("inner", []) if "kind" in q2]
                v = self.rv(ini[-1])
                out.append(self.paren(v.e))
                continue
            pt = self.tr.ty(p)
            mut = sp.params.get(p["name"]) if isinstance(sp.params, dict) else None
            x = self.ev(a)
            if pt.k == "ref" and self.is_nonconst_ref(p):
                t = pt.a[0]
                if t.k == "rec" and t.n in self.unit.single:
                    continue
                if isinstance(x, LRef):
                    out.append(x.name)
                    self.writes.add(x.name)
                    continue
                if isinstance(x, LFlat):
                    for f, ft, _ in self.tr.all_fields(x.ty.n):
                        lv = self.member(x, f, ft)
                        out.append(lv.name)
                        self.writes.add(lv.name)
                    continue
                if not isinstance(x, (Val, LConst)):
                    tmp = self.fresh("refarg")
                    self.emit("let %s = ref %s in" % (tmp, self.pure(x)))
                    out.append(tmp)
                    post.append((x, "!" + tmp))
                    continue
            if pt.k == "ptr" and isinstance(x, Val) and getattr(x, "is_addr", False):
                lv = x.lv
                if isinstance(lv, LRef):
                    out.append(lv.name)
                    self.writes.add(lv.name)
                    continue
            tt = pt.a[0] if pt.k in ("ref", "ptr") and pt.a else pt
            if tt.k == "rec" and tt.n in self.unit.single:
                continue
            v = self.toval(x)
            if isinstance(v, Special) and v.kind == "move":
                v = v.val
            out.append(self.paren(self.coerce(v, pt).e))
        name = cname(q)
        rt = self.ret_type(d) or self.exprty(n)
        for w in sp.writes:
            if "$" not in w:
                self.writes.add(w)
        for ex in sp.raises:
            self.raised.add(ex)
        self.anchor("call:%s:%d:before" % (q, self.calln.get(q, 0)))
        if not out:
            out = ["()"]
        res = "()"
        if rt.k == "void":
            self.emit("%s %s;" % (name, " ".join(out)))
        else:
            res = self.fresh("res")
            self.emit("let %s = %s %s in" % (res, name, " ".join(out)))
        for lv, e in post:
            self.write(lv, e)
        i = self.calln.get(q, 0)
        self.calln[q] = i + 1
        self.anchor("call:%s:%d:after" % (q, i), {"result": res})
        if rt.k == "ref":
            rt = rt.a[0]
        return Val(res, rt)

    def is_nonconst_ref(self, p):
        s = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        return s.strip().endswith("&") and not re.search(r"const\s*&$", s.strip()) and not s.strip().startswith("const ")

    def ret_type(self, d):
        s = d["type"]["qualType"]
        # trailing or leading return type
        m = re.search(r"->\s*(.*)$", s)
        if m:
            r = m.group(1)
        else:
            r = s[:s.index("(")].strip()
        r = r.strip()
        if r in ("", "auto"):
            return VOID
        rs = None
        try:
            t = self.tr.tp.parse(r)
        except ExtractionError:
            t = None
        return t

    def inline(self, d, obj, args, q):
        if self.depth > 40:
            self.err("inline depth")
        if q in self.inl_stack:
            self.err("recursion through %s without a contract" % q)
        self.tr.inlined.add(q)
        ps = self.params_of(d)
        bodyn = [c for c in d["inner"] if c.get("kind") == "CompoundStmt"][0]
        assigned = self.assigned_ids(bodyn)
        binds = []
        for p, a in zip(ps, args):
            if isinstance(a, dict) and a.get("kind") == "CXXDefaultArgExpr":
                ini = [q2 for q2 in p.get("inner", []) if "kind" in q2]
                a = ini[-1]
            pt = self.tr.ty(p)
            if isinstance(a, dict):
                x = self.ev(a)
            else:
                x = a
            if isinstance(x, Special) and x.kind == "move":
                x = x.val
            if pt.k == "ref":
                if isinstance(x, Val):
                    y = LConst(self.bind(x.e), pt.a[0])
                    y.lvv = getattr(x, "lv", None)
                    if getattr(x, "lv", None) is not None:
                        y = x
                    x = y
                binds.append((p, x))
            else:
                if isinstance(x, (Lambda, Iter)):
                    binds.append((p, x))
                    continue
                if pt.k == "ptr" and isinstance(x, Val) and getattr(x, "lv", None) is not None:
                    binds.append((p, x))
                    continue
                v = self.toval(x)
                if isinstance(v, Special):
                    binds.append((p, v))
                    continue
                v = self.coerce(v, pt)
                if pt.k == "rec" and pt.n in self.unit.single:
                    binds.append((p, x))
                elif p["id"] in assigned:
                    nm = self.fresh(p.get("name", "p"))
                    self.emit("let %s = ref %s in" % (nm, self.paren(v.e)))
                    binds.append((p, LRef(nm, pt)))
                else:
                    binds.append((p, LConst(self.bind(v.e, p.get("name", "p")), pt)))
        for p, x in binds:
            self.env[p["id"]] = x
            if p.get("name"):
                self.names.setdefault(p["name"], []).append(x)
        svthis = self.this
        if obj is not None:
            self.this = obj
        self.inl_stack.append(q)
        self.depth += 1
        r = self.run_body(bodyn, d)
        self.depth -= 1
        self.inl_stack.pop()
        self.this = svthis
        return r

    def assigned_ids(self, n):
        key = ("asg", n.get("id"))
        s = set()

        def root(e):
            while e.get("kind") in SKIP or e.get("kind") in ("MemberExpr", "ArraySubscriptExpr"):
                e = e["inner"][0]
            if e.get("kind") == "CXXOperatorCallExpr":
                return root(e["inner"][1])
            if e.get("kind") == "DeclRefExpr":
                s.add(e["referencedDecl"]["id"])

        def walk(e):
            k = e.get("kind")
            if k in ("BinaryOperator",) and e.get("opcode") == "=" or k == "CompoundAssignOperator":
                root(e["inner"][0])
            if k == "UnaryOperator" and e.get("opcode") in ("++", "--", "&"):
                root(e["inner"][0])
            if k == "CXXOperatorCallExpr":
                root(e["inner"][1])
            if k == "CXXMemberCallExpr":
                me = e["inner"][0]
                if me.get("inner"):
                    root(me["inner"][0])
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                for a in e["inner"][0 if k == "CXXConstructExpr" else 1:] if e.get("inner") else []:
                    if a.get("valueCategory") == "lvalue" or a.get("valueCategory") == "xvalue":
                        root(a)
            for c in e.get("inner", []) or []:
                walk(c)
        walk(n)
        return s

    def returns(self, n, top=True):
        """All ReturnStmt nodes of a body, not those of lambdas."""
        r = []

        def walk(e):
            if e.get("kind") == "LambdaExpr":
                return
            if e.get("kind") == "ReturnStmt":
                r.append(e)
            for c in e.get("inner", []) or []:
                walk(c)
        walk(n)
        return r

    def run_body(self, bodyn, d, rt=None):
        stm = bodyn.get("inner", []) or []
        stm = self.prune(stm)
        rets = self.returns({"inner": stm})
        if len(rets) == 0:
            self.stmts(stm)
            return Val("()", VOID)
        if len(rets) == 1 and stm and self.flat_last(stm) is rets[0]:
            self.stmts(stm, last_ret=True)
            r = self.last
            return r
        # general case: exception
        rt = rt or self.ret_type(d) if d is not None else rt
        if rt is None or rt.k == "auto":
            e = [x for x in rets if x.get("inner")]
            rt = self.exprty(e[0]["inner"][0]) if e else VOID
        if rt.k == "ref":
            rt = rt.a[0]
            # value semantics are enough unless the result is written through
        ex = "Ret%d_%d" % (len(self.tr.exc_decls), self.n)
        wt = self.tr.wty(rt)
        self.tr.exc_decls.append((ex, wt))
        self.retstack.append((ex, rt))
        o, _ = self.sub(lambda: self.stmts(stm))
        self.retstack.pop()
        if rt.k == "void":
            self.emit("(try %s with %s _ -> () end);" % (self.block(o), ex))
            return Val("()", VOID)
        r = self.fresh("ret")
        self.emit("let %s = (try %s with %s rv -> rv end) in" % (r, self.block(o, "absurd"), ex))
        return Val(r, rt)

    def flat_last(self, stm):
        l = stm[-1]
        while l.get("kind") == "CompoundStmt" and l.get("inner"):
            l = l["inner"][-1]
        return l

    def prune(self, stm):
        """if constexpr: only the selected branch (instantiated code)"""
        return stm

    def e_CallExpr(self, n):
        cal = self.strip(n["inner"][0])
        args = n["inner"][1:]
        if cal["kind"] != "DeclRefExpr":
            self.err("indirect call")
        rd = cal["referencedDecl"]
        nm = rd.get("name")
        if rd["id"] in self.env and isinstance(self.env[rd["id"]], Lambda):
            return self.call_lambda(self.env[rd["id"]], args)
        decl = self.ast.by_id.get(rd["id"])
        if decl is None:
            return self.stdcall(nm, args, n)
        q = base(self.ast.qualname(decl))
        h = self.unit.hooks.get(q)
        if h:
            return h(self, None, args, n)
        d = self.ast.definition(decl)
        q, sp = self.contract_for(q, decl)
        if sp is not None:
            return self.call_contract(q, sp, None, args, d or decl, n)
        if d is None:
            self.err("no body for " + q)
        return self.inline(d, None, args, q)

    def call_lambda(self, lam, args):
        n = lam.node
        # find operator() of the closure class
        rec = [c for c in n["inner"] if c.get("kind") == "CXXRecordDecl"][0]
        op = None

        def walk(o):
            nonlocal op
            for c in o.get("inner", []) or []:
                if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                    op = op or c
                elif c.get("kind") == "FunctionTemplateDecl":
                    walk(c)
        walk(rec)
        body = [c for c in n["inner"] if c.get("kind") == "CompoundStmt"]
        ps = self.params_of(op)
        d = {"inner": ps + [body[-1]], "type": op["type"], "kind": "CXXMethodDecl", "id": op["id"]}
        return self.inline(d, None, args, "lambda@" + n["id"])

    def stdcall(self, nm, args, n):
        if nm in ("move", "forward"):
            x = self.ev(args[0])
            if isinstance(x, Special):
                return x
            t = x.ty
            if t.k == "ptr" and not isinstance(x, Val):
                v = self.toval(x)
                e = self.bind(v.e)
                # moved-from unique_ptr is null
                if not isinstance(x, (LConst, LImm)) and "unique_ptr" in (args[0]["type"].get("desugaredQualType") or args[0]["type"]["qualType"]):
                    self.write(x, "0")
                return Val(e, t)
            if isinstance(x, Val):
                return x
            if isinstance(x, (LFlat, LObj)):
                return x
            v = Val(self.bind(self.pure(x)), x.ty)
            return v
        if nm in ("min", "max"):
            vs = self.args(args)
            if len(vs) == 2:
                return Val(self.bind("(%s %s %s)" % ("imin" if nm == "min" else "imax", vs[0].e, vs[1].e)), vs[0].ty if vs[0].ty.k != "ref" else vs[0].ty.a[0])
            v = vs[0]
            self.err("min/max of list")
        if nm == "sort" and len(args) == 2:
            x, y = self.ev(args[0]), self.ev(args[1])
            if isinstance(x, Iter) and x.kind == "begin" and isinstance(y, Iter) and y.kind == "end":
                return self.sort(x.cont)
        if nm == "copy" and len(args) == 3:
            f, l, d = [self.rv(x) for x in args]
            if all(self.tr.wty(v.ty) == "cptr" for v in (f, l, d)):
                fe, le, de = self.bind(f.e), self.bind(l.e), self.bind(d.e)
                self.obl("source of the copy", "%s.cbase = %s.cbase /\\ 0 <= %s.coff <= %s.coff <= csize %s.cbase" % (fe, le, fe, le, fe))
                self.obl("destination of the copy", "0 <= %s.coff /\\ %s.coff + (%s.coff - %s.coff) <= csize %s.cbase" % (de, de, le, fe, de))
                self.obl("destination of the copy outside the source", "%s.cbase <> %s.cbase \\/ not (%s.coff <= %s.coff < %s.coff)" % (fe, de, fe, de, le))
                if self.unit.fieldmap.get("alive"):
                    # an empty range may refer to no block
                    self.obl("the block of the pointer is allocated", "%s.coff = %s.coff \\/ (Fset.mem %s.cbase !alive /\\ Fset.mem %s.cbase !alive)" % (fe, le, fe, de))
                m = self.tr.mem(d.ty)
                self.writes.add(m)
                self.emit("%s := mset !%s %s.cbase (mblit (mget !%s %s.cbase) %s.coff %s.coff (mget !%s %s.cbase) %s.coff);" % (
                    m, m, de, self.tr.mem(f.ty), fe, fe, le, m, de, de))
                return Val("{ cbase = %s.cbase; coff = %s.coff + (%s.coff - %s.coff) }" % (de, de, le, fe), d.ty)
        if nm == "make_unique":
            t = self.tr.ty(n)
            return self.alloc(t.a[0], args)
        if nm == "make_pair":
            a = self.rv(args[0])
            b = self.rv(args[1])
            return Val("(%s, %s)" % (a.e, b.e), self.tr.ty(n))
        h = self.unit.hooks.get("std::" + nm)
        if h:
            return h(self, None, args, n)
        if nm == "__assert_fail":
            self.obl("C++ assert", "false")
            return Val("()", VOID)
        self.err("call of std function " + str(nm))

    def sort(self, c):
        t = c.ty
        while t.k == "ref":
            t = t.a[0]
        e = self.tr.wty(t.a[0])
        if e not in ("int", "(int, int)"):
            self.err("sort of %r" % t)
        self.write(c, "%s %s" % ("sort_int" if e == "int" else "sort_pair", self.paren(self.pure(c))))
        return Val("()", VOID)

    def e_CXXOperatorCallExpr(self, n):
        cal = self.strip(n["inner"][0])
        nm = cal["referencedDecl"]["name"]
        decl = self.ast.by_id.get(cal["referencedDecl"]["id"])
        args = n["inner"][1:]
        if nm == "operator()" and self.strip(args[0]).get("kind") == "DeclRefExpr" and \
                "__sort_fn" in (self.strip(args[0])["type"].get("desugaredQualType") or self.strip(args[0])["type"]["qualType"]) and \
                len([a for a in args[1:] if a.get("kind") != "CXXDefaultArgExpr"]) == 1:
            return self.sort(self.ev(args[1]))
        if nm == "operator()" and self.exprty(args[0]).k == "rec" and self.exprty(args[0]).n == "function" and \
                self.unit.hooks.get("std::function"):
            return self.unit.hooks["std::function"](self, args[0], args[1:], n)
        if nm == "operator()":
            x = self.ev(args[0])
            if isinstance(x, Lambda):
                return self.call_lambda(x, args[1:])
            if decl is not None:
                ot = x.ty
                return self.method(x, ot, nm, args[1:], decl, n)
        t0 = self.exprty(args[0])
        if decl is not None and decl.get("kind") in FUNCS and not decl.get("isImplicit") and self.ast.definition(decl) is not None \
                and self.ast.qualname(decl).startswith("log_surgeon"):
            x = self.ev(args[0])
            return self.method(x, t0, nm, args[1:], decl, n)
        if nm == "operator=":
            r = self.ev(args[1])
            l = self.ev_assigned(args[0])
            if isinstance(r, LFlat) and isinstance(l, LFlat):
                for f, ft, _ in self.tr.all_fields(l.ty.n):
                    self.write(self.member(l, f, ft), self.pure(self.member(r, f, ft)))
                return l
            v = self.toval(r)
            if isinstance(v, Special) and v.kind == "move":
                v = v.val
            lt = l.ty
            if lt.k == "opt":
                v = self.coerce(v, lt)
            self.write(l, v.e)
            return l
        if nm == "operator[]":
            b = self.ev(args[0])
            i = self.rv(args[1])
            return self.index(b, i, self.tr.ty(n), n.get("id") in self.assigned)
        if nm in ("operator*", "operator->"):
            x = self.ev(args[0])
            if isinstance(x, Iter):
                return x if nm == "operator->" else self.itval(x)
            v = self.toval(x)
            if nm == "operator->":
                return v
            return getattr(v, "lv", None) or self.deref(v)
        if nm in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator-"):
            x = self.rv(args[0])
            y = self.rv(args[1])
            return self.binop(nm[8:], x, y, BOOL)
        if nm == "operator+" and t0.k == "vec":
            x = self.rv(args[0])
            y = self.rv(args[1])
            if y.ty.k == "int":
                return Val(self.bind("(Seq.snoc %s %s)" % (x.e, y.e)), t0)
            return Val(self.bind("(Seq.(++) %s %s)" % (x.e, y.e)), t0)
        if nm == "operator+" and isinstance(self.ev, object):
            x = self.ev(args[0])
            if isinstance(x, Iter) and x.kind == "begin":
                i = self.rv(args[1])
                return Iter("pos", x.cont, self.bind(i.e))
        if nm == "operator+=" and t0.k == "vec":
            l = self.ev(args[0])
            y = self.rv(args[1])
            if y.ty.k == "int":
                self.write(l, "Seq.snoc %s %s" % (self.pure(l), self.paren(y.e)))
            else:
                self.write(l, "Seq.(++) %s %s" % (self.pure(l), self.paren(y.e)))
            return l
        if nm == "operator bool":
            v = self.rv(args[0])
            return Val("(%s <> 0)" % v.e, BOOL)
        self.err("operator call %s on %r" % (nm, t0), n)

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.ev(n["inner"][0])

    # containers ---------------------------------------------------------
    def lv_of(self, obj):
        if isinstance(obj, Val):
            return LConst(self.bind(obj.e), obj.ty)
        return obj

    def container(self, obj, t, f, args, n):
        obj = self.lv_of(obj)
        k = t.k
        m = getattr(self, "m_%s_%s" % (k, f.replace("operator ", "op_")), None)
        if m is None:
            self.err("method %s of %s" % (f, k))
        obj_t = obj
        if obj_t.ty.k == "ref":
            obj_t.ty = obj_t.ty.a[0]
        return m(obj, t, args, n)

    # vector / string
    def m_vec_size(self, o, t, a, n):
        e = self.fresh("sz")
        self.emit("let %s = seq_size %s in" % (e, self.pure(o)))
        return Val(e, U(64))

    m_vec_length = m_stack_size = m_queue_size = m_vec_size

    def m_vec_empty(self, o, t, a, n):
        return Val("(Seq.length %s = 0)" % self.paren(self.bind(self.pure(o))), BOOL)

    m_stack_empty = m_queue_empty = m_vec_empty

    def m_vec_at(self, o, t, a, n):
        i = self.rv(a[0])
        ie = self.bind(i.e, "i")
        self.raised.add("Ex_out_of_range")
        self.emit("if not (0 <= %s < Seq.length %s) then raise Ex_out_of_range;" % (ie, self.pure(o)))
        return LElem(o, ie, t.a[0], "seq")

    def m_vec_op_basic_string_view(self, o, t, a, n):
        return self.toval(o)

    def m_arr_at(self, o, t, a, n):
        i = self.rv(a[0])
        ie = self.bind(i.e, "i")
        self.raised.add("Ex_out_of_range")
        self.emit("if not (0 <= %s < %d) then raise Ex_out_of_range;" % (ie, t.n))
        return LElem(o, ie, t.a[0], "arr")

    def m_vec_back(self, o, t, a, n):
        self.obl("back of empty vector", "Seq.length %s > 0" % self.pure(o))
        i = self.bind("Seq.length %s - 1" % self.pure(o), "i")
        return LElem(o, i, t.a[0], "seq")

    m_stack_top = m_vec_back
    m_queue_back = m_vec_back

    def m_vec_front(self, o, t, a, n):
        self.obl("front of empty vector", "Seq.length %s > 0" % self.pure(o))
        return LElem(o, "0", t.a[0], "seq")

    m_queue_front = m_vec_front

    def m_vec_push_back(self, o, t, a, n):
        v = self.rv(a[0])
        if isinstance(v, Special):
            v = v.val
        self.write(o, "Seq.snoc %s %s" % (self.paren(self.pure(o)), self.paren(v.e)))
        return Val("()", VOID)

    m_stack_push = m_queue_push = m_vec_push_back

    def elem_construct(self, et, args):
        if et.k == "rec" and et.n in self.unit.value:
            if len(args) == 1 and self.exprty(args[0]) == et:
                return self.rv(args[0])
            vs = [self.rv(a) for a in args]
            return self.run_ctor(et, vs, None)
        if et.k == "pair" and len(args) == 2:
            x, y = self.rv(args[0]), self.rv(args[1])
            return Val("(%s, %s)" % (x.e, y.e), et)
        if len(args) == 1:
            v = self.rv(args[0])
            if et.k == "int" and v.ty.k == "int":
                v = self.cast(v, et)
            return v
        if not args:
            return Val(self.tr.default(et), et)
        h = self.unit.hooks.get("elem_construct")
        if h:
            return h(self, et, args)
        self.err("emplace of %r" % et)

    def m_vec_emplace_back(self, o, t, a, n):
        h = self.unit.hooks.get("emplace_back")
        if h:
            r = h(self, o, t, a, n)
            if r is not None:
                return r
        v = self.elem_construct(t.a[0], a)
        self.write(o, "Seq.snoc %s %s" % (self.paren(self.pure(o)), self.paren(v.e)))
        i = self.bind("Seq.length %s - 1" % self.pure(o), "i")
        return LElem(o, i, t.a[0], "seq")

    m_stack_emplace = m_queue_emplace = m_vec_emplace_back

    def m_vec_pop_back(self, o, t, a, n):
        self.obl("pop of empty vector", "Seq.length %s > 0" % self.pure(o))
        self.write(o, "seq_pop %s" % self.paren(self.pure(o)))
        return Val("()", VOID)

    m_stack_pop = m_vec_pop_back

    def m_queue_pop(self, o, t, a, n):
        self.obl("pop of empty queue", "Seq.length %s > 0" % self.pure(o))
        self.write(o, "seq_tail %s" % self.paren(self.pure(o)))
        return Val("()", VOID)

    def m_vec_clear(self, o, t, a, n):
        self.write(o, self.tr.default(t))
        return Val("()", VOID)

    m_set_clear = m_map_clear = m_vec_clear

    def m_vec_begin(self, o, t, a, n):
        return Iter("begin", o)

    m_vec_cbegin = m_set_begin = m_set_cbegin = m_map_begin = m_vec_begin

    def m_vec_end(self, o, t, a, n):
        return Iter("end", o)

    m_vec_cend = m_set_end = m_set_cend = m_map_end = m_map_cend = m_vec_end

    def m_vec_c_str(self, o, t, a, n):
        # only as the name of a file: the characters themselves
        return Val(self.bind(self.pure(o)), t)

    def m_vec_append(self, o, t, a, n):
        if len(a) == 2 and self.tr.wty(self.exprty(a[0])) == "cptr":
            v = self.string_range(a, t)
        elif len(a) == 1:
            v = self.rv(a[0])
        else:
            self.err("append")
        self.write(o, "Seq.(++) %s %s" % (self.paren(self.pure(o)), self.paren(v.e)))
        return o

    def m_vec_reserve(self, o, t, a, n):
        self.rv(a[0])
        return Val("()", VOID)

    def m_vec_insert(self, o, t, a, n):
        its = [self.ev(x) for x in a]
        if len(its) == 3 and all(isinstance(i, Iter) for i in its) and its[0].kind == "end" and its[1].kind == "begin" and its[2].kind == "end":
            c = its[1].cont
            if c.ty.k == "set":
                s = self.bind("set_seq %s" % self.pure(c))
            else:
                s = self.paren(self.pure(c))
            self.write(o, "Seq.(++) %s %s" % (self.paren(self.pure(o)), s))
            return Val("()", VOID)
        if len(its) == 2 and isinstance(its[0], Iter) and its[0].kind == "pos":
            v = self.toval(its[1])
            self.obl("insert position", "0 <= %s <= Seq.length %s" % (its[0].key, self.pure(o)))
            self.write(o, "seq_insert %s %s %s" % (self.paren(self.pure(o)), its[0].key, self.paren(v.e)))
            return Val("()", VOID)
        self.err("vector insert")

    # set
    def m_set_insert(self, o, t, a, n):
        if len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, Iter) and x.kind == "begin" and isinstance(y, Iter) and y.kind == "end":
                c = self.pure(x.cont)
                if x.cont.ty.k == "vec":
                    self.write(o, "funion %s (seq_elems %s)" % (self.paren(self.pure(o)), self.paren(c)))
                else:
                    self.write(o, "funion %s %s" % (self.paren(self.pure(o)), self.paren(c)))
                return Val("()", VOID)
            self.err("set insert range")
        v = self.rv(a[0])
        ve = self.bind(v.e, "k")
        was = self.bind("fmem %s %s" % (ve, self.paren(self.pure(o))), "was")
        self.write(o, "fadd %s %s" % (ve, self.paren(self.pure(o))))
        return Special("insres", was=was, cont=o, key=ve)

    def m_set_emplace(self, o, t, a, n):
        v = self.elem_construct(t.a[0], a)
        ve = self.bind(v.e, "k")
        was = self.bind("fmem %s %s" % (ve, self.paren(self.pure(o))), "was")
        self.write(o, "fadd %s %s" % (ve, self.paren(self.pure(o))))
        return Special("insres", was=was, cont=o, key=ve)

    def m_set_count(self, o, t, a, n):
        v = self.rv(a[0])
        return Val("(if fmem %s %s then 1 else 0)" % (self.paren(v.e), self.paren(self.pure(o))), U(64))

    def m_set_contains(self, o, t, a, n):
        v = self.rv(a[0])
        return Val(self.bind("fmem %s %s" % (self.paren(v.e), self.paren(self.pure(o)))), BOOL)

    def m_map_count(self, o, t, a, n):
        v = self.rv(a[0])
        return Val("(if mp_mem %s %s then 1 else 0)" % (self.paren(v.e), self.paren(self.pure(o))), U(64))

    def m_map_contains(self, o, t, a, n):
        v = self.rv(a[0])
        return Val(self.bind("mp_mem %s %s" % (self.paren(v.e), self.paren(self.pure(o)))), BOOL)

    def m_set_empty(self, o, t, a, n):
        return Val(self.bind("fset_is_empty %s" % self.paren(self.pure(o))), BOOL)

    def m_set_size(self, o, t, a, n):
        e = self.fresh("sz")
        self.emit("let %s = fset_size %s in" % (e, self.paren(self.pure(o))))
        return Val(e, U(64))

    def m_map_size(self, o, t, a, n):
        e = self.fresh("sz")
        self.emit("let %s = mp_size %s in" % (e, self.paren(self.pure(o))))
        return Val(e, U(64))

    def m_map_empty(self, o, t, a, n):
        return Val(self.bind("mp_is_empty %s" % self.paren(self.pure(o))), BOOL)

    def m_set_find(self, o, t, a, n):
        v = self.rv(a[0])
        return Iter("find", o, self.bind(v.e, "k"))

    m_map_find = m_set_find

    def m_set_erase(self, o, t, a, n):
        x = self.ev(a[0])
        if isinstance(x, Iter):
            if x.kind == "begin":
                self.itval(x)
            key = x.key
        else:
            key = self.bind(self.toval(x).e)
        self.write(o, "fremove %s %s" % (key, self.paren(self.pure(o))))
        return Val("()", VOID)

    # map
    def m_map_at(self, o, t, a, n):
        v = self.rv(a[0])
        k = self.bind(v.e, "k")
        self.raised.add("Ex_out_of_range")
        self.emit("if not (mp_mem %s %s) then raise Ex_out_of_range;" % (k, self.paren(self.pure(o))))
        return LElem(o, k, t.a[1], "map")

    def m_map_emplace(self, o, t, a, n):
        k = self.rv(a[0])
        ke = self.bind(k.e, "k")
        v = self.rv(a[1])
        ve = self.bind(v.e)
        was = self.bind("mp_mem %s %s" % (ke, self.paren(self.pure(o))), "was")
        w, _ = self.sub(lambda: self.write(o, "mp_set %s %s %s" % (self.paren(self.pure(o)), ke, ve)))
        self.emit("if not %s then %s;" % (was, self.block(w)))
        return Special("insres", was=was, cont=o, key=ke)

    def m_map_try_emplace(self, o, t, a, n):
        return self.m_map_emplace(o, t, a, n)

    # optional
    def m_opt_has_value(self, o, t, a, n):
        return Val(self.bind("opt_some %s" % self.paren(self.pure(o))), BOOL)

    def m_opt_value(self, o, t, a, n):
        self.obl("optional has a value", "opt_some %s" % self.paren(self.pure(o)))
        return LElem(o, None, t.a[0], "opt")

    # vectors whose storage is reached through pointers: a block each, which stays where it is when the vectors move
    def m_blocks_emplace_back(self, o, t, a, n):
        v = self.rv(a[0])
        b = self.fresh("blk")
        self.emit("let %s = alloc_block %s in" % (b, self.paren(v.e)))
        self.writes.add("alive")
        self.write(o, "Seq.snoc %s %s" % (self.paren(self.pure(o)), b))
        return LConst(b, Ty("block", t.a))

    def m_blocks_clear(self, o, t, a, n):
        self.writes.add("alive")
        self.emit("alive := fdiff !alive (seq_elems %s);" % self.paren(self.pure(o)))
        self.write(o, "(Seq.empty: seq int)")
        return Val("()", VOID)

    def m_block_data(self, o, t, a, n):
        return Val("{ cbase = %s; coff = 0 }" % o.e, Ty("ptr", t.a))

    # unique_ptr
    def m_ptr_get(self, o, t, a, n):
        v = self.toval(o)
        return Val(v.e, Ty("ptr", [t.a[0]]))

    def m_ptr_reset(self, o, t, a, n):
        if a:
            v = self.rv(a[0])
            self.write(o, v.e)
        else:
            self.write(o, "0")
        return Val("()", VOID)

    def m_ptr_release(self, o, t, a, n):
        v = self.toval(o)
        e = self.bind(v.e)
        self.write(o, "0")
        return Val(e, t)

    def m_ptr_op_bool(self, o, t, a, n):
        v = self.toval(o)
        return Val("(%s <> 0)" % v.e, BOOL)

    # ---------------------------------------------------------- statements
    def stmts(self, ss, last_ret=False):
        for i, s in enumerate(ss):
            self.stmt(s, last_ret and i == len(ss) - 1)

    def stmt(self, s, last_ret=False):
        k = s["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            if k in ("ReturnStmt", "CompoundStmt"):
                return m(s, last_ret)
            return m(s)
        x = self.ev(s)
        return None

    def s_NullStmt(self, s):
        pass

    def s_CompoundStmt(self, s, last_ret=False):
        self.stmts(s.get("inner", []) or [], last_ret)

    def s_DeclStmt(self, s):
        for d in s["inner"]:
            if d["kind"] == "VarDecl":
                self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "CXXRecordDecl", "UsingDecl", "StaticAssertDecl"):
                pass
            elif d["kind"] == "DecompositionDecl":
                self.err("decomposition")
            else:
                self.err("declaration " + d["kind"])

    def vardecl(self, d):
        t = self.tr.ty(d)
        nm = d.get("name", "v")
        inner = [c for c in d.get("inner", []) or [] if not c["kind"].endswith("Attr")]
        init = inner[-1] if inner else None
        if t.k == "lambda" or (init is not None and self.strip(init)["kind"] == "LambdaExpr"):
            self.env[d["id"]] = Lambda(self.strip(init))
            return
        if t.k == "ref":
            x = self.ev(init)
            if isinstance(x, Val) and getattr(x, "lv", None) is None:
                x = LConst(self.bind(x.e, nm), t.a[0])
            self.keep_iter(x)
            self.setvar(d, x)
            return
        h = self.unit.hooks.get("vardecl")
        if h:
            r = h(self, d, t, init)
            if r is not None:
                self.setvar(d, r)
                return
        if t.k == "rec" and t.n in self.unit.flat and t.n not in self.unit.value:
            self.err("local object of class %s" % t.n)
        if init is None:
            if t.k in ("int", "bool", "ptr"):
                e = self.fresh("any")
                self.emit("let %s = any_%s () in" % (e, self.tr.wty(t)))
                v = Val(e, t)
            elif t.k == "rec" and t.n in self.unit.value:
                v = self.run_ctor(t, [], None)
            else:
                v = Val(self.tr.default(t), t)
        else:
            x = self.ev(init)
            if isinstance(x, (Iter, Special)) and not (isinstance(x, Special) and x.kind == "move"):
                self.keep_iter(x)
                self.setvar(d, x)
                return
            v = self.toval(x)
        if isinstance(v, Special) and v.kind == "move":
            v = v.val
        if getattr(v, "lv", None) is not None and t.k == "ptr":
            self.setvar(d, v)
            return
        v = self.coerce(v, t)
        q = d["type"]["qualType"]
        isconst = (q.startswith("const ") and not q.rstrip().endswith("*")) or re.search(r"\*\s*const$", q) is not None
        name = self.fresh(nm)
        if isconst:
            self.emit("let %s = %s in" % (name, v.e))
            self.setvar(d, LConst(name, t))
        else:
            self.emit("let %s = ref %s in" % (name, self.paren(v.e) if " " in v.e else v.e))
            self.setvar(d, LRef(name, t))

    def keep_iter(self, x):
        """A stored iterator was found or not when it was made, whatever happens to the container later."""
        if isinstance(x, Iter) and x.kind == "find" and not x.found:
            x.found = self.bind(self.contains(x.cont, x.key), "found")

    def setvar(self, d, x):
        self.env[d["id"]] = x
        self.names.setdefault(d.get("name"), []).append(x)
        if not self.inl_stack:
            self.local_sig.append((d.get("name"), repr(self.tr.ty(d)) if d.get("type") else "?"))

    def s_ReturnStmt(self, s, last_ret=False):
        inner = s.get("inner", []) or []
        if last_ret:
            self.last = self.ev(inner[0]) if inner else Val("()", VOID)
            if isinstance(self.last, Val) and self.retcoerce() is not None and isinstance(self.last, Val):
                self.last = self.coerce(self.last, self.retcoerce())
            return
        ex, rt = self.retstack[-1]
        if inner:
            v = self.rv(inner[0])
            if isinstance(v, Special) and v.kind == "move":
                v = v.val
            v = self.coerce(v, rt)
            if rt.k == "void":
                self.emit("raise (%s ());" % ex)
            else:
                self.emit("raise (%s %s);" % (ex, self.paren(v.e) if not v.e.startswith("(") else v.e))
        else:
            self.emit("raise (%s ());" % ex)

    def retcoerce(self):
        return None

    def s_IfStmt(self, s):
        inner = list(s["inner"])
        if s.get("hasInit"):
            self.stmt(inner.pop(0))
        if s.get("hasVar"):
            self.stmt(inner.pop(0))
        c = inner[0]
        th = inner[1]
        el = inner[2] if len(inner) > 2 else None
        if s.get("isConstexpr"):
            v = self.constbool(c)
            if v is not None:
                if v:
                    self.stmt(th)
                elif el is not None:
                    self.stmt(el)
                return
        cv = self.rv(c)
        o1, _ = self.sub(lambda: self.stmt(th))
        o2, _ = self.sub(lambda: self.stmt(el)) if el is not None else ([], None)
        self.emit("if %s then %s else %s;" % (cv.e, self.block(o1), self.block(o2)))

    def constbool(self, c):
        c0 = c
        if c.get("kind") == "ConstantExpr" and "value" in c:
            return c["value"] in ("true", "1", True)
        return None

    def s_BreakStmt(self, s):
        l = self.loopstack[-1]
        l["brk"] = True
        self.emit("raise %s;" % l["b"])

    def s_ContinueStmt(self, s):
        l = self.loopstack[-1]
        l["cont"] = True
        self.emit("raise %s;" % l["c"])

    def new_loop(self):
        i = self.loopn
        self.loopn += 1
        return i, {"b": "Brk%d_%d" % (i, len(self.tr.exc_decls)), "c": "Cont%d_%d" % (i, len(self.tr.exc_decls)), "i": i}

    def loop(self, i, L, condf, bodyf, incf, auto_inv=(), auto_var=None):
        """Emits a while loop with the invariants of the specification."""
        sp = self.spec.loops.get(i, {})
        if isinstance(sp, (list, tuple)):
            sp = {"inv": sp}
        self.tr.exc_decls.append((L["b"], None))
        self.tr.exc_decls.append((L["c"], None))
        self.anchor("loop:%d:before" % i)
        self.loopstack.append(L)
        oc, cv = self.sub(condf)
        ob, _ = self.sub(lambda: (self.anchor("loop:%d:begin" % i), bodyf(), self.anchor("loop:%d:end" % i)))
        oi, _ = self.sub(incf)
        self.loopstack.pop()
        invs = []
        for x in auto_inv:
            invs.append("invariant { [@expl:loop %d auto] %s }" % (i, x))
        for j, x in enumerate(sp.get("inv", [])):
            invs.append("invariant { [@expl:loop %d invariant %d] %s }" % (i, j, self.subst(x)))
        var = sp.get("var") or auto_var
        if var:
            invs.append("variant { %s }" % self.subst(var))
        elif not self.spec.diverges:
            self.err("loop %d has no variant" % i)
        body = self.block(ob)
        if L.get("cont"):
            body = "(try %s with %s -> () end)" % (body, L["c"])
        brk = L.get("brk")
        if oc:
            brk = True
            w = "while true do\n%s\n%s\nif not %s then raise %s;\n%s;\n%s\ndone" % (
                "\n".join(invs), "\n".join(oc), self.paren(cv), L["b"], body, "\n".join(oi) + "\n()")
        else:
            w = "while %s do\n%s\n%s;\n%s\ndone" % (cv, "\n".join(invs), body, "\n".join(oi) + "\n()")
        if brk:
            w = "(try %s with %s -> () end)" % (w, L["b"])
        self.emit(w + ";")
        self.anchor("loop:%d:after" % i)

    def s_WhileStmt(self, s):
        c, b = s["inner"][-2], s["inner"][-1]
        i, L = self.new_loop()
        self.loop(i, L, lambda: self.rv(c).e, lambda: self.stmt(b), lambda: None)

    def s_ForStmt(self, s):
        init, cv, cond, inc, body = s["inner"]
        i, L = self.new_loop()
        if init.get("kind"):
            self.stmt(init)
        auto, var = [], None
        # canonical counting loops: bounds of the counter
        iv = None
        if init.get("kind") == "DeclStmt" and len(init["inner"]) == 1 and init["inner"][0].get("kind") == "VarDecl":
            iv = self.env.get(init["inner"][0]["id"])
        if isinstance(iv, LRef) and inc.get("kind") == "UnaryOperator" and inc.get("opcode") == "++":
            if is_unsigned(iv.ty):
                auto.append("0 <= !%s" % iv.name)
            c = self.strip(cond) if cond.get("kind") else {}
            if c.get("kind") == "BinaryOperator" and c.get("opcode") in ("<", "<="):
                lhs = self.strip(c["inner"][0])
                if lhs.get("kind") == "DeclRefExpr" and self.env.get(lhs["referencedDecl"]["id"]) is iv:
                    bound = self.constval(c["inner"][1])
                    lo = None
                    if bound is not None:
                        hi = bound if c["opcode"] == "<" else bound + 1
                        initc = self.constval(init["inner"][0]["inner"][-1])
                        if initc is not None:
                            auto = ["%d <= !%s <= %d" % (initc, iv.name, max(hi, initc))]
                        var = "%d - !%s" % (hi, iv.name)
        if isinstance(iv, LRef):
            self.names.setdefault("#i%d" % i, []).append(iv)
        self.loop(i, L, (lambda: self.rv(cond).e) if cond.get("kind") else (lambda: "true"), lambda: self.stmt(body),
                  (lambda: self.ev(inc)) if inc.get("kind") else (lambda: None), auto, var)

    def s_DoStmt(self, s):
        self.err("do loop")

    def s_CXXForRangeStmt(self, s):
        ns = [c for c in s["inner"] if isinstance(c, dict) and c.get("kind")]
        body = ns[-1]
        lvd = ns[-2]["inner"][0]
        rng = None
        for c in ns:
            if c["kind"] == "DeclStmt" and c["inner"][0].get("name", "").startswith("__range"):
                rng = c["inner"][0]["inner"][-1]
        i, L = self.new_loop()
        x = self.ev(rng)
        if isinstance(x, Val):
            x = LConst(self.bind(x.e), x.ty)
        t = x.ty
        while t.k == "ref":
            t = t.a[0]
        idx = self.fresh("idx%d" % i)
        seqn = self.fresh("seq%d" % i)
        vt = self.tr.ty(lvd)
        byref = vt.k == "ref" and not (lvd["type"].get("desugaredQualType") or lvd["type"]["qualType"]).startswith("const")
        if t.k in ("vec",):
            self.emit("let %s = %s in" % (seqn, self.pure(x)))
            et = t.a[0]
        elif t.k == "set":
            ordered = t.a[0].k == "int"
            self.emit("let %s = %s %s in" % (seqn, "set_seq_sorted" if ordered else "set_seq", self.paren(self.pure(x))))
            et = t.a[0]
        elif t.k == "map":
            ordered = t.a[0].k == "int"
            self.emit("let %s = %s %s in" % (seqn, "mp_seq_sorted" if ordered else "mp_seq", self.paren(self.pure(x))))
            et = Ty("pair", t.a)
        elif t.k == "arr":
            et = t.a[0]
            seqn = None
        else:
            self.err("range for over %r" % t)
        self.emit("let %s = ref 0 in" % idx)
        self.names.setdefault("#idx%d" % i, []).append(LRef(idx, U(64)))
        ln = str(t.n) if t.k == "arr" else "Seq.length %s" % seqn
        if seqn:
            self.names.setdefault("#seq%d" % i, []).append(LConst(seqn, Ty("vec", [et])))
        writes_before = set(self.writes)

        def bodyf():
            ie = self.bind("!%s" % idx, "ix")
            if t.k == "arr":
                lv = LElem(x, ie, et, "arr")
            elif t.k == "vec" and byref:
                lv = LElem(x, ie, et, "seq")
            else:
                lv = LConst(self.bind("Seq.get %s %s" % (seqn, ie), lvd.get("name") or "el"), et)
                if is_unsigned(et):
                    e2 = self.fresh("r")
                    self.emit("let %s = rd_u%d %s in" % (e2, et.w, lv.e))
                    lv = LConst(e2, et)
            if lvd["kind"] == "DecompositionDecl":
                bs = [c for c in lvd["inner"] if c["kind"] == "BindingDecl"]
                tt = et.a
                for b, nm2, ct in zip(bs, ("first", "second"), tt):
                    bl = LField(lv, nm2, ct)
                    if is_unsigned(ct):
                        bl = LConst(self.read(bl).e, ct)
                    self.env[b["id"]] = bl
                    # references to bindings carry the binding's id
                    self.names.setdefault(b.get("name"), []).append(bl)
            elif vt.k == "ref":
                self.setvar(lvd, lv)
            else:
                v = self.toval(lv)
                if lvd["id"] in self.assigned_ids(body):
                    nm = self.fresh(lvd["name"])
                    self.emit("let %s = ref %s in" % (nm, self.paren(v.e)))
                    self.setvar(lvd, LRef(nm, vt))
                else:
                    self.setvar(lvd, LConst(v.e, vt))
            self.stmt(body)

        self.loop(i, L, lambda: "!%s < %s" % (idx, ln), bodyf, lambda: self.emit("%s := !%s + 1;" % (idx, idx)),
                  ["0 <= !%s <= %s" % (idx, ln)], "%s - !%s" % (ln, idx))
        if seqn and not byref and t.k == "vec" and isinstance(x, LRef) and x.name in self.writes - writes_before:
            self.err("container modified while iterated")

    def s_CXXTryStmt(self, s):
        self.err("try")

    def s_SwitchStmt(self, s):
        self.err("switch")

    # ---------------------------------------------------------- specification hooks
    def anchor(self, name, extra=None):
        for a, text in self.spec.ghost:
            if a == name:
                self.used_anchors.add(a)
                t = text
                self.writes |= set(re.findall(r"(?<![\w$.])([a-z]\w*) :=", text))
                for k2, v2 in (extra or {}).items():
                    t = t.replace("$" + k2, v2)
                self.emit(self.subst(t))

    used_anchors = None

    def resolve(self, path):
        parts = path.split(".")
        nm = parts[0]
        if nm == "this":
            lv = self.this
        else:
            if nm in self.names and self.names[nm]:
                lv = self.names[nm][-1]
            else:
                al = self.rename.get(nm)
                if al is None or al not in self.names:
                    raise ExtractionError("%s: specification refers to %s, which does not exist here" % (self.qn, path))
                lv = self.names[al][-1]
        for f in parts[1:]:
            if isinstance(lv, Val):
                lv = getattr(lv, "lv", None) or self.deref(lv)
            t = lv.ty
            while t.k == "ref":
                t = t.a[0]
            if t.k == "ptr":
                sv = self.out
                self.out = []
                lv = self.deref(Val(self.pure(lv), t))
                self.out = sv
                t = lv.ty
            ft = [ft for ff, ft, _ in self.tr.all_fields(t.n) if ff == f]
            if not ft:
                raise ExtractionError("%s: specification refers to field %s, which does not exist" % (self.qn, path))
            lv = self.member(self.as_obj(lv), f, ft[0])
        return lv

    rename = {}

    def subst(self, text):
        def r(m):
            lv = self.resolve(m.group(1))
            e = logic(self.pure(lv))
            return e if re.fullmatch(r"!?\w+", e) else "(" + e + ")"
        return re.sub(r"\$(#?[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)", r, text)


def _insres(self, n):
    pass


# `.second` / `.first` of an insertion result
_old_member = Fn.e_MemberExpr


def e_MemberExpr(self, n):
    if not n.get("isArrow") and n["name"] in ("second", "first"):
        b = self.strip(n["inner"][0])
        if b["kind"] in ("CXXMemberCallExpr", "DeclRefExpr"):
            x = self.ev(b)
            if isinstance(x, Special) and x.kind == "insres":
                if n["name"] == "second":
                    return Val("(not %s)" % x.was, BOOL)
                return Iter("find", x.cont, x.key)
            if isinstance(x, Iter):
                return self.iter_member(x, n["name"])
            o = self.as_obj(x)
            return self.member(o, n["name"], self.tr.ty(n))
    return _old_member(self, n)


Fn.e_MemberExpr = e_MemberExpr


def cname(q):
    return "c_" + re.sub(r"\W+", "_", q.replace("~", "dtor_").replace("virtual ", "virtual_"))
