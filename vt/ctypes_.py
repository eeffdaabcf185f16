"""C++ type strings -> Ty."""
import re
from .cxxast import ExtractionError

UINTS = {"unsigned int": 32, "unsigned long": 64, "unsigned char": 8, "unsigned short": 16, "unsigned long long": 64,
         "uint32_t": 32, "uint8_t": 8, "uint64_t": 64, "size_t": 64, "size_type": 64, "uint16_t": 16, "unsigned": 32,
         "id_t": 32}
SINTS = {"int": 32, "long": 64, "char": 8, "short": 16, "int32_t": 32, "ssize_t": 64, "int64_t": 64, "long long": 64,
         "signed char": 8, "difference_type": 64, "position_t": 32, "ptrdiff_t": 64}


class Ty:
    __slots__ = ("k", "a", "n", "w", "signed")

    def __init__(self, k, a=(), n=None, w=None, signed=False):
        self.k, self.a, self.n, self.w, self.signed = k, list(a), n, w, signed

    def __repr__(self):
        if self.k == "int":
            return ("i" if self.signed else "u") + str(self.w)
        return self.k + (":" + str(self.n) if self.n else "") + ("<" + ",".join(map(repr, self.a)) + ">" if self.a else "")

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


def U(w):
    return Ty("int", w=w)


def I(w):
    return Ty("int", w=w, signed=True)


BOOL = Ty("bool")
VOID = Ty("void")

TOK = re.compile(r"\s*(::|[A-Za-z_][\w]*|\d+[uUlL]*|[<>,*&()\[\]]|\(anonymous[^)]*\)|.)")


class TypeParser:
    def __init__(self, unit):
        self.unit = unit
        self.cache = {}
        self.const = None

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = re.sub(r"\((?:\w|::)+\)(-?\d+)", r"\1", s)  # an enumerator as a template argument
        self.toks = [m.group(1) for m in TOK.finditer(s) if m.group(1).strip()]
        self.i = 0
        t = self.ptype()
        return t

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def ptype(self):
        words = []
        name, args = None, None
        while True:
            p = self.peek()
            if p in ("const", "volatile", "class", "struct", "enum", "typename"):
                self.i += 1
            elif p in ("unsigned", "signed", "long", "short", "int", "char", "bool", "void", "double", "float", "auto"):
                words.append(p)
                self.i += 1
            elif p is not None and re.match(r"[A-Za-z_]", p) and not words and name is None:
                self.i += 1
                name = p
                while True:
                    if self.peek() == "<":
                        self.i += 1
                        args = []
                        while self.peek() != ">":
                            if self.peek() and re.match(r"\d", self.peek()):
                                args.append(int(re.match(r"\d+", self.peek()).group(0)))
                                self.i += 1
                            else:
                                args.append(self.ptype())
                            if self.peek() == ",":
                                self.i += 1
                        self.i += 1
                    if self.peek() == "::":
                        self.i += 1
                        name, args = self.peek(), None
                        self.i += 1
                        continue
                    break
            else:
                break
        if words:
            w = " ".join(words)
            t = self.builtin(w)
        elif name is not None:
            t = self.named(name, args)
        else:
            raise ExtractionError("type: " + " ".join(self.toks))
        while True:
            p = self.peek()
            if p == "*":
                self.i += 1
                t = Ty("ptr", [t])
            elif p in ("&",):
                self.i += 1
                t = Ty("ref", [t])
            elif p in ("const",):
                self.i += 1
            elif p == "[":
                self.i += 1
                n = int(re.match(r"\d+", self.peek()).group(0)) if re.match(r"\d", self.peek() or "") else None
                if n is not None:
                    self.i += 1
                self.i += 1
                t = Ty("arr", [t], n=n)
            elif p == "(":
                # function type: not needed
                depth = 0
                while self.peek() is not None:
                    if self.peek() == "(":
                        depth += 1
                    if self.peek() == ")":
                        depth -= 1
                    self.i += 1
                    if depth == 0:
                        break
            else:
                break
        return t

    def builtin(self, w):
        if w == "bool":
            return BOOL
        if w == "void":
            return VOID
        if w == "auto":
            return Ty("auto")
        if w in UINTS:
            return U(UINTS[w])
        if w in SINTS:
            return I(SINTS[w])
        if w == "char":
            return I(8)
        raise ExtractionError("builtin type " + w)

    def named(self, name, args):
        if args is None and name in UINTS:
            return U(UINTS[name])
        if args is None and name in SINTS:
            return I(SINTS[name])
        if name in ("vector",):
            return Ty("vec", args[:1])
        if name == "array":
            n = args[1]
            if isinstance(n, Ty):
                n = self.const(n.n)
            return Ty("arr", args[:1], n=n)
        if name in ("set", "unordered_set"):
            return Ty("set", args[:1])
        if name in ("map", "unordered_map"):
            return Ty("map", args[:2])
        if name in ("stack", "queue"):
            return Ty(name, args[:1])
        if name in ("unique_ptr", "shared_ptr"):
            return Ty("ptr", args[:1])
        if name == "optional":
            return Ty("opt", args[:1])
        if name in ("pair",):
            return Ty("pair", args[:2])
        if name in ("string", "basic_string", "string_view", "basic_string_view"):
            return Ty("vec", [I(8)])
        if name == "initializer_list":
            return Ty("vec", args[:1])
        if name == "nullptr_t":
            return Ty("ptr", [VOID])
        if name == "conditional_t":
            return Ty("rec", n="Unit_")
        if name in self.unit.type_alias:
            return self.parse_nested(self.unit.type_alias[name])
        if name in self.unit.enums:
            return U(32)
        if name in ("set_iterator", "_Node_const_iterator", "_Node_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator"):
            return Ty("iter")
        return Ty("rec", n=name)

    def parse_nested(self, s):
        sv = (self.toks, self.i)
        t = self._parse(s)
        self.toks, self.i = sv
        return t
