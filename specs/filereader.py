"""P19: FileReader over an abstract stream (contracts of the C library functions are assumed)."""
from vt.trans import Unit, FnSpec, Val, LRef
from vt.ctypes_ import Ty, I, U

ENTRY = '#include <log_surgeon/FileReader.cpp>\n'

PRELUDE = """
  function chars (m: map int int) (o n: int) : seq int = Seq.create n (fun i -> Map.get m (o + i))
  let ghost whole (s t: seq int) ensures { Seq.(==) s t -> s = t } = ()
  function file_bytes (path: seq int) : seq int
  predicate file_exists (path: seq int)
  predicate stream (f: int) (opened: bool) (data: seq int) (pos: int) =
    (f <> 0 <-> opened) /\\ 0 <= pos <= Seq.length data
"""

DECLS = """
  val c_fopen (path: seq int) : int
    requires { [@expl:the previous stream is closed] not !g_open }
    writes { g_open, g_data, g_fpos, g_ferr, g_feof, g_errno }
    ensures { !g_open <-> result <> 0 }
    ensures { result <> 0 -> file_exists path /\\ !g_data = file_bytes path /\\ !g_fpos = 0 /\\ not !g_ferr /\\ not !g_feof }
    ensures { result = 0 -> (!g_errno = 2 <-> not file_exists path) /\\ !g_fpos = (old !g_fpos) /\\ !g_data = (old !g_data) }
    ensures { -2147483648 <= !g_errno <= 2147483647 }
  val c_fclose (f: int) : unit
    requires { [@expl:a stream that is open is closed] f <> 0 /\\ !g_open }
    writes { g_open }
    ensures { not !g_open }
  val c_fread (dst: cptr) (n: int) (f: int) : int
    requires { [@expl:reading from an open stream] f <> 0 /\\ !g_open }
    requires { [@expl:the destination is large enough] 0 <= dst.coff /\\ dst.coff + n <= csize dst.cbase }
    writes { cmem, g_fpos, g_ferr, g_feof }
    ensures { forall b. b <> dst.cbase -> Map.get !cmem b = Map.get (old !cmem) b }
    ensures { forall i. i < dst.coff \\/ i >= dst.coff + n -> Map.get (Map.get !cmem dst.cbase) i = Map.get (Map.get (old !cmem) dst.cbase) i }
    ensures { 0 <= result <= n /\\ !g_fpos = (old !g_fpos) + result /\\ !g_fpos <= Seq.length !g_data }
    ensures { forall k. dst.coff <= k < dst.coff + result -> Map.get (Map.get !cmem dst.cbase) k = Seq.get !g_data ((old !g_fpos) + (k - dst.coff)) }
    ensures { result < n -> !g_ferr \\/ (!g_feof /\\ !g_fpos = Seq.length !g_data) }
    ensures { (old !g_ferr) -> !g_ferr }
  val c_getdelim (buf: ref cptr) (len: ref int) (delim: int) (f: int) : int
    requires { [@expl:reading from an open stream] f <> 0 /\\ !g_open }
    writes { cmem, g_fpos, g_ferr, g_feof, buf, len }
    ensures { 0 <= !len <= 18446744073709551615 }
    ensures { result = -1 \\/ 1 <= result <= 9223372036854775806 }
    ensures { result = -1 -> !g_fpos <= Seq.length !g_data /\\ (old !g_fpos) <= !g_fpos /\\ (!g_ferr \\/ (!g_feof /\\ !g_fpos = Seq.length !g_data /\\ !g_fpos = (old !g_fpos))) }
    ensures { result >= 1 -> !g_fpos = (old !g_fpos) + result /\\ !g_fpos <= Seq.length !g_data /\\ (!buf).coff = 0 /\\ result < csize (!buf).cbase /\\
      (forall i. 0 <= i < result -> Map.get (Map.get !cmem (!buf).cbase) i = Seq.get !g_data (old !g_fpos + i)) /\\
      (forall k. (old !g_fpos) <= k < !g_fpos - 1 -> Seq.get !g_data k <> delim) /\\
      (Seq.get !g_data (!g_fpos - 1) = delim \\/ !g_fpos = Seq.length !g_data) }
    ensures { (old !g_ferr) -> !g_ferr }
"""


def fopen(fn, obj, args, n):
    p = fn.rv(args[0])
    fn.writes |= {"g_open", "g_data", "g_fpos", "g_ferr", "g_feof", "g_errno"}
    return Val(fn.bind("c_fopen %s" % fn.paren(p.e)), fn.tr.ty(n))


def c_str(fn, obj, args, n):
    return fn.toval(obj)


def fclose(fn, obj, args, n):
    fn.writes |= {"g_open"}
    fn.emit("c_fclose %s;" % fn.paren(fn.rv(args[0]).e))
    return Val("0", I(32))


def fread(fn, obj, args, n):
    d, sz, k, f = [fn.rv(a) for a in args]
    fn.obl("items of one byte", "%s = 1" % sz.e)
    fn.writes |= {"cmem", "g_fpos", "g_ferr", "g_feof"}
    return Val(fn.bind("c_fread %s %s %s" % (fn.paren(d.e), fn.paren(k.e), fn.paren(f.e))), U(64))


def getdelim(fn, obj, args, n):
    b, l = fn.rv(args[0]), fn.rv(args[1])
    d, f = fn.rv(args[2]), fn.rv(args[3])
    fn.writes |= {"cmem", "g_fpos", "g_ferr", "g_feof", b.lv.name, l.lv.name}
    return Val(fn.bind("c_getdelim %s %s %s %s" % (b.lv.name, l.lv.name, fn.paren(d.e), fn.paren(f.e))), I(64))


def flag(g):
    def h(fn, obj, args, n):
        f = fn.rv(args[0])
        fn.obl("the stream is open", "%s <> 0 /\\ !g_open" % f.e)
        return Val(fn.bind("(if !%s then 1 else 0)" % g), I(32))
    return h


def errno(fn, obj, args, n):
    v = Val("0", fn.tr.ty(n))
    v.lv = LRef("g_errno", I(32))
    return v


M = "$this.m_file"
ST = f"stream {M} !g_open !g_data !g_fpos"
GW = ["g_open", "g_data", "g_fpos", "g_ferr", "g_feof", "g_errno"]
LINE = "(chars (Map.get !cmem ($this.m_get_delim_buf).cbase) 0"
contracts = {
    "FileReader::close": FnSpec(
        requires=[ST], ensures=[ST, f"{M} = 0"], writes=["o_FileReader__m_file", "g_open"]),
    "FileReader::try_open": FnSpec(
        requires=[ST],
        ensures=[ST, f"result = EC_Success <-> {M} <> 0", "result = EC_Success -> !g_data = file_bytes $path /\\ !g_fpos = 0",
                 "result = EC_FileNotFound <-> not file_exists $path", "result = EC_Success \\/ result = EC_FileNotFound \\/ result = EC_Errno"],
        writes=["o_FileReader__m_file"] + GW),
    "FileReader::read": FnSpec(
        requires=[ST, "$buf <> cnull -> 0 <= ($buf).coff /\\ ($buf).coff + $num_bytes_to_read <= csize ($buf).cbase"],
        ensures=[ST, f"result = EC_NotInit <-> {M} = 0",
                 f"result = EC_BadParam <-> {M} <> 0 /\\ $buf = cnull",
                 "result = EC_NotInit \\/ result = EC_BadParam -> !g_fpos = (old !g_fpos)",
                 "result = EC_Success \\/ result = EC_EndOfFile -> !g_fpos = (old !g_fpos) + $num_bytes_read /\\ $num_bytes_read <= $num_bytes_to_read /\\ "
                 "(forall k. ($buf).coff <= k < ($buf).coff + $num_bytes_read -> Map.get (Map.get !cmem ($buf).cbase) k = Seq.get !g_data ((old !g_fpos) + (k - ($buf).coff)))",
                 "result = EC_EndOfFile -> $num_bytes_read = 0 /\\ !g_fpos = Seq.length !g_data",
                 "result = EC_Success -> $num_bytes_read > 0 \\/ $num_bytes_to_read = 0",
                 "result = EC_Success -> $num_bytes_read = $num_bytes_to_read \\/ !g_fpos = Seq.length !g_data",
                 f"not !g_ferr /\\ {M} <> 0 /\\ $buf <> cnull -> result = EC_Success \\/ result = EC_EndOfFile",
                 "result = EC_Errno -> !g_ferr",
                 "forall b. b <> ($buf).cbase -> Map.get !cmem b = Map.get (old !cmem) b",
                 "forall i. i < ($buf).coff \\/ i >= ($buf).coff + $num_bytes_to_read -> Map.get (Map.get !cmem ($buf).cbase) i = Map.get (Map.get (old !cmem) ($buf).cbase) i"],
        writes=["cmem", "g_fpos", "g_ferr", "g_feof"]),
    "FileReader::try_read_to_delimiter": FnSpec(
        requires=[ST, f"{M} <> 0"],
        ensures=[ST, "result = EC_Success \\/ result = EC_EndOfFile \\/ result = EC_Errno",
                 "result = EC_Errno -> !g_ferr",
                 "not !g_ferr -> (result = EC_Success <-> (old !g_fpos) < Seq.length !g_data)",
                 "result = EC_EndOfFile -> !g_fpos = Seq.length !g_data /\\ $str = (if $append then old $str else Seq.empty)",
                 "result = EC_Success -> (old !g_fpos) < !g_fpos /\\ (forall k. (old !g_fpos) <= k < !g_fpos - 1 -> Seq.get !g_data k <> $delim) /\\ "
                 "(Seq.get !g_data (!g_fpos - 1) = $delim \\/ !g_fpos = Seq.length !g_data) /\\ "
                 "$str = Seq.(++) (if $append then old $str else Seq.empty) "
                 "(Seq.([..]) !g_data (old !g_fpos) (if not $keep_delimiter /\\ Seq.get !g_data (!g_fpos - 1) = $delim then !g_fpos - 1 else !g_fpos))"],
        ghost=[("begin", "let ghost g_p0 = !g_fpos in let ghost g_s0 = $str in"),
               ("end", "let ghost g_k = (if not $keep_delimiter && Seq.get !g_data (!g_fpos - 1) = $delim then !g_fpos - 1 else !g_fpos) in "
                "let ghost g_s = (if $append then g_s0 else Seq.empty) in "
                "assert { $result = EC_Success -> Seq.length $str = Seq.length g_s + (g_k - g_p0) }; "
                "assert { $result = EC_Success -> forall i. 0 <= i < Seq.length g_s -> Seq.get $str i = Seq.get g_s i }; "
                "assert { $result = EC_Success -> forall i. Seq.length g_s <= i < Seq.length $str -> Seq.get $str i = Seq.get !g_data (g_p0 + (i - Seq.length g_s)) }; "
                "assert { $result = EC_Success -> Seq.(==) $str (Seq.(++) g_s (Seq.([..]) !g_data g_p0 g_k)) };")],
        writes=["cmem", "g_fpos", "g_ferr", "g_feof", "o_FileReader__m_get_delim_buf", "o_FileReader__m_get_delim_buf_len"]),
}
FM = {"ghost_refs": {"g_open": "bool", "g_data": "(seq int)", "g_fpos": "int", "g_ferr": "bool", "g_feof": "bool", "g_errno": "int"}, "decls": DECLS}
HOOKS = {"fopen": fopen, "fclose": fclose, "fread": fread, "getdelim": getdelim, "ferror": flag("g_ferr"), "feof": flag("g_feof"), "__errno_location": errno}
HOOKS.update({"std::" + k: v for k, v in list(HOOKS.items())})


def prelude(tr):
    return PRELUDE + codes(tr)


def codes(tr):
    out = ""
    for nm in ("Success", "BadParam", "EndOfFile", "Errno", "FileNotFound", "NotInit"):
        out += "  constant eC_%s : int = %d\n" % (nm, tr.enum_value("ErrorCode", nm))
    return out


for c in contracts.values():
    c.requires = [x.replace("EC_", "eC_") for x in c.requires]
    c.ensures = [x.replace("EC_", "eC_") for x in c.ensures]
    c.ghost = [(a, x.replace("EC_", "eC_")) for a, x in c.ghost]
unit = Unit("filereader", ENTRY, prelude, single=["FileReader"], contracts=contracts, fieldmap=FM, hooks=HOOKS, enums=["ErrorCode"])
