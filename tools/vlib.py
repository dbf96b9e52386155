"""Shared machinery of the checks: building the harness from /repo, running the
real code on cases, running TLC, and comparing recorded with specified outcomes."""
import json, os, queue, struct, subprocess, sys, threading, time, shutil, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
VH = os.path.join(TARGET, "debug", "vh")
CLI = os.path.join(TARGET, "debug", "protox")
NCPU = min(8, os.cpu_count() or 1)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """the check itself could not run (exit 2)"""


# ------------------------------------------------------------------ building
def build(cli=False):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    cmd = ["cargo", "build", "--offline", "--quiet", "-p", "vh"]
    cmds = [cmd]
    if cli:
        cmds.append(["cargo", "build", "--offline", "--quiet", "-p", "protox", "--features", "bin", "--bin", "protox"])
    for c in cmds:
        p = subprocess.run(c, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stdout[-4000:])
            raise ToolError("harness build failed")


# ---------------------------------------------------------- running real code
def _vh_chunk(argv, lines, ids, out, case_timeout, env, user=None):
    """feed the cases one after the other; a case that kills the process or
    takes too long is recorded as such and the rest goes to a new process"""
    i = 0
    while i < len(lines):
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=env, user=user)
        q = queue.Queue()

        def feed(p=p, start=i):
            try:
                for l in lines[start:]:
                    p.stdin.write(l)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass

        def read(p=p, q=q):
            for l in p.stdout:
                q.put(l)
            q.put(None)

        threading.Thread(target=feed, daemon=True).start()
        threading.Thread(target=read, daemon=True).start()
        while i < len(lines):
            try:
                l = q.get(timeout=case_timeout)
            except queue.Empty:
                p.kill()
                out[ids[i]] = {"id": ids[i], "hang": case_timeout}
                i += 1
                break
            if l is None:
                p.wait()
                out[ids[i]] = {"id": ids[i], "abort": p.returncode}
                i += 1
                break
            r = json.loads(l)
            if r["id"] != ids[i]:
                raise ToolError("harness answered out of order")
            out[ids[i]] = r
            i += 1
        else:
            p.wait()
        if p.poll() is None:
            p.kill()
            p.wait()


def run_vh(mode, cases, jobs=NCPU, case_timeout=20, env=None, user=None, vh=None):
    """cases: dicts with a unique "id"; returns {id: result}"""
    out = {}
    n = max(1, min(jobs, (len(cases) + 49) // 50))
    ths, errs = [], []

    def work(part):
        try:
            _vh_chunk([vh or VH, mode], [(json.dumps(c) + "\n").encode() for c in part], [c["id"] for c in part], out,
                      case_timeout, env, user)
        except Exception as e:      # noqa
            errs.append(e)
    for k in range(n):
        part = cases[k::n]
        if part:
            t = threading.Thread(target=work, args=(part,))
            t.start()
            ths.append(t)
    for t in ths:
        t.join()
    if errs:
        raise ToolError("harness: %r" % errs[0])
    if len(out) != len(cases):
        raise ToolError("harness lost cases (%d of %d)" % (len(out), len(cases)))
    return out


# -------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.records = []
        self.states = self.distinct = 0
        self.depth = 0
        self.violation = None
        self.output = ""


def run_tlc(module, cfg, env=None, workers=NCPU, timeout=600, simulate=None, depth=None, seed=None, xss="64m",
            heap="6g", want=True, coverage=False):
    """cfg: text of the configuration.  PrintT(ToJson(..)) lines are collected."""
    tag = "%s-%d-%d" % (module, os.getpid(), threading.get_ident())
    work = os.path.join(BUILD, "tlc", tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
    with open(os.path.join(work, "model.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss, "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
           "-config", "model.cfg", "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE"]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    res = Tlc()
    try:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        other = []
        try:
            for l in p.stdout:
                if l.startswith('"{'):
                    if want:
                        try:
                            res.records.append(json.loads(json.loads(l)))
                        except ValueError:
                            raise ToolError("bad TLC output line: " + l[:300])
                else:
                    other.append(l)
            p.wait()
        finally:
            timed_out = not killer.is_alive()
            killer.cancel()
        res.output = "".join(other)
        if timed_out:
            raise ToolError("TLC timed out on " + module)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.output)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        elif simulate is not None:
            m = re.findall(r"(?:The number of states generated: |Progress: )([\d,]+)", res.output)
            if m:
                res.states = res.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", res.output)
        if m:
            res.depth = int(m[-1])
        if p.returncode != 0:
            sys.stderr.write(res.output[res.output.find("Error:"):][:3000])
            raise ToolError("TLC failed on %s (exit %d)" % (module, p.returncode))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


# --------------------------------------------- rendering of specified values
def rust_f64(v):
    """Rust's Display of an f64"""
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    from decimal import Decimal
    s = format(Decimal(repr(v)), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s


def _flt(codes):
    return float(bytes(codes).decode("ascii"))


def show_token_float(codes):
    v = _flt(codes)
    s = rust_f64(v)
    if v == v and v not in (float("inf"), float("-inf")) and v == int(v):
        s = "%.1f" % v
    return s


def text(codes):
    """bytes with float markers -> str"""
    out, i = b"", 0
    while i < len(codes):
        c = codes[i]
        if c == -1:
            j = codes.index(-2, i)
            out += show_token_float(codes[i + 1:j]).encode()
            i = j + 1
        elif c == -3:
            j = codes.index(-4, i)
            out += rust_f64(_flt(codes[i + 1:j])).lower().encode()
            i = j + 1
        else:
            out += bytes([c])
            i += 1
    return out.decode("utf-8", "replace")


def norm(v):
    """specified descriptor -> the form the harness dumps"""
    if isinstance(v, dict):
        k = set(v)
        if k == {"b"}:
            return text(v["b"])
        if k == {"y"}:
            return v["y"]
        if k == {"f"}:
            x = _flt(v["f"])
            return struct.pack(">d", x).hex()
        if "u" in k:
            return dict({x: norm(y) for x, y in v.items()}, interpreted=False)
        return {x: norm(y) for x, y in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


MAXNUM = 536870911
MSG = {
    "InvalidToken": "invalid token",
    "IntegerOutOfRange": "integer is too large",
    "InvalidOctalInteger": "integers starting with '0' must be octal",
    "InvalidStringCharacters": "invalid string character",
    "UnterminatedString": "unterminated string",
    "InvalidStringEscape": "invalid string escape",
    "InvalidUtf8String": "string is not valid utf-8",
    "NestedBlockComment": "nested block comments are not supported",
    "UnknownSyntax": "unknown syntax '{f}'",
    "InvalidIdentifier": "invalid identifier",
    "InvalidGroupName": "invalid group name",
    "InvalidImport": "invalid import path",
    "DuplicatePackage": "multiple package names specified",
    "NoSpaceBetweenIntAndIdent": "whitespace is required between an integer literal and an identifier",
    "HashCommentOutsideTextFormat": "'#' comments are not allowed here",
    "FloatSuffixOutsideTextFormat": "'f' suffix for float literals is not allowed",
    "UnexpectedToken": "expected {x}, but found '{f}'",
    "UnexpectedEof": "expected {x}, but reached end of file",
    "NegativeIdentOutsideDefault": "identifiers may not be negative",
    "InvalidMessageNumber": "message numbers must be between 1 and %d" % MAXNUM,
    "InvalidEnumNumber": "enum numbers must be between -2147483648 and 2147483647",
    "InvalidDefault": "{x} fields may not have default values",
    "Proto3DefaultValue": "default values are not allowed in proto3",
    "InvalidExtendFieldKind": "{x} fields are not allowed in extensions",
    "RequiredExtendField": "extension fields may not be required",
    "MapFieldWithLabel": "map fields cannot have labels",
    "OneofFieldWithLabel": "oneof fields cannot have labels",
    "Proto2FieldMissingLabel": "fields must have a label with proto2 syntax (expected one of 'optional', 'repeated' or 'required')",
    "Proto3GroupField": "groups are not allowed in proto3 syntax",
    "Proto3RequiredField": "required fields are not allowed in proto3 syntax",
    "InvalidOneofFieldKind": "{x} fields are not allowed in a oneof",
    "InvalidMapFieldKeyType": "a map field key type must be an integer, boolean or string",
    "ValueInvalidType": "expected value to be {x}, but found '{f}'",
    "IntegerValueOutOfRange": "expected value to be {x}, but the value {f} is out of range",
    "EmptyOneof": "a oneof must have at least one field",
    "MessageNestingTooDeep": "messages may not be nested more than 94 levels deep",
}


def message(e):
    t = MSG.get(e["k"])
    if t is None:
        raise ToolError("no message for error kind " + e["k"])
    return t.replace("{x}", e["x"]).replace("{f}", text(e["f"]))


RANGE = {"a 64-bit integer": (-2**63, 2**64 - 1), "a signed 64-bit integer": (-2**63, 2**63 - 1), "a signed 32-bit integer": (-2**31, 2**31 - 1),
         "an unsigned 64-bit integer": (0, 2**64 - 1), "an unsigned 32-bit integer": (0, 2**32 - 1)}


def spec_err(e):
    return {"k": e["k"], "msg": message(e), "spans": [tuple(s) for s in e["l"]],
            "range": list(map(str, RANGE[e["x"]])) if e["k"] == "IntegerValueOutOfRange" else None}


# ------------------------------------------------- comparing parser outcomes
OPTKEYS = {"options"}


def strip(v, drop):
    if isinstance(v, dict):
        return {k: strip(x, drop) for k, x in v.items() if k not in drop}
    if isinstance(v, list):
        return [strip(x, drop) for x in v]
    return v


def first_diff(a, b, path=""):
    if type(a) != type(b):
        return "%s: specified %s, got %s" % (path, js(a), js(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), path + "/" + k)
        return None
    if isinstance(a, list):
        for i in range(min(len(a), len(b))):
            if a[i] != b[i]:
                return first_diff(a[i], b[i], "%s[%d]" % (path, i))
        if len(a) != len(b):
            return "%s: specified %d elements %s, got %d %s" % (path, len(a), js(a), len(b), js(b))
        return None
    return None if a == b else "%s: specified %s, got %s" % (path, js(a), js(b))


def js(v):
    s = json.dumps(v, sort_keys=True)
    return s if len(s) < 400 else s[:400] + "..."


def linecol(src, off):
    """one-based line and byte column of offset off; a line ends with \\n, \\r\\n or
    \\r, and the two bytes of \\r\\n are one position"""
    b = src.encode("utf-8")
    line, col, i = 1, 1, 0
    while i < off:
        if b[i] in (10, 13):
            if b[i:i + 2] == b"\r\n":
                if i + 1 == off:
                    break
                i += 1
            line, col = line + 1, 1
        else:
            col += 1
        i += 1
    return line, col


def lockey(l):
    return json.dumps(l, sort_keys=True)


def dead(impl):
    for k in ("panic", "abort", "hang"):
        if k in impl:
            return "%s: %s" % (k, impl[k])
    return None


def compare(src, spec, impl, name="t.proto"):
    """differences between the specified and the recorded outcome of parsing src,
    as a list of (aspect, text).  Aspects: dead ok fd locs comments errs range span"""
    out = []
    d = dead(impl)
    if d:
        return [("dead", "the parser ended with " + d)]
    if spec["ok"] != impl["ok"]:
        if spec["ok"]:
            out.append(("ok", "a conforming file is rejected: " + "; ".join(e["msg"] for e in impl["errs"])))
        else:
            out.append(("ok", "accepted, but specified to fail with: "
                        + "; ".join(message(e) for e in spec["errs"])))
        return out
    if spec["ok"]:
        want, got = norm(spec["fd"]), dict(impl["fd"])
        got_name = got.pop("name")
        locs = got.pop("locs")
        if got_name != [name]:
            out.append(("fd", "file name %s" % js(got_name)))
        x = first_diff(want, got)
        if x:
            out.append(("fd", x))
        wl = norm(spec["locs"])
        if locs is None:
            out.append(("locs", "no source info"))
        else:
            a = sorted(lockey({"path": l["path"], "span": l["span"]}) for l in wl)
            b = sorted(lockey({"path": l["path"], "span": l["span"]}) for l in locs)
            if a != b:
                miss = _msub(a, b)
                extra = _msub(b, a)
                out.append(("locs", "missing locations %s, unexpected locations %s" % (miss[:3], extra[:3])))

            ps = [l["path"] for l in locs]
            if ps != sorted(ps):
                out.append(("locs", "the locations are not in the order of their paths"))

            def com(q):
                return sorted(lockey({"path": l["path"], "lead": l["lead"], "trail": l["trail"], "det": l["det"]})
                              for l in q if l["lead"] or l["trail"] or l["det"])
            a, b = com(wl), com(locs)
            if a != b:
                out.append(("comments", "missing comments %s, unexpected comments %s" % (_msub(a, b)[:3], _msub(b, a)[:3])))
        return out
    want = [spec_err(e) for e in spec["errs"]]
    got = impl["errs"]
    a = sorted(e["msg"] for e in want)
    b = sorted(e["msg"] for e in got)
    if a != b:
        out.append(("errs", "missing errors %s, unexpected errors %s" % (_msub(a, b)[:4], _msub(b, a)[:4])))
    # the range given with a value that is out of it
    a = sorted(js([e["msg"], e["range"]]) for e in want if e["range"])
    b = sorted(js([e["msg"], re.findall(r"-?[0-9]+", e["help"] or "")]) for e in got if e["msg"] in {w["msg"] for w in want if w["range"]})
    if a != b:
        out.append(("range", "missing ranges %s, unexpected ranges %s" % (_msub(a, b)[:4], _msub(b, a)[:4])))
    a = sorted(js([e["msg"], e["spans"]]) for e in want)
    b = sorted(js([e["msg"], e["spans"]]) for e in got)
    if a != b:
        out.append(("span", "missing %s, unexpected %s" % (_msub(a, b)[:4], _msub(b, a)[:4])))
    # the primary error
    p = got[0]
    prim = list(p["spans"][0]) if len(p["spans"]) == 1 else None
    if impl["span"] != prim:
        out.append(("span", "primary span %s, label %s" % (impl["span"], prim)))
    if impl["file"] != name:
        out.append(("span", "file name %r" % impl["file"]))
    if impl.get("quoted") is not True:
        out.append(("span", "a label does not quote the text of the file"))
    if prim is not None:
        l, c = linecol(src, prim[0])
        dbg = "%s:%d:%d: %s" % (name, l, c, p["msg"])
    else:
        dbg = p["msg"]
    if impl["debug"] != dbg:
        out.append(("span", "displayed as %r, expected %r" % (impl["debug"], dbg)))
    return out


def _msub(a, b):
    b = list(b)
    r = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            r.append(x)
    return r


# --------------------------------------------------------------- oracle mode
ORACLE_CFG = """SPECIFICATION Spec
CONSTANT MaxDepth = 94
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def oracle(srcs, timeout=600):
    """specified outcomes of the given texts: TLC runs the specification on them"""
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "cases-%d-%d.ndjson" % (os.getpid(), threading.get_ident()))
    with open(path, "w") as f:
        for i, s in enumerate(srcs):
            f.write(json.dumps({"id": i, "src": list(s.encode("utf-8"))}) + "\n")
    try:
        t = run_tlc("Oracle", ORACLE_CFG, env={"CASES": path}, timeout=timeout, xss="512m")
    finally:
        os.unlink(path)
    out = {r["id"]: r["out"] for r in t.records}
    if len(out) != len(srcs):
        raise ToolError("oracle answered %d of %d cases" % (len(out), len(srcs)))
    return [out[i] for i in range(len(srcs))], t
