"""The checks of the compiler properties: histories, chains, paths, descriptor sets, the command line."""
import concurrent.futures, copy, hashlib, json, os, pwd, random, shutil, subprocess, tempfile
import vlib

HIST_CFG = "SPECIFICATION Spec\nINVARIANTS Inv Emitted\nPROPERTIES NoRereads Stable\nCHECK_DEADLOCK FALSE\n"
ORD = "abcdexg"
EXTRA = "4204" + "88b51805"          # FileOptions { unknown field 50001: 5 }


# the files' names: ordinary ones, one the end of another, one the beginning of another, odd ones
NAMES = [dict(a="a.proto", b="dir/b.proto", c="c.proto", d="dir/d.proto", e="e.proto", x="x.proto"),
         dict(a="a.proto", b="a/a.proto", c="a/a/a.proto", d="a.proto.proto", e="A.proto", x="b/a.proto"),
         dict(a="x.proto", b="dir/x.proto", c="x.proto2", d="x.prot", e="dir/x.proto ", x="dirx.proto"),
         dict(a="a b.proto", b="dir.x/\u00e4.proto", c="c", d="-d.proto", e="a  b.proto", x="Google/protobuf/x.proto")]
STYLE = 0                             # which of them: set by the history at work


def fname(n):
    return "google/protobuf/descriptor.proto" if n == "g" else NAMES[STYLE][n]


def pkg(n):
    return {"b": "p.b", "c": "p"}.get(n, "")


def full(n, m):
    p = pkg(n)
    return (p + "." if p else "") + m


GOOGLE = open(os.path.join(vlib.VERIF, "harness/protox-shim/protobuf/src/google/protobuf/descriptor.proto")).read()


LEAN = "".join(l for l in GOOGLE.splitlines(True) if "uninterpreted_option = 999" not in l)


class Rendered:
    """the text of a file of the world, and where its imports are"""

    def __init__(self, n, f, plain, small=False):
        self.n, self.f, self.small = n, f, small and plain and n != "g"
        if n == "g":
            self.text, self.spans, self.stmts = (GOOGLE if f["v"] == 1 else LEAN), [], []
            return
        self.spans, self.stmts, self.pub, self.weak = [], [], [], []
        t = "// file %s version %d\nsyntax = \"proto2\";\n" % (n, f["v"])
        if pkg(n):
            t += "package %s; " % pkg(n)
        for i, m in enumerate(f["imps"]):
            h = (f["v"] + i + ORD.index(n)) % 5
            mod = ""
            if plain and (i + ORD.index(n)) % 3 == 1:
                mod = "public "
                self.pub.append(i)
            elif plain and (i + ORD.index(n)) % 3 == 2:
                mod = "weak "
                self.weak.append(i)
            t += ["", "/* \u00e9\u20ac */ ", "\n\t", "\r\n // \U0001F600\r\n  ", ""][h]
            s = "import %s%s'%s'%s;" % (mod, "\n  " if h in (2, 3) else "", fname(m), " " if h == 4 else "")
            a = len(t.encode())
            self.spans.append([a, a + len(s.encode())])
            self.stmts.append(s)
            t += s + (" " if h == 1 else "\n")
        self.imps = [m for i, m in enumerate(f["imps"]) if m not in f["imps"][:i]]
        role = f["role"]
        opt = role == "uses"
        self.opts = []
        if role == "defs":
            t += "".join("extend google.protobuf.%sOptions { optional %s %s = %d; }\n" % x for x in
                         (("File", "int32", "fopt", 50001), ("Message", "string", "mopt", 50002), ("Field", "bool", "dopt", 50003)))
        if opt:
            t += "option (fopt) = 7;\n"
        t += "// the message\nmessage M%s {\n" % n
        if opt:
            t += "  option (mopt) = 'hi';\n"
        self.fields = []
        if self.small:                    # nothing but imports
            t = t[:t.rindex("// the message")]
        for i, m in enumerate(self.imps if not self.small else []):
            ty = ".google.protobuf.FileOptions" if m == "g" else "." + full(m, "M" + m)
            t += "  optional %s f%d = %d%s; // field\n" % (ty, i, i + 1, " [(dopt) = true]" if opt and i == 0 else "")
            self.fields.append(["f%d" % i, i + 1, ty])
        if not self.small:
            t += "  extensions 100 to 199;\n}\nmessage V%s%d {}\n" % (n, f["v"])
        self.exts = []
        if not self.small and self.imps and self.imps[0] != "g":
            m = self.imps[0]
            t += "extend .%s { optional int32 e%s = %d; }\n" % (full(m, "M" + m), n, 100 + ORD.index(n))
            self.exts.append([full(m, "M" + m), full(n, "e" + n), 100 + ORD.index(n)])
        if f["st"] == "link":
            t += "\nmessage Bad { optional Nope n = 1; }\n"
        if f["st"] == "parse":
            t += "message {"
        self.text = t
        if opt:
            self.opts += [["file", 50001, 7], ["message", 50002, "6869"]] + ([["field", 50003, 1]] if self.imps else [])
        if f["kind"] == "encoded":
            self.opts.append(["file", 50001, 5])

    def case(self, disk=False):
        f = self.f
        if disk and f["st"] in ("ok", "link", "parse") and f["kind"] == "source":
            return {"kind": "disk", "text": self.text}
        if f["st"] in ("nf", "custom", "io"):
            return {"kind": f["st"]}
        if self.n == "g" or f["st"] == "parse":
            return {"kind": "source", "text": self.text}
        d = {"kind": f["kind"], "text": self.text}
        if f["kind"] == "encoded":
            d.update(extra=EXTRA, bare=f["v"] % 2 == 1)
        if f["kind"] == "proto":
            d.update(bare=False)
        return d

    def brief(self, sinfo):
        """what file_descriptor_set shows of the file"""
        f = self.f
        if self.n == "g":
            return {"name": fname("g")}
        bare = f["kind"] == "encoded" and f["v"] % 2 == 1
        return {"name": fname(self.n), "dep": [fname(m) for m in f["imps"]], "pub": self.pub, "weak": self.weak,
                "msgs": [] if self.small else [["M" + self.n, self.fields], ["V%s%d" % (self.n, f["v"]), []]],
                "sci": "none" if bare or not sinfo else "moved" if f["role"] == "uses" else "same"}


def agree(got, want):
    """does the recorded brief of a file agree with the specified one?"""
    for k, v in want.items():
        g = got.get(k)
        if k == "sci" and v == "moved":
            if g not in ("same", "other"):
                return "%s: source info %r" % (want["name"], g)
        elif g != v:
            return "%s: %s: specified %s, got %s" % (want["name"], k, vlib.js(v), vlib.js(g))
    return None


def seqdiff(what, got, want):
    if got != want:
        return "%s: specified %s, got %s" % (what, vlib.js(want), vlib.js(got))


SHADOW = "path '%s' is shadowed by '%s' in the include paths"


class Hist:
    """a history of Compiler.tla as a case for the harness, and the comparison"""

    def __init__(self, rec, variant, base="/nowhere", disk=False):
        global STYLE
        self.style = STYLE = (0, 1, 0, 2, 0, 3)[variant % 6]
        self.rec = rec
        w = rec["world"]
        self.plain = all(f["role"] == "plain" for f in w.values())
        self.variant = variant
        self.disk = disk or variant % 4 == 3      # sources are real files
        self.base = base
        self.files = {}                   # (name, version) -> Rendered of what was read
        self.ops, self.steps = [], []
        for n, f in sorted(w.items()):
            self.put(n, f)
        if variant % 3 == 1:
            for n in ORD:
                self.ops.append({"op": "path", "path": self.path(n), "name": fname(n)})
        for h in rec["hist"]:
            if h["op"] == "set":
                self.put(h["arg"][0], h["file"])
                continue
            if h["op"] == "flags":
                fl = h["view"]["flags"]
                self.ops.append({"op": "flags", "imports": fl["imports"], "sinfo": fl["sinfo"]})
            elif h["op"] == "openat":
                self.ops.append({"op": "path", "path": self.elsewhere(h["arg"][0]), "name": fname(h["arg"][0])})
                self.ops.append({"op": "open", "path": self.elsewhere(h["arg"][0])})
            elif h["op"] == "open":
                self.ops.append({"op": "open", "path": self.path(h["arg"][0])})
            else:
                self.ops.append({"op": "open", "paths": [self.path(n) for n in h["arg"]]})
            self.steps.append((h, dict(self.now)))
            if variant % 2:
                self.ops.append({"op": "keep"})

    now = None

    def put(self, n, f):
        if self.now is None:
            self.now = {}
        r = Rendered(n, f, self.plain, self.variant % 7 == 6)
        self.now[n] = r
        self.files[(n, f["v"], tuple(f["imps"]))] = r
        self.ops.append({"op": "set", "name": fname(n), "file": r.case(self.disk)})

    def path(self, n):
        return ((self.base if self.disk else "/inc") + "/./" if self.variant % 3 == 1 else "") + fname(n)

    def elsewhere(self, n):
        return self.base + "/" + ["other/", "./../", "a/b/"][self.variant % 3] + fname(n)

    def case(self, i):
        c = {"id": i, "ops": self.ops, "boxed": self.variant % 5 == 0}
        if self.disk:
            c["base"] = self.base
        return c

    def error(self, e, now, got, at=False):
        """differences between the specified and the recorded error"""
        out = []
        if got is None:
            return ["specified to fail (%s %s), but it succeeded" % (e["k"], e["x"])]
        k, f, x = e["k"], e["f"], fname(e["x"]) if e["x"] else ""
        want = {"spans": [], "nf": k in ("notincluded", "importnf"), "parse": k == "parse", "io": k == "io", "file": x}
        if k == "notincluded":
            want.update(msg="file '%s' is not in any include path" % (self.elsewhere if at else self.path)(e["x"]), file=None)
            want["debug"] = want["msg"]
        elif k in ("importnf", "duplicate"):
            r = now[f]
            want.update(msg="import '%s' not found" % x if k == "importnf" else "import '%s' was listed twice" % x, file=fname(f))
            if r.f["kind"] == "source":
                s = r.spans[e["i"] - 1]
                want.update(spans=[s], shown=[[fname(f), r.stmts[e["i"] - 1]]])
            # the line of the import is named
                line = r.text.encode()[:s[0]].count(b"\n") + 1
                if not got["debug"].startswith("%s:%d:" % (fname(f), line)):
                    out.append("displayed as %r, expected it to name %s:%d" % (got["debug"], fname(f), line))
            if not (got["debug"].startswith(fname(f) + ":") and got["debug"].endswith(want["msg"])):
                out.append("displayed as %r" % got["debug"])
        elif k == "shadowed":
            want["msg"] = SHADOW % (self.elsewhere(e["x"]), os.path.join(self.base, x))
            want["debug"] = want["msg"]
        elif k == "cycle":
            want["msg"] = "import cycle detected: " + " -> ".join(map(fname, e["cycle"]))
            want["debug"] = want["msg"]
        elif k == "parse":
            want["msg"] = "expected an identifier, but found '{'"
            o = now[e["x"]].text.encode().rindex(b"{")
            want["spans"] = [[o, o + 1]]
        elif k == "custom":
            want.update(msg="custom: " + x, file=None)
        elif k == "io":
            want.update(msg="io: " + x, file=None)
        elif k == "link":
            want.pop("spans")
            if now[e["x"]].f["st"] == "link":
                want["msg"] = "name 'Nope' is not defined"
                if now[e["x"]].f["kind"] == "source":
                    want["shown"] = [[x, "Nope"]]
            if not got["debug"].startswith(x + ":"):
                out.append("displayed as %r" % got["debug"])
        for a, v in want.items():
            if got.get(a) != v:
                out.append("%s: %s: specified %s, got %s" % (k, a, vlib.js(v), vlib.js(got.get(a))))
        return out

    def compare(self, got):
        """(aspect, text) differences"""
        global STYLE
        STYLE = self.style
        d = vlib.dead(got)
        if d:
            return [("dead", "the compiler ended with " + d)]
        out = []
        if not got["stable"]:
            out.append(("state", "a descriptor pool handed out changed"))
        for i, ((h, now), g) in enumerate(zip(self.steps, got["steps"])):
            at = "step %d (%s %s): " % (i + 1, h["op"], "".join(h["arg"]))
            view, fl = h["view"]["pool"], h["view"]["flags"]
            if h["op"] != "flags":
                if h["res"]["k"] == "ok":
                    if g["res"] is not None:
                        out.append(("result", at + "specified to succeed, but: " + g["res"]["debug"]))
                else:
                    out += [("result" if g["res"] is None else "error", at + x) for x in self.error(h["res"], now, g["res"], h["op"] == "openat")]
                x = seqdiff("resolver calls", g["calls"], [fname(n) for n in h["calls"]])
                if x:
                    out.append(("calls", at + x))
            o = g["obs"]
            x = seqdiff("files", [f[0] for f in o["files"]], [fname(f["name"]) for f in view])
            if x:
                out.append(("files", at + x))
                continue
            if o["count"] != len(view):
                out.append(("files", at + "number of files"))
            x = seqdiff("paths", [f[2] for f in o["files"]], [os.path.join(self.base, fname(r.n)) if self.disk and r.f["kind"] == "source" else None for r in
                                                              [self.files[(f["name"], f["v"], tuple(f["imps"]))] for f in view]])
            if x:
                out.append(("files", at + x))
            x = seqdiff("is_import", [f[1] for f in o["files"]], [f["imp"] for f in view])
            if x:
                out.append(("imports", at + x))
            rs = [self.files[(f["name"], f["v"], tuple(f["imps"]))] for f in view]
            sel = [r for f, r in zip(view, rs) if fl["imports"] or not f["imp"]]
            for key, asp in (("fds", "set"), ("enc", "enc")):
                if not isinstance(o[key], list):
                    out.append((asp, at + "%s: %s" % (key, o[key])))
                    continue
                x = seqdiff(key, [f["name"] for f in o[key]], [fname(r.n) for r in sel])
                if x:
                    out.append((asp, at + x))
                    continue
                for r, f in zip(sel, o[key]):
                    x = agree(f, r.brief(fl["sinfo"]))
                    if x:
                        out.append((asp, at + key + " " + x))
            if not o["same"]:
                out.append(("enc", at + "the encoded set is not the decoded one"))
            x = seqdiff("extension options", [sorted([p for p in q if p[1] != 999], key=vlib.js) for q, r in zip(o["opts"], sel) if r.n != "g"], [sorted(r.opts, key=vlib.js) for r in sel if r.n != "g"])
            if x:
                out.append(("opts", at + x))
            want = [[fname(r.n), [] if r.small else [full(r.n, "M" + r.n), full(r.n, "V%s%d" % (r.n, r.f["v"]))]] for r in rs if r.n != "g"]
            x = seqdiff("descriptor pool", [p[:2] for p in o["pool"] if not p[0].startswith("google/")], want)
            if x:
                out.append(("files", at + x))
            x = seqdiff("dependencies in the pool", [p[2] for p in o["pool"]], [[fname(m) for m in r.f["imps"]] for r in rs])
            if x:
                out.append(("files", at + x))
            exts = o["exts"] if isinstance(o["exts"], str) else sorted(e for e in o["exts"] if not e[0].startswith("google"))
            x = seqdiff("extensions of messages", exts, sorted(e for r in rs if r.n != "g" for e in r.exts))
            if x:
                out.append(("state", at + x))
        return out


def tlv(n, b):
    """a length delimited field"""
    return vint(n << 3 | 2) + vint(len(b)) + b


def vint(v):
    out = b""
    while v > 127:
        out += bytes([v & 127 | 128])
        v >>= 7
    return out + bytes([v])


class Chain:
    """a query of Chain.tla as a case for the harness, and the comparison"""
    NAMES = {"a": "dir/a.proto", "b": "dir/b.proto", "g": "google/protobuf/any.proto", "u": "google/protobuf/anyx.proto"}
    PATHS = {"rel": "dir/a.proto", "abs": "/nowhere/x/a.proto"}

    def __init__(self, rec):
        self.rec = rec
        self.h = int(hashlib.sha1(vlib.js(rec["leaves"]).encode()).hexdigest()[:6], 16)

    def msg(self, n, who):
        return "%s%d" % (n.upper(), who)

    def leaf(self, k, l):
        who = k + 1
        if l["kind"] == "google":
            return {"r": "google"}
        if l["kind"] == "set":
            b = tlv(1, tlv(1, b"other.proto"))
            for n, o in sorted(l["o"].items()):
                if o in ("ok", "imp", "impg", "link"):
                    fd = tlv(1, self.NAMES[n].encode())
                    if n == "g":
                        fd += tlv(2, b"google.protobuf")
                    if o in ("imp", "impg"):
                        fd += tlv(3, self.NAMES["b" if o == "imp" else "g"].encode())
                    b += tlv(1, fd + tlv(4, tlv(1, self.msg(n, who).encode())))
                    # a later file of the same name does not count
                    b += tlv(1, fd + tlv(4, tlv(1, b"Later")))
            return {"r": "set", "hex": b.hex(), "new": (self.h + k) % 3 == 0}
        files = {}
        for n, o in l["o"].items():
            t = "syntax = 'proto3'; %s%s message %s { %s }" % (
                "package google.protobuf; " if n in "gu" else "", {"imp": "import 'dir/b.proto';", "impg": "import 'google/protobuf/any.proto';"}.get(o, ""),
                self.msg(n, who), "Nope%d x = 1;" % who if o == "link" else "")
            files[self.NAMES[n]] = {
                "nf": {"kind": "nf"}, "nfother": {"kind": "nf", "other": "other%d.proto" % who}, "parse": {"kind": "source", "text": "R%d" % who},
                "nfimport": {"kind": "inner", "open": "in.proto", "files": {"in.proto": "import 'gone%d.proto';" % who}}, "nfpath": {"kind": "inner", "open": "in%d.proto" % who, "files": {}},
                "cycle": {"kind": "inner", "open": "in.proto", "files": {"in.proto": "import 'R%d';" % who, "R%d" % who: "import 'in.proto';"}},
                "parsein": {"kind": "inner", "open": "in.proto", "files": {"in.proto": "import 'R%d';" % who, "R%d" % who: "R%d" % who}},
                "dup": {"kind": "inner", "open": "in.proto", "files": {"in.proto": "import 'R%d'; import 'R%d';" % (who, who), "R%d" % who: ""}},
                "custom": {"kind": "custom", "tag": "R%d " % who}, "io": {"kind": "io", "tag": "R%d " % who}, "iomiss": {"kind": "io", "tag": "R%d " % who, "missing": True}}.get(o, {"kind": "source", "text": t})
        return {"r": "rec", "tag": str(who), "files": files, "paths": {self.PATHS[p]: self.NAMES[n] for p, n in l["p"].items() if n}}

    def tree(self):
        ls = [self.leaf(k, l) for k, l in enumerate(self.rec["leaves"])]
        ch = lambda q: {"r": "chain", "of": q}
        s = self.h % 6
        if s == 1 and len(ls) == 1:
            return ls[0]
        if s == 2 and len(ls) > 1:
            return ch([ch(ls[:-1]), ls[-1]])
        if s == 3 and len(ls) > 1:
            return ch([ls[0], ch([]), ch([ch(ls[1:])])])
        if s == 4:
            return ch([ch([l]) for l in ls] + [ch([])])
        if s == 5 and len(ls) > 2:
            return ch([ls[0], ch(ls[1:-1]), ls[-1]])
        return ch(ls)

    def arg(self, q):
        return self.PATHS.get(q["x"]) or self.NAMES[q["x"]]

    def asked(self):
        return [dict(a, leaves=self.rec["leaves"]) for a in self.rec["past"]] + [self.rec]

    def case(self, i):
        return {"id": i, "resolver": self.tree(), "keep": bool(self.rec["past"]), "queries": [{"q": a["query"]["q"], "arg": self.arg(a["query"])} for a in self.asked()]}

    def compare(self, got):
        d = vlib.dead(got)
        if d:
            return ["ended with " + d]
        if len(got["answers"]) != len(self.asked()):
            return ["%d answers" % len(got["answers"])]
        return [x for rec, a in zip(self.asked(), got["answers"]) for x in self.answer(rec, a)]

    def answer(self, rec, a):
        out = []
        g, e = a["res"], rec["res"]
        lone = self.tree()["r"] != "chain"
        calls = [[str(who), what, (self.PATHS if what == "path" else self.NAMES).get(x) or self.NAMES[x]] for who, what, x in rec["calls"]]
        if a["calls"] != calls:
            out.append("calls: specified %s, got %s" % (vlib.js(calls), vlib.js(a["calls"])))
        x = self.NAMES.get(e["x"], "")
        k = e["k"]
        marks = lambda f: [self.NAMES[f["n"]], ["Any"] if rec["leaves"][f["who"] - 1]["kind"] == "google" else [self.msg(f["n"], f["who"])]]
        if k == "name":
            want = x
        elif k == "noname":
            want = None
        elif k == "file":
            m = marks(rec["files"][0])
            want = {"name": m[0], "msgs": m[1]}
        elif k == "compiled":
            want = {"files": [marks(f) for f in reversed(rec["files"])]}
        else:
            if not isinstance(g, dict) or "msg" not in g:
                return out + ["specified %s, got %s" % (vlib.js(e), vlib.js(g))]
            w = {"nf": k in ("nf", "importnf", "notincluded"), "io": k in ("io", "iomiss"), "parse": k in ("parse", "parsein")}
            inner = rec["leaves"] and rec["leaves"][e["who"] - 1 if e["who"] else 0]["o"].get(e["x"])
            if k == "nf" and not (lone and inner in ("nfother", "nfimport", "nfpath")):
                w.update(msg="file '%s' not found" % x, file=x)
            elif k == "importnf":
                w["msg"] = "import '%s' not found" % x
                if lone:
                    w.pop("msg")
            elif k == "notincluded":
                w["msg"] = "file '%s' is not in any include path" % self.arg(rec["query"])
            elif k == "parse":
                w["file"] = x
                if not g["msg"].endswith("but found 'R%d'" % e["who"]):
                    out.append("parse error of another resolver: " + g["msg"])
            elif k == "parsein":
                w["file"] = "R%d" % e["who"]
            elif k == "cycle":
                w.update(file="in.proto", msg="import cycle detected: in.proto -> R%d -> in.proto" % e["who"])
            elif k == "dup":
                w.update(file="in.proto", msg="import 'R%d' was listed twice" % e["who"])
            elif k == "custom":
                w["msg"] = "custom: R%d %s" % (e["who"], x)
            elif k in ("io", "iomiss"):
                w["msg"] = "io: R%d %s" % (e["who"], x)
            elif k == "link":
                w.update(msg="name 'Nope%d' is not defined" % e["who"], file=x)
            bad = {q: [v, g.get(q)] for q, v in w.items() if g.get(q) != v}
            return out + (["%s: [specified, got] %s" % (k, vlib.js(bad))] if bad else [])
        if g != want:
            out.append("specified %s, got %s" % (vlib.js(want), vlib.js(g)))
        return out


def norm(p):
    """a path without what is immaterial in it"""
    q = [c for c in p.split("/") if c not in ("", ".")]
    return (["/"] if p.startswith("/") else []) + q


class Tree:
    """the directory tree of Paths.tla"""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="vpaths-")
        base, seg = self.root.encode(), lambda s: b"\xff" if s == "Z" else s.encode()
        W = ["w"]
        F = lambda *d: list(d) + ["f.proto"]
        self.marks = {}
        for f in [F(), F("w"), F("w", "a"), F("w", "A"), F("w", "b"), F("w", "a", "b"), F("w", "..."), F("w", "Z"),
                  ["w", "i.proto"], ["w", "j.proto"], ["w", "a", "i.proto"], ["w", "a", "j.proto"], ["w", "b", "o.proto"], ["w", "a", "b", "o.proto"],
                  ["w", "a", "google", "protobuf", "any.proto"]]:
            p = b"/".join([base] + [seg(x) for x in f])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            mark = "m%d" % len(self.marks)
            self.marks["/".join(f)] = mark
            with open(p, "w") as o:
                o.write("package %s; %s" % (mark, {"i.proto": "import 'f.proto';", "j.proto": "import 'google/protobuf/any.proto';"}.get(f[-1], "")))
        self.marks["std"] = "google.protobuf"

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def spell(self, p):
        s = "/".join("\x01" if x == "Z" else x for x in p["segs"])
        if p["abs"] and p["segs"][:1] == ["^"]:
            return s[1:] or "/"
        return self.root + ("/" + s if p["segs"] else "") if p["abs"] else s


class PathCase:
    """a behaviour of Paths.tla as a case for the harness, and the comparison"""

    def __init__(self, rec, tree):
        self.rec, self.tree = rec, tree
        self.incs = [tree.spell(p) for p in rec["incs"]]
        self.opens = [tree.spell(d["path"]) for d in rec["done"]]

    def case(self, i):
        return {"id": i, "cwd": self.tree.root + "/" + "/".join(self.rec["cwd"]), "incs": self.incs, "opens": self.opens}

    def at(self, inc, name):
        """the path of a file in an include directory"""
        return norm(self.incs[inc - 1].replace("\x01", "\ufffd") + "/" + "/".join(name)) if self.incs[inc - 1] else norm("/".join(name))

    def error(self, e, p, got):
        if got is None or "msg" not in got:
            return ["specified %s, got %s" % (e["k"], vlib.js(got))]
        n, k, m, out = "/".join(e["name"]), e["k"], got["msg"], []
        shown = p.replace("\x01", "\ufffd")
        want = {"nf": k in ("notincluded", "nf", "importnf"), "io": k == "io", "parse": False}
        if k == "notincluded":
            want["msg"] = "file '%s' is not in any include path" % shown
        elif k == "nf":
            want.update(msg="file '%s' not found" % p, file=p)
        elif k == "importnf":
            want.update(msg="import 'f.proto' not found", file=n)
        elif k == "shadowed":
            want["file"] = n
            a, b = "path '%s' is shadowed by '" % shown, "' in the include paths"
            if not (m.startswith(a) and m.endswith(b) and norm(m[len(a):-len(b)]) == self.at(e["inc"], e["name"])):
                out.append("message %r" % m)
        elif k == "io":
            want["file"] = n
            if not (m.startswith("error opening file '") and norm(m[20:-1]) == self.at(e["inc"], e["name"])):
                out.append("message %r" % m)
        bad = {q: [v, got.get(q)] for q, v in want.items() if got.get(q) != v}
        return out + (["%s: [specified, got] %s" % (k, vlib.js(bad))] if bad else [])

    def compare(self, got):
        d = vlib.dead(got)
        if d:
            return ["ended with " + d]
        out = []
        for k, (d, p, g) in enumerate(zip(self.rec["done"], self.opens, got["opens"])):
            at = "open %r: " % p
            names = ["/".join(n) or None for n in d["names"]]
            if g["names"] != names:
                out.append(at + "names under the includes: specified %s, got %s" % (names, g["names"]))
            if "\x01" not in p:
                for i, (w, x) in enumerate(zip(d["direct"], g["direct"])):
                    if w != "ok":
                        out += [at + "as a name in %r: %s" % (self.incs[i], t) for t in self.error({"k": w, "name": p.split("/"), "inc": i + 1}, p, x)]
                    elif not (x.get("name") == p and norm(x["path"]) == self.at(i + 1, [p]) and x["source"]):
                        out.append(at + "as a name in %r: got %s" % (self.incs[i], vlib.js(x)))
            e = d["res"]
            if e["k"] == "ok":
                if g["res"] is not None:
                    out.append(at + "specified to succeed, but: " + g["res"]["debug"])
            else:
                out += [at + t for t in self.error(e, p, g["res"])]
            want = [["/".join(h["name"]), h["imp"], self.at(h["inc"], h["name"]) if h["inc"] else None, self.tree.marks["/".join(h["at"])]] for h in d["held"]]
            have = [[f[0], f[1], norm(f[2]) if f[2] is not None else None, f[3]] for f in g["files"]]
            if want != have:
                out.append(at + "files: specified %s, got %s" % (vlib.js(want), vlib.js(have)))
        # compile() is the same, up to the first failure
        bad = [g for d, g in zip(self.rec["done"], got["opens"]) if d["res"]["k"] != "ok"]
        want = bad[0]["res"]["debug"] if bad and bad[0]["res"] else [["/".join(h["name"]), self.tree.marks["/".join(h["at"])], True] for h in self.rec["done"][-1]["held"]]
        if got["compile"] != want:
            out.append("compile(): specified %s, got %s" % (vlib.js(want), vlib.js(got["compile"])))
        return out


class DiskCase:
    """a behaviour of Disk.tla as a case for the harness, and the comparison"""

    def __init__(self, rec, k, base):
        self.rec = rec
        self.odd = rec["nm"] != "plain"
        sub = k % 2 or any("notdir" in (h["to"],) for h in rec["hist"]) or "notdir" in rec["disk"].values()
        self.name = {"long": "x" * 300 + ".proto", "nul": "f\0.proto"}.get(rec["nm"]) or ("d/f.proto" if sub else "f.proto")
        self.root = "%s/%x" % (base, k)

    def states(self):
        return set(self.rec["disk"].values()) | {h["to"] for h in self.rec["hist"]}

    def case(self, i):
        return {"id": i, "root": self.root, "name": self.name, "odd": self.odd, "disk": self.rec["disk"],
                "ops": [{"op": h["op"], "route": h["route"], "dir": h["dir"], "to": h["to"]} for h in self.rec["hist"]]}

    def compare(self, got):
        d = vlib.dead(got)
        if d:
            return ["ended with " + d]
        out, n = [], 0
        held = ""
        for i, h in enumerate(self.rec["hist"]):
            if h["op"] != "ask":
                continue
            g, e, r = got["answers"][n], h["res"], h["route"]
            n += 1
            k, name = e["k"], "label.proto" if r == "file" else self.name
            at = "step %d (%s, %s): " % (i, r, k)
            if k in ("ok", "held"):
                st = e["st"] + e["dir"] if k == "ok" else e["st"][1:] + e["st"][0]
                mark = "" if st.startswith("empty") else st
                if not isinstance(g, dict) or g.get("marker") != mark:
                    out.append(at + "got %s" % vlib.js(g))
                elif r in ("file", "include", "chain") and (g["name"] != name or g["path"] != "%s/%s/%s" % (self.root, e["dir"], self.name)):
                    out.append(at + "got %s" % vlib.js(g))
                continue
            if not isinstance(g, dict) or "msg" not in g:
                out.append(at + "specified to fail, got %s" % vlib.js(g))
                continue
            w = {"nf": k in ("nf", "notincluded", "importnf"), "parse": k in ("parse", "utf8", "large"), "io": k == "io", "file": name}
            if k == "nf":
                w["msg"] = "file '%s' not found" % name
            elif k == "notincluded":
                w.update(msg="file '%s' is not in any include path" % name, file=None)
            elif k == "importnf":
                w.update(msg="import '%s' not found" % name, file={"import": "r%d.proto" % i, "deep": "m%d.proto" % i, "setimport": "s.proto"}[r])
            elif k == "utf8":
                w["msg"] = "file '%s' is not valid utf-8" % name
            elif k == "large":
                w["msg"] = "file '%s' is too large" % name
            elif k == "io":
                m = g["msg"]
                if not (m.startswith("error opening file '" + self.root) and m.endswith("/%s'" % self.name) and g["debug"].startswith(m + ": ")):
                    out.append(at + "message %r, %r" % (m, g["debug"]))
            elif k == "parse":
                if not g["debug"].startswith(name + ":1:") or len(g["spans"]) != 1:
                    out.append(at + "displayed as %r" % g["debug"])
            bad = {q: [v, g.get(q)] for q, v in w.items() if g.get(q) != v}
            if bad:
                out.append(at + "[specified, got] %s" % vlib.js(bad))
        return out


class WireCase:
    """a behaviour of Wire.tla as a case for the harness, and the comparison"""
    NAMES = ["a.proto", "b.proto", "c.proto", "", "a"]

    def __init__(self, rec):
        self.rec = rec
        self.compile = rec["st"] == "ok" and rec["mode"] != "alter"

    def case(self, i):
        return {"id": i, "hex": bytes(self.rec["bytes"]).hex(), "names": self.NAMES, "compile": self.compile}

    @staticmethod
    def text(b):
        return bytes(b).decode("utf-8", "replace")

    def brief(self, f):
        return {"name": self.text(f["name"]), "pkg": self.text(f["pkg"]), "deps": [self.text(d) for d in f["deps"]], "syntax": self.text(f["syntax"]),
                "msgs": [self.text(m) for m in f["msgs"]], "path": False, "source": False}

    @staticmethod
    def opts(f):
        """the options of a file as the harness reads them"""
        out = []
        for o in f["opts"]:
            v = bytes(o["v"])
            if o["w"] == 0:
                x = 0
                for b in reversed(v):
                    x = x << 7 | b & 127
                v = x
            else:
                v = v.hex() if o["w"] == 2 else int.from_bytes(v, "little")
            out.append([o["k"], o["n"], v])
        return out

    def first(self, n):
        for f in self.rec["files"]:
            if self.text(f["name"]) == n:
                return f

    def compare(self, got):
        d = vlib.dead(got)
        if d:
            return ["ended with " + d]
        out, rec = [], self.rec
        if got["differ"]:
            out.append("differs when the buffer is in parts: %s" % vlib.js(got["differ"]))
        f = rec["file"]
        if f["st"] != "any":
            want = "err" if f["st"] == "err" else self.brief(f)
            have = got["file"] if got["file"] == "err" else {k: v for k, v in got["file"].items() if k != "has"}
            if want != have:
                out.append("as a file: specified %s, got %s" % (vlib.js(want), vlib.js(have)))
        if rec["st"] == "any":
            return out
        if rec["st"] == "err" or got["set"] == "err":
            return out + ([] if rec["st"] == got["set"] else ["specified %s, got %s" % (rec["st"], vlib.js(got["set"]))])
        for n, g in zip(self.NAMES, got["set"]):
            f = self.first(n)
            if f is None:
                ok = g.get("nf") is True and g.get("msg") == "file '%s' not found" % n and g["file"] == n
            else:
                ok = {k: v for k, v in g.items() if k != "has"} == self.brief(f)
            if not ok:
                out.append("file %r: specified %s, got %s" % (n, f and vlib.js(self.brief(f)), vlib.js(g)))
        if self.compile:
            for k, n in enumerate(self.NAMES):
                f = self.first(n)
                for g in got["compile"][2 * k:2 * k + 2]:
                    if n in ("", "a") or f is None:
                        if not g.get("nf"):
                            out.append("compile %r: got %s" % (n, vlib.js(g)))
                        continue
                    deps = [self.first(self.text(d)) for d in f["deps"]]
                    if None in deps:
                        if g.get("msg") != "import '%s' not found" % self.text(f["deps"][deps.index(None)]) or not g["nf"] or g["file"] != n:
                            out.append("compile %r: got %s" % (n, vlib.js(g)))
                        continue
                    fs = deps + [f]
                    if "files" not in g:
                        out.append("compile %r: got %s" % (n, vlib.js(g)))
                        continue
                    want = {"files": [[self.text(x["name"]), x is not f, False] for x in fs], "opts": [sorted(self.opts(x), key=vlib.js) for x in fs], "fds": [self.brief(x) for x in fs]}
                    have = {"files": g["files"], "opts": [sorted(o, key=vlib.js) for o in g["opts"]], "fds": [{a: b for a, b in x.items() if a != "has"} for x in g["fds"]]}
                    if want != have:
                        out.append("compile %r: specified %s, got %s" % (n, vlib.js(want), vlib.js(have)))
        return out


CLI_FILES = {"a.proto": "// the a\nimport 'b.proto';\npackage pa; /* x */\nmessage A { optional B b = 1; message B {} } // end\n", "b.proto": "package pb;\nenum E { Z = 0; } // zero\n",
             "m.proto": "import 'gone.proto';", "bad.proto": "message {", "inc/c.proto": "import 'b.proto'; package pc;", "inc/b.proto": "package pib; // other b\n",
             "o.proto": "import 'google/protobuf/descriptor.proto';\npackage po;\nextend google.protobuf.FileOptions { optional int32 x = 50001; }\noption (po.x) = 7;\n"}
CLI_PKG = {("a.proto", "."): "pa", ("b.proto", "."): "pb", ("b.proto", "inc"): "pib", ("c.proto", "inc"): "pc", ("inc/c.proto", "."): "pc", ("inc/b.proto", "."): "pib",
           ("o.proto", "."): "po", ("google/protobuf/descriptor.proto", "std"): "google.protobuf"}


def cli_run(base, k, args):
    """run the tool in a directory of its own: exit status, standard streams, and what changed"""
    d = os.path.join(base, "c%d" % k)
    os.makedirs(os.path.join(d, "inc"))
    for n, t in CLI_FILES.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    with open(os.path.join(d, "old"), "w") as f:
        f.write("previous contents\n" * 200)
    p = subprocess.run([vlib.CLI] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                       env={"PATH": "/usr/bin:/bin", "NO_COLOR": "1"})
    changed = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            q = os.path.relpath(os.path.join(r, f), d)
            with open(os.path.join(r, f), "rb") as h:
                b = h.read()
            if q == "old" and b == b"previous contents\n" * 200 or q in CLI_FILES and b == CLI_FILES[q].encode():
                continue
            changed[q] = b.hex()
    for q in list(CLI_FILES) + ["old"]:
        if not os.path.isfile(os.path.join(d, q)):
            changed[q] = "gone"
    shutil.rmtree(d)
    return {"rc": p.returncode, "stdout": len(p.stdout), "stderr": p.stderr.decode("utf-8", "replace"), "changed": changed}


def cli_compare(rec, got, lib):
    out = []
    st, rc = rec["st"], got["rc"]
    if st in ("done", "help") and rc != 0:
        out.append("specified to succeed, exit status %s: %s" % (rc, got["stderr"][:300]))
    if st in ("usage", "failed"):
        if not 0 < rc < 100:
            out.append("specified to fail (%s), exit status %s" % (st, rc))
        if not got["stderr"]:
            out.append("no message")
        if "panicked" in got["stderr"]:
            out.append("panic: " + got["stderr"][:300])
    want = {}
    if st == "done":
        if "hex" not in lib:
            return out + ["the library fails: %s" % lib.get("debug")]
        names = [[n["n"], CLI_PKG[(n["n"], n["w"])], rec["sinfo"]] for n in rec["names"]]
        if rec["out"]:
            want = {rec["out"]: lib["hex"]}
            if lib["names"] != names:
                out.append("the library selects %s, specified %s" % (vlib.js(lib["names"]), vlib.js(names)))
    if st == "failed" and rec["out"] not in ("no/out", "inc") and "hex" in lib:
        out.append("specified to fail, but the library succeeds")
    if got["changed"] != want:
        out.append("files written: specified %s, got %s" % (vlib.js(want)[:300], vlib.js(got["changed"])[:300]))
    return out


class Prop:
    def __init__(self, technique, note, aspects, quick, thorough):
        self.technique, self.note, self.aspects, self.quick, self.thorough = technique, note, aspects, quick, thorough


HT = ("TLA+ state machine of the compiler (resolver calls, depth first search, linking, failures, flags), explored by TLC with invariants; "
      "every history replayed into the real Compiler over a recording resolver, all observations after every operation compared")
HN = ("Exhaustive over the worlds and histories of the named families (three to six files); the linker's own rules are taken from the dependency. "
      "Trusts TLC and the harness.")
# runs: ("hist", mode, length, sampled worlds (0: all)) ("histsim", mode, length, behaviours)
LONG = ("long", (("chain", 100), ("chain", 500), ("wide", 800), ("ladder", 300), ("cycle", 300), ("chain", 4000)))
BROKEN = ("long", (("cycle", 300), ("rho", 40), ("rho", 3), ("gone", 600), ("twice", 600), ("self", 600), ("gone", 3), ("twice", 700)))
PROPS = {
    "C20": Prop(HT, HN, {"dead", "files", "calls", "result"},
             [("hist", "graphs", 2, 700), ("hist", "flags", 2, 60), ("histsim", "big", 4, 300), LONG],
             [("hist", "graphs", 2, 0), ("hist", "flags", 3, 0), ("histsim", "big", 6, 8000), LONG]),
    "C21": Prop(HT, HN, {"dead", "result", "error", "files"},
             [("hist", "graphs", 2, 700), ("hist", "shadow", 2, 30), ("hist", "dups", 2, 300), ("histsim", "big", 4, 200), BROKEN],
             [("hist", "graphs", 2, 0), ("hist", "dups", 2, 0), ("histsim", "big", 6, 8000), BROKEN]),
    "C22": Prop(HT, HN, {"dead", "imports", "set", "enc", "opts"},
             [("flagtexts", "options optnames comments aggvals rangelists nests clashes defaults many strings deepest", 100), ("hist", "flags", 3, 12), ("hist", "shadow", 2, 50), ("hist", "options", 2, 72), ("histsim", "flags", 6, 100), ("histsim", "options", 6, 100)],
             [("flagtexts", "*", 1500), ("hist", "flags", 3, 0), ("hist", "options", 3, 0), ("histsim", "flags", 10, 3000), ("histsim", "options", 10, 3000)]),
    "C23": Prop(HT, HN, {"dead", "result", "files", "imports", "state", "calls", "set"},
             [("hist", "faults", 3, 60), ("hist", "shadow", 3, 40), ("hist", "graphs", 2, 200), ("histsim", "big", 6, 200), ("histsim", "options", 5, 60)],
             [("hist", "faults", 3, 0), ("hist", "shadow", 3, 0), ("histsim", "shadow", 6, 2000), ("hist", "graphs", 3, 2000), ("histsim", "big", 8, 5000), ("histsim", "options", 8, 3000)]),
    "C25": Prop("TLA+ model of paths, include directories and a directory tree; spellings enumerated by TLC with invariants on what is denoted; every behaviour replayed "
                "on a real tree through the include resolver, the compiler and compile()", "Exhaustive or sampled over the spellings of the named families, on one tree, Unix paths only. Trusts TLC and the harness.", {"paths"},
             [("paths", "one", 90), ("paths", "two", 50), ("paths", "near", 50)],
             [("paths", "one", 400), ("paths", "two", 150), ("paths", "near", 2000)]),
    "C26": Prop("TLA+ model of the wire format reading descriptor sets byte by byte; TLC enumerates sequences of well-formed, unrelated and malformed fields, every cut, and altered "
                "bytes, with invariants; every one decoded by the real resolver from contiguous and split buffers, contents, lookups and compiled output compared",
                "Files use the fields name, package, dependency, message and options; other known fields only occur in altered bytes, where only the absence of panics and the "
                "independence of buffer splits is checked. Trusts TLC and the harness.", {"wire"},
             [("wire", "pieces", 900), ("wire", "cut", 120), ("wire", "alter", 100)],
             [("wire", "pieces", 20000), ("wire", "cut", 0), ("wire", "alter", 0)]),
    "C29": Prop("TLA+ state machine of the command line tool (arguments one by one, then files, then output); argument vectors enumerated by TLC and run with the real binary in scratch "
                "directories; exit status and every file written compared with the specification and with the library's output",
                "Every spelling of every argument once, sampled vectors up to five arguments, on one set of files. Trusts TLC and the harness.", {"cli"},
             [("cli", "each", 0), ("cli", "flags", 0), ("cli", "good", 250), ("cli", "any", 150)],
             [("cli", "each", 0), ("cli", "flags", 0), ("cli", "good", 6000), ("cli", "any", 3000)]),
    "C27": Prop("TLA+ state machine of a file sought in changing directories; histories enumerated by TLC; each replayed on a real file system by every route, "
                "classification and naming compared", "All causes that can be produced without privileges, all routes, histories of two (three) requests. Trusts TLC and the harness.", {"disk"},
             [("size",), ("disk", 2, 2), ("disk", 3, 1)],
             [("size",), ("disk", 2, 3), ("disk", 3, 2)]),
    "C28": Prop("TLA+ model of opening files that come as text, from disk, as descriptors or encoded, TLC enumerating contents and forms with the invariant that the form does not matter; every world "
                "replayed with real files of those forms, and the texts of the grammar families compiled in every form", "Three files, seven forms; texts of the families alone. Trusts TLC and the harness.", {"forms"},
             [("forms", 40), ("formtexts", "options optnames comments aggvals rangelists nests clashes synnames defaults crowdimports strings names deepest", 120)],
             [("forms", 0), ("formtexts", "*", 1500)]),
    "C24": Prop("TLA+ state machine of the consultation of resolvers, all chains up to four members enumerated by TLC; every query replayed into real chains of "
                "scripted resolvers (flat and nested), calls and answers compared", "Exhaustive over the named families. Trusts TLC and the harness.", {"chain", "paths", "wkt"},
             [("wkt",), ("paths", "std", 0), ("chain", "open", 1000), ("chain", "imports", 400), ("chain", "paths", 400), ("chain", "google", 300), ("chain", "history", 100)],
             [("wkt",), ("paths", "std", 0), ("chain", "open", 0), ("chain", "imports", 0), ("chain", "paths", 0), ("chain", "google", 0), ("chain", "history", 0)]),
}


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.p = prop, tier, seed, PROPS[prop]
        self.runs = self.p.thorough if tier == "thorough" else self.p.quick
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.detail = [], [], []
        self.kinds, self.seen, self.selftest = {}, set(), 0

    def note(self, run, cases, t):
        if t is not None:
            self.states += t.distinct
            self.transitions += t.states
        self.traces += cases
        self.detail.append({"run": " ".join(map(str, run)), "cases": cases, "states": t.distinct if t else 0})

    def violation(self, asp, what, inp, spec, rec, run, key=None):
        v = {"aspect": asp, "what": what, "input": inp, "specified": spec, "recorded": rec, "from": " ".join(map(str, run))}
        if key:
            v["key"] = key
        self.violations.append(v)

    def run(self):
        vlib.build(cli=any(r[0] == "cli" for r in self.runs))
        for r in self.runs:
            getattr(self, "run_" + r[0])(r)

    # ------------------------------------------------------------- histories
    def run_histsim(self, r):
        self.run_hist(r)

    def run_hist(self, r):
        tmo = 3600 if self.tier == "thorough" else 600
        if r[0] == "hist":
            t = vlib.run_tlc("CompHist", HIST_CFG, env={"MODE": r[1], "LEN": str(r[2]), "SAMPLE": str(r[3])}, seed=self.seed, timeout=tmo, heap="12g")
        else:
            t = vlib.run_tlc("CompHist", HIST_CFG.replace("PROPERTIES NoRereads Stable\n", ""), env={"MODE": r[1], "LEN": str(r[2]), "SAMPLE": "0"},
                             simulate=r[3], depth=60 + 20 * r[2], seed=self.seed, timeout=tmo, heap="12g")
        recs = []
        for x in t.records:
            k = hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()
            if k not in self.seen:
                self.seen.add(k)
                recs.append((int(k[:8], 16), x))
        if not t.records:
            raise vlib.ToolError("no histories from %s" % (r,))
        rnd = random.Random(self.seed)
        for a in range(0, len(recs), 20000):
            base = tempfile.mkdtemp(prefix="vhist-")
            try:
                hs = [Hist(x, k, "%s/%d" % (base, i), r[1] == "shadow") for i, (k, x) in enumerate(recs[a:a + 20000])]
                res = vlib.run_vh("hist", [h.case(i) for i, h in enumerate(hs)])
            finally:
                shutil.rmtree(base, ignore_errors=True)
            for i, h in enumerate(hs):
                for asp, txt in h.compare(res[i]):
                    if asp in self.p.aspects:
                        self.violation(asp, txt, vlib.js(h.ops), h.rec, res[i], r)
                        break
                for s, _ in h.steps:
                    self.kinds[s["res"]["k"]] = self.kinds.get(s["res"]["k"], 0) + 1
            for i in rnd.sample(range(len(hs)), min(2, len(hs))):
                self.samples.append({"from": " ".join(map(str, r)), "history": [(s["op"], s["arg"], s["res"]["k"]) for s, _ in hs[i].steps],
                                     "world": {n: [f["st"], f["imps"], f["kind"]] for n, f in hs[i].rec["world"].items()}})
            for i, h in enumerate(hs):
                if self.corrupt(h, res[i]):
                    break
        self.note(r, len(recs), t)

    def corrupt(self, h, got):
        """a corrupted recording has to be noticed"""
        if vlib.dead(got) or any(a in self.p.aspects for a, _ in h.compare(got)):
            return False
        c = copy.deepcopy(got)
        last = c["steps"][-1]
        asps = self.p.aspects
        if "files" in asps and last["obs"]["files"]:
            last["obs"]["files"] = last["obs"]["files"][:-1]
        elif "set" in asps and last["obs"]["fds"]:
            last["obs"]["fds"].reverse() if len(last["obs"]["fds"]) > 1 else last["obs"]["fds"].pop()
        elif "error" in asps and last.get("res"):
            last["res"]["msg"] += "."
        else:
            return False
        if not any(a in asps for a, _ in h.compare(c)):
            raise vlib.ToolError("self test: a corrupted recording was accepted")
        self.selftest += 1
        return True


    def run_long(self, r):
        """the shapes of the graphs family at a size TLC does not reach: long chains, wide files, long cycles"""
        def world(imps):
            return [{"op": "set", "name": "f%d.proto" % i, "file": {"kind": "source", "text": "syntax = 'proto3';" + "".join("import 'f%d.proto';" % j for j in q) + " message M%d {}" % i}}
                    for i, q in enumerate(imps)]
        for shape, n in r[1]:
            if shape == "chain":
                imps, order = [[i + 1] if i + 1 < n else [] for i in range(n)], list(range(n))[::-1]
            elif shape == "wide":
                imps, order = [list(range(1, n))] + [[] for _ in range(n - 1)], list(range(1, n)) + [0]
            elif shape == "ladder":
                imps, order = [[j for j in (i + 2, i + 1) if j < n] for i in range(n)], None
            elif shape == "cycle":
                imps, order = [[(i + 1) % n] for i in range(n)], []
            elif shape == "rho":
                # the last file imports the second: a cycle the first is not part of
                imps, order = [[i + 1 if i + 1 < n else 1] for i in range(n)], []
            else:
                # a wide file whose last import is wrong: gone, listed before, or the file itself
                imps, order = [list(range(1, n)) + [{"gone": n, "twice": n // 2, "self": 0}[shape]]] + [[] for _ in range(n - 1)], list(range(1, n))
            got = vlib.run_vh("hist", [{"id": 0, "ops": world(imps) + [{"op": "open", "path": "f0.proto"}]}], case_timeout=120)[0]
            key = "%s-%d" % (shape, n)
            if vlib.dead(got):
                self.violation("dead", "a %s of %d files: %s" % (shape, n, vlib.dead(got)), key, None, got, r, key)
                continue
            st = got["steps"][0]
            files = [int(f[0][1:-6]) for f in st["obs"]["files"]]
            if shape == "rho":
                ok = st["res"] and st["res"]["msg"] == "import cycle detected: " + " -> ".join("f%d.proto" % i for i in list(range(n)) + [1]) and not files
            elif shape == "cycle":
                ok = st["res"] and st["res"]["msg"] == "import cycle detected: " + " -> ".join("f%d.proto" % (i % n) for i in range(n + 1)) and not files
            elif shape in ("gone", "twice", "self"):
                last = imps[0][-1]
                text = "syntax = 'proto3';" + "".join("import 'f%d.proto';" % j for j in imps[0])
                at = text.rindex("import")
                msg = {"gone": "import 'f%d.proto' not found" % last, "twice": "import 'f%d.proto' was listed twice" % last, "self": "import cycle detected: f0.proto -> f0.proto"}[shape]
                ok = st["res"] and st["res"]["msg"] == msg and st["res"]["file"] == "f0.proto" and st["res"]["spans"] == ([] if shape == "self" else [[at, len(text)]]) and files == order
            else:
                pos = {f: i for i, f in enumerate(files)}
                ok = st["res"] is None and len(set(files)) == len(files) == n and all(pos[j] < pos[i] for i, q in enumerate(imps) for j in q) and (order is None or files == order) \
                    and len(st["calls"]) == n
            if not ok:
                self.violation("files", "a %s of %d files: %s" % (shape, n, vlib.js(st["res"])[:300]), key, None, files[:50], r, key)
        self.note((r[0], " ".join("%s-%d" % x for x in r[1])), len(r[1]), None)

    # --------------------------------------------------------------- chains
    def run_chain(self, r):
        t = vlib.run_tlc("Chain", "SPECIFICATION Spec\nINVARIANTS InOrder Once NoMemory Emitted\nCHECK_DEADLOCK FALSE\n", env={"MODE": r[1], "SAMPLE": str(r[2]), "HISTORY": "3" if self.tier == "thorough" else "2"},
                         seed=self.seed, timeout=3600 if self.tier == "thorough" else 300)
        cs = [Chain(x) for x in t.records]
        if not cs:
            raise vlib.ToolError("no cases from %s" % (r,))
        res = vlib.run_vh("chain", [c.case(i) for i, c in enumerate(cs)])
        rnd = random.Random(self.seed)
        for i, c in enumerate(cs):
            ds = c.compare(res[i])
            if ds:
                self.violation("chain", "; ".join(ds), vlib.js(c.case(i)), c.rec, res[i], r)
            k = c.rec["res"]["k"]
            self.kinds[k] = self.kinds.get(k, 0) + 1
        for i in rnd.sample(range(len(cs)), min(3, len(cs))):
            self.samples.append({"from": " ".join(map(str, r)), "specified": cs[i].rec, "recorded": res[i]["answers"]})
            c = copy.deepcopy(res[i])
            if not cs[i].compare(res[i]):
                c["answers"][0]["calls"].append(["1", "open", "zz"])
                if not cs[i].compare(c):
                    raise vlib.ToolError("self test: a corrupted recording was accepted")
                self.selftest += 1
        self.note(r, len(cs), t)

    # ------------------------------------------------------ the file system
    def run_paths(self, r):
        t = vlib.run_tlc("Paths", "SPECIFICATION Spec\nINVARIANTS Correct OneEach Emitted\nCHECK_DEADLOCK FALSE\n", env={"MODE": r[1], "SAMPLE": str(r[2])},
                         seed=self.seed, timeout=3600 if self.tier == "thorough" else 400, heap="10g")
        if not t.records:
            raise vlib.ToolError("no cases from %s" % (r,))
        tree = Tree()
        try:
            self.replay("paths", [PathCase(x, tree) for x in t.records], r, lambda c: [d["res"]["k"] for d in c.rec["done"]],
                        lambda x: x["opens"][-1]["names"].append("zz"))
        finally:
            tree.close()
        self.note(r, len(t.records), t)

    def replay(self, mode, cs, r, kinds, corrupt, **kw):
        res = vlib.run_vh(mode, [c.case(i) for i, c in enumerate(cs)], **kw)
        rnd = random.Random(self.seed)
        for i, c in enumerate(cs):
            ds = c.compare(res[i])
            if ds:
                self.violation(mode, "; ".join(ds), vlib.js(c.case(0)), c.rec, res[i], r)
            for k in kinds(c):
                self.kinds[k] = self.kinds.get(k, 0) + 1
        for i in rnd.sample(range(len(cs)), min(3, len(cs))):
            self.samples.append({"from": " ".join(map(str, r)), "specified": cs[i].rec, "recorded": {k: v for k, v in res[i].items() if k != "id"}})
            if not cs[i].compare(res[i]):
                x = copy.deepcopy(res[i])
                corrupt(x)
                if not cs[i].compare(x):
                    raise vlib.ToolError("self test: a corrupted recording was accepted")
                self.selftest += 1
        return res

    def run_wire(self, r):
        t = vlib.run_tlc("Wire", "SPECIFICATION Spec\nINVARIANTS Whole Emitted\nPROPERTIES Forward\nCHECK_DEADLOCK FALSE\n", env={"MODE": r[1], "SAMPLE": str(r[2])},
                         seed=self.seed, timeout=3600 if self.tier == "thorough" else 400, heap="10g")
        self.replay("wire", [WireCase(x) for x in t.records], r, lambda c: [c.rec["st"]], lambda x: x["differ"].append("zz"))
        self.note(r, len(t.records), t)

    def run_cli(self, r):
        t = vlib.run_tlc("Cli", "SPECIFICATION Spec\nINVARIANTS Sane Emitted\nCHECK_DEADLOCK FALSE\n", env={"MODE": r[1], "SAMPLE": str(r[2])},
                         seed=self.seed, timeout=600, heap="8g")
        base = tempfile.mkdtemp(prefix="vcli-")
        try:
            rd = os.path.join(base, "lib")
            os.makedirs(os.path.join(rd, "inc"))
            for n, x in CLI_FILES.items():
                with open(os.path.join(rd, n), "w") as f:
                    f.write(x)
            with open(os.path.join(rd, "old"), "w") as f:
                f.write("previous contents\n")
            lib = vlib.run_vh("lib", [dict(x, id=i, cwd=rd, incs=x["incs"] or ["."]) for i, x in enumerate(t.records)])
            with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
                got = list(ex.map(lambda k: cli_run(base, k, t.records[k]["args"]), range(len(t.records))))
            for i, (x, g) in enumerate(zip(t.records, got)):
                ds = cli_compare(x, g, lib[i])
                if ds:
                    self.violation("cli", "; ".join(ds), vlib.js(x["args"]), x, g, r)
                self.kinds[x["st"]] = self.kinds.get(x["st"], 0) + 1
                if i % (len(got) // 3 + 1) == 0:
                    self.samples.append({"from": " ".join(map(str, r)), "specified": x, "recorded": g})
                if x["st"] == "done" and x["out"] and not ds and self.selftest < 50:
                    if not cli_compare(x, dict(g, changed={}), lib[i]) or not cli_compare(x, dict(g, rc=1), lib[i]):
                        raise vlib.ToolError("self test: a corrupted recording was accepted")
                    self.selftest += 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
        self.note(r, len(t.records), t)

    def run_disk(self, r):
        t = vlib.run_tlc("Disk", "SPECIFICATION Spec\nINVARIANTS OneKind NoMask Emitted\nCHECK_DEADLOCK FALSE\n", env={"LEN": str(r[1]), "SAMPLE": str(r[2])},
                         seed=self.seed, timeout=3600 if self.tier == "thorough" else 400, heap="10g")
        base = tempfile.mkdtemp(prefix="vd")
        try:
            cs = [DiskCase(x, k, base) for k, x in enumerate(t.records)]
            # as an unprivileged user, if possible: root can read everything
            user, kw = None, {}
            try:
                user = pwd.getpwnam("nobody").pw_uid
                vh = os.path.join(base, "vh")
                shutil.copy(vlib.VH, vh)
                os.chmod(vh, 0o755)
                os.chown(base, user, -1)
                os.chmod(base, 0o755)
                subprocess.run([vh, "disk"], stdin=subprocess.DEVNULL, user=user, check=True)
                kw = {"user": user, "vh": vh}
            except (OSError, KeyError, subprocess.SubprocessError):
                if os.geteuid() == 0:
                    cs = [c for c in cs if "noaccess" not in c.states()]
                    self.detail.append({"run": "files without permission left out: cannot become another user"})
            rnd = random.Random(self.seed)
            large = [c for c in cs if "large" in c.states()]
            rest = [c for c in cs if "large" not in c.states()]
            large = rnd.sample(large, min(len(large), 2000 if self.tier == "thorough" else 60))
            kinds = lambda c: [h["res"]["k"] for h in c.rec["hist"] if h["op"] == "ask"]

            def corrupt(x):
                x["answers"][-1] = {"marker": "zz"}
            self.replay("disk", rest, r, kinds, corrupt, **kw)
            # reading such a file would take gigabytes: one at a time
            self.replay("disk", large, r, kinds, corrupt, jobs=1, case_timeout=60, **kw)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        self.note(r, len(rest) + len(large), t)

    def run_size(self, r):
        t = vlib.run_tlc("Limits", "SPECIFICATION Spec\nINVARIANTS Inv Emitted\nCHECK_DEADLOCK FALSE\n", timeout=100)
        base = tempfile.mkdtemp(prefix="vsz")
        try:
            cs = [dict(x, id=i, size=x["base"] + x["off"], root=os.path.join(base, "s%d" % i)) for i, x in enumerate(t.records)]
            if self.tier != "thorough":        # texts of gigabytes: a few
                cs = [c for c in cs if c["content"] == "good" or c["off"] >= 0 and c["route"] in ("parse", "import") or c["off"] == 1 and c["route"] == "pipe"]
            res = vlib.run_vh("size", [c for c in cs if c["content"] == "good"])
            res.update(vlib.run_vh("size", [c for c in cs if c["content"] == "bad"], jobs=1, case_timeout=120))     # gigabytes
            for c in cs:
                g = res[c["id"]]
                want = {"ok": {"msgs": ["A", "Z"], "len": c["size"]},
                        "parse": {"msg": "expected a string, but found '1'", "parse": True, "nf": False, "io": False, "file": "l.proto"},
                        "large": {"parse": True, "nf": False, "io": False, "file": "l.proto"}}[c["res"]]
                bad = {k: [v, g.get(k)] for k, v in want.items() if g.get(k) != v}
                if c["res"] == "large" and "too large" not in str(g.get("msg")):
                    bad["msg"] = g.get("msg")
                if vlib.dead(g) or bad:
                    self.violation("size", "%d bytes by %s: %s" % (c["size"], c["route"], vlib.dead(g) or "[specified, got] " + vlib.js(bad)), vlib.js(c), c["res"], g, r)
                self.kinds[c["res"]] = self.kinds.get(c["res"], 0) + 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
        self.note(r, len(cs), t)

    def run_forms(self, r):
        """every world of Forms.tla; and the outputs do not depend on the forms"""
        t = vlib.run_tlc("Forms", "SPECIFICATION Spec\nINVARIANTS FormBlind Once Pointed Emitted\nCHECK_DEADLOCK FALSE\n", env={"SAMPLE": str(r[1])}, seed=self.seed,
                         timeout=3600 if self.tier == "thorough" else 300, heap="10g")
        base = tempfile.mkdtemp(prefix="vforms-")
        try:
            cs = [FormCase(x, base) for x in t.records]
            res = self.replay("forms", cs, r, lambda c: [h["res"]["k"] for h in c.rec["hist"]], lambda x: x["steps"][-1]["pool"].append("zz"))
        finally:
            shutil.rmtree(base, ignore_errors=True)
        first = {}
        for i, c in enumerate(cs):
            if vlib.dead(res[i]):
                continue
            # the same contents opened in the same order
            key = vlib.js([c.rec["what"], [h["n"] for h in c.rec["hist"]]])
            outs = [s["outs"] for s in res[i]["steps"]]
            o = first.setdefault(key, (c, outs))
            if o[1] != outs:
                self.violation("forms", "the output differs from that with the forms %s" % vlib.js(o[0].rec["form"]), vlib.js(c.case(0)), c.rec, res[i], r)
        self.note(r, len(cs), t)

    def run_flagtexts(self, r):
        """texts of the grammar, alone: the outputs with either flag"""
        import parsechecks
        t = vlib.run_tlc("Scen", parsechecks.SCEN_CFG, env={"FAMILIES": parsechecks.FAMILIES if r[1] == "*" else r[1], "BIG": "0", "SAMPLE": str(r[2])}, xss="256m", seed=self.seed,
                         timeout=1800, heap="12g")
        srcs = [""] + sorted({bytes(x["src"]).decode("utf-8") for x in t.records if x["out"]["ok"]})
        res = vlib.run_vh("forms", [{"id": i, "base": "/nonexistent", "texts": {"t.proto": s}, "forms": {"t.proto": ["source", "desc", "bytes"][i % 3]}, "opens": ["t.proto"]} for i, s in enumerate(srcs)])
        for i, s in enumerate(srcs):
            d = vlib.dead(res[i])
            bad = ["ended with " + d] if d else self.flagged(res[i]["steps"][0])
            if bad:
                self.violation("set", "; ".join(bad), s, None, res[i], r)
            k = "ended" if d else "refused" if res[i]["steps"][0]["res"] else "compiled"
            self.kinds[k] = self.kinds.get(k, 0) + 1
        self.note(r, len(srcs), t)

    @staticmethod
    def flagged(st):
        """the output for each setting of the flags: the files selected, their locations, agreement of the two forms of output"""
        bad = []
        for k, (imports, info) in enumerate([(True, True), (True, False), (False, True), (False, False)]):
            want = [[f[0], info] for f in st["files"] if imports or not f[1]]
            if st["flags"][k] != [want, True, True]:
                bad.append("include_imports(%s), include_source_info(%s): specified %s, the same encoded; got %s" % (imports, info, vlib.js(want), vlib.js(st["flags"][k])))
        return bad

    def run_formtexts(self, r):
        """texts of the grammar, alone, in every form"""
        import parsechecks
        fam = parsechecks.FAMILIES if r[1] == "*" else r[1]
        t = vlib.run_tlc("Scen", parsechecks.SCEN_CFG, env={"FAMILIES": fam, "BIG": "0", "SAMPLE": str(r[2])}, xss="256m", seed=self.seed, timeout=1800, heap="12g")
        srcs = sorted({bytes(x["src"]).decode("utf-8") for x in t.records if x["out"]["ok"]})
        # line endings of another kind, and none at the end
        srcs = sorted({""} | {s if i % 3 else s.replace("\r\n", "\n").replace("\n", "\r\n") if i % 2 else s + "\r\n" for i, s in enumerate(srcs)})
        if not srcs:
            raise vlib.ToolError("no cases from %s" % (r,))
        base = tempfile.mkdtemp(prefix="vforms-")
        try:
            name = lambda i: ["t.proto", "d/t.proto", "t"][i % 3]
            res = vlib.run_vh("forms", [{"id": i, "base": os.path.join(base, str(i)), "texts": {name(i): s}, "opens": [name(i)], "all": True} for i, s in enumerate(srcs)])
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for i, s in enumerate(srcs):
            g, d = res[i], vlib.dead(res[i])
            if d:
                self.violation("forms", "ended with " + d, s, None, g, r)
                continue
            seen = set()
            for form, (st,) in zip(["source", "disk", "desc", "from", "bytes", "set", "setbytes"], g["all"]):
                disk = True if form == "disk" else None
                bad = []
                if st["acc"] != [[name(i), name(i), disk, True if form in ("source", "disk") else None, True]] or st["calls"] != [name(i)]:
                    bad.append("as supplied: %s" % vlib.js(st["acc"]))
                if [f for f in st["files"] if f[0] == name(i)] != ([[name(i), False, disk]] if st["res"] is None else []) or st["pool"] != [f[0] for f in st["files"]]:
                    bad.append("files: %s" % vlib.js(st["files"]))
                seen.add(vlib.js([st["outs"], st["pool"], st["res"] and st["res"]["msg"], st["res"] and st["res"]["file"]]))
                if len(seen) > 1 and not bad:
                    bad.append("another outcome than as source: %s, %s" % (vlib.js(st), vlib.js(g["all"][0])))
                if bad:
                    self.violation("forms", form + ": " + "; ".join(bad), s, None, st, r)
                    break
            k = "refused" if g["all"][0][0]["res"] else "compiled"
            self.kinds[k] = self.kinds.get(k, 0) + 1
        self.note(r, len(srcs), t)

    def run_wkt(self, r):
        """every standard file is there, is the right one, and compiles on its own"""
        base = os.path.join(vlib.VERIF, "harness/protox-shim/protobuf/src")
        names = sorted(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs)
        qs = [{"q": q, "arg": n} for n in names for q in ("open", "compile")]
        bad = [n[:-1] for n in names] + ["/" + names[0], "./" + names[0], names[0].upper(), "any.proto", "google/protobuf", ""]
        qs += [{"q": "open", "arg": n} for n in bad]
        src = {n: open(os.path.join(base, n), encoding="utf-8").read() for n in names}
        ref = vlib.run_vh("chain", [{"id": i, "resolver": {"r": "rec", "tag": "s", "paths": {}, "files": {n: {"kind": "source", "text": src[n]}}},
                                     "queries": [{"q": "open", "arg": n}]} for i, n in enumerate(names)])
        res = vlib.run_vh("chain", [{"id": 0, "resolver": {"r": "google"}, "queries": qs}])[0]
        if vlib.dead(res):
            self.violation("wkt", "standard files: " + vlib.dead(res), "standard files", None, res, r)
            return
        for k, (q, a) in enumerate(zip(qs, res["answers"])):
            g = a["res"]
            if k < 2 * len(names):
                w = ref[k // 2]["answers"][0]["res"]
                ok = g == w if q["q"] == "open" else "files" in g and g["files"][-1] == [w["name"], w["msgs"]]
            else:
                ok = g.get("nf") is True and g.get("msg") == "file '%s' not found" % q["arg"] and g["file"] == q["arg"]
            if not ok:
                self.violation("wkt", "%s %r of the standard files: %s" % (q["q"], q["arg"], vlib.js(g)), vlib.js(q), None, a, r)
        self.note(r, len(qs), None)


FORM_TEXTS = {
    "a": {"imp": "// on a\nsyntax = 'proto3';\npackage pa;\nimport 'b.proto';\nmessage A { pb.B b = 1; } // end",
          "opt": "syntax = 'proto2';\npackage pa;\nimport 'b.proto';\noption (pb.x) = 7;\noption java_package = 'j';\nmessage A { optional pb.B b = 1 [deprecated = true]; }",
          "link": "package pa; import 'b.proto';\nmessage A { optional Nope n = 1; }", "syntax": "package pa; import 'b.proto';\nmessage {}",
          "dup": "package pa; import 'b.proto';\nimport 'b.proto'; message A {}", "public": "package pa; import public 'b.proto'; message A { optional pb.B b = 1 [default = 1]; }".replace(" [default = 1]", ""),
          "comments": "// detached\n\n/* \u00e9 lead */ syntax = 'proto2'; // trail\npackage pa;\nimport 'b.proto'; // imp\n// lead A\nmessage A {\n  // inner\n  optional pb.B b = 1; // b\n}\n// last"},
    "b": {"plain": "package pb; message B {}", "ext": "package pb; import 'google/protobuf/descriptor.proto';\nextend google.protobuf.FileOptions { optional int32 x = 50001; }\noption (x) = 3;\nmessage B { option (y) = 'z'; }\n"
          "extend google.protobuf.MessageOptions { optional string y = 50002; }", "link": "package pb;\nmessage B { optional .Nope n = 1; }", "syntax": "package pb; message B { ) }", "gone": "package pb; import 'gone.proto'; message B {}",
          "imp": "package pb; import 'c.proto'; message B { optional pc.C c = 1; }", "cycle": "package pb; import 'a.proto'; message B {}", "public": "package pb; import public 'c.proto'; message B { map<string, pc.C> c = 1; }"},
    "c": {"plain": "syntax = 'proto3'; package pc; message C { optional int32 c = 1; }", "link": "package pc; message C { optional Nope n = 1; }",
          "ext": "package pc; import 'google/protobuf/descriptor.proto'; message C {} extend google.protobuf.EnumValueOptions { optional C c = 50003; } enum E { Z = 0 [(c) = {}]; }"}}
HIDDEN = "google/protobuf/descriptor.proto"


class FormCase:
    """a behaviour of Forms.tla as a case for the harness, and the comparison"""

    def __init__(self, rec, base):
        self.rec, self.base = rec, base

    def case(self, i):
        r = self.rec
        return {"id": i, "base": os.path.join(self.base, str(i)), "texts": {n + ".proto": FORM_TEXTS[n][c] for n, c in r["what"].items()},
                "forms": {n + ".proto": f for n, f in r["form"].items()}, "opens": [h["n"] + ".proto" for h in r["hist"]]}

    def compare(self, got):
        d = vlib.dead(got)
        if d:
            return ["ended with " + d]
        out, rec = [], self.rec
        for k, (h, g) in enumerate(zip(rec["hist"], got["steps"])):
            at, e, r = "step %d (open %s): " % (k, h["n"]), h["res"], g["res"]
            disk = lambda n: True if rec["form"][n] == "disk" else None
            calls = [n + ".proto" for n in h["calls"] if n != "gone"]
            if g["calls"] != calls:
                out.append(at + "files asked for: specified %s, got %s" % (calls, g["calls"]))
            acc = [[n + ".proto", n + ".proto", disk(n), True if rec["form"][n] in ("source", "disk") else None, True] for n in h["calls"] if n != "gone" and rec["what"][n] != "syntax"]
            if g["acc"] != acc:
                out.append(at + "as supplied: specified %s, got %s" % (vlib.js(acc), vlib.js(g["acc"])))
            files = [[f["n"] + ".proto", f["imp"], disk(f["n"])] for f in h["held"]]
            have = [f for f in g["files"] if f[0] != HIDDEN]
            if have != files:
                out.append(at + "files: specified %s, got %s" % (vlib.js(files), vlib.js(have)))
            out += [at + x for x in Runner.flagged(g)]
            if g["pool"] != [f[0] for f in g["files"]]:
                out.append(at + "pool: %s" % vlib.js(g["pool"]))
            if e["k"] == "ok" or r is None:
                if (e["k"] == "ok") != (r is None):
                    out.append(at + "specified %s, got %s" % (vlib.js(e), vlib.js(r)))
                continue
            n, x = e["n"] + ".proto", e["x"]
            w = {"file": n, "parse": e["k"] == "parse", "nf": e["k"] == "importnf"}
            if e["k"] in ("importnf", "dup"):
                w["msg"] = ("import '%s.proto' not found" if e["k"] == "importnf" else "import '%s.proto' was listed twice") % x
            elif e["k"] == "cycle":
                w["msg"] = "import cycle detected: " + " -> ".join(y + ".proto" for y in x.split())
            elif e["k"] == "link" and rec["what"][e["n"]] == "link":
                w["msg"] = "name '%s' is not defined" % (".Nope" if e["n"] == "b" else "Nope")
            if bool(r["spans"]) != e["at"]:
                out.append(at + "points at %s" % vlib.js(r["spans"]))
            bad = {q: [v, r.get(q)] for q, v in w.items() if r.get(q) != v}
            if bad:
                out.append(at + "%s: [specified, got] %s" % (e["k"], vlib.js(bad)))
        return out


def runner(prop, tier, seed):
    return Runner(prop, tier, seed)


P = PROPS
