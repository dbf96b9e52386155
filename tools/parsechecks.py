"""The checks of the parser properties: which texts, compared in which respect."""
import glob, hashlib, os, random, re
import vlib

SCEN_CFG = "SPECIFICATION Spec\nCONSTANT MaxDepth = 94\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
SHIFT_CFG = "SPECIFICATION Spec\nCONSTANT MaxDepth = 94\nCHECK_DEADLOCK FALSE\n"
WANDER_CFG = "SPECIFICATION WSpec\nCONSTANTS MaxDepth = 94\n MaxStack = 1\n MaxOpen = 1\nINVARIANTS Inv Emitted\nCHECK_DEADLOCK FALSE\n"
WALK_CFG = "SPECIFICATION Spec\nCONSTANT MaxDepth = 94\nINVARIANTS Inv Emitted\nCHECK_DEADLOCK FALSE\n"
EXPL_CFG = """SPECIFICATION Spec
CONSTANTS MaxDepth = 94
 MaxStack = %d
 MaxOpen = %d
VIEW Control
CONSTRAINT Small
INVARIANTS Inv Live
CHECK_DEADLOCK FALSE
"""
OPT = {"n", "ext", "ident", "pos", "neg", "dbl", "str", "agg", "interpreted"}
ALL = OPT | {"name", "package", "dependency", "public_dependency", "weak_dependency", "syntax", "number", "label", "type", "type_name",
             "extendee", "default", "oneof_index", "json_name", "p3opt", "start", "end", "res_name", "input", "output", "cs", "ss", "map_entry"}

# property: (aspects compared, descriptor leaves compared, quick runs, thorough runs)
# runs: ("scen", families) ("shift", families, texts of each, distance) ("walk", palette, length) ("sim", palette, length, behaviours) ("explore", stack, open) ("wander", tokens, behaviours) ("layout",) ("corpus", n) ("mix", texts of each family)
P = {
    "C01": ({"dead", "same"}, set(),
            [("scen", "hostile wide strmarks strings numchars comtext aggregates syntactic"), ("explore", 10, 1), ("corpus", 2000), ("deep",), ("sim", "decl2", 14, 40)],
            [("scen", "hostile wide long strmarks numchars comtext aggregates syntactic semantic ints strings"), ("explore", 24, 2), ("corpus", 20000), ("deep",), ("sim", "decl2", 30, 500)]),
    "C02": ({"ok"}, set(),
            [("explore", 12, 1), ("scen", "names labels rangelists aggregates aggmodes importlists depth tokens"), ("walk", "decl", 2), ("corpus", 1500)],
            [("explore", 24, 2), ("scen", "oneoff"), ("scen", "tokens names labels rangelists aggregates aggmodes importlists options ranges syntactic depth"), ("walk", "decl", 3), ("corpus", 20000), ("sim", "decl3", 20, 500)]),
    "C03": ({"ok", "fd"}, {"name", "package", "syntax", "type", "type_name", "extendee", "input", "output", "cs", "ss", "oneof_index"},
            [("scen", "crowd"), ("walk", "decl", 2), ("walk", "file", 2), ("walk", "enumsvc", 4), ("sim", "decl2", 16, 60), ("sim", "decl3", 14, 60), ("sim", "file", 10, 40), ("scen", "names twins"), ("corpus", 300)],
            [("scen", "crowd"), ("walk", "decl", 3), ("walk", "file", 3), ("walk", "enumsvc", 5), ("sim", "decl2", 30, 800), ("sim", "decl3", 30, 800), ("sim", "file", 20, 500), ("scen", "names labels twins"), ("corpus", 10000)]),
    "C04": ({"ok", "fd", "errs"}, {"number", "start", "end", "pos", "neg", "dbl", "default", "agg"},
            [("scen", "ints floats numchars deffloats")], [("scen", "ints floats numchars deffloats ranges defaults aggregates")]),
    "C05": ({"ok", "fd", "errs"}, {"str", "default", "json_name", "dependency", "res_name", "agg", "syntax"},
            [("scen", "strings strmarks"), ("scen", "utf8 adjacent pieces")], [("scen", "strings strmarks defstrings"), ("scen", "utf8"), ("scen", "adjacent pieces found")]),
    "C06": ({"ok", "fd", "errs"}, {"label", "p3opt", "type", "type_name"},
            [("scen", "labels"), ("sim", "decl3", 10, 40), ("walk", "synth", 2)], [("scen", "labels semantic"), ("sim", "decl3", 25, 500), ("sim", "decl2", 25, 500), ("walk", "synth", 3)]),
    "C07": ({"ok", "fd", "errs"}, {"number", "start", "end"},
            [("scen", "ranges rangelists"), ("walk", "numbers", 3)], [("scen", "ranges rangelists ints"), ("walk", "numbers", 4), ("sim", "numbers", 20, 500)]),
    "C08": ({"ok", "fd"}, {"name", "number", "label", "type", "type_name", "extendee", "oneof_index", "p3opt", "map_entry", "json_name"},
            [("scen", "crowd"), ("scen", "synnames clashes nests"), ("walk", "synth", 3), ("sim", "decl2", 14, 40), ("sim", "decl3", 14, 40)],
            [("scen", "crowd"), ("scen", "synnames clashes nests"), ("walk", "synth", 4), ("sim", "decl2", 30, 800), ("sim", "decl3", 30, 800), ("sim", "synth", 10, 500)]),
    "C09": ({"ok", "fd", "errs", "range"}, OPT | {"default", "json_name"},
            [("scen", "defaults optlists notdefault defstrings deffloats")], [("scen", "defaults optlists notdefault floats ints defstrings deffloats")]),
    "C10": ({"ok", "fd", "range"}, OPT,
            [("scen", "crowd"), ("scen", "options optstmts optbrackets aggregates aggvals aggmodes optnames found"), ("walk", "numbers", 2)],
            [("scen", "crowd"), ("scen", "options optstmts optbrackets aggregates aggvals aggmodes optnames found pieces floats ints"), ("walk", "numbers", 3), ("sim", "numbers", 20, 300), ("sim", "file", 20, 300)]),
    "C11": ({"locs"}, set(),
            [("scen", "crowd"), ("shift", "optbrackets", 25, 70000), ("layout",), ("walk", "file", 2), ("walk", "numbers", 2), ("sim", "decl2", 16, 50), ("sim", "decl3", 14, 50), ("walk", "enumsvc", 4), ("scen", "optbrackets rangelists nests optnames")],
            [("scen", "crowd"), ("shift", "optbrackets layout comments", 60, 70000), ("shift", "layout", 10, 1000000), ("layout",), ("walk", "file", 3), ("walk", "numbers", 3), ("sim", "decl2", 30, 500), ("sim", "decl3", 30, 500), ("walk", "enumsvc", 5), ("scen", "optbrackets optlists options rangelists nests twins optnames tokens"), ("corpus", 5000)]),
    "C12": ({"comments"}, set(),
            [("scen", "comments inner comtext"), ("walk", "comments", 3), ("sim", "comments", 14, 100), ("sim", "svccom", 14, 100)],
            [("scen", "comments inner comtext"), ("walk", "comments", 4), ("walk", "svccom", 4), ("sim", "comments", 30, 1000), ("sim", "svccom", 30, 1000), ("corpus", 5000)]),
    "C13": ({"ok", "fd", "errs"}, ALL, [("layout",), ("scen", "inner")], [("layout",), ("scen", "inner comments")]),
    "C14": ({"errs", "span", "range"}, set(),
            [("shift", "semantic positions", 20, 70000), ("explore", 10, 1), ("scen", "positions syntactic"), ("scen", "semantic oneoff cuts found pieces packages")],
            [("shift", "semantic positions syntactic", 60, 70000), ("shift", "semantic", 10, 1000000), ("explore", 20, 2), ("scen", "positions syntactic"), ("scen", "semantic ints strings defaults labels"), ("scen", "oneoff cuts found pieces packages recover tokens"), ("corpus", 10000)]),
    "C15": ({"ok", "errs", "dup"}, set(),
            [("scen", "semantic syntactic depth aggmodes recover packages"), ("explore", 8, 1), ("walk", "synth", 2)],
            [("scen", "semantic syntactic depth aggmodes recover packages"), ("explore", 16, 2), ("walk", "synth", 3), ("sim", "synth", 12, 300), ("scen", "tokens oneoff"), ("corpus", 10000)]),
    "C16": ({"ok", "fd"}, {"dependency", "public_dependency", "weak_dependency"},
            [("scen", "importpaths importlists crowdimports"), ("walk", "file", 3)], [("scen", "importpaths importlists crowdimports"), ("walk", "file", 4), ("sim", "file", 25, 300)]),
}

TOK = re.compile(r'//[^\n]*\n?|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_]\w*|[0-9][\w.]*|\s+|.', re.S)
BAG = ("{ } [ ] ( ) ; , = . - < > : / syntax package import public weak option message enum service extend oneof reserved extensions to max "
       "rpc returns stream optional required repeated group map int32 string x Y 1 0 2.5 's' \"t\" // /* */ # $ \n é").split(" ")
CHARS = "{}[]();,=.-+<>:\n/\\*#\"'\r\t\x00\x0b é\u2028\U0001F600019xXeEfFabnu_\x7f\x01@"


def corpus(n, seed):
    """real files and files derived from them by a few edits"""
    rnd = random.Random(seed)
    base = []
    for f in sorted(glob.glob(os.path.join(vlib.VERIF, "harness/protox-shim/protobuf/src/google/protobuf/**/*.proto"), recursive=True)
                    + glob.glob(os.path.join(vlib.VERIF, "tools/corpus/*.proto"))):
        s = open(f).read()
        if len(s) < 13000:
            base.append(s)
    small = []
    for s in base:                       # the declarations of the larger files, one by one
        parts = re.split(r"(?<=\n\n)", s)
        small += [p for p in parts if 10 < len(p) < 1200]
        if len(s) < 1200:
            small.append(s)
    out = list(base)
    while len(out) < n + len(base):
        s = rnd.choice(small)
        if rnd.random() < .6:
            t = TOK.findall(s)
            for _ in range(rnd.choice([1, 1, 2, 3, 5])):
                if not t:
                    break
                i, k = rnd.randrange(len(t)), rnd.random()
                if k < .3:
                    del t[i]
                elif k < .6:
                    t.insert(i, rnd.choice(BAG))
                elif k < .8:
                    t[i] = rnd.choice(BAG)
                elif k < .9:
                    j = rnd.randrange(len(t))
                    t[i], t[j] = t[j], t[i]
                else:
                    t[i:i] = t[i:i + rnd.randrange(1, 8)]
            s = "".join(t)
        else:
            t = list(s)
            for _ in range(rnd.choice([1, 1, 2, 3, 6])):
                i, k = rnd.randrange(len(t) + 1), rnd.random()
                if k < .4:
                    t.insert(i, rnd.choice(CHARS))
                elif k < .7 and i < len(t):
                    t[i] = rnd.choice(CHARS)
                else:
                    del t[i:i + rnd.choice([1, 1, 1, 2, 4])]
            s = "".join(t)
        out.append(s)
    return out


def deep_texts():
    """(key, text): texts that grow without bound in one dimension; only totality is asked of them"""
    n = 20000
    t = ["message A {" * n, "message A {" * 93 + "}" * 93, "message A {" * 94 + "}" * 94, "message A {" * 95 + "}" * 95,
         "message A { optional group G = 1 {" * 70, "option a = " + "{" * n, "option a = {" + "a {" * n + "}" * n + "};", "option a = {" + "[" * n,
         "/*" * n, "/*" * n + "*/" * n, "//" * n, "'" + "\\n" * n + "'", "option a = '" + "\\x" * n, "option a = " + "'a' " * n + ";", "package " + "a." * n + "b;", "option " + "a." * n + "b = 1;",
         "option " + "(a)." * n + "b = 1;", "option a = 0x" + "f" * n + ";", "option a = 1." + "0" * n + "1;", "option a = 1e" + "9" * n + ";",
         ";" * n, "import 'a';" * n, "message A { reserved " + "1, " * n + "2; }", "message A { " + "optional int32 a = 1;" * 3000 + "}", "message A {} // c\n" * 4000,
         "x " * n, "$" * n, "\n" * n, "\r\n" * n, "( " * n, "message A { oneof o { " * 5000, "extend A { optional group G = 1 { " * 50, "message " * n, "syntax = " * n,
         "message A { optional a" + ".a" * n + " b = 1; }", "service S { rpc A (B) returns (C) {" * 3000, "extend A { optional group G = 1 { extend B {" * 40000, "message A { oneof o { group G = 1 {" * 30000,
         "message A { extend B { optional group G = 1 { message C {" * 30000, "enum E {" * n, "option a = { b <" * n, "message A { map<" * n, "-" * n, "option a = " + "-" * n + "1;", "message A { optional int32 a = 1 [" * n,
         "message A { optional int32 a = 1 [" + "a = {b: 1}, " * 5000 + "c = 1]; }", "\u00e9" * n, "'\u00e9" * n, "/* \u00e9 */" * n, "'\\" * n, "message _" + "_" * n + " { map<int32,int32> " + "_" * n + "a = 1; }"]
    out = [(None, x) for x in t]
    for n in (1500, 20000):          # runs of digits: the long ones are a known finding
        for k, x in (("decimal", "option a = " + "9" * n + ";"), ("octal", "option a = 0" + "7" * n + ";"), ("ident", "1" * n + "a")):
            out.append(("digits-%s-%d" % (k, n), x))
    return out


def proj(v, leaves, inopt=False):
    if isinstance(v, dict):
        r = {}
        for k, x in v.items():
            if isinstance(x, list) and x and isinstance(x[0], dict) or k in ("message", "field", "nested", "enum", "value", "service", "method",
                                                                             "extension", "ext_range", "oneof", "res_range"):
                r[k] = [proj(y, leaves, inopt) for y in x]
            elif k in leaves:
                r[k] = x
        return r
    return v


FAMILIES = " ".join(n for n in re.findall(r'name = "(\w+)"', open(os.path.join(vlib.SPEC, "Families.tla")).read()) if n != "crowd")   # slow


# the name of the file is passed on as it is, whatever it is
FILE_NAMES = ["", "dir/x.proto", "noext", "a b.proto", "\u00e9/\u4e2d.proto", "/abs.proto", "x.proto:3:4: y", "a\\b.proto", "../up.proto", "./dot.proto", "google/protobuf/descriptor.proto", "line\nbreak.proto",
              "UPPER.PROTO", "trailing/", "long" * 300, "\0.proto", "x" + "\u20ac" * 400, "\u00e9" * 700 + ".proto", "\U0001F600" * 70, "%s{}.proto", "x.proto.proto"]


def file_name(src):
    h = int(hashlib.sha1(src.encode()).hexdigest()[:6], 16)
    return FILE_NAMES[h // 3 % len(FILE_NAMES)] if h % 3 == 0 else "t.proto"


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.aspects, self.leaves, quick, thorough = P[prop]
        self.runs = (thorough if tier == "thorough" else quick) + ([("mix", 4000), ("wander", 40, 600), ("wander", 120, 150)] if tier == "thorough" else [("mix", 120), ("wander", 40, 30)])
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.detail = [], [], []
        self.kinds = {}
        self.seen = set()
        self.selftest = 0

    def check(self, label, cases):
        """cases: (src, specified outcome or None)"""
        fresh = []
        for s, o in cases:
            if s not in self.seen:
                self.seen.add(s)
                fresh.append((s, o))
        if not fresh:
            return 0
        mode = "parse3" if "same" in self.aspects else "parse"
        res = vlib.run_vh(mode, [{"id": i, "src": s, "name": file_name(s)} for i, (s, _) in enumerate(fresh)])
        for i, (s, o) in enumerate(fresh):
            for asp, txt in self.judge(s, o, res[i], file_name(s)):
                self.violations.append({"aspect": asp, "what": txt, "src": s, "specified": o, "recorded": res[i], "from": label})
                break
            if o is not None:
                k = "accepted" if o["ok"] else o["errs"][0]["k"]
                self.kinds[k] = self.kinds.get(k, 0) + 1
        self.traces += len(fresh)
        rnd = random.Random(self.seed)
        for i in rnd.sample(range(len(fresh)), min(2, len(fresh))):
            s, o = fresh[i]
            self.samples.append({"from": label, "text": s[:300], "specified": "accepted" if o and o["ok"] else
                                 ("terminates" if o is None else [vlib.message(e) for e in o["errs"]][:3])})
        # the binding: a corrupted recording has to be noticed
        for i, (s, o) in enumerate(fresh):
            if o is not None and self.corrupt(s, o, res[i]):
                self.selftest += 1
                break
        return len(fresh)

    def judge(self, s, o, r, name="t.proto"):
        if vlib.dead(r):
            return [("dead", "the parser ended with " + vlib.dead(r))]
        out = []
        if "same" in self.aspects and r.get("same") is not True:
            out.append(("same", "parsing the same text again gave another outcome"))
        if o is None:
            return out
        for asp, txt in vlib.compare(s, o, r, name):
            if asp == "fd" and txt.startswith("file name"):
                if "name" in self.leaves and "fd" in self.aspects:
                    out.append((asp, txt))
            elif asp == "fd" and "fd" in self.aspects:
                want = proj(vlib.norm(o["fd"]), self.leaves)
                got = proj({k: v for k, v in r["fd"].items() if k not in ("name", "locs")}, self.leaves)
                d = vlib.first_diff(want, got)
                if d:
                    out.append((asp, d))
            elif asp == "span" and "dup" in self.aspects and "span" not in self.aspects:
                seen = [vlib.js({"msg": e["msg"], "spans": e["spans"]}) for e in r["errs"]]
                dups = [e for e in set(seen) if seen.count(e) > 1]
                want = [vlib.js({"msg": e["msg"], "spans": [list(x) for x in e["spans"]]}) for e in map(vlib.spec_err, o["errs"])]
                for e in dups:
                    if seen.count(e) > want.count(e):
                        out.append(("dup", "reported %d times: %s" % (seen.count(e), e)))
            elif asp in self.aspects:
                out.append((asp, txt))
        return out

    def corrupt(self, s, o, r):
        import copy
        c = copy.deepcopy(r)
        if "same" in self.aspects:
            c["same"] = False
        elif "ok" in self.aspects:
            c = {"id": 0, "ok": not r["ok"], "errs": [], "fd": {}}
        elif "locs" in self.aspects and r.get("ok") and r["fd"]["locs"]:
            c["fd"]["locs"][-1]["span"][0] += 1
        elif "comments" in self.aspects and r.get("ok") and r["fd"]["locs"]:
            c["fd"]["locs"][-1]["lead"] = ["not in the source"]
        elif "span" in self.aspects and r.get("ok") is False and r["span"]:
            c["span"][0] += 1
        else:
            return False
        if not self.judge(s, o, c, file_name(s)):
            raise vlib.ToolError("self test: a corrupted recording was accepted")
        return True

    def run(self):
        big = "1" if self.tier == "thorough" else "0"
        for r in self.runs:
            t = None
            tmo = 3600 if self.tier == "thorough" else 600
            if r[0] == "scen":
                t = vlib.run_tlc("Scen", SCEN_CFG, env={"FAMILIES": r[1], "BIG": big, "SAMPLE": "0"}, xss="256m", timeout=tmo, heap="12g")
            elif r[0] == "mix":          # a sample of every family
                t = vlib.run_tlc("Scen", SCEN_CFG, env={"FAMILIES": FAMILIES, "BIG": big, "SAMPLE": str(r[1])}, xss="256m", seed=self.seed, timeout=tmo, heap="12g")
            elif r[0] == "walk":
                t = vlib.run_tlc("Walk", WALK_CFG, env={"PALETTE": r[1], "LEN": str(r[2]), "SIM": "0"}, timeout=tmo)
            elif r[0] == "sim":
                t = vlib.run_tlc("Walk", WALK_CFG, env={"PALETTE": r[1], "LEN": str(r[2]), "SIM": "1"}, simulate=r[3], depth=r[2] + 2,
                                 seed=self.seed, timeout=tmo)
            elif r[0] == "wander":       # token by token; every property sees other texts
                t = vlib.run_tlc("Wander", WANDER_CFG, env={"LEN": str(r[1]), "NOISE": "30"}, simulate=r[2], depth=r[1] + 2,
                                 seed=self.seed * 100 + int(self.prop[1:]), timeout=tmo)
            elif r[0] == "explore":
                t = vlib.run_tlc("Explore", EXPL_CFG % (r[1], r[2]), timeout=tmo)
            elif r[0] == "shift":
                t = vlib.run_tlc("Shift", SHIFT_CFG, env={"FAMILIES": r[1], "GAPS": "1", "SAMPLE": str(r[2]), "FAR": str(r[3])}, seed=self.seed, xss="256m", timeout=tmo)
                n = self.check(" ".join(map(str, r)), [(bytes(x["pre"] + x["fill"] * x["n"] + x["post"]).decode("utf-8"), x["out"]) for x in t.records])
            elif r[0] == "layout":
                t = vlib.run_tlc("Layout", SCEN_CFG, env={"BIG": big}, xss="64m", timeout=tmo, heap="12g")
            elif r[0] == "corpus":
                srcs = corpus(r[1], self.seed)
                outs, t = vlib.oracle(srcs, timeout=tmo)
                n = self.check(str(r), list(zip(srcs, outs)))
            elif r[0] == "deep":
                n = self.check("deep", [(s, None) for _, s in deep_texts()])
                keys = {s: k for k, s in deep_texts() if k}
                for v in self.violations:
                    if v["src"] in keys and v["aspect"] == "dead":
                        v["key"] = keys[v["src"]]
            if r[0] not in ("corpus", "deep", "shift"):
                n = self.check(" ".join(map(str, r)), [(bytes(x["src"]).decode("utf-8"), x["out"]) for x in t.records])
                if not t.records:
                    raise vlib.ToolError("no cases from %s" % (r,))
            if t is not None:
                self.states += t.distinct
                self.transitions += t.states
            self.detail.append({"run": " ".join(map(str, r)), "cases": n, "states": t.distinct if t else 0})
