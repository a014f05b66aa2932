"""The commands read, build, merge, export and write what their arguments say."""
import itertools
from sa.order import HullDomain
from sa.report import Check
from sa.shapes import FileV, JsonText, jsonable
from sa.tables import NativeV
from sa.values import *
from .common import *

RULE = ("each command interpreted on every arrangement of its arguments, with meshes as terms of how they were made: create_mesh writes the document of the mesh built from the configuration file, rebuild_mesh that of the mesh built from the "
        "configuration inside the mesh file, merge_mesh that of the first mesh with the second, or every file of the folder, merged into it once, export_mesh saves the mesh read under the output, format and parameters given; "
        "the output is the one named, otherwise the command's default, nothing else is written; meshiphi_test compares the branches and kinds of tests asked for")

CLI = "meshiphi.cli."


class Dom(HullDomain):
    text = True


class Stub(NativeV):
    tname = "mesh"

    def __init__(self, term):
        self.term = term

    def attr(self, it, name, node):
        if name == "to_json":
            return self.meth(name, lambda it, a, k, n: DictV([("document", self.term)]))
        if name == "merge_mesh":
            def merge(it, a, k, n):
                o = k.get("mesh2", a[0] if a else None)
                if not isinstance(o, Stub):
                    it.undecided("merging", n)
                self.term = Sym("merge", self.term, o.term)
                return None
            return self.meth(name, merge)
        if name == "save":
            def save(it, a, k, n):
                a = list(a) + [k.get(x, y) for x, y in (("path", None), ("format", "JSON"), ("format_params", None))[len(a):]]
                it.saved.append((self.term, a[0], a[1], a[2]))
                return None
            return self.meth(name, save)
        it.undecided(f"{name} of a mesh", node)


class Logger(NativeV):
    tname = "logger"

    def attr(self, it, name, node):
        return self.meth(name, lambda it, a, k, n: None)


class Builder(NativeV):
    tname = "mesh builder"

    def __init__(self, cfg):
        self.cfg = cfg

    def attr(self, it, name, node):
        if name == "build_environmental_mesh":
            return self.meth(name, lambda it, a, k, n: Stub(Sym("built", show(jsonable(it, self.cfg, n)))))
        it.undecided(f"{name} of a mesh builder", node)


class Args(NativeV):
    tname = "arguments"

    def __init__(self, d):
        self.d = d

    def has(self, name):
        return name in self.d

    def attr(self, it, name, node):
        if name in self.d:
            return self.d[name]
        from sa.interp import RaiseSig
        raise RaiseSig(ExcV("AttributeError"), it.where(node))


class Parser(NativeV):
    tname = "argument parser"

    def __init__(self):
        self.specs = []

    def attr(self, it, name, node):
        if name == "add_argument":
            def add(it, a, k, n):
                if set(k) - {"default", "action", "type", "help", "nargs", "version", "dest", "metavar", "required"} or not all(isinstance(x, str) for x in a):
                    it.undecided("argument declaration", n)
                self.specs.append((list(a), k))
                return None
            return self.meth(name, add)
        if name == "parse_args":
            return self.meth(name, lambda it, a, k, n: self.parse(it, a, k, n))
        it.undecided(f"argument parser: {name}", node)

    def parse(self, it, a, k, n):
        from sa.interp import RaiseSig
        argv = list(it.argv) if not a and not k else [x for x in it.items_of(a[0] if a else k.get("args"), n)]
        out, pos = {}, []
        opts = {}
        for names, s in self.specs:
            if names[0].startswith("-"):
                dest = s.get("dest") or next((x for x in names if x.startswith("--")), names[0]).lstrip("-").replace("-", "_")
                for x in names:
                    opts[x] = (dest, s)
                if s.get("action") != "version":
                    out[dest] = s.get("default", False if s.get("action") == "store_true" else None)
            else:
                pos.append((s.get("dest") or names[0], s))
                if s.get("action") in (None, "store", "append"):
                    out[names[0]] = s.get("default")
                else:
                    it.undecided("argument declaration", n)
        free = []
        i = 0
        while i < len(argv):
            x = argv[i]
            if x in opts:
                d, s = opts[x]
                act = s.get("action", "store")
                if act == "store_true":
                    out[d] = True
                elif act == "store":
                    i += 1
                    if i >= len(argv):
                        raise RaiseSig(ExcV("SystemExit"), it.where(n))
                    out[d] = self.conv(it, argv[i], s, n)
                else:
                    it.undecided("argument declaration", n)
            elif x.startswith("-"):
                raise RaiseSig(ExcV("SystemExit"), it.where(n))
            else:
                free.append(x)
            i += 1
        for d, s in pos:
            if free:
                v = self.conv(it, free.pop(0), s, n)
            elif s.get("nargs") == "?":
                v = s.get("default")
            else:
                raise RaiseSig(ExcV("SystemExit"), it.where(n))
            out[d] = ListV([v]) if s.get("action") == "append" else v
        if free:
            raise RaiseSig(ExcV("SystemExit"), it.where(n))
        return Args(out)

    def conv(self, it, v, s, n):
        t = s.get("type")
        return v if t is None else it.call(t, [v], {}, n)


def filetype(it, a, k, node=None):
    mode = a[0] if a else k.get("mode", "r")

    def op(it, a, k, n=None):
        if "r" in mode and a[0] not in it.files:
            from sa.interp import RaiseSig
            raise RaiseSig(ExcV("SystemExit"), it.where(n))
        return FileV(a[0], mode, it.files)
    return PyFn("FileType", op)


def models():
    none = lambda it, a, k, node=None: None

    def path_of(it, a):
        return [x for x in a]

    def listdir(it, a, k, node=None):
        d = (a[0] if a else ".").rstrip("/") + "/"
        return ListV(list(dict.fromkeys(x[len(d):].split("/")[0] for x in it.listing if x.startswith(d))))

    def load(it, a, k, node=None):
        doc = a[-1] if a else list(k.values())[0]
        return Stub(Sym("read", show(jsonable(it, doc, node))))

    def automater(it, a, k, node=None):
        it.saved.append(("tests", list(a), dict(k)))
        return Stub(Sym("tests"))
    return {"argparse.ArgumentParser": lambda it, a, k, node=None: Parser(), "argparse.FileType": filetype, "inspect.stack": lambda it, a, k, node=None: ListV([TupleV([None, "cli.py", 1, "some_mesh_cli", None, 0])]),
            "os.listdir": listdir, "os.path.isfile": lambda it, a, k, node=None: a[0] in it.files, "os.path.isdir": lambda it, a, k, node=None: a[0] not in it.files and any(x.startswith(a[0].rstrip("/") + "/") for x in it.listing),
            "os.path.join": lambda it, a, k, node=None: "/".join([x.rstrip("/") for x in a[:-1]] + [a[-1]]), "logging.basicConfig": none, "logging.getLogger": lambda it, a, k, node=None: Logger(),
            MG + "mesh_builder.MeshBuilder": lambda it, a, k, node=None: Builder(a[0] if a else k.get("config")), MG + "environment_mesh.EnvironmentMesh.load_from_json": load,
            "meshiphi.test_automation.test_automater.TestAutomater": automater}


def doc(tag):
    return DictV([("config", DictV([("mesh_info", DictV([("region", tag + " inside"), ("data_sources", ListV([1, 2]))])), ("route_info", "no")])), ("mesh_info", "not this"), ("cellboxes", ListV([tag]))])


def cfg(tag):
    return DictV([("region", tag), ("config", DictV([("mesh_info", "not this")])), ("splitting", DictV([("split_depth", 2)]))])


def orders(pos, opts):
    """options before, between and after the positional arguments, which keep their order"""
    for perm in itertools.permutations(opts):
        for where in itertools.product(range(len(pos) + 1), repeat=len(perm)):
            out = []
            for i in range(len(pos) + 1):
                for o, w in zip(perm, where):
                    if w == i:
                        out += o
                if i < len(pos):
                    out.append(pos[i])
            yield out


def check(tier):
    chk = Check("P28", RULE, tier, minimum=50)
    read = lambda d: Sym("read", show(d))
    built = lambda d: Sym("built", show(d))
    jobs = []
    outs = [None, "/scratch/out.json", "other.json"]
    seen = set()

    def add(cmd, argv, want, listing=()):
        if (cmd, tuple(argv)) not in seen:
            seen.add((cmd, tuple(argv)))
            jobs.append((cmd, argv, want))
    for o in outs:
        for v in ([], [["-v"]], [["--verbose"]]):
            for flag in ("-o", "--output"):
                op = ([[flag, o]] if o else []) + v
                for argv in orders(["/in/cfg.json"], op):
                    add("create_mesh_cli", argv, ("write", o or "create_mesh.output.json", [built(cfg("A"))]))
                for argv in orders(["/in/m1.json"], op):
                    add("rebuild_mesh_cli", argv, ("write", o or "rebuild_mesh.output.json", [built(doc("one").get("config").get("mesh_info"))]))
                for a, b in (("/in/m1.json", "/in/m2.json"), ("/in/m2.json", "/in/m1.json"), ("/in/m1.json", "/in/m1.json")):
                    t = {"/in/m1.json": "one", "/in/m2.json": "two"}
                    for argv in orders([a, b], op):
                        add("merge_mesh_cli", argv, ("write", o or "merged_mesh.output.json", [Sym("merge", read(doc(t[a])), read(doc(t[b])))]))
                for df in ("-d", "--directory"):
                    for folder, ms in (("/in/none", []), ("/in/one", ["two"]), ("/in/many", ["two", "three", "four"])):
                        want = []
                        for p in itertools.permutations(ms):
                            m = read(doc("one"))
                            for x in p:
                                m = Sym("merge", m, read(doc(x)))
                            want.append(m)
                        for argv in orders(["/in/m1.json", folder], op + [[df]]) if not v else [["/in/m1.json", folder, df] + [y for x in op for y in x]]:
                            add("merge_mesh_cli", argv, ("write", o or "merged_mesh.output.json", want))
                for f in ("JSON", "json", "GEOJSON", "geojson", "GeoJson", "TIF", "tif", "PNG", "png"):
                    for c in (None, ["-f", "/in/conf.json"], ["--format_conf", "/in/conf.json"]):
                        default = {"JSON": "mesh.json", "GEOJSON": "mesh_geo.json", "TIF": "mesh.tif", "PNG": "mesh.png"}[f.upper()]
                        ops = op + ([c] if c else [])
                        for argv in itertools.islice(orders(["/in/m1.json", f], ops), 0, None, 3 if len(ops) > 2 else 1):
                            add("export_mesh_cli", argv, ("save", read(doc("one")), o or default, f, c[1] if c else None))
    for br in (["dev"], ["topic", "main"], ["main", "topic"]):
        for r, u, s, p in itertools.product((None, "-r", "--regression"), (None, "-u", "--unit"), (None, "-s"), (None, "--plot")):
            op = [[x] for x in (r, u, s, p) if x]
            for argv in itertools.islice(orders(br, op), 0, None, 7):
                both = bool(r) == bool(u)
                add("meshiphi_test_cli", argv, ("tests", {"from_branch": br[0] if len(br) == 2 else None, "into_branch": br[-1], "regression": both or bool(r), "unit": both or bool(u), "plot": bool(p), "save": bool(s)}))
    chk.parallel(jobs, one)
    return chk


FILES = {"/in/cfg.json": lambda: cfg("A"), "/in/m1.json": lambda: doc("one"), "/in/m2.json": lambda: doc("two"), "/in/conf.json": lambda: DictV([("data_name", "SIC")]), "/in/one/a.json": lambda: doc("two"),
         "/in/many/b.json": lambda: doc("two"), "/in/many/a.json": lambda: doc("three"), "/in/many/mesh": lambda: doc("four"), "/in/many/sub/deep.json": lambda: doc("five"), "/in/none/sub/x.json": lambda: doc("six")}


def one(chk, job):
    cmd, argv, want = job
    C = cmd
    d = f"{cmd[:-4]} {' '.join(argv)}"

    def setup(it):
        it.saved = []
        it.argv = list(argv)
        for p, f in FILES.items():
            it.files[p] = [JsonText(f())]
        it.listing = list(FILES)
        return chk.prog.module("meshiphi.cli").env.get(cmd), [], {}, None
    for t in decided(chk, cmd, setup, Dom, models=models()):
        if not chk.require(t.exc is None, cmd, C, f"{d}: raises {t.exc}", t.where):
            continue
        it = t.interp
        same = all(p in it.files and len(it.files[p]) == 1 and show(it.files[p][0].v) == show(f()) for p, f in FILES.items())
        chk.require(same, cmd + " input", C, f"{d}: an input file is changed", t.where)
        new = {p: v for p, v in it.files.items() if p not in FILES}
        if want[0] == "write":
            ways = [(p, v[0].v) for p, v in new.items() if len(v) == 1 and isinstance(v[0], JsonText)] + [(p, DictV([("document", m)])) for m, p, f, c in [s for s in it.saved if len(s) == 4] if f.upper() == "JSON"]
            if not chk.require([p for p, _ in ways] == [want[1]] and len(ways) == len(new) + len(it.saved), cmd, C, f"{d}: writes {sorted(new)} rather than {want[1]}", t.where, sample=d):
                continue
            got = ways[0][1]
            m = got.get("document") if isinstance(got, DictV) else None
            chk.require(any(m == w for w in want[2]), cmd + " document", C, f"{d}: writes {show(got)[:300]}, expected {show(want[2][0])[:300]}", t.where)
        elif want[0] == "save":
            ok = len(it.saved) == 1 and len(it.saved[0]) == 4 and not new
            if chk.require(ok, cmd, C, f"{d}: saves {len(it.saved)} meshes and writes {sorted(new)}", t.where, sample=d):
                m, p, f, c = it.saved[0]
                chk.require(m == want[1], cmd + " mesh", C, f"{d}: saves the mesh {show(m)[:200]}", t.where)
                chk.require(p == want[2], cmd + " output", C, f"{d}: saves to {show(p)} rather than {want[2]}", t.where)
                chk.require(isinstance(f, str) and f.upper() == want[3].upper(), cmd + " format", C, f"{d}: saves as {show(f)}", t.where)
                chk.require(c == want[4], cmd + " parameters", C, f"{d}: saves with the parameters {show(c)}", t.where)
        else:
            ok = len(it.saved) == 1 and it.saved[0][0] == "tests" and not new
            if chk.require(ok, cmd, C, f"{d}: starts {len(it.saved)} comparisons", t.where, sample=d):
                names = ["from_branch", "into_branch", "regression", "unit", "plot", "save"]
                k = {**dict(zip(names, it.saved[0][1])), **it.saved[0][2]}
                for x, w in want[1].items():
                    chk.require(k.get(x) == w, cmd + " " + x, C, f"{d}: {x} is {show(k.get(x))}, expected {show(w)}", t.where)
