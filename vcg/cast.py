"""Clang JSON AST loader: turns the *current* /repo translation unit (after
preprocessing by clang) into light-weight trees.  Nothing is rewritten: every
statement of every function body is kept exactly as clang parsed it."""
import json, subprocess, os, re

REPO = os.environ.get("VCG_REPO", "/repo")
SRC = os.path.join(REPO, "src", "oifitslib")
CFLAGS = ["-I", SRC, "-I/usr/include/glib-2.0",
          "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-D_GNU_SOURCE"]


class TU:
    """All translation units merged: functions, records, typedefs, enums, globals."""

    def __init__(self):
        self.funcs = {}      # name -> FunctionDecl with body
        self.protos = {}     # name -> FunctionDecl (any)
        self.records = {}    # struct name -> [(field, type)]
        self.typedefs = {}   # name -> type string
        self.enums = {}      # enumerator -> int
        self.globals = {}    # name -> VarDecl
        self.files = {}
        self._rec_by_id = {}

    def load(self, path):
        if path in self.files:
            return
        cmd = ["clang", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"] + CFLAGS + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError("clang failed on %s: %s" % (path, p.stderr.decode()[:2000]))
        top = json.loads(p.stdout)
        self.files[path] = len(p.stdout)
        self._fixlines(top)
        for n in top["inner"]:
            k = n.get("kind")
            if k == "FunctionDecl":
                nm = n["name"]
                self.protos.setdefault(nm, n)
                body = [c for c in n.get("inner", []) if c["kind"] == "CompoundStmt"]
                if body and self._in_repo(n, path):
                    n["_body"] = body[0]
                    n["_params"] = [c for c in n["inner"] if c["kind"] == "ParmVarDecl"]
                    n["_file"] = path
                    key = nm
                    self.funcs[key] = n
                    self.protos[nm] = n
                elif "_params" not in n:
                    n["_params"] = [c for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"]
            elif k == "RecordDecl":
                self._record(n)
            elif k == "TypedefDecl":
                self._typedef(n)
            elif k == "EnumDecl":
                self._enum(n)
            elif k == "VarDecl":
                if n["name"] not in self.globals or "inner" in n:
                    self.globals[n["name"]] = n

    def _in_repo(self, n, path):
        return n.get("_f") == path

    def _fixlines(self, top):
        """clang omits file/line when unchanged from the previously printed location;
        restore (file,line) for every node, in print order."""
        cur = {"file": None, "line": None}

        def upd(loc):
            if not isinstance(loc, dict):
                return
            if "spellingLoc" in loc or "expansionLoc" in loc:
                upd(loc.get("spellingLoc"))
                upd(loc.get("expansionLoc"))
                return
            if "file" in loc:
                cur["file"] = loc["file"]
            if "line" in loc:
                cur["line"] = loc["line"]

        def walk(n):
            if "loc" in n:
                upd(n["loc"])
            f, l = cur["file"], cur["line"]
            r = n.get("range")
            if r:
                upd(r.get("begin"))
                if "loc" not in n:
                    f, l = cur["file"], cur["line"]
                upd(r.get("end"))
            n["_f"], n["_l"] = f, l
            for c in n.get("inner", ()):
                if isinstance(c, dict) and c:
                    walk(c)
        import sys
        sys.setrecursionlimit(20000)
        for n in top["inner"]:
            walk(n)

    def _record(self, n):
        if not n.get("completeDefinition"):
            return
        fields = []
        anon = None
        for c in n.get("inner", []):
            if c["kind"] == "RecordDecl":
                self._record(c)
            elif c["kind"] == "FieldDecl":
                fields.append((c.get("name", "?"), c["type"]["qualType"]))
        self._rec_by_id[n["id"]] = fields
        if n.get("name"):
            self.records["struct " + n["name"]] = fields

    def _typedef(self, n):
        nm = n["name"]
        self.typedefs[nm] = n["type"]["qualType"]
        for c in n.get("inner", []):
            d = c.get("ownedTagDecl")
            if d and d["id"] in self._rec_by_id and not d.get("name"):
                self.records[nm] = self._rec_by_id[d["id"]]
                self.typedefs.pop(nm, None)

    def _enum(self, n):
        v = -1
        for c in n.get("inner", []):
            if c["kind"] != "EnumConstantDecl":
                continue
            val = None
            for d in c.get("inner", []):
                val = d.get("value")
            v = int(val) if val is not None else v + 1
            self.enums[c["name"]] = v

    # ---- types -----------------------------------------------------------
    def ty(self, s):
        return parse_type(self, s)


_QUAL = re.compile(r"\b(const|volatile|restrict|__restrict|register|extern|static)\b")

INTS = {"int": 4, "long": 8, "char": 1, "short": 2, "unsigned int": 4, "unsigned long": 8,
        "unsigned char": 1, "signed char": 1, "long long": 8, "unsigned long long": 8,
        "_Bool": 1, "bool": 1, "unsigned short": 2}


class Ty:
    """kind: int|float|complex|void|ptr|arr|struct|fn ; size in bytes"""
    __slots__ = ("kind", "name", "to", "n")

    def __init__(self, kind, name=None, to=None, n=None):
        self.kind, self.name, self.to, self.n = kind, name, to, n

    def __repr__(self):
        if self.kind == "ptr":
            return "%r*" % (self.to,)
        if self.kind == "arr":
            return "%r[%s]" % (self.to, self.n)
        return self.name or self.kind

    def key(self):
        return repr(self)


_cache = {}


def parse_type(tu, s):
    t = _cache.get(s)
    if t is None:
        t = _parse_type(tu, s)
        _cache[s] = t
    return t


def _parse_type(tu, s):
    s = _QUAL.sub(" ", s)
    s = re.sub(r"\s+", " ", s).strip()
    if "(*" in s or re.search(r"\)\s*$", s):
        return Ty("ptr", to=Ty("fn", s)) if "(*" in s else Ty("fn", s)
    m = re.match(r"^(.*?)((\[\d*\])+)$", s)
    if m:
        base = m.group(1).strip()
        dims = re.findall(r"\[(\d*)\]", m.group(2))
        t = parse_type(tu, base)
        for d in reversed(dims):
            t = Ty("arr", to=t, n=int(d) if d else 0)
        return t
    if s.endswith("*"):
        return Ty("ptr", to=parse_type(tu, s[:-1].strip()))
    s = re.sub(r"^enum ", "enum ", s)
    if s == "void":
        return Ty("void", "void")
    if s in INTS:
        return Ty("int", s)
    if s in ("float", "double", "long double"):
        return Ty("float", s)
    if s.startswith("_Complex") or s.endswith("_Complex") or "complex" in s.split():
        return Ty("complex", "complex float" if "float" in s else "complex double")
    if s.startswith("enum "):
        return Ty("int", "int")
    if s in tu.records:
        return Ty("struct", s)
    if s in tu.typedefs:
        return parse_type(tu, tu.typedefs[s])
    if s.startswith("struct ") or s.startswith("union "):
        nm = s.split(" ", 1)[1]
        if nm in tu.records:
            return Ty("struct", nm)
        return Ty("struct", s)
    if s in ("__va_list_tag", "va_list", "__builtin_va_list"):
        return Ty("struct", "va_list")
    return Ty("int", "int")  # enums referenced by typedef name


def sizeof(tu, t):
    if t.kind == "int":
        return INTS[t.name]
    if t.kind == "float":
        return {"float": 4, "double": 8, "long double": 16}[t.name]
    if t.kind == "complex":
        return 8 if t.name == "complex float" else 16
    if t.kind in ("ptr", "fn"):
        return 8
    if t.kind == "arr":
        return t.n * sizeof(tu, t.to)
    if t.kind == "void":
        return 1
    if t.kind == "struct":
        off, al = 0, 1
        for f, ft in tu.records.get(t.name, []):
            fty = parse_type(tu, ft)
            a, z = alignof(tu, fty), sizeof(tu, fty)
            off = (off + a - 1) // a * a + z
            al = max(al, a)
        return (off + al - 1) // al * al
    raise ValueError(t)


def alignof(tu, t):
    if t.kind == "arr":
        return alignof(tu, t.to)
    if t.kind == "complex":
        return 4 if t.name == "complex float" else 8
    if t.kind == "struct":
        return max([1] + [alignof(tu, parse_type(tu, ft)) for _, ft in tu.records.get(t.name, [])])
    return sizeof(tu, t)


def load_all(names):
    tu = TU()
    for n in names:
        tu.load(os.path.join(SRC, n))
    return tu
