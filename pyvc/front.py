"""Front end: reads the Python source under verification from the working tree on every run.

Nothing is dropped or rewritten: functions are kept as the `ast` of the file that runs.  Ignored by the engine:
annotations of variables, parameters and results, docstrings, `print(...)` output and module level code other than
imports, definitions and constant assignments.
"""
import ast
import hashlib
import os


class FuncInfo:
    def __init__(self, node, module, cls, kind="function"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = _has_yield(node)

    @property
    def qual(self):
        return (self.module.short + ":" + (self.cls.name + "." if self.cls else "") + self.name)

    def __repr__(self):
        return "<%s>" % self.qual


def _has_yield(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.getters, self.setters, self.consts = {}, {}, {}, {}
        self.bases = []
        self.is_enum = False
        self.sub = []
        self.cid = None

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.short = name[4:] if name.startswith("rei.") else name
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.names = {}     # global name -> ("class", ClassInfo) | ("func", FuncInfo) | ("mod", name) | ("const", node) | ("ext", dotted)
        self.sha = hashlib.sha256(self.src.encode()).hexdigest()[:16]


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.errors = []
        for base, _, files in os.walk(os.path.join(root, "rei")):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(base, f)
                    self._load(p)
        extra = os.path.join(root, "test", "common", "common_util.py")
        if os.path.exists(extra):
            self._load(extra)
        for m in self.modules.values():
            self._scan(m)
        self._link()

    def _load(self, p):
        rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[:-9]
        try:
            self.modules[rel] = Module(rel, p)
        except SyntaxError as e:
            self.errors.append("%s: %s" % (p, e))

    def _scan(self, m):
        for n in m.tree.body:
            self._scan_stmt(m, n)

    def _scan_stmt(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.names[a.asname] = ("mod", a.name)
                else:
                    m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m.names[a.asname or a.name] = ("from", n.module, a.name)
        elif isinstance(n, ast.ClassDef):
            c = ClassInfo(n, m)
            m.names[n.name] = ("class", c)
            for b in n.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(b, m, c)
                    if "property" in f.decorators:
                        c.getters[mangle(c, b.name)] = f
                    elif any(d.endswith(".setter") for d in f.decorators):
                        c.setters[mangle(c, b.name)] = f
                    else:
                        if "staticmethod" in f.decorators:
                            f.kind = "static"
                        elif "classmethod" in f.decorators:
                            f.kind = "class"
                        c.methods[mangle(c, b.name)] = f
                elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                    c.consts[b.targets[0].id] = b.value
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.names[n.name] = ("func", FuncInfo(n, m, None))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            m.names[n.targets[0].id] = ("const", n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            m.names[n.target.id] = ("const", n.value)

    def resolve(self, m, name, depth=0):
        """Global name in module -> ("class", C) | ("func", F) | ("const", node, module) | ("ext", dotted) | None"""
        if depth > 20 or name not in m.names:
            return None
        k = m.names[name]
        if k[0] == "const":
            return ("const", k[1], m)
        if k[0] == "from":
            tgt = self.modules.get(k[1])
            if tgt is not None:
                r = self.resolve(tgt, k[2], depth + 1)
                if r is not None:
                    return r
                sub = self.modules.get(k[1] + "." + k[2])
                if sub is not None:
                    return ("mod", sub)
                return ("ext", "%s.%s" % (k[1], k[2]))
            sub = self.modules.get(k[1] + "." + k[2])
            if sub is not None:
                return ("mod", sub)
            return ("ext", "%s.%s" % (k[1], k[2]))
        if k[0] == "mod":
            return ("ext", k[1])
        return k

    def _link(self):
        self.classes = {}
        for m in self.modules.values():
            for k in m.names.values():
                if k[0] == "class":
                    self.classes.setdefault(k[1].name, k[1])
        allc = [k[1] for m in self.modules.values() for k in m.names.values() if k[0] == "class"]
        for c in allc:
            for b in c.node.bases:
                t = ast.unparse(b)
                base = None
                parts = t.split(".")
                r = self.resolve(c.module, parts[0])
                if len(parts) == 1 and r and r[0] == "class":
                    base = r[1]
                elif r and r[0] == "mod" and len(parts) == 2:
                    r2 = self.resolve(r[1], parts[1])
                    base = r2[1] if r2 and r2[0] == "class" else None
                if base is not None:
                    c.bases.append(base)
                    base.sub.append(c)
                elif t in ("IntEnum", "enum.IntEnum", "Enum", "enum.Enum"):
                    c.is_enum = True
                elif t in ("Exception", "ABC", "abc.ABC", "object", "BaseException", "ValueError", "KeyError"):
                    c.bases.append(t)
        for c in allc:
            c.mro = self._mro(c)
        for i, c in enumerate(sorted(allc, key=lambda c: (c.module.name, c.name))):
            c.cid = 100 + i
        self.all_classes = allc
        for c in allc:
            c.is_exc = any(x in ("Exception", "BaseException", "ValueError", "KeyError") for x in c.mro)

    def _mro(self, c):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise TypeError("mro of %s" % c.name)
                out.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        return [c] + merge([self._mro(b) if isinstance(b, ClassInfo) else [b] for b in c.bases] + [list(c.bases)])

    def subclasses(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo.extend(x.sub)
        return out

    def lookup(self, c, name, what="methods", after=None):
        """The attribute `name` of class c along the mro (behind class `after`, for super())."""
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, ClassInfo) and name in getattr(k, what):
                return getattr(k, what)[name]
        return None

    def func(self, spec):
        """'foundations.conceptual_item:HierarchicalElement.add_element' -> FuncInfo or None"""
        mod, q = spec.split(":")
        m = self.modules.get("rei." + mod) or self.modules.get(mod)
        if m is None:
            return None
        parts = q.split(".")
        if len(parts) == 1:
            r = self.resolve(m, parts[0])
            return r[1] if r and r[0] == "func" else None
        r = self.resolve(m, parts[0])
        if not r or r[0] != "class":
            return None
        c = r[1]
        for what in ("methods", "getters"):
            f = self.lookup(c, mangle(c, parts[1]), what)
            if f:
                return f
        return None


def mangle(cls, name):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        cn = cls.name.lstrip("_")
        if cn:
            return "_%s%s" % (cn, name)
    return name
