"""
Images: every simulated process gets its own freshly executed copy of the mabel package,
so module globals, class attributes and caches are per process, as they are in reality.
Compiled code is shared.  Imports made by mabel code go through the image, which also
substitutes the storage clients and multiprocessing.
"""

import ast
import builtins
import hashlib
import os
import sys
import types

from . import seams

REPO = os.environ.get("DST_REPO", "/repo")
_code = {}
_real_import = builtins.__import__


def _module_file(name):
    base = os.path.join(REPO, *name.split("."))
    for path, pkg in ((base + "/__init__.py", True), (base + ".py", False)):
        if os.path.isfile(path):
            return path, pkg
    return None, None


def _get_code(path):
    c = _code.get(path)
    if c is None:
        with seams.REAL.io_open(path, "rb") as f:
            tree = _Sets().visit(ast.parse(f.read(), path))
            c = compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)
        _code[path] = c
    return c


class _Sets(ast.NodeTransformer):
    """{a, b} and {x for x in y} make the image's kind of set, as set() does"""

    def _call(self, node, arg):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name("__dst_set__", ast.Load()), node), args=[ast.copy_location(arg, node)], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, ast.ListComp(node.elt, node.generators))


class _SetType(type):
    def __instancecheck__(cls, o):
        return isinstance(o, set)

    def __subclasscheck__(cls, c):
        return issubclass(c, set)


def _plain(o):
    return isinstance(o, (str, bytes, int, float, type(None))) or type(o) in (tuple, frozenset) and all(map(_plain, set.__iter__(o) if isinstance(o, set) else o))


def _set_type(salt):
    """sets are in an order of their own in every process"""
    prefix = b"%d:" % salt

    def order(o):
        return hashlib.blake2b(prefix + repr(o).encode("utf8", "backslashreplace"), digest_size=8).digest()

    class SimSet(set, metaclass=_SetType):
        def _items(self):
            items = list(set.__iter__(self))
            if len(items) > 1 and all(map(_plain, items)) and not any(type(o) is frozenset for o in items):
                items.sort(key=order)
            return items

        def __iter__(self):
            items = self._items()
            for o in items:
                if len(self) != len(items):
                    raise RuntimeError("Set changed size during iteration")
                yield o

        def pop(self):
            for o in self._items():
                self.discard(o)
                return o
            raise KeyError("pop from an empty set")

        def copy(self):
            return SimSet(self)

        def __reduce__(self):
            return (set, (self._items(),))

        def __repr__(self):
            return "{" + ", ".join(map(repr, self._items())) + "}" if self else "set()"

        __hash__ = None

    def derived(name):
        real = getattr(set, name)

        def method(self, *a):
            r = real(self, *a)
            return SimSet(r) if type(r) in (set, SimSet) and r is not self else r

        method.__name__ = name
        return method

    for name in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference"):
        setattr(SimSet, name, derived(name))
    SimSet.__name__ = SimSet.__qualname__ = "set"
    return SimSet


class Image:
    count = 0

    def __init__(self, substitutes=None):
        self.modules = {}
        self.subs = {"mmap": seams.mmap_proxy}
        if substitutes:
            self.subs.update(substitutes)
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["open"] = seams.sim_open
        # strings hash differently in every process
        salt, real_hash = Image.count, builtins.hash
        Image.count += 1

        def salted(o, /):
            h = real_hash(o)
            return real_hash((salt, h)) if salt and isinstance(o, (str, bytes, tuple, frozenset)) else h

        salted.__name__ = salted.__qualname__ = "hash"
        b["hash"] = salted
        b["set"] = b["__dst_set__"] = _set_type(salt)
        self.builtins = b

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, tail = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        path, pkg = _module_file(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.modules[name] = m
        try:
            exec(_get_code(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], tail, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = (globals or {}).get("__package__") or ""
            parts = package.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            full = ".".join(parts + ([name] if name else []))
        else:
            full = name
        if full == "mabel" or full.startswith("mabel."):
            m = self.load(full)
            if not fromlist:
                if level:
                    return m
                return self.modules[full.split(".")[0]]
            for attr in fromlist:
                if attr == "*":
                    continue
                if not hasattr(m, attr):
                    path, _ = _module_file(full + "." + attr)
                    if path:
                        self.load(full + "." + attr)
            return m
        sub = self.subs.get(full)
        if sub is not None:
            return self._from_sub(full, sub, fromlist)
        if fromlist:
            # `from google.cloud import storage`
            mod = None
            for attr in fromlist:
                s = self.subs.get(full + "." + attr)
                if s is not None:
                    if mod is None:
                        real = _real_import(full, None, None, (), 0)
                        for part in full.split(".")[1:]:
                            real = getattr(real, part)
                        mod = types.ModuleType(full)
                        mod.__dict__.update({k: v for k, v in real.__dict__.items() if k != "__builtins__"})
                    setattr(mod, attr, s)
            if mod is not None:
                for attr in fromlist:
                    if not hasattr(mod, attr):
                        real = _real_import(full, None, None, (attr,), 0)
                        setattr(mod, attr, getattr(real, attr))
                return mod
        return _real_import(name, globals, locals, fromlist, level)

    def _from_sub(self, full, sub, fromlist):
        if fromlist or "." not in full:
            return sub
        # `import google.cloud.storage` binds the top-level package
        top = types.ModuleType(full.split(".")[0])
        node = top
        parts = full.split(".")
        for p in parts[1:-1]:
            nxt = types.ModuleType(p)
            setattr(node, p, nxt)
            node = nxt
        setattr(node, parts[-1], sub)
        return top

    def get(self, dotted):
        """image.get('mabel.data.writers.BatchWriter')"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            name = ".".join(parts[:i])
            path, _ = _module_file(name)
            if path:
                obj = self.load(name)
                for a in parts[i:]:
                    obj = getattr(obj, a)
                return obj
        raise KeyError(dotted)

    def preload(self):
        """import every module that imports; lazily imported ones must not import mid-run"""
        for dirpath, dirs, files in os.walk(os.path.join(REPO, "mabel")):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(dirpath, f), REPO)[:-3].replace("/", ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    self.load(rel)
                except Exception:
                    # optional dependency missing (simdjson, bigquery)
                    pass
        return self
