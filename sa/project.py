"""Module loading and name resolution over the analysed source trees."""
import ast
import os
import warnings
from .values import *
from . import term as T

_AST_CACHE = {}


def _parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src, path)


class Module:
    def __init__(self, name, path, relpath, ispkg):
        self.name, self.path, self.relpath, self.ispkg = name, path, relpath, ispkg
        key = (path, os.path.getmtime(path), os.path.getsize(path))
        if key not in _AST_CACHE:
            with open(path, encoding="utf-8") as f:
                _AST_CACHE[key] = _parse(f.read(), path)
        self.tree = _AST_CACHE[key]


class ModState:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.status = "new"


class Project:
    def __init__(self, roots):
        """roots: list of (dir, package prefix) ; modules are found by dotted name below dir"""
        self.roots = roots
        self.mods = {}
        self.states = {}
        self.classes = []

    def find_module(self, name):
        if name in self.mods:
            return self.mods[name]
        for root in self.roots:
            base = os.path.join(root, *name.split("."))
            for p, pkg in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
                if os.path.isfile(p):
                    m = Module(name, p, os.path.relpath(p, root), pkg)
                    self.mods[name] = m
                    return m
        self.mods[name] = None
        return None

    def state(self, interp, mod):
        s = self.states.get(mod.name)
        if s is None:
            s = ModState()
            self.states[mod.name] = s
            self.load(interp, mod, s)
        return s

    def load(self, interp, mod, s):
        from .interp import State, FrameC, Meta, Raise
        s.status = "loading"
        st = State()
        loc = next(interp._loc)
        st.heap[loc] = FrameC({"__name__": K(mod.name), "__file__": K(mod.path)}, None, (mod, None))
        interp.heapmeta[loc] = Meta("frame", (), mod.name, 0)
        saved = (interp.frame, interp.loopvars, interp.fstack, interp.site)
        interp.frame, interp.loopvars, interp.fstack = loc, [], []
        s.frame, s.st = loc, st
        try:
            cur = st
            for stm in mod.tree.body:
                outs = interp.stmt(stm, cur)
                n = [o for o in outs if o.kind == "normal"]
                if n:
                    cur = n[0].st
                s.env = cur.heap[loc].env
                s.cur = cur
        finally:
            interp.frame, interp.loopvars, interp.fstack, interp.site = saved
        s.env = dict(cur.heap[loc].env)
        s.heap = {l: c for l, c in cur.heap.items() if not isinstance(c, FrameC)}
        for l in s.heap:
            interp.heapmeta[l].owner = "module:" + mod.name
        # functions defined at module level close over nothing but the module
        for k, v in list(s.env.items()):
            _unclose(v, loc)
        s.status = "done"

    def module_get(self, interp, st, mod, name):
        s = self.state(interp, mod)
        env = s.env
        if s.status == "loading":
            env = s.cur.heap[s.frame].env if hasattr(s, "cur") else s.env
        v = env.get(name)
        if v is not None:
            for l, c in s.heap.items():
                if l not in st.heap:
                    st.heap[l] = c
            if s.status == "loading" and hasattr(s, "cur"):
                for l, c in s.cur.heap.items():
                    if l not in st.heap:
                        st.heap[l] = c
        return v

    def module_set(self, interp, st, mod, name, val):
        s = self.state(interp, mod)
        s.env[name] = val

    def import_module(self, interp, st, name):
        m = self.find_module(name)
        if m is not None:
            return ModV(m)
        return Ext(name)

    def resolve_from(self, mod, s):
        if s.level:
            parts = mod.name.split(".")
            if not mod.ispkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts)
            return base + ("." + s.module if s.module else "")
        return s.module

    def import_from(self, interp, st, base, name):
        m = self.find_module(base)
        if m is None:
            return Ext(base + "." + name)
        v = self.module_get(interp, st, m, name)
        if v is not None:
            return v
        sub = self.find_module(base + "." + name)
        if sub is not None:
            return ModV(sub)
        from .interp import Raise
        raise Raise("ImportError", "%s.%s" % (base, name))

    def make_class(self, interp, st, node, mod):
        from .interp import FrameC, Meta
        bases = []
        for b in node.bases:
            v = interp.ev(b, st)
            bases.append(v if isinstance(v, (Cls, Ext)) else Ext("?"))
        cls = Cls(node.name, bases, {}, mod, node)
        loc = next(interp._loc)
        outer = interp.frame
        st.heap[loc] = FrameC({}, outer, (mod, None))
        interp.heapmeta[loc] = Meta("frame", (), node.name, 0)
        interp.frame = loc
        try:
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    v = interp.make_fn(s, st, cls=cls)
                    _set_closure(v, outer, cls)
                    interp.setvar(st, s.name, v)
                else:
                    interp.stmt(s, st)
            cls.ns.update(st.heap[loc].env)
        finally:
            interp.frame = outer
            st.heap.pop(loc, None)
        self.classes.append(cls)
        return cls


def _set_closure(v, outer, cls):
    if isinstance(v, Fn):
        v.closure = outer
        v.cls = cls
    elif isinstance(v, Wrapped):
        _set_closure(v.fn, outer, cls)


def _unclose(v, loc, seen=None):
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Fn):
        if v.closure == loc:
            v.closure = None
    elif isinstance(v, Wrapped):
        _unclose(v.fn, loc, seen)
    elif isinstance(v, Cls):
        for x in v.ns.values():
            _unclose(x, loc, seen)
    elif isinstance(v, Bound):
        _unclose(v.fn, loc, seen)
