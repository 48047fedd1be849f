"""Mechanical extraction of the code under verification.

The source files of /repo/qetpy are read, parsed and executed unchanged except
for the rewriting below (nothing is dropped):
  * float / complex literals become exact constants, int/int becomes exact;
  * comprehensions with one generator and `for` / `while` statements inside
    functions go through hooks that apply the loop rules when the iteration
    space is symbolic (concrete loops run as written);
  * list displays become a list subclass with the same behaviour.
The module namespace binds numpy / scipy names to their assumed contracts."""
import ast
import builtins
import os
import types
from . import rt
from .ring import Unsupported
from .npshim import NP, fftns, linalg, no, _NS, SymArr, S, B, elementwise
from .npshim import np_array_uf, as_arr
from . import npshim

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Tx(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = 0

    def _name(self, p):
        self.n += 1
        return "_vp%s%d_" % (p, self.n)

    def _call(self, f, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(
            id="_vp_", ctx=ast.Load()), attr=f, ctx=ast.Load()),
            args=list(args), keywords=[])

    def visit_Constant(self, node):
        if type(node.value) is float:
            return self._call("F", ast.Constant(repr(node.value)))
        if type(node.value) is complex:
            return self._call("J", ast.Constant(repr(node.value.imag)))
        return node

    def visit_JoinedStr(self, node):
        return node          # f-strings: only messages

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self._call("div", node.left, node.right)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call("SymList", node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs:
            g = node.generators[0]
            if isinstance(g.target, ast.Name):
                fn = ast.Lambda(args=_args([g.target.id]), body=node.elt)
            else:
                t = self._name("t")
                names = [e.id for e in ast.walk(g.target)
                         if isinstance(e, ast.Name)]
                if isinstance(g.target, ast.Tuple) and all(
                        isinstance(e, ast.Name) for e in g.target.elts):
                    fn = ast.Lambda(
                        args=_args([t]),
                        body=ast.Call(
                            func=ast.Lambda(args=_args(names),
                                            body=node.elt),
                            args=[ast.Starred(value=ast.Name(
                                id=t, ctx=ast.Load()), ctx=ast.Load())],
                            keywords=[]))
                else:
                    return node
            return self._call("comp", fn, g.iter)
        return node

    def visit_FunctionDef(self, node):
        self.infunc += 1
        # docstrings are strings: untouched
        self.generic_visit(node)
        self.infunc -= 1
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node

    @staticmethod
    def assigned(nodes, minus=()):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if n.id not in names:
                        names.append(n.id)

            def visit_FunctionDef(self, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = \
                visit_ListComp
        for n in nodes:
            V().visit(n)
        return [n for n in names if n not in minus
                and not n.startswith("_vp")]

    def visit_For(self, node):
        if not self.infunc:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        tn = [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)
              and isinstance(n.ctx, ast.Store)]
        names = self.assigned(node.body, tn)
        L, H = self._name("l"), self._name("h")
        tup = ast.Tuple(elts=[ast.Constant(n) for n in names],
                        ctx=ast.Load())
        get = "_vp_.cells(locals(), (%s))" % "".join(
            repr(n) + "," for n in names)

        def assign(src):
            return [s for i, n in enumerate(names) for s in ast.parse(
                "if %s[%d] is not _vp_.UNDEF: %s = %s[%d]" % (
                    src, i, n, src, i)).body]
        import copy
        body1 = copy.deepcopy(node.body)
        sym = []
        sym += ast.parse("%s = %s.head((%s), %s)" % (
            H, L, "".join(repr(n) + "," for n in names), get)).body
        tr = ast.parse(
            "try:\n pass\nexcept _vp_.PathEnd:\n raise _vp_.Unsupported("
            "'dead branch in a loop body')\nfinally:\n %s.end(%s)" % (
                L, get)).body[0]
        tr.body = body1
        sym.append(ast.For(target=copy.deepcopy(node.target),
                           iter=ast.Name(id=L, ctx=ast.Load()),
                           body=assign(H) + [tr], orelse=[]))
        sym += ast.parse("%s = %s.finish()" % (H, L)).body
        sym += assign(H)
        conc = ast.For(target=node.target, iter=ast.Name(
            id=L, ctx=ast.Load()), body=node.body, orelse=node.orelse)
        init = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())],
                          value=self._call("loop", node.iter))
        iff = ast.If(test=ast.Attribute(value=ast.Name(id=L, ctx=ast.Load()),
                                        attr="symbolic", ctx=ast.Load()),
                     body=sym, orelse=[conc])
        return [init, iff]

    def visit_While(self, node):
        if not self.infunc:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        import copy
        names = self.assigned(node.body)
        W, H = self._name("w"), self._name("h")
        src = """
{W} = _vp_.WhileLoop()
while True:
    if {W}.havoced:
        if __C__: {W}.back(_vp_.cells(locals(), ({names})))
        {W}.exited()
        break
    {W}.pre()
    if not (__C__):
        {W}.exited()
        break
    {H} = {W}.post(({names}), _vp_.cells(locals(), ({names})))
    if {W}.havoced:
        __ASSIGN__
        if not (__C__): raise _vp_.PathEnd()
    __BODY__
""".format(W=W, H=H, names="".join(repr(n) + "," for n in names))
        tree = ast.parse(src)
        assign = [s for i, n in enumerate(names) for s in ast.parse(
            "if %s[%d] is not _vp_.UNDEF: %s = %s[%d]" % (
                H, i, n, H, i)).body] or [ast.Pass()]
        cond, body = node.test, node.body

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id == "__C__":
                    return copy.deepcopy(cond)
                return n

            def visit_Expr(self, n):
                if isinstance(n.value, ast.Name):
                    if n.value.id == "__ASSIGN__":
                        return assign
                    if n.value.id == "__BODY__":
                        return body
                return self.generic_visit(n)
        tree = R().visit(tree)
        out = tree.body
        if node.orelse:
            # else clause: runs when the condition fails
            raise_ = ast.parse("raise _vp_.Unsupported('while-else')").body
            out = raise_
        return out


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names],
                         kwonlyargs=[], kw_defaults=[], defaults=[])


class Stub:
    """anything outside the modelled libraries"""
    _is_vc = True

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Stub(self._name + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled " + self._name)

    def __mro_entries__(self, bases):
        return ()


class PlotStub(Stub):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return PlotStub(self._name + "." + k)

    def __call__(self, *a, **k):
        return PlotStub(self._name + "()")

    def __iter__(self):
        return iter((PlotStub("fig"), PlotStub("ax")))

    def __getitem__(self, k):
        return PlotStub(self._name + "[]")

    def __setitem__(self, k, v):
        pass


class Consts(Stub):
    pass


class Project:
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.mods = {}
        self.overrides = overrides or {}     # "module:qualname" -> stub
        self.external = {}                   # dotted library name -> stub
        self.sources = {}
        self.bi = rt.mk_builtins()
        self.bi["__import__"] = self._import
        self.rtns = rt

    # -- imports --------------------------------------------------------
    def path_of(self, mod):
        root = VERIF if mod.split(".")[0] == "contracts" else self.root
        p = os.path.join(root, *mod.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name.startswith("qetpy.plotting") or name.endswith("_plotting") \
                or name.endswith("_plot_didv"):
            m = PlotStub(name)
            self.mods[name] = m
            return m
        path, pkg = self.path_of(name)
        if not os.path.exists(path):
            raise ImportError(name)
        src = _parse(path)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["_vp_"] = self.rtns
        m.__dict__["__package__"] = name if pkg else name.rpartition(".")[0]
        m.__dict__["__file__"] = path
        self.mods[name] = m
        exec(src, m.__dict__)
        self._apply(name, m)
        return m

    def _apply(self, name, m):
        for key, stub in self.overrides.items():
            mod, _, qual = key.partition(":")
            if mod != name:
                continue
            parts = qual.split(".")
            o = m
            for p in parts[:-1]:
                o = getattr(o, p)
            if not hasattr(o, parts[-1]):
                raise KeyError("contract target %s is gone" % key)
            setattr(o, parts[-1], stub)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
            m = self._pkg(full)
            return self._from(m, full, fromlist)
        if name.split(".")[0] in ("qetpy", "contracts"):
            if fromlist:
                m = self._pkg(name)
                return self._from(m, name, fromlist)
            return LazyPkg(self, name.split(".")[0])
        return self.library(name, fromlist)

    def _pkg(self, full):
        if full in ("qetpy.plotting",) or full.endswith("_plotting") or \
                full.endswith("_plot_didv"):
            return PlotStub(full)
        path, pkg = self.path_of(full)
        if pkg:
            return LazyPkg(self, full)
        return self.module(full)

    def _from(self, m, full, fromlist):
        if fromlist and "*" in fromlist:
            if isinstance(m, LazyPkg):
                raise Unsupported("star import of a package")
            ns = types.ModuleType("star")
            if isinstance(m, PlotStub):
                ns.__all__ = []
                return ns
            return m
        return m

    def library(self, name, fromlist):
        if name == "numpy":
            m = NP
        elif name == "numpy.fft":
            m = fftns if fromlist else NP
        elif name == "numpy.linalg":
            m = linalg if fromlist else NP
        elif name.startswith("numpy"):
            m = Stub(name)
        elif name in ("math",):
            m = _NS("math", {
                "ceil": lambda x: npshim.s_trunc(S(-npshim.ring.floor(
                    -npshim.to_S(x).fin()))),
                "floor": lambda x: S(npshim.ring.floor(npshim.to_S(
                    x).fin()), isint=True),
                "sqrt": NP.sqrt, "exp": NP.exp, "log": NP.log, "pi": NP.pi,
                "sin": NP.sin, "cos": NP.cos, "inf": NP.inf, "nan": NP.nan,
                "isnan": NP.isnan, "isinf": NP.isinf, "fabs": NP.abs,
                "atan2": NP.arctan2})
        elif name in ("itertools", "functools", "collections", "operator",
                      "numbers", "typing", "abc", "enum", "dataclasses",
                      "contextlib", "re", "string", "__future__"):
            return builtins.__import__(name, None, None, fromlist, 0)
        elif name == "copy":
            def cp(x):
                if isinstance(x, SymArr):
                    return x.copy()
                if isinstance(x, (S, B, int, float, str, type(None))):
                    return x
                if isinstance(x, (list, tuple)):
                    return type(x)(cp(y) for y in x)
                if isinstance(x, dict):
                    return {k: cp(v) for k, v in x.items()}
                raise Unsupported("deepcopy")
            m = _NS("copy", {"deepcopy": cp, "copy": cp})
        elif name == "warnings":
            m = _NS("warnings", {"warn": lambda *a, **k: None,
                                 "simplefilter": lambda *a, **k: None,
                                 "filterwarnings": lambda *a, **k: None,
                                 "catch_warnings": npshim._Err})
        elif name.startswith("matplotlib"):
            m = PlotStub(name)
        else:
            m = self.ext(name)
            if not fromlist and "." in name:
                m = self.ext(name.split(".")[0])
        return m

    def ext(self, name):
        return ExtLib(self, name)


def scipy_lib(name):
    d = {"fft": npshim.np_fft, "ifft": npshim.np_ifft,
         "fftfreq": npshim.np_fftfreq, "rfft": npshim.np_rfft,
         "irfft": npshim.np_irfft, "rfftfreq": npshim.np_rfftfreq}
    return d


class ExtLib:
    _is_vc = True

    def __init__(self, proj, name):
        self.__dict__["_p"] = proj
        self.__dict__["_n"] = name
        self.__dict__["__path__"] = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        full = self._n + "." + k
        r = self._p.external.get(full)
        if r is not None:
            return r
        if full in DEFAULT_EXT:
            return DEFAULT_EXT[full]
        if self._n in ("scipy.fftpack", "scipy.fft"):
            d = scipy_lib(self._n)
            if k in d:
                return d[k]
        if full in ("scipy.fftpack", "scipy.fft", "scipy.optimize",
                    "scipy.stats", "scipy.signal", "scipy.ndimage",
                    "scipy.interpolate", "scipy.constants", "scipy.linalg",
                    "scipy.special", "scipy.integrate"):
            return ExtLib(self._p, full)
        return LateStub(self._p, full)


class LateStub(Stub):
    """library function without a contract, unless one is registered on the
    project before it is called"""

    def __init__(self, proj, name):
        self.__dict__["_name"] = name
        self.__dict__["_proj"] = proj

    def __getattr__(self, k):
        f = self.__dict__["_proj"].external.get(self.__dict__["_name"])
        if f is not None:
            return getattr(f, k)
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return LateStub(self._proj, self._name + "." + k)

    def __call__(self, *a, **k):
        f = self._proj.external.get(self._name)
        if f is not None:
            return f(*a, **k)
        raise Unsupported("call of unmodelled " + self._name)


DEFAULT_EXT = {
    "scipy.constants.k": S(npshim.ring.var("k_B", pos=True), isint=False),
    "scipy.constants.Boltzmann": S(npshim.ring.var("k_B", pos=True),
                                   isint=False),
    "scipy.constants.e": S(npshim.ring.var("q_e", pos=True), isint=False),
    "scipy.constants.elementary_charge": S(npshim.ring.var("q_e", pos=True),
                                           isint=False),
    "scipy.stats.skew": np_array_uf("skew"),
}


class LazyPkg:
    """package of the project: attributes resolved from its submodules"""

    def __init__(self, proj, name):
        self.__dict__["_p"] = proj
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        full = self._n + "." + k
        path, pkg = self._p.path_of(full)
        if k == "plotting":
            return PlotStub(full)
        if pkg and os.path.exists(path):
            return LazyPkg(self._p, full)
        if os.path.exists(path):
            return self._p.module(full)
        # search submodules for the name
        d = os.path.join(self._p.root, *self._n.split("."))
        for dp, dn, fn in sorted(os.walk(d)):
            for f in sorted(fn):
                if f.endswith(".py") and f != "__init__.py" and \
                        "plot" not in f:
                    fp = os.path.join(dp, f)
                    if k in _toplevel(fp):
                        rel = os.path.relpath(fp, self._p.root)[:-3]
                        return getattr(self._p.module(rel.replace("/", ".")),
                                       k)
        raise ImportError("cannot import %s" % full)


_tl = {}


def _toplevel(fp):
    if fp not in _tl:
        names = set()
        for n in ast.parse(open(fp).read()).body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        _tl[fp] = names
    return _tl[fp]


_cache = {}


def _parse(path):
    src = open(path).read()
    k = (path, src)
    c = _cache.get(k)
    if c is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
            tree = Tx().visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, path, "exec", dont_inherit=True)
        _cache[k] = c
    return c
