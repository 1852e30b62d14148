"""Abstract interpreter of the repository's Python source.

Walks the AST of /repo interprocedurally.  Arrays are described by the term of
their generic element (sa.term); both branches of an undecided condition are
analysed and merged by phi; counted loops are summarised (sa.loops), never
unrolled when their bounds are symbolic.  Nothing of /repo is imported or run.
"""
import ast
import os

from .term import *          # noqa
from . import term as tm
from . import loops
from .values import *        # noqa
from .arr import ArrayMixin, flat_index, unflatten, CAT, NAMES, pt_promote2, np_promote2


class Dead(Exception):
    """the current path ended (its exit has been recorded)"""


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


EXC_PARENT = {
    "ModuleNotFoundError": "ImportError", "ImportError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "ArithmeticError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "AttributeError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "AssertionError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "IOError": "OSError", "StopIteration": "Exception", "LinAlgError": "ValueError", "Exception": "BaseException",
    "Warning": "Exception", "UserWarning": "Warning", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning",
    "UnicodeDecodeError": "ValueError", "MemoryError": "Exception",
}
BUILTIN_EXC = set(EXC_PARENT) | {"BaseException"}


class State:
    __slots__ = ("heap", "pc", "nograd", "sattr")

    def __init__(self, heap, pc=(), nograd=False, sattr=None):
        self.heap, self.pc, self.nograd, self.sattr = heap, pc, nograd, sattr or {}

    def fork(self, cond=None):
        s = State(dict(self.heap), self.pc, self.nograd, dict(self.sattr))
        if cond is not None:
            s.pc = s.pc + (cond,)
        return s


def pc_poly(pc):
    r = ONE
    for c in pc:
        r = pmul(r, c)
    return r


class Env:
    """analysis configuration"""

    def __init__(self, missing=(), default_dtype="f32", root=None, summaries=None):
        self.missing = set(missing)
        self.default_dtype = default_dtype
        self.root = root or os.environ.get("SA_REPO", "/repo")
        self.summaries = summaries or {}
        self.torch_version = (2, 15, 0)
        self.unroll = 0         # > 0: loops with an undecided exit run this many times, longer runs are cut off
        self.unroll_for = 0
        self.cut = []           # conditions under which a run was cut off


class Frame:
    __slots__ = ("eid", "mod", "func", "returns", "breaks", "conts", "globals_", "nonlocals", "closure", "yields", "local_names", "cls")

    def __init__(self, eid, mod, func, closure):
        self.eid, self.mod, self.func, self.closure = eid, mod, func, closure
        self.returns, self.breaks, self.conts = [], [], []
        self.globals_, self.nonlocals = set(), set()
        self.yields = None
        self.local_names = None
        self.cls = None


_ast_cache = {}


def parse(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _ast_cache:
        with open(path, encoding="utf-8") as f:
            _ast_cache[k] = ast.parse(f.read(), path)
    return _ast_cache[k]


MAX_DEPTH = 60
UNROLL = 64


class Interp(ArrayMixin):
    def __init__(self, env):
        self.env = env
        self.st = State({})
        self.nid = 0
        self.events = []
        self.modules = {}
        self.frames = []
        self.raise_sink = []
        self.loc = ("", 0)
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.boundary = None
        self.funcs_seen = set()
        self.calls_seen = 0
        self.unknown = {}
        self.trial = 0
        self.unbound = set()
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ services
    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, content):
        i = self.new_id()
        self.st.heap[i] = content
        return i

    def locstr(self):
        return "%s:%d" % self.loc

    def event(self, kind, msg, **kw):
        e = {"kind": kind, "msg": msg, "loc": self.locstr(), "pc": pc_poly(self.st.pc) if self.st else ONE,
             "func": self.frames[-1].func.qual if self.frames and self.frames[-1].func else "<module>",
             "stack": tuple(f.func.name for f in self.frames if f.func)}
        e.update(kw)
        self.events.append(e)

    def top(self, why):
        self.unknown[why] = self.unknown.get(why, 0) + 1
        return Top(why)

    def do_raise(self, exc):
        self.raise_sink.append((self.st, exc, self.locstr()))
        raise Dead()

    def crash(self, excname, msg):
        self.event("crash", "%s: %s" % (excname, msg))
        self.do_raise(Exc(Ext("builtins." + excname), (msg,)))

    def shape_error(self, msg):
        self.crash("ValueError", msg)

    def mutate(self, hid, what):
        """record a mutation of a heap object that outlives the call"""
        if self.boundary is not None and hid <= self.boundary:
            self.event("global", "%s modifies module-level state" % what)

    # ------------------------------------------------------------ merging
    def phi(self, c, a, b):
        if a is b:
            return a
        cc = bool_const(c)
        if cc is not None:
            return a if cc else b
        if a is UNDEF or b is UNDEF:
            if isinstance(a, Top) or isinstance(b, Top):
                return a if b is UNDEF else b
            return PhiV(c, a, b)
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            k = ka if ka == kb else ("float" if "float" in (ka, kb) else "int")
            if (ka == "bool") != (kb == "bool"):
                return PhiV(c, a, b)
            pa, pb = to_poly(a), to_poly(b)
            if pa is pb and ka == kb:
                return a
            try:
                return num(pb + pmul(c, pa - pb), k)
            except Blowup:
                return num(unk("phi"), k)
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return self.phi_arr(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
            return tuple(self.phi(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Inst) and isinstance(b, Inst) and a.hid == b.hid:
            return a
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.hid == b.hid:
                return a
            la, lb = self.st.heap.get(a.hid), self.st.heap.get(b.hid)
            if isinstance(la, list) and isinstance(lb, list) and len(la) == len(lb):
                return ListV(self.alloc([self.phi(c, x, y) for x, y in zip(la, lb)]))
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.hid == b.hid:
                return a
        if type(a) is type(b):
            try:
                if not isinstance(a, (ArrV, PhiV, SymItems)) and a == b:
                    return a
            except Exception:
                pass
            if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node:
                if a.closure == b.closure:
                    return a
        return PhiV(c, a, b)

    def phi_arr(self, c, a, b):
        if a.sid == b.sid and a.sid is not None and a.idx == b.idx and a.axes == b.axes and a.dtype == b.dtype and a.dev == b.dev:
            return a.copy(grad=a.grad or b.grad, taint=a.taint | b.taint)
        if a.ndim != b.ndim or a.dtype != b.dtype or a.be != b.be or a.dev != b.dev:
            return PhiV(c, a, b)
        for x, y in zip(a.axes, b.axes):
            if ax_size(x) is not ax_size(y):
                return PhiV(c, a, b)
        sa, sb = self.st.heap.get(a.sid), self.st.heap.get(b.sid)
        axes, (pa, pb) = self.align([a, b])
        try:
            body = pb + pmul(c, pa - pb)
        except Blowup:
            body = unk("phi")
        r = self.fresh(axes, body, a.dtype, a.dev, a.grad or b.grad, a.taint | b.taint, a.be, a.scalar and b.scalar)
        orig = {}
        for s, cc in ((sa, c), (sb, ONE - c)):
            if s is not None:
                for o, oc in s.origin.items():
                    orig[o] = bor(orig.get(o, ZERO), pmul(oc, cc))
        if orig:
            self.st.heap[r.sid] = self.st.heap[r.sid].repl(origin=orig)
        x = (a.extra or {}).get("aliases", frozenset([a.sid])) | (b.extra or {}).get("aliases", frozenset([b.sid]))
        r.extra = {"aliases": x}
        return r

    def merge_states(self, items):
        """items: [(State, value)] of disjoint paths -> (State, value); sets self.st"""
        items = [x for x in items if x[0] is not None]
        if not items:
            return None, None
        if len(items) == 1:
            self.st = items[0][0]
            return items[0]
        pcs = [s.pc for s, v in items]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        rel = [pc_poly(p[n:]) for p in pcs]
        # drop infeasible
        keep = [(it, r) for it, r in zip(items, rel) if r.terms]
        if not keep:
            keep = list(zip(items, rel))[:1]
        items, rel = [k[0] for k in keep], [k[1] for k in keep]
        st, val = items[-1]
        tot = rel[-1]
        prefix = pcs[0][:n]
        for (s2, v2), r in list(zip(items, rel))[-2::-1]:
            st, val = self._merge2(r, s2, v2, st, val)
            tot = tot + r
        st.pc = prefix if tot is ONE else prefix + (tot,)
        self.st = st
        return st, val

    def _merge2(self, c, s1, v1, s2, v2):
        heap = {}
        out = State(heap, s1.pc, s1.nograd or s2.nograd)
        out.nograd = s1.nograd if s1.nograd == s2.nograd else s2.nograd
        out.sattr = dict(s1.sattr)
        for k, (g, t) in s2.sattr.items():
            g0, t0 = out.sattr.get(k, (False, frozenset()))
            out.sattr[k] = (g or g0, t | t0)
        h1, h2 = s1.heap, s2.heap
        for k, x in h1.items():
            y = h2.get(k)
            if y is None or x is y:
                heap[k] = x
        for k, y in h2.items():
            if k not in h1:
                heap[k] = y
        self.st = out
        diff = [k for k in h1 if k in h2 and h1[k] is not h2[k]]
        for k in diff:     # make views of merged storages resolvable in any order
            heap[k] = h1[k]
        merged = {}
        for k in diff:
            x, y = h1[k], h2[k]
            if isinstance(x, Storage):
                try:
                    body = y._b if x._b is y._b else y.body + pmul(c, x.body - y.body)
                except Blowup:
                    body = unk("phi")
                orig = dict(x.origin)
                orig.update(y.origin)
                merged[k] = Storage(x.vars, body, orig, x.saved if len(x.saved) > len(y.saved) else y.saved,
                                    x.req or y.req, max(x.writes, y.writes))
        # storages first (values that point to them compare by id)
        heap.update(merged)
        for k in diff:
            x, y = h1[k], h2[k]
            if isinstance(x, Storage):
                continue
            if isinstance(x, dict):
                d = {}
                for n in list(x) + [m for m in y if m not in x]:
                    a, b = x.get(n, UNDEF), y.get(n, UNDEF)
                    d[n] = a if a is b else self.phi2(c, a, h1, b, h2)
                heap[k] = d
            elif isinstance(x, list):
                if isinstance(y, list) and len(x) == len(y):
                    heap[k] = [a if a is b else self.phi2(c, a, h1, b, h2) for a, b in zip(x, y)]
                else:
                    heap[k] = self.top("list of path dependent length")
            else:
                heap[k] = self.top("merged object")
        v = v1 if v1 is v2 else self.phi2(c, v1, h1, v2, h2)
        return out, v

    def phi2(self, c, a, h1, b, h2):
        """phi where a, b live in heaps h1, h2: a view of a storage written differently
        in the two branches denotes the merged storage, which is what we want"""
        return self.phi(c, a, b)

    def decided(self, cond):
        """truth of cond implied by the path condition"""
        cc = bool_const(cond)
        if cc is not None:
            return cc
        n = ONE - cond
        for p in self.st.pc:
            if p is cond:
                return True
            if p is n:
                return False
        pp = pc_poly(self.st.pc)
        if not pmul(pp, n).terms:
            return True
        if not pmul(pp, cond).terms:
            return False
        return None

    def branch(self, cond, f, g):
        """evaluate f under cond and g otherwise; merge"""
        d = self.decided(cond)
        if d is True:
            return f()
        if d is False:
            return g()
        s0 = self.st
        self.st = s0.fork(cond)
        res = []
        try:
            v = f()
            res.append((self.st, v))
        except Dead:
            pass
        self.st = s0.fork(ONE - cond)
        try:
            v = g()
            res.append((self.st, v))
        except Dead:
            pass
        if not res:
            raise Dead()
        st, v = self.merge_states(res)
        return v

    def split(self, p, f):
        """apply f to both alternatives of a PhiV"""
        if p.b is UNDEF:
            return f(p.a)
        if p.a is UNDEF:
            return f(p.b)
        return self.branch(p.cond, lambda: f(p.a), lambda: f(p.b))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """bool, or 0/1 Poly"""
        if v is None or v is UNDEF:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Num):
            if v.kind == "bool":
                c = bool_const(v.p)
                return v.p if c is None else c
            c = ONE - eq0(v.p)
            cc = bool_const(c)
            if cc is None and is_index_poly(v.p) and nonneg(v.p - 1):
                return True
            return c if cc is None else cc
        if isinstance(v, ArrV):
            if v.ndim and any(v.axes):
                # len-1 arrays only
                self.event("ambiguous", "truth value of an array with several elements")
                return unk("truth of array")
            b = self.body(v)
            if v.be == "pt":
                self.event("sync", "data dependent control flow")
            if v.dtype == "bool":
                c = bool_const(b)
                return b if c is None else c
            c = ONE - eq0(b)
            cc = bool_const(c)
            return c if cc is None else cc
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListV):
            c = self.st.heap[v.hid]
            if isinstance(c, list):
                return len(c) > 0
            if isinstance(c, SymItems):
                return self.truth(num(c.size, "int"))
            return unk("truth of list")
        if isinstance(v, DictV):
            c = self.st.heap[v.hid]
            if isinstance(c, dict):
                return len(c) > 0
            return unk("truth of dict")
        if isinstance(v, SetV):
            return len(v.items) > 0
        if isinstance(v, PhiV):
            a, b = self.truth(v.a), self.truth(v.b)
            pa = P(int(a)) if isinstance(a, bool) else a
            pb = P(int(b)) if isinstance(b, bool) else b
            r = pb + pmul(v.cond, pa - pb)
            c = bool_const(r)
            return r if c is None else c
        if isinstance(v, (Func, Cls, Ext, Mod, Bound, ExtM, Partial, DT, Dev, RangeV)):
            return True
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__bool__")
            if m:
                return self.truth(self.call(Bound(m, v), [], {}))
            m = self.find_method(v.cls, "__len__")
            if m:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        return unk("truth of %s" % type(v).__name__)

    def truth_poly(self, v):
        t = self.truth(v)
        return P(int(t)) if isinstance(t, bool) else t

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        rel = name.replace(".", "/")
        # reference definitions written for the checks are read from /verif/sa/sa_specs
        root = os.path.dirname(os.path.abspath(__file__)) if name.split(".")[0] == "sa_specs" else self.env.root
        for p in (os.path.join(root, rel, "__init__.py"), os.path.join(root, rel + ".py")):
            if os.path.isfile(p):
                return p
        return None

    def is_repo(self, name):
        return name.split(".")[0] in ("fast_bss_eval", "sa_specs")

    def import_module(self, name):
        """returns Mod or Ext; raises through do_raise on ImportError"""
        top = name.split(".")[0]
        if not self.is_repo(name):
            for m in self.env.missing:
                if name == m or name.startswith(m + "."):
                    self.do_raise(Exc(Ext("builtins.ModuleNotFoundError"), ("No module named '%s'" % name,)))
            return Ext(name)
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        path = self.module_path(name)
        if path is None:
            self.do_raise(Exc(Ext("builtins.ModuleNotFoundError"), ("No module named '%s'" % name,)))
        tree = parse(path)
        rel = os.path.relpath(path, self.env.root)
        hid = self.alloc({"__name__": name, "__file__": path, "__doc__": None})
        mod = Mod(name, hid, rel, tree)
        self.modules[name] = mod
        fr = Frame(hid, mod, None, None)
        self.frames.append(fr)
        loc = self.loc
        sink, self.raise_sink = self.raise_sink, []
        try:
            try:
                self.exec_block(tree.body)
                ok = True
            except Dead:
                ok = False
            raised, self.raise_sink = self.raise_sink, sink
            if not ok:
                self.modules.pop(name, None)
                for s, e, l in raised:
                    self.raise_sink.append((s, e, l))
                raise Dead()
        finally:
            self.frames.pop()
            self.loc = loc
            self.raise_sink = sink
        if "." in name:
            p, leaf = name.rsplit(".", 1)
            pm = self.modules.get(p)
            if pm is not None:
                d = dict(self.st.heap[pm.hid])
                d.setdefault(leaf, mod)
                self.st.heap[pm.hid] = d
        return mod

    # ------------------------------------------------------------ names
    def frame(self):
        return self.frames[-1]

    def load_name(self, n):
        fr = self.frame()
        if n in fr.globals_:
            return self.load_global(fr.mod, n)
        env = self.st.heap.get(fr.eid)
        if n in env and env[n] is not UNDEF:
            v = env[n]
            if isinstance(v, PhiV) and (v.a is UNDEF or v.b is UNDEF):
                d = self.decided(v.cond)
                if d is True and v.a is not UNDEF:
                    return v.a
                if d is False and v.b is not UNDEF:
                    return v.b
                if (d is True and v.a is UNDEF) or (d is False and v.b is UNDEF):
                    self.crash("UnboundLocalError", "local variable '%s' referenced before assignment" % n)
                # in a loop: possibly the value of an earlier iteration
                self.unbound.add((fr.eid, n))
                return v.b if v.a is UNDEF else v.a
            if isinstance(v, PhiV) and self.has_undef(v):
                return self.drop_undef(v)
            return v
        if fr.func is not None and fr.local_names is not None and n in fr.local_names and n not in fr.nonlocals:
            self.unbound.add((fr.eid, n))
            self.crash("UnboundLocalError", "local variable '%s' referenced before assignment" % n)
        c = fr.closure
        while c is not None:
            eid, parent = c
            env = self.st.heap.get(eid)
            if env is not None and n in env and env[n] is not UNDEF:
                return env[n]
            c = parent
        return self.load_global(fr.mod, n)

    def load_global(self, mod, n):
        env = self.st.heap[mod.hid]
        if n in env and env[n] is not UNDEF:
            return env[n]
        b = self.lib.builtin(self, n)
        if b is not None:
            return b
        self.crash("NameError", "name '%s' is not defined" % n)

    def store_name(self, n, v):
        fr = self.frame()
        if n in fr.globals_:
            eid = fr.mod.hid
            self.mutate(eid, "assignment to global '%s'" % n)
        elif n in fr.nonlocals:
            eid = None
            c = fr.closure
            while c is not None:
                if n in self.st.heap.get(c[0], {}):
                    eid = c[0]
                    break
                c = c[1]
            if eid is None:
                eid = fr.eid
            self.mutate(eid, "assignment to nonlocal '%s'" % n)
        else:
            eid = fr.eid
        d = dict(self.st.heap[eid])
        d[n] = v
        self.st.heap[eid] = d

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        fr = self.frame()
        self.loc = (fr.mod.path, getattr(s, "lineno", 0))
        tm.LOC[0] = self.loc
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(s).__name__)
            return
        m(s)

    def unsupported(self, what):
        self.top(what)
        raise Unsupported(what)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value)
        if isinstance(v, Ctxm) and v.kind == "gradset":
            self.st.nograd = not v.val
            self.event("setting", "switches the gradient mode")

    def x_Global(self, s):
        self.frame().globals_.update(s.names)

    def x_Nonlocal(self, s):
        self.frame().nonlocals.update(s.names)

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                if self.is_repo(a.name):
                    self.store_name(top, self.modules[top])
                else:
                    self.store_name(top, Ext(top))

    def x_ImportFrom(self, s):
        fr = self.frame()
        if s.level:
            pkg = fr.mod.name
            is_pkg = os.path.basename(fr.mod.path) == "__init__.py"
            parts = pkg.split(".")
            drop = s.level - (1 if is_pkg else 0)
            base = parts[:len(parts) - drop] if drop else parts
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    env = self.st.heap[m.hid]
                    allv = env.get("__all__")
                    names = [n for n in env if not n.startswith("_")]
                    if isinstance(allv, ListV):
                        names = [x for x in self.st.heap[allv.hid] if isinstance(x, str)]
                    for n in names:
                        self.store_name(n, env[n])
                continue
            if isinstance(m, Mod):
                v = self.st.heap[m.hid].get(a.name, UNDEF)
                if v is UNDEF:
                    sub = name + "." + a.name
                    if self.module_path(sub):
                        v = self.import_module(sub)
                    else:
                        self.do_raise(Exc(Ext("builtins.ImportError"), ("cannot import name '%s' from '%s'" % (a.name, name),)))
            else:
                for mm in self.env.missing:
                    if name + "." + a.name == mm:
                        self.do_raise(Exc(Ext("builtins.ImportError"), ("cannot import name",)))
                v = self.lib.ext_attr(self, m, a.name)
            self.store_name(a.asname or a.name, v)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n, bool(star))
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.top("unpacking %s" % type(v).__name__))
                return
            if star:
                k = star[0]
                if len(items) < n - 1:
                    self.crash("ValueError", "not enough values to unpack")
                tail = n - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, ListV(self.alloc(list(items[k:len(items) - tail]))))
                for e, x in zip(t.elts[k + 1:], items[len(items) - tail:]):
                    self.assign(e, x)
            else:
                if len(items) != n:
                    self.crash("ValueError", "wrong number of values to unpack (%d, expected %d)" % (len(items), n))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setsub(self.ev(t.value), self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported("assignment target")

    def unpack(self, v, n, star=False):
        if isinstance(v, PhiV):
            a = self.unpack(v.a, n, star) if v.a is not UNDEF else None
            b = self.unpack(v.b, n, star) if v.b is not UNDEF else None
            if a is None or b is None:
                return a or b
            if len(a) != len(b):
                return None
            return [self.phi(v.cond, x, y) for x, y in zip(a, b)]
        it = self.concrete_items(v)
        if it is not None:
            return it
        if isinstance(v, ArrV) and v.ndim >= 1 and not star:
            sz = ax_size(v.axes[0])
            k = as_int(sz)
            if k is None:
                if nonneg(sz - n - 1) or nonneg(-sz + n - 1):
                    self.crash("ValueError", "cannot unpack axis of size %s into %d" % (sz, n))
                return [self.getitem(v, (i,)) for i in range(n)]
        if isinstance(v, ListV):
            c = self.st.heap[v.hid]
            if isinstance(c, SymItems) and not star:
                return [self.sym_item(c, P(i)) for i in range(n)]
        return None

    def sym_item(self, c, idx):
        sub = {}
        sub.update(unflatten(tuple(c.vars), idx))
        return self.subst_val(c.elem, sub)

    def subst_val(self, v, sub):
        """substitute index variables inside a value"""
        if isinstance(v, Num):
            return num(subst(v.p, sub), v.kind)
        if isinstance(v, ArrV):
            if v.sid is None:
                return v
            return self.view(v, v.axes, sub) if not self._storage_mentions(v, sub) else self.copy_of(
                v, axes=v.axes, body=subst(self.body(v), sub))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, sub) for x in v)
        if isinstance(v, PhiV):
            return self.phi(subst(v.cond, sub), self.subst_val(v.a, sub), self.subst_val(v.b, sub))
        return v

    def _storage_mentions(self, v, sub):
        s = self.st.heap[v.sid]
        keys = frozenset(sub)
        return bool((s.body.fv - frozenset(s.vars)) & keys) or any(a.args[0].fv & keys for ax in v.axes for a in ax)

    def concrete_items(self, v):
        """python list of the items, or None"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            c = self.st.heap[v.hid]
            return list(c) if isinstance(c, list) else None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, DictV):
            c = self.st.heap[v.hid]
            return list(c) if isinstance(c, dict) else None
        if isinstance(v, RangeV):
            ps = [as_int(to_poly(x)) if to_poly(x) is not None else None for x in (v.lo, v.hi, v.step)]
            if all(p is not None for p in ps) and ps[2] != 0:
                r = range(*ps)
                if len(r) <= UNROLL:
                    return list(r)
            return None
        if isinstance(v, ArrV) and v.ndim >= 1:
            k = as_int(ax_size(v.axes[0]))
            if k is not None and k <= UNROLL:
                return [self.getitem(v, (i,)) for i in range(k)]
            return None
        if isinstance(v, NdIndexV):
            dims = [as_int(to_poly(d)) if to_poly(d) is not None else None for d in v.dims]
            if all(d is not None for d in dims):
                import itertools
                n = 1
                for d in dims:
                    n *= d
                if n <= UNROLL:
                    return [tuple(x) for x in itertools.product(*[range(d) for d in dims])]
            return None
        if isinstance(v, IterV):
            parts = [self.concrete_items(p) for p in v.parts]
            if v.kind == "zip":
                known = [p for p in parts if p is not None]
                if not known or len(known) != len(parts):
                    return None
                return [tuple(x) for x in zip(*parts)]
            if parts and parts[0] is None:
                return None
            if v.kind == "enumerate":
                st = 0
                if len(v.parts) > 1:
                    st = v.parts[1]
                return [(self.binop("Add", st, i) if st != 0 else i, x) for i, x in enumerate(parts[0])]
            if v.kind == "reversed":
                return parts[0][::-1]
            if v.kind == "list":
                return parts[0]
        if isinstance(v, Inst):
            if v.cls.kind == "namedtuple":
                d = self.st.heap[v.hid]
                return [d[f] for f in v.cls.fields]
        return None

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            v = self.ev(s.value)
            r = self.inplace(op, cur, v)
            self.store_name(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            v = self.ev(s.value)
            if isinstance(o, PhiV):
                self.split(o, lambda x: self.augsub(op, x, ix, v))
            else:
                self.augsub(op, o, ix, v)

    def augsub(self, op, o, ix, v):
        if isinstance(o, ArrV):
            cur = self.getitem(o, ix)
            masked = isinstance(cur, ArrV) and any(isinstance(x, ArrV) and x.dtype == "bool" for x in (ix if isinstance(ix, (tuple, list)) else [ix]))
            if isinstance(cur, MaskSel) or isinstance(cur, Top) or masked:
                def aug(old, val):
                    r = self.binop(op, Num(old, "float"), Num(val, "float"))
                    return to_poly(r) if to_poly(r) is not None else unk("aug")
                if isinstance(v, ArrV) and v.ndim > 0 or isinstance(cur, Top) or isinstance(v, (PhiV, Top)):
                    self.setitem(o, ix, self.top("masked update"), None, "in-place %s" % op)
                else:
                    self.setitem(o, ix, v, aug, "in-place %s" % op)
                return
            r = self.binop(op, cur, v)
            if isinstance(r, ArrV) and isinstance(cur, ArrV):
                self.check_inplace_cast(o, r, "in-place %s" % op)
            self.setitem(o, ix, r, None, "in-place %s" % op)
            return
        cur = self.getsub(o, ix)
        r = self.inplace(op, cur, v)
        self.setsub(o, ix, r)

    def check_inplace_cast(self, a, r, how):
        if CAT[r.dtype] > CAT[a.dtype]:
            if a.be == "np":
                self.crash("TypeError", "%s cannot cast %s to %s" % (how, r.dtype, a.dtype))
            else:
                self.crash("RuntimeError", "%s: result type %s can't be cast to %s" % (how, r.dtype, a.dtype))

    def inplace(self, op, cur, v):
        if isinstance(cur, PhiV):
            return self.split(cur, lambda x: self.inplace(op, x, v))
        if isinstance(v, PhiV):
            return self.split(v, lambda x: self.inplace(op, cur, x))
        if isinstance(cur, ArrV) and not (cur.be == "np" and cur.scalar):
            r = self.binop(op, cur, v)
            if isinstance(r, ArrV):
                self.check_inplace_cast(cur, r, "in-place %s" % op)
                if r.ndim > cur.ndim:
                    self.shape_error("in-place result has more dimensions than its target")
                self.setitem(cur, (Ellipsis,), r, None, "in-place %s" % op)
                return self.after_inplace(cur, r)
            self.setitem(cur, (Ellipsis,), r, None, "in-place %s" % op)
            return cur
        if isinstance(cur, ListV) and op == "Add":
            items = self.concrete_items(v)
            c = self.st.heap[cur.hid]
            self.mutate(cur.hid, "list extension")
            if items is None or not isinstance(c, list):
                self.st.heap[cur.hid] = self.top("list +=")
            else:
                self.st.heap[cur.hid] = c + items
            return cur
        if isinstance(cur, Inst):
            m = self.find_method(cur.cls, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op, "__i__"))
            if m:
                return self.call(Bound(m, cur), [v], {})
        return self.binop(op, cur, v)

    def after_inplace(self, a, r):
        return a.copy(grad=a.grad or r.grad, taint=a.taint | r.taint)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.st.heap[self.frame().eid])
                d[t.id] = UNDEF
                self.st.heap[self.frame().eid] = d

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frame().returns.append((self.st, v))
        raise Dead()

    def x_Break(self, s):
        self.frame().breaks.append(self.st)
        raise Dead()

    def x_Continue(self, s):
        self.frame().conts.append(self.st)
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            self.do_raise(cur or Exc(Ext("builtins.RuntimeError")))
        e = self.ev(s.exc)
        if isinstance(e, (Ext, Cls)):
            e = Exc(e)
        if not isinstance(e, Exc):
            if isinstance(e, Inst):
                e = Exc(e.cls)
            else:
                e = Exc(Ext("builtins.Exception"))
        self.do_raise(e)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c is True:
            return
        if c is False:
            self.event("assert", "assertion is always false")
            self.do_raise(Exc(Ext("builtins.AssertionError")))
        d = self.decided(c)
        if d is True:
            return
        s0 = self.st
        self.st = s0.fork(ONE - c)
        try:
            self.do_raise(Exc(Ext("builtins.AssertionError")))
        except Dead:
            pass
        if d is False:
            raise Dead()
        self.st = s0.fork(c)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        if not isinstance(c, bool):
            d = self.decided(c)
            if d is not None:
                c = d
        if c is True:
            return self.exec_block(s.body)
        if c is False:
            return self.exec_block(s.orelse)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_With(self, s):
        saved = self.st.nograd
        post = []
        for it in s.items:
            v = self.ev(it.context_expr)
            val = v
            if isinstance(v, Ctxm):
                if v.kind == "nograd":
                    self.st.nograd = True
                elif v.kind == "grad":
                    self.st.nograd = False
                elif v.kind == "gradset":
                    self.st.nograd = not v.val
                val = v.val
            elif isinstance(v, Inst):
                m = self.find_method(v.cls, "__enter__")
                val = self.call(Bound(m, v), [], {}) if m else self.top("with")
                post.append(v)
            else:
                val = self.top("context manager")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val)
        try:
            self.exec_block(s.body)
        finally:
            if self.st is not None:
                self.st.nograd = saved
        for v in post:
            m = self.find_method(v.cls, "__exit__")
            if m:
                self.call(Bound(m, v), [None, None, None], {})

    def exc_match(self, exc, t):
        if t is None:
            return True
        if isinstance(t, tuple):
            r = False
            for x in t:
                k = self.exc_match(exc, x)
                if k:
                    return True
                if k is None:
                    r = None
            return r
        if isinstance(t, ListV):
            return "typeerror"
        if not isinstance(t, (Ext, Cls)):
            return "typeerror"
        want = exc_name(t)
        c = exc.cls
        chain = []
        if isinstance(c, Cls):
            for k in self.mro(c):
                chain.append(exc_name(k))
        else:
            n = exc_name(c)
            while n is not None:
                chain.append(n)
                n = EXC_PARENT.get(n)
            if chain and chain[-1] not in ("BaseException",):
                chain += ["Exception", "BaseException"]
        return want in chain

    def x_Try(self, s):
        sink = self.raise_sink
        self.raise_sink = []
        alive = []
        try:
            try:
                self.exec_block(s.body)
                raised = self.raise_sink
                self.raise_sink = sink
                if s.orelse:
                    self.exec_block(s.orelse)
                alive.append((self.st, None))
            except Dead:
                raised = self.raise_sink if self.raise_sink is not sink else raised
        finally:
            self.raise_sink = sink
        if s.finalbody:
            # returns inside body: the finally block is analysed on the fall-through paths only
            pass
        for st, exc, loc in raised:
            handled = False
            for h in s.handlers:
                self.st = st
                if h.type is None:
                    m = True
                else:
                    try:
                        t = self.ev(h.type)
                    except Dead:
                        handled = True
                        break
                    m = self.exc_match(exc, t)
                if m == "typeerror":
                    self.event("crash", "TypeError: catching classes that do not inherit from BaseException")
                    try:
                        self.do_raise(Exc(Ext("builtins.TypeError")))
                    except Dead:
                        pass
                    handled = True
                    break
                if m:
                    handled = True
                    try:
                        old = getattr(self, "handling", None)
                        self.handling = exc
                        try:
                            if h.name:
                                self.store_name(h.name, exc)
                            self.exec_block(h.body)
                        finally:
                            self.handling = old
                        alive.append((self.st, None))
                    except Dead:
                        pass
                    break
            if not handled:
                sink.append((st, exc, loc))
        if not alive:
            raise Dead()
        self.merge_states(alive)
        if s.finalbody:
            self.exec_block(s.finalbody)

    x_TryStar = x_Try

    # ------------------------------------------------------------ definitions
    def x_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v)
        self.store_name(s.name, v)

    def x_AsyncFunctionDef(self, s):
        self.store_name(s.name, self.top("async function"))

    def make_func(self, node, name):
        fr = self.frame()
        a = node.args
        scale, tm.RESCALE = tm.RESCALE, {}
        defaults = [self.ev(d) for d in a.defaults]
        tm.RESCALE = scale
        kwd = [self.ev(d) if d is not None else UNDEF for d in a.kw_defaults]
        clos = fr.closure if fr.func is None or fr.cls is not None else (fr.eid, fr.closure)
        if fr.func is not None and fr.cls is None:
            clos = (fr.eid, fr.closure)
        q = (fr.func.qual + "." if fr.func else fr.mod.name + ".") + name if fr.cls is None else fr.cls + "." + name
        f = Func(node, fr.mod, clos, name, q, defaults, kwd)
        f.uid = self.new_id()
        self.st.heap[f.uid] = {}
        return f

    def decorate(self, d, v):
        if isinstance(d, Ext):
            p = d.path
            leaf = p.split(".")[-1]
            if leaf in ("staticmethod", "classmethod", "property"):
                if isinstance(v, Func):
                    v.deco = v.deco + (leaf,)
                return v
            if p in ("functools.lru_cache", "functools.cache"):
                if isinstance(v, Func):
                    v.deco = v.deco + ("memo",)
                return v
            if p in ("torch.no_grad", "torch.inference_mode"):
                if isinstance(v, Func):
                    v.deco = v.deco + ("nograd",)
                return v
            if leaf in ("dataclass",):
                if isinstance(v, Cls):
                    v.kind = "dataclass"
                return v
            if leaf in ("wraps", "script", "ignore", "unused", "overload", "final", "total_ordering", "abstractmethod", "export"):
                return v
            return self.top("decorator %s" % p)
        if isinstance(d, Partial) and isinstance(d.f, Ext):
            return self.decorate(d.f, v)
        if isinstance(d, Ctxm):
            if isinstance(v, Func) and d.kind == "nograd":
                v.deco = v.deco + ("nograd",)
            return v
        if isinstance(d, ExtM) and d.name == "setter":
            return v
        if isinstance(d, (Func, Bound, Cls)):
            return self.call(d, [v], {})
        if isinstance(d, Top):
            return d
        return self.top("decorator")

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.frame()
        eid = self.alloc({})
        q = fr.mod.name + "." + s.name
        f2 = Frame(eid, fr.mod, fr.func, fr.closure if fr.func is None else (fr.eid, fr.closure))
        f2.cls = q
        self.frames.append(f2)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        c = Cls(s.name, q, fr.mod, eid, bases, s)
        for n, v in self.st.heap[eid].items():
            if isinstance(v, Func):
                v.cls = c
        for b in bases:
            if isinstance(b, Ext) and b.path.split(".")[-1] == "NamedTuple":
                c.kind = "namedtuple"
                c.fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v)
        if c.kind == "dataclass":
            c.fields = [(x.target.id, x.value is not None) for x in s.body if isinstance(x, ast.AnnAssign)]
        self.store_name(s.name, v)

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                out += [x for x in self.mro(b) if x not in out]
            elif isinstance(b, Ext):
                n = exc_name(b)
                while n is not None:
                    out.append(Ext("builtins." + n))
                    n = EXC_PARENT.get(n)
        return out

    def find_method(self, c, name):
        m = self.find_attr(c, name)
        return None if m is UNDEF else m

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls):
                v = self.st.heap.get(k.env, {}).get(name, UNDEF)
                if v is not UNDEF:
                    return v
        return UNDEF

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.ev(s.iter)
        self.for_over(it, s)

    def for_over(self, it, s):
        if isinstance(it, PhiV):
            return self.split(it, lambda x: self.for_over(x, s))
        items = self.concrete_items(it)
        if items is not None:
            return self.concrete_loop(items, s)
        sy = self.sym_iter(it)
        if sy is None:
            self.top("iteration over %s" % type(it).__name__)
            return self.havoc_loop(s)
        ivars, val, trip = sy
        if self.env.unroll and len(ivars) == 1 and isinstance(s, ast.For):
            def head(n):
                return step(trip - 1 - n), self.subst_val(val, {ivars[0]: const(n)})
            return self.unrolled(s, head)
        self.sym_loop(ivars, trip, s.target, val, s.body, s.orelse)

    def concrete_loop(self, items, s):
        fr = self.frame()
        done = []
        alive = True
        sb, fr.breaks = fr.breaks, []
        sc, fr.conts = fr.conts, []
        try:
            for x in items:
                fr.conts = []
                end = []
                try:
                    self.assign(s.target, x)
                    self.exec_block(s.body)
                    end.append((self.st, None))
                except Dead:
                    pass
                end += [(c, None) for c in fr.conts]
                if not end:
                    alive = False
                    break
                self.merge_states(end)
            brk = fr.breaks
        finally:
            fr.breaks, fr.conts = sb, sc
        res = []
        if alive:
            try:
                if s.orelse:
                    self.exec_block(s.orelse)
                res.append((self.st, None))
            except Dead:
                pass
        res += [(b, None) for b in brk]
        if not res:
            raise Dead()
        self.merge_states(res)

    def sym_iter(self, it):
        """-> (list of ivars, value, total trip) for a symbolic iterable"""
        if isinstance(it, RangeV):
            lo, hi = to_poly(it.lo), to_poly(it.hi)
            stp = as_int(to_poly(it.step)) if to_poly(it.step) is not None else None
            if lo is None or hi is None or stp in (None, 0):
                return None
            n = hi - lo if stp > 0 else lo - hi
            if abs(stp) != 1:
                n = mk_fdiv(n + (abs(stp) - 1), abs(stp))
            if not nonneg(n):
                n = mk_max([n, ZERO])
            e = ivar(n)
            return [e], num(lo + atom1(e) * stp, "int"), n
        if isinstance(it, NdIndexV):
            ds = []
            for d in it.dims:
                p = to_poly(d)
                if p is None:
                    return None
                ds.append(p)
            vs = [ivar(d) for d in ds]
            t = ONE
            for d in ds:
                t = t * d
            return vs, tuple(num(atom1(v), "int") for v in vs), t
        if isinstance(it, ArrV) and it.ndim >= 1:
            n = ax_size(it.axes[0])
            e = ivar(n)
            return [e], self.getitem(it, (Num(atom1(e), "int"),)), n
        if isinstance(it, ListV):
            c = self.st.heap[it.hid]
            if isinstance(c, SymItems):
                vs = [ivar(v.args[0]) for v in c.vars]
                return vs, self.subst_val(c.elem, dict(zip(c.vars, [atom1(v) for v in vs]))), c.size
            return None
        if isinstance(it, IterV):
            if it.kind == "enumerate":
                r = self.sym_iter(it.parts[0])
                if r is None:
                    return None
                st = it.parts[1] if len(it.parts) > 1 else 0
                k = flat_index(tuple(r[0])) + to_poly(st)
                return r[0], (num(k, "int"), r[1]), r[2]
            if it.kind == "zip":
                rs = []
                for p in it.parts:
                    q = self.sym_iter(p)
                    if q is None or len(q[0]) != 1:
                        return None
                    rs.append(q)
                n = rs[0][2]
                for q in rs[1:]:
                    if q[2] is not n:
                        n = mk_min([n, q[2]])
                e = ivar(n)
                vals = tuple(self.subst_val(q[1], {q[0][0]: atom1(e)}) for q in rs)
                return [e], vals, n
            if it.kind == "reversed":
                r = self.sym_iter(it.parts[0])
                if r is None or len(r[0]) != 1:
                    return None
                e = ivar(r[2])
                return [e], self.subst_val(r[1], {r[0][0]: r[2] - 1 - atom1(e)}), r[2]
            if it.kind == "product":
                rs = [self.sym_iter(p) for p in it.parts]
                if any(r is None for r in rs):
                    rs2 = []
                    for p, r in zip(it.parts, rs):
                        if r is None:
                            return None
                t = ONE
                for r in rs:
                    t = t * r[2]
                return [v for r in rs for v in r[0]], tuple(r[1] for r in rs), t
            if it.kind == "list":
                return self.sym_iter(it.parts[0])
        return None

    # ---- placeholders
    def placeholder(self, v, slots, attrs):
        """value standing for the state at the start of an iteration"""
        if isinstance(v, bool) or (isinstance(v, Num) and v.kind == "bool"):
            sl = loops.new_slot()
            slots.append((sl, (), to_poly(v)))
            return Num(loops.state_acc(sl, ()), "bool")
        if kind_of(v) in ("int", "float"):
            sl = loops.new_slot()
            slots.append((sl, (), to_poly(v)))
            return Num(loops.state_acc(sl, ()), attrs.get("kind", kind_of(v)))
        if isinstance(v, ArrV) and v.sid is not None:
            axes, body = self.refresh(v)
            vs = [x for ax in axes for x in ax]
            sl = loops.new_slot()
            slots.append((sl, tuple(vs), body))
            r = self.fresh(axes, loops.state_acc(sl, [atom1(x) for x in vs]), attrs.get("dtype", v.dtype), v.dev,
                           v.grad or attrs.get("grad", False), v.taint | attrs.get("taint", frozenset()), v.be, v.scalar)
            s = self.st.heap.get(v.sid)
            if s is not None and s.origin:
                self.st.heap[r.sid] = self.st.heap[r.sid].repl(origin=s.origin)
            return r
        if isinstance(v, tuple):
            return tuple(self.placeholder(x, slots, attrs) for x in v)
        return v

    def has_undef(self, v):
        return v is UNDEF or isinstance(v, PhiV) and (self.has_undef(v.a) or self.has_undef(v.b))

    def drop_undef(self, v):
        if isinstance(v, PhiV):
            a, b = self.drop_undef(v.a), self.drop_undef(v.b)
            if a is UNDEF or b is UNDEF:
                return b if a is UNDEF else a
            return self.phi(v.cond, a, b)
        return v

    def post_polys(self, ph, v, sv):
        """polys of the value v at the end of the iteration matched to placeholder ph;
        list aligned with the slots of ph, or None"""
        if isinstance(ph, Num):
            p = to_poly(v)
            if p is None and isinstance(v, ArrV) and v.ndim == 0:
                p = self.body(v)
            return None if p is None else [((), p)]
        if isinstance(ph, ArrV):
            if isinstance(v, Num) or isinstance(v, (int, float)):
                if ph.ndim == 0:
                    return [((), to_poly(v))]
                return None
            if not isinstance(v, ArrV) or v.ndim != ph.ndim:
                return None
            for x, y in zip(ph.axes, v.axes):
                if ax_size(x) is not ax_size(y):
                    return None
            axes, body = self.refresh(v)
            # express in the variables of ph
            out = {}
            for x, y in zip(ph.axes, axes):
                if len(x) == len(y):
                    for a, b in zip(y, x):
                        out[a] = atom1(b)
                else:
                    out.update(unflatten(y, flat_index(x)))
            return [(tuple(z for ax in ph.axes for z in ax), subst(body, out))]
        if isinstance(ph, tuple):
            if not isinstance(v, tuple) or len(v) != len(ph):
                return None
            r = []
            for a, b in zip(ph, v):
                q = self.post_polys(a, b, sv)
                if q is None:
                    return None
                r += q
            return r
        return []

    def n_slots(self, ph):
        if isinstance(ph, (Num, ArrV)):
            return 1
        if isinstance(ph, tuple):
            return sum(self.n_slots(x) for x in ph)
        return 0

    def sym_loop(self, ivars, trip, target, val, body, orelse, cond=None):
        if as_int(trip) == 0:
            if orelse:
                self.exec_block(orelse)
            return
        attrs = {}
        s0 = self.st
        for attempt in range(4):
            self.st = s0.fork()
            r = self.sym_loop_once(ivars, trip, target, val, body, attrs, s0, cond)
            if r != "again":
                break
        else:
            self.st = s0
            self.top("loop attributes do not stabilise")
            self.havoc_changed(r_changed=None)
        if orelse:
            self.exec_block(orelse)

    def trial_run(self, target, val, body):
        """execute the body once to see what it changes"""
        fr = self.frame()
        saved = (len(self.events), fr.returns, fr.breaks, fr.conts, self.raise_sink, self.trial)
        fr.returns, fr.breaks, fr.conts, self.raise_sink = [], [], [], []
        self.trial += 1
        ends = []
        nev = len(self.events)
        # arrays the body rebinds: their initial value does not matter for what changes
        stored, inpl = set(), set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stored.add(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    inpl.add(n.target.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    m = n.value
                    while isinstance(m, (ast.Subscript, ast.Attribute)):
                        m = m.value
                    if isinstance(m, ast.Name):
                        inpl.add(m.id)
        s0env = self.st.heap[fr.eid]
        env = dict(s0env)
        phs = {}
        for n in stored - inpl:
            v = env.get(n, UNDEF)
            if isinstance(v, ArrV) and v.sid is not None:
                phs[n] = env[n] = self.placeholder(v, [], {})
        self.st.heap[fr.eid] = env
        try:
            try:
                if target is not None:
                    self.assign(target, val)
                self.exec_block(body)
                ends.append((self.st, None))
            except Dead:
                pass
            ends += [(c, None) for c in fr.conts]
            ends += [(c, None) for c in fr.breaks]
            ends += [(c, None) for c, v in fr.returns]
        finally:
            del self.events[nev:]
            _, fr.returns, fr.breaks, fr.conts, self.raise_sink, self.trial = saved
        if not ends:
            return None
        self.merge_states(ends)
        e = dict(self.st.heap[fr.eid])
        for n, ph in phs.items():
            if e.get(n) is ph:
                e[n] = s0env[n]
        self.st.heap[fr.eid] = e
        return self.st

    def changed_keys(self, s0, s1):
        names, stores, other = [], [], []
        for k, x in s0.heap.items():
            y = s1.heap.get(k)
            if y is x or y is None:
                continue
            if isinstance(x, Storage):
                if x._b is not y._b and x.body is not y.body:
                    stores.append(k)
            elif isinstance(x, dict):
                for n in y:
                    if n not in x or x[n] is not y[n]:
                        names.append((k, n))
            else:
                other.append(k)
        return names, stores, other

    def sym_loop_once(self, ivars, trip, target, val, body, attrs, s0, cond):
        fr = self.frame()
        t = self.st
        s1 = self.trial_run(target, val, body)
        if s1 is None:
            # every path leaves the loop in the first iteration
            self.st = s0
            fr_b, fr.breaks = fr.breaks, []
            try:
                self.assign(target, val) if target is not None else None
                self.exec_block(body)
            finally:
                fr.breaks = fr_b
            return
        names, stores, other = self.changed_keys(s0, s1)
        self.st = s0.fork()
        base = self.st
        carried = []            # (kind, key, placeholder, [slots])
        allslots = []
        tnames = set()
        if target is not None:
            for n in ast.walk(target):
                if isinstance(n, ast.Name):
                    tnames.add(n.id)
        env_upd = {}
        for (k, n) in names:
            pre = s0.heap[k].get(n, UNDEF)
            if k == fr.eid and n in tnames:
                continue
            sl = []
            if isinstance(pre, PhiV):
                continue
            if pre is UNDEF and attrs.get((k, n), {}).get("maybe"):
                # read before it is bound on some path: the value of the previous iteration
                v1 = self.drop_undef(s1.heap[k].get(n, UNDEF))
                for z in (v1 if isinstance(v1, tuple) else (v1,)):
                    if isinstance(z, ArrV) and z.sid in s1.heap:
                        self.st.heap.setdefault(z.sid, s1.heap[z.sid])
                ph = self.placeholder(v1, sl, attrs.get((k, n), {})) if isinstance(v1, (ArrV, Num, int, float, bool, tuple)) else UNDEF
                sl[:] = [(a_, b_, unk("no previous iteration") if c_.cplx else ZERO) for a_, b_, c_ in sl]
                if sl:
                    carried.append(("name", (k, n), ph, sl, pre))
                    env_upd.setdefault(k, {})[n] = PhiV(gt0(flat_index(tuple(ivars))), ph, UNDEF)
                continue
            ph = self.placeholder(pre, sl, attrs.get((k, n), {})) if pre is not UNDEF else UNDEF
            if sl:
                carried.append(("name", (k, n), ph, sl, pre))
                env_upd.setdefault(k, {})[n] = ph
        for k in stores:
            st_ = s0.heap[k]
            sl = loops.new_slot()
            vs = [ivar(v.args[0]) for v in st_.vars]
            init = subst(st_.body, dict(zip(st_.vars, [atom1(v) for v in vs])))
            carried.append(("store", k, vs, [(sl, tuple(vs), init)], st_))
            self.st.heap[k] = st_.repl(body=loops.state_acc(sl, [atom1(v) for v in st_.vars]))
        # a name bound to an array whose storage is also written in place: the in-place write
        # acts on the placeholder's own storage, which the name carries
        for k, d in env_upd.items():
            e = dict(self.st.heap[k])
            e.update(d)
            self.st.heap[k] = e
        lists = {k: s0.heap[k] for k in other if isinstance(s0.heap[k], list)}
        start = self.st
        start_pc = start.pc
        self.st = start.fork()
        sb, fr.breaks = fr.breaks, []
        sc, fr.conts = fr.conts, []
        sr, fr.returns = fr.returns, []
        sink, self.raise_sink = self.raise_sink, []
        brk_cond = ZERO
        ends = []
        nev = len(self.events)
        ub, self.unbound = self.unbound, set()
        try:
            try:
                if cond is not None:
                    c = self.truth_poly(self.ev(cond))
                    self.event("loopexit", "the loop is left early", cond=c)
                if target is not None:
                    self.assign(target, val)
                self.exec_block(body)
                ends.append((self.st, None))
            except Dead:
                pass
            ends += [(c_, None) for c_ in fr.conts]
            brks = fr.breaks
            rets = fr.returns
            raised = self.raise_sink
        finally:
            fr.breaks, fr.conts, fr.returns = sb, sc, sr
            self.raise_sink = sink
            missed, self.unbound = self.unbound, ub
        once = False
        for key in missed:
            if key in names and s0.heap[key[0]].get(key[1], UNDEF) is UNDEF and not attrs.get(key, {}).get("maybe"):
                attrs.setdefault(key, {})["maybe"] = once = True
        if once:
            del self.events[nev:]
            return "again"
        np_ = len(start_pc)
        for st_, e, l in raised:
            rp = pc_poly(st_.pc[np_:])
            rp2 = self.close_states(rp, carried)
            q = s0.fork(mk_any(ivars, rp2) if rp2 is not ONE else ONE)
            self.raise_sink.append((q, e, l))
        alln = ends + [(b, None) for b in brks] + [(b, None) for b, v in rets]
        if not alln:
            raise Dead()
        dslot = None
        if brks or rets:
            bc = ZERO
            for b in brks:
                bc = bor(bc, pc_poly(b.pc[np_:]))
            for b, v in rets:
                bc = bor(bc, pc_poly(b.pc[np_:]))
            dslot = loops.new_slot()
            brk_cond = bc
            self.event("loopexit", "the loop is left early", cond=bc)
        st_end, _ = self.merge_states(alln)
        st_end.pc = start_pc
        self.st = st_end
        # attribute stability
        again = False
        for kind, key, ph, sl, pre in carried:
            if kind != "name":
                continue
            v = self.st.heap[key[0]].get(key[1], UNDEF)
            a = attrs.setdefault(key, {})
            if isinstance(ph, ArrV) and isinstance(v, ArrV):
                v = self.eff(v)
                if v.dtype != ph.dtype:
                    a["dtype"] = (pt_promote2 if ph.be == "pt" else np_promote2)(v.dtype, ph.dtype)
                    if a["dtype"] != ph.dtype:
                        again = True
                if (v.grad and not ph.grad) or (v.taint - ph.taint):
                    a["grad"] = v.grad or ph.grad
                    a["taint"] = v.taint | ph.taint
                    again = True
            elif isinstance(ph, Num) and kind_of(v) and kind_of(v) != ph.kind and ph.kind == "int" and kind_of(v) == "float":
                a["kind"] = "float"
                again = True
        if again:
            del self.events[nev:]
            return "again"
        # collect states
        states = []
        finals = []
        failed = []
        E = flat_index(tuple(ivars))
        epoch = ivars[0] if len(ivars) == 1 else ivar(trip)
        for kind, key, ph, sl, pre in carried:
            if kind == "name":
                v = self.drop_undef(self.st.heap[key[0]].get(key[1], UNDEF))
                pp = self.post_polys(ph, v, None) if not isinstance(v, PhiV) else None
                if pp is None or len(pp) != len(sl):
                    failed.append((kind, key, ph, sl, pre))
                    for s_, vs, init in sl:
                        states.append(loops.St(s_, vs, init, unk("carried value", init.cplx)))
                    continue
                for (s_, vs, init), (vs2, p) in zip(sl, pp):
                    p = subst(p, dict(zip(vs2, [atom1(x) for x in vs]))) if tuple(vs2) != tuple(vs) else p
                    states.append(loops.St(s_, vs, init, p))
            else:
                st_ = self.st.heap[key]
                s_, vs, init = sl[0]
                p = subst(st_.body, dict(zip(st_.vars, [atom1(x) for x in vs])))
                states.append(loops.St(s_, vs, init, p))
        if dslot is not None:
            dn = loops.state_acc(dslot, ())
            for x in states:
                own = loops.state_acc(x.slot, [atom1(v) for v in x.vars])
                try:
                    x.step = x.step + pmul(dn, own - x.step)
                except Blowup:
                    x.step = unk("loop exit")
            states.append(loops.St(dslot, (), ZERO, dn + pmul(ONE - dn, brk_cond)))
        slotset = frozenset(x.slot for x in states)
        by = {x.slot: x for x in states}
        # forall writes
        final_poly = {}
        forall = {}
        if dslot is None:
            for x in states:
                g = self.forall_write(x, ivars, slotset)
                if g is not None:
                    forall[x.slot] = g
        # multi dimensional epoch -> single epoch
        if len(ivars) > 1:
            sub = unflatten(tuple(ivars), atom1(epoch))
            sts = [loops.St(x.slot, x.vars, x.init, subst(x.step, sub) if x.slot not in forall else x.step) for x in states]
        else:
            sts = states
        # states whose forall form does not depend on other states leave the system
        core = [x for x in sts if x.slot not in forall]
        usedcore = set()
        for x in core:
            usedcore |= set(x.step.states & slotset)
        for sl_ in list(forall):
            if sl_ in usedcore:      # read by the recurrence: keep it as a state too
                x = by[sl_]
                sub = unflatten(tuple(ivars), atom1(epoch)) if len(ivars) > 1 else {}
                core.append(loops.St(x.slot, x.vars, x.init, subst(x.step, sub)))
        hint = frozenset(x.slot for x in core)

        def prefix_value(p, n_it):
            """replace state accesses by the loop value after n_it iterations"""
            return loops.replace_states(p, lambda sl_, ix: loops.mk_loop(core, epoch, n_it, sl_, ix) if sl_ in hint
                                        else unk("state"), slotset)

        def final(sl_, vs):
            if sl_ in forall:
                p, solved = forall[sl_]
                x = by[sl_]
                if p.states & slotset:
                    # value written at iteration e sees the states after e iterations
                    n_it = subst(E, solved)
                    p = prefix_value(p, n_it)
                return subst(p, dict(zip(x.vars, vs)))
            try:
                return loops.mk_loop(core, epoch, trip, sl_, list(vs))
            except Blowup:
                return unk("loop too large")
        # write back
        out = self.st
        out.pc = s0.pc
        lastsub = unflatten(tuple(ivars), trip - 1)
        res_env = {}

        def last(p):
            """value of a temporary after the last iteration"""
            p = prefix_value(p, trip - 1) if p.states & slotset else p
            return subst(p, lastsub)
        base_heap = dict(s0.heap)
        for k, y in out.heap.items():
            if k not in base_heap:
                # objects created by the last iteration
                if isinstance(y, Storage):
                    y = y.repl(body=Lazy(lambda y=y: last(y.body)))
                base_heap[k] = y
        self.st = State(base_heap, s0.pc, s0.nograd, out.sattr)
        positive_ = nonneg(trip - 1)
        pos = gt0(trip)
        for kind, key, ph, sl, pre in carried:
            if kind == "store":
                s_, vs, init = sl[0]
                stv = s0.heap[key].vars
                nb = Lazy(lambda s_=s_, stv=stv: final(s_, [atom1(v) for v in stv]))
                o = out.heap[key]
                self.st.heap[key] = Storage(stv, nb, o.origin, o.saved, o.req, o.writes)
        for (k, n) in names:
            post = out.heap[k].get(n, UNDEF)
            c = [x for x in carried if x[0] == "name" and x[1] == (k, n)]
            if c:
                kind, key, ph, sl, pre = c[0]
                v = self.rebuild_val(ph, iter(sl), final, pre, post)
            elif k == fr.eid and n in tnames:
                v = self.last_val(post, lastsub, last)
                pre = s0.heap[k].get(n, UNDEF)
                if not positive_ and pre is not UNDEF:
                    v = self.phi(pos, v, pre)
            else:
                pre = s0.heap[k].get(n, UNDEF)
                v = self.last_val(post, lastsub, last)
                if not positive_ and pre is not UNDEF:
                    v = self.phi(pos, v, pre)
            d = dict(self.st.heap[k])
            d[n] = v
            self.st.heap[k] = d
        for k in other:
            x, y = s0.heap[k], out.heap.get(k)
            if isinstance(x, list) and isinstance(y, list) and len(y) == len(x) + 1 and all(a is b for a, b in zip(x, y)):
                elem = self.close_val(y[-1], prefix_value, E, slotset)
                if not x:
                    self.st.heap[k] = SymItems(tuple(ivars), elem, trip)
                else:
                    self.st.heap[k] = self.top("list grown in a loop")
            else:
                self.st.heap[k] = self.top("object changed in a loop")
        if rets:
            vals = [v for b, v in rets]
            same = all(v is vals[0] for v in vals)
            rv = vals[0] if same and not isinstance(vals[0], (ArrV, Num)) else self.top("return inside a loop")
            dfin = final(dslot, ())
            q = self.st.fork(dfin)
            fr.returns.append((q, rv))
            self.st.pc = self.st.pc + (ONE - dfin,)
        for e in self.events[nev:]:
            e["pc"] = self.close_states(e["pc"], carried, slotset)
        return None

    def close_states(self, p, carried, slots=None):
        if slots is None:
            slots = frozenset(s[0] for c in carried for s in c[3])
        if p.states & slots:
            return ONE if as_const(p) is None else p
        return p

    def close_val(self, v, prefix_value, E, slotset):
        if isinstance(v, Num):
            return num(prefix_value(v.p, E), v.kind) if v.p.states & slotset else v
        if isinstance(v, ArrV) and v.sid is not None:
            b = self.body(v)
            if b.states & slotset:
                b = prefix_value(b, E)
            return self.copy_of(v, axes=v.axes, body=b)
        if isinstance(v, tuple):
            return tuple(self.close_val(x, prefix_value, E, slotset) for x in v)
        return v

    def last_val(self, v, lastsub, last):
        if isinstance(v, Num):
            return num(last(v.p), v.kind)
        if isinstance(v, ArrV):
            if v.sid is None:
                return v
            # storages were already updated with last(); update the view maps
            return v.copy(idx=tuple(last(i) for i in v.idx))
        if isinstance(v, tuple):
            return tuple(self.last_val(x, lastsub, last) for x in v)
        if isinstance(v, PhiV):
            return PhiV(last(v.cond), self.last_val(v.a, lastsub, last), self.last_val(v.b, lastsub, last))
        return v

    def rebuild_val(self, ph, it, final, pre, post):
        if isinstance(ph, Num):
            s_, vs, init = next(it)
            return num(final(s_, ()), ph.kind)
        if isinstance(ph, ArrV):
            s_, vs, init = next(it)
            body = Lazy(lambda: final(s_, [atom1(v) for v in vs]))
            dt, grad, taint, dev = ph.dtype, ph.grad, ph.taint, ph.dev
            if isinstance(post, ArrV):
                taint = taint | post.taint
                grad = grad or post.grad
            r = self.fresh(ph.axes, body, dt, dev, grad, taint, ph.be, ph.scalar)
            s = self.st.heap.get(pre.sid) if isinstance(pre, ArrV) else None
            return r
        if isinstance(ph, tuple):
            ps = pre if isinstance(pre, tuple) else (None,) * len(ph)
            po = post if isinstance(post, tuple) and len(post) == len(ph) else (None,) * len(ph)
            return tuple(self.rebuild_val(x, it, final, a, b) for x, a, b in zip(ph, ps, po))
        return ph

    def forall_write(self, x, ivars, slotset):
        """state written only at the cell indexed by the iteration: (value, {ivar: index})"""
        own = loops.state_acc(x.slot, [atom1(v) for v in x.vars])
        X = x.step - own
        if not X.terms:
            return None
        for a in loops.state_atoms(x.step, frozenset([x.slot])):
            if atom1(a) is not own:
                return None
        sub = {}
        used = set()
        for e in ivars:
            hit = None
            for v in x.vars:
                if v in used:
                    continue
                q = atom1(v) - atom1(e)
                # candidate offsets: the write index may be v - c == e
                cands = set()
                for m, c in X.terms:
                    for a, k in m:
                        if a.op == "U" and e in a.fv and v in a.fv:
                            d = a.args[0] - q
                            d2 = a.args[0] + q
                            for w in (d, d2):
                                if e not in w.fv and v not in w.fv and as_const(w) is not None:
                                    cands.add((w is d, as_const(w)))
                if not cands:
                    continue
                # delta(v - e - off): U(v-e-off) - U(v-e-off-1)
                for plus, c in sorted(cands, key=str):
                    off = -c if plus else None
                    offs = [off, off - 1] if plus else [c, c + 1, c - 1]
                    for off in offs:
                        d = q - off
                        if self._vanishes_outside(X, d):
                            hit = (v, atom1(v) - off)
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit is None:
                return None
            used.add(hit[0])
            sub[e] = hit[1]
        p = subst(loops.replace_states(x.step, lambda sl, ix: subst(x.init, dict(zip(x.vars, ix))), frozenset([x.slot])), sub)
        # cells never hit keep the initial value
        for e in ivars:
            n = e.args[0]
            ix = sub[e]
            inr = pmul(step(ix), ONE - step(ix - n))
            if inr is not ONE:
                p = x.init + pmul(inr, p - x.init)
        return p, sub

    def _vanishes_outside(self, X, d):
        """X == 0 when d > 0 and when d < 0 (d integer)"""
        u0, u1 = atom_of_step(d), atom_of_step(d - 1)
        for lo in (True, False):
            # d > 0: [d>=0]=1, [d-1>=0]=1 ;  d < 0: both 0
            sub = {}
            for (a, neg), valpos in ((u0, 1), (u1, 1)):
                if a is None:
                    return False
                val = valpos if lo else 0
                sub[a] = (1 - val) if neg else val
            tot = {}
            for m, c in X.terms:
                z = False
                mm = []
                for a, k in m:
                    if a in sub:
                        if sub[a] == 0:
                            z = True
                            break
                    else:
                        mm.append((a, k))
                if z:
                    continue
                mm = tuple(mm)
                tot[mm] = tot.get(mm, 0) + c
            if any(c != 0 for c in tot.values()):
                return False
        return True

    def abbreviate(self, most=6):
        """large contents of arrays and variables become named terms"""
        h = self.st.heap
        for k, x in list(h.items()):
            if isinstance(x, Storage):
                if not isinstance(x._b, Lazy) and len(x._b.terms) > most and not x._b.unk:
                    h[k] = x.repl(_b=tm.mk_def(x._b))
            elif isinstance(x, dict) and k == self.frame().eid:
                d = None
                for n, v in x.items():
                    if isinstance(v, Num) and len(v.p.terms) > most and not v.p.unk:
                        d = dict(x) if d is None else d
                        d[n] = num(tm.mk_def(v.p), v.kind)
                if d is not None:
                    h[k] = d
        self.st.pc = tuple(tm.mk_def(c) if len(c.terms) > most else c for c in self.st.pc)

    def unrolled(self, s, head=None):
        """up to env.unroll passes through the loop, in path form; the rest is cut off"""
        fr = self.frame()
        exits, done = [], []
        sb, fr.breaks = fr.breaks, []
        sc, fr.conts = fr.conts, []
        try:
            most = self.env.unroll if head is None else self.env.unroll_for
            for n in range(most + 1):
                if head is None:
                    c, x = self.truth(self.ev(s.test)), None
                else:
                    c, x = head(n)
                if not isinstance(c, bool):
                    k = as_const(c)
                    c = bool(k) if k is not None else c
                if not isinstance(c, bool):
                    d = self.decided(c)
                    c = c if d is None else d
                if c is not True:
                    done.append((self.st if c is False else self.st.fork(ONE - c), None))
                    if c is False:
                        break
                    self.st = self.st.fork(c)
                if n == most:
                    self.env.cut.append(pc_poly(self.st.pc))
                    break
                fr.conts, end = [], []
                try:
                    if x is not None:
                        self.assign(s.target, x)
                    self.exec_block(s.body)
                    end.append((self.st, None))
                except Dead:
                    pass
                end += [(c_, None) for c_ in fr.conts]
                if not end:
                    break
                self.merge_states(end)
                self.abbreviate()
            exits = [(b, None) for b in fr.breaks]
        finally:
            fr.breaks, fr.conts = sb, sc
        if done:
            self.merge_states(done)
            try:
                self.exec_block(s.orelse)
                exits.append((self.st, None))
            except Dead:
                pass
        if not exits:
            raise Dead()
        self.merge_states(exits)

    def x_While(self, s):
        if self.env.unroll:
            return self.unrolled(s)
        # constant condition loops
        fr = self.frame()
        n = 0
        while n < UNROLL:
            s_try = self.st.fork()
            mark = (len(self.events), len(self.raise_sink))
            c = self.truth(self.ev(s.test))
            if c is False:
                self.exec_block(s.orelse)
                return
            if c is True and not self.const_while(s):
                break
            if c is not True:
                break
            n += 1
            sb, fr.breaks = fr.breaks, []
            sc, fr.conts = fr.conts, []
            end = []
            try:
                try:
                    self.exec_block(s.body)
                    end.append((self.st, None))
                except Dead:
                    pass
                end += [(x, None) for x in fr.conts]
                brk = fr.breaks
            finally:
                fr.breaks, fr.conts = sb, sc
            if brk and end:
                # data dependent break: give up on unrolling
                self.event("loopexit", "the loop is left early", cond=unk("exit"))
                self.merge_states(end + [(b, None) for b in brk])
                self.top("while loop with data dependent exit")
                return self.havoc_loop(s)
            if not end:
                if brk:
                    self.merge_states([(b, None) for b in brk])
                    return
                raise Dead()
            self.merge_states(end)
        self.sym_while(s)

    def const_while(self, s):
        """the condition does not depend on values changed symbolically: `while True` is not unrolled"""
        return not isinstance(s.test, ast.Constant)

    def sym_while(self, s):
        """while loop with an induction variable bound, doubling, or an opaque exit"""
        s0 = self.st
        names, pre = self.while_probe(s)
        if names is not None:
            # counter pattern
            for (k, n), (ph, slot, prev, post) in names.items():
                if post is None:
                    continue
                d = post - atom1_state(slot)
                step_ = as_int(d)
                self.st = s0.fork()
                env = dict(self.st.heap[k])
                env[n] = ph
                self.st.heap[k] = env
                try:
                    c = self.truth(self.ev(s.test))
                except Dead:
                    self.st = s0
                    continue
                self.st = s0
                if isinstance(c, bool):
                    continue
                a = atom1_state(slot)
                if step_ in (1, -1) and prev is not None:
                    # c == [bound - k - 1 >= 0]
                    e = ivar(sym("?"), ("probe",))
                    cc = loops.replace_states(c, lambda sl, ix: atom1(e), frozenset([slot]))
                    at = None
                    neg = False
                    if as_atom(cc) is not None and as_atom(cc).op == "U":
                        at = as_atom(cc).args[0]
                    elif as_atom(ONE - cc) is not None and as_atom(ONE - cc).op == "U":
                        at = -as_atom(ONE - cc).args[0] - 1
                    elif as_atom(cc) is not None and as_atom(cc).op == "pos":
                        at = as_atom(cc).args[0] - 1
                    if at is None:
                        continue
                    cr = tm._coef_of(at, e)
                    if cr is None or as_int(cr[0]) != -step_:
                        continue
                    # iterations while (rest - step*k) >= 0 -> k < rest+1
                    bound = cr[1] + 1
                    trip = bound - prev if step_ == 1 else prev + bound
                    if any(loops.state_atoms(bound, frozenset([slot]))):
                        continue
                    if not nonneg(trip):
                        trip = mk_max([trip, ZERO])
                    ev = ivar(trip)
                    self.sym_loop([ev], trip, None, None, s.body, s.orelse)
                    return
                if post is a * 2 and prev is not None and as_int(prev) is not None and as_int(prev) > 0:
                    p0 = as_int(prev)
                    if p0 & (p0 - 1) == 0 and len(names) == 1 and not pre:
                        e = ivar(sym("?"), ("probe",))
                        cc = loops.replace_states(c, lambda sl, ix: atom1(e), frozenset([slot]))
                        at = None
                        if as_atom(cc) is not None and as_atom(cc).op == "U":
                            at = as_atom(cc).args[0]
                        elif as_atom(ONE - cc) is not None and as_atom(ONE - cc).op == "U":
                            at = -as_atom(ONE - cc).args[0] - 1
                        if at is None:
                            continue
                        cr = tm._coef_of(at, e)
                        if cr is None or as_int(cr[0]) != -1:
                            continue
                        bound = cr[1] + 1      # loop while k < bound
                        v = mk_pow2(mk_max([bound, P(p0)]))
                        env = dict(self.st.heap[k])
                        env[n] = num(v, "int")
                        self.st.heap[k] = env
                        return
        self.top("while loop")
        self.havoc_loop(s)

    def while_probe(self, s):
        """scalar carried names of a while body: {(eid,name): (placeholder, slot, pre, post)}, other changes?"""
        s0 = self.st
        self.st = s0.fork()
        s1 = self.trial_run(None, None, s.body)
        self.st = s0
        if s1 is None:
            return None, None
        names, stores, other = self.changed_keys(s0, s1)
        out = {}
        self.st = s0.fork()
        for (k, n) in names:
            pre = s0.heap[k].get(n, UNDEF)
            if kind_of(pre) in ("int",):
                sl = []
                ph = self.placeholder(pre, sl, {})
                out[(k, n)] = [ph, sl[0][0], to_poly(pre), None]
                env = dict(self.st.heap[k])
                env[n] = ph
                self.st.heap[k] = env
        s2 = self.trial_run(None, None, s.body)
        if s2 is not None:
            for (k, n) in out:
                v = s2.heap[k].get(n)
                out[(k, n)][3] = to_poly(v) if v is not None else None
        self.st = s0
        return out, bool(stores or other or len(names) > len(out))

    def havoc_loop(self, s):
        """unknown loop: everything its body may change becomes unknown"""
        fr = self.frame()
        s0 = self.st
        if isinstance(s, ast.For):
            tgt = self.top("loop variable")
        self.st = s0.fork()
        sb, fr.breaks = fr.breaks, []
        sc, fr.conts = fr.conts, []
        sr, fr.returns = fr.returns, []
        sink, self.raise_sink = self.raise_sink, []
        nev = len(self.events)
        ends = []
        try:
            try:
                if isinstance(s, ast.For):
                    self.assign(s.target, tgt)
                self.exec_block(s.body)
                ends.append((self.st, None))
            except Dead:
                pass
            ends += [(c, None) for c in fr.conts] + [(c, None) for c in fr.breaks]
            rets = fr.returns
        finally:
            fr.breaks, fr.conts, fr.returns = sb, sc, sr
            self.raise_sink = sink
        for e in self.events[nev:]:
            e["pc"] = unk("loop")
        u = unk("loop exit")
        for b, v in rets:
            q = b
            q.pc = s0.pc + (u,)
            fr.returns.append((q, self.top("return in unknown loop")))
        if not ends:
            if rets:
                raise Dead()
            self.st = s0
            return
        s1, _ = self.merge_states(ends)
        names, stores, other = self.changed_keys(s0, s1)
        self.st = s1
        s1.pc = s0.pc
        for k in stores:
            s1.heap[k] = s1.heap[k].repl(body=unk("loop"))
        for (k, n) in names:
            d = dict(s1.heap[k])
            v = d.get(n)
            d[n] = self.havoc_val(v)
            s1.heap[k] = d
        for k in other:
            s1.heap[k] = self.top("loop")

    def havoc_val(self, v):
        if isinstance(v, ArrV) and v.sid is not None:
            return self.fresh(v.axes, unk("loop"), v.dtype, v.dev, v.grad, v.taint, v.be, v.scalar)
        if kind_of(v):
            return Num(unk("loop"), kind_of(v))
        if isinstance(v, tuple):
            return tuple(self.havoc_val(x) for x in v)
        return self.top("loop")

    def havoc_changed(self, r_changed):
        raise Unsupported("loop")

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.top("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return self.rescaled(e.value)

    @staticmethod
    def rescaled(v):
        """constants that sizes are compared with, when thresholds are reduced"""
        if tm.RESCALE and type(v) in (int, float) and v in tm.RESCALE:
            return type(v)(tm.RESCALE[v])
        return v

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_items(self.ev(x.value))
                if it is None:
                    return self.top("starred")
                out += it
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_List(self, e):
        t = self.e_Tuple(e)
        if isinstance(t, Top):
            return t
        return ListV(self.alloc(list(t)))

    def e_Set(self, e):
        t = self.e_Tuple(e)
        return t if isinstance(t, Top) else SetV(tuple(t))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                if isinstance(x, DictV) and isinstance(self.st.heap[x.hid], dict):
                    d.update(self.st.heap[x.hid])
                else:
                    return self.top("dict **")
            else:
                kk = self.ev(k)
                if isinstance(kk, (ListV, DictV, Top, PhiV)):
                    return self.top("dict key")
                d[self.key(kk)] = self.ev(v)
        return DictV(self.alloc(d))

    def key(self, k):
        if isinstance(k, Num):
            return ("num", k.p.id, k.kind)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, ArrV):
            return ("arr", id(k))
        return k

    def e_JoinedStr(self, e):
        out = ""
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value)
                if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1:
                    out += str(x)
                else:
                    ok = False
        return out if ok else StrTop()

    def e_FormattedValue(self, e):
        self.ev(e.value)
        return StrTop()

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if c is True:
            return self.ev(e.body)
        if c is False:
            return self.ev(e.orelse)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        fr = self.frame()
        if fr.yields is None:
            return self.top("yield")
        fr.yields.append(v)
        return None

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(c, bool):
                if c == isand:
                    return go(i + 1)
                return v
            if isand:
                r = self.branch(c, lambda: go(i + 1), lambda: v)
            else:
                r = self.branch(c, lambda: v, lambda: go(i + 1))
            # boolean result when every operand is a truth value
            if isinstance(r, PhiV):
                if all(isinstance(x, (bool, ArrV)) or kind_of(x) == "bool" for x in (r.a, r.b)):
                    return num(self.truth_poly(r), "bool")
            return r
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if op == "Not":
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            return num(ONE - c, "bool")
        if isinstance(v, PhiV):
            return self.split(v, lambda x: self.unop(op, x))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return -v if op == "USub" else (+v if op == "UAdd" else (~v if isinstance(v, int) else self.top("~")))
        if isinstance(v, complex):
            return -v if op == "USub" else v
        if isinstance(v, Num):
            if op == "USub":
                return num(-v.p, v.kind if v.kind != "bool" else "int")
            return v
        if isinstance(v, ArrV):
            if op == "UAdd":
                return v
            if op == "USub":
                return self.ew(lambda x: -x, [v], what="neg")
            if op == "Invert":
                if v.dtype == "bool":
                    return self.ew(lambda x: ONE - x, [v], dtype="bool", what="not")
                return self.ew(lambda x: -x - 1, [v], what="invert")
        if isinstance(v, Inst):
            m = self.find_method(v.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m:
                return self.call(Bound(m, v), [], {})
        return self.top("unary %s on %s" % (op, type(v).__name__))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        r = self.binop(type(e.op).__name__, a, b)
        return self.rescaled(r) if type(a) in (int, float) and type(b) in (int, float) else r

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
              "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    def binop(self, op, a, b):
        if isinstance(a, PhiV):
            return self.split(a, lambda x: self.binop(op, x, b))
        if isinstance(b, PhiV):
            return self.split(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Inst) or isinstance(b, Inst):
            d = self.DUNDER[op]
            if isinstance(a, Inst):
                m = self.find_method(a.cls, "__%s__" % d)
                if m:
                    return self.call(Bound(m, a), [b], {})
            if isinstance(b, Inst):
                m = self.find_method(b.cls, "__r%s__" % d)
                if m:
                    return self.call(Bound(m, b), [a], {})
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, MaskSel) or isinstance(b, MaskSel):
            return self.lib.masksel_binop(self, op, a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            return self.lib.arr_binop(self, op, a, b)
        if is_number(a) and is_number(b):
            return self.lib.num_binop(self, op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "Add":
            x, y = self.st.heap[a.hid], self.st.heap[b.hid]
            if isinstance(x, list) and isinstance(y, list):
                return ListV(self.alloc(x + y))
            return self.top("list +")
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                n = as_int(to_poly(y)) if is_number(y) else None
                if n is not None:
                    if isinstance(x, tuple):
                        return x * n
                    if isinstance(x, str):
                        return x * n
                    if isinstance(x, ListV) and isinstance(self.st.heap[x.hid], list):
                        return ListV(self.alloc(self.st.heap[x.hid] * n))
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, (str, StrTop)) and op in ("Mod", "Add"):
            return StrTop()
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == "BitOr":
                return SetV(tuple(dict.fromkeys(a.items + b.items)))
            if op == "BitAnd":
                return SetV(tuple(x for x in a.items if x in b.items))
            if op == "Sub":
                return SetV(tuple(x for x in a.items if x not in b.items))
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
            d = dict(self.st.heap[a.hid])
            d.update(self.st.heap[b.hid])
            return DictV(self.alloc(d))
        if isinstance(a, complex) or isinstance(b, complex):
            try:
                import operator
                return getattr(operator, {"Mult": "mul", "Add": "add", "Sub": "sub", "Div": "truediv", "Pow": "pow"}[op])(a, b)
            except Exception:
                return self.top("complex")
        if op in self.DUNDER and (a is None or b is None or isinstance(a, (tuple, ListV, str)) or isinstance(b, (tuple, ListV, str))):
            if a is None or b is None:
                self.crash("TypeError", "unsupported operand types for %s: %s and %s" % (op, pytype(a), pytype(b)))
        return self.top("binop %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                t1 = self.truth(res)
                if t1 is False:
                    return False
                if t1 is True:
                    res = c
                else:
                    res = num(band(t1, self.truth_poly(c)), "bool")
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            if isinstance(r, bool):
                return r if op == "Is" else not r
            return num(r if op == "Is" else ONE - r, "bool")
        if isinstance(a, PhiV):
            return self.split(a, lambda x: self.compare(op, x, b))
        if isinstance(b, PhiV):
            return self.split(b, lambda x: self.compare(op, a, x))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op == "In" else not r
            return num(r if op == "In" else ONE - r, "bool")
        if isinstance(a, Top) or isinstance(b, Top):
            return Num(unk("comparison"), "bool")
        if isinstance(a, (ArrV, MaskSel)) or isinstance(b, (ArrV, MaskSel)):
            return self.lib.arr_compare(self, op, a, b)
        if is_number(a) and is_number(b):
            return self.num_compare(op, a, b)
        if isinstance(a, VersionV) or isinstance(b, VersionV):
            x = a.t if isinstance(a, VersionV) else None
            y = b.t if isinstance(b, VersionV) else None
            if x is None or y is None:
                return Num(unk("version"), "bool")
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if op in ("Eq", "NotEq"):
                if len(a) != len(b):
                    return op == "NotEq"
                r = ONE
                for x, y in zip(a, b):
                    r = band(r, self.truth_poly(self.compare("Eq", x, y)))
                return num(r if op == "Eq" else ONE - r, "bool")
            import operator
            try:
                if all(isinstance(x, (int, str, float)) for x in a + b):
                    return getattr(operator, {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op])(a, b)
            except Exception:
                pass
            return Num(unk("tuple comparison"), "bool")
        if isinstance(a, StrTop) or isinstance(b, StrTop):
            return Num(unk("string"), "bool")
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        if isinstance(a, Inst) or isinstance(b, Inst):
            d = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    m = self.find_method(x.cls, d)
                    if m:
                        return self.call(Bound(m, x), [y], {})
        if isinstance(a, ListV) and isinstance(b, ListV) and op in ("Eq", "NotEq"):
            x, y = self.concrete_items(a), self.concrete_items(b)
            if x is not None and y is not None:
                return self.compare(op, tuple(x), tuple(y))
            return Num(unk("list comparison"), "bool")
        if op in ("Eq", "NotEq"):
            if isinstance(a, (DT, Ext)) and isinstance(b, (DT, Ext)):
                x, y = self.lib.as_dtype(self, a), self.lib.as_dtype(self, b)
                if x is not None and y is not None:
                    return (x == y) == (op == "Eq")
            if isinstance(a, DT) and isinstance(b, str) or isinstance(b, DT) and isinstance(a, str):
                x, y = self.lib.as_dtype(self, a), self.lib.as_dtype(self, b)
                return (x == y) == (op == "Eq")
            if isinstance(a, Dev) and isinstance(b, (str, Dev)) or isinstance(b, Dev) and isinstance(a, str):
                x = a.n if isinstance(a, Dev) else a
                y = b.n if isinstance(b, Dev) else b
                return (x == y) == (op == "Eq")
            r = self.is_same(a, b)
            if isinstance(r, bool):
                return r == (op == "Eq")
        if (a is None or b is None) and op in ("Lt", "LtE", "Gt", "GtE"):
            self.crash("TypeError", "'%s' not supported between %s and %s" % (op, pytype(a), pytype(b)))
        return Num(unk("comparison"), "bool")

    def num_compare(self, op, a, b):
        p = to_poly(a) - to_poly(b)
        if op == "Eq":
            r = eq0(p)
        elif op == "NotEq":
            r = ONE - eq0(p)
        elif op == "Lt":
            r = gt0(-p)
        elif op == "LtE":
            r = ge0(-p)
        elif op == "Gt":
            r = gt0(p)
        else:
            r = ge0(p)
        return num(r, "bool")

    def is_same(self, a, b):
        if isinstance(a, PhiV):
            x, y = self.is_same(a.a, b), self.is_same(a.b, b)
            x = P(int(x)) if isinstance(x, bool) else x
            y = P(int(y)) if isinstance(y, bool) else y
            r = y + pmul(a.cond, x - y)
            c = bool_const(r)
            return r if c is None else c
        if isinstance(b, PhiV):
            return self.is_same(b, a)
        if isinstance(a, Top) or isinstance(b, Top):
            return unk("identity")
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, Num) and y.kind == "bool":
                return y.p if x else ONE - y.p
            return False
        if isinstance(a, (Func, Cls, Ext, Mod, DT, Dev)) and isinstance(b, (Func, Cls, Ext, Mod, DT, Dev)):
            if isinstance(a, (DT, Ext)) and isinstance(b, (DT, Ext)):
                x, y = self.lib.as_dtype(self, a), self.lib.as_dtype(self, b)
                if x is not None or y is not None:
                    return x == y
            if isinstance(a, Func) and isinstance(b, Func):
                return a.node is b.node
            return a == b if isinstance(a, (Ext, DT, Dev)) else a is b
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            if a is b or (a.sid == b.sid and a.axes == b.axes and a.idx == b.idx):
                return True
            return unk("identity")
        if isinstance(a, Inst) and isinstance(b, Inst):
            return a.hid == b.hid
        if isinstance(a, ListV) and isinstance(b, ListV):
            return a.hid == b.hid
        if is_number(a) and is_number(b):
            return self.truth(self.num_compare("Eq", a, b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if type(a) is not type(b):
            return False
        return unk("identity")

    def contains(self, c, x):
        if isinstance(c, PhiV):
            return self.truth(self.split(c, lambda y: self.wrapb(self.contains(y, x))))
        if isinstance(c, DictV):
            d = self.st.heap[c.hid]
            if isinstance(d, dict) and not isinstance(x, (Top, PhiV, StrTop)):
                return self.key(x) in d
            return unk("in dict")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        items = self.concrete_items(c)
        if items is None:
            return unk("containment")
        r = ZERO
        for y in items:
            r = bor(r, self.truth_poly(self.compare("Eq", x, y)))
        cc = bool_const(r)
        return r if cc is None else cc

    def wrapb(self, r):
        return r if isinstance(r, bool) else Num(r, "bool")

    # ---- comprehension
    def comp(self, gens, elt, out):
        """evaluate a comprehension; out collects; returns SymItems for a symbolic generator"""
        fr = self.frame()

        def go(i):
            if i == len(gens):
                out.append(elt())
                return None
            g = gens[i]
            it = self.ev(g.iter)
            items = self.concrete_items(it)
            if items is None:
                if len(gens) == 1 and not g.ifs and not out:
                    sy = self.sym_iter(it)
                    if sy is not None:
                        self.assign(g.target, sy[1])
                        v = elt()
                        return SymItems(tuple(sy[0]), v, sy[2])
                return self.top("comprehension over %s" % type(it).__name__)
            for x in items:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    if not isinstance(t, bool):
                        return self.top("comprehension filter")
                    if not t:
                        ok = False
                        break
                if ok:
                    r = go(i + 1)
                    if r is not None:
                        return r
            return None
        # comprehension variables live in a nested scope
        eid = self.alloc({})
        f2 = Frame(eid, fr.mod, fr.func, (fr.eid, fr.closure))
        f2.cls = None
        f2.returns = fr.returns
        self.frames.append(f2)
        try:
            return go(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        out = []
        r = self.comp(e.generators, lambda: self.ev(e.elt), out)
        if isinstance(r, SymItems):
            return ListV(self.alloc(r))
        if r is not None:
            return r
        return ListV(self.alloc(out))

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        out = []
        r = self.comp(e.generators, lambda: self.ev(e.elt), out)
        return self.top("set") if r is not None else SetV(tuple(out))

    def e_DictComp(self, e):
        out = []
        r = self.comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)), out)
        if r is not None:
            return self.top("dict comprehension")
        return DictV(self.alloc({self.key(k): v for k, v in out}))

    # ---- subscripts
    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    it = self.concrete_items(self.ev(x.value))
                    if it is None:
                        return self.top("starred index")
                    out += it
                else:
                    out.append(self.ev_index(x))
            return tuple(out)
        if isinstance(s, ast.Slice):
            return SliceV(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None,
                          self.ev(s.step) if s.step else None)
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        ix = self.ev_index(e.slice)
        return self.getsub(o, ix)

    def getsub(self, o, ix):
        if isinstance(o, PhiV):
            return self.split(o, lambda x: self.getsub(x, ix))
        if isinstance(ix, PhiV):
            return self.split(ix, lambda x: self.getsub(o, x))
        if isinstance(o, Top):
            return o
        if isinstance(o, ArrV):
            if isinstance(ix, tuple):
                for k, x in enumerate(ix):
                    if isinstance(x, PhiV):
                        return self.split(x, lambda y: self.getsub(o, ix[:k] + (y,) + ix[k + 1:]))
            r = self.getitem(o, ix)
            return self.top(r.why) if isinstance(r, Top) else r
        if isinstance(o, MaskSel):
            return self.lib.masksel_get(self, o, ix)
        if isinstance(o, Flags) and isinstance(ix, str):
            return self.lib.flag(self, o.arr, ix)
        if isinstance(o, (tuple, str)) or isinstance(o, ListV):
            return self.seq_get(o, ix)
        if isinstance(o, DictV):
            d = self.st.heap[o.hid]
            if isinstance(d, dict):
                k = self.key(ix)
                try:
                    if k in d:
                        return d[k]
                except TypeError:
                    return self.top("dict key")
                if any(isinstance(x, (Num,)) for x in ((ix,) if not isinstance(ix, tuple) else ix)):
                    return self.top("symbolic dict key")
                if isinstance(ix, (StrTop, Top)):
                    return self.top("dict key")
                self.crash("KeyError", "%r" % (ix,))
            return self.top("dict")
        if isinstance(o, Inst):
            if o.cls.kind == "namedtuple":
                return self.seq_get(tuple(self.concrete_items(o)), ix)
            m = self.find_method(o.cls, "__getitem__")
            if m:
                return self.call(Bound(m, o), [ix], {})
        if isinstance(o, RangeV):
            p = to_poly(ix) if not isinstance(ix, SliceV) else None
            if p is not None:
                return num(to_poly(o.lo) + p * to_poly(o.step), "int")
        if isinstance(o, Ext):
            if o.path == "numpy.s_" or o.path == "numpy.index_exp":
                return ix
            if o.path == "numpy.r_":
                return self.lib.call_array(self, "numpy.r_", [ix if isinstance(ix, tuple) else (ix,)], {})
            return o       # typing generics
        if isinstance(o, Cls):
            return o
        if o is None:
            self.crash("TypeError", "'NoneType' object is not subscriptable")
        return self.top("subscript of %s" % type(o).__name__)

    def seq_get(self, o, ix):
        c = self.st.heap[o.hid] if isinstance(o, ListV) else o
        if isinstance(c, Top):
            return c
        if isinstance(c, SymItems):
            p = to_poly(ix) if is_number(ix) else None
            if p is not None:
                if nonneg(-p - 1):
                    p = p + c.size
                return self.sym_item(c, p)
            return self.top("slice of symbolic list")
        if isinstance(ix, SliceV):
            def cv(x):
                if x is None:
                    return None
                p = to_poly(x)
                return as_int(p) if p is not None else "bad"
            lo, hi, st = cv(ix.lo), cv(ix.hi), cv(ix.step)
            if "bad" in (lo, hi, st) or (ix.lo is not None and lo is None) or (ix.hi is not None and hi is None):
                return self.top("symbolic slice of a sequence")
            r = c[slice(lo, hi, st)]
            return ListV(self.alloc(r)) if isinstance(o, ListV) else r
        if isinstance(ix, ArrV) and ix.ndim == 0:
            ix = num(self.body(ix), "int")
        p = to_poly(ix) if is_number(ix) else None
        if p is None:
            return self.top("sequence index")
        k = as_int(p)
        if k is None:
            return self.top("symbolic index of a sequence")
        if k >= len(c) or k < -len(c):
            self.crash("IndexError", "sequence index %d out of range" % k)
        return c[k]

    def setsub(self, o, ix, v):
        if isinstance(o, PhiV):
            return self.split(o, lambda x: self.setsub(x, ix, v))
        if isinstance(v, PhiV) and isinstance(o, ArrV):
            return self.split(v, lambda x: self.setsub(o, ix, x))
        if isinstance(o, ArrV):
            if isinstance(ix, PhiV):
                return self.split(ix, lambda x: self.setsub(o, x, v))
            self.setitem(o, ix, v)
            return
        if isinstance(o, ListV):
            self.mutate(o.hid, "list assignment")
            c = self.st.heap[o.hid]
            p = to_poly(ix) if is_number(ix) else None
            k = as_int(p) if p is not None else None
            if isinstance(c, list) and k is not None and -len(c) <= k < len(c):
                n = list(c)
                n[k] = v
                self.st.heap[o.hid] = n
            elif isinstance(c, SymItems) and p is not None and len(c.vars) == 1 and is_index_poly(p):
                self.st.heap[o.hid] = self.top("write to symbolic list")
            else:
                self.st.heap[o.hid] = self.top("list write")
            return
        if isinstance(o, DictV):
            self.mutate(o.hid, "dict assignment")
            d = self.st.heap[o.hid]
            if isinstance(d, dict) and not isinstance(ix, (Top, StrTop, PhiV)):
                n = dict(d)
                n[self.key(ix)] = v
                self.st.heap[o.hid] = n
            else:
                self.st.heap[o.hid] = self.top("dict write")
            return
        if isinstance(o, Inst):
            m = self.find_method(o.cls, "__setitem__")
            if m:
                self.call(Bound(m, o), [ix, v], {})
                return
        if isinstance(o, tuple):
            self.crash("TypeError", "'tuple' object does not support item assignment")
        if isinstance(o, Ext):
            self.event("setting", "assigns an item of %s" % o.path)
            return
        self.top("item assignment on %s" % type(o).__name__)

    # ---- attributes
    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, o, n, default=UNDEF):
        if isinstance(o, PhiV):
            return self.split(o, lambda x: self.getattr(x, n, default))
        if isinstance(o, Top):
            return o
        if isinstance(o, Mod):
            v = self.st.heap[o.hid].get(n, UNDEF)
            if v is not UNDEF:
                return v
            sub = o.name + "." + n
            if sub in self.modules:
                return self.modules[sub]
            if default is not UNDEF:
                return default
            self.crash("AttributeError", "module '%s' has no attribute '%s'" % (o.name, n))
        if isinstance(o, Inst):
            d = self.st.heap[o.hid]
            if n in d and d[n] is not UNDEF:
                return d[n]
            m = self.find_attr(o.cls, n)
            if m is not UNDEF:
                if isinstance(m, Func):
                    if "property" in m.deco:
                        return self.call(m, [o], {})
                    if "staticmethod" in m.deco:
                        return m
                    if "classmethod" in m.deco:
                        return Bound(m, o.cls)
                    return Bound(m, o)
                return m
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return DictV(o.hid)
            m = self.find_method(o.cls, "__getattr__")
            if m is not None:
                return self.call(Bound(m, o), [n], {})
            if o.cls.kind == "namedtuple" and n in ("_replace", "_asdict"):
                return ExtM(o, n)
            if default is not UNDEF:
                return default
            if any(isinstance(b, Ext) and exc_name(b) not in BUILTIN_EXC and exc_name(b) != "object" for k in self.mro(o.cls) if isinstance(k, Cls) for b in k.bases):
                return self.top("attribute of external base")
            self.crash("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, n))
        if isinstance(o, Cls):
            m = self.find_attr(o, n)
            if m is not UNDEF:
                if isinstance(m, Func) and "classmethod" in m.deco:
                    return Bound(m, o)
                return m
            if n == "__name__":
                return o.name
            if default is not UNDEF:
                return default
            self.crash("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, n))
        if isinstance(o, Super):
            for k in self.mro(o.cls)[1:]:
                if isinstance(k, Cls):
                    v = self.st.heap.get(k.env, {}).get(n)
                    if v is not None:
                        return Bound(v, o.obj) if isinstance(v, Func) else v
            return ExtM(o, n)
        if isinstance(o, Func):
            d = self.st.heap.get(o.uid, {})
            if n in d:
                return d[n]
            if n == "__name__":
                return o.name
            if n in ("__doc__", "__module__", "__qualname__"):
                return StrTop()
            if n in ("cache_clear", "cache_info", "__wrapped__"):
                return ExtM(o, n)
            if n == "__code__" or n == "__defaults__":
                return self.top("function internals")
            if default is not UNDEF:
                return default
            self.crash("AttributeError", "function has no attribute '%s'" % n)
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o, n)
        return self.lib.val_attr(self, o, n, default)

    def setattr(self, o, n, v):
        if isinstance(o, PhiV):
            return self.split(o, lambda x: self.setattr(x, n, v))
        if isinstance(o, Inst):
            self.mutate(o.hid, "attribute assignment")
            m = self.find_method(o.cls, n)
            d = dict(self.st.heap[o.hid])
            d[n] = v
            self.st.heap[o.hid] = d
            return
        if isinstance(o, Mod):
            self.mutate(o.hid, "assignment to module attribute '%s'" % n)
            d = dict(self.st.heap[o.hid])
            d[n] = v
            self.st.heap[o.hid] = d
            return
        if isinstance(o, Cls):
            self.mutate(o.env, "assignment to class attribute '%s'" % n)
            d = dict(self.st.heap[o.env])
            d[n] = v
            self.st.heap[o.env] = d
            return
        if isinstance(o, Func):
            self.mutate(o.uid, "assignment to function attribute '%s'" % n)
            d = dict(self.st.heap.get(o.uid, {}))
            d[n] = v
            self.st.heap[o.uid] = d
            return
        if isinstance(o, Ext):
            if self.boundary is not None:
                self.event("setting", "assigns attribute %s of %s" % (n, o.path))
            return
        if isinstance(o, ArrV):
            self.lib.arr_setattr(self, o, n, v)
            return
        self.top("attribute assignment on %s" % type(o).__name__)

    # ---- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.concrete_items(v)
                if it is None:
                    for b in e.args:
                        pass
                    args.append(self.top("starred argument"))
                else:
                    args += it
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, PhiV):
                    return self.split(d, lambda x: self.call(f, args, {**kw, **self.st.heap[x.hid]}) if isinstance(x, DictV) else self.top("**"))
                c = self.st.heap[d.hid] if isinstance(d, DictV) else None
                if not isinstance(c, dict):
                    return self.top("** argument")
                kw.update(c)
            else:
                kw[k.arg] = self.ev(k.value)
        loc = self.loc
        self.loc = (self.frame().mod.path, e.lineno)
        tm.LOC[0] = self.loc
        if isinstance(f, Ext) and f.path == "builtins.super" and not args:
            return self.super_()
        if isinstance(f, Ext) and f.path == "builtins.locals":
            return DictV(self.frame().eid)
        r = self.call(f, args, kw)
        self.loc = loc
        tm.LOC[0] = loc
        return r

    def super_(self):
        fr = self.frame()
        c = fr.func.cls
        env = self.st.heap[fr.eid]
        first = fr.func.node.args.args[0].arg
        return Super(c, env[first])

    def call(self, f, args, kw):
        self.calls_seen += 1
        if isinstance(f, PhiV):
            return self.split(f, lambda x: self.call(x, args, kw))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Inst):
            m = self.find_method(f.cls, "__call__")
            if m:
                return self.call(Bound(m, f), args, kw)
            if any(isinstance(b, Ext) for b in f.cls.bases):
                m = self.find_method(f.cls, "forward")
                if m:
                    return self.call(Bound(m, f), args, kw)
            self.crash("TypeError", "'%s' object is not callable" % f.cls.name)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kw)
        if isinstance(f, ExtM):
            return self.lib.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Top):
            self.escape(args, kw)
            return f
        if isinstance(f, DT):
            return self.lib.call_ext(self, "numpy." + f.n, args, kw)
        if f is None:
            self.crash("TypeError", "'NoneType' object is not callable")
        return self.top("call of %s" % type(f).__name__)

    def escape(self, args, kw):
        """arguments passed to an unknown callee"""
        for a in list(args) + list(kw.values()):
            self.top("escape") if isinstance(a, ArrV) else None

    def bind(self, f, args, kw):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            self.crash("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        po = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in pos and k not in po:
                if k in env:
                    self.crash("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                env[k] = v
            elif k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.crash("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg:
            env[a.kwarg.arg] = DictV(self.alloc(extra))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    self.crash("TypeError", "%s() missing required argument '%s'" % (f.name, n))
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in env:
                if d is UNDEF:
                    self.crash("TypeError", "%s() missing keyword-only argument '%s'" % (f.name, n))
                env[n] = d
        return env

    def call_func(self, f, args, kw):
        summ = self.env.summaries.get(f.qual)
        if summ is not None and not self.trial_disabled(f):
            r = summ(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if self.depth > MAX_DEPTH:
            return self.top("recursion limit")
        env = self.bind(f, args, kw)
        if "memo" in f.deco:
            for v in env.values():
                if isinstance(v, ArrV):
                    if v.be == "np" and not v.scalar:
                        self.crash("TypeError", "unhashable type: numpy.ndarray")
                    elif v.be == "pt":
                        self.event("global", "result cached on the identity of a tensor")
        self.funcs_seen.add(f.qual)
        eid = self.alloc(env)
        fr = Frame(eid, f.mod, f, f.closure)
        fr.local_names = local_names(f.node)
        self.frames.append(fr)
        self.depth += 1
        loc = self.loc
        ng = self.st.nograd
        if "nograd" in f.deco:
            self.st.nograd = True
        isgen = is_generator(f.node)
        if isgen:
            fr.yields = []
        try:
            res = []
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                res.append((self.st, v))
            else:
                try:
                    self.exec_block(f.node.body)
                    res.append((self.st, None))
                except Dead:
                    pass
                except Unsupported as ex:
                    res.append((self.st, self.top("unsupported: %s" % ex)))
                res = fr.returns + res
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = loc
            tm.LOC[0] = loc
        if not res:
            raise Dead()
        st, v = self.merge_states(res)
        self.st.nograd = ng
        if isgen:
            v = ListV(self.alloc(list(fr.yields)))
        if "memo" in f.deco:
            v = self.mark_cached(v, "cache of " + f.qual)
        return v

    def mark_cached(self, v, name):
        if isinstance(v, ArrV) and v.sid is not None:
            s = self.st.heap[v.sid]
            o = dict(s.origin)
            o[name] = ONE
            self.st.heap[v.sid] = s.repl(origin=o)
        elif isinstance(v, tuple):
            for x in v:
                self.mark_cached(x, name)
        return v

    def trial_disabled(self, f):
        return False

    def instantiate(self, c, args, kw):
        chain = [exc_name(k) for k in self.mro(c) if isinstance(k, Ext)]
        if "BaseException" in chain or "Exception" in chain:
            return Exc(c, tuple(args))
        hid = self.alloc({})
        o = Inst(hid, c)
        if c.kind == "namedtuple":
            d = {}
            for n, v in zip(c.fields, args):
                d[n] = v
            for k, v in kw.items():
                d[k] = v
            for n in c.fields:
                if n not in d:
                    dv = self.st.heap.get(c.env, {}).get(n) if c.env else None
                    d[n] = dv
            self.st.heap[hid] = d
            return o
        if c.kind == "dataclass":
            fields = []
            for k in reversed([k for k in self.mro(c) if isinstance(k, Cls)]):
                fields += [x for x in (k.fields or []) if x not in fields]
            names = [x[0] for x in fields]
            d = dict(zip(names, args))
            d.update(kw)
            for n, has in fields:
                if n not in d:
                    if has:
                        dv = self.find_method(c, n)
                        if isinstance(dv, Partial) and isinstance(dv.f, Ext) and dv.f.path == "dataclasses.field":
                            if "default_factory" in dv.kw:
                                dv = self.call(dv.kw["default_factory"], [], {})
                            else:
                                dv = dv.kw.get("default")
                        d[n] = dv
                    else:
                        self.crash("TypeError", "missing argument '%s'" % n)
            self.st.heap[hid] = d
            m = self.find_method(c, "__post_init__")
            if m:
                self.call(Bound(m, o), [], {})
            return o
        init = self.find_method(c, "__init__")
        new = self.find_method(c, "__new__")
        if new is not None:
            r = self.call(new, [c] + list(args), kw)
            if not isinstance(r, Inst):
                return r
            o = r
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif (args or kw) and new is None and not any(isinstance(b, Ext) for b in c.bases):
            self.crash("TypeError", "%s() takes no arguments" % c.name)
        return o

    # ---- helpers used by arr.py
    def list_to_index(self, l):
        c = self.st.heap[l.hid]
        if isinstance(c, SymItems):
            if len(c.vars) == 1 and is_number(c.elem):
                v = ivar(c.vars[0].args[0])
                body = subst(to_poly(c.elem), {c.vars[0]: atom1(v)})
                return self.fresh([(v,)], body, "i64", "np", False, frozenset(), "np")
            return None
        if isinstance(c, list):
            if all(is_number(x) and kind_of(x) == "int" for x in c):
                return self.items_arr(c, "i64")
            if all(isinstance(x, bool) for x in c):
                return self.items_arr(c, "bool")
        return None

    def items_arr(self, items, dtype, be="np"):
        v = ivar(P(len(items)))
        if len(items) == 1:
            return self.fresh([()], to_poly(items[0]), dtype, "np" if be == "np" else "cpu", False, frozenset(), be)
        body = ZERO
        for i, x in enumerate(items):
            body = body + pmul(delta(atom1(v) - i), to_poly(x))
        return self.fresh([(v,)], body, dtype, "np" if be == "np" else "cpu", False, frozenset(), be)

    def range_to_arr(self, r):
        sy = self.sym_iter(r)
        if sy is None:
            return None
        e = sy[0][0]
        if as_int(sy[2]) == 1:
            return self.fresh([()], subst(to_poly(sy[1]), {e: ZERO}), "i64", "np", False, frozenset(), "np")
        return self.fresh([(e,)], to_poly(sy[1]), "i64", "np", False, frozenset(), "np")

    def to_array(self, value, like):
        return self.lib.sequence_to_array(self, value, like)


def pytype(v):
    if v is None:
        return "None"
    k = kind_of(v)
    return k or type(v).__name__


def atom_of_step(q):
    """(U atom, negated?) of [q >= 0]"""
    s = step(q)
    a = as_atom(s)
    if a is not None and a.op == "U":
        return a, False
    a = as_atom(ONE - s)
    if a is not None and a.op == "U":
        return a, True
    return None, False


def atom1_state(slot):
    return loops.state_acc(slot, ())


_ln = {}


def local_names(node):
    if node in _ln:
        return _ln[node]
    out = set()
    if not isinstance(node, ast.Lambda):
        def visit(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for al in c.names:
                        out.add((al.asname or al.name).split(".")[0])
                visit(c)
        visit(node)
    _ln[node] = out
    return out


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)) or visit(c):
                return True
        return False
    return visit(node)
