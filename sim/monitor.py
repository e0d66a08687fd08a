"""Yield and fault points inside the code under test (sys.monitoring).

Two independent instruments, both limited to code objects of einsteinpy (and of
the simulated user's own callbacks):

* INSTRUCTION events give the scheduler a chance to switch threads before any
  bytecode.  Instructions are classified so that a schedule can count only
  shared-memory writes, or accesses, or lines.
* CALL events give the fault injector a chance to make a call fail.
"""
import ast
import dis
import inspect
import sys
import types
import zlib

TOOL = 3
mon = sys.monitoring
EV = mon.events

LINE, STORE, ACCESS, CALLI, SHARED = 1, 2, 4, 8, 16
_STORE = {"STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "STORE_DEREF",
          "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_GLOBAL"}
_NAMED = _STORE - {"STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR"}
_ACCESS = _STORE | {"LOAD_ATTR", "BINARY_SUBSCR", "LOAD_DEREF", "LOAD_SUPER_ATTR"}
_CALL = {"CALL", "CALL_FUNCTION_EX", "CALL_KW"}
_MUTATORS = {"append", "extend", "update", "insert", "pop", "clear", "setdefault", "add", "remove", "fill",
             "sort", "reverse", "put", "discard", "popitem", "resize", "itemset", "__setitem__", "setflags",
             "appendleft", "partition", "copyto", "put_along_axis"}

codes = {}          # code -> classification {offset: mask}
_kind_of_code = {}  # code -> 'repo' | 'user'


def _walk_code(co, out):
    if co in out:
        return
    out.append(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, out)


def _functions_of(obj, modname, seen, out):
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, types.FunctionType):
        f = obj
        if "einsteinpy" in f.__code__.co_filename:
            _walk_code(f.__code__, out)
        w = getattr(f, "__wrapped__", None)
        if w is not None:
            _functions_of(w, modname, seen, out)
        for cell in f.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, types.FunctionType):
                _functions_of(v, modname, seen, out)
    elif isinstance(obj, (staticmethod, classmethod)):
        _functions_of(obj.__func__, modname, seen, out)
    elif isinstance(obj, property):
        for g in (obj.fget, obj.fset, obj.fdel):
            if g is not None:
                _functions_of(g, modname, seen, out)
    elif isinstance(obj, type):
        if (getattr(obj, "__module__", "") or "").split(".")[0] == "einsteinpy":
            for v in list(vars(obj).values()):
                _functions_of(v, modname, seen, out)
    elif hasattr(obj, "__wrapped__") and callable(obj):
        # functools wrappers such as lru_cache
        _functions_of(obj.__wrapped__, modname, seen, out)
    elif hasattr(obj, "func") and isinstance(getattr(obj, "func", None), types.FunctionType):
        _functions_of(obj.func, modname, seen, out)  # cached_property, partial


def repo_codes():
    out, seen = [], set()
    for name in sorted(m for m in sys.modules if m.split(".")[0] == "einsteinpy"):
        mod = sys.modules[name]
        if mod is None:
            continue
        for v in list(vars(mod).values()):
            _functions_of(v, name, seen, out)
    return out


def classify(co):
    table = {}
    shared = shared_writes(co.co_filename)
    lines = {start for start, _, line in co.co_lines() if line is not None}
    pending_mut = False
    depth_call = None
    for ins in dis.get_instructions(co):
        m = 0
        if ins.starts_line is not None and ins.offset in lines:
            m |= LINE
        if ins.opname in _STORE:
            m |= STORE
        if ins.opname in _ACCESS:
            m |= ACCESS
        pos = ins.positions
        at = (pos.lineno, pos.col_offset, pos.end_lineno, pos.end_col_offset) if pos else None
        if ins.opname in _NAMED or ins.opname in _STORE and at in shared:
            m |= SHARED
        if ins.opname in _CALL:
            m |= CALLI | ACCESS
            if pending_mut:
                m |= STORE
                pending_mut = False
            if at in shared:
                m |= SHARED
        if ins.opname == "LOAD_ATTR" and isinstance(ins.argval, str) and ins.argval in _MUTATORS:
            pending_mut = True
        if ins.opname == "BINARY_OP" and ins.arg is not None and ins.arg >= 13:
            m |= STORE | ACCESS
        table[ins.offset] = m
    return table


# ---- writes into containers that other threads may hold -----------------------------
_shared = {}
_scopes = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def shared_writes(filename):
    """Positions of item writes and mutating calls whose container may be shared: one reached through an attribute,
    a global, an enclosing function or a parameter, rather than made in the function itself.  A hint for choosing
    where threads are switched: a wrong guess costs or saves runs, no verdict depends on it."""
    if filename in _shared:
        return _shared[filename]
    out = _shared[filename] = set()
    try:
        tree = ast.parse(open(filename, encoding="utf-8").read())
    except (OSError, SyntaxError):
        return out
    for fn in ast.walk(tree):
        if not isinstance(fn, _scopes):
            continue
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        nodes, todo = [], list(body)
        while todo:
            n = todo.pop()
            nodes.append(n)
            if not isinstance(n, _scopes + (ast.ClassDef,)):
                todo += list(ast.iter_child_nodes(n))
        bound = {}
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in [t] if isinstance(t, ast.Name) else [e for e in ast.walk(t) if isinstance(e, ast.Name) and
                                                                 isinstance(e.ctx, ast.Store)]:
                        bound.setdefault(x.id, []).append(n.value if isinstance(t, ast.Name) else None)
            elif isinstance(n, ast.NamedExpr):
                bound.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.setdefault(n.id, []).append(None)
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}

        def may(e, depth=0):
            if depth > 8:
                return True
            if isinstance(e, ast.Attribute):
                return True
            if isinstance(e, (ast.Subscript, ast.Starred)):
                return may(e.value, depth + 1)
            if isinstance(e, ast.IfExp):
                return may(e.body, depth + 1) or may(e.orelse, depth + 1)
            if isinstance(e, ast.BoolOp):
                return any(may(v, depth + 1) for v in e.values)
            if isinstance(e, ast.Call):
                f = e.func
                name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                return name in ("getattr", "globals", "vars", "setdefault", "get", "view", "reshape", "ravel") or \
                    isinstance(f, ast.Name) and f.id.startswith("_")
            if isinstance(e, ast.Name):
                if e.id in bound:
                    return any(v is not None and may(v, depth + 1) for v in bound[e.id])
                return e.id not in params or e.id not in ("self", "cls")
            return False

        def mark(n):
            out.add((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset))

        for n in nodes:
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and may(n.value):
                mark(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS and \
                    may(n.func.value):
                mark(n)
    return out


# ---- lines where an injected call failure would defeat correct clean-up ------------
_cleanup_lines = {}


def cleanup_lines(filename):
    """Lines in `finally` and `except` bodies: an interrupt there defeats any
    Python program, so faults are not injected at them."""
    if filename in _cleanup_lines:
        return _cleanup_lines[filename]
    s = set()
    try:
        tree = ast.parse(open(filename, encoding="utf-8").read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                blocks = list(node.finalbody)
                for h in node.handlers:
                    blocks += h.body
                for b in blocks:
                    s.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
            if isinstance(node, (ast.FunctionDef,)) and node.name in ("__exit__", "__enter__", "__del__"):
                s.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))
    except (OSError, SyntaxError):
        pass
    _cleanup_lines[filename] = s
    return s


_line_of = {}


def line_of(co, offset):
    t = _line_of.get(co)
    if t is None:
        t = _line_of[co] = [(a, b, l) for a, b, l in co.co_lines()]
    for a, b, l in t:
        if a <= offset < b:
            return l
    return None


_prepared = False
user_codes = []


def prepare(user_functions=()):
    """Classifies all code objects; called once in the zygote."""
    global _prepared
    if not _prepared:
        for co in repo_codes():
            codes.setdefault(co, classify(co))
            _kind_of_code[co] = "repo"
        _prepared = True
    for f in user_functions:
        out = []
        _walk_code(f.__code__, out)
        for co in out:
            if co not in codes:
                codes[co] = classify(co)
                _kind_of_code[co] = "user"
                user_codes.append(co)


def _use():
    try:
        mon.use_tool_id(TOOL, "verif-sim")
    except ValueError:
        pass


def select(salt=0, p=1.0):
    """The code objects instrumented in one run (a swarm-style random subset)."""
    if p >= 1.0:
        return list(codes)
    return [co for co in codes if _kind_of_code[co] == "user" or
            (zlib.crc32(("%s:%s" % (salt, co.co_qualname)).encode()) % 1000) < p * 1000]


def start_instructions(callback, selected=None):
    _use()
    mon.register_callback(TOOL, EV.INSTRUCTION, callback)
    for co in (codes if selected is None else selected):
        mon.set_local_events(TOOL, co, EV.INSTRUCTION)


def start_calls(callback, selected=None):
    _use()
    mon.register_callback(TOOL, EV.CALL, callback)
    for co in (codes if selected is None else selected):
        mon.set_local_events(TOOL, co, EV.CALL)


def off(co):
    mon.set_local_events(TOOL, co, 0)


def stop():
    for co in codes:
        try:
            mon.set_local_events(TOOL, co, 0)
        except ValueError:  # tool already released
            break
    mon.register_callback(TOOL, EV.INSTRUCTION, None)
    mon.register_callback(TOOL, EV.CALL, None)
    try:
        mon.free_tool_id(TOOL)
    except Exception:
        pass
