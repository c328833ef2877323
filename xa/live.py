"""Live local variables of a function (backwards over the syntax tree).  Used only
to drop dead locals from the abstract state; an over-large answer is harmless."""
import ast


def reads(node, out=None):
    out = set() if out is None else out
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)
    return out


def target_writes(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            target_writes(x, out)
    elif isinstance(t, ast.Starred):
        target_writes(t.value, out)
    return out


class Liveness(object):
    def __init__(self, fn):
        self.always = set()
        self.ok = True
        self.live_in = {}        # id(stmt) -> set
        self.live_out = {}
        self.head = {}           # id(loop) -> live at the loop head
        body = fn.body if isinstance(fn.body, list) else None
        if body is None:
            self.ok = False
            return
        for n in ast.walk(fn):
            if n is fn:
                continue
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef, ast.AsyncFunctionDef)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        self.always.add(m.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always.update(n.names)
            if isinstance(n, ast.Name) and n.id in ('locals', 'vars', 'eval', 'exec', 'super'):
                if n.id != 'super':
                    self.ok = False
            if isinstance(n, ast.Match):
                self.ok = False
            if isinstance(n, ast.NamedExpr):
                self.always.update(target_writes(n.target, set()))
        self.block(body, set(), set(), set(), set(), set())

    def block(self, stmts, out, brk, cont, exc, ret):
        live = set(out)
        for s in reversed(stmts):
            self.add(self.live_out, s, live)
            live = self.stmt(s, live, brk, cont, exc, ret) | exc
            self.add(self.live_in, s, live)
        return live

    def add(self, d, s, live):
        d.setdefault(id(s), set()).update(live)

    def stmt(self, s, out, brk, cont, exc, ret):
        if isinstance(s, ast.If):
            return reads(s.test) | self.block(s.body, out, brk, cont, exc, ret) | \
                self.block(s.orelse, out, brk, cont, exc, ret)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out, brk, cont, exc, ret)
            tw = target_writes(s.target, set()) if isinstance(s, ast.For) else set()
            tr = reads(s.target) if isinstance(s, ast.For) else reads(s.test)
            head = after | tr
            while True:
                b = self.block(s.body, head, set(out), head, exc, ret)
                new = head | (b - tw) | tr | exc
                if new == head:
                    break
                head = new
            self.head.setdefault(id(s), set()).update(head)
            return head | (reads(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out | brk | cont | exc | ret, brk, cont, exc, ret) if s.finalbody else None
            o2 = fin if fin is not None else out
            b2, c2, e2, r2 = (brk, cont, exc, ret) if fin is None else (fin | brk, fin | cont, fin | exc, fin | ret)
            h = set(e2)
            for hd in s.handlers:
                hb = self.block(hd.body, o2, b2, c2, e2, r2)
                if hd.type is not None:
                    hb = hb | reads(hd.type)
                h |= hb
            els = self.block(s.orelse, o2, b2, c2, e2, r2)
            return self.block(s.body, els, b2, c2, h, r2)
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont, exc | out, ret)
            r = set()
            for it in s.items:
                reads(it.context_expr, r)
                if it.optional_vars is not None:
                    reads(it.optional_vars, r)
            return b | r
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, (ast.Return, ast.Raise)):
            return reads(s) | exc | ret
        if isinstance(s, ast.Assign):
            w = set()
            for t in s.targets:
                target_writes(t, w)
            return (out - w) | reads(s)
        if isinstance(s, ast.AnnAssign):
            w = target_writes(s.target, set()) if s.value is not None else set()
            return (out - w) | reads(s)
        if isinstance(s, ast.AugAssign):
            r = reads(s)
            return out | r | target_writes(s.target, set())
        return out | reads(s)

    def at(self, node, top):
        """Names live while `node` executes; top: at the head of that loop."""
        if not self.ok:
            return None
        if top and id(node) in self.head:
            return self.head[id(node)] | self.always
        if id(node) not in self.live_in:
            return None
        return self.live_in[id(node)] | self.live_out[id(node)] | self.always | reads(node)

    def after(self, node):
        if not self.ok or id(node) not in self.live_out:
            return None
        return self.live_out[id(node)] | self.always
