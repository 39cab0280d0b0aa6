"""Rewrites match statements into if chains before analysis."""
import ast


class Unsupported(Exception):
    pass


def _test(p, tmp):
    """(test expression or None for always, bindings)"""
    def nm():
        return ast.Name(tmp, ast.Load())
    if isinstance(p, ast.MatchValue):
        return ast.Compare(nm(), [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(nm(), [ast.Is()], [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchOr):
        ts = [_test(q, tmp) for q in p.patterns]
        if any(b for _, b in ts):
            raise Unsupported
        if any(t is None for t, _ in ts):
            return None, []
        return ast.BoolOp(ast.Or(), [t for t, _ in ts]), []
    if isinstance(p, ast.MatchAs):
        t, b = (None, []) if p.pattern is None else _test(p.pattern, tmp)
        return t, b + ([ast.Assign([ast.Name(p.name, ast.Store())], nm())] if p.name else [])
    if isinstance(p, ast.MatchClass) and not p.patterns:
        t = ast.Call(ast.Name("isinstance", ast.Load()), [nm(), p.cls], [])
        b = []
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            if isinstance(q, ast.MatchAs) and q.pattern is None:
                if q.name:
                    b.append(ast.Assign([ast.Name(q.name, ast.Store())], ast.Attribute(nm(), a, ast.Load())))
            elif isinstance(q, ast.MatchValue):
                t = ast.BoolOp(ast.And(), [t, ast.Compare(ast.Attribute(nm(), a, ast.Load()), [ast.Eq()], [q.value])])
            else:
                raise Unsupported
        return t, b
    raise Unsupported


class Desugar(ast.NodeTransformer):
    def visit_Match(self, s):
        self.generic_visit(s)
        tmp = f"match_{s.lineno}_{s.col_offset}"
        try:
            chain = []
            for c in reversed(s.cases):
                t, b = _test(c.pattern, tmp)
                body = b + c.body
                if c.guard is not None:
                    if b:
                        raise Unsupported
                    t = c.guard if t is None else ast.BoolOp(ast.And(), [t, c.guard])
                chain = body if t is None else [ast.If(t, body, chain)]
        except Unsupported:
            return s
        out = [ast.Assign([ast.Name(tmp, ast.Store())], s.subject)] + chain
        for x in out:
            for n in ast.walk(x):
                if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                    ast.copy_location(n, s)
            ast.fix_missing_locations(x)
        return out
