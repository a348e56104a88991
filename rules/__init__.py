"""Structural rules: queries over the parsed package (call graph, definite
assignment, effects, begin/end typestate)."""
RULES = {}


def rule(pid):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return deco


def run(pid, program):
    fs = RULES.get(pid)
    if not fs:
        return None
    out = {"rules": [], "functions": set()}
    for f in fs:
        r = f(program)
        out["functions"] |= set(r.pop("functions", ()))
        out["rules"].append(r)
    return out


from . import names   # noqa: E402,F401
