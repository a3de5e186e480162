"""Generator of Koreo/CEL expressions paired with their value.

`Gen(rng, env)` knows the plain values the names in `env` are bound to and builds
expression text together with the value it must evaluate to, so that no CEL
evaluation is needed by an oracle."""

import re

IDENT = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*\Z")

RESERVED = {
    "in", "as", "break", "const", "continue", "else", "false", "for", "function",
    "if", "import", "let", "loop", "package", "namespace", "null", "return",
    "true", "var", "void", "while", "type", "map", "filter", "all", "exists",
    "size", "int", "string", "bool", "list", "min", "reduce", "has", "dyn",
}  # fmt: skip


def quote(rng, text: str) -> str:
    mark = rng.choice("\"'") if rng else '"'
    escaped = text.replace("\\", "\\\\").replace(mark, "\\" + mark)
    escaped = escaped.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
    return f"{mark}{escaped}{mark}"


def access(rng, root: str, path) -> str:
    text = root
    for key in path:
        if isinstance(key, int):
            text = f"{text}[{key}]"
        elif IDENT.match(key) and key not in RESERVED and rng.random() < 0.8:
            text = f"{text}.{key}"
        else:
            text = f"{text}[{quote(rng, key)}]"
    return text


def kind_of(value):
    if isinstance(value, bool):
        return "bool"
    if isinstance(value, int):
        return "int"
    if isinstance(value, float):
        return "float"
    if isinstance(value, str):
        return "str"
    if isinstance(value, list):
        return "list"
    if isinstance(value, dict):
        return "map"
    return "null"


def literal(rng, value) -> str:
    if value is None:
        return "null"
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, str):
        return quote(rng, value)
    if isinstance(value, list):
        return "[" + ", ".join(literal(rng, item) for item in value) + "]"
    return (
        "{"
        + ", ".join(
            f"{quote(rng, key)}: {literal(rng, item)}" for key, item in value.items()
        )
        + "}"
    )


TIMESTAMP = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ\Z")
DURATION = re.compile(r"[0-9]+s\Z")
BASE64 = re.compile(r"[A-Za-z0-9]+=+\Z")


def typed_literal(rng, value, keys=False) -> str:
    """Text of an expression for a value which is `value` once stored (as JSON),
    but often of another CEL type (`keys`: also the keys of maps)."""
    if isinstance(value, bool) or value is None or rng.random() < 0.2:
        return literal(rng, value)
    if isinstance(value, int):
        options = [f"int('{value}')", f"({value} + 0)", f"size([{value}]) * {value}"]
        if 0 <= value < 2**63:
            options += [f"{value}u", f"uint({value})"]
        return rng.choice(options)
    if isinstance(value, float):
        return f"double('{value!r}')"
    if isinstance(value, str):
        quoted = quote(rng, value)
        if TIMESTAMP.match(value):
            return rng.choice(
                (
                    f"timestamp({quoted})",
                    f"timestamp({quoted}) + duration('0s')",
                    f"(timestamp({quoted}) - duration('60s') + duration('1m'))",
                )
            )
        if DURATION.match(value):
            return rng.choice((f"duration({quoted})", f"duration({quoted}) + duration('0s')"))
        if BASE64.match(value):
            return f"bytes(b64decode({quoted}))"
        return rng.choice((f"{quoted} + ''", f"'' + {quoted}", f"string({quoted})", quoted))
    if isinstance(value, list):
        parts = [typed_literal(rng, item, keys) for item in value]
        if rng.random() < 0.3:
            at = rng.randint(0, len(parts))
            return f"[{', '.join(parts[:at])}] + [{', '.join(parts[at:])}]"
        return f"[{', '.join(parts)}]"
    names = [quote(rng, key) for key in value]
    if keys and value and rng.random() < 0.8:
        if all(re.match(r"(0|[1-9][0-9]{0,8})\Z", key) for key in value):
            names = [*value] if rng.random() < 0.5 else [f"{key}u" for key in value]
        elif all(key in ("true", "false") for key in value):
            names = [*value]
        elif all(TIMESTAMP.match(key) for key in value):
            names = [f"timestamp('{key}')" for key in value]
    items = [typed_literal(rng, item, keys) for item in value.values()]
    return "{" + ", ".join(f"{name}: {item}" for name, item in zip(names, items)) + "}"


class Gen:
    def __init__(self, rng, env: dict):
        self.rng = rng
        self.env = env
        self.leaves: dict[str, list] = {}
        self.fresh = 0
        for root, value in env.items():
            for path, item in _paths(value):
                if path:
                    self.leaves.setdefault(kind_of(item), []).append((root, path, item))

    def expr(self, kind=None, depth=2):
        """-> (text, value)"""
        rng = self.rng
        if kind is None:
            kind = rng.choice(("int", "str", "bool", "list", "map", "str", "int"))
        text, value = getattr(self, f"_{kind}")(depth)
        if depth > 0 and rng.random() < 0.12:
            test_text, test = self._bool(depth - 1)
            other_text, other = getattr(self, f"_{kind}")(0)
            if rng.random() < 0.5:
                return f"({test_text} ? {text} : {other_text})", value if test else other
            return f"({test_text} ? {other_text} : {text})", other if test else value
        return text, value

    def path(self, kind):
        choices = self.leaves.get(kind)
        if not choices:
            return None
        root, path, value = self.rng.choice(choices)
        return access(self.rng, root, path), value

    def any_path(self):
        kinds = [kind for kind in self.leaves if kind != "null"]
        return self.path(self.rng.choice(sorted(kinds))) if kinds else None

    def _leaf(self, kind, make):
        if self.rng.random() < 0.75:
            found = self.path(kind)
            if found:
                return found
        value = make()
        return literal(self.rng, value), value

    def _int(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.45:
            return self._leaf("int", lambda: rng.randrange(0, 50))
        if roll < 0.7:
            op = rng.choice("+-")
            left, lv = self._int(depth - 1)
            right, rv = self._int(depth - 1)
            return f"({left} {op} {right})", lv + rv if op == "+" else lv - rv
        if roll < 0.85:
            kind = rng.choice(("list", "str", "map"))
            inner, value = self.expr(kind, depth - 1)
            if rng.random() < 0.5:
                return f"size({inner})", len(value)
            return f"({inner}).size()", len(value)
        inner, value = self._int(depth - 1)
        factor = rng.choice((2, 3))
        return f"({inner} * {factor})", value * factor

    def _float(self, depth):
        return self._leaf("float", lambda: self.rng.choice((0.5, 1.5)))

    def _str(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            return self._leaf("str", lambda: rng.choice(("p", "q-r", "Zed", "x/y")))
        if roll < 0.65:
            left, lv = self._str(depth - 1)
            right, rv = self._str(depth - 1)
            return f"({left} + {right})", lv + rv
        if roll < 0.75:
            inner, value = self._str(depth - 1)
            return f"({inner}).lower()", value.lower()
        if roll < 0.85:
            inner, value = self._int(depth - 1)
            return f"string({inner})", str(value)
        if roll < 0.93:
            inner, value = self._str(depth - 1)
            return f"({inner}).replace('-', '_')", value.replace("-", "_")
        inner, value = self._str(depth - 1)
        return f"({inner}).split_first('-')", value.split("-", 1)[0] if value else ""

    def _bool(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.3:
            return self._leaf("bool", lambda: rng.random() < 0.5)
        if roll < 0.5:
            left, lv = self._int(depth - 1)
            right, rv = self._int(depth - 1)
            op = rng.choice(("<", "<=", ">", ">=", "==", "!="))
            result = {
                "<": lv < rv,
                "<=": lv <= rv,
                ">": lv > rv,
                ">=": lv >= rv,
                "==": lv == rv,
                "!=": lv != rv,
            }[op]
            return f"({left} {op} {right})", result
        if roll < 0.62:
            left, lv = self._str(depth - 1)
            right, rv = self._str(depth - 1)
            if rng.random() < 0.5:
                return f"({left} == {right})", lv == rv
            return f"({left}).startsWith({right})", lv.startswith(rv)
        if roll < 0.82:
            left, lv = self._bool(depth - 1)
            right, rv = self._bool(depth - 1)
            if rng.random() < 0.5:
                return f"({left} && {right})", lv and rv
            return f"({left} || {right})", lv or rv
        if roll < 0.9:
            inner, value = self._bool(depth - 1)
            return f"!({inner})", not value
        found = self.any_path()
        if found and "[" not in found[0] and "." in found[0]:
            return f"has({found[0]})", True
        return "true", True

    def _list(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.35:
            return self._leaf("list", lambda: [rng.randrange(9) for _ in range(3)])
        if roll < 0.6:
            parts = [self.expr(rng.choice(("int", "str", "bool")), depth - 1) for _ in range(rng.randint(0, 3))]
            return "[" + ", ".join(p[0] for p in parts) + "]", [p[1] for p in parts]
        var = self._var()
        numbers = [rng.randrange(9) for _ in range(rng.randint(0, 4))]
        source = literal(rng, numbers)
        if roll < 0.75:
            extra, value = self._int(depth - 1)
            return (
                f"{source}.map({var}, {var} + {extra})",
                [number + value for number in numbers],
            )
        if roll < 0.87:
            extra, value = self._int(depth - 1)
            return (
                f"{source}.filter({var}, {var} >= {extra})",
                [number for number in numbers if number >= value],
            )
        extra, value = self.expr(rng.choice(("str", "int")), depth - 1)
        return (
            f"{source}.map({var}, {{'k': {extra}, 'n': {var}}})",
            [{"k": value, "n": number} for number in numbers],
        )

    def _map(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            return self._leaf("map", lambda: {"k": rng.randrange(9)})
        if roll < 0.8:
            keys = rng.sample(("p", "q", "r", "s t", "u.v"), rng.randint(0, 3))
            parts = [(key, self.expr(None, depth - 1)) for key in keys]
            return (
                "{"
                + ", ".join(f"{quote(rng, key)}: {part[0]}" for key, part in parts)
                + "}",
                {key: part[1] for key, part in parts},
            )
        left, lv = self._map(depth - 1)
        key = rng.choice(("p", "zz"))
        right, rv = self._int(depth - 1)
        return f"({left}).overlay({{'{key}': {right}}})", {**lv, key: rv}

    def _var(self):
        self.fresh += 1
        return f"v{self.fresh}"


def _paths(value, prefix=()):
    yield prefix, value
    if isinstance(value, dict):
        for key, item in value.items():
            yield from _paths(item, (*prefix, key))
    elif isinstance(value, list):
        for idx, item in enumerate(value):
            yield from _paths(item, (*prefix, idx))
