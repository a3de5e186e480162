"""Expressions which name steps: text together with the labels it names.

Every expression is typed, so that (given every step returns `SHAPE`) it also
evaluates. Names are only ever written out (never computed) and no macro variable
is called `steps`."""

import re

SHAPE = {
    "num": 2,
    "txt": "ab",
    "flag": True,
    "idx": 1,
    "items": [1, 2, 3],
    "words": ["x", "y"],
    "obj": {"deep": {"leaf": "lf"}, "a key": 4, "num": 7},
    "maps": [{"k": 1, "t": "u"}, {"k": 2, "t": "v"}],
}

# `steps.NAME` is no CEL for these.
UNDOTTABLE = {
    "in", "as", "break", "const", "continue", "else", "false", "for", "function",
    "if", "import", "let", "loop", "package", "namespace", "null", "return",
    "true", "var", "void", "while",
}  # fmt: skip

LABELS = (
    "one", "two", "alpha", "beta_2", "steps", "parent", "inputs", "value", "locals",
    "map_", "size", "all", "filter", "has", "map", "exists", "type", "items", "num", "obj",
    "for", "null", "true", "return", "while", "1st", "2_b", "123", "_lead", "__dunder__",
    "UPPER", "CamelCase", "one_", "one1", "on_e", "alphabet", "dyn", "uint", "string",
    "step", "stepsx", "xsteps", "steps_", "a_very_long_label_of_fortyfive_characters____",
)  # fmt: skip
LABELS = tuple(label for label in LABELS if 3 <= len(label) <= 45)

_IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")

FIELDS_BY_KIND = {
    "int": ("num", "idx"),
    "str": ("txt",),
    "bool": ("flag",),
    "list": ("items", "words", "maps"),
    "ints": ("items",),
    "map": ("obj",),
}


class Text:
    """What is being written, and the labels named so far."""

    def __init__(self, rng, labels, must=()):
        self.rng = rng
        self.labels = list(labels)
        self.must = list(must)
        self.named = set()
        self.forms = set()
        self.vars = 0

    # -- names ---------------------------------------------------------------
    def label(self):
        label = self.must.pop() if self.must else self.rng.choice(self.labels)
        self.named.add(label)
        return label

    def quoted(self, text):
        rng = self.rng
        roll = rng.random()
        if roll < 0.35:
            self.forms.add("single")
            return f"'{text}'"
        if roll < 0.7:
            self.forms.add("double")
            return f'"{text}"'
        if roll < 0.78:
            self.forms.add("triple")
            return f"'''{text}'''" if rng.random() < 0.5 else f'"""{text}"""'
        if roll < 0.86:
            self.forms.add("raw")
            return rng.choice((f"r'{text}'", f'r"{text}"', f"R'{text}'"))
        self.forms.add("escaped")
        at = rng.randrange(len(text))
        code = ord(text[at])
        escape = rng.choice((f"\\x{code:02x}", f"\\u{code:04x}", f"\\{code:03o}"))
        return f"'{text[:at]}{escape}{text[at + 1:]}'"

    def step(self):
        """An expression which is a step's value."""
        rng = self.rng
        label = self.label()
        root = "steps"
        roll = rng.random()
        if roll < 0.08:
            self.forms.add("(steps)")
            root = "(steps)"
        elif roll < 0.1:
            root = "((steps))"
        dottable = _IDENT.match(label) and label not in UNDOTTABLE
        if dottable and rng.random() < 0.5:
            self.forms.add("dot")
            text = rng.choice((f"{root}.{label}",) * 4 + (f"{root} . {label}",))
        else:
            self.forms.add("index")
            name = self.quoted(label)
            if rng.random() < 0.1:
                self.forms.add("(name)")
                name = f"({name})"
            text = rng.choice((f"{root}[{name}]",) * 4 + (f"{root}[ {name} ]",))
        if rng.random() < 0.1:
            self.forms.add("(step)")
            text = f"({text})"
        return text

    def member(self, of, key):
        rng = self.rng
        if key == "a key" or rng.random() < 0.25:
            mark = rng.choice("'\"")
            return f"{of}[{mark}{key}{mark}]"
        return f"{of}.{key}"

    def var(self):
        self.vars += 1
        return f"v{self.vars}"

    # -- typed expressions ---------------------------------------------------
    def of(self, kind, depth=2):
        rng = self.rng
        if depth > 0:
            roll = rng.random()
            if roll < 0.08:
                self.forms.add("ternary")
                return (
                    f"({self.of('bool', depth - 1)} ? {self.of(kind, depth - 1)} : "
                    f"{self.of(kind, depth - 1)})"
                )
            if roll < 0.12:
                self.forms.add("list-index")
                return f"[{self.of(kind, depth - 1)}, {self.of(kind, 0)}][{rng.randrange(2)}]"
            if roll < 0.16:
                self.forms.add("map-index")
                access = rng.choice((".zz", "['zz']"))
                return f"{{'zz': {self.of(kind, depth - 1)}}}{access}"
            if roll < 0.2:
                self.forms.add("paren")
                return f"({self.of(kind, depth - 1)})"
        return getattr(self, f"_{kind}")(depth)

    def _plain(self, kind):
        return {
            "int": ("3", "parent.num", "(1 + 2)"),
            "str": ("'st'", "parent.txt", "\"q\""),
            "bool": ("true", "parent.flag", "(1 < 2)"),
            "list": ("[1, 2]", "parent.items"),
            "ints": ("[1, 2]", "parent.items"),
            "map": ("{'p': 1}", "parent.obj"),
        }[kind][self.rng.randrange(2)]

    def _leaf(self, kind):
        rng = self.rng
        if rng.random() < (0.02 if self.must else 0.3):
            return self._plain(kind)
        if kind == "int" and rng.random() < 0.3:
            self.forms.add("deep")
            return self.member(self.member(self.step(), "obj"), rng.choice(("num", "a key")))
        if kind == "str" and rng.random() < 0.3:
            self.forms.add("deep")
            return self.member(
                self.member(self.member(self.step(), "obj"), "deep"), "leaf"
            )
        if kind == "map" and rng.random() < 0.4:
            return self.step()
        if kind == "str" and rng.random() < 0.2:
            return f"{self.step()}.words[0]"
        if kind == "int" and rng.random() < 0.2:
            return f"{self.step()}.maps[1].k"
        if rng.random() < 0.1:
            self.forms.add("ternary-step")
            of = f"({self.of('bool', 0)} ? {self.step()} : {self.step()})"
        else:
            of = self.step()
        return self.member(of, rng.choice(FIELDS_BY_KIND[kind]))

    def _int(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.3:
            return self._leaf("int")
        if roll < 0.5:
            self.forms.add("arithmetic")
            op = rng.choice(("+", "-", "*"))
            return f"({self.of('int', depth - 1)} {op} {self.of('int', depth - 1)})"
        if roll < 0.6:
            self.forms.add("negate")
            return f"-{self.step()}.num" if rng.random() < 0.5 else f"-({self.of('int', depth - 1)})"
        if roll < 0.75:
            self.forms.add("call")
            kind = rng.choice(("list", "str", "map"))
            inner = self.of(kind, depth - 1)
            return rng.choice((f"size({inner})", f"({inner}).size()"))
        if roll < 0.85:
            self.forms.add("index-by-step")
            return f"{self.step()}.items[{self.step()}.idx]"
        if roll < 0.93:
            self.forms.add("macro-receiver")
            return f"{self.of('ints', depth - 1)}.map({(v := self.var())}, {v} + {self.of('int', depth - 1)})[0]"
        return f"int({self.of('int', depth - 1)})"

    def _str(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            return self._leaf("str")
        if roll < 0.6:
            self.forms.add("concat")
            return f"({self.of('str', depth - 1)} + {self.of('str', depth - 1)})"
        if roll < 0.7:
            self.forms.add("call")
            return f"string({self.of('int', depth - 1)})"
        if roll < 0.85:
            self.forms.add("method-argument")
            return (
                f"({self.of('str', depth - 1)}).replace("
                f"{self.of('str', depth - 1)}, {self.of('str', depth - 1)})"
            )
        if roll < 0.92:
            self.forms.add("method")
            return f"{self.step()}.txt.lower()"
        self.forms.add("index-by-step")
        return f"{{'lf': {self.of('str', depth - 1)}}}[{self.step()}.obj.deep.leaf]"

    def _bool(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.2:
            return self._leaf("bool")
        if roll < 0.3:
            self.forms.add("relation")
            op = rng.choice(("<", "<=", ">", ">=", "==", "!="))
            return f"({self.of('int', depth - 1)} {op} {self.of('int', depth - 1)})"
        if roll < 0.36:
            self.forms.add("whole-equality")
            return f"({self.step()} == {self.step()})"
        if roll < 0.48:
            self.forms.add("logic")
            op = rng.choice(("&&", "||"))
            return f"({self.of('bool', depth - 1)} {op} {self.of('bool', depth - 1)})"
        if roll < 0.55:
            self.forms.add("not")
            return f"!{self.step()}.flag" if rng.random() < 0.5 else f"!({self.of('bool', depth - 1)})"
        if roll < 0.67:
            self.forms.add("has")
            return f"has({self.step()}.{rng.choice(('num', 'nope', 'obj.deep', 'obj.nope'))})"
        if roll < 0.75:
            self.forms.add("in")
            left, right = rng.choice((("int", "ints"), ("str", "map")))
            return f"({self.of(left, depth - 1)} in {self.of(right, depth - 1)})"
        if roll < 0.93:
            self.forms.add("quantifier")
            var = self.var()
            return (
                f"{self.of('ints', depth - 1)}.{rng.choice(('all', 'exists', 'exists_one'))}"
                f"({var}, {var} < {self.of('int', depth - 1)})"
            )
        self.forms.add("method-argument")
        return f"({self.of('str', depth - 1)}).{rng.choice(('startsWith', 'endsWith', 'contains'))}({self.of('str', depth - 1)})"

    def _ints(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            return self._leaf("ints")
        var = self.var()
        if roll < 0.55:
            self.forms.add("filter")
            return f"{self.of('ints', depth - 1)}.filter({var}, {var} >= {self.of('int', depth - 1)})"
        if roll < 0.7:
            self.forms.add("map")
            return f"{self.of('ints', depth - 1)}.map({var}, {var} + {self.of('int', depth - 1)})"
        if roll < 0.8:
            self.forms.add("macro-in-macro")
            inner = self.var()
            return (
                f"{self.of('ints', 0)}.map({var}, {self.of('ints', 0)}"
                f".filter({inner}, {inner} != {self.of('int', 0)}).size())"
            )
        if roll < 0.9:
            self.forms.add("list-literal")
            return f"[{self.of('int', depth - 1)}, {self.of('int', depth - 1)}]"
        return f"({self.of('ints', depth - 1)} + {self.of('ints', depth - 1)})"

    def _list(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.3:
            return self._leaf("list")
        if roll < 0.6:
            return self.of("ints", depth - 1)
        if roll < 0.8:
            self.forms.add("list-literal")
            kinds = [rng.choice(("int", "str", "bool", "map")) for _ in range(rng.randint(1, 3))]
            return "[" + ", ".join(self.of(kind, depth - 1) for kind in kinds) + "]"
        self.forms.add("map")
        var = self.var()
        return (
            f"{self.step()}.maps.map({var}, {{'k': {var}.k, 'w': {self.of('str', depth - 1)}}})"
        )

    def _map(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.35:
            return self._leaf("map")
        if roll < 0.6:
            self.forms.add("map-value")
            kind = rng.choice(("int", "str", "bool", "list", "map"))
            return f"{{'p': {self.of(kind, depth - 1)}, 'q': {self.of('int', 0)}}}"
        if roll < 0.75:
            self.forms.add("map-key")
            return f"{{{self.of('str', depth - 1)}: {self.of('int', 0)}}}"
        if roll < 0.9:
            self.forms.add("overlay")
            return f"({self.of('map', depth - 1)}).overlay({self.of('map', depth - 1)})"
        return f"{{'num': {self.of('int', depth - 1)}}}"


def write(rng, kind, labels, depth=3, must=()):
    """-> (expression text, labels it names, syntactic forms used)"""
    must = list(must)
    rng.shuffle(must)
    for _ in range(6):
        text = Text(rng, labels, must)
        expr = text.of(kind, depth)
        if not text.must:
            break
    else:
        # Make sure they are all named.
        named, text.must = list(text.must), []
        for label in named:
            other = Text(rng, labels, [label])
            extra = other.of("bool", 0)
            while other.must:
                other = Text(rng, labels, [label])
                extra = other.of("bool", 0)
            text.named |= other.named
            text.forms |= other.forms
            expr = {
                "bool": f"({expr} || {extra})",
            }.get(kind, f"({extra} ? {expr} : {expr})")
    return expr, text.named, text.forms
