"""Workflow scenarios: generated Workflows (Value-/ResourceFunctions, nested
Workflows, refSwitch, forEach, skipIf, state) together with an independent model
of what every step must do: the class of its outcome, its value, which functions
are evaluated with exactly which inputs, and which objects are touched.

Expressions are generated as triples (text, steps named in it, Python closure),
so the model never evaluates CEL."""

import copy
import json
from collections import Counter
from dataclasses import dataclass, field, replace
from typing import Any, Callable

from kmon import defs, probe
from kmon.cluster import Cluster
from kmon.rf import OWNER_REF

API = ("kmon.test/v1", "Widget", "widgets")
NAMESPACE = "ns-a"
OWNER = (NAMESPACE, OWNER_REF)

RANK = {"DepSkip": 0, "Skip": 1, "Ok": 2, "Retry": 3, "PermFail": 4}
KEYS = {
    "Skip": "skip",
    "DepSkip": "depSkip",
    "Retry": "retry",
    "PermFail": "permFail",
}
REASONS = {
    "Ready": "Ok",
    "Skip": "Skip",
    "DepSkip": "DepSkip",
    "Wait": "Retry",
    "Failure": "PermFail",
}


class Wild:
    """A value which the property does not determine."""

    def __repr__(self):
        return "<any>"

    def __deepcopy__(self, memo):
        return self


WILD = Wild()


class Whole(dict):
    """A map whose keys may differ between evaluations: only referred to whole."""


class Typed(str):
    """A timestamp or duration, written as it is shown."""


def matches(expected, got) -> bool:
    if expected is WILD:
        return True
    if isinstance(expected, Typed):
        return str(expected) == got
    if isinstance(expected, dict):
        return (
            isinstance(got, dict)
            and expected.keys() == got.keys()
            and all(matches(value, got[key]) for key, value in expected.items())
        )
    if isinstance(expected, list):
        return (
            isinstance(got, list)
            and len(expected) == len(got)
            and all(map(matches, expected, got))
        )
    return type(expected) is type(got) and expected == got


# --- expressions --------------------------------------------------------------


@dataclass
class Expr:
    text: str
    fn: Callable[[dict], Any]
    deps: frozenset = frozenset()

    def value(self, env):
        return copy.deepcopy(self.fn(env))


def lit(value) -> Expr:
    return Expr(_literal(value), lambda env: value)


def _literal(value):
    if value is None:
        return "null"
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, Typed):
        return f"{'duration' if value.endswith('s') else 'timestamp'}('{value}')"
    if isinstance(value, str):
        return json.dumps(value)
    if isinstance(value, list):
        return "[" + ", ".join(map(_literal, value)) + "]"
    if isinstance(value, dict):
        return (
            "{" + ", ".join(f"{json.dumps(k)}: {_literal(v)}" for k, v in value.items()) + "}"
        )
    return repr(value)


def _walk(rng, value, limit=400):
    """A random path into `value`, not ending at something large."""
    path = []
    while isinstance(value, (dict, list)) and value:
        if isinstance(value, Whole):
            break
        big = len(repr(value)) > limit
        if path and not big and rng.random() < 0.4:
            break
        if not path and not big and rng.random() < 0.15:
            break
        if isinstance(value, dict):
            keys = [key for key in value if not _opaque(value[key])]
            if not keys:
                break
            key = rng.choice(keys)
        else:
            key = rng.randrange(len(value))
            if _opaque(value[key]):
                break
        path.append(key)
        value = value[key]
    return path, value


def _access(rng, root, path):
    text = root
    for key in path:
        if isinstance(key, int):
            text += f"[{key}]"
        elif key.isidentifier() and rng.random() < 0.8:
            text += f".{key}"
        else:
            text += rng.choice((f"['{key}']", f'["{key}"]'))
    return text


def _get(root, path):
    def fn(env):
        value = env
        for key in (*root, *path):
            value = value[key]
        return value

    return fn


class Exprs:
    """Generates expressions over a sample environment of the same shape as
    every environment they will be evaluated in."""

    def __init__(self, rng, sample: dict):
        self.rng = rng
        self.sample = sample
        self.count = 0

    def step(self, label) -> Expr:
        """Something named by, and below, one step."""
        rng = self.rng
        value = self.sample["steps"][label]
        root = rng.choice(
            (f"steps.{label}",) * 3 + (f"steps['{label}']", f'steps["{label}"]')
        )
        deps = frozenset([label])
        if _opaque(value):
            return Expr(
                f"size({root})",
                lambda env: len(env["steps"][label]),
                deps,
            )
        path, found = _walk(rng, value)
        if isinstance(found, Whole):
            return self.wrap(
                Expr(_access(rng, root, path), _get(("steps", label), path), deps), None
            )
        if _opaque(found) or len(repr(found)) > 400:
            return Expr(
                f"size({_access(rng, root, path)})",
                lambda env: len(_get(("steps", label), path)(env)),
                deps,
            )
        return self.wrap(
            Expr(_access(rng, root, path), _get(("steps", label), path), deps),
            found,
        )

    def path(self, name) -> Expr:
        """Something below another name."""
        rng = self.rng
        path, found = _walk(rng, self.sample[name])
        if not path or _opaque(found):
            return lit(rng.choice((1, "x")))
        return self.wrap(
            Expr(_access(rng, name, path), _get((name,), path)),
            None if isinstance(found, Whole) else found,
        )

    def any(self, labels=()) -> Expr:
        rng = self.rng
        roll = rng.random()
        if labels and roll < 0.65:
            return self.step(rng.choice(list(labels)))
        if self.sample.get("parent") is not None and roll > (0.4 if not self.sample["parent"] else 0.97):
            return rng.choice(
                (
                    Expr("size(parent)", lambda env: len(env["parent"])),
                    Expr("parent.map(k, 1)", lambda env: [1 for _ in env["parent"]]),
                )
            )
        names = [n for n in self.sample if n != "steps" and self.sample[n]]
        if names and roll < 0.9:
            return self.path(rng.choice(names))
        if rng.random() < 0.4:
            return lit(Typed(rng.choice(("2024-02-29T12:00:00Z", "3600s"))))
        return lit(rng.choice((3, "plain", True, [1, "two"], {"k": {"v": 1}})))

    def wrap(self, expr: Expr, sample) -> Expr:
        """The same reference, inside other syntax."""
        rng = self.rng
        text, fn, deps = expr.text, expr.fn, expr.deps
        if rng.random() < 0.35:
            return expr
        self.count += 1
        var = f"v{self.count}"
        forms = [
            (f"[{text}][0]", fn),
            (f"({text})", fn),
            (f"[1, {text}]", lambda env: [1, fn(env)]),
            (f"{{'k': {text}}}", lambda env: {"k": fn(env)}),
            (f"{{'k': {text}}}.k", fn),
            (f"{{'a': {{'b': [{text}]}}}}.a.b[0]", fn),
            (f"(true ? {text} : {text})", fn),
            (f"[1, 2].map({var}, {text})", lambda env: [fn(env), fn(env)]),
            (
                f"[1, 2].map({var}, {{'i': {var}, 'x': [{text}]}})",
                lambda env: [{"i": i, "x": [fn(env)]} for i in (1, 2)],
            ),
            (
                f"{{'a': 1}}.overlay({{'b': {text}}})",
                lambda env: {"a": 1, "b": fn(env)},
            ),
            (f"[[{text}], [1]].flatten()", lambda env: [fn(env), 1]),
        ]
        if isinstance(sample, bool):
            forms += [
                (f"!{text}", lambda env: not fn(env)),
                (f"{text} ? 'y' : 'n'", lambda env: "y" if fn(env) else "n"),
                (f"{text} || false", fn),
            ]
        elif isinstance(sample, int):
            forms += [
                (f"{text} + 1", lambda env: fn(env) + 1),
                (f"10 * {text}", lambda env: 10 * fn(env)),
                (f"string({text})", lambda env: str(fn(env))),
                (f"[5, {text}].exists({var}, {var} == {text})", lambda env: True),
                (
                    f"size([0, 1, 2].filter({var}, {var} < {text}))",
                    lambda env: len([i for i in range(3) if i < fn(env)]),
                ),
                (f"-({text})", lambda env: -fn(env)),
                (f"{text} > 2 && true", lambda env: fn(env) > 2),
            ]
        elif isinstance(sample, str) and not isinstance(sample, Typed):
            forms += [
                (f"{text} + '-x'", lambda env: fn(env) + "-x"),
                (f"'x-' + {text}", lambda env: "x-" + fn(env)),
                (f"size({text})", lambda env: len(fn(env))),
                (f"{text} in ['zzz', {text}]", lambda env: True),
                (f"b64decode(b64encode({text}))", fn),
                (f"'a-b'.replace('b', {text})", lambda env: "a-" + fn(env)),
                (f"{{{text}: 1}}", lambda env: Whole({fn(env): 1})),
            ]
        elif isinstance(sample, list):
            forms += [
                (f"size({text})", lambda env: len(fn(env))),
                (f"{text}.map({var}, {var})", fn),
                (f"{text}.filter({var}, true)", fn),
                (f"{text} + [1]" if not sample else f"size({text}) + 1", 
                 (lambda env: fn(env) + [1]) if not sample else (lambda env: len(fn(env)) + 1)),
            ]
        elif isinstance(sample, dict):
            forms += [
                (f"size({text})", lambda env: len(fn(env))),
                (
                    f"{text}.overlay({{'kmon': 1}})",
                    lambda env: {**fn(env), "kmon": 1},
                ),
            ]
        new, new_fn = rng.choice(forms)
        return Expr(new, new_fn, deps)

    def truth(self, labels, wanted: bool) -> Expr:
        """A boolean expression with a known value, naming `labels`."""
        rng = self.rng
        parts, deps = [], frozenset()
        for label in labels:
            part = self.step(label)
            deps |= part.deps
            parts.append((f"size([{part.text}]) == 1", True))
            # reads only scalars through ==, which CEL compares by type
            if rng.random() < 0.3:
                parts.append((f"[{part.text}].all(q, true)", True))
        if not parts or rng.random() < 0.6:
            parts.append(
                rng.choice((("parent.yes", True), ("!parent.no", True)))
                if "yes" in self.sample["parent"]
                else ("size(parent) == 0", True)
            )
        texts = [text for text, _ in parts]
        text = " && ".join(texts)
        if wanted:
            return Expr(text, lambda env: True, deps)
        return Expr(
            rng.choice((f"!({text})", f"({text}) ? false : true", f"({text}) == false")),
            lambda env: False,
            deps,
        )


def _opaque(value):
    if value is WILD:
        return True
    return isinstance(value, list) and any(item is WILD for item in value)


# --- templates: nested data holding expressions --------------------------------


def render(template):
    if isinstance(template, Expr):
        return f"={template.text}"
    if isinstance(template, dict):
        return {key: render(value) for key, value in template.items()}
    if isinstance(template, list):
        return [render(value) for value in template]
    return template


def fill(template, env):
    if isinstance(template, Expr):
        return template.value(env)
    if isinstance(template, dict):
        return {key: fill(value, env) for key, value in template.items()}
    if isinstance(template, list):
        return [fill(value, env) for value in template]
    return copy.deepcopy(template)


def named(template) -> frozenset:
    if isinstance(template, Expr):
        return template.deps
    if isinstance(template, dict):
        return frozenset().union(*map(named, template.values()))
    if isinstance(template, list):
        return frozenset().union(*map(named, template))
    return frozenset()


# --- logic ----------------------------------------------------------------------


@dataclass
class Done:
    cls: str
    value: Any = None
    events: list = field(default_factory=list)  # (function id, inputs)
    objects: list = field(default_factory=list)  # Touch
    selected: list = field(default_factory=list)


@dataclass
class Touch:
    name: str
    logic: Any
    inputs: Any
    ops: tuple  # mutating operations
    touched: bool = True


@dataclass
class Function:
    kind: str
    name: str
    ident: str
    mode: str
    spec: dict
    value: dict  # returned next to `got`
    object_name: Callable[[dict], str] | None = None
    api: tuple = API

    def install_order(self):
        yield self

    def hypothetical(self, inputs):
        return {**copy.deepcopy(self.value), "got": copy.deepcopy(inputs)}

    def run(self, inputs, ran="evaluated") -> Done:
        events = [(self.ident, copy.deepcopy(inputs))]
        mode = self.mode
        if self.kind == "ValueFunction":
            if mode == "ok":
                return Done("Ok", self.hypothetical(inputs), events)
            return Done(mode, None, events)
        name = self.object_name(inputs)
        if mode.startswith("pre-"):
            return Done(mode[4:], None, events, [Touch(name, self, inputs, (), False)])
        ops = {
            "drift": ("PATCH",),
            "recreate": ("DELETE",),
            "delete": ("DELETE",),
            "absent": ("POST",),
        }
        touch = Touch(name, self, inputs, ops.get(mode, ()))
        if mode in ("drift", "recreate", "delete", "absent", "readonly-absent"):
            return Done("Retry", None, events, [touch])
        if mode.startswith("post-"):
            return Done(mode[5:], None, events, [touch])
        return Done("Ok", self.hypothetical(inputs), events, [touch])

    def target(self, inputs):
        return {
            "apiVersion": self.api[0],
            "kind": self.api[1],
            "metadata": {"name": self.object_name(inputs), "namespace": NAMESPACE},
            "spec": {"id": self.ident, "got": copy.deepcopy(inputs)},
        }


@dataclass
class SubWorkflow:
    name: str
    steps: list
    kind: str = "Workflow"

    def install_order(self):
        for step in self.steps:
            yield from step.install_order()
        yield self

    @property
    def spec(self):
        return {"steps": [step.spec() for step in self.steps]}

    def hypothetical(self, inputs):
        env = {"parent": inputs, "steps": {}}
        state = {}
        for step in self.steps:
            value = step.hypothetical(env)
            env["steps"][step.label] = value
            if step.state is not None:
                state.update(fill(step.state, {"value": value}))
        return Whole(state)

    def run(self, inputs) -> Done:
        done, _, state = run_steps(self.steps, inputs)
        total = Done(overall(done))
        for step in done.values():
            total.events += step.events
            total.objects += step.objects
        if total.cls == "Ok":
            total.value = state
        return total


def overall(done: dict) -> str:
    return max((step.cls for step in done.values()), key=RANK.get)


@dataclass
class Step:
    label: str
    inputs: dict | None = None
    logic: Any = None
    switch: Any = None  # (Expr, {case: logic}, default case or None)
    skip: Expr | None = None
    each: Any = None  # (Expr, key)
    state: dict | None = None
    condition: dict | None = None
    value_only: bool = False
    # (what, text, mode of the items for which it fails or None): in the definition,
    # the expression is replaced by one which can not be evaluated, or which is of a
    # type that means nothing there.
    broken: Any = None

    def breaks(self, what):
        return self.broken is not None and self.broken[0] == what

    def text(self, what, expr):
        if not self.breaks(what):
            return expr.text
        _, bad, mode = self.broken
        if mode is not None:
            return f"inputs.{self.each[1]}.mode == {mode!r} ? {bad} : ({expr.text})"
        # Still naming everything it did.
        return f"[{expr.text}, {bad}][1]"

    @property
    def deps(self) -> frozenset:
        found = named(self.inputs) if self.inputs else frozenset()
        for expr in (
            self.skip,
            self.each and self.each[0],
            self.switch and self.switch[0],
        ):
            if expr is not None:
                found |= expr.deps
        return found

    def logics(self):
        return list(self.switch[1].values()) if self.switch else [self.logic]

    def install_order(self):
        for logic in self.logics():
            yield from logic.install_order()

    def spec(self):
        spec: dict = {"label": self.label}
        if self.switch:
            expr, cases, default = self.switch
            spec["refSwitch"] = {
                "switchOn": f"={self.text('switch', expr)}",
                "cases": [
                    {
                        "case": case,
                        "kind": logic.kind,
                        "name": logic.name,
                        **({"default": True} if case == default else {}),
                    }
                    for case, logic in cases.items()
                ],
            }
        else:
            spec["ref"] = {"kind": self.logic.kind, "name": self.logic.name}
        if self.inputs is not None:
            spec["inputs"] = render(self.inputs)
        if self.breaks("inputs"):
            spec["inputs"] = {**spec.get("inputs", {}), **self.broken[1]}
        if self.skip:
            spec["skipIf"] = f"={self.text('skip', self.skip)}"
        if self.each:
            spec["forEach"] = {
                "itemIn": f"={self.text('each', self.each[0])}",
                "inputKey": self.each[1],
            }
        if self.state is not None:
            spec["state"] = render(self.state)
        if self.condition:
            spec["condition"] = self.condition
        return spec

    def hypothetical(self, env):
        """The value the step has, should everything in it succeed."""
        inputs = fill(self.inputs, env) if self.inputs else {}

        def one(inputs):
            if not self.switch:
                return self.logic.hypothetical(inputs)
            chosen = self.choose(env, inputs)
            return chosen.hypothetical(inputs) if chosen else {}

        if self.each:
            expr, key = self.each
            results = []
            for item in expr.value(env):
                value = one({**inputs, key: item})
                chosen = (
                    self.choose(env, {**inputs, key: item})
                    if self.switch
                    else self.logic
                )
                results.append(WILD if _skips(chosen) else value)
            return results
        return one(inputs)

    def choose(self, env, inputs):
        expr, cases, default = self.switch
        selected = expr.value({**env, "inputs": inputs})
        if selected in cases:
            return cases[selected]
        return cases[default] if default is not None else None

    def run_logic(self, env, inputs) -> Done:
        if not self.switch:
            return self.logic.run(inputs)
        if self.breaks("switch") and self.broken[2] in (
            None,
            self.each and inputs[self.each[1]].get("mode"),
        ):
            return Done("PermFail")
        chosen = self.choose(env, inputs)
        if chosen is None:
            return Done("PermFail")
        return chosen.run(inputs)

    def run(self, env, done) -> Done:
        if any(done[label].cls != "Ok" for label in self.deps):
            return Done("DepSkip")
        if self.breaks("inputs") or self.breaks("skip"):
            return Done("PermFail")
        inputs = fill(self.inputs, env) if self.inputs else {}
        if self.skip and self.skip.value(env):
            return Done("Skip")
        if self.breaks("each"):
            return Done("PermFail")
        if not self.each:
            return self.run_logic(env, inputs)
        expr, key = self.each
        results = [
            self.run_logic(env, {**copy.deepcopy(inputs), key: item})
            for item in expr.value(env)
        ]
        total = Done("Ok", [])
        for one in results:
            total.events += one.events
            total.objects += one.objects
            if RANK[one.cls] > RANK["Ok"] and RANK[one.cls] > RANK[total.cls]:
                total.cls = one.cls
            total.value.append(one.value if one.cls == "Ok" else WILD)
        if total.cls != "Ok":
            total.value = None
        return total


def _skips(logic):
    """May an item of a forEach come out as a skip (reported as some text)?"""
    if logic is None:
        return True
    if isinstance(logic, SubWorkflow):
        return True
    return logic.mode not in ("ok", "match", "readonly-match", "gone", "never")


def run_steps(steps, parent):
    """-> ({label: Done}, env, merged state)"""
    env = {"parent": parent, "steps": {}}
    done: dict[str, Done] = {}
    state: dict = {}
    for step in steps:
        outcome = step.run(env, done)
        done[step.label] = outcome
        if outcome.cls == "Ok":
            env["steps"][step.label] = outcome.value
            if step.state is not None:
                state.update(fill(step.state, {"value": outcome.value}))
    return done, env, state


# --- scenarios --------------------------------------------------------------------


@dataclass
class Options:
    failing: float = 0.15  # share of functions which do not end up Ok
    resource: float = 0.45
    nested: int = 2
    steps: tuple = (1, 9)
    resource_modes: tuple | None = None
    skip_if: float = 0.18
    no_match: bool = True
    lookup: bool = False
    broken: float = 0  # share of steps with an expression which fails
    nulls: float = 0  # share of scenarios holding nulls (which only use values)


# Switch values which must not be taken for one another.
CONFUSABLE = ("a", "A", " a", "a ", "aa", "ab", "1", "01", "1.0", "true", "null", "a.b", "")


FAILING = (
    "parent.no_such_member",
    "parent.no_such_member.below",
    "1 / 0",
    "[1, 2][5]",
    "{'a': 1}.b",
    "int('x')",
    "[1, 0].map(n, 1 / n)",
    "1 + 'text'",
    "no_such_variable",
)
WRONG_TYPE = {
    "skip": ("'true'", "1", "[true]", "{'a': true}"),
    "each": ("'text'", "5", "{'a': 1}", "true"),
    "switch": ("true", "1.5", "['a']", "{'a': 'b'}"),
}


# Keys of inputs which have a meaning of their own in other places.
RESERVED = ("steps", "parent", "inputs", "value", "locals", "resource")


class Scenario:
    def __init__(self, rng, options: Options | None = None, tag="wf"):
        self.rng = rng
        self.options = options or Options()
        self.nulls = rng.random() < self.options.nulls if self.options.nulls else False
        if self.nulls:
            # Objects do not keep nulls.
            self.options = replace(self.options, resource=0)
        self.tag = defs.unique(tag)
        self.count = 0
        self.installed: list[tuple[str, str]] = []
        self.reusable: list[Function] = []
        self.lookup_kind = "Look" + defs.unique("x").split("-")[1]
        self.trigger = {
            "yes": True,
            "no": False,
            "n": rng.randrange(20),
            "mode": rng.choice("abc"),
            "name": "parent-name",
            "items": [
                {
                    "key": f"k{idx}",
                    "v": rng.randrange(50),
                    "mode": rng.choice("abc"),
                }
                for idx in range(12 if rng.random() < 0.06 else rng.choice((1, 2, 3, 3, 5)))
            ],
            "spec": {"deep": {"list": ["l0", "l1"], "text": "it's"}, "m": {}},
        }
        self.steps = self._steps(
            dict(self.trigger), rng.randint(*self.options.steps), self.options.nested, None
        )
        self.top = SubWorkflow(defs.unique(f"{tag}-top"), self.steps)

    # generation

    def _steps(self, parent_sample, count, nested, suffix):
        rng = self.rng
        steps: list[Step] = []
        env = {"parent": parent_sample, "steps": {}}
        style = rng.choice(("chain", "wide", "mixed", "mixed"))
        labels_pool = [f"step{idx}" for idx in range(30)] + [
            "config", "get_vpc", "db_2", "_under", "Upper", "size_of", "steps_x", "parents",
        ]  # fmt: skip
        rng.shuffle(labels_pool)
        for idx in range(count):
            label = labels_pool[idx]
            earlier = [step.label for step in steps]
            if style == "chain" and earlier:
                pool = earlier[-1:] if rng.random() < 0.7 else earlier
            elif style == "wide":
                pool = earlier[:2] if rng.random() < 0.5 else []
            else:
                pool = rng.sample(earlier, min(len(earlier), rng.randint(0, 3)))
            step = self._step(label, pool, env, nested, suffix, idx)
            if self.options.broken and rng.random() < self.options.broken:
                self._break(step)
            steps.append(step)
            env["steps"][label] = step.hypothetical(env)
        return steps

    def _step(self, label, pool, env, nested, suffix, idx):
        rng = self.rng
        exprs = Exprs(rng, env)
        step = Step(label)
        step.condition = {"type": f"Step{idx}", "name": f"thing {label}"}

        if suffix is None and nested > 0 and rng.random() < 0.05:
            # Nothing is passed on: what it runs has an empty parent.
            step.logic = SubWorkflow(
                defs.unique(f"{self.tag}-wf"),
                self._steps({}, rng.randint(1, 3), nested - 1, None),
            )
            if rng.random() < 0.4:
                step.state = self._state(step.hypothetical(env), label)
            return step

        inputs: dict = {}
        if suffix is not None:
            inputs["sfx"] = Expr(
                rng.choice(("parent.sfx", "parent['sfx']", "'' + parent.sfx"))
                if suffix == "sfx"
                else f"parent.{suffix}.key"
                if suffix != "sfx.item"
                else "parent.sfx + '.' + parent.item.key",
                {
                    "sfx": lambda env: env["parent"]["sfx"],
                    "sfx.item": lambda env: env["parent"]["sfx"]
                    + "."
                    + env["parent"]["item"]["key"],
                }.get(suffix, lambda env: env["parent"][suffix]["key"]),
            )
        needed = list(pool)
        for label_needed in needed:
            if rng.random() < 0.75:
                inputs[f"in_{len(inputs)}"] = self._template(exprs, label_needed)
        for _ in range(rng.choice((0, 1, 1, 2))):
            inputs[f"in_{len(inputs)}"] = exprs.any(pool)
        if rng.random() < 0.3:
            inputs["static"] = rng.choice(
                ("text", 5, True, ["a", {"b": "c"}], {"deep": {"k": "v"}})
            )
        if rng.random() < 0.25:
            # names which mean something elsewhere are ordinary keys here
            for key in rng.sample(RESERVED, rng.randint(1, 3)):
                inputs[key] = rng.choice(
                    (
                        "shadow",
                        {"mode": "z", "yes": False, "no": True, "name": "shadow"},
                        {one: {"id": "shadow", "n": 99} for one in pool or ("step0",)},
                        {"inputs": {"choice": "z"}, "steps": ["shadow"]},
                    )
                )
        if self.nulls and rng.random() < 0.4:
            inputs["nil"] = rng.choice((None, [None], {"a": None, "b": [1, None]}))
        if pool and rng.random() < 0.15:
            inputs["both"] = self._template(exprs, rng.choice(pool))

        if rng.random() < 0.25:
            step.value_only = rng.random() < 0.3
            step.each = (
                self._items(exprs, pool, step.value_only),
                rng.choice(("item", "it", "in_0", *RESERVED))
                if suffix is None
                else "item",
            )
        if rng.random() < self.options.skip_if:
            step.skip = exprs.truth(
                [label for label in pool if rng.random() < 0.5], rng.random() < 0.35
            )
        sample_inputs = fill(inputs, env)
        if step.each:
            items = step.each[0].value(env)
            item = items[0] if items else {"key": "k0", "v": 1, "mode": "a"}
            sample_inputs = {**sample_inputs, step.each[1]: item}

        use_switch = rng.random() < 0.2
        if use_switch:
            cases = {}
            values = "abcdz" if rng.random() < 0.7 else CONFUSABLE
            for case in rng.sample(values, rng.randint(1, 4)):
                cases[case] = self._logic(step, inputs, sample_inputs, nested, suffix)
            switch_expr = self._switch_on(exprs, step, inputs, pool, values)
            default = None
            selectable = self._selectable(step, switch_expr, env, inputs)
            if not selectable <= set(cases):
                if not self.options.no_match or rng.random() < 0.8:
                    default = rng.choice(sorted(cases))
            elif rng.random() < 0.3:
                default = rng.choice(sorted(cases))
            step.switch = (switch_expr, cases, default)
        else:
            step.logic = self._logic(step, inputs, sample_inputs, nested, suffix)

        if inputs or step.each or rng.random() < 0.5:
            step.inputs = inputs or {"static": 1}
        # every use of inputs below refers to the final inputs
        value = step.hypothetical(env)
        if rng.random() < 0.55:
            step.state = self._state(value, label)
        return step

    def _break(self, step):
        rng = self.rng
        forms = ["skip"]
        if not step.skip:
            # (Which of the two is looked at first is not specified.)
            forms += ["inputs"] + ["each"] * bool(step.each)
        if step.switch:
            forms += ["switch"] * 3
        what = rng.choice(forms)
        bad = rng.choice(FAILING)
        mode = None
        if what == "inputs":
            bad = rng.choice(
                (
                    {"oops": f"={bad}"},
                    {"oops": {"deep": ["fine", {"k": f"={bad}"}]}},
                    {"oops": f"=[{{'k': {bad}}}]"},
                )
            )
        elif rng.random() < 0.3:
            bad = rng.choice(WRONG_TYPE[what])
        if what == "switch" and step.each and rng.random() < 0.6:
            mode = rng.choice("abc")
        if what == "skip" and not step.skip:
            step.skip = Expr("false", lambda env: False)
        step.broken = (what, bad, mode)

    def _template(self, exprs, label):
        rng = self.rng
        expr = exprs.step(label)
        roll = rng.random()
        if roll < 0.6:
            return expr
        if roll < 0.75:
            return {"nested": {"x": expr}, "static": "s"}
        if roll < 0.9:
            return ["first", expr, {"k": exprs.step(label)}]
        return {"l": [[expr]]}

    def _items(self, exprs, pool, repeats=False):
        rng = self.rng
        count = rng.choice((0, 1, 2, 3, 4))
        if rng.random() < 0.06:
            count = rng.choice((11, 14, 23))
        items = [
            {"key": f"i{idx}", "v": rng.randrange(50), "mode": rng.choice("abc")}
            for idx in range(count)
        ]
        if repeats:
            # Items which are equal, or which only differ in their types.
            for item in items:
                item.update(key="same", mode="a", v=rng.choice((1, 1, True, 1.0, "1", 0)))
            return lit(items)
        roll = rng.random()
        if "items" in exprs.sample["parent"] and roll < 0.4:
            if rng.random() < 0.3:
                tail = lit(items)
                return Expr(
                    f"parent.items + {tail.text}",
                    lambda env: env["parent"]["items"] + items,
                )
            return Expr("parent.items", lambda env: env["parent"]["items"])
        if pool and roll < 0.75:
            label = rng.choice(pool)
            part = exprs.step(label)
            source = lit(items)
            return Expr(
                f"{source.text}.map(i, {{'key': i.key, 'v': i.v, 'mode': i.mode, "
                f"'dep': [{part.text}]}})",
                lambda env: [{**item, "dep": [part.value(env)]} for item in items],
                part.deps,
            )
        return lit(items)

    def _switch_on(self, exprs, step, inputs, pool, values):
        rng = self.rng
        forms = [lit(rng.choice(values))]
        if step.each:
            key = step.each[1]
            forms += [
                Expr(f"inputs.{key}.mode", lambda env: env["inputs"][key]["mode"])
            ] * 4
            if values is CONFUSABLE:
                forms += [
                    Expr(
                        f"{before!r} + inputs.{key}.mode + {after!r}",
                        lambda env, before=before, after=after: (
                            before + env["inputs"][key]["mode"] + after
                        ),
                    )
                    for before, after in ((" ", ""), ("", " "), ("", "b"), ("a", ""))
                ]
        if "mode" in exprs.sample["parent"]:
            forms += [Expr("parent.mode", lambda env: env["parent"]["mode"])] * 2
        # A static numeral would be delivered as a number.
        wanted = rng.choice([one for one in values if not one[:1].isdigit()])
        joined = rng.choice(values)
        forms += [lit(joined), Expr(f"'' + '{joined}'", lambda env: joined)]
        if "mode" in exprs.sample["parent"]:
            forms += [Expr("parent.mode + ''", lambda env: env["parent"]["mode"])]
        inputs["choice"] = wanted
        forms += [Expr("inputs.choice", lambda env: env["inputs"]["choice"])] * 2
        if pool:
            label = rng.choice(pool)
            part = exprs.step(label)
            selected = rng.choice(values)
            forms += [
                Expr(
                    f"size([{part.text}]) == 1 ? '{selected}' : 'q'",
                    lambda env: selected,
                    part.deps,
                )
            ] * 3
        return rng.choice(forms)

    def _selectable(self, step, expr, env, inputs):
        filled = fill(inputs, env)
        if not step.each:
            return {expr.value({**env, "inputs": filled})}
        each, key = step.each
        return {
            expr.value({**env, "inputs": {**filled, key: item}})
            for item in each.value(env)
        }

    def _logic(self, step, inputs, sample_inputs, nested, suffix):
        rng = self.rng
        self.count += 1
        if nested > 0 and not step.value_only and rng.random() < 0.15:
            if step.each:
                inner_suffix = step.each[1]
                if suffix is not None:
                    inner_suffix = "sfx.item"
            else:
                if "sfx" not in inputs:
                    inputs["sfx"] = f"w{self.count}"
                    sample_inputs["sfx"] = inputs["sfx"]
                inner_suffix = "sfx"
            if "yes" not in inputs:
                inputs["yes"], inputs["no"] = True, False
                sample_inputs["yes"], sample_inputs["no"] = True, False
            name = defs.unique(f"{self.tag}-wf")
            return SubWorkflow(
                name,
                self._steps(
                    dict(sample_inputs), rng.randint(1, 3), nested - 1, inner_suffix
                ),
            )
        return self._function(step, suffix)

    def _function(self, step, suffix):
        rng = self.rng
        if self.reusable and rng.random() < 0.12:
            return rng.choice(self.reusable)
        self.count += 1
        ident = f"f{self.count}"
        name = defs.unique(f"{self.tag}-fn")
        value = {
            "id": ident,
            "n": rng.randrange(9),
            "flag": rng.random() < 0.5,
            "list": [rng.randrange(9), "two"],
            "deep": {"a": {"b": f"deep-{ident}"}},
        }
        for key in rng.sample(list(value), rng.randint(0, 3)):
            if key != "id":
                del value[key]
        if self.nulls and rng.random() < 0.6:
            value["none"] = None
            if "deep" in value:
                value["deep"]["none"] = None
            if rng.random() < 0.3:
                value["nones"] = [None, {"x": None}, None]
        failing = rng.random() < self.options.failing
        spec: dict = {}
        preconditions = []
        if probe.AVAILABLE:
            preconditions.append(
                {
                    "assert": f"=size(kmon_probe('{ident}', inputs)) >= 0",
                    "permFail": {"message": "never"},
                }
            )
        if rng.random() < 0.3:
            preconditions.append({"assert": "=true", "retry": {"message": "no", "delay": 1}})
        returned = {**copy.deepcopy(value), "got": "=inputs"}
        if not step.value_only and rng.random() < self.options.resource:
            mode = "match"
            if failing:
                mode = rng.choice(
                    self.options.resource_modes
                    or (
                        "drift", "recreate", "absent", "readonly-absent", "delete",
                        "pre-Skip", "pre-Retry", "pre-PermFail", "pre-DepSkip",
                        "post-Retry", "post-PermFail", "post-Skip",
                    )
                )  # fmt: skip
            elif rng.random() < 0.25:
                mode = "readonly-match"
            elif rng.random() < 0.15:
                mode = rng.choice(("gone", "never"))
            elif self.options.resource_modes and rng.random() < 0.6:
                mode = rng.choice(self.options.resource_modes)
            each = step.each[1] if step.each else None
            prefix = f"r.{self.tag}.{ident}"
            if each and suffix is not None:
                text = f"='{prefix}.' + inputs.sfx + '.' + inputs.{each}.key"
                object_name = (
                    lambda inputs: f"{prefix}.{inputs['sfx']}.{inputs[each]['key']}"
                )
            elif each:
                text = f"='{prefix}.' + inputs.{each}.key"
                object_name = lambda inputs: f"{prefix}.{inputs[each]['key']}"
            elif suffix is not None:
                text = f"='{prefix}.' + inputs.sfx"
                object_name = lambda inputs: f"{prefix}.{inputs['sfx']}"
            else:
                text = prefix
                object_name = lambda inputs: prefix
            api = API
            if self.options.lookup and rng.random() < 0.5:
                api = (API[0], self.lookup_kind, f"{self.lookup_kind.lower()}s")
            spec = {
                "apiConfig": {
                    "apiVersion": api[0],
                    "kind": api[1],
                    **({"plural": api[2]} if api is API else {}),
                    "namespaced": True,
                    "owned": False if mode.startswith("readonly") else True,
                    "name": text,
                    "namespace": NAMESPACE,
                },
                "resource": {"spec": {"id": ident, "got": "=inputs"}},
                "return": returned,
            }
            if mode.startswith("readonly"):
                spec["apiConfig"]["readonly"] = True
            if mode.startswith("pre-"):
                preconditions.append(_blocking(mode[4:]))
            if mode.startswith("post-"):
                spec["postconditions"] = [_blocking(mode[5:])]
            if mode == "recreate":
                spec["update"] = {"recreate": {"delay": 7}}
            if mode == "never":
                spec["update"] = {"never": {}}
            if mode in ("gone", "delete"):
                spec["apiConfig"]["deleteIfExists"] = True
            elif mode != "never" and rng.random() < 0.4:
                returned["live"] = "=resource.spec.id"
                value["live"] = ident
            if preconditions:
                spec["preconditions"] = preconditions
            return Function(
                "ResourceFunction", name, ident, mode, spec, value, object_name, api
            )
        mode = "ok"
        if failing:
            mode = rng.choice(("Skip", "DepSkip", "Retry", "PermFail"))
            preconditions.append(_blocking(mode))
        if preconditions:
            spec["preconditions"] = preconditions
        if rng.random() < 0.3:
            returned["got"] = "=locals.all"
            spec["locals"] = {"all": "=inputs"}
        spec["return"] = returned
        function = Function("ValueFunction", name, ident, mode, spec, value)
        self.reusable.append(function)
        return function

    def _state(self, value, label):
        rng = self.rng
        exprs = Exprs(rng, {"value": value})
        keys = [f"only_{label}", "shared", "other"]
        state = {}
        for key in rng.sample(keys, rng.randint(1, 3)):
            if isinstance(value, list) and _opaque(value):
                state[key] = Expr("size(value)", lambda env: len(env["value"]))
            elif value:
                state[key] = exprs.path("value")
            else:
                state[key] = rng.choice(("text", 1))
            if rng.random() < 0.2:
                state[key] = {"wrapped": state[key]}
        return state

    # running

    async def install(self):
        for logic in self.top.install_order():
            if (logic.kind, logic.name) in self.installed:
                continue
            await defs.install(logic.kind, logic.name, logic.spec)
            self.installed.append((logic.kind, logic.name))
        from koreo.cache import get_resource_from_cache
        from koreo.result import is_unwrapped_ok

        for kind, name in self.installed:
            got = get_resource_from_cache(defs.KINDS[kind][0], name)
            if not is_unwrapped_ok(got):
                raise defs.NotPrepared(f"{kind} {name}: {defs.outcome(got).brief()}")
        self.workflow = get_resource_from_cache(
            defs.KINDS["Workflow"][0], self.top.name
        )

    async def uninstall(self):
        for kind, name in reversed(self.installed):
            await defs.uninstall(kind, name)
        self.installed = []

    def expected(self):
        return run_steps(self.steps, copy.deepcopy(self.trigger))

    def cluster(self, done=None) -> Cluster:
        """Live objects such that every function behaves as its mode says."""
        cluster = Cluster()
        done = done or self.expected()[0]
        for step in done.values():
            for touch in step.objects:
                live = self.live(touch)
                if live is not None:
                    api = touch.logic.api
                    cluster.put(api[0], api[2], NAMESPACE, touch.name, live)
        return cluster

    def live(self, touch):
        function, mode = touch.logic, touch.logic.mode
        if mode in ("absent", "readonly-absent", "gone") or mode.startswith("pre-"):
            return None
        live = function.target(touch.inputs)
        live["metadata"]["ownerReferences"] = [copy.deepcopy(OWNER_REF)]
        live["metadata"]["uid"] = f"uid-{touch.name}"
        live["status"] = {"extra": "added by another actor"}
        if mode in ("drift", "recreate", "never"):
            live["spec"]["id"] = "something else"
        return live

    async def run(self, cluster):
        return await defs.run_workflow(
            self.workflow, cluster, copy.deepcopy(self.trigger), OWNER
        )

    def definition(self):
        return {
            "trigger": self.trigger,
            "workflow": self.top.spec,
            "logic": {
                f"{logic.kind}:{logic.name}": (
                    getattr(logic, "mode", None),
                    logic.spec,
                )
                for logic in self.top.install_order()
                if logic is not self.top
            },
        }


def _blocking(cls):
    body: dict = {"message": f"{cls} on purpose"}
    if cls == "Retry":
        body["delay"] = 17
    return {"assert": "=1 == 2", KEYS[cls]: body}


def conditions_by_type(run):
    return {condition["type"]: condition for condition in run.conditions}


def events_of(done) -> Counter:
    return Counter(
        (ident, json.dumps(inputs, sort_keys=True, default=repr))
        for step in done.values()
        for ident, inputs in step.events
    )


def observed_events() -> Counter:
    return Counter(
        (ident, json.dumps(inputs, sort_keys=True, default=repr))
        for ident, inputs in probe.seen()
    )
