"""FunctionTests: functions under test, generated test cases and a model of the
state which is handed from one case to the next.

What the Function under test does for some inputs and some resource is found by
running it directly against an in-memory API server, never by the test runner."""

import copy
from dataclasses import dataclass, field

import celpy

from koreo.cel import functions as koreo_functions

from kmon import defs, probe
from kmon.cluster import Cluster, merge_patch
from kmon.rf import strip
from kmon.values import jeq, plain

LAST_APPLIED = "koreo.dev/last-applied-configuration"
OWNER = ("kmon-elsewhere", {"uid": "unit-test-123"})
MODES = ("go", "go", "go", "go", "go", "skip", "depSkip", "retry", "permFail")

_ENV = celpy.Environment(annotations=koreo_functions.koreo_function_annotations)


def last_applied_key():
    """The annotation is koreo's own business, find out what it is called."""
    try:
        from koreo.constants import LAST_APPLIED_ANNOTATION

        return LAST_APPLIED_ANNOTATION
    except ImportError:
        return LAST_APPLIED


LAST_APPLIED = last_applied_key()


class NoValue(Exception):
    """An expression of the harness can not be evaluated here."""


def fill(template, env):
    if isinstance(template, dict):
        return {key: fill(value, env) for key, value in template.items()}
    if isinstance(template, list):
        return [fill(value, env) for value in template]
    if isinstance(template, str) and template.startswith("="):
        try:
            program = _ENV.program(
                _ENV.compile(template[1:]), functions=koreo_functions.koreo_cel_functions
            )
            return plain(
                program.evaluate({k: celpy.json_to_cel(v) for k, v in env.items()})
            )
        except Exception as err:
            raise NoValue(template) from err
    return copy.deepcopy(template)


def merge_inputs(base, overrides):
    """Maps merge key by key, all else replaces."""
    merged = copy.deepcopy(base)
    for key, value in overrides.items():
        if isinstance(value, dict) and isinstance(merged.get(key), dict):
            merged[key] = merge_inputs(merged[key], value)
        else:
            merged[key] = copy.deepcopy(value)
    return merged


def overlay_resource(base, overlay, inputs):
    # What else an overlay can refer to is not specified.
    env = {}

    def apply(into, layer):
        made = copy.deepcopy(into)
        for key, value in layer.items():
            if isinstance(value, dict) and value:
                have = made.get(key)
                made[key] = apply(have if isinstance(have, dict) else {}, value)
            else:
                made[key] = fill(value, env)
        return made

    return apply(base, overlay)


@dataclass
class Behaviour:
    outcome: defs.Outcome
    op: str | None = None
    payload: dict | None = None

    def brief(self):
        return {"outcome": self.outcome, "op": self.op, "payload": self.payload}


@dataclass
class State:
    inputs: dict | None
    resource: dict | None
    ambiguous: bool = False

    def brief(self):
        return {"inputs": self.inputs, "resource": self.resource}


@dataclass
class Function:
    kind: str
    name: str
    spec: dict
    extras: list = field(default_factory=list)
    api: dict | None = None
    directives: dict = field(default_factory=dict)

    async def install(self):
        for kind, name, spec in self.extras:
            await defs.install(kind, name, spec)
        got = await defs.install(self.kind, self.name, self.spec)
        if not isinstance(got, defs.KINDS[self.kind][0]):
            raise defs.NotPrepared(f"{defs.outcome(got).brief()}: {self.spec}")
        self.prepared = got
        # Runs directly; nothing it does can touch the one under test.
        self.twin = await defs.prepared(self.kind, self.spec, self.name)

    async def uninstall(self):
        await defs.uninstall(self.kind, self.name)
        for kind, name, _ in self.extras:
            await defs.uninstall(kind, name)

    async def behave(self, inputs, resource, function=None) -> Behaviour:
        function = function or self.twin
        inputs = copy.deepcopy(inputs or {})
        if self.kind == "ValueFunction":
            return Behaviour(
                await defs.run_vf(function, inputs, copy.deepcopy(resource or {}))
            )
        cluster = Cluster()
        if resource:
            cluster.put(
                self.api["apiVersion"],
                self.api["plural"],
                self.api["namespace"],
                self.api["name"],
                resource,
            )
        out, _ = await defs.run_rf(function, cluster, inputs, copy.deepcopy(OWNER))
        sent = cluster.mutations
        if not sent:
            return Behaviour(out)
        return Behaviour(out, sent[-1].op, copy.deepcopy(sent[-1].payload))


def without_last_applied(obj):
    obj = copy.deepcopy(obj)
    metadata = obj.get("metadata")
    if isinstance(metadata, dict) and isinstance(metadata.get("annotations"), dict):
        metadata["annotations"].pop(LAST_APPLIED, None)
        if not metadata["annotations"]:
            del metadata["annotations"]
    return obj


def materialised(behaviour, resource):
    """-> (what a write leaves behind or None, whether that depends on the kind of merge)"""
    if behaviour.op is None:
        return None, False
    if behaviour.op == "DELETE":
        return {}, False
    if behaviour.op == "POST" or not resource:
        return copy.deepcopy(behaviour.payload), False
    replaced = {**copy.deepcopy(resource), **copy.deepcopy(behaviour.payload)}
    merged = merge_patch(resource, behaviour.payload)
    return replaced, not jeq(replaced, merged)


def effective(state: State, case: dict) -> State:
    """What the Function under test is given by `case`."""
    inputs = copy.deepcopy(state.inputs)
    overrides = case.get("inputOverrides")
    if overrides:
        inputs = merge_inputs(inputs, overrides) if inputs else copy.deepcopy(overrides)
    resource = copy.deepcopy(state.resource)
    ambiguous = state.ambiguous
    if case.get("overlayResource"):
        resource = overlay_resource(resource, case["overlayResource"], inputs or {})
    elif case.get("currentResource"):
        resource = copy.deepcopy(case["currentResource"])
        ambiguous = False
    return State(inputs, resource, ambiguous)


async def after(function, state: State, case: dict):
    """-> (Behaviour, effective State, State for the next case) of one which passes"""
    given = effective(state, case)
    behaviour = await function.behave(given.inputs, given.resource)
    made, ambiguous = materialised(behaviour, given.resource)
    if case.get("variant"):
        return behaviour, given, state
    following = State(
        given.inputs,
        given.resource if behaviour.op is None else made,
        given.ambiguous or ambiguous,
    )
    return behaviour, given, following


# --------------------------------------------------------------------------
# Generation
# --------------------------------------------------------------------------


TELLING = (
    "locals", "resource", "inputs", "value", "parent", "steps", "m", "seen", "cname",
    "template", "name", "state", "context",
)


def gen_inputs(rng, partial=False):
    inputs = {
        "mode": "go" if not partial or rng.random() < 0.5 else rng.choice(MODES),
        "n": rng.randrange(40),
        "obj": {"txt": rng.choice("pqr"), "deep": {"a": rng.randrange(9), "b": True}},
        "list": [rng.randrange(9) for _ in range(rng.randint(1, 3))],
        "flag": rng.random() < 0.5,
    }
    if not partial:
        if rng.random() < 0.3:
            # Names which mean something elsewhere; local names.
            for key in rng.sample(TELLING, rng.randint(1, 2)):
                inputs[key] = rng.choice(("t", 3, {"n": 4, "m": 5, "seen": 6}, [1], True))
        return inputs
    kept = rng.sample(sorted(inputs), rng.randint(1, 3))
    picked = {key: inputs[key] for key in kept}
    if "obj" in picked and rng.random() < 0.7:
        picked["obj"] = rng.choice(
            (
                {"txt": picked["obj"]["txt"]},
                {"deep": {"a": picked["obj"]["deep"]["a"]}},
                {"deep": {"c": rng.randrange(5)}},
                {"more": [1, {"x": rng.randrange(5)}]},
            )
        )
    if rng.random() < 0.2:
        picked["extra"] = rng.choice((None, 1.5, "x", {"y": 1}, []))
    return picked


def preconditions(rng, resource=False):
    made = []
    for mode, outcome in (
        ("skip", {"skip": {"message": "Skipped by Mode"}}),
        ("depSkip", {"depSkip": {"message": "Depends on the mode"}}),
        ("retry", {"retry": {"message": "Waiting for the mode", "delay": rng.choice((0, 7, 30))}}),
        ("permFail", {"permFail": {"message": "Failed: mode " + rng.choice(("", "é", "X"))}}),
    ):
        if rng.random() < 0.85:
            made.append({"assert": f"=inputs.mode != '{mode}'", **outcome})
    return made


def value_function(rng, name) -> Function:
    extras = []
    spec = {
        "preconditions": preconditions(rng),
        "locals": {"seen": f"={probe.wrap('inputs', 'inputs')}", "m": "=inputs.n + 1"},
        "return": {
            "n": "=inputs.n",
            "m": "=locals.m",
            "txt": "=inputs.obj.txt",
            "list": "=inputs.list",
            "whole": "=inputs",
            "fixed": {"s": "static", "t": [1, True, {"u": 2.5}]},
        },
    }
    if rng.random() < 0.3:
        spec["return"]["spec"] = {"n": "=inputs.n"}
    if rng.random() < 0.4:
        spec["return"]["seen"] = "=inputs.flag && has(resource.spec.n) ? resource.spec : {}"
        spec["preconditions"].insert(
            0,
            {
                "assert": "=!(inputs.flag && size(inputs.list) > 2) || resource.spec.n >= 0",
                "skip": {"message": "negative"},
            },
        )
    if not spec["preconditions"]:
        del spec["preconditions"]
    return Function("ValueFunction", name, spec, extras)


def resource_function(rng, name, flavour=None, directives=False) -> Function:
    flavour = flavour or rng.choice(
        ("patch", "patch", "patch", "recreate", "never", "readonly", "no-create", "delete")
    )
    api = {
        "apiVersion": rng.choice(("kmon.test/v1", "v1", "apps.kmon.test/v1beta1")),
        "kind": rng.choice(("Widget", "Gadget")),
        "namespace": "ns-a",
        "name": "thing",
    }
    api["plural"] = api["kind"].lower() + "s"
    config = dict(api)
    if rng.random() < 0.3:
        config["owned"] = False
    if flavour == "readonly":
        config["readonly"] = True
    if flavour == "delete":
        config["deleteIfExists"] = True
    body = {
        "spec": {
            "n": "=inputs.n",
            "obj": "=inputs.obj",
            "list": "=inputs.list",
            "fixed": {"s": "static", "t": [1, True, {"u": 2.5}]},
        }
    }
    found = {}
    if directives:
        spec = body["spec"]
        if rng.random() < 0.7:
            spec["set"] = ["a", "b", "c"][: rng.randint(1, 3)]
            spec["x-koreo-compare-as-set"] = ["set"]
            found[("spec", "set")] = "set"
        if rng.random() < 0.7:
            spec["map"] = [
                {"name": key, "v": idx} for idx, key in enumerate("xyz"[: rng.randint(1, 3)])
            ]
            spec["x-koreo-compare-as-map"] = {"map": ["name"]}
            found[("spec", "map")] = "map"
        if rng.random() < 0.4:
            spec["stamp"] = "first"
            spec["x-koreo-compare-last-applied"] = ["stamp"]
    if rng.random() < 0.4:
        body["metadata"] = {"labels": {"l": "=inputs.obj.txt"}}
    if rng.random() < 0.3:
        body.setdefault("metadata", {})["annotations"] = {"note": "kept"}
    spec = {
        "apiConfig": config,
        "preconditions": preconditions(rng),
        "locals": {"seen": f"={probe.wrap('inputs', 'inputs')}"},
        "return": {
            "n": "=resource.spec.n",
            "i": "=inputs.n",
            "list": "=inputs.list",
            "live": "=resource.spec",
        },
    }
    if not spec["preconditions"]:
        del spec["preconditions"]
    if rng.random() < 0.15:
        del spec["return"]
    extras = []
    if rng.random() < 0.2:
        extras.append(
            (
                "ResourceTemplate",
                f"{name}-tpl",
                {
                    "template": {
                        "apiVersion": api["apiVersion"],
                        "kind": api["kind"],
                        "spec": {"tpl": {"static": [1, 2]}},
                    }
                },
            )
        )
        spec["resourceTemplateRef"] = {"name": f"{name}-tpl"}
        overlays = [{"overlay": body}]
    else:
        spec["resource"] = body
        overlays = []
    if rng.random() < 0.3:
        overlays.append(
            {
                "skipIf": "=inputs.flag",
                "overlay": {"spec": {"layer": "=inputs.n + 1"}},
            }
        )
    if rng.random() < 0.25:
        extras.append(
            (
                "ValueFunction",
                f"{name}-over",
                {"return": {"spec": {"over": "=inputs.x"}}},
            )
        )
        overlays.append(
            {
                "overlayRef": {"kind": "ValueFunction", "name": f"{name}-over"},
                "inputs": {"x": "=inputs.n"},
            }
        )
    if overlays:
        spec["overlays"] = overlays
    if rng.random() < 0.4:
        spec["postconditions"] = [
            {
                "assert": "=!has(resource.spec.n) || resource.spec.n < 30",
                "retry": {"message": "Too Many", "delay": 11},
            }
        ]
    create = {}
    if flavour == "no-create":
        create["enabled"] = False
    elif rng.random() < 0.4:
        create["delay"] = rng.choice((1, 45))
        if rng.random() < 0.5:
            create["overlay"] = {"spec": {"made": "=inputs.n"}}
    if create:
        spec["create"] = create
    if flavour == "recreate":
        spec["update"] = {"recreate": {"delay": rng.choice((1, 9))}}
    elif flavour == "never":
        spec["update"] = {"never": {}}
    elif rng.random() < 0.5:
        spec["update"] = {"patch": {"delay": rng.choice((2, 30))}}
    if flavour == "delete" and rng.random() < 0.5:
        spec.pop("return", None)
        spec.pop("postconditions", None)
    function = Function("ResourceFunction", name, spec, extras, api)
    function.directives = found
    return function


async def target(function, inputs):
    """The object the function wants (None if it does not want one)."""
    behaviour = await function.behave(inputs, None)
    return behaviour.payload if behaviour.op == "POST" else None


async def gen_resource(rng, function, inputs):
    """A full object to start from."""
    if function.kind == "ValueFunction":
        return {
            "apiVersion": "v1",
            "kind": "Base",
            "spec": {"n": rng.randrange(40), "keep": rng.choice(("a", [1], {"b": 2}))},
            "base": rng.randrange(5),
        }
    made = await target(function, inputs)
    if made is None or rng.random() < 0.25:
        api = function.api
        made = {
            "apiVersion": api["apiVersion"],
            "kind": api["kind"],
            "metadata": {"name": api["name"], "namespace": api["namespace"]},
            "spec": {"n": rng.randrange(40), "list": [1]},
        }
    if rng.random() < 0.5:
        made["spec"]["n"] = rng.randrange(40)
    if rng.random() < 0.2:
        made["spec"].pop("list", None)
    if rng.random() < 0.2:
        made["metadata"].setdefault("labels", {})["live"] = "only"
    if rng.random() < 0.2:
        made["status"] = {"phase": "Up", "n": rng.randrange(9)}
    return made


def gen_overlay(rng, resource):
    choices = [
        {"spec": {"n": rng.randrange(40)}},
        {"spec": {"list": [rng.randrange(9)], "obj": {"txt": "overlaid"}}},
        {"metadata": {"labels": {"o": "v"}}},
        {"status": {"phase": rng.choice(("Up", "Down"))}},
        {"spec": {"live": "=[1, 2].map(x, x * 2)"}},
    ]
    choices.append({"spec": {"n": f"=size('abc') + {rng.randrange(40)}"}})
    return rng.choice(choices)


def truth(rng, behaviour: Behaviour, made, kind):
    """Assertions which describe what happened, each {expect...: ...}."""
    out = behaviour.outcome
    found = []
    if out.cls == "Ok":
        found.append({"expectOutcome": {"ok": {}}})
        if isinstance(out.value, dict) and out.value and behaviour.op is None:
            found += [{"expectReturn": copy.deepcopy(out.value)}] * 2
    else:
        body = {"message": part_of(rng, out.message)}
        if out.cls == "Retry":
            body["delay"] = rng.choice((out.delay, out.delay, 0))
        key = out.cls[0].lower() + out.cls[1:]
        found.append({"expectOutcome": {key: body}})
    if kind == "ResourceFunction":
        found.append({"expectDelete": behaviour.op == "DELETE"})
        if behaviour.op == "DELETE":
            found += [{"expectDelete": True}] * 2
        if behaviour.op in ("POST", "PATCH"):
            found += [{"expectResource": without_last_applied(made)}] * 3
    return found


def part_of(rng, message):
    message = message or ""
    roll = rng.random()
    # A message which mentions where it came from is another elsewhere.
    if roll < 0.2 or "kmon" in message:
        return ""
    if not message.strip():
        return ""
    if roll < 0.5:
        return message
    start = rng.randrange(len(message))
    end = rng.randint(start + 1, len(message))
    part = message[start:end]
    # A decimal numeral would be a number.
    # A leading = would make it an expression.
    if part.strip("0123456789.-eE+ ") == "" or part.strip().startswith("="):
        return message
    return rng.choice((part, part.upper(), part.lower()))
