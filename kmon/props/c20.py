"""C20: preparing any definition never crashes, schema violations are rejected."""

import copy
import sys

import celpy

from kmon import celshapes, crd, defs, values, vloop
from koreo import cache, result

ID = "C20"
LEVEL = "exploration"
RULE = (
    "a distinct (kind, how the spec was made, verdict of the CRD schema, outcome), or "
    "a distinct expression in a distinct field"
)
CASES = {"quick": 5000, "thorough": 120000}
REQUIRED = {
    "prepared": 3000,
    "rejected": 3990,
    "schema_violations": 3000,
    "nothing_compiled_or_looked_up": 3000,
    "cached": 3000,
    "prepared_again_in_cache": 300,
    "expressions.parseable": 2500,
    "expressions.not_parseable": 600,
    **{f"{way}.{kind}": 100 for kind in defs.KINDS for way in ("offered", "violates")},
    **{f"prepared.{kind}": 80 for kind in defs.KINDS},
}
ASSUMPTIONS = (
    "JSON and expression nesting up to 60 levels (beyond Python's recursion limit: "
    "known finding)",
    "x-kubernetes-validations rules and nullable are not part of what is claimed to be enforced",
)

SCHEMAS = crd.load()
KINDS = tuple(defs.KINDS)

# --------------------------------------------------------------------------
# What happens while preparing: calls of the CEL compiler and of the cache.

TOOL = 3
calls = []
_watched = {}


def _watch():
    events = sys.monitoring.events
    sys.monitoring.use_tool_id(TOOL, "kmon")
    targets = {
        "compile": [celpy.Environment.compile],
        "lookup": [
            getattr(cache, name, None)
            for name in ("get_resource_from_cache", "get_resource_system_data_from_cache")
        ],
    }
    for what, functions in targets.items():
        for function in functions:
            code = getattr(function, "__code__", None)
            if code is not None:
                _watched[code] = what
                sys.monitoring.set_local_events(TOOL, code, events.PY_START)
    sys.monitoring.register_callback(
        TOOL, events.PY_START, lambda code, offset: calls.append(_watched.get(code))
    )


_watch()

# --------------------------------------------------------------------------
# Well-formed definitions, and places for expressions in them

API = {
    "apiVersion": "kmon.test/v1",
    "kind": "Widget",
    "plural": "widgets",
    "namespace": "ns",
    "name": "thing",
}


def outcomes(place):
    return {
        "assert": {"assert": place, "skip": {"message": "m"}},
        "skip": {"assert": "=true", "skip": {"message": place}},
        "depSkip": {"assert": "=true", "depSkip": {"message": place}},
        "retry": {"assert": "=true", "retry": {"message": place, "delay": 1}},
        "permFail": {"assert": "=true", "permFail": {"message": place}},
        "ok": {"assert": "=true", "ok": {"x": place}},
    }


def step(**extra):
    return {
        "steps": [
            {"label": "one", "ref": {"kind": "ValueFunction", "name": "pool-vf"}},
            {"label": "two", "ref": {"kind": "ValueFunction", "name": "pool-vf"}, **extra},
        ]
    }


def rf(**extra):
    return {"apiConfig": dict(API), "resource": {"spec": {"a": 1}}, **extra}


def fields(place):
    """name -> (kind, well-formed spec with `place` in one field)"""
    made = {}
    for name, condition in outcomes(place).items():
        made[f"vf.preconditions.{name}"] = ("ValueFunction", {"preconditions": [condition]})
        made[f"rf.preconditions.{name}"] = ("ResourceFunction", rf(preconditions=[condition]))
        made[f"rf.postconditions.{name}"] = ("ResourceFunction", rf(postconditions=[condition]))
    made["vf.locals"] = ("ValueFunction", {"locals": {"x": place}, "return": {"y": "=locals.x"}})
    made["vf.return"] = ("ValueFunction", {"return": {"x": place}})
    made["vf.return.nested"] = ("ValueFunction", {"return": {"x": [1, {"y": [place]}], "z": {"w": place}}})
    made["vf.return.key"] = ("ValueFunction", {"return": {place: 1, "z": {place: place}}})
    for key in API:
        made[f"rf.apiConfig.{key}"] = ("ResourceFunction", {**rf(), "apiConfig": {**API, key: place}})
    made["rf.locals"] = ("ResourceFunction", rf(locals={"x": place}))
    made["rf.resource"] = ("ResourceFunction", rf(resource={"spec": {"x": place, "y": [{"z": place}]}}))
    made["rf.resource.key"] = ("ResourceFunction", rf(resource={place: {"a": 1}, "b": {place: 1}}))
    made["rf.templateRef"] = (
        "ResourceFunction",
        {"apiConfig": dict(API), "resourceTemplateRef": {"name": place}},
    )
    made["rf.overlay"] = ("ResourceFunction", rf(overlays=[{"overlay": {"x": {"y": place}}}]))
    made["rf.overlay.skipIf"] = (
        "ResourceFunction",
        rf(overlays=[{"skipIf": place, "overlay": {"x": 1}}]),
    )
    made["rf.overlayRef.inputs"] = (
        "ResourceFunction",
        rf(
            overlays=[
                {
                    "overlayRef": {"kind": "ValueFunction", "name": "pool-vf"},
                    "inputs": {"x": place},
                    "skipIf": place,
                }
            ]
        ),
    )
    made["rf.create.overlay"] = ("ResourceFunction", rf(create={"overlay": {"x": place}}))
    made["rf.return"] = ("ResourceFunction", rf(**{"return": {"x": place, "y": [place]}}))
    made["wf.inputs"] = ("Workflow", step(inputs={"x": place, "y": {"z": [place]}}))
    made["wf.skipIf"] = ("Workflow", step(skipIf=place))
    made["wf.itemIn"] = ("Workflow", step(forEach={"itemIn": place, "inputKey": "k"}))
    made["wf.inputKey"] = ("Workflow", step(forEach={"itemIn": "=[1]", "inputKey": place}))
    made["wf.state"] = ("Workflow", step(state={"x": place, place: 1}))
    made["wf.label"] = ("Workflow", step(label=place))
    made["wf.condition"] = ("Workflow", step(condition={"type": place, "name": place}))
    switch = {
        "switchOn": place,
        "cases": [
            {"case": "a", "kind": "ValueFunction", "name": "pool-vf"},
            {"case": "b", "kind": "Workflow", "name": "pool-wf", "default": True},
        ],
    }
    made["wf.switchOn"] = ("Workflow", {"steps": [{"label": "one", "refSwitch": switch}]})
    cases = {
        "switchOn": "=parent.x",
        "cases": [{"case": place, "kind": "ResourceFunction", "name": place}],
    }
    made["wf.case"] = ("Workflow", {"steps": [{"label": "one", "refSwitch": cases}]})
    made["wf.ref"] = (
        "Workflow",
        {"steps": [{"label": "one", "ref": {"kind": "Workflow", "name": place}}]},
    )
    made["wf.subworkflow.inputs"] = (
        "Workflow",
        {
            "steps": [
                {"label": "one", "ref": {"kind": "Workflow", "name": "pool-wf"}, "inputs": {"x": place}}
            ]
        },
    )
    made["rt.template"] = (
        "ResourceTemplate",
        {"template": {"apiVersion": "v1", "kind": "K", "spec": {"x": place, place: [place]}}},
    )
    made["rt.identity"] = ("ResourceTemplate", {"template": {"apiVersion": place, "kind": place}})
    made["rt.context"] = (
        "ResourceTemplate",
        {"template": {"apiVersion": "v1", "kind": "K"}, "context": {"x": place}},
    )
    ref = {"kind": "ResourceFunction", "name": "pool-rf"}
    computed = {"kind": "ResourceFunction", "name": "pool-rf-template"}
    done = {"expectOutcome": {"ok": {}}}
    made["ft.overlayResource"] = (
        "FunctionTest",
        {"functionRef": ref, "testCases": [{"overlayResource": {"x": {"y": place}}, **done}]},
    )
    for key in ("skip", "depSkip", "permFail"):
        made[f"ft.expectOutcome.{key}"] = (
            "FunctionTest",
            {"functionRef": ref, "testCases": [{"expectOutcome": {key: {"message": place}}}]},
        )
    made["ft.inputs"] = (
        "FunctionTest",
        {
            "functionRef": computed,
            "inputs": {"t": place},
            "testCases": [{"inputOverrides": {"t": place, "u": [place]}, **done}],
        },
    )
    made["ft.resources"] = (
        "FunctionTest",
        {
            "functionRef": ref,
            "currentResource": {"spec": {"x": place}},
            "testCases": [
                {"currentResource": {"x": place}, "label": place, "expectResource": {"x": place}},
                {"expectReturn": {"x": place}},
            ],
        },
    )
    made["ft.functionRef"] = (
        "FunctionTest",
        {"functionRef": {"kind": "ValueFunction", "name": place}, "testCases": [done]},
    )
    return made


FIELDS = tuple(fields("=x"))

POOL = (
    ("ValueFunction", "pool-vf", {"return": {"x": "=inputs.x"}}),
    ("ValueFunction", "pool-broken", {"return": {"x": "=1 +"}}),
    ("ResourceTemplate", "pool-tpl", {"template": {"apiVersion": "kmon.test/v1", "kind": "Widget"}}),
    ("ResourceFunction", "pool-rf", rf()),
    (
        "ResourceFunction",
        "pool-rf-template",
        {"apiConfig": dict(API), "resourceTemplateRef": {"name": "=inputs.t"}},
    ),
    (
        "ResourceFunction",
        "pool-rf-static",
        {
            "apiConfig": dict(API),
            "locals": {"n": "tpl"},
            "resourceTemplateRef": {"name": "='pool-' + locals.n"},
        },
    ),
    (
        "Workflow",
        "pool-wf",
        {
            "crdRef": {"apiGroup": "g", "version": "v1", "kind": "K"},
            "steps": [
                {
                    "label": "one",
                    "ref": {"kind": "ValueFunction", "name": "pool-vf"},
                    "inputs": {"x": "=parent.x"},
                }
            ],
        },
    ),
    ("Workflow", "pool-wf-waiting", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "absent"}}]}),
)
NAMES = tuple(name for _, name, _ in POOL) + ("absent", "", " ")

# --------------------------------------------------------------------------
# Arbitrary JSON

STRANGE = (
    "", " ", "=", "= ", "==", "x", "=x", "=inputs.x", "=inputs", "é", "日本", "\x00", "\n", "\\",
    '"', "'", "a" * 5000, "=" + "a" * 5000, "=1 +", "=a.true", "null", "true", "0", "-1", "1e5",
    "\ud800", "\U0001f600", "\u2028", "{}", "[]", "=[]", "={}", "=null", "__class__", "__proto__",
    "%s", "{x}", "spec.x", "data.x", "=\"\ud800\"",
    0, 1, -1, 5, 30, 2**31, 2**53, 2**63 - 1, -(2**63), 0.0, -0.0, 0.5, 1e300, 1e-300, -1.5, 3.0,
    True, False, None, [], {}, [None], [[]], [{}], {"": None}, {"x": {}}, {"=x": "=x"},
)
# CEL has no such numbers.
UNREPRESENTABLE = (2**63, -(2**63) - 1, 2**64, 10**30, 10**400)


def anything(rng, depth=3, huge=True):
    roll = rng.random()
    if roll < 0.45:
        return copy.deepcopy(rng.choice(STRANGE))
    if huge and roll < 0.47:
        return rng.choice(UNREPRESENTABLE)
    if roll < 0.57:
        return "=" + celshapes.expression(rng, rng.randint(0, 3))
    if roll < 0.6:
        return "=" + rng.choice(celshapes.ODD)
    if depth <= 0:
        return values.scalar(rng, nulls=True)
    if roll < 0.65:
        deep = anything(rng, 0, huge)
        for _ in range(rng.choice((5, 20, 55))):
            deep = {"d": deep} if rng.random() < 0.5 else [deep]
        return deep
    if roll < 0.8:
        return [anything(rng, depth - 1, huge) for _ in range(rng.choice((0, 1, 2, 3, 21, 40)[: 4 if depth < 3 else 6]))]
    names = ("spec", "metadata", "x", "kind", "name", "message", "assert", "=x", "a.b", "x y", "", "é", "inputs")
    return {rng.choice(names): anything(rng, depth - 1, huge) for _ in range(rng.randint(0, 5))}


def from_schema(rng, schema, name="", depth=0):
    """A value the schema asks for (most likely)."""
    if "enum" in schema:
        return rng.choice(schema["enum"])
    kind = schema.get("type")
    if kind == "object":
        made = {}
        properties = dict(schema.get("properties", {}))
        required = set(schema.get("required", ()))
        for key in ("oneOf", "anyOf"):
            options = [option.get("required", [None])[0] for option in schema.get(key, ())]
            if options:
                chosen = rng.choice(options)
                required.add(chosen)
                if key == "oneOf":
                    for other in options:
                        if other != chosen:
                            properties.pop(other, None)
        chance = rng.choice((0.2, 0.5, 0.9))
        for key, sub in properties.items():
            if key in required or rng.random() < chance:
                made[key] = from_schema(rng, sub, key, depth + 1)
        for key in required:
            if key not in made:
                made[key] = {}
        if schema.get("x-kubernetes-preserve-unknown-fields"):
            for _ in range(rng.randint(0 if depth else 1, 3)):
                made[rng.choice(values.WORDS)] = some_data(rng, 2)
            if name in ("template",):
                made.update(apiVersion="kmon.test/v1", kind="Widget")
        elif not properties and schema.get("additionalProperties") is not False and rng.random() < 0.3:
            made["x"] = some_data(rng, 1)
        return made
    if kind == "array":
        size = rng.choice((0, 1, 1, 2, 3, 4))
        low, high = schema.get("minItems", 0), schema.get("maxItems", 30)
        if rng.random() < 0.04:
            size = high
        made = [from_schema(rng, schema["items"], name, depth + 1) for _ in range(max(size, low))]
        for idx, item in enumerate(made):
            if isinstance(item, dict) and "label" in item and rng.random() < 0.9:
                item["label"] = f"label_{idx}"
            if isinstance(item, dict) and "default" in item and idx:
                item["default"] = False
        return made
    if kind == "boolean":
        return rng.random() < 0.5
    if kind == "integer":
        return rng.choice((0, 1, 30, -1, 10**6))
    if kind == "string":
        if name in ("assert", "skipIf", "itemIn", "switchOn"):
            return "=" + some_expression(rng)
        if name == "name":
            return rng.choice(NAMES) if rng.random() < 0.7 else rng.choice(("thing", "='a' + 'b'", "=" + some_expression(rng)))
        if name == "type":
            return rng.choice(("Ready", "StepReady"))
        if rng.random() < 0.3:
            return "=" + some_expression(rng)
        return rng.choice(("text", "v1", "kmon.test/v1", "Widget", "ns", "some words", "x" * 20))
    return some_data(rng, 2)


def some_expression(rng):
    if rng.random() < 0.5:
        return rng.choice(
            ("inputs.x", "steps.label_0.x", "steps.label_0", "parent.x", "locals.x", "true", "[1, 2]",
             "resource.x", "'a' + 'b'", "inputs.x == 1", "{'a': 1}", "template.x", "inputs['x'].y")
        )
    return celshapes.expression(rng, rng.randint(0, 2))


def some_data(rng, depth):
    roll = rng.random()
    if roll < 0.3:
        return "=" + some_expression(rng)
    if roll < 0.6 or depth <= 0:
        return values.scalar(rng, nulls=True)
    if roll < 0.75:
        return [some_data(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(values.WORDS): some_data(rng, depth - 1) for _ in range(rng.randint(0, 3))}


def spoil(rng, spec, huge):
    """Change `spec` somewhere; -> what was done"""
    spots = [spot for spot in values.paths(spec) if spot[0]]
    if not spots:
        return spec, "replaced"
    # Rather near the top, where the schema has an opinion.
    spots.sort(key=lambda spot: len(spot[0]))
    path, value = spots[min(int(rng.random() ** 1.5 * len(spots)), len(spots) - 1)]
    spec = copy.deepcopy(spec)
    roll = rng.random()
    if roll < 0.5:
        values.set_path(spec, path, anything(rng, 2, huge))
        return spec, "confused"
    if roll < 0.65:
        values.del_path(spec, path)
        return spec, "removed"
    if roll < 0.75:
        values.set_path(spec, path, [copy.deepcopy(value)])
        return spec, "wrapped"
    if roll < 0.85 and isinstance(values.get_path(spec, path[:-1]), dict):
        parent = values.get_path(spec, path[:-1])
        parent[rng.choice(("extra", "", "ok", "skip", "ref", "refSwitch", "message", "=x"))] = anything(rng, 1, huge)
        return spec, "added"
    lists = [spot for spot in values.paths(spec) if isinstance(spot[1], list) and spot[1]]
    if lists:
        path, value = rng.choice(lists)
        size = rng.choice((10, 11, 20, 21, 25, 200))
        grown = [copy.deepcopy(value[idx % len(value)]) for idx in range(size)]
        for idx, item in enumerate(grown):
            if isinstance(item, dict) and isinstance(item.get("label"), str):
                item["label"] = f"label_{idx}"
        if not path:
            return grown, "oversized"
        values.set_path(spec, path, grown)
        return spec, "oversized"
    other_path, other = rng.choice(spots)
    if path[: len(other_path)] != other_path and other_path[: len(path)] != path:
        values.set_path(spec, path, copy.deepcopy(other))
    return spec, "exchanged"


# --------------------------------------------------------------------------

KNOWN = {
    # Recorded in KNOWN_FINDINGS.txt
    "function-test-number-cel-cannot-represent": ("inputs", "inputOverrides"),
    "function-test-locals-fail": ("computed",),
    "nested-beyond-recursion-limit": ("vf", "rt", "ft"),
}


def nested(depth):
    made = 1
    for _ in range(depth):
        made = {"d": made}
    return made


async def known(rng, rec, mechanism, which):
    spec, kind = None, "FunctionTest"
    ref = {"kind": "ValueFunction", "name": "pool-vf"}
    done = {"expectOutcome": {"ok": {}}}
    if mechanism == "function-test-number-cel-cannot-represent":
        if which == "inputs":
            spec = {"functionRef": ref, "inputs": {"x": 2**63}, "testCases": [done]}
        else:
            spec = {"functionRef": ref, "testCases": [{"inputOverrides": {"x": [2**64]}, **done}]}
    elif mechanism == "function-test-locals-fail":
        await defs.install(
            "ResourceFunction",
            "locals-rf",
            {
                "apiConfig": dict(API),
                "locals": {"n": "=[1].map(x, 1 / 0)"},
                "resourceTemplateRef": {"name": "=locals.n"},
            },
        )
        spec = {
            "functionRef": {"kind": "ResourceFunction", "name": "locals-rf"},
            "inputs": {"x": 1},
            "testCases": [done],
        }
    elif which == "vf":
        kind, spec = "ValueFunction", {"return": nested(3000)}
    elif which == "rt":
        kind, spec = "ResourceTemplate", {"template": {"apiVersion": "v1", "kind": "K", "x": nested(3000)}}
    elif which == "ft":
        spec = {"functionRef": ref, "inputs": nested(3000), "testCases": [done]}
    raised = None
    try:
        await defs.KINDS[kind][1]("known", spec)
        rec.count("known_not_reproduced")
    except Exception as err:
        raised = err
    if mechanism == "function-test-locals-fail":
        await defs.uninstall("ResourceFunction", "locals-rf")
    if raised is not None:
        rec.fail(f"preparing a {kind} raised {type(raised).__name__}: {str(raised)[:200]}",
                 {"which": which}, mechanism=mechanism)


def systematic(tier):
    for mechanism, which in KNOWN.items():
        for item in which:
            yield f"known:{mechanism}:{item}"
    for field in FIELDS:
        yield f"odd:{field}"
    for kind in KINDS:
        yield f"json:{kind}"
    receivers = len(celshapes.RECEIVERS)
    for receiver in range(receivers):
        yield f"sweep:{receiver}"
    for field in FIELDS:
        if tier == "thorough":
            for receiver in range(receivers):
                yield f"shape:{field}:{receiver}"
        else:
            yield f"shapes:{field}"


def case(rng, rec, name, tier):
    vloop.run(lambda: scenario(rng, rec, name, tier))


async def scenario(rng, rec, name, tier):
    for kind, pool_name, spec in POOL:
        await defs.install(kind, pool_name, spec)
    try:
        if name.startswith("sys:"):
            await planned(rng, rec, name[4:], tier)
        else:
            await fuzz(rng, rec, tier)
    finally:
        for kind, pool_name, _ in POOL:
            await defs.uninstall(kind, pool_name)


async def planned(rng, rec, name, tier):
    what, _, rest = name.partition(":")
    if what == "known":
        mechanism, _, which = rest.partition(":")
        await known(rng, rec, mechanism, which)
    elif what == "odd":
        texts = celshapes.ODD + tuple(celshapes.RECEIVERS)
        for text in texts:
            for place in (f"={text}", text) if tier == "thorough" else (f"={text}",):
                await express(rng, rec, rest, place)
    elif what == "json":
        for value in STRANGE + UNREPRESENTABLE:
            await offer(rng, rec, rest, copy.deepcopy(value), "json")
            if rest != "FunctionTest":
                for field, (kind, spec) in fields(value).items() if isinstance(value, str) else ():
                    if kind == rest:
                        await offer(rng, rec, kind, spec, f"strange:{field}")
        schema = SCHEMAS[rest]
        for key in schema.get("properties", {}):
            for value in STRANGE:
                spec = from_schema(rng, schema)
                spec[key] = copy.deepcopy(value)
                await offer(rng, rec, rest, spec, f"top:{key}")
    elif what == "shapes":
        for receiver in celshapes.RECEIVERS:
            for operation in rng.sample(celshapes.OPERATIONS, 1):
                context = rng.choice(celshapes.CONTEXTS)
                await express(rng, rec, rest, "=" + celshapes.shape(receiver, operation, context))
    elif what == "sweep":
        receiver = celshapes.RECEIVERS[int(rest)]
        for operation in celshapes.OPERATIONS:
            text = celshapes.shape(receiver, operation, "{}")
            await express(rng, rec, rng.choice(FIELDS), "=" + text)
        for context in celshapes.CONTEXTS:
            text = celshapes.shape(receiver, rng.choice(celshapes.OPERATIONS[:24]), context)
            await express(rng, rec, rng.choice(FIELDS), "=" + text)
    elif what == "shape":
        field, _, receiver = rest.rpartition(":")
        for operation in celshapes.OPERATIONS:
            for context in rng.sample(celshapes.CONTEXTS, 2):
                text = celshapes.shape(celshapes.RECEIVERS[int(receiver)], operation, context)
                await express(rng, rec, field, "=" + text)


_environment = celpy.Environment()


async def express(rng, rec, field, place):
    kind, spec = fields(place)[field]
    try:
        _environment.compile(place[1:] if place.startswith("=") else place)
        rec.count("expressions.parseable")
    except Exception:
        rec.count("expressions.not_parseable")
    rec.seen((field, place), {"field": field, "expression": place})
    await offer(rng, rec, kind, spec, f"field:{field}", cached=rng.random() < 0.2)


def size_of(value):
    if isinstance(value, dict):
        return 1 + sum(size_of(item) for item in value.values())
    if isinstance(value, list):
        return 1 + sum(size_of(item) for item in value)
    return 1


async def fuzz(rng, rec, tier):
    kind = rng.choice(KINDS)
    # A number CEL can not represent in a FunctionTest is a known finding.
    huge = kind != "FunctionTest"
    if rng.random() < 0.1:
        await offer(rng, rec, kind, anything(rng, 3, huge), "arbitrary")
        return
    spec = from_schema(rng, SCHEMAS[kind])
    await offer(rng, rec, kind, spec, "well-formed")
    for _ in range(3 if tier == "quick" else 6):
        changed, how = spoil(rng, spec, huge)
        for _ in range(rng.choice((0, 0, 1, 2))):
            if isinstance(changed, (dict, list)) and size_of(changed) < 400:
                changed, how = spoil(rng, changed, huge)
        if size_of(changed) > 6000:
            # Only slow.
            rec.count("too_big_to_offer")
            continue
        await offer(rng, rec, kind, changed, how)


async def offer(rng, rec, kind, spec, how, cached=True):
    cls, preparer = defs.KINDS[kind]
    verdict = crd.judge(SCHEMAS[kind], spec)
    name = defs.unique("offered")
    rec.count(f"offered.{kind}")
    witness = {"kind": kind, "spec": spec, "how": how, "schema": verdict}
    calls.clear()
    try:
        got = await preparer(name, copy.deepcopy(spec))
    except Exception as err:
        raised(rec, err, f"preparing a {kind} raised", witness)
    during = list(calls)
    out = shape_of(rec, got, cls, witness)
    rec.count("compile_events", during.count("compile"))
    rec.count("lookup_events", during.count("lookup"))
    if verdict == crd.INVALID:
        rec.count("schema_violations")
        rec.count(f"violates.{kind}")
        rec.check(
            out == "PermFail",
            lambda: f"a {kind} which violates its schema is {out}",
            witness,
        )
        rec.check(
            not during,
            lambda: f"a {kind} which violates its schema is rejected after {during[0]}",
            witness,
        )
        rec.count("nothing_compiled_or_looked_up")
    if out == "prepared":
        rec.count("prepared")
        rec.count(f"prepared.{kind}")
    else:
        rec.count("rejected")
    rec.seen((kind, how, verdict, out), None)

    if not cached:
        return
    rec.count("cached")
    try:
        # Twice: the second time around it is there already.
        for version in ("1", "2") if rng.random() < 0.3 else ("1",):
            got = await cache.prepare_and_cache(
                resource_class=cls,
                preparer=preparer,
                metadata={"name": name, "resourceVersion": version},
                spec=copy.deepcopy(spec),
            )
            if version == "2":
                rec.count("prepared_again_in_cache")
            again = "prepared" if isinstance(got, cls) else shape_of(rec, got, cls, witness)
            rec.check(
                again == out,
                lambda: f"a {kind} prepares as {out}, but through the cache as {again}",
                witness,
            )
            held = cache.get_resource_from_cache(resource_class=cls, cache_key=name)
            rec.check(
                held is got or held == got,
                f"the cache holds another {kind} than it returned",
                witness,
            )
    except AssertionError:
        raise
    except Exception as err:
        if type(err).__name__ == "Violation":
            raise
        raised(rec, err, f"offering a {kind} to the cache raised", witness)
    finally:
        await defs.uninstall(kind, name)


def raised(rec, err, what, witness):
    import traceback

    rec.fail(
        f"{what} {type(err).__name__}: {str(err)[:300]}",
        {**witness, "trace": traceback.format_exc(limit=-6)},
    )


def shape_of(rec, got, cls, witness):
    if isinstance(got, tuple) and not isinstance(got, cls) and len(got) == 2 and isinstance(got[0], cls):
        return "prepared"
    rec.check(
        isinstance(got, (result.PermFail, result.Retry)),
        lambda: f"preparing gives neither a resource nor a PermFail/Retry but {got!r}"[:600],
        witness,
    )
    rec.check(
        isinstance(got.message, str) and bool(got.message.strip()),
        lambda: f"{type(got).__name__} without a message: {got.message!r}",
        witness,
    )
    return type(got).__name__
