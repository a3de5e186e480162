"""C11: static values reach results and resources unchanged."""

import copy

from kmon import defs, rf, vloop
from kmon.cluster import Cluster
from kmon.values import is_numeral, jdiff, numeral_value

ID = "C11"
LEVEL = "exploration"
RULE = (
    "a distinct static value, placed in a section of a definition, which was "
    "compared with what the evaluation returned or what was sent to the cluster"
)
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = {
    "values": 5000,
    "strings": 20000,
    "nasty_strings": 3000,
    "numerals": 800,
    "numbers": 2000,
    "nulls": 300,
    "booleans": 300,
    "nasty_keys": 500,
    **{
        f"section:{section}": 150
        for section in (
            "vf.return",
            "vf.locals",
            "rf.resource",
            "rf.overlay",
            "rf.overlayRef.return",
            "rf.overlayRef.inputs",
            "rf.create.overlay",
            "rf.return",
            "rf.locals",
            "template",
            "workflow.inputs",
            "workflow.state",
            "workflow.nested.inputs",
        )
    },
}
ASSUMPTIONS = (
    "integers are within the 64 bits CEL represents and floats are finite",
    "lone surrogates, which can not be encoded as UTF-8, do not occur",
)

SPECIALS = (
    "",
    " ",
    " =x",
    "\t=1+1",
    "x=1",
    "==",
    "nan",
    "inf",
    "-inf",
    "NaN",
    "Infinity",
    "1_000",
    "0x10",
    "0b1",
    "0o7",
    "1e",
    "e5",
    "1e+",
    "1.",
    ".5",
    "-.5",
    "-",
    "--1",
    "+1",
    " 1",
    "1 ",
    "1\n",
    "\n1",
    "1,000",
    "1.2.3",
    "10.0.0.1",
    "1-2",
    "12:30",
    "2024-01-01",
    "1u",
    "1f",
    "1L",
    "١٢٣",
    "１２",
    "²",
    "½",
    "true",
    "True",
    "false",
    "null",
    "None",
    "~",
    "yes",
    "{}",
    "[]",
    "{a: 1}",
    "[1]",
    '"',
    '""',
    '"""',
    '""""',
    "'",
    "'''",
    '"quoted"',
    'a"b',
    "a'b",
    'ends with "',
    '"starts',
    "\\",
    "\\\\",
    "ends with \\",
    "\\n",
    "\\\"",
    "\\'",
    "\\t\\x41\\u0041\\U00000041\\101",
    "C:\\new\\table",
    "\n",
    "a\nb",
    "a\r\nb",
    "\r",
    "\t",
    "\x00",
    "\x01\x1f",
    "\x7f",
    "\x0b\x0c",
    "\u0085",
    "\u2028",
    "\u2029",
    "\ufeff",
    "é",
    "e\u0301",
    "日本語",
    "\U0001f600",
    "%s %d {x} ${y} $(z) {{w}}",
    "r'raw'",
    'b"bytes"',
    'r"""raw"""',
    "// comment",
    "# comment",
    "/* c */",
    "a ? b : c",
    "inputs.x",
    "steps.a",
    "resource",
    "a\\\nb",
    "```",
    "<html>&amp;</html>",
    "line1\nline2\n",
    "\n\n",
    "#!/bin/sh\necho \"$HOME\" 'x' \\\n  --flag=\"a b\"\n",
    '{"json": "va\\"lue", "n": 1}',
    "key: \"value\"\nother: 'v'\n",
    "^[a-z]+\\d{2,3}\\.(com|org)$",
)

NUMERALS = (
    "0 1 -1 -0 5 42 007 -007 1.5 -1.5 0.0 00.50 1e5 1E5 1e+5 1e-5 -2.5e10 1.0 "
    "9007199254740993 9223372036854775807 -9223372036854775808 123456789012 0e0 "
    "3.14159265358979 1e22 2.5E-7 10 100"
).split()

INTS = (0, 1, -1, 7, 255, 2**31, 2**53 + 1, 2**63 - 1, -(2**63), 10**18, -42)
FLOATS = (
    0.5,
    -0.5,
    1.0,
    -0.0,
    1e22,
    1e21,
    1e16,
    123456789.123456789,
    1e-7,
    5e-324,
    1.7976931348623157e308,
    2.5e-10,
    0.1 + 0.2,
    -1e100,
)
FRAGMENTS = (
    "a b c x y 0 1 9 . - + e E _ = \\ \" ' \"\"\" ''' \\n \\\\ \\\" { } [ ] ( ) : , ; "
    "% $ # @ ! ? & | < > / ~ ` ^ * é 日 inputs true null"
).split() + [" ", "\n", "\r", "\t", "\x00", "\u2028", "\U0001f600", "\x1b"]

ALPHABET = [chr(code) for code in range(0, 0x180)] + list("\u2028\ufeff日\U0001f600")


def string(rng):
    roll = rng.random()
    if roll < 0.35:
        text = rng.choice(SPECIALS)
    elif roll < 0.5:
        text = rng.choice(NUMERALS)
    elif roll < 0.8:
        text = "".join(rng.choice(FRAGMENTS) for _ in range(rng.randint(0, 7)))
    elif roll < 0.9:
        text = "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 12)))
    else:
        text = "".join(rng.choice("0123456789.-+eE ") for _ in range(rng.randint(1, 6)))
    if text.startswith("="):
        text = " " + text
    if is_numeral(text):
        number = numeral_value(text)
        if isinstance(number, int) and not -(2**63) <= number < 2**63:
            return "big"
        if isinstance(number, float) and abs(number) > 1e300:
            return "large"
    return text


def static(rng, depth, numerals=True):
    roll = rng.random()
    if depth <= 0 or roll < 0.5:
        roll = rng.random()
        if roll < 0.6:
            text = string(rng)
            while not numerals and is_numeral(text):
                text = string(rng)
            return text
        if roll < 0.72:
            return rng.choice(INTS)
        if roll < 0.84:
            return rng.choice(FLOATS)
        if roll < 0.93:
            return rng.random() < 0.5
        return None
    if roll < 0.72:
        return [static(rng, depth - 1, numerals) for _ in range(rng.randint(0, 4))]
    return static_map(rng, depth - 1, numerals)


# Much like directives, yet plain data.
UNDIRECTED = (
    "x-koreo",
    "x-koreo-",
    "x-koreo-compare",
    "x-koreo-compare-as",
    "x-koreo-compare-as-list",
    "x-koreo-compare-as-sets",
    "x-koreo-other",
    "X-Koreo-Compare-As-Set",
    "koreo.dev/x-koreo-compare-as-set",
    "x-kubernetes-map-type",
)


def static_key(rng):
    if rng.random() < 0.7:
        return rng.choice(("a", "b", "name", "x-y", "a.b/c", "in", "true", "key"))
    if rng.random() < 0.15:
        return rng.choice(UNDIRECTED)
    text = string(rng)
    if is_numeral(text) or text in rf.DIRECTIVES:
        return "k" + text
    return text


def static_map(rng, depth, numerals=True, low=0):
    return {
        static_key(rng): static(rng, depth, numerals)
        for _ in range(rng.randint(low, 4))
    }


def delivered(value):
    """What must arrive."""
    if isinstance(value, dict):
        return {key: delivered(item) for key, item in value.items()}
    if isinstance(value, list):
        return [delivered(item) for item in value]
    if isinstance(value, str) and is_numeral(value):
        return numeral_value(value)
    return value


def case(rng, rec, name, tier):
    roll = rng.random()
    if roll < 0.4:
        vloop.run(lambda: _value_function(rng, rec))
    elif roll < 0.7:
        vloop.run(lambda: _resource_function(rng, rec, name))
    else:
        vloop.run(lambda: _workflow(rng, rec, name))


def _tally(rec, value):
    if isinstance(value, dict):
        for key, item in value.items():
            if not key.isalnum():
                rec.count("nasty_keys")
            _tally(rec, item)
    elif isinstance(value, list):
        for item in value:
            _tally(rec, item)
    elif isinstance(value, str):
        rec.count("strings")
        if is_numeral(value):
            rec.count("numerals")
        elif not value.isalnum():
            rec.count("nasty_strings")
    elif value is None:
        rec.count("nulls")
    elif isinstance(value, bool):
        rec.count("booleans")
    else:
        rec.count("numbers")


def _compare(rec, section, value, have, witness):
    found = jdiff(delivered(value), have)
    rec.check(
        found is None,
        f"{section}: a static value arrived changed: {found}",
        lambda: {"written": value, "arrived": have, "context": witness()},
    )
    _type_exact(rec, section, delivered(value), have, witness)
    rec.count("values")
    rec.count(f"section:{section}")
    _tally(rec, value)
    rec.seen((section, value), {"section": section, "value": value})


def _type_exact(rec, section, want, have, witness):
    if isinstance(want, dict):
        rec.check(
            list(map(type, have)) == [str] * len(have),
            f"{section}: a key arrived as something else than a string",
            witness,
        )


async def _value_function(rng, rec):
    returned = static_map(rng, 3, low=1)
    local = static(rng, 3)
    nested = static(rng, 2)
    spec = {
        "locals": {"l": local, "m": {"n": [nested]}},
        "return": {
            "static": returned,
            "local": "=locals.l",
            "nested": "=locals.m.n[0]",
            **{f"top-{key}": item for key, item in returned.items()},
        },
    }
    if rng.random() < 0.3:
        del spec["locals"], spec["return"]["local"], spec["return"]["nested"]
    function = await defs.prepared("ValueFunction", spec)

    def witness():
        return {"spec": spec, "outcome": out}

    for _ in range(2):
        out = await defs.run_vf(function, {})
        rec.check(out.cls == "Ok", f"outcome is {out.brief()}", witness)
        _compare(rec, "vf.return", returned, out.value.get("static"), witness)
        for key, item in returned.items():
            _compare(rec, "vf.return", item, out.value.get(f"top-{key}"), witness)
        if "locals" in spec:
            _compare(rec, "vf.locals", local, out.value.get("local"), witness)
            _compare(rec, "vf.locals", nested, out.value.get("nested"), witness)


async def _resource_function(rng, rec, name):
    uid = f"c11-{name}".replace(":", "-")
    resource = static_map(rng, 3, low=1)
    overlay = static(rng, 3)
    overlay_return = static_map(rng, 2, low=1)
    overlay_inputs = static_map(rng, 2, low=1)
    create = static_map(rng, 2, low=1)
    returned = static_map(rng, 2, low=1)
    local = static_map(rng, 2, low=1)
    template = static_map(rng, 3, numerals=False)
    use_template = rng.random() < 0.35
    function_name = f"vf-{uid}"
    template_name = f"tmpl-{uid}"
    spec = {
        "apiConfig": {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "thing",
            "namespace": "ns-a",
        },
        "locals": {"l": local},
        "overlays": [
            {"overlay": {"overlay": overlay, "deep": {"er": {"overlay": overlay}}}},
            {
                "overlayRef": {"kind": "ValueFunction", "name": function_name},
                "inputs": {"given": overlay_inputs},
            },
        ],
        "create": {"overlay": {"atCreate": create}},
        "return": {"static": returned, "local": "=locals.l"},
    }
    await defs.install(
        "ValueFunction",
        function_name,
        {"return": {"fromFunction": overlay_return, "given": "=inputs.given"}},
    )
    if use_template:
        await defs.install(
            "ResourceTemplate",
            template_name,
            {
                "template": {
                    "apiVersion": "kmon.test/v1",
                    "kind": "Widget",
                    "base": template,
                }
            },
        )
        spec["resourceTemplateRef"] = {"name": template_name}
    else:
        spec["resource"] = {"base": resource, "list": [resource, [resource]]}
    try:
        function = await defs.prepared("ResourceFunction", spec)
        cluster = Cluster()

        def witness():
            return {"spec": spec, "outcome": out, "requests": cluster.log}

        out, _ = await defs.run_rf(
            function, cluster, {}, ("ns-a", copy.deepcopy(rf.OWNER_REF))
        )
        ops = [request.op for request in cluster.mutations]
        rec.check(ops == ["POST"], f"made {ops}, outcome {out.brief()}", witness)
        sent = cluster.mutations[0].payload
        if use_template:
            _compare(rec, "template", template, sent.get("base"), witness)
        else:
            _compare(rec, "rf.resource", resource, sent.get("base"), witness)
            _compare(rec, "rf.resource", [resource, [resource]], sent.get("list"), witness)
        _compare(rec, "rf.overlay", overlay, sent.get("overlay"), witness)
        deep = sent.get("deep", {}).get("er", {}).get("overlay")
        _compare(rec, "rf.overlay", overlay, deep, witness)
        _compare(
            rec, "rf.overlayRef.return", overlay_return, sent.get("fromFunction"), witness
        )
        _compare(rec, "rf.overlayRef.inputs", overlay_inputs, sent.get("given"), witness)
        _compare(rec, "rf.create.overlay", create, sent.get("atCreate"), witness)

        # an object which meets the target, so that there is a return value
        live = copy.deepcopy(sent)
        cluster.objects.clear()
        cluster.put("kmon.test/v1", "widgets", "ns-a", "thing", live)
        out, _ = await defs.run_rf(
            function, cluster, {}, ("ns-a", copy.deepcopy(rf.OWNER_REF))
        )
        rec.check(out.cls == "Ok", f"outcome is {out.brief()}", witness)
        _compare(rec, "rf.return", returned, out.value.get("static"), witness)
        _compare(rec, "rf.locals", local, out.value.get("local"), witness)

        # a patch carries the same
        live = copy.deepcopy(rf.strip(sent))
        live["deep"] = {"er": "drifted"}
        cluster.put("kmon.test/v1", "widgets", "ns-a", "thing", live)
        out, _ = await defs.run_rf(
            function, cluster, {}, ("ns-a", copy.deepcopy(rf.OWNER_REF))
        )
        patch = cluster.mutations[-1]
        rec.check(patch.op == "PATCH", f"made {patch.op}", witness)
        deep = patch.payload.get("deep", {}).get("er", {}).get("overlay")
        _compare(rec, "rf.overlay", overlay, deep, witness)
    finally:
        await defs.uninstall("ValueFunction", function_name)
        if use_template:
            await defs.uninstall("ResourceTemplate", template_name)


async def _workflow(rng, rec, name):
    uid = f"c11-{name}".replace(":", "-")
    given = static_map(rng, 3, low=1)
    state = static_map(rng, 3, low=1)
    nested_given = static_map(rng, 2, low=1)
    each_given = static_map(rng, 2, low=1)
    echo, inner, outer = f"echo-{uid}", f"inner-{uid}", f"outer-{uid}"
    await defs.install(
        "ValueFunction",
        echo,
        {"return": {"given": "=inputs.given"}},
    )
    reference = {"kind": "ValueFunction", "name": echo}
    await defs.install(
        "Workflow",
        inner,
        {
            "steps": [
                {
                    "label": "echo",
                    "ref": reference,
                    "inputs": {"given": "=parent.given"},
                    "state": {"given": "=value.given", "inner": state},
                }
            ]
        },
    )
    try:
        workflow = await defs.prepared(
            "Workflow",
            {
                "steps": [
                    {
                        "label": "first",
                        "ref": reference,
                        "inputs": {"given": given},
                        "state": {"static": state, "given": "=value.given"},
                    },
                    {
                        "label": "nested",
                        "ref": {"kind": "Workflow", "name": inner},
                        "inputs": {"given": nested_given},
                        "state": {"nested": "=value"},
                    },
                    {
                        "label": "each",
                        "ref": reference,
                        "forEach": {"itemIn": "=[1, 2]", "inputKey": "item"},
                        "inputs": {"given": each_given},
                        "state": {"each": "=value"},
                    },
                ]
            },
            outer,
        )
        run = await defs.run_workflow(
            workflow, Cluster(), {}, ("ns-a", copy.deepcopy(rf.OWNER_REF))
        )

        def witness():
            return {"given": given, "state": state, "run": run}

        rec.check(run.outcome.cls == "Ok", f"outcome {run.outcome.brief()}", witness)
        rec.check(not run.state_errors, f"state errors {run.state_errors}", witness)
        have = run.state
        _compare(rec, "workflow.inputs", given, have.get("given"), witness)
        _compare(rec, "workflow.state", state, have.get("static"), witness)
        nested = have.get("nested", {})
        _compare(
            rec, "workflow.nested.inputs", nested_given, nested.get("given"), witness
        )
        _compare(rec, "workflow.state", state, nested.get("inner"), witness)
        _compare(
            rec,
            "workflow.inputs",
            [{"given": each_given}, {"given": each_given}],
            have.get("each"),
            witness,
        )
    finally:
        await defs.uninstall("ValueFunction", echo)
        await defs.uninstall("Workflow", inner)
