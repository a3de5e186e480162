"""C19: a test case passes if, and only if, its assertion holds."""

import copy

from koreo.function_test.run import run_function_test

from kmon import defs, ft, values, vloop
from kmon.values import jeq

ID = "C19"
LEVEL = "exploration"
RULE = (
    "a distinct (what the Function did, kind of assertion, kind and place of the "
    "deviation from the truth)"
)
CASES = {"quick": 2000, "thorough": 60000}
REQUIRED = {
    "class.DepSkip": 27,
    "class.Ok": 180,
    "class.PermFail": 52,
    "class.Retry": 210,
    "class.Skip": 26,
    "deviation.class": 3900,
    "deviation.delay": 280,
    "deviation.extra": 1010,
    "deviation.items": 940,
    "deviation.leaf": 1130,
    "deviation.message": 2670,
    "deviation.missing": 930,
    "deviation.reorder": 730,
    "deviation.retype": 1180,
    "did.create": 72,
    "did.delete": 43,
    "did.nothing": 320,
    "did.patch": 57,
    "false.expectDelete": 380,
    "false.expectOutcome": 4390,
    "false.expectResource": 2950,
    "false.expectReturn": 5070,
    "false.under_map_directive": 470,
    "false.under_set_directive": 510,
    "true.expectDelete": 380,
    "true.expectOutcome": 920,
    "true.expectResource": 310,
    "true.expectReturn": 480,
    "true.under_map_directive": 170,
    "true.under_set_directive": 360,
}
ASSUMPTIONS = (
    "expectResource for a patch is only asked where sending the patch leaves exactly "
    "the object sent",
    "1 and 1.0 are the same number",
)

SET = "x-koreo-compare-as-set"
MAP = "x-koreo-compare-as-map"
LAST = "x-koreo-compare-last-applied"
DIRECTIVES = (SET, MAP, LAST)


class Unspecified(Exception):
    """No verdict is claimed for such a comparison."""


# --------------------------------------------------------------------------
# The reference


def meets(expected, actual) -> bool:
    """`actual` is exactly `expected`, modulo the directives in `expected`."""
    if isinstance(expected, dict) and isinstance(actual, dict):
        as_set = expected.get(SET, ())
        as_map = expected.get(MAP, {})
        wanted = [key for key in expected if key not in DIRECTIVES]
        verdict = set(wanted) == {key for key in actual if key not in DIRECTIVES}
        for key in wanted:
            if key not in actual:
                continue
            if key in as_map:
                same = map_meets(expected[key], actual[key], as_map[key])
            elif key in as_set:
                same = set_meets(expected[key], actual[key])
            else:
                same = meets(expected[key], actual[key])
            verdict = verdict and same
        return verdict
    if isinstance(expected, list) and isinstance(actual, list):
        verdict = len(expected) == len(actual)
        for one, other in zip(expected, actual):
            same = meets(one, other)
            verdict = verdict and same
        return verdict
    return jeq(expected, actual)


def set_meets(expected, actual):
    if not isinstance(expected, list) or not isinstance(actual, list):
        return meets(expected, actual)
    for item in (*expected, *actual):
        if isinstance(item, (bool, float, dict, list)) or item in (0, 1):
            raise Unspecified
    return all(any(jeq(a, e) for a in actual) for e in expected) and all(
        any(jeq(a, e) for e in expected) for a in actual
    )


def map_meets(expected, actual, fields):
    for items in (expected, actual):
        if not isinstance(items, list) or not all(isinstance(i, dict) for i in items):
            raise Unspecified
        for item in items:
            for name in fields:
                value = item.get(name)
                if not isinstance(value, (str, int)) or isinstance(value, bool) or "$" in str(value):
                    raise Unspecified
        keys = [tuple(str(item[name]).strip() for name in fields) for item in items]
        if len(set(keys)) != len(keys):
            raise Unspecified

    def keyed(items):
        return {tuple(str(item[name]).strip() for name in fields): item for item in items}

    left, right = keyed(expected), keyed(actual)
    verdict = left.keys() == right.keys()
    for key in left.keys() & right.keys():
        same = meets(left[key], right[key])
        verdict = verdict and same
    return verdict


# --------------------------------------------------------------------------
# Deviations


def deviations(rng, expected):
    """-> (kind, path, changed) for every place within `expected`."""
    for path, value in list(values.paths(expected)):
        if any(key in DIRECTIVES for key in path):
            continue
        for kind, new in replacements(rng, value):
            if not path:
                if isinstance(new, dict) and new:
                    yield kind, path, new
                continue
            changed = copy.deepcopy(expected)
            values.set_path(changed, path, new)
            yield kind, path, changed


def replacements(rng, value):
    """Values one step away from `value`."""
    if isinstance(value, bool):
        yield "leaf", not value
        yield from (
            ("retype", new)
            for new in (int(value), str(value), str(value).lower(), None, [value], float(value))
        )
    elif isinstance(value, str):
        for new in (value + "x", value + " ", " " + value, value.swapcase(), value[:-1], ""):
            if new != value:
                yield "leaf", new
        for new in (None, [value], {"value": value}, 0, True, False, {}, []):
            yield "retype", new
        try:
            yield "retype", int(value)
        except ValueError:
            pass
        if value in ("true", "false"):
            yield "retype", value == "true"
    elif isinstance(value, int):
        yield "leaf", value + 1
        yield "leaf", -value - 1
        yield "leaf", value + 0.5
        yield from (("retype", new) for new in (str(value), None, [value], bool(value), {}))
    elif isinstance(value, float):
        yield "leaf", value + 0.5
        yield "leaf", -value - 1
        yield from (("retype", new) for new in (str(value), None, [value], bool(value)))
    elif value is None:
        yield from (("retype", new) for new in ("", "null", "None", 0, False, [], {}))
    elif isinstance(value, list):
        if len(value) > 1:
            one, other = rng.sample(range(len(value)), 2)
            swapped = copy.deepcopy(value)
            swapped[one], swapped[other] = swapped[other], swapped[one]
            yield "reorder", swapped
            yield "reorder", list(reversed(copy.deepcopy(value)))
            yield "reorder", copy.deepcopy(value[1:] + value[:1])
        if value:
            yield "items", copy.deepcopy(value[:-1])
            yield "items", copy.deepcopy(value[1:])
            yield "items", copy.deepcopy(value + [value[rng.randrange(len(value))]])
            yield "items", []
        yield "items", copy.deepcopy(value) + [rng.choice(("new", 77, None, {}, {"name": "new"}))]
        yield "items", [rng.choice(("new", 77, {"name": "new"}))] + copy.deepcopy(value)
        yield from (
            ("retype", new)
            for new in (
                None,
                str(value),
                {str(idx): item for idx, item in enumerate(value)},
                {},
                "",
                len(value),
                [copy.deepcopy(value)],
            )
        )
    elif isinstance(value, dict):
        real = [key for key in value if key not in DIRECTIVES]
        for key in real:
            yield "missing", {k: copy.deepcopy(v) for k, v in value.items() if k != key}
            renamed = {
                (k + "s" if k == key else k): copy.deepcopy(v) for k, v in value.items()
            }
            yield "missing", renamed
        for new in (None, {}, [], "", 0, False, "extra", {"a": 1}):
            yield "extra", {**copy.deepcopy(value), "extra": new}
        if real:
            yield "extra", {**copy.deepcopy(value), real[0].upper() + "2": value[real[0]]}
        yield from (
            ("retype", new)
            for new in (None, [copy.deepcopy(value)], [], "", {}, str(value), list(value), 1)
        )


def with_directives(rng, expected):
    """`expected` with compare directives for some of its lists; lists so directed
    may be in another order."""
    expected = copy.deepcopy(expected)
    used = set()
    for path, value in list(values.paths(expected)):
        if not isinstance(value, dict):
            continue
        for key, item in list(value.items()):
            if not isinstance(item, list) or key in DIRECTIVES or rng.random() < 0.35:
                continue
            if item and all(isinstance(entry, dict) for entry in item):
                fields = rng.choice((["name"], ["name"], ["name", "kind"]))
                try:
                    map_meets(item, item, fields)
                except Unspecified:
                    continue
                value.setdefault(MAP, {})[key] = fields
                used.add("map")
            elif item and not any(isinstance(entry, (dict, list)) for entry in item):
                try:
                    set_meets(item, item)
                except Unspecified:
                    continue
                value.setdefault(SET, []).append(key)
                used.add("set")
            else:
                continue
            rng.shuffle(item)
        if rng.random() < 0.1:
            value.setdefault(MAP, {})["absent"] = ["name"]
        if rng.random() < 0.1:
            value.setdefault(SET, []).append("not-there")
    return expected, used


# --------------------------------------------------------------------------
# Functions under test

MESSAGES = (
    "Skipped by Mode",
    "waiting for a.b (c) [d] {e} ^f$ g*h+ i|j \\k",
    "Grün & ÉTÉ 日本 says 'no'",
    "100% {} %s {message}",
    "two\nlines",
    "  padded  ",
    "x",
    'with "quotes"',
)
DELAYS = (0, 1, 7, 30, 60, 300, 86400)


ODD = (
    " padded ", "two\nlines", "trailing\n", "\ttab", "é", "e\u0301", "日本", "=1 + 1", "= x",
    "$", "a$b", "0", "01", "1.0", "1e3", "NaN", "{}", "[]", "null", "True", "\\", "'", '"',
    2**53 + 1, -(2**53) - 1, 9223372036854775800, 1e21, 1e-9, 0.1, 123456789.125,
)


def gen_value(rng, depth, nulls):
    """JSON data; lists are often fit for a directive."""
    roll = rng.random()
    if depth <= 0 or roll < 0.4:
        if rng.random() < 0.15:
            return rng.choice(ODD)
        return values.scalar(rng, nulls)
    if roll < 0.5:
        return rng.sample(["a", "b", "c", "1", "2", "true", 3, 4, 55], rng.randint(0, 4))
    if roll < 0.62:
        entries = []
        for name in rng.sample(["x", "y", "z", "1", 2, 2200], rng.randint(1, 3)):
            entry = {"name": name, "kind": rng.choice("kl")}
            if rng.random() < 0.6:
                entry["v"] = gen_value(rng, depth - 2, nulls)
            if rng.random() < 0.4:
                entry["tags"] = rng.sample(["s", "t", "u", 9], rng.randint(1, 3))
            entries.append(entry)
        return entries
    if roll < 0.72:
        return [gen_value(rng, depth - 1, nulls) for _ in range(rng.randint(0, 3))]
    keys = rng.sample(values.WORDS, rng.randint(0, 4))
    return {key: gen_value(rng, depth - 1, nulls) for key in keys}


def gen_inputs(rng, nulls):
    inputs = ft.gen_inputs(rng)
    inputs["v"] = {
        key: gen_value(rng, 3, nulls) for key in rng.sample(values.WORDS, rng.randint(1, 4))
    }
    return inputs


def dress(rng, function):
    """Messages and delays of all sorts, and whatever is in `inputs.v`."""
    spec = function.spec
    for place in ("preconditions", "postconditions"):
        for condition in spec.get(place, ()):
            for kind in ("skip", "depSkip", "retry", "permFail"):
                if kind in condition:
                    condition[kind]["message"] = rng.choice(MESSAGES)
                    if kind == "retry":
                        condition[kind]["delay"] = rng.choice(DELAYS)
    if function.kind == "ValueFunction":
        spec["return"]["v"] = "=inputs.v"
        if rng.random() < 0.2:
            spec["return"] = {"v": "=inputs.v"}
        if rng.random() < 0.2:
            spec["return"]["odd"] = {
                "u": "=uint(5)",
                "t": "=timestamp('2020-01-01T00:00:00Z')",
                "f": "=1.5 + 1.0",
                "s": "='5'",
                "n": "=null",
                "l": "=[1, '1', true, 1.5, null]",
                "c": "='a' + 'b'",
                "m": "={'k': [1] + [2]}",
            }
    else:
        body = spec.get("resource") or spec["overlays"][0]["overlay"]
        body["spec"]["v"] = "=inputs.v"
        if "return" in spec:
            spec["return"]["v"] = "=inputs.v"
    return function


def like(rng, value):
    """The same shape with other scalars."""
    if isinstance(value, dict):
        return {key: like(rng, item) for key, item in value.items()}
    if isinstance(value, list):
        return [like(rng, item) for item in value]
    if rng.random() < 0.8:
        return value
    if isinstance(value, bool):
        return not value
    if isinstance(value, str):
        return value + "!"
    if isinstance(value, (int, float)):
        return value + 1
    return value


# --------------------------------------------------------------------------


def outcome_assertions(rng, out):
    """-> (assertion, verdict, deviation or None)"""
    keys = {"Ok": "ok", "Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}
    made = []
    message = out.message or ""
    for cls, key in keys.items():
        if cls == "Ok":
            made.append(({"ok": {}}, out.cls == "Ok", "class" if out.cls != "Ok" else None))
            continue
        if cls != out.cls:
            body = {"message": rng.choice(("", "", message))}
            if message.strip().startswith("="):
                body["message"] = ""
            if cls == "Retry":
                body["delay"] = rng.choice((0, 0, out.delay or 0, 30))
            made.append(({key: body}, False, "class"))
            continue
        delays = [0, out.delay] if cls == "Retry" else [None]
        good = ["", ft.part_of(rng, message), ft.part_of(rng, message)]
        for text in good:
            for delay in delays:
                body = {"message": text}
                if delay is not None:
                    body["delay"] = delay
                made.append(({key: body}, True, None))
        if cls == "Retry":
            for delay in {out.delay + 1, out.delay - 1, out.delay * 2, 123457} - {0, out.delay}:
                made.append(
                    ({key: {"message": rng.choice(good), "delay": delay}}, False, "delay")
                )
        for text in not_within(rng, message):
            for delay in delays:
                body = {"message": text}
                if delay is not None:
                    body["delay"] = delay
                made.append(({key: body}, False, "message"))
    return [({"expectOutcome": body}, verdict, how) for body, verdict, how in made]


def not_within(rng, message):
    picked = [
        message + "!",
        "?" + message,
        message[::-1],
        message.replace(" ", ""),
        message.replace(".", "").replace("(", "\\("),
        ".*",
        "(",
        "[a-z]+",
        "None",
        " ",
        "no such thing was ever said",
        message + message,
        " ".join(reversed(message.split(" "))),
    ]
    if message:
        where = rng.randrange(len(message))
        picked.append(message[:where] + "~" + message[where + 1 :])
    return [
        text
        for text in dict.fromkeys(picked)
        if text
        and text.lower() not in message.lower()
        and text.casefold() not in message.casefold()
        and not text.strip().startswith("=")
    ]


def object_assertions(rng, rec, key, actual, limit):
    """Around an object which is what the Function did; -> (assertion, verdict, how)"""
    made = []
    truths = [(copy.deepcopy(actual), set())]
    directed, used = with_directives(rng, actual)
    if used:
        truths.append((directed, used))
    for expected, used in truths:
        try:
            if not meets(expected, actual):
                raise RuntimeError(f"not a true assertion: {expected} {actual}")
        except Unspecified:
            continue
        made.append(({key: expected}, True, None))
        for name in used:
            rec.count(f"true.under_{name}_directive")
        options = list(deviations(rng, expected))
        groups = {}
        for option in options:
            groups.setdefault(option[0], []).append(option)
        picked = []
        while len(picked) < limit and groups:
            kind = rng.choice(sorted(groups))
            picked.append(groups[kind].pop(rng.randrange(len(groups[kind]))))
            if not groups[kind]:
                del groups[kind]
        if used:
            # Within what the directives are about.
            near = [o for o in options if within_directed(expected, o[1])]
            picked += rng.sample(near, min(len(near), limit // 2))
        for kind, path, changed in picked:
            try:
                verdict = meets(changed, actual)
            except Unspecified:
                rec.count("unspecified")
                continue
            name = under(expected, path)
            if name:
                rec.count(f"{'true' if verdict else 'false'}.under_{name}_directive")
            made.append(({key: changed}, verdict, kind))
    return made


def within_directed(expected, path):
    return under(expected, path) is not None


def under(expected, path):
    at = expected
    for key in path:
        if isinstance(at, dict):
            if key in at.get(SET, ()):
                return "set"
            if key in at.get(MAP, {}):
                return "map"
        at = at[key]
    return None


KNOWN = {
    # Recorded in KNOWN_FINDINGS.txt
    "map-directed-not-a-list-of-objects": (
        ("crash", {"v": {"l": [{"name": "a"}]}}, {"v": {"l": "text", MAP: {"l": ["name"]}}}),
        ("crash", {"v": {"l": [{"name": "a"}]}}, {"v": {"l": None, MAP: {"l": ["name"]}}}),
        ("crash", {"v": {"l": "text"}}, {"v": {"l": [{"name": "a"}], MAP: {"l": ["name"]}}}),
        ("crash", {"v": {"l": [1]}}, {"v": {"l": [{"name": "a"}], MAP: {"l": ["name"]}}}),
    ),
    "bool-in-set-directed-list": (
        ("false", {"v": {"l": [True]}}, {"v": {"l": [1], SET: ["l"]}}),
        ("false", {"v": {"l": [0, 5]}}, {"v": {"l": [5, False], SET: ["l"]}}),
    ),
    "map-directed-colliding-keys": (
        (
            "false",
            {"v": {"l": [{"a": "x$y", "b": "z"}, {"a": "x", "b": "y$z"}]}},
            {"v": {"l": [{"a": "x", "b": "y$z"}], MAP: {"l": ["a", "b"]}}},
        ),
        (
            "false",
            {"v": {"l": [{"name": 1}, {"name": "1"}]}},
            {"v": {"l": [{"name": "1"}], MAP: {"l": ["name"]}}},
        ),
    ),
}


def systematic(tier):
    for mechanism, probes in KNOWN.items():
        for idx in range(len(probes)):
            yield f"{mechanism}:{idx}"


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        _, mechanism, idx = name.split(":")
        vloop.run(lambda: known(rng, rec, mechanism, int(idx)))
    else:
        vloop.run(lambda: scenario(rng, rec, tier))


async def known(rng, rec, mechanism, idx):
    _, inputs, expected = KNOWN[mechanism][idx]
    function = ft.Function("ValueFunction", defs.unique("fut"), {"return": {"v": "=inputs.v"}})
    await function.install()
    try:
        loaded = await defs.prepared(
            "FunctionTest",
            {
                "functionRef": {"kind": "ValueFunction", "name": function.name},
                "inputs": inputs,
                "testCases": [{"expectReturn": expected}],
            },
        )
        witness = {"returned": inputs, "expected": expected}
        try:
            got = await run_function_test(location="kmon", function_test=loaded)
        except Exception as err:
            rec.fail(f"the comparison raised {err!r}", witness, mechanism=mechanism)
        rec.check(
            not got.test_results[0].test_pass,
            "passed, though the value returned is another",
            witness,
            mechanism=mechanism,
        )
    finally:
        await function.uninstall()


async def scenario(rng, rec, tier):
    name = defs.unique("fut")
    if rng.random() < 0.3:
        function = ft.value_function(rng, name)
    else:
        flavour = rng.choice((None, None, "patch", "patch", "patch", "delete", "recreate"))
        function = ft.resource_function(rng, name, flavour, directives=rng.random() < 0.4)
    dress(rng, function)
    await function.install()
    try:
        await explore(rng, rec, tier, function)
    finally:
        await function.uninstall()


async def explore(rng, rec, tier, function):
    inputs = gen_inputs(rng, nulls=function.kind == "ValueFunction" and rng.random() < 0.5)
    resource = None
    if function.kind == "ValueFunction":
        if rng.random() < 0.5:
            resource = await ft.gen_resource(rng, function, inputs)
    elif rng.random() < 0.65:
        other = inputs if rng.random() < 0.4 else like(rng, inputs)
        other = {**other, "mode": "go"}
        resource = await ft.target(function, other)
        if resource is None:
            resource = await ft.gen_resource(rng, function, inputs)
    if rng.random() < 0.25:
        inputs["mode"] = rng.choice(("skip", "depSkip", "retry", "permFail"))
    if rng.random() < 0.04:
        del inputs["obj"]
    behaviour = await function.behave(inputs, resource)
    out = behaviour.outcome
    made, ambiguous = ft.materialised(behaviour, resource)

    op = {"POST": "create", "PATCH": "patch", "DELETE": "delete", None: "nothing"}[behaviour.op]
    rec.count(f"did.{op}")
    rec.count(f"class.{out.cls}")

    limit = 10 if tier == "quick" else 40
    assertions = outcome_assertions(rng, out)
    if len(assertions) > 12 and tier == "quick":
        assertions = rng.sample(assertions, 12)
    returned = out.value if out.cls == "Ok" else None
    if isinstance(returned, dict) and returned and not values.errors_within(returned):
        assertions += object_assertions(rng, rec, "expectReturn", returned, limit)
    else:
        for guess in (inputs["v"], inputs, {"n": inputs["n"]}, {"message": out.message}):
            if guess:
                assertions.append(({"expectReturn": copy.deepcopy(guess)}, False, "class"))
    if function.kind == "ResourceFunction":
        for expected in (True, False):
            deleted = behaviour.op == "DELETE"
            how = None if deleted == expected else "class"
            assertions.append(({"expectDelete": expected}, deleted == expected, how))
        if behaviour.op in ("POST", "PATCH"):
            sent = ft.without_last_applied(behaviour.payload)
            whole = ft.without_last_applied(made)
            if not ambiguous and jeq(sent, whole):
                assertions += object_assertions(rng, rec, "expectResource", sent, limit)
        else:
            guesses = [await ft.target(function, {**inputs, "mode": "go"}), resource, {"a": 1}]
            for guess in guesses:
                if guess:
                    guess = ft.without_last_applied(guess)
                    assertions.append(({"expectResource": guess}, False, "class"))

    witness = {
        "function": function.spec,
        "kind": function.kind,
        "inputs": inputs,
        "resource": resource,
        "function_does": behaviour,
    }
    rng.shuffle(assertions)
    for start in range(0, len(assertions), 20):
        await judge(rng, rec, function, inputs, resource, assertions[start : start + 20], witness, out, op)
    alone = rng.sample(assertions, min(len(assertions), 3))
    for assertion in alone:
        await judge(rng, rec, function, inputs, resource, [assertion], witness, out, op, alone=True)


async def judge(rng, rec, function, inputs, resource, assertions, witness, out, op, alone=False):
    cases = []
    for idx, (assertion, _, _) in enumerate(assertions):
        made = copy.deepcopy(assertion)
        if not alone:
            made["variant"] = True
        if rng.random() < 0.2:
            made["label"] = f"variant {idx}"
        cases.append(made)
    spec = {
        "functionRef": {"kind": function.kind, "name": function.name},
        "inputs": copy.deepcopy(inputs),
        "testCases": cases,
    }
    if resource:
        where = spec if rng.random() < 0.7 else None
        if where is not None:
            where["currentResource"] = copy.deepcopy(resource)
        else:
            for made in cases:
                made["currentResource"] = copy.deepcopy(resource)
    loaded = await defs.prepared("FunctionTest", spec)
    got = (await run_function_test(location="kmon", function_test=loaded)).test_results
    rec.check(
        len(got) == len(cases),
        f"{len(got)} results for {len(cases)} (variant) cases",
        {**witness, "cases": cases},
    )
    for (assertion, verdict, how), result in zip(assertions, got):
        key = next(iter(assertion))
        rec.count(f"{'true' if verdict else 'false'}.{key}")
        if how and not verdict:
            rec.count(f"deviation.{how}")
        rec.seen(
            (function.kind, op, out.cls, key, verdict, how, repr(assertion)),
            {"did": op, "outcome": out.cls, "assertion": assertion, "holds": verdict},
        )
        rec.check(
            result.test_pass == verdict,
            lambda: f"{key} {'passes' if result.test_pass else 'fails'}, though what it "
            f"asserts is {'true' if verdict else 'not true'} ({how or 'as it happened'})",
            lambda: {
                **witness,
                "assertion": assertion,
                "message": result.message,
                "differences": result.differences,
                "outcome": defs.outcome(result.outcome),
            },
        )
