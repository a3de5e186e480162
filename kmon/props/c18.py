"""C18: test cases chain; variants and skipped cases leave no trace."""

import copy
import re

from koreo.function_test.run import run_function_test

from kmon import defs, ft, probe, vloop
from kmon.values import jdiff, jeq, plain

ID = "C18"
LEVEL = "exploration"
RULE = (
    "a distinct sequence of test cases (variant/skip flags, overrides, resource "
    "changes, assertions, verdicts) for a Function under test"
)
CASES = {"quick": 1600, "thorough": 40000}
REQUIRED = {
    "test_cases_run": 1980,
    "variant_cases": 600,
    "skipped_cases": 280,
    "failed_variants": 180,
    "broken_variants": 20,
    "variants_removed": 310,
    "variants_added": 350,
    "variants_moved": 290,
    "skipped_removed": 190,
    "suffixes_run_alone": 580,
    "single_cases_run_alone": 940,
    "fixtures_compared": 400,
    "written_resource_carried": 250,
    "overrides_carried": 590,
    "stopped_at_failure": 33,
    "pass.expectReturn": 380,
    "pass.expectResource": 200,
    "pass.expectOutcome": 510,
    "pass.expectDelete": 350,
}
ASSUMPTIONS = (
    "where a deep and a shallow merge of a patch into the current resource differ, "
    "the resource the next case starts from is not modelled (only the relations "
    "between runs are checked)",
)

WRONG = (
    {"expectOutcome": {"skip": {"message": "never said this"}}},
    {"expectOutcome": {"permFail": {"message": "never said this either"}}},
    {"expectReturn": {"never": "returned"}},
    {"expectOutcome": {"retry": {"message": "", "delay": 123457}}},
)
WRONG_RESOURCE = (
    {"expectResource": {"apiVersion": "never", "kind": "Sent"}},
)


class Plan:
    """A FunctionTest and what is known about each of its cases."""

    def __init__(self, function, state):
        self.function = function
        self.state = state
        self.cases = []  # dicts as in the spec
        self.before = []  # State in front of each case
        self.known = []  # expected verdict, or None

    @property
    def end(self):
        return self.state_after

    def spec(self, cases=None, state=None):
        state = state or self.before[0] if self.before else self.state
        return build(self.function, state, self.cases if cases is None else cases)


def build(function, state, cases):
    spec = {
        "functionRef": {"kind": function.kind, "name": function.name},
        "testCases": copy.deepcopy(cases),
    }
    if state.inputs:
        spec["inputs"] = copy.deepcopy(state.inputs)
    if state.resource:
        spec["currentResource"] = copy.deepcopy(state.resource)
    return spec


async def load(function, spec):
    return await defs.prepared("FunctionTest", spec)


def describe(result):
    """Everything a result says, but for the position of its case."""

    def tidy(value):
        if isinstance(value, str):
            return re.sub(r"testCases\[\d+", "testCases[_", value)
        if isinstance(value, dict):
            return {key: tidy(item) for key, item in value.items()}
        if isinstance(value, (list, tuple)):
            tidied = [tidy(item) for item in value]
            if tidied and all(
                isinstance(item, str) and item.startswith("<") for item in tidied
            ):
                return sorted(tidied)
            return tidied
        return value

    return tidy(
        {
            "pass": result.test_pass,
            "label": result.label,
            "message": result.message,
            "outcome": repr(defs.outcome(result.outcome).key()),
            "expected": repr(
                defs.outcome(result.expected_outcome).key()
                if result.expected_outcome is not None
                else None
            ),
            "differences": plain(result.differences),
        }
    )


def essence(result):
    """What must not depend on the order of keys."""
    out = defs.outcome(result.outcome)
    return {
        "pass": result.test_pass,
        "label": result.label,
        "class": out.cls,
        "value": out.value,
        "message": None if out.cls == "Ok" else re.sub(r"testCases\[\d+", "", out.message or ""),
        "delay": out.delay,
    }


async def run(function, spec):
    loaded = await load(function, spec)
    got = await run_function_test(location="kmon", function_test=loaded)
    return got.test_results, got.fatal_error


def counted(results, cases):
    """Results up to (and including) the first failing non-variant case, by label."""
    kept = {}
    for case, result in zip(cases, results):
        kept[case["label"]] = result
        if not result.test_pass and not case.get("variant") and not case.get("skip"):
            break
    return kept


async def make_case(rng, function, state, label, variant, skip, tier):
    """-> (case, verdict or None, State for the next case, Behaviour or None)"""
    case = {"label": label}
    if variant:
        case["variant"] = True
        if "variant" not in label.lower():
            raise RuntimeError("labels of variants are kept as they are")
    elif rng.random() < 0.2:
        case["variant"] = False
    if skip:
        case["skip"] = True
    elif rng.random() < 0.2:
        case["skip"] = False
    if rng.random() < 0.5:
        case["inputOverrides"] = ft.gen_inputs(rng, partial=True)
    given = ft.effective(state, {**case})
    roll = rng.random()
    broken = False
    if roll < 0.2:
        case["currentResource"] = await ft.gen_resource(
            rng, function, given.inputs or ft.gen_inputs(rng)
        )
    elif roll < 0.5 and state.resource:
        if variant and rng.random() < 0.15:
            case["overlayResource"] = {"spec": {"n": "=inputs.nothing.like.this"}}
            broken = True
        else:
            case["overlayResource"] = ft.gen_overlay(rng, state.resource)
    if skip or broken:
        case.update(
            copy.deepcopy(
                rng.choice(
                    WRONG
                    + (
                        {"expectOutcome": {"ok": {}}},
                        {"expectOutcome": {"retry": {"message": "", "delay": 0}}},
                    )
                )
            )
        )
        if skip:
            return case, True, state, None
        return case, False, state, None
    try:
        behaviour, given, following = await ft.after(function, state, case)
    except ft.NoValue:
        # Such an overlay is an error, and would end the run.
        del case["overlayResource"]
        behaviour, given, following = await ft.after(function, state, case)
    made, ambiguous = ft.materialised(behaviour, given.resource)
    wrong = rng.random() < (0.3 if variant else 0.04)
    verdict = not wrong
    if wrong:
        choices = WRONG
        if function.kind == "ResourceFunction":
            choices = choices + WRONG_RESOURCE
            choices = choices + ({"expectDelete": behaviour.op != "DELETE"},) * 3
        case.update(copy.deepcopy(rng.choice(choices)))
    else:
        case.update(rng.choice(ft.truth(rng, behaviour, made, function.kind)))
    if given.ambiguous or (ambiguous and "expectResource" in case):
        verdict = None
    return case, verdict, following, behaviour


KNOWN = {
    # Recorded in KNOWN_FINDINGS.txt. -> (flavour of the Function, the variant)
    "variant-overlays-nothing": (
        ("patch", {"overlayResource": {"spec": {"n": 1}}}),
        ("ValueFunction", {"overlayResource": {"spec": {"n": 1}}}),
    ),
    "variant-raises": (
        ("recreate", {"currentResource": {"apiVersion": "v1", "kind": "X"}}),
        ("ValueFunction", {"currentResource": {"n": 2**70}}),
        (
            "ValueFunction",
            {"expectReturn": {"l": "text", "x-koreo-compare-as-map": {"l": ["name"]}}},
        ),
    ),
}


def systematic(tier):
    for mechanism, probes in KNOWN.items():
        for idx in range(len(probes)):
            yield f"{mechanism}:{idx}"


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        _, mechanism, idx = name.split(":")
        vloop.run(lambda: known(rng, rec, mechanism, int(idx)))
    else:
        vloop.run(lambda: scenario(rng, rec, tier))


async def known(rng, rec, mechanism, idx):
    """A variant in front of a case must not take that case's result away."""
    flavour, variant = KNOWN[mechanism][idx]
    name = defs.unique("fut")
    if flavour == "ValueFunction":
        function = ft.Function(
            flavour, name, {"return": {"n": "=inputs.n", "l": "=[{'name': 'a'}]"}}
        )
        plain_case = {"expectReturn": {"n": 1, "l": [{"name": "a"}]}}
    else:
        function = ft.resource_function(rng, name, flavour)
        plain_case = {"expectOutcome": {"retry": {"message": "", "delay": 0}}}
    await function.install()
    try:
        state = ft.State({"n": 1} if flavour == "ValueFunction" else ft.gen_inputs(rng), None)
        variant = {
            "label": "variant",
            "variant": True,
            **({} if "expectReturn" in variant else {"expectOutcome": {"skip": {"message": "x"}}}),
            **variant,
        }
        plain_case["label"] = "plain"
        witness = {"function": function.spec, "variant": variant, "plain": plain_case}
        alone, _ = await run(function, build(function, state, [plain_case]))
        try:
            both, _ = await run(function, build(function, state, [variant, plain_case]))
        except Exception as err:
            rec.fail(
                f"a variant takes the results of all cases away: {err!r}",
                witness,
                mechanism=mechanism,
            )
        rec.check(
            len(both) == 2,
            "a variant takes the result of the case after it away",
            witness,
            mechanism=mechanism,
        )
        rec.check(
            jeq(describe(alone[0]), describe(both[1])),
            "a variant changes the result of the case after it",
            witness,
        )
    finally:
        await function.uninstall()


async def scenario(rng, rec, tier):
    function_name = defs.unique("fut")
    if rng.random() < 0.3:
        function = ft.value_function(rng, function_name)
    else:
        function = ft.resource_function(rng, function_name)
    await function.install()
    try:
        await explore(rng, rec, tier, function)
    finally:
        await function.uninstall()


async def explore(rng, rec, tier, function):
    inputs = ft.gen_inputs(rng) if rng.random() < 0.92 else None
    resource = None
    if rng.random() < 0.5:
        resource = await ft.gen_resource(rng, function, inputs or ft.gen_inputs(rng))
    state = ft.State(inputs, resource)

    longest = 12 if tier == "quick" else 20
    count = rng.choice((1, 2, 3, 4, 6, 8, longest))
    cases, before, verdicts, behaviours = [], [], [], []
    expected_inputs = []
    live = True
    for idx in range(count):
        roll = rng.random()
        variant = roll < 0.35
        skip = rng.random() < 0.15
        label = f"{'variant ' if variant else ''}case {idx}"
        probe.reset()
        made, verdict, following, behaviour = await make_case(
            rng, function, state, label, variant, skip, tier
        )
        cases.append(made)
        before.append(state)
        verdicts.append(verdict)
        behaviours.append(behaviour)
        if behaviour is not None and following is not state:
            if behaviour.op in ("POST", "PATCH"):
                rec.count("written_resource_carried")
            if made.get("inputOverrides"):
                rec.count("overrides_carried")
        state = following
    before.append(state)

    fixtures = build(function, before[0], cases)
    witness = {"function": function.spec, "kind": function.kind, "test": fixtures}
    checks_on = [
        (before[0].inputs, None),
        (before[0].inputs, before[0].resource),
        (before[-1].inputs, None if before[-1].ambiguous else before[-1].resource),
    ]
    behaved = [
        said(await function.behave(*given, function=function.prepared))
        for given in checks_on
    ]

    loaded = await load(function, fixtures)
    frozen = fixture_values(loaded)
    probe.reset()
    first = await run_function_test(location="kmon", function_test=loaded)
    observed = probe.seen("inputs")
    whole = counted(first.test_results, cases)
    ran = len(whole)
    rec.count("test_cases_run", ran)
    tally(rec, cases, first.test_results, ran)

    # Stops at the first failing case which is not a variant, and only there.
    if ran < len(cases):
        rec.count("stopped_at_failure")
        rec.check(
            not first.test_results[ran - 1].test_pass,
            f"{len(first.test_results)} results for {len(cases)} cases, though none failed",
            {**witness, "results": [describe(r) for r in first.test_results]},
        )
    else:
        rec.check(
            len(first.test_results) == len(cases),
            "more results than cases",
            witness,
        )
    for idx in range(ran):
        rec.check(
            cases[idx]["label"] == first.test_results[idx].label,
            "a result carries the label of another case",
            witness,
        )

    # Verdicts, as constructed.
    for idx in range(ran):
        if verdicts[idx] is None:
            break
        rec.check(
            first.test_results[idx].test_pass == verdicts[idx],
            lambda: f"case {idx} {'failed' if verdicts[idx] else 'passed'}, though the "
            "state left by the cases before it says otherwise",
            lambda: {
                **witness,
                "case": cases[idx],
                "starts_from": before[idx],
                "function_does": behaviours[idx],
                "result": describe(first.test_results[idx]),
            },
        )
        if behaviours[idx] is not None and not cases[idx].get("skip"):
            rec.check(
                same_outcome(behaviours[idx].outcome, first.test_results[idx].outcome),
                lambda: f"case {idx} did not start from what the cases before it left",
                lambda: {
                    **witness,
                    "case": cases[idx],
                    "starts_from": before[idx],
                    "function_does": behaviours[idx],
                    "result": describe(first.test_results[idx]),
                },
            )

    # The inputs each case started from, as the Function itself saw them.
    if probe.AVAILABLE:
        expected = []
        for idx in range(ran):
            if behaviours[idx] is None:
                continue
            given = ft.effective(
                ft.State(before[idx].inputs, None),
                {k: v for k, v in cases[idx].items() if k == "inputOverrides"},
            )
            expected.append(given.inputs or {})
        position = 0
        for value in observed:
            while position < len(expected) and not jeq(expected[position], value):
                position += 1
            rec.check(
                position < len(expected),
                "the Function was given inputs no case should have started with",
                lambda: {**witness, "seen": observed, "model": expected},
            )
        rec.count("inputs_observed", len(observed))

    # Nothing of the fixtures or the Function changed; a second run says the same.
    rec.count("fixtures_compared")
    now = fixture_values(loaded)
    rec.check(
        jdiff(frozen, now) is None,
        lambda: f"running the test changed its fixtures: {jdiff(frozen, now)}",
        witness,
    )
    again = await run_function_test(location="kmon", function_test=loaded)
    same(rec, witness, "run again", whole, counted(again.test_results, cases))
    after = [
        said(await function.behave(*given, function=function.prepared))
        for given in checks_on
    ]
    rec.check(
        jeq(behaved, after),
        "running the test changed the Function under test",
        lambda: {**witness, "before": behaved, "after": after},
    )

    # Relations between runs.
    flags = [(bool(c.get("variant")), bool(c.get("skip"))) for c in cases]
    rec.seen(
        (
            function.kind,
            flags,
            [sorted(c) for c in cases],
            [r.test_pass for r in first.test_results],
            [b and (b.outcome.cls, b.op) for b in behaviours],
        ),
        {"kind": function.kind, "cases": cases, "passed": [r.test_pass for r in first.test_results]},
    )

    variants = [idx for idx, (variant, skip) in enumerate(flags) if variant]
    skipped = [idx for idx, (variant, skip) in enumerate(flags) if skip]

    if variants:
        rec.count("variants_removed")
        await related(rec, witness, function, before[0], whole,
                      "without its variants",
                      [c for idx, c in enumerate(cases) if idx not in variants])
        gone = set(rng.sample(variants, rng.randint(1, len(variants))))
        await related(rec, witness, function, before[0], whole,
                      "without some variants",
                      [c for idx, c in enumerate(cases) if idx not in gone])
    if skipped:
        rec.count("skipped_removed")
        await related(rec, witness, function, before[0], whole,
                      "without skipped cases",
                      [c for idx, c in enumerate(cases) if idx not in skipped])
    if not variants and not skipped:
        rec.count("plain_sequences")

    # More variants and skipped cases.
    more, extra = [], 0
    for idx in range(len(cases) + 1):
        while rng.random() < 0.4 and extra < min(6, 20 - len(cases)):
            flag = rng.random()
            label = f"extra variant {extra}"
            made, _, _, _ = await make_case(
                rng, function, before[idx], label, flag < 0.75, flag >= 0.75 or flag < 0.1, tier
            )
            more.append(made)
            extra += 1
        if idx < len(cases):
            more.append(cases[idx])
    if extra:
        rec.count("variants_added")
        await related(rec, witness, function, before[0], whole, "with more variants", more)

    # Variants in another order: anywhere for those which do not overlay.
    if len(variants) > 1 or (variants and len(cases) > 1):
        moved = shuffled(rng, cases, before)
        if moved is not None:
            rec.count("variants_moved")
            await related(
                rec, witness, function, before[0], whole, "with its variants moved",
                moved[0], ignoring=moved[1],
            )

    # Each case alone, from the state the model says it starts with.
    suffixes = list(range(1, ran))
    for idx in rng.sample(suffixes, min(len(suffixes), 2 if tier == "quick" else 4)):
        if before[idx].ambiguous:
            continue
        rec.count("suffixes_run_alone")
        results, _ = await run(function, build(function, before[idx], cases[idx:]))
        alone = counted(results, cases[idx:])
        ahead = dict(list(whole.items())[idx:])
        compare(rec, witness, before[idx], f"cases from {idx} on alone", ahead, alone)
    for idx in suffixes if tier == "thorough" else rng.sample(suffixes, min(len(suffixes), 4)):
        if before[idx].ambiguous:
            continue
        rec.count("single_cases_run_alone")
        results, _ = await run(function, build(function, before[idx], [cases[idx]]))
        label = cases[idx]["label"]
        compare(
            rec, witness, before[idx], f"case {idx} alone",
            {label: whole[label]}, counted(results, [cases[idx]]),
        )


def said(behaviour):
    out = behaviour.outcome
    return [out.cls, out.value, out.message, out.delay, behaviour.op, behaviour.payload]


def same_outcome(model, raw):
    real = defs.outcome(raw)
    return (
        model.cls == real.cls
        and jeq(model.value, real.value)
        and (model.cls == "Ok" or model.delay == real.delay)
    )


def tally(rec, cases, results, ran):
    for idx in range(ran):
        case, result = cases[idx], results[idx]
        if case.get("skip"):
            rec.count("skipped_cases")
            continue
        if case.get("variant"):
            rec.count("variant_cases")
            if not result.test_pass:
                rec.count("failed_variants")
            if "nothing.like.this" in str(case.get("overlayResource")):
                rec.count("broken_variants")
        if result.test_pass:
            for key in case:
                if key.startswith("expect"):
                    rec.count(f"pass.{key}")


def fixture_values(loaded):
    """The data of a prepared FunctionTest (compiled expressions have no value)."""

    def data(value):
        if isinstance(value, tuple) and hasattr(value, "_fields"):
            return {key: data(getattr(value, key)) for key in value._fields}
        if value is None or isinstance(value, (bool, int, float, str, dict, list, tuple)):
            return plain(value)
        return None

    return {
        "inputs": data(getattr(loaded, "inputs", None)),
        "resource": data(getattr(loaded, "initial_resource", None)),
        "cases": [
            {
                key: data(getattr(case, key, None))
                for key in ("input_overrides", "current_resource", "assertion", "label")
            }
            for case in getattr(loaded, "test_cases", None) or ()
        ],
    }


def shuffled(rng, cases, before):
    """-> (cases with the variants moved, labels whose own result may now differ)"""
    order = [(idx, made) for idx, made in enumerate(cases) if not made.get("variant")]
    variants = [(idx, made) for idx, made in enumerate(cases) if made.get("variant")]
    rng.shuffle(variants)
    if rng.random() < 0.5:
        # Within its gap a variant still starts from the same state.
        gaps = {}
        for idx, made in variants:
            gaps.setdefault(id(before[idx]), []).append(made)
        placed, done = [], set()
        for idx, made in enumerate(cases):
            if made.get("variant"):
                gap = gaps[id(before[idx])]
                placed.append(gap.pop())
            else:
                placed.append(made)
        return placed, set()
    positions = len(order)
    placed = [made for _, made in order]
    # States in front of each case that is not a variant, and at the end.
    states = [before[idx] for idx, _ in order] + [before[-1]]
    chosen = {}
    for _, made in variants:
        allowed = [
            at
            for at in range(positions + 1)
            if states[at].resource or not made.get("overlayResource")
        ]
        if not allowed:
            return None
        chosen.setdefault(rng.choice(allowed), []).append(made)
    result = []
    for at in range(positions + 1):
        result += chosen.get(at, [])
        if at < positions:
            result.append(placed[at])
    return result, {made["label"] for _, made in variants}


async def related(rec, witness, function, state, whole, how, cases, ignoring=()):
    if not cases:
        return
    results, _ = await run(function, build(function, state, cases))
    other = counted(results, cases)
    same(
        rec,
        {**witness, "other": cases},
        how,
        {k: v for k, v in whole.items() if k not in ignoring},
        {k: v for k, v in other.items() if k not in ignoring},
        partial=True,
    )


def same(rec, witness, how, left, right, partial=False):
    common = [label for label in left if label in right]
    if not partial:
        rec.check(
            list(left) == list(right), f"{how}: other cases were run", witness
        )
    else:
        # Neither run may stop early: a case which is in both and was reached in
        # one is reached in the other.
        for one, two in ((left, right), (right, left)):
            stopped = [
                label for label, result in one.items()
                if not result.test_pass and "variant" not in label
            ]
            wanted = {c["label"] for c in witness["test"]["testCases"]} & {
                c["label"] for c in witness["other"]
            }
            if not stopped:
                missing = [
                    label for label in wanted
                    if label in two and label not in one
                ]
                rec.check(
                    not missing,
                    f"{how}: case(s) {missing} not run in one of two related tests",
                    witness,
                )
    for label in common:
        a, b = describe(left[label]), describe(right[label])
        rec.check(
            jeq(a, b),
            lambda: f"{how}: the result of {label!r} changes",
            lambda: {**witness, "whole": a, "then": b},
        )


def compare(rec, witness, state, how, left, right):
    rec.check(
        list(left) == list(right),
        f"{how}: other cases were run",
        lambda: {**witness, "from": state, "whole": list(left), "alone": list(right)},
    )
    for label in left:
        a, b = essence(left[label]), essence(right[label])
        rec.check(
            jeq(a, b),
            lambda: f"{how}: the result of {label!r} changes: {jdiff(a, b)}",
            lambda: {**witness, "from": state, "whole": a, "alone": b},
        )
