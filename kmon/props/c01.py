"""C01: steps run only on Ok dependencies, and see exactly their values."""

from collections import Counter

from kmon import defs, probe, vloop, wf

ID = "C01"
LEVEL = "exploration"
RULE = (
    "a distinct generated Workflow (its steps, dependencies, logic and outcomes), for "
    "which every step's outcome, every function evaluation with its inputs and every "
    "API call was compared with the model"
)
CASES = {"quick": 2400, "thorough": 60000}
REQUIRED = {
    "step.Ok": 2000,
    "step.DepSkip": 500,
    "step.Skip": 200,
    "step.Retry": 100,
    "step.PermFail": 100,
    "not_run": 800,
    "forEach": 400,
    "refSwitch": 400,
    "nested": 200,
    "evaluations_with_dependencies": 700,
    "broken.inputs.PermFail": 50,
    "broken.skip.PermFail": 80,
    "broken.switch.PermFail": 15,
    "broken.each.PermFail": 10,
    "ordered_calls": 300,
}
ASSUMPTIONS = (
    "every function records its evaluation through an additional CEL function",
)


def case(rng, rec, name, tier):
    big = tier == "thorough" and rng.random() < 0.2
    options = wf.Options(
        nulls=0.15,
        broken=rng.choice((0, 0, 0.1, 0.25)),
        failing=rng.choice((0.0, 0.1, 0.25, 0.5)),
        resource=rng.choice((0.2, 0.5, 0.9)),
        nested=rng.choice((0, 1, 2)),
        steps=(8, 20) if big else (1, 9),
        skip_if=rng.choice((0.1, 0.3)),
        lookup=rng.random() < 0.2,
    )
    scenario = wf.Scenario(rng, options, "c01")
    vloop.run(lambda: _run(rng, rec, scenario))


async def _run(rng, rec, scenario):
    try:
        await scenario.install()
        await _compare(rng, rec, scenario)
    finally:
        await scenario.uninstall()


def latencies(rng, cluster, count):
    top = 8.0 / max(1, count)
    mode = rng.choice(("none", "constant", "random", "random", "skewed"))
    if mode == "none":
        return mode
    base = rng.uniform(0.01, top)
    cluster.before = {
        "constant": lambda request: base,
        "random": lambda request: rng.uniform(0, top),
        "skewed": lambda request: top if rng.random() < 0.2 else 0,
    }[mode]
    return mode


async def _compare(rng, rec, scenario):
    done, env, state = scenario.expected()
    cluster = scenario.cluster(done)
    touches = [touch for step in done.values() for touch in step.objects]
    latencies(rng, cluster, 3 * len(touches))
    probe.reset()
    run = await scenario.run(cluster)
    events = wf.observed_events()

    def witness():
        return {
            "definition": scenario.definition(),
            "expected": {label: [d.cls, d.value] for label, d in done.items()},
            "run": run,
            "evaluations": probe.seen(),
            "requests": [request.brief() for request in cluster.log],
        }

    # 1. what each step reports
    conditions = wf.conditions_by_type(run)
    for step in scenario.steps:
        expected = done[step.label]
        condition = conditions.get(step.condition["type"])
        rec.check(
            condition is not None, f"no condition for step {step.label}", witness
        )
        got = wf.REASONS.get(condition["reason"], condition["reason"])
        rec.check(
            got == expected.cls,
            f"step {step.label} is reported as {got}, it should be {expected.cls} "
            f"({condition['message']})",
            witness,
        )
        rec.count(f"step.{expected.cls}")
        if expected.cls in ("Skip", "DepSkip") and not expected.events:
            rec.count("not_run")
        if step.each:
            rec.count("forEach")
        if step.switch:
            rec.count("refSwitch")
        if step.broken:
            rec.count(f"broken.{step.broken[0]}.{expected.cls}")
        if any(isinstance(logic, wf.SubWorkflow) for logic in step.logics()):
            rec.count("nested")
        if step.deps and expected.events:
            rec.count("evaluations_with_dependencies")
    want = wf.overall(done)
    rec.check(
        run.outcome.cls == want,
        f"the overall outcome is {run.outcome.brief()}, not {want}",
        witness,
    )

    # 2. which functions were evaluated, with what
    if probe.AVAILABLE:
        expected_events = wf.events_of(done)
        extra, missing = events - expected_events, expected_events - events
        rec.check(
            not extra,
            lambda: f"evaluated, but should not be (with these inputs): {list(extra)[:3]}"
            f"; missing: {list(missing)[:3]}",
            witness,
        )
        rec.check(
            not missing,
            lambda: f"not evaluated as often as needed: {list(missing)[:3]}",
            witness,
        )

    # 3. which objects were touched
    expected_names = {touch.name for touch in touches if touch.touched}
    for request in cluster.log:
        if request.op == "LOOKUP":
            continue
        rec.check(
            request.name in expected_names,
            f"{request.op} of {request.name}, on behalf of a step which does not run",
            witness,
        )
    seen = {request.name for request in cluster.log if request.op != "LOOKUP"}
    rec.check(
        seen == expected_names,
        lambda: f"no API call for {sorted(expected_names - seen)}",
        witness,
    )
    expected_mutations = Counter((op, touch.name) for touch in touches for op in touch.ops)
    mutations = Counter((request.op, request.name) for request in cluster.mutations)
    rec.check(
        mutations == expected_mutations,
        lambda: f"mutations are {mutations}, they should be {expected_mutations}",
        witness,
    )
    for request in cluster.mutations:
        if request.op not in ("POST", "PATCH"):
            continue
        for touch in touches:
            if touch.name == request.name:
                rec.check(
                    wf.matches(
                        touch.logic.target(touch.inputs)["spec"],
                        request.payload.get("spec"),
                    ),
                    f"{request.name} was not sent the values of its dependencies",
                    witness,
                )

    # 4. values: state is made of the steps' values
    rec.check(
        not run.state_errors, lambda: f"state errors {run.state_errors}", witness
    )
    rec.check(
        wf.matches(state, run.state),
        lambda: f"state is {run.state}, it should be {state}",
        witness,
    )
    if want == "Ok":
        values = [d.value for d in done.values() if d.cls == "Ok"]
        rec.check(
            wf.matches(values, run.outcome.value),
            lambda: f"the values are {run.outcome.value}, not {values}",
            witness,
        )

    # 5. nothing starts before what it depends on has finished
    _ordering(rec, scenario, done, cluster, witness)
    rec.seen(scenario.definition(), {"workflow": scenario.top.spec})


def _ordering(rec, scenario, done, cluster, witness):
    times: dict[str, list] = {}
    names = {
        touch.name: step
        for step, d in done.items()
        for touch in d.objects
        if touch.touched
    }
    for request in cluster.log:
        label = names.get(request.name)
        if label:
            times.setdefault(label, []).append(request)
    for step in scenario.steps:
        mine = times.get(step.label)
        if not mine:
            continue
        first = min(request.seq for request in mine)
        started = min(request.started for request in mine)
        for label in step.deps:
            for request in times.get(label, ()):
                rec.check(
                    request.seq < first
                    and request.finished is not None
                    and request.finished <= started,
                    f"step {step.label} started before {label} had finished",
                    witness,
                )
                rec.count("ordered_calls")
