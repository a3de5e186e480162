"""C02: the result of a Workflow does not depend on the order or timing in which
the API calls of its steps complete."""

import asyncio
import itertools
import json

from kmon import defs, probe, vloop, wf

ID = "C02"
LEVEL = "exploration"
RULE = (
    "a distinct (Workflow, order in which its API calls completed): the whole result "
    "of the pass was compared with the one of the other orders and with the model"
)
CASES = {"quick": 700, "thorough": 16000}
REQUIRED = {
    "runs": 1400,
    "workflows_with_several_orders": 120,
    "distinct_orders": 660,
    "forEach_permuted": 100,
    "state_conflicts": 78,
    "mutating": 21,
}
ASSUMPTIONS = (
    "every call succeeds, and all calls together take less than the step timeout",
)


def case(rng, rec, name, tier):
    big = rng.random() < (0.3 if tier == "thorough" else 0.1)
    options = wf.Options(
        nulls=0.04,
        broken=rng.choice((0, 0, 0.1)),
        failing=rng.choice((0.0, 0.1, 0.2, 0.4)),
        resource=rng.choice((0.7, 1.0)),
        nested=rng.choice((0, 0, 1)),
        steps=(7, 15) if big else (2, 7),
        skip_if=rng.choice((0.0, 0.1)),
        lookup=rng.random() < 0.2,
    )
    scenario = wf.Scenario(rng, options, "c02")
    runs = rng.choice((4, 8, 12)) if tier == "quick" else rng.choice((8, 16, 40))
    vloop.run(lambda: _run(rng, rec, scenario, runs))


class Schedule:
    """Decides how long each API call takes."""

    def __init__(self, rng, cluster, count, names):
        self.order = []
        self.rng = rng
        top = 8.5 / max(1, count)
        mode = rng.choice(
            ("instant", "reverse", "permuted", "permuted", "random", "slow-one", "turns")
        )
        self.mode = mode
        ranks = list(range(len(names)))
        if mode == "reverse":
            ranks = ranks[::-1]
        else:
            rng.shuffle(ranks)
        rank = dict(zip(names, ranks))
        slow = rng.choice(names) if names else None
        turns = {name: rng.randrange(0, 12) for name in names}

        async def before(request):
            name = request.name
            if mode == "turns":
                for _ in range(turns.get(name, 3)):
                    await asyncio.sleep(0)
            elif mode == "random":
                await asyncio.sleep(rng.uniform(0, top))
            elif mode in ("permuted", "reverse"):
                await asyncio.sleep(top * (1 + rank.get(name, 0)) / (1 + len(names)))
            elif mode == "slow-one":
                await asyncio.sleep(top if name == slow else 0)

        def after(request):
            self.order.append((request.op, request.name))

        cluster.before = before
        cluster.after = after


def portrait(run):
    """Everything the pass reports."""
    return {
        "outcome": list(run.outcome.key()),
        "conditions": run.conditions,
        "state": run.state,
        "state_errors": run.state_errors,
        "resource_ids": run.resource_ids,
    }


async def _run(rng, rec, scenario, runs):
    try:
        await scenario.install()
        done, _, state = scenario.expected()
        touches = [touch for step in done.values() for touch in step.objects]
        names = [touch.name for touch in touches if touch.touched]
        reference, reference_order, orders, contents = None, None, set(), None
        for attempt in range(runs):
            cluster = scenario.cluster(done)
            schedule = Schedule(rng, cluster, 2 * len(touches) + 2, names)
            probe.reset()
            run = await scenario.run(cluster)
            rec.count("runs")

            def witness():
                return {
                    "definition": scenario.definition(),
                    "reference": reference,
                    "reference_order": reference_order,
                    "order": schedule.order,
                    "run": portrait(run),
                    "expected": {label: [d.cls, d.value] for label, d in done.items()},
                }

            got = portrait(run)
            if reference is None:
                reference, reference_order = got, schedule.order
                contents = cluster.objects
                _model(rec, scenario, done, state, run, witness)
            for key, value in got.items():
                rec.check(
                    json.dumps(value, sort_keys=True, default=repr)
                    == json.dumps(reference[key], sort_keys=True, default=repr),
                    f"the {key} depends on the order in which calls complete",
                    witness,
                )
            rec.check(
                cluster.objects == contents,
                "the objects sent depend on the order in which calls complete",
                witness,
            )
            if probe.AVAILABLE:
                rec.check(
                    wf.observed_events() == wf.events_of(done),
                    "the invocations (or their inputs) depend on the order in which "
                    "calls complete",
                    witness,
                )
            order = tuple(schedule.order)
            if order not in orders:
                orders.add(order)
                rec.seen((scenario.definition(), order), {"order": order})
        rec.count("distinct_orders", len(orders))
        if len(orders) > 1:
            rec.count("workflows_with_several_orders")
            for step in scenario.steps:
                if step.each and len(done[step.label].objects) > 1:
                    rec.count("forEach_permuted")
        if any(touch.ops for touch in touches):
            rec.count("mutating")
    finally:
        await scenario.uninstall()


def _model(rec, scenario, done, state, run, witness):
    """Listed order of forEach results and of merged state."""
    rec.check(
        wf.matches(state, run.state),
        lambda: f"state is {run.state}, it should be {state}",
        witness,
    )
    publishers = [
        set(step.state)
        for step in scenario.steps
        if step.state and done[step.label].cls == "Ok"
    ]
    if any(a & b for a, b in itertools.combinations(publishers, 2)):
        rec.count("state_conflicts")
    if run.outcome.cls == "Ok":
        values = [d.value for d in done.values() if d.cls == "Ok"]
        rec.check(
            wf.matches(values, run.outcome.value),
            lambda: f"the values are {run.outcome.value}, not {values}",
            witness,
        )
