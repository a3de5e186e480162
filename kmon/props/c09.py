"""C09: a Workflow pass contains faults of API calls, reports truthfully, recovers."""

import asyncio
import json

import httpx
import kr8s

from kmon import defs, probe, vloop, wf
from kmon.cluster import server_error

ID = "C09"
LEVEL = "exploration"
RULE = (
    "a distinct (Workflow, faults injected into the API calls of a sequence of "
    "passes) followed by passes without faults until nothing changes"
)
CASES = {"quick": 1200, "thorough": 30000}
REQUIRED = {
    "faulty_passes": 530,
    "injected": 470,
    "converged": 300,
    "affected_steps": 320,
    "dependents_not_run": 300,
    "fault.hang": 84,
    "fault.slow": 60,
    "fault.exception": 99,
    "fault.server": 98,
    "fault.base": 60,
    "fault.cancelled": 45,
    "fault.timeout": 47,
    "lost_reply": 160,
    "op.GET": 300,
    "op.POST": 100,
    "op.PATCH": 50,
    "op.DELETE": 50,
    "op.LOOKUP": 22,
}
ASSUMPTIONS = (
    "faults are those of API calls; KeyboardInterrupt and SystemExit are not faults",
    "an API call can be cancelled while it waits",
)
STEP_TIMEOUT = 10
# What a function does once what it has to correct is corrected.
HEALED = {"absent": "match", "drift": "match", "recreate": "match", "delete": "gone"}


class Odd(BaseException):
    """Not an Exception."""


def _server(code):
    return lambda: server_error(code, f"injected {code}")


# kind -> factories of the exception, or seconds to wait
FAULTS = {
    "exception": (
        lambda: Exception("injected"),
        lambda: Exception(),
        lambda: RuntimeError("injected {braces} %s"),
        lambda: ValueError("injected"),
        lambda: KeyError("injected"),
        lambda: TypeError("injected"),
        lambda: AttributeError("injected"),
        lambda: AssertionError(),
        lambda: ConnectionResetError(104, "reset"),
        lambda: OSError("injected"),
        lambda: EOFError(),
        lambda: StopIteration("injected"),
        lambda: StopAsyncIteration("injected"),
        lambda: LookupError("injected"),
        lambda: RecursionError("injected"),
        lambda: MemoryError(),
        lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "injected"),
        lambda: json.JSONDecodeError("injected", "doc", 0),
        lambda: ExceptionGroup("injected", [ValueError("a"), OSError("b")]),
        lambda: kr8s.ConnectionClosedError("injected"),
        lambda: kr8s.APITimeoutError("injected"),
        lambda: httpx.ReadError("injected"),
        lambda: httpx.ConnectError("injected"),
        lambda: httpx.RemoteProtocolError("injected"),
        lambda: asyncio.InvalidStateError("injected"),
        lambda: asyncio.QueueFull(),
    ),
    "server": (
        *map(_server, (400, 401, 403, 404, 409, 410, 422, 429, 500, 502, 503, 504)),
        *[lambda: kr8s.ServerError("no response", status=None, response=None)] * 3,
    ),
    "base": (
        lambda: Odd("injected"),
        lambda: GeneratorExit("injected"),
        lambda: Odd(),
    ),
    "cancelled": (lambda: asyncio.CancelledError("injected"),),
    "timeout": (
        lambda: asyncio.TimeoutError("injected"),
        lambda: TimeoutError(),
        lambda: httpx.ReadTimeout("injected"),
    ),
    "slow": (10.5, 11, 14.9, 16, 40, 300),
    "hang": (None,),
}


def faults(rng):
    """-> (kind, factory of the exception, or seconds to wait)"""
    kind = rng.choice(
        ("exception", "exception", "server", "server", "hang", "hang", "slow")
        + ("base", "cancelled", "timeout")
    )
    return kind, rng.choice(FAULTS[kind])


# What a function has to do for a call of this kind to be made.
CALLING = {
    "GET": ("match", "gone", "never", "drift", "absent", "readonly-match", "delete"),
    "POST": ("absent",),
    "PATCH": ("drift",),
    "DELETE": ("recreate", "delete"),
    "LOOKUP": ("match", "gone", "drift", "absent"),
}


def systematic(tier):
    """Every fault, in every kind of call, before and after it takes effect."""
    for op in CALLING:
        for kind, makes in FAULTS.items():
            for idx in range(len(makes)):
                for when in ("before", "after"):
                    for mode in CALLING[op]:
                        yield f"{op}/{kind}/{idx}/{when}/{mode}"


class Injector:
    """The faults of one pass."""

    def __init__(self, rng, cluster, names, absent, fixed=None):
        self.rng = rng
        self.absent = absent
        self.injected = []  # (kind, op, name, when)
        self.late = False
        mode = rng.choice(("object", "object", "nth", "all", "some", "op", "several"))
        self.mode = mode
        self.when = rng.choice(("before", "before", "after"))
        self.fault = faults(rng)
        target = {
            "object": {rng.choice(names)} if names else set(),
            "several": set(rng.sample(names, min(len(names), 3))),
        }.get(mode)
        nth = rng.randrange(0, max(1, len(names)) * 2)
        ops = rng.choice((("GET",), ("POST",), ("PATCH",), ("DELETE",), ("LOOKUP",), ("POST", "PATCH", "DELETE")))
        if fixed:
            op, kind, idx, self.when, _ = fixed
            self.mode = mode = "op"
            self.fault, ops = (kind, FAULTS[kind][int(idx)]), (op,)
        count = -1
        latency = rng.choice((0, 0, 0.01, 0.3))
        share = rng.uniform(0.2, 0.9)

        def hit(request):
            nonlocal count
            count += 1
            return {
                "object": lambda: request.name in target and eligible(request),
                "several": lambda: request.name in target and eligible(request),
                "nth": lambda: count == nth,
                "all": lambda: eligible(request),
                "some": lambda: eligible(request) and rng.random() < share,
                "op": lambda: request.op in ops,
            }[mode]()

        only_mutations = rng.random() < 0.6
        chosen = {}

        def eligible(request):
            return not only_mutations or request.op != "GET"

        async def before(request):
            if latency:
                await asyncio.sleep(rng.uniform(0, latency))
            chosen[request.seq] = hit(request)
            # There is no reply to lose while looking up kinds
            if chosen[request.seq] and (self.when == "before" or request.op == "LOOKUP"):
                await self.inject(request, "before")

        async def after(request):
            if chosen.get(request.seq) and self.when == "after":
                await self.inject(request, "after")

        cluster.before, cluster.after = before, after

    async def inject(self, request, when):
        kind, make = self.fault
        if self.mode in ("all", "some", "several") and self.rng.random() < 0.5:
            kind, make = faults(self.rng)
        self.injected.append((kind, request.op, request.name, when))
        if kind == "hang":
            await asyncio.Event().wait()
        elif kind == "slow":
            await asyncio.sleep(make)
        else:
            error = make()
            if (
                request.op == "GET"
                and request.name in self.absent
                and isinstance(error, kr8s.ServerError)
                and error.response is not None
                and error.response.status_code == 404
            ):
                # Being told that what is to be deleted is gone is no fault.
                error = server_error(500, "injected 500")
            raise error


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        fixed = name[4:].split("/")
        options = wf.Options(
            failing=1.0,
            resource=1.0,
            resource_modes=(fixed[-1],),
            nested=rng.choice((0, 0, 0, 1)),
            steps=(1, rng.choice((1, 1, 2, 3))),
            skip_if=0.0,
            lookup=fixed[0] == "LOOKUP",
        )
        scenario = wf.Scenario(rng, options, "c09")
        vloop.run(lambda: _run(rng, rec, scenario, fixed))
        return
    options = wf.Options(
        failing=rng.choice((0.0, 0.0, 0.05, 0.2)),
        resource=rng.choice((0.6, 0.9, 1.0)),
        resource_modes=rng.choice(
            (
                ("absent", "drift", "recreate", "match", "readonly-match"),
                ("absent", "drift", "recreate", "delete", "gone", "never"),
                ("absent", "drift", "recreate", "delete"),
            )
        ),
        nested=rng.choice((0, 1, 1)),
        steps=(1, 6) if tier == "quick" or rng.random() < 0.7 else (5, 12),
        skip_if=rng.choice((0.0, 0.1)),
        lookup=rng.random() < 0.3,
    )
    scenario = wf.Scenario(rng, options, "c09")
    # The first definition of each kind is the one which is looked up, so the
    # run without faults is another instance of everything.
    vloop.run(lambda: _run(rng, rec, scenario))


def functions_of(logic):
    for one in logic.install_order():
        if isinstance(one, wf.Function):
            yield one


async def _run(rng, rec, scenario, fixed=None):
    try:
        await scenario.install()
        await _faults(rng, rec, scenario, fixed)
    finally:
        await scenario.uninstall()


def portrait(run):
    return {
        "outcome": list(run.outcome.key()),
        "conditions": run.conditions,
        "state": run.state,
        "state_errors": run.state_errors,
        "resource_ids": run.resource_ids,
    }


async def settle(rec, scenario, cluster, limit, witness):
    """Passes without faults until nothing changes any more."""
    cluster.before = cluster.after = None
    last = None
    for _ in range(limit):
        mutations = len(cluster.mutations)
        run = await scenario.run(cluster)
        current = json.dumps(portrait(run), sort_keys=True, default=repr)
        if len(cluster.mutations) == mutations and current == last:
            return run
        last = current if len(cluster.mutations) == mutations else None
    rec.fail(f"no fixpoint after {limit} passes without faults", witness)


async def _faults(rng, rec, scenario, fixed=None):
    loop = asyncio.get_running_loop()
    first, _, _ = scenario.expected()
    # What everything becomes once created and corrected.
    functions = {
        function.name: function
        for function in functions_of(scenario.top)
        if function.mode in HEALED
    }
    cluster, clean = scenario.cluster(first), scenario.cluster(first)
    _complete(scenario, functions, cluster, clean)
    modes = {name: function.mode for name, function in functions.items()}
    for function in functions.values():
        function.mode = HEALED[function.mode]
    healed, _, healed_state = scenario.expected()
    for name, mode in modes.items():
        functions[name].mode = mode

    owner = {}  # object name -> top-level step
    for label, done in healed.items():
        for touch in done.objects:
            if touch.touched:
                owner[touch.name] = label
    users: dict[str, set] = {}
    for step in scenario.steps:
        for logic in step.logics():
            for function in functions_of(logic):
                users.setdefault(function.ident, set()).add(step.label)
    absent = {
        touch.name
        for done in healed.values()
        for touch in done.objects
        if touch.logic.mode in ("gone", "delete")
    }
    needs = {}
    for step in scenario.steps:
        needs[step.label] = set(step.deps).union(*(needs[d] for d in step.deps))

    trail = []
    for _ in range(1 if fixed else rng.choice((1, 1, 2, 3))):
        injector = Injector(rng, cluster, sorted(owner), absent, fixed)
        probe.reset()
        logged = len(cluster.log)
        began = loop.time()

        def witness():
            return {
                "definition": scenario.definition(),
                "faults": [*trail, injector.injected],
                "requests": [request.brief() for request in cluster.log[logged:]],
                "run": run,
            }

        run = None
        try:
            # Whatever escapes is caught, not only exceptions
            run = await asyncio.wait_for(_pass(scenario, cluster), 500)
        except TimeoutError:
            rec.fail("the pass did not return (500 s)", witness)
        if isinstance(run, BaseException):
            rec.fail(f"the pass raised {run!r}", witness)
        took = loop.time() - began
        rec.check(
            took <= STEP_TIMEOUT + 0.5,
            f"the pass took {took} s, the step timeout is {STEP_TIMEOUT} s",
            witness,
        )
        requests = cluster.log[logged:]
        _truthful(rec, scenario, injector, requests, run, healed, owner, users, needs, witness)
        cluster.before = cluster.after = None
        await asyncio.sleep(rng.choice((0, 1, 60)))
        rec.check(
            len(cluster.log) == logged + len(requests),
            "API calls are made after the pass returned",
            witness,
        )
        trail.append(injector.injected)
        rec.count("faulty_passes")
        rec.count("injected", len(injector.injected))
        for kind, op, _, when in injector.injected:
            rec.count(f"fault.{kind}")
            rec.count(f"op.{op}")
            if when == "after":
                rec.count("lost_reply")

    limit = 4 * (len(owner) + len(scenario.steps)) + 6

    def witness():
        return {
            "definition": scenario.definition(),
            "faults": trail,
            "run": recovered and portrait(recovered),
            "without_faults": reference and portrait(reference),
            "objects": list(cluster.objects.items()),
            "objects_without_faults": list(clean.objects.items()),
        }

    recovered = reference = None
    recovered = await settle(rec, scenario, cluster, limit, witness)
    reference = await settle(rec, scenario, clean, limit, witness)
    rec.check(
        cluster.objects == clean.objects,
        "the cluster contents differ from those of a run which never saw a fault",
        witness,
    )
    got, want = portrait(recovered), portrait(reference)
    for key in want:
        rec.check(
            json.dumps(got[key], sort_keys=True, default=repr)
            == json.dumps(want[key], sort_keys=True, default=repr),
            f"the {key} differs from that of a run which never saw a fault",
            witness,
        )
    rec.check(
        recovered.outcome.cls == wf.overall(healed)
        and wf.matches(healed_state, recovered.state),
        f"the result after recovery is {recovered.outcome.brief()}",
        witness,
    )
    rec.count("converged")
    if any(trail):
        rec.seen((scenario.definition(), trail), {"faults": trail})


async def _pass(scenario, cluster):
    try:
        return await scenario.run(cluster)
    except BaseException as err:
        # including a cancellation which was not asked for
        return err


def _complete(scenario, functions, *clusters):
    """Steps which only run once others are corrected need their objects, too."""
    modes = {name: function.mode for name, function in functions.items()}
    for function in functions.values():
        function.mode = HEALED[function.mode]
    healed, _, _ = scenario.expected()
    for name, mode in modes.items():
        functions[name].mode = mode
    for done in healed.values():
        for touch in done.objects:
            live = scenario.live(touch)
            if live is None:
                continue
            api = touch.logic.api
            for cluster in clusters:
                cluster.put(api[0], api[2], wf.NAMESPACE, touch.name, live)


def _truthful(rec, scenario, injector, requests, run, healed, owner, users, needs, witness):
    affected = {
        owner[name] for _, _, name, _ in injector.injected if name in owner
    }
    looked_up = any(op == "LOOKUP" for _, op, _, _ in injector.injected)
    conditions = wf.conditions_by_type(run)
    reported = {
        step.label: wf.REASONS.get(condition["reason"], condition["reason"])
        for step in scenario.steps
        if (condition := conditions.get(step.condition["type"]))
    }
    for label in affected:
        rec.count("affected_steps")
        rec.check(
            reported.get(label, "Retry") in ("Retry", "PermFail"),
            f"step {label} is reported as {reported.get(label)} although a call failed",
            witness,
        )
    if affected:
        rec.check(
            run.outcome.cls in ("Retry", "PermFail"),
            f"a call failed, but the overall outcome is {run.outcome.brief()}",
            witness,
        )
    answered = {
        request.name
        for request in requests
        if request.op == "GET" and request.finished is not None
    }
    for step in scenario.steps:
        label = step.label
        if needs[label] & affected:
            rec.count("dependents_not_run")
            rec.check(
                reported.get(label, "Retry") not in ("Ok", "Skip"),
                f"step {label} needs a failed step, it is reported {reported.get(label)}",
                witness,
            )
            for ident, _ in probe.seen():
                rec.check(
                    users.get(ident) != {label},
                    f"step {label} was evaluated, what it needs had failed",
                    witness,
                )
            for request in requests:
                rec.check(
                    owner.get(request.name) != label,
                    f"{request.op} for step {label}, what it needs had failed",
                    witness,
                )
        if reported.get(label) == "Ok":
            rec.check(
                healed[label].cls == "Ok",
                f"step {label} claims to be ready, it is {healed[label].cls}",
                witness,
            )
            missing = [
                touch.name
                for touch in healed[label].objects
                if touch.touched and touch.name not in answered
            ]
            rec.check(
                not missing,
                f"step {label} claims to be ready, no answer was received for {missing}",
                witness,
            )
        if label in affected or needs[label] & affected or reported.get(label, "Ok") != "Ok":
            rec.check(
                f"only_{label}" not in (run.state or {}),
                f"state of step {label} is published, the step did not succeed",
                witness,
            )
    if run.outcome.cls == "Ok":
        unanswered = set(owner) - answered
        rec.check(
            not unanswered and not (looked_up and not answered and owner),
            f"the overall outcome is Ok without an answer for {unanswered}",
            witness,
        )
    ready = [c for c in run.conditions if c["type"] == "Ready"]
    for condition in ready:
        rec.check(
            condition["reason"] != "Ready" or run.outcome.cls == "Ok",
            f"a condition claims readiness: {condition}",
            witness,
        )
    rec.check(ready, "there is no condition about the Workflow", witness)
