"""C07: management modes bound the API calls."""

import copy

from kmon import defs, rf, vloop
from kmon.cluster import Cluster

ID = "C07"
LEVEL = "exploration"
RULE = (
    "a distinct (definition, management mode, preconditions, sequence of cluster "
    "states) for which every request of every pass was compared with the mode"
)
CASES = {"quick": 10000, "thorough": 45000}
REQUIRED = {
    "mode:readonly": 200,
    "mode:create-disabled": 200,
    "mode:never": 200,
    "mode:patch": 200,
    "mode:recreate": 200,
    "mode:deleteIfExists": 200,
    "precondition:blocked": 300,
    "waiting": 200,
    "POST": 100,
    "PATCH": 100,
    "DELETE": 100,
    "live:absent": 300,
    "live:drifted": 300,
    "live:unowned": 100,
}
ASSUMPTIONS = (
    "deleteIfExists overrides the other modes, as documented: it may only delete",
)

BLOCKING = {
    "skip": "Skip",
    "depSkip": "DepSkip",
    "retry": "Retry",
    "permFail": "PermFail",
}


def case(rng, rec, name, tier):
    vloop.run(lambda: _case(rng, rec, name))


def _precondition(rng, blocking):
    if not blocking:
        return {
            "assert": rng.choice(("=true", "=inputs.yes", "=size(inputs.tag) >= 0")),
            "permFail": {"message": "never"},
        }, None
    roll = rng.random()
    if roll < 0.75:
        kind = rng.choice(sorted(BLOCKING))
        body = {"message": rng.choice(("not now", "='no ' + inputs.tag"))}
        if kind == "retry":
            body["delay"] = rng.choice((3, 60))
        return {
            "assert": rng.choice(("=false", "=inputs.no", "=size(inputs.tag) < 0")),
            kind: body,
        }, BLOCKING[kind]
    if roll < 0.9:
        return {
            "assert": rng.choice(
                ("=inputs.missing", "=inputs.tag.x", "=size(1) == 1", "=1 / 0 == 1")
            ),
            "skip": {"message": "unevaluable"},
        }, "PermFail"
    return {
        "assert": rng.choice(("=inputs.tag", "=1", "='true'", "=[]")),
        "skip": {"message": "not boolean"},
    }, "PermFail"


async def _case(rng, rec, name):
    policy = rng.choice(("patch", "recreate", "never", "default"))
    scenario = rf.gen_scenario(
        rng,
        f"c07-{name}".replace(":", "-"),
        nulls=rng.random() < 0.2,
        body=rf.gen_body(rng, 2),
        policy=policy,
        overlays=rng.choice((0, 0, 1)),
        create_overlay=None,
    )
    spec, inputs = scenario.spec, scenario.inputs
    inputs["yes"], inputs["no"] = True, False

    modes = rng.choice(
        (
            (),
            (),
            ("readonly",),
            ("create-disabled",),
            ("readonly", "create-disabled"),
            ("deleteIfExists",),
            ("deleteIfExists", "readonly"),
            ("deleteIfExists", "create-disabled"),
        )
    )
    if "readonly" in modes:
        spec["apiConfig"]["readonly"] = True
    else:
        spec["apiConfig"].pop("readonly", None)
        if rng.random() < 0.2:
            spec["apiConfig"]["readonly"] = False
    if "deleteIfExists" in modes:
        spec["apiConfig"]["deleteIfExists"] = True
    if "create-disabled" in modes:
        spec["create"] = {"enabled": False}
    elif rng.random() < 0.3:
        spec.setdefault("create", {})["enabled"] = True

    spec.pop("preconditions", None)
    blocked = None
    if rng.random() < 0.5:
        conditions = []
        blocking = rng.random() < 0.5
        for _ in range(rng.randint(0, 2)):
            conditions.append(_precondition(rng, False)[0])
        if blocking:
            condition, blocked = _precondition(rng, True)
            conditions.append(condition)
        spec["preconditions"] = conditions
        if not conditions:
            del spec["preconditions"]

    function = await rf.install_scenario(scenario)
    try:
        await _passes(rng, rec, scenario, function, modes, blocked)
    finally:
        await rf.uninstall_scenario(scenario)


def _place(rng, scenario, cluster):
    """Another actor puts the object in some state."""
    state = rng.choice(("absent", "benign", "drifted", "drifted", "unowned", "bare"))
    cluster.objects.pop(scenario.address, None)
    if state == "absent":
        return state
    owner_ref = scenario.owner[1] if scenario.should_own else None
    if state == "unowned":
        owner_ref = None
        if not scenario.should_own:
            state = "benign"
    live = rf.benign(rng, scenario.target, owner_ref)
    if state == "drifted":
        for _ in range(6):
            rf.apply_drift(rng, scenario.target, live)
            if rf.unmet(scenario, live) is not None:
                break
        else:
            state = "benign"
    if state == "bare":
        live = scenario.identity
    cluster.put(*scenario.address, live)
    return state


async def _passes(rng, rec, scenario, function, modes, blocked):
    cluster = Cluster()
    history = []
    names = modes or (scenario.policy,)
    for mode in names:
        rec.count(f"mode:{mode}")
    if "readonly" not in modes and "deleteIfExists" not in modes:
        rec.count(f"mode:{scenario.policy}") if modes else None

    def witness():
        return {
            "modes": modes,
            "policy": scenario.policy,
            "blocked": blocked,
            "history": history,
            "scenario": scenario.brief(),
        }

    for number in range(6):
        if number == 0 or rng.random() < 0.6:
            state = _place(rng, scenario, cluster)
        else:
            state = "as it was"
        present = scenario.address in cluster.objects
        before = len(cluster.log)
        out, _ = await defs.run_rf(
            function, cluster, copy.deepcopy(scenario.inputs), copy.deepcopy(scenario.owner)
        )
        requests = cluster.log[before:]
        ops = [r.op for r in requests if r.op in ("POST", "PATCH", "DELETE")]
        history.append({"live": state, "outcome": out, "requests": requests})
        rec.count(f"live:{state}" if present or state == "absent" else "live:gone")
        for op in ops:
            rec.count(op)

        if blocked:
            rec.count("precondition:blocked")
            rec.check(
                not requests,
                f"preconditions did not pass, but {[r.op for r in requests]} was requested",
                witness,
            )
            rec.check(
                out.cls == blocked,
                f"the precondition calls for {blocked}, outcome is {out.brief()}",
                witness,
            )
            continue

        if "deleteIfExists" in modes:
            rec.check(
                set(ops) <= {"DELETE"}, f"deleteIfExists, but made {ops}", witness
            )
            rec.check(
                ops == (["DELETE"] if present else []),
                f"deleteIfExists, object {'present' if present else 'absent'}, made {ops}",
                witness,
            )
            continue

        if "readonly" in modes:
            rec.check(not ops, f"readonly, but made {ops}", witness)
        if "create-disabled" in modes:
            rec.check("POST" not in ops, "create is disabled, but created", witness)
        if not present and modes:
            rec.count("waiting")
            rec.check(not ops, f"absent and may not create, but made {ops}", witness)
            rec.check(
                out.cls == "Retry",
                f"absent and may not create, but the outcome is {out.brief()}",
                witness,
            )
        if scenario.policy == "never":
            rec.check(
                not {"PATCH", "DELETE"} & set(ops),
                f"update policy never, but made {ops}",
                witness,
            )
        elif scenario.policy == "patch":
            rec.check("DELETE" not in ops, "update policy patch, but deleted", witness)
        else:
            rec.check("PATCH" not in ops, "update policy recreate, but patched", witness)
        rec.check(len(ops) <= 1, f"several mutating calls in a pass: {ops}", witness)
        if present:
            rec.check("POST" not in ops, "the object is present, but created", witness)
        if present and state in ("drifted", "unowned") and "readonly" not in modes:
            want = {"patch": ["PATCH"], "recreate": ["DELETE"], "never": []}
            rec.check(
                ops == want[scenario.policy],
                f"policy {scenario.policy} on a {state} object made {ops}",
                witness,
            )
        if not present and not modes:
            rec.check(ops == ["POST"], f"managed and absent, but made {ops}", witness)
    rec.seen(
        (scenario.spec, scenario.inputs, [h["live"] for h in history]),
        {
            "modes": modes,
            "policy": scenario.policy,
            "spec": scenario.spec,
            "passes": [[h["live"], h["outcome"].cls, [r.op for r in h["requests"]]] for h in history],
        },
    )
