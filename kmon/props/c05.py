"""C05: drift in any field the target specifies triggers the configured action."""

import copy
import json

from kmon import rf, vloop
from kmon.cluster import Cluster
from kmon.defs import run_rf
from kmon.values import jeq

ID = "C05"
LEVEL = "exploration"
RULE = (
    "a distinct (ResourceFunction, drift applied to a live object) pair for which "
    "the reference comparison says the live object no longer meets the target"
)
CASES = {"quick": 3000, "thorough": 28000}
REQUIRED = {
    "drift_patched": 1000,
    "drift_recreated": 150,
    "drift_ignored": 100,
    "drift:removed": 200,
    "drift:set": 100,
    "drift:list": 100,
    "drift:map": 50,
    "drift:scalar": 300,
    "drift:last-applied": 30,
    "drift_beside_owners": 1000,
    "drift:null": 200,
}
ASSUMPTIONS = (
    "fields Koreo documents as not compared are not judged: ownerReferences, extra "
    "members of a list compared as a map, and live values of fields compared to the "
    "last applied ones",
)


def case(rng, rec, name, tier):
    vloop.run(lambda: _case(rng, rec, name))


async def _case(rng, rec, name):
    policy = rng.choice(("patch", "patch", "patch", "default", "recreate", "never"))
    body = _with_owners(rng, rf.gen_body(rng)) if rng.random() < 0.25 else None
    scenario = rf.gen_scenario(
        rng,
        f"c05-{name}".replace(":", "-"),
        policy=policy,
        create_overlay=None,
        body=body,
        nulls=rng.random() < 0.3,
    )
    function = await rf.install_scenario(scenario)
    try:
        for _ in range(8):
            await _drifted(rng, rec, scenario, function, body is not None)
    finally:
        await rf.uninstall_scenario(scenario)


def _kind(description):
    if description.startswith("removed") and "from set" not in description:
        return "removed"
    if "set " in description:
        return "set"
    if "list " in description or "member of" in description:
        return "list"
    if description.startswith("map "):
        return "map"
    if description.startswith("null "):
        return "null"
    if "last" in description:
        return "last-applied"
    return "scalar"


def _with_owners(rng, body):
    """The same with owner references, which are not compared, beside its fields."""
    refs = [{**rf.OWNER_REF, "uid": f"uid-defined-{rng.randrange(9)}"}]
    metadata = body.setdefault("metadata", {})
    metadata["ownerReferences"] = refs
    for kind in ("labels", "annotations"):
        if rng.random() < 0.6:
            metadata.setdefault(kind, {})[f"extra-{rng.randrange(9)}"] = "e"
    if rng.random() < 0.5:
        metadata.setdefault("finalizers", ["koreo.dev/hold"])
    for path, found in list(rf.map_paths(body)):
        if path[:1] != ("metadata",) and found and rng.random() < 0.4:
            found["ownerReferences"] = rng.choice((refs, [], {"a": 1}, "none"))
    return body


async def _drifted(rng, rec, scenario, function, beside):
    owner_ref = scenario.owner[1] if scenario.should_own else None
    use_last = rng.random() < 0.15
    live = rf.benign(rng, scenario.target, owner_ref, annotate=True)
    if rf.unmet(scenario, live) is not None:
        rec.count("harness_live_unmet")
        return
    drifts = []
    for _ in range(rng.choice((1, 1, 1, 1, 2, 3))):
        if use_last and not drifts:
            found = rf.drift_last_applied(rng, scenario.target, live)
        else:
            found = rf.apply_drift(rng, scenario.target, live)
        if found:
            drifts.append(found)
    unmet = rf.unmet(scenario, live)
    if not drifts or unmet is None:
        rec.count("drift_without_effect")
        return

    cluster = Cluster()
    cluster.put(*scenario.address, live)
    out, _ = await run_rf(
        function,
        cluster,
        copy.deepcopy(scenario.inputs),
        copy.deepcopy(scenario.owner),
    )
    made = cluster.mutations

    def witness():
        return {
            "drift": drifts,
            "differs": unmet,
            "live": live,
            "outcome": out.brief(),
            "mutations": made,
            "after": cluster.get(*scenario.address),
            "scenario": scenario.brief(),
        }

    def check(ok, message):
        rec.check(ok, message, witness)

    ops = [request.op for request in made]
    if scenario.policy == "never":
        check(ops == [], f"update policy never, but made {ops}")
        check(out.cls == "Ok", f"update policy never, outcome {out.brief()}")
        check(jeq(out.value, scenario.returns), f"returned {out.value!r}")
        check(
            jeq(cluster.get(*scenario.address), live), "the live object was changed"
        )
        rec.count("drift_ignored")
    elif scenario.policy == "recreate":
        check(ops == ["DELETE"], f"update policy recreate, but made {ops} ({unmet})")
        _addressed(check, scenario, made[0])
        check(
            out.cls == "Retry" and out.delay == scenario.delays["recreate"],
            f"recreate outcome {out.brief()}",
        )
        rec.count("drift_recreated")
    else:
        check(ops == ["PATCH"], f"update policy patch, but made {ops} ({unmet})")
        _addressed(check, scenario, made[0])
        check(
            out.cls == "Retry" and out.delay == scenario.delays["patch"],
            f"patch outcome {out.brief()}",
        )
        found = rf.is_full_target(scenario, made[0].payload)
        check(found is None, f"the patch is not the full target: {found}")
        after = cluster.get(*scenario.address)
        still = rf.unmet(scenario, after)
        check(still is None, f"after the patch the target is not met: {still}")
        rec.count("drift_patched")
    if beside:
        rec.count("drift_beside_owners")
    for drift in drifts:
        rec.count(f"drift:{_kind(drift)}")
    rec.seen(
        (scenario.spec, scenario.inputs, json.dumps(live)),
        {"policy": scenario.policy, "drift": drifts, "differs": unmet},
    )


def _addressed(check, scenario, request):
    address = (request.version, request.endpoint, request.namespace, request.name)
    check(address == scenario.address, f"{request.op} sent to {address}")


