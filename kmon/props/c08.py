"""C08: payloads are clean, last-applied is truthful, owners are preserved."""

import copy
import json

from kmon import defs, rf, vloop
from kmon.cluster import Cluster
from kmon.values import deep_merge, jdiff

ID = "C08"
LEVEL = "exploration"
RULE = (
    "a distinct create or patch payload which was inspected for directives, its "
    "last-applied annotation and its owner references"
)
CASES = {"quick": 1600, "thorough": 30000}
REQUIRED = {
    "POST": 800,
    "PATCH": 800,
    "directives_in_definition": 210,
    "directives_from_inputs": 200,
    "owner_added_on_create": 200,
    "owner_added_on_patch": 150,
    "owner_not_due": 200,
    "other_owners_on_live": 200,
    "annotation_in_definition": 50,
}
ASSUMPTIONS = ("owner references are identified by uid",)


def case(rng, rec, name, tier):
    vloop.run(lambda: _case(rng, rec, name))


def _directed_value(rng, depth=3):
    """A value with directives at odd places, delivered through inputs."""
    value = rf.directed_map(rng, depth, low=1)
    for _ in range(rng.randint(1, 3)):
        spots = [item for _, item in _maps(value)]
        spot = rng.choice(spots)
        directive = rng.choice(rf.DIRECTIVES)
        if directive not in spot:
            key = rng.choice(("alpha", "beta", "gamma"))
            spot.setdefault(key, [])
            if not isinstance(spot[key], list) or spot[key]:
                continue
            spot[directive] = {key: ["name"]} if directive == rf.AS_MAP else [key]
    return value


def _maps(value, path=()):
    if isinstance(value, dict):
        yield path, value
        for key, item in value.items():
            if key not in rf.DIRECTIVES:
                yield from _maps(item, (*path, key))
    elif isinstance(value, list):
        for idx, item in enumerate(value):
            yield from _maps(item, (*path, idx))


async def _case(rng, rec, name):
    body = rf.gen_body(rng, rng.choice((2, 3, 4)))
    annotated = False
    if rng.random() < 0.12:
        metadata = body.setdefault("metadata", {})
        metadata.setdefault("annotations", {})[rf.ANNOTATION] = rng.choice(
            ("forged", "{}", '{"spec": {}}')
        )
        annotated = True
    defined_refs = []
    if rng.random() < 0.12:
        defined_refs = [rf.other_owner(rng)]
        body.setdefault("metadata", {})["ownerReferences"] = defined_refs
    scenario = rf.gen_scenario(
        rng,
        f"c08-{name}".replace(":", "-"),
        nulls=rng.random() < 0.2,
        body=body,
        policy=rng.choice(("patch", "patch", "patch", "default", "recreate")),
        create_overlay="any",
        use_template=None,
    )
    spec, inputs = scenario.spec, scenario.inputs
    from_inputs = False
    if rng.random() < 0.35:
        inputs["payload"] = _directed_value(rng)
        overlay = {"overlay": {"fromInputs": "=inputs.payload"}}
        if rng.random() < 0.3:
            overlay = {"overlay": {"fromInputs": "=[[inputs.payload], {'deep': inputs.payload}]"}}
        spec.setdefault("overlays", []).append(overlay)
        from_inputs = True
    if rng.random() < 0.2:
        inputs["createPayload"] = _directed_value(rng)
        create = spec.setdefault("create", {})
        create["overlay"] = deep_merge(
            create.get("overlay", {}), {"fromCreate": "=inputs.createPayload"}
        )
        from_inputs = True
    if annotated:
        rec.count("annotation_in_definition")
    if rf.directive_paths(spec):
        rec.count("directives_in_definition")
    if from_inputs:
        rec.count("directives_from_inputs")

    function = await rf.install_scenario(scenario)
    try:
        for _ in range(3):
            await _one(rng, rec, scenario, function, None)
            live = rf.benign(
                rng,
                rf.strip(scenario.target),
                scenario.owner[1] if scenario.should_own and rng.random() < 0.4 else None,
            )
            live.pop("spec", None)
            live["spec"] = {"drifted": rng.random()}
            _live_owners(rng, live, scenario)
            await _one(rng, rec, scenario, function, live)
            # only the owner reference is missing
            live = rf.benign(rng, scenario.target, None)
            _live_owners(rng, live, scenario)
            await _one(rng, rec, scenario, function, live)
    finally:
        await rf.uninstall_scenario(scenario)


def _live_owners(rng, live, scenario):
    metadata = live["metadata"]
    refs = [rf.other_owner(rng, scenario.owner[1]) for _ in range(rng.choice((0, 0, 1, 2, 3)))]
    refs = [*metadata.get("ownerReferences", []), *refs]
    seen = set()
    refs = [ref for ref in refs if not (ref["uid"] in seen or seen.add(ref["uid"]))]
    rng.shuffle(refs)
    if refs or rng.random() < 0.3:
        metadata["ownerReferences"] = refs


async def _one(rng, rec, scenario, function, live):
    cluster = Cluster()
    if live is not None:
        cluster.put(*scenario.address, live)

    def before(request):
        request.step = {
            "live": copy.deepcopy(cluster.get(*scenario.address)),
            "after": None,
        }

    def after(request):
        request.step["after"] = copy.deepcopy(cluster.get(*scenario.address))

    cluster.before = before
    cluster.after = after
    owner = copy.deepcopy(scenario.owner)
    outcomes = []
    for _ in range(2):
        out, _ = await defs.run_rf(
            function, cluster, copy.deepcopy(scenario.inputs), owner
        )
        outcomes.append(out)
        if live is not None and cluster.mutations:
            break

    def witness():
        return {
            "requests": cluster.log,
            "outcomes": outcomes,
            "live": live,
            "after": cluster.get(*scenario.address),
            "scenario": scenario.brief(),
        }

    uid = scenario.owner[1]["uid"]
    for request in cluster.mutations:
        if request.op == "DELETE":
            continue
        live_before, live_after = request.step["live"], request.step["after"]
        rec.count(request.op)
        payload = request.payload

        found = rf.directive_paths(payload)
        rec.check(not found, f"directives were sent: {found}", witness)

        metadata = payload.get("metadata") or {}
        annotation = (metadata.get("annotations") or {}).get(rf.ANNOTATION)
        rec.check(
            isinstance(annotation, str),
            f"{request.op} has no last-applied annotation",
            witness,
        )
        try:
            recorded = json.loads(annotation)
        except ValueError:
            recorded = None
        rec.check(
            isinstance(recorded, dict),
            f"the last-applied annotation is not a JSON object: {annotation!r}",
            witness,
        )
        found = jdiff(
            rf.drop_empty_annotations(recorded),
            rf.drop_empty_annotations(rf.without_last_applied(payload)),
        )
        rec.check(
            found is None,
            f"the last-applied annotation differs from what was sent: {found}",
            witness,
        )

        sent = rf.uids(payload)
        if request.op == "POST":
            rec.check(
                (uid in sent) == scenario.should_own,
                f"created with owners {sent}; owned={scenario.owned}, owner namespace "
                f"{scenario.owner[0]}, object namespace {scenario.namespace}",
                witness,
            )
            rec.count("owner_added_on_create" if scenario.should_own else "owner_not_due")
        else:
            had = rf.uids(live_before)
            after = rf.uids(live_after)
            lost = [ref for ref in had if ref not in after]
            rec.check(
                not lost, f"the patch dropped the owner references of {lost}", witness
            )
            by_uid = {
                ref["uid"]: ref
                for ref in live_after["metadata"].get(
                    "ownerReferences", ()
                )
            }
            for ref in live_before["metadata"].get("ownerReferences", ()):
                rec.check(
                    jdiff(ref, by_uid[ref["uid"]]) is None,
                    f"the patch changed the owner reference {ref}",
                    witness,
                )
            if scenario.should_own:
                rec.check(
                    uid in after, "the patch did not add the owner reference", witness
                )
                if uid not in had:
                    rec.count("owner_added_on_patch")
            elif uid not in had:
                rec.check(
                    uid not in after,
                    "the patch added an owner reference which is not due",
                    witness,
                )
                rec.count("owner_not_due")
            if [ref for ref in had if ref != uid]:
                rec.count("other_owners_on_live")
        if uid in sent:
            ref = next(
                ref for ref in payload["metadata"]["ownerReferences"] if ref["uid"] == uid
            )
            rec.check(
                jdiff(ref, scenario.owner[1]) is None,
                f"the owner reference sent is {ref}",
                witness,
            )
        rec.seen(
            request.raw_data,
            {"op": request.op, "payload": payload, "live owners": rf.uids(live or {})},
        )
