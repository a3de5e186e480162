"""C06: the identity of managed objects is pinned to apiConfig."""

import asyncio
import contextvars
import copy

from kmon import defs, rf, vloop
from kmon.cluster import Cluster
from kmon.values import jdiff, jeq

ID = "C06"
LEVEL = "exploration"
RULE = (
    "a distinct ResourceFunction and inputs, hostile to the object's identity in "
    "several layers, whose every API request was compared with apiConfig"
)
CASES = {"quick": 4000, "thorough": 45000}
REQUIRED = {
    "requests": 3000,
    "POST": 600,
    "PATCH": 300,
    "DELETE": 50,
    "hostile_layers": 1000,
    "concurrent": 100,
    "twins": 120,
    "twins_looked_up": 60,
    "nameless": 300,
}
ASSUMPTIONS = (
    "the server's discovery names one plural per (apiVersion, kind)",
    "the live object returned for a name carries that name",
)

RUN = contextvars.ContextVar("run", default=None)


def case(rng, rec, name, tier):
    roll = rng.random()
    if roll < 0.75:
        vloop.run(lambda: _layers(rng, rec, name))
    else:
        vloop.run(lambda: _many_names(rng, rec, name))


def _impostor_value(rng, part):
    choices = {
        "metadata": (
            {"name": "impostor", "namespace": "kube-system"},
            {"name": "impostor"},
            {"namespace": "kube-system"},
            {},
            "metadata",
            [],
            ["x"],
            7,
            None,
            True,
            {"name": 7, "namespace": None},
            {"name": {"nested": "impostor"}},
            {"name": "impostor", "labels": {"name": "impostor"}},
        ),
        "kind": ("Secret", 7, None, {"kind": "Secret"}, ["Secret"], "", "widget"),
        "apiVersion": ("v1", "evil.test/v1", 1, None, {"v": 1}, [], ""),
        "name": ("impostor", None, 7),
        "namespace": ("kube-system", None),
    }
    return rng.choice(choices[part])


def _impostor_layer(rng, inputs):
    """A layer which replaces parts of the identity, statically or computed."""
    layer = {}
    for part in rng.sample(
        ("metadata", "kind", "apiVersion", "metadata", "name", "namespace"),
        rng.randint(1, 3),
    ):
        value = _impostor_value(rng, part)
        if rng.random() < 0.5:
            key = f"evil{len(inputs)}"
            inputs[key] = value
            layer[part] = f"=inputs.{key}"
        elif part == "metadata" and isinstance(value, dict) and rng.random() < 0.5:
            layer[part] = {}
            for inner, item in value.items():
                key = f"evil{len(inputs)}"
                inputs[key] = item
                layer[part][inner] = f"=inputs.{key}"
        else:
            layer[part] = value
    return layer


def _sabotage(rng, scenario):
    """Add more identity tampering, of any shape, to the definition."""
    spec, inputs = scenario.spec, scenario.inputs
    added = 0
    if "resource" in spec and rng.random() < 0.4:
        spec["resource"] = {**spec["resource"], **_impostor_layer(rng, inputs)}
        added += 1
    overlays = spec.setdefault("overlays", [])
    for _ in range(rng.choice((0, 1, 1, 2))):
        overlays.insert(
            rng.randint(0, len(overlays)), {"overlay": _impostor_layer(rng, inputs)}
        )
        added += 1
    if rng.random() < 0.3:
        function = f"evil-{defs.unique()}"
        scenario.functions[function] = {"return": _impostor_layer(rng, evil := {})}
        overlays.append(
            {
                "overlayRef": {"kind": "ValueFunction", "name": function},
                "inputs": evil or {"unused": 1},
            }
        )
        added += 1
    if not overlays:
        del spec["overlays"]
    if rng.random() < 0.4:
        spec["create"] = {
            **spec.get("create", {}),
            "overlay": _impostor_layer(rng, inputs),
        }
        added += 1
    for key in ("name", "namespace", "kind", "metadata", "apiVersion"):
        if rng.random() < 0.3:
            inputs.setdefault(key, "impostor")
    return added


def _judge(rec, cluster, expected, witness):
    """`expected`: run id -> scenario-like with address and identity."""
    for request in cluster.log:
        if request.op == "LOOKUP":
            rec.count("looked_up")
            continue
        if expected.get(request.step) is None:
            # judged by the caller
            continue
        rec.count("requests")
        rec.count(request.op)
        scenario = expected[request.step]
        address = (request.version, request.endpoint, request.namespace, request.name)
        want = scenario.address
        if not scenario.namespaced:
            address = (*address[:2], None, address[3])
            want = (*want[:2], None, want[3])
        rec.check(
            address == want,
            f"{request.op} went to {address}, apiConfig names {want}",
            witness,
        )
        if request.op not in ("POST", "PATCH"):
            continue
        payload = request.payload
        rec.check(isinstance(payload, dict), f"payload is {payload!r}", witness)
        metadata = payload.get("metadata")
        rec.check(isinstance(metadata, dict), f"metadata is {metadata!r}", witness)
        sent = {
            "apiVersion": payload.get("apiVersion"),
            "kind": payload.get("kind"),
            "name": metadata.get("name"),
        }
        want = {
            "apiVersion": scenario.api_version,
            "kind": scenario.kind,
            "name": scenario.name,
        }
        if scenario.namespaced:
            sent["namespace"] = metadata.get("namespace")
            want["namespace"] = scenario.namespace
        rec.check(
            jeq(sent, want),
            f"the object sent by {request.op} is {sent}, apiConfig names {want}",
            witness,
        )


def _decoys(rng, cluster, scenarios):
    taken = {scenario.address for scenario in scenarios}
    for _ in range(6):
        version, kind, plural, namespaced = rng.choice(rf.APIS)
        name = rng.choice(
            ("impostor", "other", "kube-root", *(scenario.name for scenario in scenarios))
        )
        namespace = rng.choice(("kube-system", *rf.NAMESPACES)) if namespaced else None
        if (version, plural, namespace, name) in taken:
            continue
        metadata = {"name": name, "uid": f"uid-{rng.random()}"}
        if namespace:
            metadata["namespace"] = namespace
        cluster.put(
            version,
            plural,
            namespace,
            name,
            {"apiVersion": version, "kind": kind, "metadata": metadata, "spec": {"x": 1}},
        )


async def _layers(rng, rec, name):
    """One to three functions, each hostile, run concurrently on one cluster."""
    scenarios = []
    functions = []
    base = f"c06-{name}".replace(":", "-")
    api = rng.choice(rf.APIS)
    twins = rng.random() < 0.15
    fresh = f"Kind{defs.unique('')[1:]}"
    looked_up = twins and rng.random() < 0.6
    plurals = dict(rf.PLURALS)
    for idx in range(2 if twins else rng.choice((1, 1, 2, 3))):
        if twins:
            # Two definitions which agree on little more than the kind: one may
            # be a correction of the other.
            api = ("kmon.test/v1", fresh, f"{fresh.lower()}s", rng.random() < 0.5)
            if rng.random() < 0.2:
                api = (rng.choice(("kmon.test/v2", "other.test/v1", "v1")), *api[1:])
            if rng.random() < 0.2:
                api = (*api[:2], f"{fresh.lower()}es", api[3])
            if looked_up:
                # The same kind, served by several groups.
                version = rng.choice(
                    ("v1", "kmon.test/v1", "kmon.test/v2", "kmon.example/v1", "other.test/v1",
                     "test/v1", "test.kmon/v1")
                )  # fmt: skip
                group = version.rpartition("/")[0].replace(".", "")
                api = (version, fresh, f"{fresh.lower()}{group}s", api[3])
                plurals[fresh if version == "v1" else f"{fresh}.{version}"] = api[2]
        else:
            api = api if rng.random() < 0.3 else rng.choice(rf.APIS)
        scenario = rf.gen_scenario(
            rng,
            f"{base}-{idx}",
            nulls=rng.random() < 0.2,
            body=rf.gen_body(rng, 2),
            hostile_identity=True,
            create_overlay="any",
            api=api,
            lookup=looked_up or not twins and rng.random() < 0.25,
        )
        scenario.hostile = _sabotage(rng, scenario)
        if any(scenario.address == other.address for other in scenarios):
            continue
        scenarios.append(scenario)
    try:
        for scenario in scenarios:
            functions.append(await rf.install_scenario(scenario))
        cluster = Cluster(plurals=plurals)

        def before(request):
            request.step = RUN.get()
            return rng.choice((0, 0, 0.1, 0.5))

        cluster.before = before
        _decoys(rng, cluster, scenarios)
        for scenario in scenarios:
            roll = rng.random()
            if roll < 0.6:
                live = rf.benign(
                    rng,
                    scenario.target,
                    scenario.owner[1] if rng.random() < 0.5 else None,
                )
                live["metadata"]["name"] = scenario.name
                if scenario.namespace is not None:
                    live["metadata"]["namespace"] = scenario.namespace
                if roll < 0.4:
                    live["spec"] = {"drifted": True}
                cluster.put(*scenario.address, live)
        others = {
            key: copy.deepcopy(obj)
            for key, obj in cluster.objects.items()
            if key not in {scenario.address for scenario in scenarios}
        }
        outcomes = []

        def witness():
            return {
                "scenarios": [scenario.brief() for scenario in scenarios],
                "requests": cluster.log,
                "outcomes": outcomes,
            }

        async def one(idx):
            RUN.set(idx)
            await asyncio.sleep(starts[idx])
            for _ in range(3):
                out, _ = await defs.run_rf(
                    functions[idx],
                    cluster,
                    scenarios[idx].inputs,
                    copy.deepcopy(scenarios[idx].owner),
                )
                outcomes.append([idx, out])

        # At once, or one after another.
        starts = [rng.choice((0, 0, 0.2, 5)) for _ in scenarios]
        async with asyncio.TaskGroup() as group:
            for idx in range(len(scenarios)):
                group.create_task(one(idx))

        _judge(rec, cluster, dict(enumerate(scenarios)), witness)
        found = jdiff(
            {str(key): obj for key, obj in others.items()},
            {
                str(key): obj
                for key, obj in cluster.objects.items()
                if key not in {scenario.address for scenario in scenarios}
            },
        )
        rec.check(found is None, f"another object was touched: {found}", witness)
        rec.count("hostile_layers", sum(scenario.hostile for scenario in scenarios))
        if len(scenarios) > 1:
            rec.count("concurrent")
        if twins:
            rec.count("twins")
        if looked_up and len({scenario.plural for scenario in scenarios}) > 1:
            rec.count("twins_looked_up")
        if cluster.mutations:
            rec.seen(
                [(scenario.spec, scenario.inputs) for scenario in scenarios],
                {
                    "spec": scenarios[0].spec,
                    "inputs": scenarios[0].inputs,
                    "requests": [request.brief()["to"] for request in cluster.log],
                },
            )
    finally:
        for scenario in scenarios:
            await rf.uninstall_scenario(scenario)


class _Named:
    def __init__(self, api, namespace, name):
        self.api_version, self.kind, self.plural, self.namespaced = api
        self.namespace = namespace if self.namespaced else None
        self.name = name

    @property
    def address(self):
        return (self.api_version, self.plural, self.namespace, self.name)


async def _many_names(rng, rec, name):
    """One prepared function, run concurrently for several names and namespaces,
    while the replies arrive in any order."""
    api = rng.choice([one for one in rf.APIS if one[3]])
    spec = {
        "apiConfig": {
            "apiVersion": api[0],
            "kind": api[1],
            "name": rng.choice(("=inputs.id", "='o-' + inputs.id", "=locals.name")),
            "namespace": "=inputs.ns",
        },
        "locals": {"name": "='l-' + inputs.id"},
        "resource": {
            "metadata": {
                "name": "=inputs.evil",
                "namespace": "kube-system",
                "labels": {"id": "=inputs.id"},
            },
            "spec": {"id": "=inputs.id", "list": [1, "=inputs.ns"]},
        },
        "update": {rng.choice(("patch", "recreate")): {"delay": 3}},
    }
    if rng.random() < 0.6:
        spec["apiConfig"]["plural"] = api[2]
    if rng.random() < 0.6:
        spec["overlays"] = [
            {"overlay": {"metadata": {"name": "=inputs.evil"}, "kind": "=inputs.evil"}},
            {"overlay": {"apiVersion": "=inputs.evil", "spec": {"more": "=inputs.id"}}},
        ]
    if rng.random() < 0.6:
        spec["create"] = {"overlay": {"metadata": "=inputs.meta", "kind": "Other"}}
    function = await defs.prepared("ResourceFunction", spec)
    cluster = Cluster(plurals=rf.PLURALS)

    def before(request):
        request.step = RUN.get()
        return rng.choice((0, 0.1, 0.2, 0.9))

    cluster.before = before
    prefix = {"=inputs.id": "", "='o-' + inputs.id": "o-", "=locals.name": "l-"}[
        spec["apiConfig"]["name"]
    ]
    expected = {}
    inputs = {}
    idx = 0
    for ident in rng.choice((("a", "b", "c.d", "e-1"), ("a", "A", "sys:A", "a-" * 100 + "a"))):
        for namespace in rng.sample(rf.NAMESPACES, 2):
            expected[idx] = _Named(api, namespace, prefix + ident)
            inputs[idx] = {
                "id": ident,
                "ns": namespace,
                "evil": rng.choice(("impostor", "a", "b", "Secret")),
                "meta": {"name": "impostor", "namespace": rng.choice(rf.NAMESPACES)},
            }
            if rng.random() < 0.5:
                metadata = {"name": prefix + ident, "namespace": namespace}
                cluster.put(
                    *expected[idx].address,
                    {
                        "apiVersion": api[0],
                        "kind": api[1],
                        "metadata": metadata,
                        "spec": {"id": "stale"},
                    },
                )
            idx += 1
    outcomes = []

    # Nothing may be done on behalf of what is not the name of any object.
    nameless = []
    for _ in range(2):
        field = rng.choice(("id", "ns") if "id" in spec["apiConfig"]["name"] else ("ns",))
        value = rng.choice((None, None, "", [], {}, [1], {"a": "b"}, True, False))
        if field == "id" and spec["apiConfig"]["name"] != "=inputs.id":
            continue
        expected[idx] = None
        inputs[idx] = {"id": "a", "ns": "ns-a", "evil": "b", "meta": {}, field: value}
        nameless.append(idx)
        idx += 1

    async def one(key):
        RUN.set(key)
        for _ in range(3):
            out, resource_id = await defs.run_rf(
                function, cluster, inputs[key], ("ns-a", copy.deepcopy(rf.OWNER_REF))
            )
            outcomes.append([key, out, resource_id])

    async with asyncio.TaskGroup() as group:
        for key in expected:
            group.create_task(one(key))

    def witness():
        return {
            "spec": spec,
            "inputs": inputs,
            "requests": cluster.log,
            "outcomes": outcomes,
        }

    for request in cluster.mutations:
        rec.check(
            request.step not in nameless,
            f"{request.op} on behalf of {inputs[request.step]!r}",
            witness,
        )
    for key in nameless:
        rec.count("nameless")
        del expected[key]
    _judge(rec, cluster, expected, witness)
    stray = set(cluster.objects) - {named.address for named in expected.values()}
    rec.check(not stray, f"objects were stored at {stray}", witness)
    rec.count("concurrent")
    rec.seen(
        (spec, inputs), {"spec": spec, "requests": [r.brief()["to"] for r in cluster.log]}
    )
