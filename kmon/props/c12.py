"""C12: ordered deep merges, pure evaluation."""

import copy

from kmon import celgen, defs, rf, vloop
from kmon.cluster import Cluster
from kmon.values import KEYWORDS, cel, deep_merge, jdiff, mapping, plain, value, word

import celpy
from koreo.cache import get_resource_from_cache
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.reconcile import reconcile_value_function

ID = "C12"
LEVEL = "exploration"
RULE = (
    "a distinct (layers, inputs) whose materialised target or return was compared "
    "with the reference deep merge, and whose inputs, base and template were "
    "compared before and after"
)
CASES = {"quick": 8000, "thorough": 50000}
REQUIRED = {
    "value_function": 500,
    "with_base": 300,
    "target_POST": 500,
    "target_PATCH": 500,
    "overlay_skipped": 100,
    "overlay_chain": 300,
    "template_checked": 200,
    "template_changed": 100,
    "purity": 2000,
    "function_purity": 300,
    "incomplete": 60,
}
ASSUMPTIONS = (
    "a map computed by one expression is judged only where the base has no map at "
    "the same place",
)


def case(rng, rec, name, tier):
    roll = rng.random()
    if roll < 0.35:
        vloop.run(lambda: _value_function(rng, rec))
    elif roll < 0.65:
        vloop.run(lambda: _resource_function(rng, rec, name))
    elif roll < 0.82:
        vloop.run(lambda: _chain(rng, rec, name))
    elif roll < 0.85:
        vloop.run(lambda: _incomplete(rng, rec, name))
    else:
        vloop.run(lambda: _functions(rng, rec))


class Pure:
    """Watches CEL data handed to the code under test."""

    def __init__(self, rec, **watched):
        self.rec = rec
        self.watched = watched
        self.before = {key: copy.deepcopy(plain(item)) for key, item in watched.items()}

    def check(self, witness):
        for key, item in self.watched.items():
            found = jdiff(self.before[key], plain(item))
            self.rec.check(
                found is None, f"evaluation modified the {key}: {found}", witness
            )
            self.rec.count("purity")


def _spoil(item):
    """Modify data in place, everywhere."""
    if isinstance(item, dict):
        for sub in list(item.values()):
            _spoil(sub)
        dict.clear(item)
        dict.__setitem__(item, celpy.celtypes.StringType("spoiled"), True)
    elif isinstance(item, list):
        for sub in list(item):
            _spoil(sub)
        list.append(item, "spoiled")


# -- ValueFunction -----------------------------------------------------------


# Keys which mean something elsewhere are data here.
TELLING = (
    *KEYWORDS,
    *rf.DIRECTIVES,
    "x-custom",
    "x-kubernetes-embedded-resource",
    "=x",
    "a.b",
    "a[0]",
    "",
)


def _key(rng):
    return rng.choice(TELLING) if rng.random() < 0.25 else word(rng)


def _telling(rng, item, depth=3):
    """Give maps keys which mean something elsewhere."""
    if isinstance(item, dict):
        out = {key: _telling(rng, sub, depth - 1) for key, sub in item.items()}
        if rng.random() < 0.3:
            key = rng.choice(TELLING)
            out[key] = rng.choice(
                (
                    mapping(rng, 1),
                    {"apiVersion": "v1", "kind": "K", "metadata": {"name": "n"}},
                    {rng.choice(TELLING): 1},
                    value(rng, 1),
                )
            )
        return out
    if isinstance(item, list):
        return [_telling(rng, sub, depth - 1) for sub in item]
    return item


def _layer(rng, base, depth, leaf):
    """A nested overlay: collides with `base` often, in kind and in key."""
    out = {}
    keys = list(base) if isinstance(base, dict) else []
    for _ in range(rng.randint(0 if depth < 3 else 1, 4)):
        key = rng.choice(keys) if keys and rng.random() < 0.6 else _key(rng)
        under = base.get(key) if isinstance(base, dict) else None
        roll = rng.random()
        if depth > 0 and roll < 0.45:
            out[key] = _layer(rng, under, depth - 1, leaf)
        elif roll < 0.52:
            out[key] = {}
        else:
            out[key] = leaf(under)
    return out


def _no_floats(item):
    if isinstance(item, float):
        return False
    if isinstance(item, dict):
        return all(map(_no_floats, item.values()))
    if isinstance(item, list):
        return all(map(_no_floats, item))
    return True


def _express(rng, layer, generator, base, top=True):
    """-> (spec, expected layer): leaves may become expressions."""
    spec, expected = {}, {}
    for key, item in layer.items():
        under = base.get(key) if isinstance(base, dict) else None
        if isinstance(item, dict) and item:
            spec[key], expected[key] = _express(rng, item, generator, under, False)
        elif rng.random() < 0.4 and generator:
            text, result = generator.expr(depth=rng.randint(0, 2))
            if isinstance(result, dict) and isinstance(under, dict):
                spec[key] = expected[key] = item
            else:
                spec[key], expected[key] = f"={text}", result
        elif isinstance(item, list) and rng.random() < 0.3 and generator:
            text, result = generator.expr(depth=1)
            spec[key], expected[key] = [*item, f"={text}"], [*item, result]
        else:
            spec[key] = expected[key] = item
    return spec, expected


def _merged(base, layer):
    return deep_merge(base, layer)


async def _value_function(rng, rec):
    inputs = mapping(rng, 3, empties=False, high=5)
    base = mapping(rng, 3, low=1) if rng.random() < 0.7 else None
    if base and rng.random() < 0.5:
        base = _telling(rng, base)
    env = {"inputs": inputs}
    spec = {}
    if rng.random() < 0.5:
        if base:
            local_generator = celgen.Gen(rng, {**env, "resource": base})
        else:
            local_generator = celgen.Gen(rng, env)
        spec["locals"] = {}
        values = {}
        for idx in range(rng.randint(1, 3)):
            text, result = local_generator.expr(depth=2)
            local = f"l{idx}"
            if rng.random() < 0.3:
                # The name of an input of (most likely) another value.
                local = rng.choice([key for key in inputs if key.isalnum()] or [local])
            spec["locals"][local] = f"={text}"
            values[local] = result
        env["locals"] = values
    if base:
        env["resource"] = base
    generator = celgen.Gen(rng, env)
    layer = _layer(rng, base or {}, 3, lambda under: value(rng, 1))
    spec["return"], expected_layer = _express(rng, layer, generator, base or {})
    if not spec["return"]:
        return
    expected = _merged(base or {}, expected_layer)
    if base == {}:
        base = None
    function = await defs.prepared("ValueFunction", spec)

    results = []

    def witness():
        return {"spec": spec, "inputs": inputs, "base": base, "results": results}

    for number in range(3):
        cel_inputs = cel(inputs)
        cel_base = cel(base) if base is not None else None
        pure = Pure(rec, inputs=cel_inputs, base=cel_base)
        raw = await reconcile_value_function(
            location="kmon",
            function=function,
            inputs=cel_inputs,
            value_base=cel_base,
        )
        out = defs.outcome(raw)
        results.append(out)
        rec.check(out.cls == "Ok", f"outcome is {out.brief()}", witness)
        found = jdiff(expected, out.value)
        rec.check(
            found is None,
            f"evaluation {number + 1} differs from the deep merge: {found}",
            witness,
        )
        pure.check(witness)
        if number == 0:
            _spoil(raw)
        elif number == 1:
            # the same function evaluated for other inputs in between
            await reconcile_value_function(
                location="kmon", function=function, inputs=cel({"other": 1})
            )
    rec.count("value_function")
    if base:
        rec.count("with_base")
    rec.seen((spec, inputs, base), {"spec": spec, "inputs": inputs, "base": base})


# -- ResourceFunction --------------------------------------------------------


async def _run(function, cluster, inputs, owner):
    raw = await reconcile_resource_function(
        api=cluster, location="kmon", function=function, owner=owner, inputs=inputs
    )
    return defs.outcome(raw[0])


def _template_snapshot(scenario):
    out = {}
    for name in scenario.templates:
        cached = get_resource_from_cache(
            resource_class=ResourceTemplate, cache_key=name
        )
        template = getattr(cached, "template", None)
        if template is not None:
            out[name] = copy.deepcopy(plain(template))
    return out


async def _resource_function(rng, rec, name):
    scenario = rf.gen_scenario(
        rng,
        f"c12-{name}".replace(":", "-"),
        nulls=rng.random() < 0.2,
        body=_undirected(rng),
        policy="patch",
        create_overlay="any",
        overlays=rng.choice((0, 1, 2, 3, 4)),
        use_template=rng.random() < 0.45,
    )
    function = await rf.install_scenario(scenario)
    try:
        templates = _template_snapshot(scenario)
        sent = []

        def witness():
            return {"scenario": scenario.brief(), "sent": sent}

        for number in range(4):
            cluster = Cluster()
            creating = number % 2 == 0
            if not creating:
                live = copy.deepcopy(scenario.identity)
                live["spec"] = {"stale": number}
                cluster.put(*scenario.address, live)
            inputs = cel(scenario.inputs)
            owner = copy.deepcopy(scenario.owner)
            pure = Pure(rec, inputs=inputs, owner=owner[1])
            out = await _run(function, cluster, inputs, owner)
            mutations = cluster.mutations
            sent.append([out, mutations])
            want = scenario.create_target if creating else scenario.target
            if not mutations and not creating:
                # a target which only specifies the identity
                rec.check(
                    rf.unmet(scenario, live) is None,
                    "no patch was made",
                    witness,
                )
                continue
            rec.check(
                len(mutations) == 1 and out.cls == "Retry",
                f"outcome {out.brief()} with {len(mutations)} calls",
                witness,
            )
            found = rf.is_full_target(scenario, mutations[0].payload, want)
            rec.check(
                found is None,
                f"pass {number + 1}: what was sent is not the ordered deep merge: {found}",
                witness,
            )
            rec.count(f"target_{mutations[0].op}")
            pure.check(witness)
            for key, template in _template_snapshot(scenario).items():
                found = jdiff(templates.get(key), template)
                rec.check(
                    found is None,
                    f"the cached template {key} was modified: {found}",
                    witness,
                )
                rec.count("template_checked")
        if any("skipIf" in overlay for overlay in scenario.spec.get("overlays", ())):
            rec.count("overlay_skipped")
        for template in scenario.templates:
            await _new_edition(rng, rec, scenario, function, template, witness)
        rec.seen(
            (scenario.spec, scenario.inputs),
            {"spec": scenario.spec, "inputs": scenario.inputs, "target": scenario.target},
        )
    finally:
        await rf.uninstall_scenario(scenario)


async def _new_edition(rng, rec, scenario, function, template, witness):
    """The template changes: targets are made from what it is now."""
    for edition in range(2, rng.choice((3, 4))):
        body = {**copy.deepcopy(scenario.layers[0]), "edition": {"number": edition}}
        spare = sorted(set(body) - {"apiVersion", "kind", "metadata", "edition"})
        if spare and rng.random() < 0.4:
            del body[rng.choice(spare)]
        target = rf.deep_merge(body, scenario.identity)
        for layer in scenario.layers[1:]:
            target = rf.deep_merge(target, layer)
        target = rf._annotated(rf.deep_merge(target, scenario.identity))
        await defs.install(
            "ResourceTemplate", template, {"template": body}, version=f"{edition}"
        )
        cluster = Cluster()
        live = copy.deepcopy(scenario.identity)
        live["spec"] = {"stale": edition}
        cluster.put(*scenario.address, live)
        out = await _run(
            function, cluster, cel(scenario.inputs), copy.deepcopy(scenario.owner)
        )
        rec.check(
            [request.op for request in cluster.mutations] == ["PATCH"],
            f"outcome {out.brief()} once the template changed",
            witness,
        )
        found = rf.is_full_target(scenario, cluster.mutations[0].payload, target)
        rec.check(
            found is None,
            f"what was sent is not made from the changed template: {found}",
            witness,
        )
        rec.count("template_changed")


def _undirected(rng):
    body = rf.gen_body(rng, 3)
    if rng.random() < 0.7:
        body = rf.strip(body)
    return body


async def _chain(rng, rec, name):
    """Overlays computing from the resource as the previous ones left it."""
    uid = f"c12-{name}".replace(":", "-")
    length = rng.randint(2, 6)
    start = rng.randrange(100)
    use_template = rng.random() < 0.5
    body = {
        "metadata": {"labels": {"base": "yes"}},
        "spec": {"count": start, "trace": ["base"], "deep": {"a": {"b": {"c": "base"}}}},
    }
    spec = {
        "apiConfig": {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "=inputs.name",
            "namespace": "ns-a",
        },
        "overlays": [],
    }
    installed = []
    template_name = f"tmpl-{uid}"
    if use_template:
        await defs.install(
            "ResourceTemplate",
            template_name,
            {"template": {"apiVersion": "kmon.test/v1", "kind": "Widget", **body}},
        )
        installed.append(("ResourceTemplate", template_name))
        spec["resourceTemplateRef"] = {"name": template_name}
    else:
        spec["resource"] = body
    flags = {}
    plan = []
    for idx in range(length):
        kind = rng.choice(("add", "trace", "deep", "replace", "label", "clear"))
        skip = rng.random() < 0.25
        layer = {
            "add": {"spec": {"count": f"=resource.spec.count + inputs.step + {idx}"}},
            "trace": {"spec": {"trace": f"=resource.spec.trace + ['o{idx}']"}},
            "deep": {
                "spec": {
                    "deep": {"a": {"b": {f"k{idx}": "=size(resource.spec.trace)"}}},
                    "seen": "=resource.spec.count",
                }
            },
            "replace": {"spec": {"list": [idx, "=resource.spec.count"], "empty": {}}},
            "label": {
                "metadata": {
                    "labels": {f"l{idx}": "=string(resource.spec.count)"},
                    "name": "impostor",
                }
            },
            "clear": {"spec": {"deep": {"a": {"b": {}}}}},
        }[kind]
        one = {}
        if rng.random() < 0.4:
            function_name = f"vf-{uid}-{idx}"
            await defs.install("ValueFunction", function_name, {"return": layer})
            installed.append(("ValueFunction", function_name))
            one["overlayRef"] = {"kind": "ValueFunction", "name": function_name}
            one["inputs"] = {"step": "=inputs.step"}
        else:
            one["overlay"] = layer
        if skip or rng.random() < 0.4:
            flags[f"skip{idx}"] = skip
            one["skipIf"] = f"=inputs.skip{idx}"
        spec["overlays"].append(one)
        plan.append((kind, idx))

    def reference(inputs):
        target = copy.deepcopy(body)
        spec_ = target["spec"]
        for kind, idx in plan:
            if inputs.get(f"skip{idx}"):
                continue
            spec_ = target["spec"]
            if kind == "add":
                spec_["count"] += inputs["step"] + idx
            elif kind == "trace":
                spec_["trace"] = [*spec_["trace"], f"o{idx}"]
            elif kind == "deep":
                trace = len(spec_["trace"])
                spec_["deep"]["a"]["b"][f"k{idx}"] = trace
                spec_["seen"] = spec_["count"]
            elif kind == "replace":
                spec_["list"] = [idx, spec_["count"]]
                spec_["empty"] = {}
            elif kind == "label":
                target["metadata"]["labels"][f"l{idx}"] = str(spec_["count"])
            elif kind == "clear":
                spec_["deep"]["a"]["b"] = {}
        target.update({"apiVersion": "kmon.test/v1", "kind": "Widget"})
        target["metadata"].update({"name": inputs["name"], "namespace": "ns-a"})
        return target

    try:
        function = await defs.prepared("ResourceFunction", spec)
        history = []

        def witness():
            return {"spec": spec, "plan": plan, "history": history}

        for number in range(4):
            inputs = {
                "name": f"n{number % 2}",
                "step": (number % 2) * 10 + 1,
                **flags,
            }
            if number % 2 and flags:
                key = rng.choice(sorted(flags))
                inputs[key] = not inputs[key]
            cluster = Cluster()
            cel_inputs = cel(inputs)
            owner = ("ns-a", copy.deepcopy(rf.OWNER_REF))
            pure = Pure(rec, inputs=cel_inputs, owner=owner[1])
            out = await _run(function, cluster, cel_inputs, owner)
            history.append([inputs, out, cluster.mutations])
            rec.check(
                [r.op for r in cluster.mutations] == ["POST"],
                f"outcome {out.brief()}",
                witness,
            )
            want = reference(inputs)
            have = rf.drop_empty_annotations(
                rf.without_last_applied(cluster.mutations[0].payload)
            )
            have["metadata"].pop("ownerReferences", None)
            found = jdiff(want, have)
            rec.check(
                found is None, f"overlays were not applied in order: {found}", witness
            )
            rec.count("target_POST")
            pure.check(witness)
        rec.count("overlay_chain")
        if any(flags.values()):
            rec.count("overlay_skipped")
        rec.seen((spec, flags), {"spec": spec, "flags": flags})
    finally:
        for kind, installed_name in installed:
            await defs.uninstall(kind, installed_name)


UNPARSABLE = ("=1 +", "=inputs.", "=(", "=a b", "={'a': }", "=[1, ")


async def _incomplete(rng, rec, name):
    """One of the layers is not available (yet): nothing may be sent which was made
    without it."""
    uid = f"c12i-{name}".replace(":", "-")
    missing, good = f"missing-{uid}", f"good-{uid}"
    spec = {
        "apiConfig": {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "thing",
            "namespace": "ns-a",
        },
        "resource": {"spec": {"base": 1}},
        "overlays": [
            {"overlay": {"spec": {f"o{idx}": idx}}}
            if rng.random() < 0.6
            else {
                "overlayRef": {"kind": "ValueFunction", "name": good},
                "inputs": {"key": f"o{idx}"},
            }
            for idx in range(rng.randint(0, 3))
        ],
    }
    reference = {"kind": "ValueFunction", "name": missing}
    layer = {"return": {"spec": {"late": "=inputs.late"}}}
    # what is offered under the missing name, before it is corrected
    first = None
    flaw = rng.choice(
        (
            "absent",
            "absent",
            "unprepared",
            "overlay",
            "skipIf",
            "input",
            "inputs",
            "create",
            "template",
        )
    )
    where = rng.randint(0, len(spec["overlays"]))
    overlay = {"overlayRef": reference, "inputs": {"late": 5}}
    match flaw:
        case "absent":
            pass
        case "unprepared":
            first = rng.choice(
                (
                    {"return": {"spec": rng.choice(UNPARSABLE)}},
                    {"return": "text"},
                    {"locals": {"x": rng.choice(UNPARSABLE)}, **layer},
                    {"preconditions": [{"assert": "=tru e", "ok": {}}], **layer},
                )
            )
        case "overlay":
            overlay = {"overlay": {"spec": {"late": rng.choice(UNPARSABLE)}}}
        case "skipIf":
            overlay = {
                "overlay": {"spec": {"late": 5}},
                "skipIf": rng.choice(UNPARSABLE),
            }
        case "input":
            first = layer
            overlay = {"overlayRef": reference}
            if rng.random() < 0.5:
                overlay["inputs"] = {"other": 5}
        case "inputs":
            first = layer
            overlay = {
                "overlayRef": reference,
                "inputs": {"late": rng.choice(UNPARSABLE)},
            }
        case "create":
            overlay = None
            spec["create"] = {"overlay": {"spec": {"late": rng.choice(UNPARSABLE)}}}
        case "template":
            overlay = None
            del spec["resource"]
            spec["resourceTemplateRef"] = {"name": missing}
    if overlay:
        if rng.random() < 0.3:
            overlay.setdefault("skipIf", "=false")
        spec["overlays"].insert(where, overlay)
    if not spec["overlays"]:
        del spec["overlays"]
    await defs.install(
        "ValueFunction",
        good,
        {"return": {"spec": {"good": "=inputs.key"}}},
    )
    if first:
        await defs.install("ValueFunction", missing, first)
    owner = ("ns-a", copy.deepcopy(rf.OWNER_REF))
    log = []

    def witness():
        return {"spec": spec, "flaw": flaw, "log": log}

    async def passes(function, live):
        cluster = Cluster()
        if live:
            cluster.put("kmon.test/v1", "widgets", "ns-a", "thing", live)
        for _ in range(2):
            out, _ = await defs.run_rf(function, cluster, {}, copy.deepcopy(owner))
            log.append([out, list(cluster.mutations)])
        return cluster, out

    stale = {
        "apiVersion": "kmon.test/v1",
        "kind": "Widget",
        "metadata": {"name": "thing", "namespace": "ns-a"},
        "spec": {"stale": True},
    }
    try:
        got = await defs.prepare("ResourceFunction", spec)
        if isinstance(got, tuple):
            for live in (None, stale) if flaw != "create" else (None,):
                cluster, out = await passes(got[0], live)
                rec.check(
                    not cluster.mutations,
                    f"an object was sent without what overlay {where} ({flaw}) adds",
                    witness,
                )
                rec.check(
                    out.cls in ("Retry", "PermFail"),
                    f"without overlay {where} ({flaw}) the outcome is {out.brief()}",
                    witness,
                )
        rec.count("incomplete")
        if flaw in ("absent", "unprepared"):
            await defs.install("ValueFunction", missing, layer, version="2")
            function = await defs.prepared("ResourceFunction", spec)
            cluster, _ = await passes(function, None)
            want = {"base": 1, "late": 5}
            for one in spec["overlays"]:
                if "overlay" in one:
                    want.update(one["overlay"]["spec"])
                elif one["overlayRef"]["name"] == good:
                    want["good"] = one["inputs"]["key"]
            found = jdiff(want, cluster.mutations[0].payload.get("spec"))
            rec.check(
                found is None,
                f"the target with all of its layers is another: {found}",
                witness,
            )
            rec.count("completed")
        rec.seen((spec, first), {"spec": spec, "flaw": flaw})
    finally:
        await defs.uninstall("ValueFunction", missing)
        await defs.uninstall("ValueFunction", good)


# -- functions on inputs -----------------------------------------------------

CALLS = (
    "inputs.a.overlay(inputs.b)",
    "inputs.a.overlay({'nested': {'x': 1}, 'list': []})",
    "inputs.a.overlay(inputs.a.nested)",
    "inputs.ref.to_ref()",
    "inputs.ref.self_ref()",
    "inputs.ref.group_ref()",
    "inputs.ref.kindless_ref()",
    "inputs.ref.config_connect_ready()",
    "inputs.lists.flatten()",
    "to_json(inputs.a)",
    "from_json(to_json(inputs.a))",
    "inputs.a.nested.overlay(inputs.b.nested).overlay({'z': inputs.lists})",
    "inputs.lists.map(l, l.map(x, x))",
    "inputs.lists + inputs.lists",
    "inputs.a",
    "[inputs.a, inputs.a.nested]",
    "{'x': inputs.a, 'y': inputs.lists}",
    "inputs.words.lower().split('-')",
    "b64decode(b64encode(inputs.words))",
    "inputs.words.replace('a', 'b').strip('b')",
)


async def _functions(rng, rec):
    inputs = {
        "a": {"nested": {"x": 2, **mapping(rng, 1)}, "list": [1, 2], **mapping(rng, 2)},
        "b": {"nested": {"y": 3}, **mapping(rng, 2)},
        "lists": [[1], [2, 3], []],
        "words": "aA-bB-c",
        "ref": {
            "apiVersion": "g.test/v1",
            "kind": "K",
            "apiGroup": "g.test",
            "metadata": {"name": "n", "namespace": "ns"},
            "name": "n",
            "namespace": "ns",
            "spec": {"x": 1},
            "status": {"conditions": [{"type": "Ready", "status": "True", "reason": "UpToDate"}]},
        },
    }
    inputs["a"]["nested"] = {"x": 2}
    inputs["b"]["nested"] = {"y": 3}
    base = {"a": {"nested": {"q": 1}, "keep": 1}, "list": [1], "m": {"n": {"o": 1}}}
    chosen = rng.sample(CALLS, rng.randint(2, 5))
    spec = {
        "locals": {f"l{idx}": f"={call}" for idx, call in enumerate(chosen)},
        "return": {
            **{f"r{idx}": f"=locals.l{idx}" for idx in range(len(chosen))},
            "again": {
                "deep": {f"d{idx}": f"={call}" for idx, call in enumerate(chosen)}
            },
            "merged": "=resource.a.overlay({'nested': {'z': 1}, 'keep': 2})",
            "m": {"n": {"p": "=resource.m.n.overlay({'o': 2})"}},
            "list": "=resource.list + [2]",
        },
    }
    function = await defs.prepared("ValueFunction", spec)
    results = []

    def witness():
        return {"spec": spec, "inputs": inputs, "results": results}

    for _ in range(3):
        cel_inputs, cel_base = cel(inputs), cel(base)
        pure = Pure(rec, inputs=cel_inputs, base=cel_base)
        raw = await reconcile_value_function(
            location="kmon", function=function, inputs=cel_inputs, value_base=cel_base
        )
        results.append(defs.outcome(raw))
        rec.check(
            results[-1].cls == "Ok", f"outcome is {results[-1].brief()}", witness
        )
        pure.check(witness)
        found = jdiff(results[0].value, results[-1].value)
        rec.check(found is None, f"another evaluation differs: {found}", witness)
        for idx in range(len(chosen)):
            found = jdiff(
                results[-1].value[f"r{idx}"], results[-1].value["again"]["deep"][f"d{idx}"]
            )
            rec.check(
                found is None,
                f"{chosen[idx]} evaluated twice on the same inputs differs: {found}",
                witness,
            )
    want = {
        "merged": {"nested": {"q": 1, "z": 1}, "keep": 2},
        "m": {"n": {"o": 1, "p": {"o": 2}}},
        "list": [1, 2],
        "a": base["a"],
    }
    for key, item in want.items():
        found = jdiff(item, results[0].value.get(key))
        rec.check(found is None, f"return.{key}: {found}", witness)
    rec.count("function_purity")
    rec.seen((chosen, inputs), {"calls": chosen})
