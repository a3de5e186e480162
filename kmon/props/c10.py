"""C10: a failing expression is a PermFail, never a crash or an error in the data."""

import copy
import json

import celpy

from kmon import defs, rf, vloop
from kmon.celgen import Gen, literal, quote
from kmon.cluster import Cluster
from kmon.values import KEYWORDS, errors_within, plain

ID = "C10"
LEVEL = "exploration"
RULE = (
    "a distinct (evaluation site, position within its structure, failing expression) "
    "evaluated by the real reconcilers"
)
CASES = {"quick": 8000, "thorough": 250000}

OWNER = ("ns-a", rf.OWNER_REF)

DATA = {
    "n": 3,
    "z": 0,
    "s": "text",
    "e": "",
    "b": True,
    "f": 1.5,
    "nul": None,
    "list": [1, 2, 3],
    "mixed": [1, "two", None, {"k": 1}],
    "nest": [[1], [2, 3]],
    "m": {"k": {"z": 1}, "w": "x"},
    "b64": "aGVsbG8=",
    "ref": {"apiVersion": "v1", "kind": "Thing", "name": "n"},
}

# What objects hold (API servers drop nulls).
OBJECT = {key: value for key, value in DATA.items() if value is not None}

# Expressions which fail. $ is the name everything hangs off.
FAILING = {
    "absent": (
        "$.m.absent",
        "$.m.k.absent",
        "$.m['absent']",
        "$['m'].absent.deeper",
        "$.m.k.z.deeper",
        "$.s.deeper",
        "$.n.deeper",
        "$.nul.deeper",
        "$.list.deeper",
        "undeclared",
        "undeclared.deeper",
    ),
    "index": (
        "$.list[7]",
        "$.list[-9]",
        "$.list['x']",
        "[][0]",
        "$.list[$.m.absent]",
        "{'a': 1}['b']",
        "$.mixed[3].absent",
    ),
    "arithmetic": (
        "1 / 0",
        "1 / $.z",
        "$.n % $.z",
        "$.s + 1",
        "$.n + $.s",
        "$.s - $.s",
        "-$.s",
        "$.n < $.s",
        "$.s >= 1",
        "!$.m.absent",
        "$.list + 1",
        "$.m + $.m",
    ),
    "convert": (
        "int($.s)",
        "int($.m)",
        "double($.s)",
        "timestamp($.s)",
        "duration($.s)",
        "size($.n)",
        "size($.m.absent)",
        "string($.m.absent)",
        "$.s.matches($.m.absent)",
        "$.m.absent.startsWith('x')",
        "$.s.startsWith($.n)",
        "$.s.contains(1)",
        "undefined_function($.n)",
        "$.s.undefined_method()",
    ),
    "macro": (
        "$.list.map(x, x.y)",
        "$.list.map(x, x / 0)",
        "$.list.map(x, $.m.absent)",
        "$.mixed.map(x, x + 1)",
        "$.list.filter(x, x.y == 1)",
        "$.list.filter(x, x / 0 == 1)",
        "$.list.all(x, x.y == 1)",
        "$.list.exists(x, x.y == 1)",
        "$.m.absent.map(x, x)",
        "$.m.absent.filter(x, true)",
        "$.m.absent.all(x, true)",
        "$.list.map(x, [1, x, {'k': x.y}])",
        "$.nest.map(x, x.map(y, y.z))",
        "$.list.map(x, x + 1).map(y, y[0])",
    ),
    "function": (
        "b64decode($.n)",
        "b64decode('a')",
        "b64decode('/w==')",
        "b64encode($.n)",
        "b64encode($.m)",
        "from_json($.s)",
        "from_json('{')",
        "from_json($.n)",
        "from_json($.m)",
        "from_json('')",
        "to_json($.m.absent)",
        "$.s.split('')",
        "$.s.split_first('')",
        "$.s.split_last('')",
        "$.s.split_index('', 0)",
        "$.s.split_index('x', 9)",
        "$.s.split_index('x', $.m.absent)",
        "$.n.split('x')",
        "$.n.lower()",
        "$.m.lower()",
        "$.n.strip('x')",
        "$.n.rstrip('x')",
        "$.s.replace(1, 'x')",
        "$.n.replace('x', 'y')",
        "$.n.flatten()",
        "$.list.flatten()",
        "self_ref({})",
        "self_ref($.ref)",
        "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': 'n'}})",
        "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'namespace': 'n'}})",
        "self_ref({'apiVersion': 'v1', 'kind': 'K'})",
        "self_ref($.s)",
        "to_ref({})",
        "to_ref({'kind': 'K'})",
        "to_ref({'name': ''})",
        "to_ref({'external': ''})",
        "to_ref($.n)",
        "$.m.to_ref()",
        "group_ref({})",
        "group_ref({'name': ''})",
        "group_ref({'external': ''})",
        "group_ref($.n)",
        "kindless_ref({})",
        "kindless_ref({'name': ''})",
        "kindless_ref({'external': ''})",
        "kindless_ref($.n)",
        "config_connect_ready($.n)",
        "config_connect_ready({'status': {'conditions': [1]}})",
        "config_connect_ready({'status': {'conditions': $.n}})",
        "config_connect_ready({'status': $.n})",
        "$.m.overlay($.n)",
        "$.m.overlay($.s)",
        "$.n.overlay($.m)",
        "$.m.overlay($.m.absent)",
        "$.m.absent.overlay($.m)",
        "$.m.overlay({'x': $.m.absent})",
        "$.m.overlay({'k': {'z': 1 / 0}})",
        "{'a': {'b': 1 / 0}}.overlay({'a': {'c': 1}})",
        "overlay($.m)",
        "lower()",
        "b64encode()",
    ),
}

# Values of types JSON does not have.
HEALTHY = (
    "=timestamp('2024-01-02T03:04:05Z')",
    "=duration('90s')",
    "=b'bytes'",
    "=3u",
    "=1.5 * 2.0",
    "={1: 'x', 2: ['y']}",
    "={true: {}}",
    "=[timestamp('2024-01-02T03:04:05Z') - timestamp('2024-01-01T03:04:05Z')]",
)

# Contexts which have no value when what they hold has none.
STRICT = {
    "list": ("[1, @]", "[@]", "[[@], 2]", "[{'k': @}]"),
    "map": ("{'k': @}", "{'k': 1, 'l': {'m': @}}", "{'k': [@]}"),
    "key": ("{@: 1}",),
    "word": ("{#: @}", "{#: 1, #: {#: @}}", "[{#: @}]", "{#: {#: {#: [@]}}}"),
    "wide": (
        "[~ @]",
        "[~ @, 1]",
        "[~ @, ~ 1]",
        "[~ {'k': @}, ~ 1]",
        "{~~ 'last': @}",
        "{'first': @, ~~ 'last': 1}",
        "[~ {~~ #: @}]",
    ),
    "deep": ("[[[[[[[@]]]]]]]", "{#: [{#: [{#: [{#: @}]}]}]}"),
    "operator": (
        "(@) + 1",
        "1 + (@)",
        "(@) * 2",
        "(@) - 1",
        "'x' + (@)",
        "[1] + (@)",
        "-(@)",
        "!(@)",
        "(@) < 1",
        "1 >= (@)",
        "(@) == 1",
        "1 == (@)",
        "'x' == (@)",
        "(@) != 'x'",
        "(@) == true",
        "(@) == null",
        "(@) == [1]",
        "[@] == [1]",
        "{'k': @} != {'k': 1}",
        "(@) in [1, 2]",
        "1 in [@]",
        "'x' in {'k': @}",
    ),
    "conditional": (
        "(@) ? 1 : 2",
        "true ? (@) : 1",
        "false ? 1 : (@)",
        "(1 == 1 ? {'a': @} : {}).a",
    ),
    "logic": ("true && (@)", "false || (@)", "(@) && true", "(@) || false"),
    "access": ("(@).field", "(@)['field']", "(@)[0]", "$.list[(@)]", "[1, 2][(@)]"),
    "macro": (
        "[1].map(v, (@))",
        "[1, 2].map(v, {'k': (@)})",
        "[1].filter(v, (@) == v)",
        "[1].all(v, (@) == v)",
        "[1].exists(v, (@) == v)",
        "[[1]].map(v, v.map(w, (@)))",
        "(@).map(v, v)",
        "[(@)].map(v, v)",
        "[{'k': (@)}].map(v, v.k)",
    ),
    "call": (
        "size(@)",
        "(@).size()",
        "string(@)",
        "int(@)",
        "bytes(@)",
        "type(@)",
        "(@).startsWith('x')",
        "'x'.startsWith((@))",
        "'x'.contains((@))",
        "'x'.endsWith((@))",
        "to_json(@)",
        "to_json([@])",
        "to_json({'k': (@)})",
        "(@).to_json()",
        "from_json(@)",
        "b64encode(@)",
        "b64decode(@)",
        "(@).lower()",
        "(@).split('x')",
        "'x'.split((@))",
        "(@).split_first('x')",
        "'a.b'.split_last((@))",
        "'a.b'.split_index('.', (@))",
        "(@).strip('x')",
        "'x'.rstrip((@))",
        "'x'.replace('x', (@))",
        "(@).replace('x', 'y')",
        "[(@)].flatten()",
        "[[(@)]].flatten()",
        "(@).flatten()",
        "to_ref({'name': (@)})",
        "to_ref({'kind': (@), 'name': 'n'})",
        "to_ref(@)",
        "{'name': 'n', 'namespace': (@)}.to_ref()",
        "group_ref({'apiVersion': (@), 'name': 'n'})",
        "group_ref({'apiGroup': (@), 'external': 'n'})",
        "kindless_ref({'external': (@)})",
        "self_ref({'apiVersion': (@), 'kind': 'K', 'metadata': {'name': 'n', 'namespace': 'm'}})",
        "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': (@), 'namespace': 'm'}})",
        "config_connect_ready({'status': {'conditions': (@)}})",
        "config_connect_ready(@)",
        "$.m.overlay({'a': (@)})",
        "$.m.overlay({'k': {'q': (@)}})",
        "{'a': (@)}.overlay({'b': 1})",
        "{'a': {'b': (@)}}.overlay({'a': {'c': 1}})",
        "(@).overlay({'b': 1})",
        "$.m.overlay((@))",
    ),
}

ATOMS = [(kind, text) for kind, texts in FAILING.items() for text in texts]
CONTEXTS = [(kind, text) for kind, texts in STRICT.items() for text in texts]

# These evaluate to what did not fail when only a part of what they hold did.
SELECTIVE = ("(@).field", "(@)['field']", "(@)[0]", "(@).map(v, v)")

# site -> (what must be named, name everything hangs off)
SITES = {
    "vf.assert": ("spec.preconditions", "inputs"),
    "vf.message": ("spec.preconditions", "inputs"),
    "vf.locals": ("spec.locals", "inputs"),
    "vf.return": ("spec.return", "inputs"),
    "vf.return.locals": ("spec.return", "locals"),
    "rf.assert": ("spec.preconditions", "inputs"),
    "rf.message": ("spec.preconditions", "inputs"),
    "rf.locals": ("spec.locals", "inputs"),
    "rf.name": ("spec.apiConfig.name", "inputs"),
    "rf.namespace": ("spec.apiConfig", "inputs"),
    "rf.templateRef": ("spec.resourceTemplateRef", "inputs"),
    "rf.resource": ("spec.resource", "inputs"),
    "rf.resource.locals": ("spec.resource", "locals"),
    "rf.overlay": ("spec.overlays", "inputs"),
    "rf.overlay.resource": ("spec.overlays", "resource.spec.data"),
    "rf.overlay.skipIf": ("spec.overlays", "inputs"),
    "rf.overlay.inputs": ("spec.overlays", "inputs"),
    "rf.overlay.vf.assert": ("spec.overlays", "inputs"),
    "rf.overlay.vf.locals": ("spec.overlays", "inputs"),
    "rf.overlay.vf.return": ("spec.overlays", "inputs"),
    "rf.create": ("spec.create.overlay", "inputs"),
    "rf.postassert": ("spec.postconditions", "resource.spec.data"),
    "rf.postmessage": ("spec.postconditions", "inputs"),
    "rf.return": ("spec.return", "inputs"),
    "rf.return.resource": ("spec.return", "resource.spec.data"),
    "wf.inputs": ("inputs", "parent"),
    "wf.inputs.steps": ("inputs", "steps.first"),
    "wf.skipIf": ("skipIf", "parent"),
    "wf.skipIf.steps": ("skipIf", "steps.first"),
    "wf.itemIn": ("forEach.itemIn", "parent"),
    "wf.itemIn.steps": ("forEach.itemIn", "steps.first"),
    "wf.switchOn": ("switchOn", "parent"),
    "wf.switchOn.inputs": ("switchOn", "inputs"),
    "wf.state": ("state", "value"),
}
VF_SITES = [site for site in SITES if site.startswith("vf.")]
RF_SITES = [site for site in SITES if site.startswith("rf.")]
WF_SITES = [site for site in SITES if site.startswith("wf.")]

REQUIRED = {
    "failing_sites": 1620,
    "deep_positions": 410,
    "fuzzed": 600,
    "fuzz_failed": 200,
    "workflow_functions": 100,
    "payloads": 20,
    "values": 60,
    **{site: 15 for site in (*VF_SITES, *RF_SITES, *WF_SITES)},
}

MACRO_NAMES = {"map", "filter", "all", "exists"}


def systematic(tier):
    """Every failing atom, and one of them in every strict context, as is."""
    for idx in range(len(ATOMS)):
        yield f"atom-{idx}"
    for idx in range(len(CONTEXTS)):
        yield f"context-{idx}"


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        what, idx = name[4:].split("-")
        if what == "atom":
            kind, text = ATOMS[int(idx)]
        else:
            kind, text = CONTEXTS[int(idx)]
            text = _filled(rng, text)
            text = text.replace("@", rng.choice(("$.m.absent", "1 / $.z", "from_json('{')")))
        for site in ("vf.return", rng.choice(VF_SITES), rng.choice(RF_SITES), rng.choice(WF_SITES)):
            vloop.run(lambda: _failing(rng, rec, site, f"{what}:{kind}", text))
        return
    if rng.random() < 0.3:
        vloop.run(lambda: _fuzz(rng, rec))
        return
    kind, text = rng.choice(ATOMS)
    for depth in range(rng.choice((0, 0, 1, 1, 2, 3))):
        outer, context = rng.choice(CONTEXTS)
        if context in SELECTIVE and (depth or kind == "macro"):
            continue
        text = _filled(rng, context).replace("@", text)
        kind = f"{outer}>{kind}"
    group = rng.choice((VF_SITES, RF_SITES, RF_SITES, WF_SITES))
    vloop.run(lambda: _failing(rng, rec, rng.choice(group), kind, text))


def _filled(rng, context):
    """Fills in what a context leaves open: names and healthy neighbours."""
    taken = set()
    while "#" in context:
        word = rng.choice(KEYWORDS)
        if word not in taken:
            taken.add(word)
            context = context.replace("#", f"'{word}'", 1)
    count = rng.choice((1, 9, 16, 40, 120))
    context = context.replace("~~", "".join(f"'w{idx}': {idx}, " for idx in range(count)))
    return context.replace("~", "".join(f"{idx}, " for idx in range(count)))


# --- building definitions -----------------------------------------------------


class Built:
    """A definition holding an expression at one site, and how to run it."""

    def __init__(self, rng, site, text, mode):
        self.rng, self.site, self.mode = rng, site, mode
        self.root = SITES[site][1]
        self.expression = "=" + text.replace("$", self.root)
        self.healthy = Gen(rng, {"inputs": DATA})
        self.parent = Gen(rng, {"parent": DATA})
        self.depth = 0
        self.installed = []
        self.cluster = Cluster()
        self.live = None

    def leaf(self, gen):
        rng = self.rng
        if rng.random() < 0.5 and gen:
            return "=" + gen.expr(None, 1)[0]
        if rng.random() < 0.1:
            return rng.choice(HEALTHY)
        return rng.choice((1, "static", True, 0.5, ["x"], {}))

    def tree(self, gen, keep=None, low=0, lists=True):
        """A map holding the expression somewhere (`keep`: added as is)."""
        rng = self.rng
        depth = rng.choice((0, 0, 1, 1, 2, 3, 4, 6))
        depth = max(depth, low)
        self.depth = depth
        node = self.expression
        for _ in range(depth):
            siblings = [self.leaf(gen) for _ in range(rng.randint(0, 2))]
            if lists and rng.random() < 0.04:
                siblings = [*range(rng.choice((9, 20, 40, 120, 300)))]
                siblings.insert(rng.randrange(len(siblings)), node)
                node = siblings
            elif lists and rng.random() < 0.35:
                siblings.insert(rng.randint(0, len(siblings)), node)
                node = siblings
            else:
                pool = KEYWORDS if rng.random() < 0.5 else ("p", "q", "r", "s t", "u.v")
                names = rng.sample(pool, len(siblings) + 1)
                items = [*zip(names, [*siblings, node])]
                rng.shuffle(items)
                node = dict(items)
        names = rng.sample(("spec", "data", "zeta", "a"), rng.randint(1, 3))
        tree = {name: self.leaf(gen) for name in names}
        tree[rng.choice(names)] = node
        return {**tree, **(keep or {})}

    def conditions(self, gen, message):
        rng = self.rng
        kind = rng.choice(("skip", "depSkip", "retry", "permFail"))
        if message:
            bad = {"assert": "=false", kind: {"message": self.expression}}
        else:
            bad = {"assert": self.expression, kind: {"message": "not met"}}
            if rng.random() < 0.2:
                bad = {"assert": self.expression, "ok": {}}
                kind = "ok"
        if kind == "retry":
            bad[kind]["delay"] = 3
        before = [
            {"assert": "=true", "permFail": {"message": "never"}}
            for _ in range(rng.randint(0, 2))
        ]
        after = [
            {
                "assert": "=true" if message else rng.choice(("=true", "=false")),
                "skip": {"message": "later"},
            }
            for _ in range(rng.randint(0, 2))
        ]
        return [*before, bad, *after]

    async def offer(self, kind, spec):
        name = defs.unique("c10")
        await defs.install(kind, name, spec)
        self.installed.append((kind, name))
        return name

    def fresh_cluster(self):
        self.cluster = Cluster()
        if self.live is not None:
            self.cluster.put(
                "kmon.test/v1", "widgets", "ns-a", "thing", copy.deepcopy(self.live)
            )

    async def cleanup(self):
        for kind, name in reversed(self.installed):
            await defs.uninstall(kind, name)

    def vf(self, site):
        """A ValueFunction spec with the expression at `site`."""
        rng, gen = self.rng, self.healthy
        spec = {"return": {"ok": "=inputs.n"}}
        if rng.random() < 0.4:
            spec["locals"] = {"l": "=inputs.m.k"}
        if rng.random() < 0.3:
            spec["preconditions"] = [{"assert": "=true", "skip": {"message": "no"}}]
        match site:
            case "assert" | "message":
                spec["preconditions"] = self.conditions(gen, site == "message")
            case "locals":
                spec["locals"] = self.tree(gen)
            case "return":
                spec["return"] = self.tree(gen)
            case "return.locals":
                spec["locals"] = _copied(DATA, "inputs")
                spec["return"] = self.tree(gen)
        return spec

    async def rf(self, site):
        rng, gen = self.rng, self.healthy
        data = {"data": _copied(OBJECT, "inputs")}
        config = {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "thing",
            "namespace": "ns-a",
        }
        spec = {"apiConfig": config, "resource": {"spec": copy.deepcopy(data)}}
        if rng.random() < 0.4:
            spec["locals"] = {"l": "=inputs.m.k"}
        if rng.random() < 0.5:
            spec["return"] = {"ok": "=inputs.n"}
        present = rng.random() < 0.5
        live = {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "metadata": {
                "name": "thing",
                "namespace": "ns-a",
                "ownerReferences": [copy.deepcopy(rf.OWNER_REF)],
            },
            "spec": {"data": copy.deepcopy(OBJECT)},
        }
        if present and rng.random() < 0.5:
            live["spec"]["data"]["n"] = 4
            spec["update"] = rng.choice(
                ({"patch": {"delay": 3}}, {"recreate": {"delay": 3}}, {"never": {}})
            )
        match site:
            case "assert" | "message":
                spec["preconditions"] = self.conditions(gen, site == "message")
            case "locals":
                spec["locals"] = self.tree(gen)
            case "name":
                config["name"] = self.expression
            case "namespace":
                config["namespace"] = self.expression
            case "templateRef":
                del spec["resource"]
                spec["resourceTemplateRef"] = {"name": self.expression}
            case "resource":
                spec["resource"] = self.tree(gen)
            case "resource.locals":
                spec["locals"] = _copied(DATA, "inputs")
                spec["resource"] = self.tree(gen)
            case "create":
                present = False
                spec["create"] = {"enabled": True, "overlay": self.tree(gen)}
            case "postassert" | "postmessage":
                present = True
                spec["postconditions"] = self.conditions(gen, site == "postmessage")
            case "return" | "return.resource":
                present = True
                spec["return"] = self.tree(gen)
        if site.startswith("overlay"):
            spec["overlays"] = [
                {"overlay": {"status": {f"o{idx}": "=inputs.n"}}}
                for idx in range(rng.randint(0, 2))
            ]
            step = await self.overlay(site)
            spec["overlays"].insert(rng.randint(0, len(spec["overlays"])), step)
        if site.startswith(("post", "return")):
            live["spec"]["data"] = copy.deepcopy(OBJECT)
            if rng.random() < 0.3:
                config.pop("owned", None)
                config["readonly"] = True
                spec.pop("update", None)
                spec.pop("create", None)
        self.live = live if present else None
        self.fresh_cluster()
        return spec

    async def overlay(self, site):
        rng, gen = self.rng, self.healthy
        if site in ("overlay", "overlay.resource"):
            step = {"overlay": self.tree(gen)}
            if rng.random() < 0.3:
                step["skipIf"] = "=false"
            return step
        if site == "overlay.skipIf" and rng.random() < 0.5:
            return {"skipIf": self.expression, "overlay": {"status": {"x": 1}}}
        where = site.rpartition(".vf.")[2] if ".vf." in site else "none"
        function = self.vf(where)
        if where == "none" and rng.random() < 0.4:
            # One which does not need its inputs would not fail as well.
            function = {"return": {"status": {"x": 1}}}
        name = await self.offer("ValueFunction", function)
        step = {
            "overlayRef": {"kind": "ValueFunction", "name": name},
            "inputs": _copied(DATA, "inputs"),
        }
        if site == "overlay.skipIf":
            step["skipIf"] = self.expression
        if site == "overlay.inputs":
            step["inputs"] = {**_copied(DATA, "inputs"), **{"extra": self.expression}}
            if rng.random() < 0.5:
                step["inputs"]["extra"] = self.tree(gen)
        return step


def _copied(data, root):
    return {key: f"={root}.{key}" for key in data}


async def _build_workflow(built, site):
    rng = built.rng
    first = await built.offer("ValueFunction", {"return": _copied(DATA, "inputs")})
    # One which does not need its inputs would hide nothing by failing as well.
    got = rng.choice(("=inputs.n", "constant", "=has(inputs.n) ? inputs.n : 0"))
    echo = await built.offer("ValueFunction", {"return": {"got": got}})
    uses_steps = built.root.startswith("steps")
    second = {
        "label": "second",
        "ref": {"kind": "ValueFunction", "name": echo},
        "inputs": {"n": "=steps.first.n" if uses_steps or rng.random() < 0.5 else "=parent.n"},
    }
    match site:
        case "inputs" | "inputs.steps":
            second["inputs"] = built.tree(built.parent, keep=second["inputs"])
        case "skipIf" | "skipIf.steps":
            second["skipIf"] = built.expression
        case "itemIn" | "itemIn.steps":
            second["forEach"] = {"itemIn": built.expression, "inputKey": "item"}
        case "switchOn" | "switchOn.inputs":
            if site == "switchOn.inputs":
                second["inputs"] = _copied(DATA, "parent")
            second["refSwitch"] = {
                "switchOn": built.expression,
                "cases": [
                    {"case": "text", "kind": "ValueFunction", "name": echo},
                    {"case": "other", "kind": "ValueFunction", "name": echo, "default": True},
                ],
            }
            del second["ref"]
            if rng.random() < 0.3:
                second["forEach"] = {"itemIn": "=parent.list", "inputKey": "item"}
        case "state":
            second["inputs"] = _copied(DATA, "parent")
            second["ref"] = {"kind": "ValueFunction", "name": first}
            second["state"] = built.tree(None)
            second["condition"] = {"type": "Second", "name": "second"}
    if "forEach" not in second and site != "state" and rng.random() < 0.5:
        second["state"] = {"second": "=value"}
    steps = [
        {
            "label": "first",
            "ref": {"kind": "ValueFunction", "name": first},
            "inputs": _copied(DATA, "parent"),
            "state": {"first": "=value.n"},
        },
        second,
    ]
    if rng.random() < 0.4:
        steps.append(
            {
                "label": "third",
                "ref": {"kind": "ValueFunction", "name": echo},
                "inputs": {"n": "=steps.second.got"},
            }
        )
    return {"steps": steps}


# --- sites with a known failure -----------------------------------------------


async def _failing(rng, rec, site, kind, text):
    built = Built(rng, site, text, "failing")
    if site.startswith("wf.") and built.root == "parent" and "undeclared" in text:
        built.root = "parent"
    try:
        if site.startswith("vf."):
            await _failing_vf(rng, rec, built, kind)
        elif site.startswith("rf."):
            await _failing_rf(rng, rec, built, kind)
        else:
            await _failing_wf(rng, rec, built, kind)
    finally:
        await built.cleanup()
    rec.count(site)
    rec.count("failing_sites")
    if built.depth > 1:
        rec.count("deep_positions")
    rec.seen(
        (site, built.depth, text),
        {"site": site, "depth": built.depth, "expression": built.expression},
    )


def _is_permfail(rec, built, out, where, witness):
    expected = SITES[built.site][0]
    rec.check(
        out.cls == "PermFail",
        lambda: f"{built.expression} fails at {where}, but the outcome is {out.brief()}",
        witness,
    )
    rec.check(
        expected in f"{out.message} {out.location}",
        lambda: f"{built.expression} fails at {where}, which the outcome does not "
        f"name: {out.message!r} (location {out.location!r})",
        witness,
    )


def _sent_clean(rec, cluster, witness):
    for request in cluster.mutations:
        rec.count("payloads")
        rec.check(
            not errors_within(request.payload),
            lambda: f"{request.op} sends an error object at "
            f"{errors_within(request.payload)}",
            witness,
        )
        if request.payload is not None:
            try:
                json.dumps(request.payload)
            except (TypeError, ValueError) as err:
                rec.fail(f"{request.op} sends what is not data: {err}", witness)


async def _failing_vf(rng, rec, built, kind):
    spec = built.vf(built.site.removeprefix("vf."))
    function = await defs.prepared("ValueFunction", spec)
    out = await defs.run_vf(function, DATA)
    _is_permfail(rec, built, out, built.site, lambda: {"spec": spec, "outcome": out})
    if rng.random() < 0.2:
        await _within_workflow(rng, rec, built, "ValueFunction", spec)


async def _failing_rf(rng, rec, built, kind):
    spec = await built.rf(built.site.removeprefix("rf."))
    function = await defs.prepared("ResourceFunction", spec)
    out, resource_id = await defs.run_rf(function, built.cluster, DATA, _owner())

    def witness():
        return {
            "spec": spec,
            "live": built.live,
            "outcome": out,
            "requests": built.cluster.log,
        }

    _is_permfail(rec, built, out, built.site, witness)
    _sent_clean(rec, built.cluster, witness)
    rec.check(
        not errors_within(resource_id), "the resource id holds an error object", witness
    )
    if rng.random() < 0.2:
        await _within_workflow(rng, rec, built, "ResourceFunction", spec)


def _owner():
    return ("ns-a", copy.deepcopy(rf.OWNER_REF))


async def _within_workflow(rng, rec, built, kind, spec):
    """The same Function as the logic of a step."""
    name = await built.offer(kind, spec)
    inputs = _copied(DATA, "parent")
    step = {
        "label": "failing",
        "ref": {"kind": kind, "name": name},
        "inputs": inputs,
        "state": {"failing": "=value"},
        "condition": {"type": "Failing", "name": "failing"},
    }
    if rng.random() < 0.4:
        step["forEach"] = {"itemIn": "=[1, 2]", "inputKey": "item"}
    if rng.random() < 0.3:
        step.pop("ref")
        step["refSwitch"] = {
            "switchOn": "=inputs.s",
            "cases": [{"case": "text", "kind": kind, "name": name}],
        }
    workflow = await defs.prepared("Workflow", {"steps": [step]})
    built.fresh_cluster()
    run = await defs.run_workflow(workflow, built.cluster, DATA, _owner())
    witness = lambda: {"spec": spec, "step": step, "run": run}  # noqa: E731
    rec.check(
        run.outcome.cls == "PermFail",
        lambda: f"a step's Function fails ({built.expression} at {built.site}), the "
        f"Workflow is {run.outcome.brief()}",
        witness,
    )
    rec.check(
        "failing" not in run.state and not errors_within(run.raw.state),
        "a failed step published state",
        witness,
    )
    _sent_clean(rec, built.cluster, witness)
    rec.count("workflow_functions")


async def _failing_wf(rng, rec, built, kind):
    site = built.site.removeprefix("wf.")
    spec = await _build_workflow(built, site)
    workflow = await defs.prepared("Workflow", spec)
    run = await defs.run_workflow(workflow, built.cluster, DATA, _owner())
    witness = lambda: {"spec": spec, "run": run}  # noqa: E731
    rec.check(
        not errors_within(run.raw.state),
        lambda: f"error objects are published as state at {errors_within(run.raw.state)}",
        witness,
    )
    rec.check(
        run.state.get("first") == DATA["n"],
        lambda: f"the state of the healthy step is {run.state}",
        witness,
    )
    if site == "state":
        rec.check(
            "second" in run.state_errors and "state" in run.state_errors["second"],
            lambda: f"{built.expression} fails in `state`, which is not reported: "
            f"{run.state_errors}",
            witness,
        )
        rec.check(
            run.state.keys() == {"first"},
            lambda: f"a state which can not be evaluated was published: {run.state}",
            witness,
        )
        return
    _is_permfail(rec, built, run.outcome, built.site, witness)
    rec.check(
        "second" in f"{run.outcome.message} {run.outcome.location}",
        lambda: f"the failing step is not named: {run.outcome.brief()}",
        witness,
    )
    rec.check(
        run.state.keys() == {"first"},
        lambda: f"a step whose inputs failed published state {run.state}",
        witness,
    )


# --- arbitrary expressions ------------------------------------------------------


class Fuzz:
    """Expressions of any shape, with no regard to types."""

    METHODS = (
        "size lower split split_first split_last split_index strip rstrip replace "
        "flatten overlay to_ref self_ref group_ref kindless_ref config_connect_ready "
        "to_json from_json b64encode b64decode startsWith endsWith contains matches "
        "getFullYear getHours undefined_thing"
    ).split()
    FUNCTIONS = METHODS + "int uint double string bytes bool type duration timestamp dyn list map".split()
    OPERATORS = "+ - * / % == != < <= > >= && || in".split()

    def __init__(self, rng, root):
        self.rng, self.root = rng, root
        self.vars = []

    def atom(self):
        rng = self.rng
        roll = rng.random()
        if self.vars and roll < 0.3:
            return rng.choice(self.vars)
        if roll < 0.75:
            text = self.root
            for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3))):
                key = rng.choice((*DATA, "k", "z", "absent", "name"))
                text += rng.choice((f".{key}", f".{key}", f"['{key}']", "[0]"))
            return text
        return rng.choice(
            (
                "0", "1", "-1", "2u", "1.5", "1e300", "''", "'x'",
                "'a.b'", "b'xy'", "b'\\xff'", "true", "false", "null", "[]", "{}",
                "'aGk='", "'{\"a\": [1, null]}'", "'1h'", "'2024-01-02T03:04:05Z'",
                "'\\\\'", "'('", "r'\\d'", "int", "type", "undeclared", "'\\u00e9'",
                "timestamp('2024-01-02T03:04:05Z')", "duration('90s')", "type(1)",
                "bytes('x')", "{1: 'x'}", "{true: [1u]}",
            )
        )  # fmt: skip

    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.15:
            return self.atom()
        roll = rng.random()
        sub = lambda: self.expr(depth - 1)  # noqa: E731
        if roll < 0.2:
            return f"({sub()} {rng.choice(self.OPERATORS)} {sub()})"
        if roll < 0.25:
            return f"{rng.choice('-!')}({sub()})"
        if roll < 0.32:
            return f"({sub()} ? {sub()} : {sub()})"
        if roll < 0.4:
            return "[" + ", ".join(sub() for _ in range(rng.randint(0, 3))) + "]"
        if roll < 0.5:
            keys = rng.choice(KEYWORDS)
            parts = [f"'{keys}': {sub()}"]
            if rng.random() < 0.5:
                parts.append(f"{sub()}: {sub()}")
            return "{" + ", ".join(parts) + "}"
        if roll < 0.58:
            return f"({sub()}).{rng.choice((*DATA, 'k', 'absent'))}"
        if roll < 0.64:
            return f"({sub()})[{sub()}]"
        if roll < 0.76:
            name = rng.choice(self.METHODS)
            args = ", ".join(sub() for _ in range(rng.choice((0, 1, 1, 2, 3))))
            return f"({sub()}).{name}({args})"
        if roll < 0.86:
            name = rng.choice(self.FUNCTIONS)
            args = ", ".join(sub() for _ in range(rng.choice((0, 1, 1, 1, 2))))
            return f"{name}({args})"
        if roll < 0.9:
            return f"has({self.root}.{rng.choice(('n', 'm', 'absent'))}.k)"
        var = f"v{len(self.vars)}"
        source = sub()
        self.vars.append(var)
        body = sub()
        self.vars.pop()
        name = rng.choice(("map", "filter", "all", "exists", "exists_one"))
        return f"({source}).{name}({var}, {body})"


def _alone(text, root):
    """Evaluate the expression by itself -> "value" | "fails" | None (not an
    expression, or celpy itself gives up on it)."""
    from koreo.cel.functions import koreo_cel_functions, koreo_function_annotations

    try:
        env = celpy.Environment(annotations=koreo_function_annotations)
        program = env.program(env.compile(text), functions=koreo_cel_functions)
    except Exception:
        return None
    program.logger.setLevel(100)
    activation = celpy.json_to_cel(DATA)
    for part in reversed(root.split(".")[1:]):
        activation = celpy.json_to_cel({part: activation})
    try:
        value = program.evaluate({root.split(".")[0]: activation})
    except celpy.CELEvalError:
        return "fails"
    except RecursionError:
        return None
    except Exception:
        return "fails"
    return "fails" if errors_within(value) else "value"


async def _fuzz(rng, rec):
    site = rng.choice(rng.choice((VF_SITES, RF_SITES, WF_SITES)))
    root = SITES[site][1]
    text = Fuzz(rng, "$").expr(rng.choice((1, 1, 2, 2, 3, 4)))
    alone = _alone(text.replace("$", root), root)
    if alone is None:
        rec.count("not_an_expression")
        return
    built = Built(rng, site, text, "fuzz")
    try:
        if site.startswith("vf."):
            kind, spec = "ValueFunction", built.vf(site[3:])
        elif site.startswith("rf."):
            kind, spec = "ResourceFunction", await built.rf(site[3:])
        else:
            kind, spec = "Workflow", await _build_workflow(built, site[3:])
        try:
            definition = await defs.prepared(kind, spec)
        except defs.NotPrepared:
            rec.count("not_prepared")
            return
        raw_value, state, run = None, None, None
        if kind == "ValueFunction":
            out = await defs.run_vf(definition, DATA)
        elif kind == "ResourceFunction":
            out, _ = await defs.run_rf(definition, built.cluster, DATA, _owner())
        else:
            run = await defs.run_workflow(definition, built.cluster, DATA, _owner())
            out, state = run.outcome, run.raw.state
    finally:
        await built.cleanup()

    def witness():
        return {
            "spec": spec,
            "expression": built.expression,
            "alone": alone,
            "outcome": out,
            "state": state,
            "requests": built.cluster.log,
        }

    if out.cls == "Ok":
        rec.count("values")
        rec.check(
            not errors_within(out.raw),
            lambda: f"the result holds error objects at {errors_within(out.raw)}",
            witness,
        )
    rec.check(
        not errors_within(state or {}),
        lambda: f"the state holds error objects at {errors_within(state)}",
        witness,
    )
    _sent_clean(rec, built.cluster, witness)
    if alone == "fails":
        rec.count("fuzz_failed")
        if site == "wf.state":
            rec.check(
                "second" in run.state_errors and "second" not in (state or {}),
                f"{built.expression} fails in `state`, which is not reported",
                witness,
            )
        else:
            _is_permfail(rec, built, out, site, witness)
    rec.count("fuzzed")
    rec.seen((site, built.expression), {"expression": built.expression, "outcome": out})
