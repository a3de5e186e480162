"""C14: every step an expression names is a dependency, every Function or Workflow
a definition names is watched."""

import asyncio
import copy
import itertools

import celpy

from koreo import cache, registry
from koreo.cel import functions as koreo_functions
from koreo.function_test.run import run_function_test

from kmon import defs, probe, refgen, vloop
from kmon.cluster import Cluster
from kmon.values import jeq, plain

ID = "C14"
LEVEL = "exploration"
RULE = (
    "a distinct definition: expressions naming steps in generated syntactic positions "
    "of every step field, or a set of references to present, missing and unhealthy "
    "Functions, Workflows and templates"
)
CASES = {"quick": 9000, "thorough": 300000}
REQUIRED = {
    "names_recorded": 10000,
    "steps_inspected": 5000,
    "field_inputs": 1500,
    "field_skipIf": 800,
    "field_forEach": 600,
    "field_switchOn": 600,
    "field_state": 600,
    "steps_evaluated": 1500,
    "bad_references": 440,
    "bad_later": 110,
    "bad_own": 200,
    "bad_unknown": 150,
    "watches_step": 460,
    "watches_case": 1000,
    "watches_overlay": 270,
    "watches_function_test": 130,
    "watches_template": 60,
    "reloads_observed": 1330,
}
ASSUMPTIONS = (
    "names are written out (not computed) and no macro variable is called `steps`",
    "definitions which no change elsewhere could make ready are not asked what they "
    "watch (duplicate labels, two defaults, switchOn or an overlay's skipIf which does "
    "not parse)",
)

OWNER = ("ns-a", {"apiVersion": "v1", "kind": "Trigger", "name": "t", "uid": "u-1"})
FIELDS = ("inputs", "skipIf", "forEach", "switchOn", "state")
KIND_OF_FIELD = {"skipIf": "bool", "forEach": "ints", "switchOn": "str"}

_ENV = celpy.Environment(annotations=koreo_functions.koreo_function_annotations)


def evaluate(text, env):
    """(True, value) or (False, error) of CEL alone."""
    try:
        program = _ENV.program(
            _ENV.compile(text), functions=koreo_functions.koreo_cel_functions
        )
        value = program.evaluate({k: celpy.json_to_cel(v) for k, v in env.items()})
    except Exception as err:
        return False, err
    if isinstance(value, (celpy.CELEvalError,)):
        return False, value
    return True, plain(value)


# --------------------------------------------------------------------------
# References to steps
# --------------------------------------------------------------------------


class Flow:
    """A Workflow whose steps name one another."""

    def __init__(self, rng, runnable, suffix):
        self.rng = rng
        self.runnable = runnable
        self.shape = f"c14-shape-{suffix}"
        self.got = f"c14-got-{suffix}"
        self.rf = f"c14-rf-{suffix}"
        self.labels = rng.sample(refgen.LABELS, rng.choice((2, 3, 4, 5, 6, 7, 7, 20)))
        self.steps = []
        self.fields = {}  # label -> [(field, text, named, forms)]
        self.value = {}  # label -> how the step gets evaluated
        self.pool = []  # labels of steps which return SHAPE for certain
        for idx, label in enumerate(self.labels):
            self._step(idx, label)

    def write(self, field, prior, must=()):
        rng = self.rng
        kind = KIND_OF_FIELD.get(field) or rng.choice(
            ("int", "str", "bool", "list", "ints", "map")
        )
        depth = rng.choice((0, 1, 1, 2, 2, 3))
        return refgen.write(rng, kind, prior, depth, must)

    def place(self, step, field, text):
        """Put an expression into a field of a step."""
        rng = self.rng
        text = rng.choice(("=", "= ", "=")) + text
        if field == "inputs":
            inputs = step.setdefault("inputs", {})
            key = rng.choice(("v", "deep", "many", "a key"))
            if key in inputs or key == "v":
                key = "v" if "v" not in inputs else f"k{len(inputs)}"
                inputs[key] = text
            elif key == "deep":
                inputs[key] = {"x": 1, "y": {"z": text}}
            elif key == "many":
                inputs[key] = ["static", [text], {"in": text}]
            else:
                inputs[key] = text
        elif field == "state":
            state = step.setdefault("state", {})
            key = f"s{len(state)}"
            state[key] = rng.choice((text, {"n": text}, [1, text]))
        elif field == "skipIf":
            step["skipIf"] = text
        elif field == "forEach":
            step["forEach"] = {"itemIn": text, "inputKey": "v"}
        else:
            step.pop("ref", None)
            step["refSwitch"] = {
                "switchOn": text,
                "cases": [
                    {"case": "ab", "kind": "ValueFunction", "name": self.got},
                    {
                        "case": "other",
                        "kind": "ValueFunction",
                        "name": self.shape,
                        "default": True,
                    },
                ],
            }

    def _step(self, idx, label):
        rng = self.rng
        step = {"label": label, "ref": {"kind": "ValueFunction", "name": self.shape}}
        self.steps.append(step)
        self.fields[label] = []
        prior = self.pool if self.runnable else self.labels[:idx]
        if not prior:
            if rng.random() < 0.5:
                step["inputs"] = {"x": "=parent.num"}
            self.pool.append(label)
            return
        wanted = [f for f in FIELDS if rng.random() < 0.35] or [rng.choice(FIELDS)]
        if self.runnable:
            wanted = [rng.choice(FIELDS[:4])] + (["inputs"] if rng.random() < 0.3 else [])
            step["inputs"] = {}
        for field in dict.fromkeys(wanted):
            for _ in range(rng.choice((1, 1, 2)) if field in ("inputs", "state") else 1):
                self.refer(step, field, prior)
        main = wanted[0]
        if self.runnable:
            inputs = step["inputs"]
            if main != "forEach":
                inputs.setdefault("v", "static")
            if not inputs:
                del step["inputs"]
            if main != "switchOn":
                step["ref"]["name"] = self.got
            step["state"] = {label: "=value"}
            self.value[label] = step
        elif rng.random() < 0.1 and "ref" in step:
            step["ref"] = {"kind": "ResourceFunction", "name": self.rf}

    def refer(self, step, field, prior, must=()):
        text, named, forms = self.write(field, prior, must)
        self.place(step, field, text)
        self.fields[step["label"]].append((field, text, set(named), forms))

    def named(self, label):
        return set().union(*(entry[2] for entry in self.fields[label]))

    async def install(self):
        await defs.install("ValueFunction", self.shape, {"return": refgen.SHAPE})
        await defs.install(
            "ValueFunction", self.got, {"return": {"got": f"={probe.wrap('got', 'inputs.v')}"}}
        )
        await defs.install(
            "ResourceFunction",
            self.rf,
            {
                "apiConfig": {
                    "apiVersion": "kmon.test/v1",
                    "kind": "Widget",
                    "plural": "widgets",
                    "name": "thing",
                    "namespace": "ns-a",
                },
                "resource": {"spec": {"n": 1}},
            },
        )

    async def uninstall(self):
        for name in (self.shape, self.got):
            await defs.uninstall("ValueFunction", name)
        await defs.uninstall("ResourceFunction", self.rf)


async def _dependencies(rng, rec, name):
    runnable = rng.random() < 0.4
    flow = Flow(rng, runnable, name)
    await flow.install()
    try:
        spec = {"steps": flow.steps}
        got = await defs.prepare("Workflow", spec)
        witness = lambda: {  # noqa: E731
            "spec": spec,
            "named": {label: sorted(flow.named(label)) for label in flow.labels},
        }
        if not isinstance(got, tuple):
            rec.fail(f"not prepared: {defs.outcome(got).brief()}", witness)
        workflow = got[0]
        rec.check(
            defs.outcome(workflow.steps_ready).cls == "Ok",
            lambda: "every step names only prior steps, but the Workflow is not ready: "
            f"{defs.outcome(workflow.steps_ready).brief()}",
            witness,
        )
        by_label = {step.label: step for step in workflow.steps}
        for label in flow.labels:
            if not flow.fields[label]:
                continue
            recorded = set(by_label[label].dynamic_input_keys)
            rec.count("steps_inspected")
            for field, text, named, forms in flow.fields[label]:
                rec.count(f"field_{field}")
                rec.count("names_recorded", len(named))
                missed = named - recorded
                rec.check(
                    not missed,
                    lambda: f"step {label}: {field} names {sorted(missed)}, not recorded "
                    f"as dependencies ({sorted(map(str, recorded))}): {text}",
                    witness,
                )
                for form in forms:
                    rec.count(f"form_{form}")
        if runnable:
            await _evaluated(rng, rec, flow, workflow, witness)
        rec.seen(spec, {"spec": spec})
    finally:
        await flow.uninstall()


async def _evaluated(rng, rec, flow, workflow, witness):
    """Steps see the value of everything they name."""
    parent = dict(refgen.SHAPE)
    steps = {label: refgen.SHAPE for label in flow.pool}
    run = await defs.run_workflow(workflow, Cluster(), parent, copy.deepcopy(OWNER))
    env = {"parent": parent, "steps": steps}
    for label, step in flow.value.items():
        expected = _model(flow, step, env)
        if expected is _UNKNOWN:
            continue
        rec.count("steps_evaluated")
        state = run.state or {}
        if expected is _SKIPPED:
            rec.check(
                label not in state, f"step {label} is to be skipped, but ran", witness
            )
            continue
        rec.check(
            label in state and jeq(state[label], expected),
            lambda: f"step {label} returned {state.get(label, '<nothing>')}, expected {expected}; "
            f"outcome {run.outcome.brief()}",
            witness,
        )


_UNKNOWN = object()
_SKIPPED = object()


def _fill(template, env):
    if isinstance(template, dict):
        return {key: _fill(value, env) for key, value in template.items()}
    if isinstance(template, list):
        return [_fill(value, env) for value in template]
    if isinstance(template, str) and template.startswith("="):
        ok, value = evaluate(template[1:], env)
        if not ok:
            raise ValueError(template)
        return value
    return template


def _model(flow, step, env):
    try:
        inputs = _fill(step.get("inputs", {}), env)
        if "skipIf" in step:
            skip = _fill(step["skipIf"], env)
            if skip is True:
                return _SKIPPED
            if skip is not False:
                return _UNKNOWN
        if "forEach" in step:
            items = _fill(step["forEach"]["itemIn"], env)
            if not isinstance(items, list) or not items:
                return _UNKNOWN
        else:
            items = None
        logic = flow.got
        if "refSwitch" in step:
            on = _fill(step["refSwitch"]["switchOn"], {**env, "inputs": inputs})
            logic = flow.got if on == "ab" else flow.shape
    except ValueError:
        return _UNKNOWN
    if items is not None:
        if "refSwitch" in step:
            return _UNKNOWN
        return [{"got": item} for item in items]
    if logic == flow.shape:
        return refgen.SHAPE
    return {"got": inputs["v"]} if "v" in inputs else _UNKNOWN


async def _out_of_order(rng, rec, name):
    flow = Flow(rng, rng.random() < 0.5, name)
    victim = rng.randrange(len(flow.labels))
    label = flow.labels[victim]
    how = rng.choice(("later", "own", "unknown"))
    if how == "later" and victim == len(flow.labels) - 1:
        how = "own"
    if how == "later":
        bad = rng.choice(flow.labels[victim + 1 :])
    elif how == "own":
        bad = label
    else:
        near = [
            made
            for base in flow.labels
            for made in (f"{base}x", f"x{base}", base.swapcase(), base[:-1], f"{base}_")
            if made not in flow.labels and made.isascii() and len(made) > 1
        ] + [one for one in refgen.LABELS if one not in flow.labels]
        bad = rng.choice(near)
    field = rng.choice(FIELDS)
    step = flow.steps[victim]
    text, named, _ = flow.write(field, [*flow.labels[:victim], bad], [bad])
    flow.place(step, field, text)
    await flow.install()
    try:
        spec = {"steps": flow.steps}
        witness = {"spec": spec, "field": field, "bad": bad, "how": how, "text": text}
        got = await defs.prepare("Workflow", spec)
        rec.count("bad_references")
        rec.count(f"bad_{how}")
        rec.seen(spec, witness)
        if not isinstance(got, tuple):
            rec.check(
                defs.outcome(got).cls in ("PermFail", "Retry"),
                f"unexpected {got!r}",
                witness,
            )
            return
        workflow = got[0]
        rec.check(
            defs.outcome(workflow.steps_ready).cls != "Ok",
            lambda: f"step {label}: {field} names {bad} ({how}), but the Workflow is ready: {text}",
            witness,
        )
        probe.reset()
        cluster = Cluster()
        run = await defs.run_workflow(
            workflow, cluster, dict(refgen.SHAPE), copy.deepcopy(OWNER)
        )
        rec.check(
            run.outcome.cls in ("PermFail", "Retry")
            and not cluster.log
            and not probe.seen("got")
            and not run.state,
            lambda: f"step {label}: {field} names {bad} ({how}), but the Workflow ran: "
            f"{run.brief()}",
            witness,
        )
    finally:
        await flow.uninstall()


# --------------------------------------------------------------------------
# References to Functions and Workflows
# --------------------------------------------------------------------------

HEALTHY = {
    "ValueFunction": {"return": {"ok": 1}},
    "ResourceFunction": {
        "apiConfig": {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "thing",
            "namespace": "ns-a",
        },
        "resource": {"spec": {"n": 1}},
    },
}
UNHEALTHY = {
    "ValueFunction": {"return": {"x": "=1 +"}},
    "ResourceFunction": {"apiConfig": {}, "resource": {}},
    "Workflow": {"steps": "none"},
}


class Others:
    """Functions and Workflows in every state of health, to be referred to."""

    def __init__(self, rng, suffix, kinds):
        self.rng = rng
        self.suffix = suffix
        self.kinds = kinds
        self.state = {}  # (kind, name) -> ok | missing | unhealthy

    def pick(self):
        rng = self.rng
        kind = rng.choice(self.kinds)
        # Names are shared between kinds on purpose.
        name = f"c14-{rng.choice('abcdef')}-{self.suffix}"
        if (kind, name) not in self.state:
            self.state[kind, name] = rng.choice(
                ("ok", "ok", "ok", "missing", "unhealthy", "not ready")
            )
        return kind, name

    async def install(self):
        for (kind, name), state in self.state.items():
            if state == "missing":
                continue
            if state == "unhealthy":
                await defs.install(kind, name, UNHEALTHY[kind])
            elif kind != "Workflow":
                await defs.install(kind, name, HEALTHY[kind])
            else:
                inner = f"{name}-inner"
                if state == "ok":
                    await defs.install("ValueFunction", inner, HEALTHY["ValueFunction"])
                await defs.install(
                    kind,
                    name,
                    {
                        "steps": [
                            {
                                "label": "one",
                                "ref": {"kind": "ValueFunction", "name": inner},
                                "inputs": {"x": "=parent.some.thing"},
                            }
                        ]
                    },
                )

    async def uninstall(self):
        for kind, name in self.state:
            await defs.uninstall(kind, name)
            if kind == "Workflow":
                await defs.uninstall("ValueFunction", f"{name}-inner")


def reported(resources):
    return {(res.resource_type.__name__, res.name) for res in resources or ()}


async def _watched_by_workflow(rng, rec, name):
    others = Others(rng, name, ("ValueFunction", "ResourceFunction", "Workflow"))
    steps = []
    named = {}
    labels = rng.sample(refgen.LABELS, rng.choice((1, 2, 3, 4, 5, 6, 20)))
    for idx, label in enumerate(labels):
        step = {"label": label}
        if rng.random() < 0.5:
            kind, target = others.pick()
            step["ref"] = {"kind": kind, "name": target}
            named[kind, target] = "step"
        else:
            cases = []
            keys = rng.sample(("a", "b", "c", "d", "e", "f", "g", "h", "1", "x y"), rng.randint(1, 10))
            default = rng.choice((None, rng.randrange(len(keys))))
            for at, key in enumerate(keys):
                kind, target = others.pick()
                cases.append({"case": key, "kind": kind, "name": target})
                if at == default:
                    cases[-1]["default"] = True
                elif rng.random() < 0.2:
                    cases[-1]["default"] = False
                named.setdefault((kind, target), "case")
            step["refSwitch"] = {"switchOn": "=parent.which", "cases": cases}
        flaw = rng.random()
        if flaw < 0.08:
            step["inputs"] = {"x": "=1 +"}
        elif flaw < 0.14:
            step["skipIf"] = "=)("
        elif flaw < 0.2:
            step["forEach"] = {"itemIn": "=[1", "inputKey": "x"}
        elif flaw < 0.26:
            step["state"] = {"x": "=1 +"}
        elif flaw < 0.34:
            step["inputs"] = {"x": f"=steps['{rng.choice([*labels[idx:], 'nowhere'])}']"}
        elif flaw < 0.6 and idx:
            step["inputs"] = {"x": f"=steps['{rng.choice(labels[:idx])}']"}
        if rng.random() < 0.2:
            step["condition"] = {"type": "Done", "name": "a thing"}
        steps.append(step)
    spec = {"steps": steps}
    if rng.random() < 0.2:
        spec["crdRef"] = {"apiGroup": "kmon.test", "version": "v1", "kind": "Trigger"}
    await others.install()
    try:
        got = await defs.prepare("Workflow", spec)
        witness = {
            "spec": spec,
            "others": {f"{kind}:{target}": state for (kind, target), state in others.state.items()},
        }
        if not isinstance(got, tuple):
            rec.fail(f"not prepared: {defs.outcome(got).brief()}", witness)
        found = reported(got[1])
        for thing, where in named.items():
            rec.count(f"watches_{where}")
            rec.count(f"target_{others.state[thing].replace(' ', '_')}")
            rec.check(
                thing in found,
                lambda: f"{thing[0]} {thing[1]} ({others.state[thing]}) is named by a "
                f"{where}, but is not watched",
                witness,
            )
        rec.seen((spec, sorted(others.state.items())), witness)
    finally:
        await others.uninstall()


async def _watched_by_resource_function(rng, rec, name):
    others = Others(rng, name, ("ValueFunction",))
    overlays = []
    named = set()
    for _ in range(rng.randint(1, 6)):
        overlay = {}
        if rng.random() < 0.25:
            overlay["overlay"] = {"spec": {f"k{rng.randrange(3)}": rng.randrange(9)}}
        else:
            kind, target = others.pick()
            overlay["overlayRef"] = {"kind": kind, "name": target}
            named.add((kind, target))
            roll = rng.random()
            if roll < 0.3:
                overlay["inputs"] = {"x": "=inputs.x"}
            elif roll < 0.4:
                overlay["inputs"] = {"x": "=1 +"}
        if rng.random() < 0.3:
            overlay["skipIf"] = rng.choice(
                (
                    "=inputs.skip",
                    "=true",
                    "=false",
                    "=has(resource.spec.x)",
                    "=locals.l == 'a'",
                    "=inputs.x == 'skip' || resource.spec.n > 3",
                    "='not a bool'",
                )
            )
        overlays.append(overlay)
    spec = copy.deepcopy(HEALTHY["ResourceFunction"])
    spec["overlays"] = overlays
    if rng.random() < 0.3:
        del spec["resource"]
        spec["resourceTemplateRef"] = {"name": "='tpl-' + inputs.x"}
    if rng.random() < 0.3:
        spec["locals"] = {"l": "=inputs.x"}
    if rng.random() < 0.3:
        spec["preconditions"] = [{"assert": "=inputs.x == 'a'", "skip": {"message": "no"}}]
    if rng.random() < 0.3:
        spec["return"] = {"r": "=resource.spec"}
    if rng.random() < 0.2:
        spec["create"] = {"overlay": {"spec": {"c": 1}}}
    if rng.random() < 0.2:
        spec["update"] = {"recreate": {"delay": 5}}
    await others.install()
    try:
        got = await defs.prepare("ResourceFunction", spec)
        witness = {
            "spec": spec,
            "others": {f"{kind}:{target}": state for (kind, target), state in others.state.items()},
        }
        if not isinstance(got, tuple):
            rec.fail(f"not prepared: {defs.outcome(got).brief()}", witness)
        found = reported(got[1])
        for thing in named:
            rec.count("watches_overlay")
            rec.check(
                thing in found,
                lambda: f"{thing[0]} {thing[1]} ({others.state[thing]}) is named by an "
                "overlayRef, but is not watched",
                witness,
            )
        rec.seen((spec, sorted(others.state.items())), witness)
    finally:
        await others.uninstall()


ASSERTIONS = (
    {"expectOutcome": {"ok": {}}},
    {"expectOutcome": {"retry": {"message": "x", "delay": 3}}},
    {"expectReturn": {"a": 1}},
)
RESOURCE_ASSERTIONS = ({"expectResource": {"a": 1}}, {"expectDelete": True})


async def _watched_by_function_test(rng, rec, name, how=None):
    kind = rng.choice(("ValueFunction", "ResourceFunction"))
    state = rng.choice(("ok", "missing", "unhealthy", "template", "template"))
    if how:
        kind, state = "ResourceFunction", "template"
    target = f"c14-fut-{name}"
    spec = {"functionRef": {"kind": kind, "name": target}}
    expected = {(kind, target)}
    inputs = {}
    if rng.random() < 0.6:
        inputs = {"tpl": rng.choice(("base", "other")), "n": 1}
        spec["inputs"] = inputs
    cases = []
    templates = set()
    how = how or rng.choice(("static", "inputs", "locals"))
    for _ in range(rng.randint(1, 5)):
        one = {}
        if rng.random() < 0.5:
            # Every case names its own template, so that it does not matter what
            # the cases before left behind.
            one["inputOverrides"] = {"tpl": rng.choice(("t1", "t2", "t3"))}
        pool = ASSERTIONS + (RESOURCE_ASSERTIONS if kind == "ResourceFunction" else ())
        one.update(copy.deepcopy(rng.choice(pool)))
        if rng.random() < 0.3:
            one["variant"] = True
        if rng.random() < 0.2:
            one["skip"] = True
        if rng.random() < 0.3:
            one["label"] = "named"
        cases.append(one)
    spec["testCases"] = cases
    if rng.random() < 0.2 and kind == "ResourceFunction":
        spec["currentResource"] = {"spec": {"n": 1}}
    if state == "template" and kind == "ResourceFunction":
        function = copy.deepcopy(HEALTHY["ResourceFunction"])
        del function["resource"]
        function["resourceTemplateRef"] = {
            "name": {
                "static": "='c14-static-tpl'",
                "inputs": "=inputs.tpl",
                "locals": "=locals.name",
                "concatenated": "=inputs.tpl + '-l'",
            }[how]
        }
        if how == "locals":
            function["locals"] = {"name": "=inputs.tpl.replace('t', 'l')"}
        if how == "static":
            templates.add("c14-static-tpl")
        else:
            for one in cases:
                used = one.get("inputOverrides", {}).get("tpl") or inputs.get("tpl")
                if not used and how == "locals":
                    # Locals which can not be evaluated: see C20.
                    one["inputOverrides"] = {"tpl": "t9"}
                    used = "t9"
                if used and how == "locals":
                    templates.add(used.replace("t", "l"))
                elif used and how == "concatenated":
                    templates.add(f"{used}-l")
                elif used:
                    templates.add(used)
        await defs.install(kind, target, function)
    elif state in ("ok", "template"):
        await defs.install(kind, target, HEALTHY[kind])
    elif state == "unhealthy":
        await defs.install(kind, target, UNHEALTHY[kind])
    try:
        got = await defs.prepare("FunctionTest", spec)
        witness = {"spec": spec, "state": state, "templates": how, "kind": kind}
        if not isinstance(got, tuple):
            rec.fail(f"not prepared: {defs.outcome(got).brief()}", witness)
        found = reported(got[1])
        rec.count("watches_function_test")
        rec.check(
            expected <= found,
            lambda: f"the function under test {kind} {target} ({state}) is not watched",
            witness,
        )
        for template in templates:
            rec.count("watches_template")
            rec.check(
                ("ResourceTemplate", template) in found,
                lambda: f"template {template} is used, but not watched ({sorted(found)})",
                witness,
                # CEL concatenation gives another string type.
                "computed-template-name" if how == "concatenated" else None,
            )
        rec.seen((spec, state, how), witness)
    finally:
        await defs.uninstall(kind, target)


# --------------------------------------------------------------------------
# Hot reload, end to end
# --------------------------------------------------------------------------

DEPENDENTS = (
    "ref-vf",
    "ref-rf",
    "ref-wf",
    "case",
    "default",
    "overlay",
    "test-vf",
    "test-rf",
    "test-template",
    "for-each",
    "nested",
)


class Reload:
    """One definition which names another; whatever happens to the other, the cached
    definition has to behave like one prepared just now."""

    def __init__(self, rng, how, suffix):
        self.rng = rng
        self.how = how
        self.name = f"c14-dep-{how}-{suffix}"
        self.other = f"c14-other-{how}-{suffix}"
        self.filler = f"c14-fill-{how}-{suffix}"
        self.number = itertools.count(1)
        self.versions = itertools.count(1)
        self.kind = "Workflow"
        self.other_kind = "ValueFunction"
        if how == "overlay":
            self.kind = "ResourceFunction"
        elif how.startswith("test"):
            self.kind = "FunctionTest"
        if how in ("ref-rf", "test-rf"):
            self.other_kind = "ResourceFunction"
        elif how in ("ref-wf", "nested"):
            self.other_kind = "Workflow"
        elif how == "test-template":
            self.other_kind = "ResourceTemplate"
        elif how == "case":
            self.other_kind = rng.choice(("ValueFunction", "ResourceFunction"))

    def other_spec(self, number):
        match self.other_kind:
            case "ValueFunction":
                if self.how == "overlay":
                    return {"return": {"spec": {"o": number}}}
                return {"return": {"n": number}}
            case "ResourceFunction":
                return {
                    "apiConfig": HEALTHY["ResourceFunction"]["apiConfig"],
                    "resource": {"spec": {"n": number}},
                    "return": {"n": number},
                }
            case "ResourceTemplate":
                return {
                    "template": {
                        "apiVersion": "kmon.test/v1",
                        "kind": "Widget",
                        "spec": {"n": number},
                    }
                }
            case "Workflow":
                return {
                    "steps": [
                        {
                            "label": "only",
                            "ref": {"kind": "ValueFunction", "name": self.filler},
                            "state": {"n": number},
                        }
                    ]
                }

    def spec(self):
        rng = self.rng
        ref = {"kind": self.other_kind, "name": self.other}
        fill = {"kind": "ValueFunction", "name": self.filler}
        match self.how:
            case "ref-vf" | "ref-rf" | "ref-wf" | "nested":
                steps = [{"label": "first", "ref": ref, "state": {"first": "=value"}}]
            case "for-each":
                steps = [
                    {
                        "label": "each",
                        "ref": ref,
                        "forEach": {"itemIn": "=[1, 2]", "inputKey": "i"},
                        "state": {"first": "=value"},
                    }
                ]
            case "case" | "default":
                cases = [{"case": key, **fill} for key in ("a", "b", "c")]
                cases.insert(rng.randrange(4), {"case": "it", **ref})
                switch = {"switchOn": "='it'", "cases": cases}
                if self.how == "default":
                    switch["switchOn"] = "='none of them'"
                    next(c for c in cases if c["case"] == "it")["default"] = True
                steps = [
                    {"label": "switch", "refSwitch": switch, "state": {"first": "=value"}}
                ]
            case "overlay":
                return {
                    **copy.deepcopy(HEALTHY["ResourceFunction"]),
                    "overlays": [{"overlayRef": ref}],
                }
            case "test-vf":
                return {
                    "functionRef": ref,
                    "testCases": [
                        {"label": str(n), "variant": True, "expectReturn": {"n": n}}
                        for n in range(1, 7)
                    ],
                }
            case "test-rf":
                return {
                    "functionRef": ref,
                    "testCases": [
                        {
                            "label": str(n),
                            "variant": True,
                            "expectResource": {
                                "apiVersion": "kmon.test/v1",
                                "kind": "Widget",
                                "metadata": {"name": "thing", "namespace": "ns-a"},
                                "spec": {"n": n},
                            },
                        }
                        for n in range(1, 7)
                    ],
                }
            case "test-template":
                return {
                    "functionRef": {"kind": "ResourceFunction", "name": self.filler},
                    "testCases": [
                        {
                            "label": str(n),
                            "variant": True,
                            "inputOverrides": {"t": self.other},
                            "expectResource": {
                                "apiVersion": "kmon.test/v1",
                                "kind": "Widget",
                                "metadata": {"name": "thing", "namespace": "ns-a"},
                                "spec": {"n": n},
                            },
                        }
                        for n in range(1, 7)
                    ],
                }
        steps.insert(
            rng.randrange(2), {"label": "filler", "ref": fill, "state": {"fill": 1}}
        )
        return {"steps": steps}

    async def start(self):
        if self.how == "test-template":
            await defs.install(
                "ResourceFunction",
                self.filler,
                {
                    "apiConfig": HEALTHY["ResourceFunction"]["apiConfig"],
                    "resourceTemplateRef": {"name": "=inputs.t"},
                },
            )
        else:
            await defs.install("ValueFunction", self.filler, {"return": {"f": 1}})

    async def stop(self):
        await defs.uninstall(self.kind, self.name)
        await defs.uninstall(self.other_kind, self.other)
        await defs.uninstall(
            "ResourceFunction" if self.how == "test-template" else "ValueFunction",
            self.filler,
        )

    async def behaviour(self, found):
        if not isinstance(found, defs.KINDS[self.kind][0]):
            return ("not prepared", defs.outcome(found).cls)
        match self.kind:
            case "Workflow":
                cluster = Cluster()
                run = await defs.run_workflow(
                    found, cluster, {"x": 1}, copy.deepcopy(OWNER)
                )
                sent = [plain(request.payload) for request in cluster.mutations]
                return (run.outcome.cls, run.state, sorted(run.state_errors), sent)
            case "ResourceFunction":
                cluster = Cluster()
                out, _ = await defs.run_rf(found, cluster, {}, copy.deepcopy(OWNER))
                return (out.cls, [plain(request.payload) for request in cluster.mutations])
            case "FunctionTest":
                ran = await run_function_test(location="kmon", function_test=found)
                return [one.test_pass for one in ran.test_results or ()]


async def _settle():
    for _ in range(40):
        await asyncio.sleep(0)


async def _reload(rng, rec, name):
    how = rng.choice(DEPENDENTS)
    pair = Reload(rng, how, name)
    spec = pair.spec()
    history = []
    present = None
    await pair.start()
    if rng.random() < 0.5:
        present = 1
        await defs.install(pair.other_kind, pair.other, pair.other_spec(1), "v0")
        history.append("present first")
    await defs.install(pair.kind, pair.name, spec)
    await _settle()
    try:
        for _ in range(rng.choice((2, 4, 6))):
            roll = rng.random()
            if present is None or roll < 0.6:
                number = rng.choice([n for n in range(1, 7) if n != present])
                if roll < 0.08:
                    history.append("unhealthy")
                    made = UNHEALTHY.get(pair.other_kind, {"template": {}})
                    number = "unhealthy"
                else:
                    history.append(("offer", number))
                    made = pair.other_spec(number)
                await defs.install(
                    pair.other_kind, pair.other, made, f"v{next(pair.versions)}"
                )
                present = number
            else:
                history.append("delete")
                await defs.uninstall(pair.other_kind, pair.other)
                present = None
            await _settle()
            cached = cache.get_resource_from_cache(defs.KINDS[pair.kind][0], pair.name)
            got = await pair.behaviour(cached)
            fresh = await defs.prepare(pair.kind, spec, f"{pair.name}-fresh")
            fresh = await pair.behaviour(fresh[0] if isinstance(fresh, tuple) else fresh)
            rec.count("reloads_observed")
            rec.count(f"reload_{how}")
            rec.check(
                got == fresh,
                lambda: f"{pair.kind} ({how}): the {pair.other_kind} it names is "
                f"{present or 'gone'}, but the cached definition gives {got}; prepared "
                f"now it gives {fresh}",
                {"spec": spec, "history": history},
            )
            if isinstance(present, int) and how != "nested":
                rec.check(
                    str(present) in str(got)
                    if pair.kind != "FunctionTest"
                    else got == [n == present for n in range(1, 7)],
                    lambda: f"{pair.kind} ({how}): {pair.other_kind} number {present} is not "
                    f"in effect: {got}",
                    {"spec": spec, "history": history},
                )
        rec.seen((spec, history), {"spec": spec, "history": history})
    finally:
        await pair.stop()


def systematic(tier):
    return [f"computed-template:{idx}" for idx in range(16)]


def case(rng, rec, name, tier):
    cache._reset_cache()
    if name.startswith("sys:"):
        vloop.run(lambda: _watched_by_function_test(rng, rec, name, "concatenated"))
        return
    roll = rng.random()
    suffix = name.split(":")[1]
    if roll < 0.45:
        kind = _dependencies
    elif roll < 0.65:
        kind = _out_of_order
    elif roll < 0.73:
        kind = _watched_by_workflow
    elif roll < 0.79:
        kind = _watched_by_resource_function
    elif roll < 0.85:
        kind = _watched_by_function_test
    else:
        kind = _reload
    vloop.run(lambda: kind(rng, rec, suffix))
