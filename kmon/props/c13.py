"""C13: the first false assertion decides, unevaluable ones fail safe."""

import copy
import itertools

from kmon import defs, probe, rf, vloop
from kmon.cluster import Cluster
from kmon.values import jeq

ID = "C13"
LEVEL = "exploration"
RULE = (
    "a distinct list of assertions (their kinds, truth values and evaluability), as "
    "preconditions or postconditions of a Value- or ResourceFunction"
)
CASES = {"quick": 12000, "thorough": 60000}
REQUIRED = {
    "decided_by_false": 800,
    "continued": 300,
    "stopped_by_ok": 200,
    "unevaluable": 500,
    "vf.pre": 500,
    "rf.pre": 500,
    "rf.post": 500,
    "overlay.pre": 100,
    "body_not_evaluated": 800,
    "cluster_untouched": 200,
}

KINDS = ("skip", "depSkip", "retry", "permFail", "ok")
CLASSES = {
    "skip": "Skip",
    "depSkip": "DepSkip",
    "retry": "Retry",
    "permFail": "PermFail",
}
PLACES = ("vf.pre", "rf.pre", "rf.post", "overlay.pre")

TRUE = (
    "=true",
    "=inputs.yes",
    "=!inputs.no",
    "=inputs.n == 3",
    "=inputs.s == 'text'",
    "=has(inputs.yes)",
    "=!has(inputs.absent)",
    "=inputs.list.all(x, x > 0)",
    "=inputs.list.exists(x, x == 2)",
    "=size(inputs.list) == 3 && inputs.yes",
    "=inputs.no || inputs.n > 2",
    "=inputs.no ? false : true",
    "=inputs.s in ['a', 'text']",
    "=inputs.s.startsWith('te')",
)
FALSE = (
    "=false",
    "=inputs.no",
    "=!inputs.yes",
    "=inputs.n == 4",
    "=inputs.s != 'text'",
    "=has(inputs.absent)",
    "=inputs.list.all(x, x > 1)",
    "=inputs.list.exists(x, x == 9)",
    "=size(inputs.list) == 3 && inputs.no",
    "=inputs.no || inputs.n > 7",
    "=inputs.yes ? false : true",
    "=inputs.s in ['a', 'b']",
    "=inputs.list == []",
)
BROKEN = (
    "=inputs.absent",
    "=inputs.absent == 1",
    "=inputs.s.deeper",
    "=1 / 0 == 1",
    "=inputs.list[7] == 1",
    "=int(inputs.s) == 1",
    "=!inputs.absent",
    "=undeclared == 1",
    "=inputs.s + 1 == 'x'",
    "=inputs.list.map(x, x.y) == []",
    "=b64decode(inputs.n) == 'x'",
    "=from_json(inputs.s).x",
    "=inputs.list.exists(x, x.y == 1)",
)
NOT_BOOLEAN = (
    "=1",
    "=0",
    "='true'",
    "=''",
    "='false'",
    "=inputs.n",
    "=inputs.s",
    "=inputs.list",
    "=[]",
    "={}",
    "=inputs",
    "=1.5",
    "=0.0",
    "=null",
    "=[true]",
    "=b'x'",
)
INPUTS = {
    "yes": True,
    "no": False,
    "n": 3,
    "s": "text",
    "list": [1, 2, 3],
    "tag": "t",
}


class Condition:
    """One assertion with what is known about it."""

    def __init__(self, rng, truth, kind, message="fine"):
        self.truth, self.kind = truth, kind
        self.unevaluable_body = False
        text = rng.choice(
            {
                True: TRUE,
                False: FALSE,
                "broken": BROKEN,
                "other": NOT_BOOLEAN,
            }[truth]
        )
        self.message, self.delay = None, None
        if kind == "ok":
            body = {}
        elif message == "broken":
            body = {"message": rng.choice(("=inputs.absent", "='x' + 1", "=1 / 0"))}
            self.unevaluable_body = True
        else:
            number = rng.randrange(1000)
            written, self.message = rng.choice(
                (
                    (f"message {number}", f"message {number}"),
                    (f"='message ' + inputs.s + '{number}'", f"message text{number}"),
                    (f"= inputs.tag + '-{number}'", f"t-{number}"),
                    (f"='n: ' + string(inputs.n) + '-{number}'", f"n: 3-{number}"),
                    (f'quo"ted \\ {number}', f'quo"ted \\ {number}'),
                    (f"  padded {number} ", f"  padded {number} "),
                    (f"two\nlines {number}\n", f"two\nlines {number}\n"),
                    (f"='  ' + inputs.s + '{number}\\n '", f"  text{number}\n "),
                    (f"{'long ' * 80}{number}", f"{'long ' * 80}{number}"),
                    (f"={'inputs.s + ' * 60}'{number}'", f"{'text' * 60}{number}"),
                    (f"{number}: Ünïcode {{}} %s %d", f"{number}: Ünïcode {{}} %s %d"),
                    (f"='{{' + inputs.s + '}} {number}'", f"{{text}} {number}"),
                )
            )
            body = {"message": written}
        if kind == "retry":
            self.delay = rng.choice((0, 1, 15, 900))
            body["delay"] = self.delay
        self.spec = {"assert": text, kind: body}


def decide(conditions):
    """-> ("continue", None), ("outcome", condition), ("PermFail", None) or None
    (not specified)."""
    if any(c.truth in ("broken", "other") for c in conditions):
        return ("PermFail", None)
    for idx, condition in enumerate(conditions):
        if condition.truth is False:
            if any(
                other.unevaluable_body
                for other in (*conditions[:idx], *conditions[idx + 1 :])
            ):
                return None
            if condition.unevaluable_body:
                return ("PermFail", None)
            if condition.kind == "ok":
                return ("continue", None)
            return ("outcome", condition)
    if any(condition.unevaluable_body for condition in conditions):
        return None
    return ("continue", None)


def systematic(tier):
    """Every combination of (truth, kind) for short lists."""
    atoms = [(truth, kind) for truth in (True, False) for kind in KINDS]
    atoms += [("broken", "skip"), ("other", "retry"), ("broken", "ok")]
    length = 2 if tier == "quick" else 3
    for size in range(1, length + 1):
        for combination in itertools.product(range(len(atoms)), repeat=size):
            yield "-".join(map(str, combination))


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        atoms = [(truth, kind) for truth in (True, False) for kind in KINDS]
        atoms += [("broken", "skip"), ("other", "retry"), ("broken", "ok")]
        picked = [atoms[int(idx)] for idx in name[4:].split("-")]
        conditions = [Condition(rng, truth, kind) for truth, kind in picked]
        if tier == "quick":
            places = PLACES if len(picked) < 2 else (rng.choice(PLACES),)
        else:
            places = PLACES if len(picked) < 3 else (rng.choice(PLACES),)
    else:
        conditions = []
        for _ in range(rng.choice((0, 1, 2, 3, 4, 6, 10, 20))):
            roll = rng.random()
            truth = True if roll < 0.6 else False if roll < 0.96 else None
            if truth is None:
                truth = rng.choice(("broken", "other"))
            message = "broken" if rng.random() < 0.04 else "fine"
            conditions.append(Condition(rng, truth, rng.choice(KINDS), message))
        places = (rng.choice(PLACES),)
    for place in places:
        vloop.run(lambda: _run(rng, rec, place, conditions))


async def _run(rng, rec, place, conditions):
    expected = decide(conditions)
    if expected is None:
        rec.count("not_specified")
        return
    if place == "overlay.pre" and "inputs.absent" in repr(
        [condition.spec for condition in conditions]
    ):
        # Naming an input which the overlay is not given is its own PermFail.
        rec.count("not_specified")
        return
    specs = [copy.deepcopy(condition.spec) for condition in conditions]
    body = "=" + probe.wrap("body", "'ran'")
    probe.reset()
    cluster = Cluster()
    function_name = None
    if place == "vf.pre":
        spec = {"return": {"x": body}}
        if rng.random() < 0.5:
            spec["locals"] = {"l": "=" + probe.wrap("locals", "1")}
        if specs:
            spec["preconditions"] = specs
        function = await defs.prepared("ValueFunction", spec)
        probe.reset()
        out = await defs.run_vf(function, INPUTS)
        want = {"x": "ran"}
    else:
        spec = {
            "apiConfig": {
                "apiVersion": "kmon.test/v1",
                "kind": "Widget",
                "plural": "widgets",
                "name": "thing",
                "namespace": "ns-a",
            },
            "resource": {"spec": {"x": "=inputs.s"}},
            "return": {"x": body},
        }
        present = place == "rf.post" or rng.random() < 0.5
        key = "postconditions" if place == "rf.post" else "preconditions"
        if place == "overlay.pre":
            function_name = defs.unique("c13")
            await defs.install(
                "ValueFunction",
                function_name,
                {
                    **({"preconditions": specs} if specs else {}),
                    "return": {"spec": {"y": "=" + probe.wrap("overlay", "1")}},
                },
            )
            present = True
            spec["overlays"] = [
                {
                    "overlayRef": {"kind": "ValueFunction", "name": function_name},
                    "inputs": {
                        "yes": "=inputs.yes",
                        **{name: f"=inputs.{name}" for name in INPUTS},
                    },
                }
            ]
        elif specs:
            spec[key] = specs
        if rng.random() < 0.5:
            spec["locals"] = {
                "l": "="
                + (probe.wrap("locals", "1") if place == "rf.pre" else "1")
            }
        function = await defs.prepared("ResourceFunction", spec)
        if present:
            live = {
                "apiVersion": "kmon.test/v1",
                "kind": "Widget",
                "metadata": {
                    "name": "thing",
                    "namespace": "ns-a",
                    "ownerReferences": [copy.deepcopy(rf.OWNER_REF)],
                },
                "spec": {"x": "text", "y": 1},
            }
            cluster.put("kmon.test/v1", "widgets", "ns-a", "thing", live)
        probe.reset()
        out, _ = await defs.run_rf(
            function, cluster, INPUTS, ("ns-a", copy.deepcopy(rf.OWNER_REF))
        )
        want = {"x": "ran"} if present else None
    events = probe.seen()
    if function_name:
        await defs.uninstall("ValueFunction", function_name)

    def witness():
        return {
            "place": place,
            "conditions": specs,
            "outcome": out,
            "requests": cluster.log,
            "evaluated": events,
        }

    rec.count(place)
    if expected[0] == "continue":
        if want is not None:
            rec.check(
                out.cls == "Ok" and jeq(out.value, want),
                f"evaluation should continue to {want}, outcome is {out.brief()}",
                witness,
            )
        else:
            rec.check(
                out.cls == "Retry"
                and [request.op for request in cluster.mutations] == ["POST"],
                f"evaluation should continue and create, outcome is {out.brief()}",
                witness,
            )
        rec.count("continued")
        if any(condition.truth is False for condition in conditions):
            rec.count("stopped_by_ok")
    else:
        if expected[0] == "PermFail":
            rec.check(
                out.cls == "PermFail",
                f"an assertion or message can not be evaluated, outcome is {out.brief()}",
                witness,
            )
            rec.count("unevaluable")
        else:
            condition = expected[1]
            rec.check(
                out.cls == CLASSES[condition.kind],
                f"the first false assertion calls for {condition.kind}, outcome is "
                f"{out.brief()}",
                witness,
            )
            rec.check(
                out.message == condition.message,
                f"the message is {out.message!r}, not {condition.message!r}",
                witness,
            )
            if condition.kind == "retry":
                rec.check(
                    out.delay == condition.delay,
                    f"the delay is {out.delay!r}, not {condition.delay!r}",
                    witness,
                )
            rec.count("decided_by_false")
        rec.check(
            not events,
            f"the body was evaluated although the outcome is {out.brief()}",
            witness,
        )
        if probe.AVAILABLE:
            rec.count("body_not_evaluated")
        if place == "rf.pre":
            rec.check(
                not cluster.log,
                f"the preconditions did not pass, but {[r.op for r in cluster.log]}",
                witness,
            )
            rec.count("cluster_untouched")
        if place == "overlay.pre":
            rec.check(
                not cluster.mutations,
                "the overlay's preconditions did not pass, but the object was modified",
                witness,
            )
    rec.seen((place, specs), {"place": place, "conditions": specs, "outcome": out})
