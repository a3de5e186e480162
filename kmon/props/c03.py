"""C03: combining outcomes is severity-maximal, order-insensitive and lossless."""

import itertools

from kmon import defs, vloop
from kmon.cluster import Cluster
from kmon.values import jeq, plain

from koreo import result

ID = "C03"
LEVEL = "exploration"
RULE = (
    "a distinct sequence of outcome classes (with messages, delays and values) given "
    "to combine, unwrapped_combine, a forEach step or a Workflow"
)
CASES = {"quick": 12000, "thorough": 120000}
REQUIRED = {
    "combine": 3000,
    "unwrapped_combine": 3000,
    "permutations": 5000,
    "workflow": 300,
    "forEach": 150,
    "won.PermFail": 500,
    "won.Retry": 500,
    "won.Ok": 500,
    "won.Skip": 100,
    "won.DepSkip": 20,
}

RANK = {"DepSkip": 0, "Skip": 1, "Ok": 2, "Retry": 3, "PermFail": 4}
CLASSES = tuple(RANK)
VALUES = (
    None,
    0,
    False,
    "",
    "text",
    [],
    {},
    [1, 2],
    [[]],
    [None],
    {"a": {"b": [1]}},
    3.5,
    "PermFail",
)


def systematic(tier):
    for size in range(0, 6 if tier == "quick" else 8):
        for combination in itertools.product("DSORP", repeat=size):
            yield "".join(combination)


BY_LETTER = {"D": "DepSkip", "S": "Skip", "O": "Ok", "R": "Retry", "P": "PermFail"}


RELATED = (
    "k",
    "no key k",
    "no key k in map",
    "error: no key k in map",
    "error: no key k in map; error: no key j in map",
    "no key j in map",
    "None",
    ", ",
)


def lost(item, items, message):
    """Does `message` lack the message of `item`? One which is part of other
    messages must be there apart from those; equal ones may be reported once."""
    if not item.message:
        return False
    needed = {
        other.message
        for other in items
        if other.cls == item.cls and other.message and item.message in other.message
    }
    return (message or "").count(item.message) < sum(
        other.count(item.message) for other in needed
    )


class Item:
    def __init__(self, rng, idx, cls):
        self.cls = cls
        self.message = None
        self.delay = None
        self.value = None
        # A token is never contained in another one.
        token = f"<{idx}:{rng.randrange(10**6)}>"
        location = rng.choice((None, "", f"loc-{idx}", f"a, b {idx}"))
        if cls == "Ok":
            self.value = rng.choice(VALUES) if rng.random() < 0.7 else token
            self.raw = result.Ok(self.value, location)
            self.unwrapped = self.value
            return
        roll = rng.random()
        if roll < 0.6:
            self.message = rng.choice((token, f"it's {token}, so", f"{token}\n{token}"))
        elif roll < 0.85:
            # Messages which repeat (parts of) each other.
            self.message = rng.choice(RELATED)
        elif rng.random() < 0.3:
            self.message = ""
        if cls == "Retry":
            self.delay = rng.choice((0, 1, 5, 60, 180, 10**6, rng.randrange(1000)))
            self.raw = result.Retry(
                message=self.message, delay=self.delay, location=location
            )
        else:
            self.raw = getattr(result, cls)(message=self.message, location=location)
        self.unwrapped = self.raw

    def brief(self):
        return [self.cls, self.message, self.delay, plain(self.value)]


def judge(rec, items, got, values, how, witness):
    """`got` is a described outcome, `values` the combined Ok data or None."""
    want = max((item.cls for item in items), key=RANK.get)
    rec.check(
        got.cls == want,
        f"{how}: the combination is {got.cls}, the most severe outcome is {want}",
        witness,
    )
    rec.count(f"won.{want}")
    winners = [item for item in items if item.cls == want]
    if want == "Ok":
        rec.check(
            isinstance(values, list)
            and jeq(plain(values), [plain(item.value) for item in winners]),
            f"{how}: the values are {values!r}",
            witness,
        )
    if want in ("Retry", "PermFail"):
        for item in winners:
            rec.check(
                not lost(item, items, got.message),
                f"{how}: the message {item.message!r} is lost in {got.message!r}",
                witness,
            )
    if want == "Retry":
        longest = max(item.delay for item in winners)
        rec.check(
            got.delay == longest,
            f"{how}: the delay is {got.delay}, the longest is {longest}",
            witness,
        )


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        classes = [BY_LETTER[letter] for letter in name[4:]]
    else:
        size = rng.choice((1, 2, 3, 4, 5, 8, 15, 40))
        pool = rng.sample(CLASSES, rng.randint(1, 5))
        classes = [rng.choice(pool) for _ in range(size)]
        roll = rng.random()
        if roll < 0.14 and len(classes) < 12:
            vloop.run(lambda: _workflow(rng, rec, classes))
            return
        if roll < 0.19:
            vloop.run(lambda: _for_each(rng, rec, classes))
            return
    items = [Item(rng, idx, cls) for idx, cls in enumerate(classes)]

    def witness():
        return [item.brief() for item in items]

    if not items:
        # An empty sequence has no most severe class: only that it is not an error.
        for empty in ([], ()):
            for got in (result.combine(empty), result.unwrapped_combine(empty)):
                rec.check(
                    not result.is_error(got),
                    f"combining nothing gives {got}",
                )
        return

    orders = [items]
    if len(items) > 1:
        if len(items) <= 4:
            orders += [list(p) for p in itertools.permutations(items)][1:]
        else:
            orders.append(items[::-1])
            for _ in range(3):
                orders.append(rng.sample(items, len(items)))
    if len(orders) > 8:
        orders = [orders[0]] + rng.sample(orders[1:], 7)
    for order in orders:
        before = [item.brief() for item in order]
        _both(rng, rec, order, witness)
        rec.check(
            [
                [
                    item.cls,
                    getattr(item.raw, "message", None),
                    getattr(item.raw, "delay", None),
                    plain(getattr(item.raw, "data", None)),
                ]
                for item in order
            ]
            == before,
            "combining modified the outcomes",
            witness,
        )
    rec.count("permutations", len(orders))
    if len(items) > 2:
        _nested(rng, rec, items, witness)
    rec.seen([item.brief() for item in items], [item.brief() for item in items])


def _both(rng, rec, order, witness):
    containers = (list, tuple, lambda raws: dict(enumerate(raws)).values())
    raw = result.combine(rng.choice(containers)([item.raw for item in order]))
    values = raw.data if isinstance(raw, result.Ok) else None
    judge(rec, order, defs.outcome(raw), values, "combine", witness)
    rec.count("combine")

    raw = result.unwrapped_combine(
        rng.choice(containers)([item.unwrapped for item in order])
    )
    rec.check(
        not isinstance(raw, result.Ok), "unwrapped_combine returned a wrapped Ok", witness
    )
    judge(rec, order, defs.outcome(raw), raw, "unwrapped_combine", witness)
    rec.count("unwrapped_combine")


def _nested(rng, rec, items, witness):
    """Combinations of combinations lose nothing either."""
    cut = rng.randrange(1, len(items))
    raw = result.combine(
        [
            result.combine([item.raw for item in items[:cut]]),
            result.combine([item.raw for item in items[cut:]]),
        ]
    )
    got = defs.outcome(raw)
    want = max((item.cls for item in items), key=RANK.get)
    rec.check(got.cls == want, f"nested: {got.cls} instead of {want}", witness)
    for item in items:
        if item.cls == want and want in ("Retry", "PermFail"):
            rec.check(
                not lost(item, items, got.message),
                f"nested: the message {item.message!r} is lost in {got.message!r}",
                witness,
            )
    if want == "Retry":
        rec.check(
            got.delay == max(item.delay for item in items if item.cls == want),
            f"nested: the delay is {got.delay}",
            witness,
        )


OWNER = ("ns-a", {"apiVersion": "v1", "kind": "Parent", "name": "p", "uid": "u"})
DELAYS = (1, 5, 60, 180, 900)
ASSERTS = {
    "DepSkip": "depSkip",
    "Skip": "skip",
    "Retry": "retry",
    "PermFail": "permFail",
}


def _function_spec(item):
    spec = {}
    if item.cls != "Ok":
        body = {"message": item.message}
        if item.cls == "Retry":
            body["delay"] = item.delay
        spec["preconditions"] = [{"assert": "=false", ASSERTS[item.cls]: body}]
    spec["return"] = {"token": item.value}
    return spec


def _plain_items(rng, classes):
    items = []
    for idx, cls in enumerate(classes):
        item = Item(rng, idx, cls)
        token = f"<{idx}:{rng.randrange(10**6)}>"
        item.message = None if cls == "Ok" else f"message {token}"
        if cls != "Ok" and rng.random() < 0.25:
            item.message = rng.choice(RELATED[:-2])
        item.value = token
        if cls == "Retry":
            item.delay = rng.choice(DELAYS)
        items.append(item)
    return items


async def _workflow(rng, rec, classes):
    items = _plain_items(rng, classes)
    steps, names, items_for = [], [], []
    if rng.random() < 0.5:
        for idx, item in enumerate(items):
            name = defs.unique("c03")
            await defs.install("ValueFunction", name, _function_spec(item))
            names.append(("ValueFunction", name))
            steps.append(
                {
                    "label": f"step_{idx}",
                    "ref": {"kind": "ValueFunction", "name": name},
                    "condition": {"type": f"Type{idx}", "name": f"thing {idx}"},
                }
            )
        items_for = items
    else:
        # Some of the outcomes come from a Workflow used as a step.
        inner = items[: max(1, len(items) // 2)]
        outer = items[len(inner) :]
        inner_steps = []
        for idx, item in enumerate(inner):
            name = defs.unique("c03")
            await defs.install("ValueFunction", name, _function_spec(item))
            names.append(("ValueFunction", name))
            inner_steps.append(
                {"label": f"in_{idx}", "ref": {"kind": "ValueFunction", "name": name}}
            )
        inner_name = defs.unique("c03")
        await defs.install("Workflow", inner_name, {"steps": inner_steps})
        names.append(("Workflow", inner_name))
        steps.append(
            {"label": "inner", "ref": {"kind": "Workflow", "name": inner_name}}
        )
        for idx, item in enumerate(outer):
            name = defs.unique("c03")
            await defs.install("ValueFunction", name, _function_spec(item))
            names.append(("ValueFunction", name))
            steps.append(
                {"label": f"out_{idx}", "ref": {"kind": "ValueFunction", "name": name}}
            )
        rng.shuffle(steps)
        items_for = items
    workflow = await defs.prepared("Workflow", {"steps": steps})
    run = await defs.run_workflow(workflow, Cluster(), {}, OWNER)

    def witness():
        return {"items": [item.brief() for item in items_for], "run": run}

    got = run.outcome
    want = max((item.cls for item in items_for), key=RANK.get)
    rec.check(
        got.cls == want,
        f"Workflow: the overall outcome is {got.cls}, the most severe step is {want}",
        witness,
    )
    for item in items_for:
        if item.cls == want and want in ("Retry", "PermFail"):
            rec.check(
                not lost(item, items, got.message),
                f"Workflow: the message {item.message!r} is lost in {got.message!r}",
                witness,
            )
    if want == "Retry":
        rec.check(
            got.delay == max(item.delay for item in items_for if item.cls == want),
            f"Workflow: the delay is {got.delay}",
            witness,
        )
    rec.count("workflow")
    for kind, name in names[::-1]:
        await defs.uninstall(kind, name)
    rec.seen(("workflow", classes, len(steps)), witness())


async def _for_each(rng, rec, classes):
    """One function, whose outcome depends on the item."""
    items = _plain_items(rng, classes)
    name = defs.unique("c03")
    preconditions = []
    for cls in rng.sample(list(ASSERTS), len(ASSERTS)):
        for delay in DELAYS if cls == "Retry" else (None,):
            body = {"message": "=inputs.item.message"}
            asserted = f"inputs.item.cls != '{cls}'"
            if delay is not None:
                body["delay"] = delay
                asserted += f" || inputs.item.delay != {delay}"
            preconditions.append({"assert": f"={asserted}", ASSERTS[cls]: body})
    await defs.install(
        "ValueFunction",
        name,
        {"preconditions": preconditions, "return": {"token": "=inputs.item.value"}},
    )
    workflow = await defs.prepared(
        "Workflow",
        {
            "steps": [
                {
                    "label": "each",
                    "ref": {"kind": "ValueFunction", "name": name},
                    "forEach": {"itemIn": "=parent.items", "inputKey": "item"},
                    "inputs": {"other": 1},
                    "state": {"each": "=value"},
                }
            ]
        },
    )
    trigger = {
        "items": [
            {
                "cls": item.cls,
                "message": item.message or "",
                "delay": item.delay or 0,
                "value": item.value,
            }
            for item in items
        ]
    }
    run = await defs.run_workflow(workflow, Cluster(), trigger, OWNER)

    def witness():
        return {"items": [item.brief() for item in items], "run": run}

    got = run.outcome
    worst = max((item.cls for item in items), key=RANK.get)
    # Items which were skipped are reported within the list.
    want = worst if RANK[worst] > RANK["Ok"] else "Ok"
    rec.check(
        got.cls == want,
        f"forEach: the outcome is {got.cls}, the most severe item is {worst}",
        witness,
    )
    for item in items:
        if item.cls == want and want in ("Retry", "PermFail"):
            rec.check(
                not lost(item, items, got.message),
                f"forEach: the message {item.message!r} is lost in {got.message!r}",
                witness,
            )
    if want == "Retry":
        rec.check(
            got.delay == max(item.delay for item in items if item.cls == want),
            f"forEach: the delay is {got.delay}",
            witness,
        )
    if want == "Ok":
        listed = (run.state or {}).get("each")
        rec.check(
            isinstance(listed, list) and len(listed) == len(items),
            "forEach: there is not one result per item",
            witness,
        )
        for item, value in zip(items, listed):
            if item.cls == "Ok":
                rec.check(
                    jeq(value, {"token": item.value}),
                    f"forEach: {value!r} instead of {item.value!r}",
                    witness,
                )
    rec.count("forEach")
    await defs.uninstall("ValueFunction", name)
    rec.seen(("forEach", classes), witness())
