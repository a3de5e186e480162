"""C16: once idle, every cached entry was built from what its dependencies are now."""

import asyncio
import copy
import itertools

from koreo import cache, registry, result
from koreo.registry import Resource

from kmon import defs, rf, vloop
from kmon.cluster import Cluster
from kmon.values import plain

ID = "C16"
LEVEL = "exploration"
RULE = (
    "a distinct history of offers and deletes over dependent resources together with its "
    "placement against event-loop turns and the pace of the preparers"
)
CASES = {"quick": 24000, "thorough": 400000}
REQUIRED = {
    "settled": 5000,
    "entries_checked": 20000,
    "background_preparations": 10000,
    "deletes": 3000,
    "delete_then_offer": 500,
    "transitive": 1000,
    "concurrent": 300,
    "overlapping": 300,
    "preparing_while_changed": 300,
    "real_definitions": 300,
    "unpreparable_definitions": 300,
}
ASSUMPTIONS = (
    "the preparer of a kind does not change, and operations on one resource are awaited "
    "one after the other (operations on different resources may overlap) unless its "
    "preparer does not suspend",
    "a preparation which fails declares no dependencies",
)


class KindA: ...


class KindB: ...


class KindC: ...


class System:
    """A small universe: resource i may only depend on resources before it."""

    def __init__(self, rng, rec, count, pace):
        self.rng, self.rec, self.pace = rng, rec, pace
        tag = defs.unique("c16")
        kinds = (KindA, KindB, KindC)
        self.resources = [
            Resource(kinds[idx % 3], f"{tag}-{idx if idx % 2 else 'x' + str(idx)}")
            for idx in range(count)
        ]
        self.index = {resource: idx for idx, resource in enumerate(self.resources)}
        self.by_name = {
            (resource.resource_type, resource.name): resource
            for resource in self.resources
        }
        self.serial = itertools.count(1)
        self.version = itertools.count(1)
        # resource -> spec most recently offered, while it is cached
        self.offered = {}
        self.busy = 0
        self.preparations = 0
        self.history = []
        self.log = []

    def preparer(self, kind):
        async def prepare(name, spec):
            resource = self.by_name[(kind, name)]
            self.busy += 1
            self.preparations += 1
            try:
                if resource not in self.offered and resource not in self.offering:
                    self.log.append(("prepared while deleted", self.index[resource]))
                await self.dawdle(spec, "before")
                saw = {dep: self.stamp(self.resources[dep]) for dep in spec["deps"]}
                await self.dawdle(spec, "after")
                stamp = next(self.serial)
                self.log.append(("prepared", self.index[resource], stamp, dict(saw)))
                if spec["fails"]:
                    return result.PermFail(message=f"failed {stamp} {spec['marker']}")
                made = {
                    "stamp": stamp,
                    "marker": spec["marker"],
                    "saw": saw,
                    "deps": [*spec["deps"]],
                }
                watched = [self.resources[dep] for dep in spec["deps"]]
                return (made, watched or None)
            finally:
                self.busy -= 1
                # What it was given is its own to modify.
                spec.clear()

        return prepare

    async def dawdle(self, spec, where):
        turns = spec["pace"].get(where, 0)
        for _ in range(turns):
            await asyncio.sleep(0)

    def stamp(self, resource):
        """What identifies the current state of a resource."""
        found = cache.get_resource_from_cache(resource.resource_type, resource.name)
        if found is None:
            return None
        if isinstance(found, dict):
            return found["stamp"]
        return found.message

    offering = frozenset()

    async def offer(self, idx, deps, fails=False, pace=None):
        resource = self.resources[idx]
        marker = next(self.serial)
        spec = {
            "marker": marker,
            "deps": sorted(deps),
            "fails": fails,
            "pace": pace or {},
        }
        self.history.append(("offer", idx, spec["deps"], fails, pace or {}))
        self.log.append(("offer", idx))
        self.offering = self.offering | {resource}
        self.offered[resource] = spec
        await cache.prepare_and_cache(
            resource_class=resource.resource_type,
            preparer=self.preparer(resource.resource_type),
            metadata={
                "name": resource.name,
                "resourceVersion": str(next(self.version)),
            },
            spec=spec,
        )
        self.offering = self.offering - {resource}

    async def delete(self, idx):
        resource = self.resources[idx]
        self.history.append(("delete", idx))
        self.log.append(("delete", idx))
        self.offered.pop(resource, None)
        await cache.delete_from_cache(resource.resource_type, resource.name)

    async def turns(self, count):
        if count:
            self.history.append(("turns", count))
        for _ in range(count):
            await asyncio.sleep(0)

    def witness(self):
        return {"history": self.history, "observed": self.log[-60:]}

    async def settle(self):
        """Run until nothing is being prepared any more."""
        quiet, total, seen = 0, 0, self.preparations
        while quiet < 12:
            await asyncio.sleep(0)
            total += 1
            if self.busy or self.preparations != seen:
                quiet, seen = 0, self.preparations
            else:
                quiet += 1
            self.rec.check(
                total < 5000,
                "the system never becomes idle: resources are prepared over and over",
                self.witness,
            )
        self.rec.count("settled")

    def check(self, when):
        rec = self.rec
        for resource in self.resources:
            idx = self.index[resource]
            found = cache.get_resource_from_cache(resource.resource_type, resource.name)
            spec = self.offered.get(resource)
            watching = set(registry.get_subscriptions(resource))
            if spec is None:
                rec.check(
                    found is None, f"{when}: deleted resource {idx} is cached", self.witness
                )
                rec.check(
                    not watching,
                    lambda: f"{when}: deleted resource {idx} still watches {watching}",
                    self.witness,
                )
                continue
            rec.count("entries_checked")
            rec.check(
                found is not None,
                f"{when}: resource {idx} was offered, but is not cached",
                self.witness,
            )
            if spec["fails"]:
                rec.check(
                    isinstance(found, result.PermFail)
                    and found.message.endswith(f" {spec['marker']}"),
                    lambda: f"{when}: resource {idx} should hold a failure, holds {found!r}",
                    self.witness,
                )
                rec.check(
                    not watching,
                    lambda: f"{when}: resource {idx} declares no dependencies, but "
                    f"watches {watching}",
                    self.witness,
                )
                continue
            rec.check(
                isinstance(found, dict) and found["marker"] == spec["marker"],
                lambda: f"{when}: resource {idx} was not prepared from its current spec "
                f"({spec['marker']}): {found!r}",
                self.witness,
            )
            wanted = {self.resources[dep] for dep in spec["deps"]}
            rec.check(
                watching == wanted,
                lambda: f"{when}: resource {idx} declares {spec['deps']}, but watches "
                f"{sorted(self.index.get(one, -1) for one in watching)}",
                self.witness,
            )
            current = {dep: self.stamp(self.resources[dep]) for dep in spec["deps"]}
            rec.check(
                found["saw"] == current,
                lambda: f"{when}: resource {idx} was built from {found['saw']}, but its "
                f"dependencies are {current} now",
                self.witness,
            )
            if any(
                self.resources[dep] in self.offered
                and self.offered[self.resources[dep]]["deps"]
                for dep in spec["deps"]
            ):
                rec.count("transitive")
        for resource in self.resources:
            watchers = set(registry.get_subscribers(resource))
            gone = [one for one in watchers if one not in self.offered]
            rec.check(
                not gone,
                lambda: f"{when}: {self.index[resource]} is watched by deleted resources",
                self.witness,
            )
        ghosts = [entry for entry in self.log if entry[0] == "prepared while deleted"]
        rec.check(
            not ghosts,
            lambda: f"{when}: a deleted resource was prepared: {ghosts}",
            self.witness,
        )
        watchers = [
            task for task in asyncio.all_tasks() if task is not asyncio.current_task()
        ]
        rec.check(
            len(watchers) <= len(self.offered),
            lambda: f"{when}: {len(watchers)} background tasks for {len(self.offered)} "
            "cached resources",
            self.witness,
        )

    async def finish(self):
        """Is everything still watched? Then take it all away."""
        rng = self.rng
        before = self.preparations
        for idx in rng.sample(range(len(self.resources)), len(self.resources)):
            resource = self.resources[idx]
            if resource in self.offered and self.offered[resource]["deps"]:
                continue
            if resource in self.offered and rng.random() < 0.3:
                await self.delete(idx)
            else:
                await self.offer(idx, ())
            if rng.random() < 0.7:
                await self.settle()
                self.check("after touching it once more")
        await self.settle()
        self.check("after touching everything once more")
        self.rec.count("background_preparations", max(0, self.preparations - before))
        for idx in rng.sample(range(len(self.resources)), len(self.resources)):
            await self.delete(idx)
            await asyncio.sleep(0)
        await self.settle()
        self.check("with everything deleted")


# --- histories ------------------------------------------------------------------


OPS = ("oA", "oB", "oC", "dA", "dB", "dC")
GRAPHS = {"chain": {"A": (), "B": (0,), "C": (1,)}, "fan": {"A": (), "B": (0,), "C": (0, 1)}}


def systematic(tier):
    """Every short history over three resources with every placement of turns."""
    length = 3
    gaps = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 6)
    for history in itertools.product(range(len(OPS)), repeat=length):
        yield "-".join(("fan", *map(str, history), ".".join(map(str, gaps))))
    if tier == "thorough":
        for history in itertools.product(range(len(OPS)), repeat=4):
            yield "-".join(("chain", *map(str, history), "0.1.2.3"))


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        graph, *ops, gaps = name[4:].split("-")
        gaps = [int(gap) for gap in gaps.split(".")]
        ops = [OPS[int(op)] for op in ops]
        for placement in itertools.product(gaps, repeat=len(ops) - 1):
            for start in (True, False) if tier == "thorough" else (True,):
                pace = rng.choice(({}, {}, {"before": 1}, {"after": 1}, {"after": 2}))
                vloop.run(lambda: _fixed(rng, rec, graph, ops, placement, start, pace))
        return
    roll = rng.random()
    if roll < 0.08:
        vloop.run(lambda: _real(rng, rec))
    elif roll < 0.25:
        vloop.run(lambda: _concurrent(rng, rec))
    elif roll < 0.35:
        vloop.run(lambda: _overlapping(rng, rec))
    else:
        vloop.run(lambda: _random(rng, rec))


async def _fixed(rng, rec, graph, ops, placement, start, pace):
    system = System(rng, rec, 3, pace)
    deps = {idx: GRAPHS[graph][name] for idx, name in enumerate("ABC")}
    if start:
        for idx in range(3):
            await system.offer(idx, deps[idx], pace=pace)
        await system.settle()
    base = system.preparations
    for op, gap in itertools.zip_longest(ops, placement, fillvalue=0):
        idx = "ABC".index(op[1])
        if op[0] == "o":
            await system.offer(idx, deps[idx], pace=pace)
        else:
            await system.delete(idx)
            rec.count("deletes")
        await system.turns(gap)
    await system.settle()
    system.check("when idle")
    rec.count("background_preparations", system.preparations - base)
    for first, second in zip(ops, ops[1:]):
        if first[0] == "d" and second == f"o{first[1]}":
            rec.count("delete_then_offer")
    for idx in range(3):
        await system.delete(idx)
    await system.settle()
    system.check("with everything deleted")
    rec.seen((graph, ops, placement, start, pace), {"ops": ops, "turns": placement})


def _pace(rng):
    roll = rng.random()
    if roll < 0.5:
        return {}
    return {
        "before": rng.choice((0, 0, 1, 2)),
        "after": rng.choice((0, 1, 2, 5)),
    }


def _deps(rng, idx):
    if not idx or rng.random() < 0.15:
        return ()
    return rng.sample(range(idx), min(idx, rng.choice((1, 1, 2, 3))))


async def _random(rng, rec):
    count = rng.choice((2, 3, 4, 5, 6)) if rng.random() < 0.97 else rng.choice((10, 16))
    system = System(rng, rec, count, None)
    deps = {idx: _deps(rng, idx) for idx in range(count)}
    order = list(range(count))
    if rng.random() < 0.5:
        rng.shuffle(order)
    for idx in order if rng.random() < 0.8 else ():
        await system.offer(idx, deps[idx], pace=_pace(rng))
        await system.turns(rng.choice((0, 0, 1, 2)))
    base = system.preparations
    operations = 0
    last_deleted = None
    for _ in range(rng.choice((3, 6, 12, 24))):
        idx = rng.randrange(count)
        if last_deleted is not None and rng.random() < 0.5:
            idx = last_deleted
        roll = rng.random()
        if roll < 0.65:
            if rng.random() < 0.2:
                deps[idx] = _deps(rng, idx)
            fails = rng.random() < 0.08
            was_busy = system.busy
            await system.offer(idx, deps[idx], fails, _pace(rng))
            if was_busy:
                rec.count("preparing_while_changed")
            if last_deleted == idx:
                rec.count("delete_then_offer")
            last_deleted = None
        else:
            if system.busy:
                rec.count("preparing_while_changed")
            await system.delete(idx)
            rec.count("deletes")
            last_deleted = idx
        operations += 1
        await system.turns(rng.choice((0, 0, 0, 1, 1, 2, 3, 5, 12)))
        if rng.random() < 0.1:
            await system.settle()
            system.check("when idle")
    await system.settle()
    system.check("when idle")
    rec.count("background_preparations", max(0, system.preparations - base - operations))
    await system.finish()
    rec.seen(system.history, {"history": system.history[:40]})


async def _concurrent(rng, rec):
    """Operations on different resources overlap."""
    count = rng.choice((2, 3, 4, 5, 8))
    system = System(rng, rec, count, None)
    deps = {idx: _deps(rng, idx) for idx in range(count)}

    async def drive(idx):
        for _ in range(rng.choice((1, 2, 4, 6))):
            for _ in range(rng.choice((0, 1, 1, 2, 4))):
                await asyncio.sleep(0)
            if rng.random() < 0.7:
                if rng.random() < 0.15:
                    deps[idx] = _deps(rng, idx)
                await system.offer(idx, deps[idx], rng.random() < 0.05, _pace(rng))
            else:
                await system.delete(idx)
                rec.count("deletes")

    base = system.preparations
    tasks = [asyncio.create_task(drive(idx)) for idx in range(count)]
    await asyncio.gather(*tasks)
    await system.settle()
    system.check("when idle")
    rec.count("background_preparations", max(0, system.preparations - base - 2 * count))
    rec.count("concurrent")
    await system.finish()
    rec.seen(system.history, {"history": system.history[:40]})


async def _overlapping(rng, rec):
    """Operations are started without awaiting those before them. These preparers, as
    those of the real kinds, do not suspend; the last operation started counts."""
    count = rng.choice((1, 2, 3, 4, 6))
    system = System(rng, rec, count, None)
    deps = {idx: _deps(rng, idx) for idx in range(count)}
    for idx in range(count) if rng.random() < 0.5 else ():
        await system.offer(idx, deps[idx])
    base = system.preparations
    started = 0
    for _ in range(rng.choice((1, 2, 4))):
        tasks = []
        for _ in range(rng.choice((2, 3, 5, 9))):
            idx = rng.randrange(count)
            if rng.random() < 0.75:
                if rng.random() < 0.15:
                    deps[idx] = _deps(rng, idx)
                operation = system.offer(idx, deps[idx], rng.random() < 0.05)
            else:
                operation = system.delete(idx)
                rec.count("deletes")
            tasks.append(asyncio.create_task(operation))
            started += 1
            if rng.random() < 0.2:
                await asyncio.sleep(0)
        await asyncio.gather(*tasks)
        if rng.random() < 0.7:
            await system.settle()
            system.check("when idle")
    await system.settle()
    system.check("when idle")
    rec.count("background_preparations", max(0, system.preparations - base - started))
    rec.count("overlapping")
    await system.finish()
    rec.seen(("overlapping", *system.history), {"history": system.history[:40]})


# --- real definitions ---------------------------------------------------------------


OWNER = ("ns-a", rf.OWNER_REF)


class Real:
    """Value- and ResourceFunctions, nested Workflows and a FunctionTest; what is
    cached is judged by what it does."""

    def __init__(self):
        tag = defs.unique("c16r")
        self.names = {
            part: f"{tag}-{part}" for part in ("vf", "over", "rf", "inner", "outer", "ft", "tpl")
        }
        self.version = itertools.count(1)
        self.now = {}
        self.history = []

    # Definitions of each kind which can not be prepared.
    BROKEN = {
        "ValueFunction": (
            {"return": {"n": "=1 +"}},
            {"return": "not a map"},
            {"preconditions": [{"assert": "=true"}]},
        ),
        "ResourceFunction": (
            {"apiConfig": {"apiVersion": "v1"}},
            {"apiConfig": {"apiVersion": "v1", "kind": "A", "name": "=a b"}, "resource": {}},
        ),
        "Workflow": ({"steps": []}, {}, {"steps": [{"label": "call"}]}),
        "FunctionTest": ({}, {"functionRef": {"kind": "Other", "name": "x"}}),
    }

    def spec(self, part, number):
        names = self.names
        if isinstance(number, dict):
            return number
        config = {
            "apiVersion": "kmon.test/v1",
            "kind": "Widget",
            "plural": "widgets",
            "name": "thing",
            "namespace": "ns-a",
        }
        match part:
            case "vf":
                return {"return": {"n": f"=inputs.x + {number}"}}
            case "over":
                return {"return": {"spec": {"over": number}}}
            case "rf":
                return {
                    "apiConfig": config,
                    "resource": {"spec": {"rf": number}},
                    "overlays": [
                        {"overlayRef": {"kind": "ValueFunction", "name": names["over"]}}
                    ],
                }
            case "inner":
                return {
                    "steps": [
                        {
                            "label": "call",
                            "ref": {"kind": "ValueFunction", "name": names["vf"]},
                            "inputs": {"x": "=parent.x"},
                            "state": {"inner": number, "n": "=value.n"},
                        }
                    ]
                }
            case "outer":
                return {
                    "steps": [
                        {
                            "label": "nested",
                            "ref": {"kind": "Workflow", "name": names["inner"]},
                            "inputs": {"x": "=parent.x"},
                            "state": {"outer": number, "nested": "=value"},
                        },
                        {
                            "label": "switched",
                            "refSwitch": {
                                "switchOn": "='yes'",
                                "cases": [
                                    {"case": "no", "kind": "ResourceFunction", "name": names["rf"]},
                                    {"case": "yes", "kind": "ValueFunction", "name": names["vf"]},
                                ],
                            },
                            "inputs": {"x": "=parent.x"},
                            "state": {"switched": "=value.n"},
                        },
                    ]
                }
            case "ft":
                return {
                    "functionRef": {"kind": "ValueFunction", "name": names["vf"]},
                    "inputs": {"x": 1000},
                    "testCases": [{"expectReturn": {"n": 1000 + number}}],
                }

    KIND = {
        "vf": "ValueFunction",
        "over": "ValueFunction",
        "rf": "ResourceFunction",
        "inner": "Workflow",
        "outer": "Workflow",
        "ft": "FunctionTest",
    }

    def get(self, part):
        kind = self.KIND[part]
        return cache.get_resource_from_cache(defs.KINDS[kind][0], self.names[part])

    async def offer(self, part, number):
        self.history.append(("offer", part, number))
        self.now[part] = number
        if isinstance(number, dict):
            # cached as a failure: as good as not there
            del self.now[part]
        await defs.install(
            self.KIND[part],
            self.names[part],
            self.spec(part, number),
            str(next(self.version)),
        )

    async def delete(self, part):
        self.history.append(("delete", part))
        self.now.pop(part, None)
        await defs.uninstall(self.KIND[part], self.names[part])

    async def check(self, rec):
        now = self.now
        witness = lambda: {"history": self.history, "current": now}  # noqa: E731
        rec.count("real_definitions")
        for part in ("inner", "outer"):
            if part not in now:
                continue
            run = await defs.run_workflow(
                self.get(part), Cluster(), {"x": 5000}, copy.deepcopy(OWNER)
            )
            ready = "vf" in now and (part == "inner" or "inner" in now)
            if part == "outer":
                ready = ready and "rf" in now
            if not ready:
                rec.check(
                    run.outcome.cls != "Ok",
                    lambda: f"Workflow {part} names what is not there, but is {run.outcome.brief()}",
                    witness,
                )
                continue
            inner = {"inner": now.get("inner"), "n": 5000 + now["vf"]}
            expected = (
                inner
                if part == "inner"
                else {
                    "outer": now["outer"],
                    "nested": inner,
                    "switched": 5000 + now["vf"],
                }
            )
            rec.check(
                run.outcome.cls == "Ok" and run.state == expected,
                lambda: f"Workflow {part} is stale: state {run.state} "
                f"({run.outcome.brief()}), expected {expected}",
                witness,
            )
        if "rf" in now:
            cluster = Cluster()
            found = self.get("rf")
            if isinstance(found, defs.KINDS["ResourceFunction"][0]):
                out, _ = await defs.run_rf(found, cluster, {}, copy.deepcopy(OWNER))
                sent = [plain(request.payload) for request in cluster.mutations]
                described = (out.brief(), sent)
                body = sent[0].get("spec") if sent else None
            else:
                described, body = found, None
            expected = {"rf": now["rf"], "over": now["over"]} if "over" in now else None
            rec.check(
                body == expected,
                lambda: f"the ResourceFunction is stale: {described}, expected {expected}",
                witness,
            )
        if "ft" in now:
            found = self.get("ft")
            from koreo.function_test.run import run_function_test

            if isinstance(found, defs.KINDS["FunctionTest"][0]):
                ran = await run_function_test(location="kmon", function_test=found)
                results = ran.test_results
                passed = bool(results) and all(one.test_pass for one in results)
            else:
                passed = None
            if "vf" not in now:
                rec.check(
                    not passed, "a FunctionTest passes without its function", witness
                )
            else:
                expected = now["vf"] == now["ft"]
                rec.check(
                    passed is expected,
                    lambda: f"the FunctionTest is stale: passed {passed}, expected {expected}",
                    witness,
                )


async def _real(rng, rec):
    real = Real()
    parts = list(Real.KIND)
    rng.shuffle(parts)
    count = itertools.count(1)

    def number(part):
        if rng.random() < 0.15:
            rec.count("unpreparable_definitions")
            return rng.choice(Real.BROKEN[Real.KIND[part]])
        return next(count) % 3

    for part in parts:
        if rng.random() < 0.9:
            await real.offer(part, number(part))
        for _ in range(rng.choice((0, 1, 3))):
            await asyncio.sleep(0)
    for _ in range(rng.choice((2, 4, 8, 12))):
        part = rng.choice(parts)
        if rng.random() < 0.7 or part not in real.now:
            await real.offer(part, number(part))
        else:
            await real.delete(part)
            if rng.random() < 0.5:
                for _ in range(rng.choice((0, 1, 2))):
                    await asyncio.sleep(0)
                await real.offer(part, number(part))
        for _ in range(rng.choice((0, 0, 1, 2, 5))):
            await asyncio.sleep(0)
        if rng.random() < 0.5:
            for _ in range(60):
                await asyncio.sleep(0)
            await real.check(rec)
    for _ in range(60):
        await asyncio.sleep(0)
    await real.check(rec)
    for part in parts:
        await real.delete(part)
    rec.seen(real.history, {"history": real.history})
