"""C15: the cache agrees with a map keyed by (kind, name) after every operation."""

import asyncio
import copy
import itertools

from koreo import cache, registry, result

from kmon import defs, vloop
from kmon.values import plain

ID = "C15"
LEVEL = "exploration"
RULE = (
    "a distinct history of offers, guarded and unguarded deletes over several kinds and "
    "names, compared with a map model after every operation"
)
CASES = {"quick": 24000, "thorough": 400000}
REQUIRED = {
    "prepared": 5000,
    "reused": 1000,
    "failed_preparations": 800,
    "lookups": 20000,
    "deletes": 1000,
    "stale_deletes": 500,
    "offers_after_delete": 800,
    "older_versions": 800,
    "real_definitions": 300,
    "background_preparations": 100,
    "bursts": 100,
}
ASSUMPTIONS = (
    "operations are awaited one after the other (re-preparations run in the background) "
    "unless the preparer does not suspend, as those of the real kinds",
    "`delete_resource_from_cache` is only given the cached version: whether it is a "
    "delete which names a version is not specified",
)


class KindA: ...


class KindB: ...


class KindC: ...


KINDS = (KindA, KindB, KindC)

FAILURES = (
    lambda text: result.PermFail(message=text),
    lambda text: result.Retry(message=text, delay=7),
    lambda text: result.Skip(message=text),
    lambda text: result.DepSkip(message=text),
)


class Entry:
    def __init__(self, version, spec, outcome, system):
        self.version, self.spec = version, spec
        self.outcome, self.system = outcome, system


class Model:
    def __init__(self):
        self.entries = {}
        self.deleted = set()
        self.versions = {}


def same(expected, got):
    """The very result: identical, or an equal outcome."""
    if expected is got:
        return True
    if isinstance(expected, NON_OK):
        return type(expected) is type(got) and (
            expected.message == got.message and expected.location == got.location
        )
    return False


NON_OK = (result.PermFail, result.Retry, result.Skip, result.DepSkip)


def systematic(tier):
    """Every sequence over one name."""
    ops = "abcxyDEF"
    length = 4 if tier == "quick" else 5
    for size in range(1, length + 1):
        for sequence in itertools.product(ops, repeat=size):
            yield "".join(sequence)


SYSTEMATIC = {
    "a": ("offer", "1", "s", False),
    "b": ("offer", "2", "s", False),
    "c": ("offer", "1", "other", False),
    "x": ("offer", "1", "s", True),
    "y": ("offer", "2", "t", True),
    "D": ("delete", None),
    "E": ("delete", "1"),
    "F": ("delete", "2"),
}


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        history = [(KindA, "n", *SYSTEMATIC[op]) for op in name[4:]]
        prefix = defs.unique("c15")
        vloop.run(lambda: _run(rng, rec, history, prefix, short=True))
        return
    roll = rng.random()
    if roll < 0.2:
        vloop.run(lambda: _real(rng, rec))
    elif roll < 0.35:
        vloop.run(lambda: _background(rng, rec))
    elif roll < 0.42:
        vloop.run(lambda: _burst(rng, rec))
    else:
        history = _history(rng)
        prefix = defs.unique("c15")
        vloop.run(lambda: _run(rng, rec, history, prefix))


VERSIONS = ("1", "2", "3", "10", "9", "02", "1.0", "v1", "100200", "a", "A", " 1")


def _history(rng):
    kinds = rng.sample(KINDS, rng.randint(1, 3))
    names = rng.sample(("n", "m", "n.m", "N", "n-1", "n-10"), rng.randint(1, 4))
    versions = rng.sample(VERSIONS, rng.randint(2, 5))
    history = []
    for _ in range(rng.choice((5, 10, 20, 40))):
        kind, name = rng.choice(kinds), rng.choice(names)
        roll = rng.random()
        if roll < 0.65:
            history.append(
                (
                    kind,
                    name,
                    "offer",
                    rng.choice(versions),
                    rng.choice(("s", "t", "u")),
                    rng.random() < 0.25,
                )
            )
        elif roll < 0.75:
            history.append((kind, name, "delete", None))
        elif roll < 0.8:
            history.append((kind, name, "delete_resource", None))
        else:
            history.append((kind, name, "delete", rng.choice(versions)))
    return history


def _spec(rng, marker):
    return rng.choice(
        (
            {"marker": marker},
            {"marker": marker, "deep": {"list": [1, {"k": marker}]}},
            {"marker": marker, "empty": {}, "none": None},
        )
    )


async def _offer(rng, rec, model, history, kind, name, version, marker, fails):
    key = (kind, name)
    serial = next(_serial)
    calls = []
    spec = _spec(rng, marker)
    given = copy.deepcopy(spec)
    if fails:
        produced = rng.choice(FAILURES)(f"failed {serial}")
        returned = produced
    else:
        produced = rng.choice(
            (
                {"serial": serial},
                [serial],
                f"resource {serial}",
                [],
                {},
                _Prepared(serial),
            )
        )
        returned = (produced, rng.choice((None, [], ())))

    async def preparer(cache_key, spec):
        calls.append((cache_key, copy.deepcopy(spec)))
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice((0, 0.1)))
        if rng.random() < 0.2:
            spec["marker"] = "mutated"
            spec.setdefault("deep", {})["x"] = 1
        return returned

    metadata = {"name": name, "resourceVersion": version}
    if rng.random() < 0.3:
        metadata |= {"generation": 3, "labels": {"a": "b"}, "uid": str(serial)}
    system = {"serial": serial} if rng.random() < 0.5 else None
    arguments = {"_system_data": system} if system else {}
    got = await cache.prepare_and_cache(
        resource_class=kind,
        preparer=preparer,
        metadata=metadata,
        spec=given,
        **arguments,
    )
    witness = lambda: {  # noqa: E731
        "history": history,
        "offer": [kind.__name__, name, version],
        "returned": got,
        "preparations": calls,
    }
    entry = model.entries.get(key)
    if entry and entry.version == version:
        rec.check(
            not calls,
            f"{name} {version} is cached, but was prepared again",
            witness,
        )
        rec.check(
            same(entry.outcome, got),
            lambda: f"{name} {version} is cached as {entry.outcome!r}, the offer "
            f"returned {got!r}",
            witness,
        )
        rec.count("reused")
        return
    rec.check(
        len(calls) == 1,
        lambda: f"{name} {version} is not cached (cached: "
        f"{entry.version if entry else None}); prepared {len(calls)} times",
        witness,
    )
    rec.check(
        calls[0][0] == name and calls[0][1] == spec,
        lambda: f"the preparer was given {calls[0]!r}, not ({name!r}, {spec!r})",
        witness,
    )
    rec.check(
        same(produced, got),
        lambda: f"offering {name} {version} returned {got!r}, not {produced!r}",
        witness,
    )
    if key in model.deleted:
        rec.count("offers_after_delete")
        model.deleted.discard(key)
    if version in model.versions.setdefault(key, []):
        rec.count("older_versions")
    model.versions[key].append(version)
    model.entries[key] = Entry(version, spec, produced, system)
    rec.count("prepared")
    if fails:
        rec.count("failed_preparations")


class _Prepared:
    def __init__(self, serial):
        self.serial = serial

    def __repr__(self):
        return f"<prepared {self.serial}>"


_serial = itertools.count(1)


def _lookups(rec, model, history, keys):
    for kind, name in keys:
        entry = model.entries.get((kind, name))
        got = cache.get_resource_from_cache(kind, name)
        data = cache.get_resource_system_data_from_cache(kind, name)
        witness = lambda: {  # noqa: E731
            "history": history,
            "lookup": [kind.__name__, name],
            "found": got,
            "system": data,
        }
        rec.count("lookups")
        if entry is None:
            rec.check(
                got is None and data is None,
                f"{name} is not cached, but {got!r} was found",
                witness,
            )
            continue
        rec.check(
            same(entry.outcome, got),
            lambda: f"{name} is cached at {entry.version} as {entry.outcome!r}, the "
            f"lookup found {got!r}",
            witness,
        )
        rec.check(
            data is not None
            and data.resource_version == entry.version
            and same(entry.outcome, data.resource)
            and data.spec == entry.spec
            and data.system_data == entry.system,
            lambda: f"{name} is cached at {entry.version}; its system data is {data!r}",
            witness,
        )


async def _run(rng, rec, history, prefix, short=False):
    model = Model()
    history = [(kind, f"{prefix}-{name}", *rest) for kind, name, *rest in history]
    shown = [(op[0].__name__, *op[1:]) for op in history]
    keys = sorted({op[:2] for op in history}, key=lambda key: (key[0].__name__, key[1]))
    if not short:
        keys += [(kind, key[1]) for key in keys[:2] for kind in KINDS if (kind, key[1]) not in keys]
    done = []
    for step, (kind, name, op, *arguments) in zip(shown, history):
        done.append(step)
        if op == "offer":
            version, marker, fails = arguments
            await _offer(rng, rec, model, done, kind, name, version, marker, fails)
        else:
            await _delete(rec, model, kind, name, op, arguments[0])
        if not short and rng.random() < 0.3:
            await asyncio.sleep(0)
        _lookups(rec, model, done, keys)
    for kind, name in keys:
        await cache.delete_from_cache(kind, name)
        model.entries.pop((kind, name), None)
    _lookups(rec, model, done, keys)
    rec.seen(
        [(op[0], op[1].removeprefix(prefix), *op[2:]) for op in shown],
        {"history": shown},
    )


async def _delete(rec, model, kind, name, op, version):
    key = (kind, name)
    entry = model.entries.get(key)
    if op == "delete_resource":
        metadata = {"name": name, "resourceVersion": entry.version if entry else "1"}
        await cache.delete_resource_from_cache(resource_class=kind, metadata=metadata)
    elif version is None:
        await cache.delete_from_cache(resource_class=kind, cache_key=name)
    else:
        await cache.delete_from_cache(
            resource_class=kind, cache_key=name, version=version
        )
    if entry is None:
        rec.count("deletes_of_nothing")
    elif version is None or version == entry.version:
        del model.entries[key]
        model.deleted.add(key)
        rec.count("deletes")
    else:
        rec.count("stale_deletes")


# --- definitions ----------------------------------------------------------------


async def _real(rng, rec):
    """Real ValueFunctions; what a lookup finds is told from what it computes."""
    names = [defs.unique("c15") for _ in range(rng.randint(1, 3))]
    model = {}
    history = []
    for idx in range(rng.choice((4, 8, 16))):
        name = rng.choice(names)
        roll = rng.random()
        if roll < 0.75:
            version = str(rng.randint(1, 4))
            good = rng.random() < 0.75
            spec = (
                {"return": {"made": f"=inputs.n + {idx}"}}
                if good
                else rng.choice(
                    (
                        {"return": {"made": "=1 +"}},
                        {"return": 3},
                        {"preconditions": [{"assert": "=("}], "return": {"a": 1}},
                        {},
                    )[:3]
                )
            )
            history.append(("offer", name, version, spec))
            got = await defs.install("ValueFunction", name, spec, version)
            if model.get(name, (None,))[0] != version:
                model[name] = (version, idx if good else None)
        elif roll < 0.88:
            history.append(("delete", name))
            await defs.uninstall("ValueFunction", name)
            model.pop(name, None)
            got = None
        else:
            version = str(rng.randint(1, 4))
            history.append(("delete", name, version))
            await cache.delete_from_cache(
                defs.KINDS["ValueFunction"][0], name, version
            )
            if model.get(name, (None,))[0] == version:
                model.pop(name)
            got = None
        for name in names:
            found = cache.get_resource_from_cache(defs.KINDS["ValueFunction"][0], name)
            witness = lambda: {"history": history, "lookup": name, "found": found}  # noqa: E731
            rec.count("lookups")
            if name not in model:
                rec.check(found is None, f"{name} should not be cached", witness)
                continue
            version, made = model[name]
            if made is None:
                rec.check(
                    isinstance(found, result.PermFail),
                    f"{name} {version} could not be prepared; the lookup found {found!r}",
                    witness,
                )
                continue
            rec.check(
                isinstance(found, defs.KINDS["ValueFunction"][0]),
                f"{name} {version} was prepared; the lookup found {found!r}",
                witness,
            )
            out = await defs.run_vf(found, {"n": 1000})
            rec.check(
                out.cls == "Ok" and plain(out.value) == {"made": 1000 + made},
                lambda: f"{name} {version} was made by operation {made}; what the "
                f"lookup found computes {out.brief()}",
                witness,
            )
            rec.count("real_definitions")
    for name in names:
        await defs.uninstall("ValueFunction", name)
    rec.seen(
        [(op[0], names.index(op[1]), *map(repr, op[2:])) for op in history],
        {"history": history},
    )


# --- with re-preparations going on ------------------------------------------------


async def _background(rng, rec):
    """Dependents prepared again in the background never bring an older version (or
    a deleted entry) back, however slow their preparers are."""
    prefix = defs.unique("c15")
    base = registry.Resource(resource_type=KindB, name=f"{prefix}-base")
    name = f"{prefix}-dependent"
    slow = rng.choice((0, 1, 2, 3, 5))
    history = []
    offered = {}
    prepared = []

    async def prepare_base(cache_key, spec):
        return ({"base": spec["marker"]}, None)

    async def prepare_dependent(cache_key, spec):
        marker = spec["marker"]
        for _ in range(rng.randint(0, slow)):
            await asyncio.sleep(0)
        prepared.append(marker)
        if spec["fails"]:
            return result.PermFail(message=f"failed {marker}")
        return ({"dependent": marker}, [base])

    def check(when):
        found = cache.get_resource_from_cache(KindA, name)
        rec.count("lookups")
        expected = offered.get(name)
        if expected is None:
            ok = found is None
        elif expected[1]:
            ok = isinstance(found, result.PermFail) and found.message == f"failed {expected[0]}"
        else:
            ok = isinstance(found, dict) and found == {"dependent": expected[0]}
        rec.check(
            ok,
            lambda: f"{when}: most recently offered: {expected}, the lookup found {found!r}",
            lambda: {"history": history, "prepared": prepared},
        )

    current = {}
    for idx in range(rng.choice((6, 12, 24))):
        roll = rng.random()
        if roll < 0.4:
            history.append(("offer base", idx))
            await cache.prepare_and_cache(
                KindB,
                prepare_base,
                {"name": base.name, "resourceVersion": str(idx)},
                {"marker": idx},
            )
        elif roll < 0.8:
            version = str(rng.randint(1, 3)) if rng.random() < 0.5 else f"v{idx}"
            fails = rng.random() < 0.15
            history.append(("offer dependent", idx, version, fails))
            before = len(prepared)
            await cache.prepare_and_cache(
                KindA,
                prepare_dependent,
                {"name": name, "resourceVersion": version},
                {"marker": idx, "fails": fails},
            )
            if current.get(name) != version:
                offered[name] = (idx, fails)
                current[name] = version
                rec.check(
                    idx in prepared[before:],
                    f"version {version} was offered, but not prepared",
                    lambda: {"history": history, "prepared": prepared},
                )
            else:
                rec.check(
                    idx not in prepared[before:],
                    f"version {version} is cached, but was prepared again",
                    lambda: {"history": history, "prepared": prepared},
                )
        elif roll < 0.9:
            version = rng.choice((None, "1", "2", current.get(name)))
            history.append(("delete dependent", version))
            await cache.delete_from_cache(KindA, name, version)
            if version is None or version == current.get(name):
                offered.pop(name, None)
                current.pop(name, None)
        else:
            history.append(("delete base",))
            await cache.delete_from_cache(KindB, base.name)
        check("straight after")
        for turn in range(rng.choice((0, 0, 1, 2, 3, 8))):
            await asyncio.sleep(0)
            check(f"{turn + 1} turns after")
    for _ in range(40):
        await asyncio.sleep(0)
        check("when idle")
    offers = sum(1 for op in history if op[0] == "offer dependent")
    rec.count("background_preparations", max(0, len(prepared) - offers))
    await cache.delete_from_cache(KindA, name)
    await cache.delete_from_cache(KindB, base.name)
    rec.seen(history, {"history": history, "prepared": prepared})


# --- overlapping operations ---------------------------------------------------------


async def _burst(rng, rec):
    """Operations are started without awaiting those before them. These preparers, as
    those of the real kinds, do not suspend: the last offer started is the latest."""
    prefix = defs.unique("c15")
    names = [f"{prefix}-{idx}" for idx in range(rng.choice((1, 1, 2)))]
    model = {}
    history = []

    def preparer(serial, fails):
        async def prepare(cache_key, spec):
            if fails:
                return result.PermFail(message=f"failed {serial}")
            return ({"serial": serial}, None)

        return prepare

    for _ in range(rng.choice((1, 2, 3))):
        tasks = []
        for _ in range(rng.choice((2, 3, 5, 9))):
            name = rng.choice(names)
            version = str(rng.randint(1, 5))
            held = model.get(name)
            if rng.random() < 0.75:
                serial = next(_serial)
                fails = rng.random() < 0.2
                history.append(("offer", names.index(name), version, fails))
                if held is None or held[0] != version:
                    model[name] = (version, serial, fails)
                operation = cache.prepare_and_cache(
                    KindA,
                    preparer(serial, fails),
                    {"name": name, "resourceVersion": version},
                    {"serial": serial},
                )
            else:
                version = rng.choice((None, None, version))
                history.append(("delete", names.index(name), version))
                if held is not None and version in (None, held[0]):
                    del model[name]
                operation = cache.delete_from_cache(KindA, name, version)
            tasks.append(asyncio.create_task(operation))
            if rng.random() < 0.2:
                history.append("turn")
                await asyncio.sleep(0)
        await asyncio.gather(*tasks)
        history.append("done")
        for name in names:
            held = model.get(name)
            found = cache.get_resource_from_cache(KindA, name)
            rec.count("lookups")
            if held is None:
                ok = found is None
            elif held[2]:
                ok = (
                    isinstance(found, result.PermFail)
                    and found.message == f"failed {held[1]}"
                )
            else:
                ok = found == {"serial": held[1]}
            rec.check(
                ok,
                lambda: f"once every operation is done the lookup of "
                f"{names.index(name)} found {found!r}; the latest is {held}",
                lambda: {"history": history},
            )
    rec.count("bursts")
    for name in names:
        await cache.delete_from_cache(KindA, name)
    rec.seen(("burst", *history), {"history": history})
