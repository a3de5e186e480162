"""C17: the subscription registry agrees with a graph model after every operation."""

import asyncio
import itertools

from koreo import registry
from koreo.registry import Resource

from kmon import defs, vloop

ID = "C17"
LEVEL = "exploration"
RULE = (
    "a distinct sequence of registry operations (with what was waiting on the queues), "
    "compared with a graph model and exact per-queue deliveries after every operation"
)
CASES = {"quick": 100000, "thorough": 1500000}
REQUIRED = {
    "operations": 60000,
    "delivered": 5000,
    "cycles_refused": 1500,
    "notified_killed": 300,
    "notified_deregistered": 300,
    "killed": 1000,
    "deregistered": 1500,
    "released_get": 100,
    "released_join": 100,
    "rejected_only_to": 300,
    "unsubscribe_redundant": 200,
    "large": 300,
    "piled_up": 1000,
    "unobserved": 20000,
}
ASSUMPTIONS = (
    "whether a full bounded queue receives a notification is not specified",
    "`join` is expected to be released by deregister when no consumer holds an event",
    "unsubscribing what is not subscribed may raise KeyError, it must change nothing",
)


class KindA: ...


class KindB: ...


class _Recording:
    """A queue whose deliveries are recorded."""

    def _put(self, item):
        if not hasattr(self, "arrived"):
            self.arrived = []
        self.arrived.append(item)
        super()._put(item)


class Lifo(_Recording, asyncio.LifoQueue): ...


class Fifo(_Recording, asyncio.Queue): ...


def universe(tag, count=0):
    return (
        Resource(KindA, f"{tag}-a"),
        Resource(KindB, f"{tag}-a"),
        Resource(KindA, f"{tag}-b"),
        Resource(KindA, f"{tag}-a", "ns"),
        Resource(KindB, f"{tag}-b"),
        *(Resource((KindA, KindB)[idx % 2], f"{tag}-{idx}") for idx in range(5, count)),
    )


class Model:
    def __init__(self, resources):
        self.resources = resources
        self.follows = {resource: set() for resource in resources}
        self.queues = {}
        self.live = set()
        self.ever_killed = set()
        self.consumed = {}

    def followers(self, resource):
        return {one for one in self.resources if resource in self.follows[one]}

    def reaches(self, starts, goal):
        seen, todo = set(), list(starts)
        while todo:
            one = todo.pop()
            if one == goal:
                return True
            if one not in seen:
                seen.add(one)
                todo.extend(self.follows[one])
        return False


def _operations(count):
    """Every operation over `count` resources, as (op, *indices)."""
    indices = range(count)
    operations = []
    for one in indices:
        operations += [("register", one), ("notify", one), ("kill", one), ("deregister", one)]
        others = [other for other in indices if other != one]
        for other in indices:
            operations.append(("subscribe", one, other))
        for other in others:
            operations.append(("unsubscribe", one, other))
        for size in range(len(others) + 1):
            for chosen in itertools.combinations(others, size):
                operations.append(("only", one, chosen))
        operations.append(("only", one, (others[0], one)))
    return operations


STARTS = (
    (),
    (("register", 0), ("register", 1), ("register", 2)),
    (
        ("register", 0), ("register", 1), ("register", 2),
        ("subscribe", 0, 1), ("subscribe", 1, 2),
    ),
    (
        ("register", 0), ("register", 1), ("register", 2),
        ("only", 0, (1, 2)), ("kill", 0),
    ),
    (
        ("register", 0), ("register", 1),
        ("only", 0, (2,)), ("only", 1, (2,)), ("notify", 2), ("kill", 1),
    ),
)  # fmt: skip
OPS3 = _operations(3)


def systematic(tier):
    """Every short sequence of operations from each starting state."""
    # Two operations exhaustively (three in the thorough tier, batched by prefix).
    for start in range(len(STARTS)):
        for first in range(len(OPS3)):
            if tier == "quick":
                yield f"{start}-{first}"
            else:
                for second in range(len(OPS3)):
                    yield f"{start}-{first}-{second}"


def case(rng, rec, name, tier):
    if name.startswith("sys:"):
        start, *prefix = map(int, name[4:].split("-"))
        sequence = [*STARTS[start], *(OPS3[idx] for idx in prefix)]
        for last in OPS3:
            _run_plain(rng, rec, 3, [*sequence, last])
        return
    if rng.random() < 0.4:
        vloop.run(lambda: _waiting(rng, rec))
    elif rng.random() < 0.03:
        count = rng.choice((8, 12, 20, 40))
        rec.count("large")
        _run_plain(
            rng, rec, count, _large(rng, count), rng.random() < 0.3, rng.random() < 0.5
        )
    else:
        count = rng.choice((2, 3, 4, 5))
        operations = _operations(count)
        _run_plain(
            rng,
            rec,
            count,
            _sequence(rng, operations),
            rng.random() < 0.5,
            rng.random() < 0.3,
        )


def _sequence(rng, operations):
    by_op = {}
    for operation in operations:
        by_op.setdefault(operation[0], []).append(operation)
    weights = {
        "register": 3, "subscribe": 4, "only": 3, "unsubscribe": 2, "notify": 4,
        "kill": 1, "deregister": 1.5,
    }  # fmt: skip
    names = list(weights)
    length = rng.choice((4, 8, 16, 40))
    sequence = [
        rng.choice(by_op[rng.choices(names, weights.values())[0]]) for _ in range(length)
    ]
    if rng.random() < 0.3:
        sequence = [item for item in sequence for _ in range(rng.choice((1, 1, 2)))]
    return sequence


def _large(rng, count):
    """Long chains, layers, hubs; then edges which may close a (long) cycle."""
    order = list(range(count))
    rng.shuffle(order)
    sequence = [("register", one) for one in order if rng.random() < 0.8]
    shape = rng.choice(("chain", "layers", "hub", "random"))
    for place, one in enumerate(order[:-1]):
        later = order[place + 1 :]
        if shape == "chain":
            sequence.append(("subscribe", one, later[0]))
        elif shape == "layers":
            sequence.append(("only", one, tuple(later[: rng.randint(1, 3)])))
        elif shape == "hub":
            sequence.append(("subscribe", one, order[-1]))
        else:
            chosen = rng.sample(later, min(len(later), rng.randint(0, 6)))
            sequence.append(("only", one, tuple(chosen)))
    if rng.random() < 0.5:
        head = sequence[: rng.randint(0, len(sequence))]
        rng.shuffle(head)
        sequence[: len(head)] = head
    sequence.append(("subscribe", order[-1], order[0]))
    sequence.append(("only", order[-1], (order[0],)))
    for _ in range(rng.choice((4, 10, 20))):
        one = rng.randrange(count)
        others = [other for other in range(count) if other != one]
        op = rng.choice(
            "subscribe subscribe only only unsubscribe notify notify notify kill "
            "deregister register".split()
        )
        match op:
            case "subscribe" | "unsubscribe":
                sequence.append((op, one, rng.choice(others)))
            case "only":
                chosen = rng.sample(others, rng.choice((0, 1, 2, count // 2, count - 1)))
                sequence.append((op, one, tuple(chosen)))
            case _:
                sequence.append((op, rng.choice((one, order[-1]))))
    return sequence


class Run:
    def __init__(self, rng, rec, count, own_queues, lazy=False):
        self.rng, self.rec = rng, rec
        self.resources = universe(defs.unique("c17"), count)[:count]
        self.model = Model(self.resources)
        self.own_queues = own_queues
        self.history = []
        self.clock = 100.0
        self.bounded = set()
        self.lazy = lazy
        # Looking at the views might leave traces (such as entries for resources
        # nothing was known of), so they are looked at rarely in some runs.
        self.look = rng.choice((1.0, 0.1, 0.0))
        self.pending = {}
        self.room = {}

    def witness(self):
        return {"history": self.history}

    def queue(self, rng):
        roll = rng.random()
        if roll < 0.1:
            return rng.choice((Lifo, Fifo))(maxsize=rng.randint(1, 2))
        return rng.choice((Lifo, Fifo))()

    def drain(self, queue):
        """Everything which arrived since the last time."""
        if isinstance(queue, _Recording):
            arrived = getattr(queue, "arrived", [])
            queue.arrived = []
            return arrived
        arrived = []
        while True:
            try:
                arrived.append(queue.get_nowait())
                queue.task_done()
            except (asyncio.QueueEmpty, asyncio.QueueShutDown):
                return arrived

    def events(self, queue):
        """Registry events which arrived (a kill is not a notification)."""
        found = []
        for item in self.drain(queue):
            if isinstance(item, registry.Kill):
                continue
            resource, event_time = item
            found.append((resource, event_time))
        return found

    def apply(self, operation):
        rng, rec, model = self.rng, self.rec, self.model
        op, one, *rest = operation
        resource = self.resources[one]
        self.history.append(operation)
        self.clock += 1.0
        rec.count("operations")
        raised = None
        # resource which notifies, its event time (None: any), and whether it must.
        expected = None
        followers_before = model.followers(resource)
        registered = resource in model.queues
        self.room = {bound: not model.queues[bound].full() for bound in self.bounded}
        try:
            match op:
                case "register":
                    own = self.queue(rng) if self.own_queues and rng.random() < 0.7 else None
                    queue = registry.register(resource, own) if own else registry.register(resource)
                    if not registered:
                        expected = (resource, None, True)
                        if own is not None:
                            rec.check(
                                queue is own,
                                "register did not use the queue it was given",
                                self.witness,
                            )
                            if own.maxsize:
                                self.bounded.add(resource)
                        model.queues[resource] = queue
                        model.live.add(resource)
                    elif resource in model.live:
                        rec.check(
                            queue is model.queues[resource],
                            "registering again gave another queue",
                            self.witness,
                        )
                    else:
                        model.queues[resource] = queue
                case "subscribe":
                    target = self.resources[rest[0]]
                    registry.subscribe(resource, target)
                case "only":
                    targets = [self.resources[idx] for idx in rest[0]]
                    if rng.random() < 0.3 and targets:
                        targets.append(targets[0])
                    registry.subscribe_only_to(
                        resource, rng.choice((list, tuple))(targets)
                    )
                case "unsubscribe":
                    target = self.resources[rest[0]]
                    registry.unsubscribe(resource, target)
                case "notify":
                    expected = (resource, self.clock, True)
                    registry.notify_subscribers(resource, self.clock)
                case "kill":
                    registry.kill_resource(resource)
                case "deregister":
                    expected = (resource, self.clock, registered)
                    registry.deregister(resource, self.clock)
        except Exception as err:
            raised = err
        self._check_effect(operation, resource, rest, raised, expected, followers_before, registered)

    def _check_effect(self, operation, resource, rest, raised, expected, followers, registered):
        rec, model = self.rec, self.model
        op = operation[0]
        if op in ("subscribe", "only"):
            targets = (
                {self.resources[rest[0]]}
                if op == "subscribe"
                else {self.resources[idx] for idx in rest[0]}
            )
            closes = model.reaches(targets, resource)
            if closes:
                rec.check(
                    isinstance(raised, registry.SubscriptionCycle),
                    lambda: f"{operation} closes a cycle, but was not refused ({raised!r})",
                    self.witness,
                )
                rec.count("cycles_refused")
                if op == "only":
                    rec.count("rejected_only_to")
            else:
                rec.check(
                    raised is None,
                    lambda: f"{operation} does not close a cycle, but raised {raised!r}",
                    self.witness,
                )
                if op == "subscribe":
                    model.follows[resource] |= targets
                else:
                    model.follows[resource] = targets
        elif op == "unsubscribe":
            target = self.resources[rest[0]]
            if target in model.follows[resource]:
                rec.check(
                    raised is None,
                    lambda: f"{operation} raised {raised!r}",
                    self.witness,
                )
                model.follows[resource].discard(target)
            else:
                rec.check(
                    raised is None or isinstance(raised, KeyError),
                    lambda: f"{operation} raised {raised!r}",
                    self.witness,
                )
                rec.count("unsubscribe_redundant")
        else:
            rec.check(
                raised is None, lambda: f"{operation} raised {raised!r}", self.witness
            )
        if op == "kill" and registered:
            model.live.discard(resource)
            rec.count("killed")
        if op == "deregister":
            model.follows[resource] = set()
            if registered:
                queue = model.queues.pop(resource)
                model.live.discard(resource)
                self.bounded.discard(resource)
                rec.count("deregistered")
                if not isinstance(queue, _Recording) or not queue.maxsize:
                    rec.check(
                        queue.empty(),
                        f"{operation} left {queue.qsize()} events in the queue",
                        self.witness,
                    )
                self._check_dead(queue, operation)
        if self.look == 1 or self.rng.random() < self.look:
            self._check_graph(operation)
        else:
            rec.count("unobserved")
        self._check_deliveries(operation, expected, followers)

    def _check_dead(self, queue, operation):
        """A queue nobody may wait on any more."""
        try:
            queue.get_nowait()
            got = "an event"
        except asyncio.QueueShutDown:
            return
        except asyncio.QueueEmpty:
            got = "nothing"
        self.rec.fail(
            f"after {operation} the queue is still open (a consumer finds {got})",
            self.witness,
        )

    def _check_graph(self, operation):
        rec, model = self.rec, self.model
        for one in self.resources:
            follows = set(registry.get_subscriptions(one))
            followers = set(registry.get_subscribers(one))
            rec.check(
                follows == model.follows[one],
                lambda: f"after {operation} {one} watches {follows}, not "
                f"{model.follows[one]}",
                self.witness,
            )
            rec.check(
                followers == model.followers(one),
                lambda: f"after {operation} {one} is watched by {followers}, not "
                f"{model.followers(one)}",
                self.witness,
            )

    def _check_deliveries(self, operation, expected, followers):
        rec, model = self.rec, self.model
        for one in self.resources:
            queue = model.queues.get(one)
            if queue is None:
                self.pending.pop(one, None)
                if expected and one in followers:
                    rec.count("notified_deregistered")
                continue
            if expected and one in followers:
                if one in model.live:
                    resource, event_time, must = expected
                    must = must and (one not in self.bounded or self.room.get(one, True))
                    self.pending.setdefault(one, []).append((resource, event_time, must))
                    rec.count("delivered")
                else:
                    rec.count("notified_killed")
        if self.lazy and operation[0] not in ("kill", "deregister") and self.rng.random() < 0.8:
            # Let what is delivered pile up.
            rec.count("piled_up")
            return
        for one, queue in model.queues.items():
            wanted = self.pending.pop(one, [])
            got = left = self.events(queue)
            fits = True
            # (those whose time is not known match any)
            for resource, event_time, must in sorted(
                wanted, key=lambda one: (one[1] is None, not one[2])
            ):
                found = [
                    event
                    for event in left
                    if event[0] == resource and event_time in (None, event[1])
                ]
                if found:
                    left = [*left]
                    left.remove(found[0])
                elif must:
                    fits = False
            rec.check(
                fits and not left,
                lambda: f"{operation}: {one} should have received exactly {wanted} "
                f"(resource, time, required), received {got}",
                self.witness,
            )

    def finish(self):
        for resource in self.resources:
            if self.model.followers(resource) or self.model.follows[resource]:
                registry.subscribe_only_to(resource, [])
        for resource in self.resources:
            registry.deregister(resource, self.clock)


def _run_plain(rng, rec, count, sequence, own_queues=False, lazy=False):
    run = Run(rng, rec, count, own_queues, lazy)
    for operation in sequence:
        run.apply(operation)
    run._check_graph("the last operation")
    rec.seen((count, sequence, own_queues), {"sequence": sequence})
    run.finish()


# --- things waiting on the queues ---------------------------------------------------


async def _waiting(rng, rec):
    """Deregistering releases whatever waits on the resource's queue (and nothing
    which waits on another's)."""
    count = rng.choice((2, 3, 4))
    run = Run(rng, rec, count, own_queues=False)
    resources = run.resources
    queues = {}
    history = run.history

    def witness():
        return {"history": history}

    for resource in resources:
        queue = None
        if rng.random() < 0.5:
            queue = rng.choice((asyncio.Queue, asyncio.LifoQueue))(
                maxsize=rng.choice((0, 0, 0, 1, 2))
            )
        queues[resource] = registry.register(resource, queue)
    for idx in range(1, count):
        if rng.random() < 0.7:
            registry.subscribe(resources[0], resources[idx])
            history.append(("subscribe", 0, idx))

    waiters = {resource: [] for resource in resources}

    async def consume(queue):
        while True:
            try:
                item = await queue.get()
            except asyncio.QueueShutDown:
                return "shut down"
            queue.task_done()
            if isinstance(item, registry.Kill):
                return "killed"

    async def produce(queue):
        while True:
            try:
                await queue.put(registry.ResourceEvent(resources[0], 1.0))
            except asyncio.QueueShutDown:
                return "shut down"

    victim = rng.choice(resources)
    mode = rng.choice(("consumers", "joiners", "both"))
    for resource in resources:
        queue = queues[resource]
        if mode != "consumers":
            for idx in range(rng.randint(0, 4)):
                registry.notify_subscribers(rng.choice(resources), float(idx))
            for idx in range(rng.randint(0, 2)):
                try:
                    queue.put_nowait(registry.ResourceEvent(resources[0], float(idx)))
                except asyncio.QueueFull:
                    pass
        history.append((mode, resources.index(resource), queue.qsize(), queue.maxsize))
    for resource in resources:
        queue = queues[resource]
        if mode in ("consumers", "both") and not (mode == "both" and rng.random() < 0.5):
            for _ in range(rng.randint(1, 3)):
                waiters[resource].append(("get", asyncio.create_task(consume(queue))))
        elif queue.maxsize:
            waiters[resource].append(("put", asyncio.create_task(produce(queue))))
        if mode in ("joiners", "both"):
            for _ in range(rng.randint(1, 2)):
                waiters[resource].append(("join", asyncio.create_task(queue.join())))
    for _ in range(rng.randint(0, 4)):
        await asyncio.sleep(0)

    if rng.random() < 0.4:
        registry.kill_resource(victim)
        history.append(("kill", resources.index(victim)))
        for _ in range(rng.randint(0, 3)):
            await asyncio.sleep(0)
    before = {
        resource: [task.done() for _, task in waiters[resource]] for resource in resources
    }
    followers = set(registry.get_subscribers(victim))
    registry.deregister(victim, 50.0)
    history.append(("deregister", resources.index(victim)))
    for _ in range(12):
        await asyncio.sleep(0)
    for kind, task in waiters[victim]:
        rec.check(
            task.done(),
            f"what waits ({kind}) on the queue of a deregistered resource is not released",
            witness,
        )
        rec.check(
            not task.cancelled() and task.exception() is None,
            lambda: f"{kind} ended with {task!r}",
            witness,
        )
        rec.count(f"released_{kind}")
    for resource in resources:
        if resource == victim or resource in followers:
            continue
        for (kind, task), was in zip(waiters[resource], before[resource]):
            if kind == "get":
                rec.check(
                    task.done() == was,
                    "deregistering released what waits on another resource's queue",
                    witness,
                )
    # Registered anew, it has a queue which works.
    fresh = registry.register(victim)
    rec.check(
        fresh is not queues[victim], "a dead queue was handed out again", witness
    )
    try:
        fresh.put_nowait(registry.ResourceEvent(victim, 1.0))
    except asyncio.QueueShutDown:
        rec.fail("a resource registered anew has a dead queue", witness)
    for resource in resources:
        if resource == victim:
            registry.subscribe_only_to(resource, [])
        registry.deregister(resource, 60.0)
    for tasks in waiters.values():
        for _, task in tasks:
            task.cancel()
    await asyncio.gather(
        *(task for tasks in waiters.values() for _, task in tasks), return_exceptions=True
    )
    for resource in resources:
        registry.subscribe_only_to(resource, [])
    rec.seen(history, {"history": history})
