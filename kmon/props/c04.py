"""C04: a ResourceFunction reaches a fixpoint."""

import copy

from kmon import rf, vloop
from kmon.cluster import Cluster
from kmon.defs import run_rf
from kmon.values import jeq

ID = "C04"
LEVEL = "exploration"
RULE = (
    "a distinct ResourceFunction (definition, inputs, owner, policy) driven through "
    "create, benign and drifted live objects until it stopped mutating"
)
CASES = {"quick": 1600, "thorough": 30000}
REQUIRED = {
    "converged": 400,
    "null_members": 100,
    "benign_pass": 400,
    "create": 300,
    "patch": 200,
    "delete": 40,
    "owner_ref_added": 20,
}
ASSUMPTIONS = (
    "the API server applies RFC 7386 merge patches, adds fields of its own and may "
    "reorder set- and map-directed lists; it does not change what the target specifies",
    "a create overlay only adds fields the target does not specify",
)


def case(rng, rec, name, tier):
    vloop.run(lambda: _case(rng, rec, name))


async def _case(rng, rec, name):
    scenario = rf.gen_scenario(
        rng, f"c04-{name}".replace(":", "-"), nulls=rng.random() < 0.3
    )
    function = await rf.install_scenario(scenario)
    try:
        for _ in range(2):
            await _from_absent(rng, rec, scenario, function)
            await _from_benign(rng, rec, scenario, function)
            await _from_drift(rng, rec, scenario, function)
        if rf.has_nulls(scenario.target):
            rec.count("null_members")
        rec.seen(
            (scenario.spec, scenario.inputs),
            {"spec": scenario.spec, "inputs": scenario.inputs},
        )
    finally:
        await rf.uninstall_scenario(scenario)


class Driver:
    """Runs passes and judges each of them."""

    def __init__(self, rng, rec, scenario, function, cluster):
        self.rec = rec
        self.scenario = scenario
        self.function = function
        self.cluster = cluster
        cluster.decorate = rf.decorator(rng, scenario.target)
        self.history = []

    def witness(self):
        return {
            "scenario": self.scenario.brief(),
            "history": self.history,
            "live": self.cluster.get(*self.scenario.address),
        }

    def check(self, ok, message):
        self.rec.check(ok, message, self.witness)

    async def step(self):
        """One pass -> (outcome, mutations)."""
        before = len(self.cluster.mutations)
        inputs = copy.deepcopy(self.scenario.inputs)
        owner = copy.deepcopy(self.scenario.owner)
        out, _ = await run_rf(self.function, self.cluster, inputs, owner)
        made = self.cluster.mutations[before:]
        self.history.append({"outcome": out.brief(), "mutations": made})
        self.rec.count("passes")
        if made:
            self.check(
                len(made) == 1, f"{len(made)} mutating calls were made in one pass"
            )
            delay = {
                "POST": self.scenario.delays["create"],
                "PATCH": self.scenario.delays["patch"],
                "DELETE": self.scenario.delays["recreate"],
            }[made[0].op]
            self.check(
                out.cls == "Retry",
                f"a pass which made a {made[0].op} returned {out.brief()}, not Retry",
            )
            self.check(
                out.delay == delay,
                f"the pass which made a {made[0].op} asks to retry in {out.delay} s, "
                f"configured is {delay} s",
            )
            self.rec.count({"POST": "create", "PATCH": "patch", "DELETE": "delete"}[made[0].op])
            if made[0].op in ("POST", "PATCH"):
                self.meets("after the " + made[0].op)
        else:
            self.check(
                out.cls == "Ok", f"a pass without mutation returned {out.brief()}"
            )
            self.check(
                jeq(out.value, self.scenario.returns),
                f"return is {out.value!r}, expected {self.scenario.returns!r}",
            )
        return out, made

    def meets(self, when):
        live = self.cluster.get(*self.scenario.address)
        self.check(live is not None, f"there is no object {when}")
        unmet = rf.unmet(self.scenario, live)
        self.check(unmet is None, f"{when} the object does not meet the target: {unmet}")
        if self.scenario.should_own:
            self.check(
                self.scenario.owner[1]["uid"] in rf.uids(live),
                f"{when} the object lacks the owner reference",
            )

    async def quiet(self, passes, why):
        for _ in range(passes):
            _, made = await self.step()
            self.check(
                not made,
                f"{why}, but a {made[0].op if made else ''} call was made",
            )
        self.rec.count("converged")


async def _from_absent(rng, rec, scenario, function):
    driver = Driver(rng, rec, scenario, function, Cluster())
    _, made = await driver.step()
    driver.check(
        [m.op for m in made] == ["POST"], f"absent object, but made {[m.op for m in made]}"
    )
    await driver.quiet(2, "the object was just created from the target")


async def _from_benign(rng, rec, scenario, function):
    for _ in range(2):
        driver = Driver(rng, rec, scenario, function, Cluster())
        owner_ref = scenario.owner[1] if scenario.should_own else None
        live = rf.benign(rng, scenario.target, owner_ref)
        if rf.unmet(scenario, live) is not None:
            rec.count("harness_live_unmet")
            continue
        driver.cluster.put(*scenario.address, live)
        await driver.quiet(2, "the live object meets the target")
        rec.count("benign_pass")


async def _from_drift(rng, rec, scenario, function):
    driver = Driver(rng, rec, scenario, function, Cluster())
    drop_owner = scenario.should_own and rng.random() < 0.4
    owner_ref = scenario.owner[1] if scenario.should_own and not drop_owner else None
    live = rf.benign(rng, scenario.target, owner_ref)
    drifts = []
    if not drop_owner or rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            found = rf.apply_drift(rng, scenario.target, live)
            if found:
                drifts.append(found)
    driver.history.append({"drift": drifts, "owner dropped": drop_owner})
    unmet = rf.unmet(scenario, live)
    driver.cluster.put(*scenario.address, live)
    if scenario.policy == "never":
        await driver.quiet(2, "the update policy is never")
        return
    _, made = await driver.step()
    if unmet is None and not drop_owner:
        driver.check(not made, "the live object meets the target")
        return
    driver.check(bool(made), f"no correction was made of: {unmet or 'owner missing'}")
    if scenario.policy == "recreate":
        driver.check(made[0].op == "DELETE", "recreate did not delete")
        if driver.cluster.objects.pop(scenario.address, None) is not None:
            rec.count("finalized")  # whoever put the finalizer there let it go
        _, made = await driver.step()
        driver.check([m.op for m in made] == ["POST"], "recreate did not create")
    else:
        driver.check(made[0].op == "PATCH", "patch did not patch")
        if drop_owner:
            rec.count("owner_ref_added")
    await driver.quiet(2, "the object was just corrected")
