"""Drives one property monitor: fans generated cases over worker processes,
aggregates what the monitors observed, writes the evidence and the replay file.

Verdicts are three-valued: 0 held on everything observed, 1 violated (with a
witness), 2 inconclusive (nothing or too little was observed, or the harness
itself failed)."""

import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")

CASE_CPU_SECONDS = 60
MEMORY_BYTES = 3 << 30


class Violation(Exception):
    def __init__(self, message, witness=None, mechanism=None):
        super().__init__(message)
        self.message = message
        self.witness = witness
        self.mechanism = mechanism


class Hang(BaseException):
    """A single case used more CPU time than any terminating case could."""


class Recorder:
    """What one worker observed."""

    def __init__(self):
        self.evaluations = 0
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.current = None

    def count(self, name, amount=1):
        self.counts[name] += amount

    def seen(self, signature, sample=None):
        """A distinct, non-trivial case was evaluated."""
        digest = hashlib.blake2b(
            repr(signature).encode("utf-8", "backslashreplace"), digest_size=8
        ).digest()
        if digest in self.distinct:
            return
        self.distinct.add(digest)
        if sample is not None and len(self.samples) < 2:
            self.samples.append(jsonable(sample))

    def check(self, ok, message, witness=None, mechanism=None):
        self.counts["oracle_decisions"] += 1
        if not ok:
            if callable(message):
                message = message()
            if callable(witness):
                witness = witness()
            raise Violation(message, witness, mechanism)

    def fail(self, message, witness=None, mechanism=None):
        raise Violation(message, witness, mechanism)


def jsonable(value, depth=0):
    if depth > 40:
        return "..."
    if value is None or isinstance(value, (bool, int, float, str)):
        if type(value) in (bool, int, float, str, type(None)):
            return value
        return repr(value)
    if isinstance(value, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [jsonable(v, depth + 1) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in value), key=repr)
    if hasattr(value, "brief"):
        return jsonable(value.brief(), depth + 1)
    return repr(value)


def _from_koreo(err):
    tb = err.__traceback__
    while tb is not None:
        filename = tb.tb_frame.f_code.co_filename
        if "/koreo/" in filename and "/kmon/" not in filename:
            return True
        tb = tb.tb_next
    return False


def case_rng(seed, name):
    return random.Random(f"{seed}/{name}")


def run_one(module, seed, name, recorder, tier):
    """Run the case called `name`; returns None or a violation description."""
    recorder.current = name
    recorder.evaluations += 1
    rng = case_rng(seed, name)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        module.case(rng, recorder, name, tier)
        return None
    except Violation as err:
        return _describe(module, seed, name, err.message, err.witness, err.mechanism)
    except Hang as err:
        if _from_koreo(err):
            return _describe(
                module,
                seed,
                name,
                f"did not terminate within {CASE_CPU_SECONDS} s of CPU time",
                traceback.format_exc(limit=-6),
                "hang",
            )
        raise RuntimeError("harness case did not terminate") from err
    except Exception as err:
        while isinstance(err, ExceptionGroup):
            violations = [one for one in err.exceptions if isinstance(one, Violation)]
            err = (violations or err.exceptions)[0]
        if isinstance(err, Violation):
            return _describe(module, seed, name, err.message, err.witness, err.mechanism)
        if _from_koreo(err):
            return _describe(
                module,
                seed,
                name,
                f"unexpected {type(err).__name__} out of the code under test: {err}",
                "".join(traceback.format_exception(err, limit=-8)),
                f"crash:{type(err).__name__}",
            )
        raise err
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _on_alarm(signum, frame):
    raise Hang()


def _describe(module, seed, name, message, witness, mechanism):
    return {
        "property": module.ID,
        "seed": seed,
        "case": name,
        "message": message,
        "mechanism": mechanism,
        "witness": jsonable(witness),
    }


def known_mechanisms(prop):
    known = {}
    try:
        with open(KNOWN_FINDINGS) as handle:
            for line in handle:
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                fields = line[len("known: ") :].split(" ", 2)
                if fields[0] == f"property={prop}" and fields[1].startswith(
                    "mechanism="
                ):
                    known[fields[1][len("mechanism=") :]] = fields[2]
    except FileNotFoundError:
        pass
    return known


def _worker(module_name, seed, tier, worker, workers, limit, deadline, stop, out):
    recorder = Recorder()
    violations = []
    known_hits = collections.Counter()
    error = None
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_BYTES, MEMORY_BYTES))
    try:
        module = importlib.import_module(module_name)
        known = known_mechanisms(module.ID)
        names = _names(module, tier, worker, workers, limit)
        for name in names:
            if stop.is_set() or time.monotonic() > deadline:
                break
            found = run_one(module, seed, name, recorder, tier)
            if found:
                if found["mechanism"] in known:
                    known_hits[found["mechanism"]] += 1
                    continue
                violations.append(found)
                stop.set()
                break
    except BaseException:
        error = f"case {recorder.current}: {traceback.format_exc()}"
        stop.set()
    out.put(
        {
            "evaluations": recorder.evaluations,
            "counts": dict(recorder.counts),
            "distinct": recorder.distinct,
            "samples": recorder.samples,
            "violations": violations,
            "known": dict(known_hits),
            "error": error,
        }
    )


def _names(module, tier, worker, workers, limit):
    systematic = getattr(module, "systematic", None)
    if systematic:
        for idx, name in enumerate(systematic(tier)):
            if idx % workers == worker:
                yield f"sys:{name}"
    for idx in range(worker, limit, workers):
        yield f"rnd:{idx}"


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", choices=("quick", "thorough"))
    parser.add_argument("--seed", type=int)
    parser.add_argument("--replay", help="run only the case of this replay file")
    parser.add_argument("--case", help="run only this case")
    parser.add_argument("--cases", type=int, help="override the number of cases")
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    args = parser.parse_args(argv)

    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, *sys.argv])

    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed
    if seed is None:
        seed = int(os.environ.get("VERIF_SEED") or 1)

    prop = args.property.upper()
    module_name = f"kmon.props.{prop.lower()}"

    if args.replay or args.case:
        module = importlib.import_module(module_name)
        name = args.case
        if args.replay:
            with open(args.replay) as handle:
                replay = json.load(handle)
            seed, name, tier = replay["seed"], replay["case"], replay["tier"]
        found = run_one(module, seed, name, Recorder(), tier)
        print(json.dumps(found, indent=1))
        return 1 if found else 0

    started = time.monotonic()
    try:
        module = importlib.import_module(module_name)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the monitor could not start")
        return 2

    replay_path = os.path.join(HERE, "evidence", f"{prop}.replay.json")
    if os.path.exists(replay_path):
        os.unlink(replay_path)

    limit = args.cases or module.CASES[tier]
    budget = getattr(module, "SECONDS", {"quick": 150, "thorough": 780})[tier]
    deadline = started + budget

    context = multiprocessing.get_context("fork")
    stop = context.Event()
    out = context.Queue()
    processes = [
        context.Process(
            target=_worker,
            args=(module_name, seed, tier, idx, args.workers, limit, deadline, stop, out),
            daemon=True,
        )
        for idx in range(args.workers)
    ]
    for process in processes:
        process.start()

    results = []
    hard_deadline = deadline + 2 * CASE_CPU_SECONDS
    while len(results) < len(processes):
        try:
            results.append(out.get(timeout=1))
        except Exception:
            if time.monotonic() > hard_deadline:
                break
            if not any(process.is_alive() for process in processes) and out.empty():
                time.sleep(0.2)
                if out.empty():
                    break
    for process in processes:
        if process.is_alive():
            process.join(timeout=1)
        if process.is_alive():
            process.kill()

    counts = collections.Counter()
    distinct = set()
    samples = []
    violations = []
    known_hits = collections.Counter()
    errors = []
    evaluations = 0
    for result in results:
        evaluations += result["evaluations"]
        counts.update(result["counts"])
        distinct |= result["distinct"]
        samples.extend(result["samples"])
        violations.extend(result["violations"])
        known_hits.update(result["known"])
        if result["error"]:
            errors.append(result["error"])
    if len(results) < len(processes):
        errors.append(f"{len(processes) - len(results)} worker(s) gave no result")

    wall = time.monotonic() - started
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": module.RULE,
        "samples": samples[:3],
        "observed": dict(sorted(counts.items())),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path, "w") as handle:
        json.dump(evidence, handle, indent=1, sort_keys=True)
        handle.write("\n")

    known = known_mechanisms(prop)
    for mechanism in known_hits:
        print(f"KNOWN-FINDING: property={prop} {known[mechanism]}")

    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct, "
        f"{counts['oracle_decisions']} decisions, {wall:.1f} s"
    )

    if violations:
        violation = violations[0]
        violation["tier"] = tier
        with open(replay_path, "w") as handle:
            json.dump(violation, handle, indent=1, sort_keys=True)
            handle.write("\n")
        print(violation["message"])
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1

    if errors:
        print(errors[0])
        print(f"INCONCLUSIVE property={prop} the harness failed")
        return 2

    required = dict(getattr(module, "REQUIRED", {}))
    required.setdefault("oracle_decisions", 50)
    missing = {
        name: minimum for name, minimum in required.items() if counts[name] < minimum
    }
    if missing or not distinct:
        print(f"INCONCLUSIVE property={prop} too little observed: {missing}")
        return 2

    return 0
