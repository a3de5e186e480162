"""Plain-value helpers: strict comparison, conversion from CEL values, generators."""

import datetime
import re

from kmon import boot  # noqa: F401

import celpy
from celpy import celtypes


class Missing:
    def __repr__(self):
        return "<missing>"


MISSING = Missing()


class ErrorObject:
    """Stands for a CEL error found in place of data."""

    def __init__(self, err):
        self.err = err

    def __repr__(self):
        return f"<ERROR {self.err!r}>"

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class Opaque:
    """Stands for something which is not JSON-like data at all."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"<OPAQUE {type(self.value).__name__} {self.value!r}>"

    __hash__ = object.__hash__


def plain(value):
    """Independent conversion of CEL (or native) values to plain Python data."""
    if isinstance(value, celpy.CELEvalError):
        return ErrorObject(value)
    if value is None or isinstance(value, celtypes.NullType):
        return None
    if isinstance(value, celtypes.BoolType):
        return bool(value)
    if isinstance(value, bool):
        return value
    if isinstance(value, dict):
        return {plain_key(key): plain(item) for key, item in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(item) for item in value]
    if isinstance(value, celtypes.TimestampType | celtypes.DurationType):
        return str(value)
    if isinstance(value, (bytes, bytearray)):
        return bytes(value)
    if isinstance(value, str):
        return str(value)
    if isinstance(value, int):
        return int(value)
    if isinstance(value, float):
        return float(value)
    if isinstance(value, BaseException):
        return ErrorObject(value)
    return Opaque(value)


def plain_key(key):
    value = plain(key)
    return value if not isinstance(value, (list, dict)) else repr(value)


def errors_within(value, path="$"):
    """Paths of error (or otherwise non-data) objects inside `value`."""
    if isinstance(value, celpy.CELEvalError | BaseException | ErrorObject):
        return [path]
    found = []
    if isinstance(value, dict):
        for key, item in value.items():
            found += errors_within(key, f"{path}<key>")
            found += errors_within(item, f"{path}.{key}")
    elif isinstance(value, (list, tuple)):
        for idx, item in enumerate(value):
            found += errors_within(item, f"{path}[{idx}]")
    return found


def jeq(left, right) -> bool:
    """JSON equality: bools are not numbers, 1 and 1.0 are the same number."""
    if isinstance(left, bool) or isinstance(right, bool):
        return isinstance(left, bool) and isinstance(right, bool) and left == right
    if isinstance(left, (int, float)) and isinstance(right, (int, float)):
        return left == right
    if isinstance(left, dict) and isinstance(right, dict):
        return left.keys() == right.keys() and all(
            jeq(value, right[key]) for key, value in left.items()
        )
    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
        return len(left) == len(right) and all(map(jeq, left, right))
    if left is None or right is None:
        return left is None and right is None
    if isinstance(left, str) and isinstance(right, str):
        return left == right
    if isinstance(left, bytes) and isinstance(right, bytes):
        return left == right
    return False


def jdiff(left, right, path="$"):
    """First difference between two plain values, or None."""
    if isinstance(left, dict) and isinstance(right, dict):
        for key in left:
            if key not in right:
                return f"{path}.{key}: missing on the right"
        for key in right:
            if key not in left:
                return f"{path}.{key}: missing on the left"
        for key in left:
            found = jdiff(left[key], right[key], f"{path}.{key}")
            if found:
                return found
        return None
    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
        if len(left) != len(right):
            return f"{path}: lengths {len(left)} and {len(right)}"
        for idx, (a, b) in enumerate(zip(left, right)):
            found = jdiff(a, b, f"{path}[{idx}]")
            if found:
                return found
        return None
    if jeq(left, right):
        return None
    return f"{path}: {left!r} ({type(left).__name__}) vs {right!r} ({type(right).__name__})"


def cel(value):
    return celpy.json_to_cel(value)


NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z")


def is_numeral(text: str) -> bool:
    return NUMERAL.match(text) is not None and not text.endswith("\n")


def numeral_value(text: str):
    if any(c in text for c in ".eE"):
        return float(text)
    return int(text)


# ---------------------------------------------------------------------------
# Generators

WORDS = (
    "a b c d alpha beta gamma delta name count items spec data port host zone "
    "tier image replicas enabled labels".split()
)

SIMPLE_STRINGS = (
    "x y one two three red green blue on off yes no true false null True None "
    "nan inf Infinity .inf ~ latest v1 web db us-east1 10.0.0.1 1.2.3 v1beta1".split()
)


def word(rng):
    return rng.choice(WORDS)


def simple_string(rng):
    roll = rng.random()
    if roll < 0.6:
        return rng.choice(SIMPLE_STRINGS)
    if roll < 0.7:
        return ""
    return f"{rng.choice(SIMPLE_STRINGS)}-{rng.randrange(100)}"


def scalar(rng, nulls=False):
    roll = rng.random()
    if roll < 0.4:
        return simple_string(rng)
    if roll < 0.65:
        return rng.choice((0, 1, 2, 3, 5, 8, 80, 443, -1, 1000000))
    if roll < 0.75:
        return rng.choice((0.5, 1.5, 2.25, -0.125, 1.0, 100.0))
    if roll < 0.92 or not nulls:
        return rng.random() < 0.5
    return None


def value(rng, depth=3, nulls=False, empties=True):
    roll = rng.random()
    if depth <= 0 or roll < 0.5:
        return scalar(rng, nulls)
    if roll < 0.7:
        low = 0 if empties else 1
        return [value(rng, depth - 1, nulls, empties) for _ in range(rng.randint(low, 3))]
    return mapping(rng, depth - 1, nulls, empties)


def mapping(rng, depth=3, nulls=False, empties=True, low=None, high=4):
    if low is None:
        low = 0 if empties else 1
    size = rng.randint(low, high)
    keys = rng.sample(WORDS, size)
    return {key: value(rng, depth, nulls, empties) for key in keys}


def deep_merge(base, overlay):
    """Reference deep merge: maps merge key by key, all else replaces."""
    merged = {**base}
    for key, item in overlay.items():
        if isinstance(item, dict) and item and isinstance(merged.get(key), dict):
            merged[key] = deep_merge(merged[key], item)
        else:
            merged[key] = item
    return merged


def paths(value, prefix=()):
    """Every path (tuple of keys/indices) within a plain value."""
    yield prefix, value
    if isinstance(value, dict):
        for key, item in value.items():
            yield from paths(item, (*prefix, key))
    elif isinstance(value, list):
        for idx, item in enumerate(value):
            yield from paths(item, (*prefix, idx))


def get_path(value, path):
    for key in path:
        value = value[key]
    return value


def set_path(value, path, new):
    for key in path[:-1]:
        value = value[key]
    value[path[-1]] = new


def del_path(value, path):
    for key in path[:-1]:
        value = value[key]
    del value[path[-1]]


def stamp():
    return datetime.datetime.now(datetime.UTC).isoformat()


# Keys which mean something somewhere (to Kubernetes, to Koreo, to a container
# implementation), where user data may use them like any other.
KEYWORDS = tuple(
    "state value values data metadata spec status conditions error errors message "
    "inputs locals steps parent resource template return type kind name namespace "
    "apiVersion labels annotations items keys get update pop tree args uid "
    "ownerReferences finalizers resourceVersion location delay ok skip retry "
    "overlay external true null 0 _ __class__ koreo.dev/owner koreo.dev/active "
    "x-koreo-other".split()
)
