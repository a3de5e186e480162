"""An extra CEL function, `kmon_probe(id, value)`, which records that (and with
what) an expression was evaluated, and returns `value`.

It is offered to koreo like any of its own custom functions. Should the code
under test no longer take its functions from there, `AVAILABLE` is False and the
monitors fall back on what can be seen from outside."""

from kmon import boot  # noqa: F401

import copy

import celpy
from celpy import celtypes

from kmon.values import plain

AVAILABLE = False
events: list[tuple[str, object]] = []


def _probe(ident, value=None):
    events.append((str(ident), copy.deepcopy(plain(value))))
    return value if value is not None else celtypes.BoolType(True)


def _install():
    global AVAILABLE
    try:
        from koreo.cel import functions

        functions.koreo_cel_functions["kmon_probe"] = _probe
        functions.koreo_function_annotations["kmon_probe"] = celtypes.FunctionType
        environment = celpy.Environment(
            annotations=functions.koreo_function_annotations
        )
        program = environment.program(
            environment.compile("kmon_probe('self', 1)"),
            functions=functions.koreo_cel_functions,
        )
        program.evaluate({})
        AVAILABLE = events == [("self", 1)]
    except Exception:
        AVAILABLE = False
    events.clear()


_install()


def wrap(ident: str, text: str) -> str:
    """Expression text which records its evaluation (when possible)."""
    return f"kmon_probe('{ident}', {text})" if AVAILABLE else text


def reset():
    events.clear()


def seen(ident: str | None = None):
    if ident is None:
        return list(events)
    return [value for name, value in events if name == ident]
