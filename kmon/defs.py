"""Definitions and outcomes: thin, public-interface-only access to koreo."""

from kmon import boot  # noqa: F401

import copy
import itertools
from dataclasses import dataclass
from typing import Any

import celpy

from koreo import result
from koreo.cache import delete_from_cache, prepare_and_cache
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

from kmon.values import plain

KINDS = {
    "ValueFunction": (ValueFunction, prepare_value_function),
    "ResourceFunction": (ResourceFunction, prepare_resource_function),
    "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
    "Workflow": (Workflow, prepare_workflow),
    "FunctionTest": (FunctionTest, prepare_function_test),
}

_serial = itertools.count(1)


def unique(prefix="k"):
    return f"{prefix}-{next(_serial)}"


@dataclass
class Outcome:
    cls: str  # Ok, Retry, PermFail, Skip, DepSkip, Crash
    value: Any = None
    message: str | None = None
    delay: Any = None
    location: str | None = None
    raw: Any = None

    def brief(self):
        if self.cls == "Ok":
            return {"Ok": self.value}
        if self.cls == "Retry":
            return {"Retry": [self.message, self.delay]}
        return {self.cls: self.message}

    def key(self):
        """Everything observable, for comparing two outcomes."""
        return (self.cls, repr(self.value), self.message, self.delay, self.location)


def outcome(raw) -> Outcome:
    """Describe an unwrapped outcome."""
    for cls in (result.Retry, result.PermFail, result.DepSkip, result.Skip):
        if isinstance(raw, cls):
            return Outcome(
                cls=cls.__name__,
                message=raw.message,
                delay=getattr(raw, "delay", None),
                location=raw.location,
                raw=raw,
            )
    if isinstance(raw, result.Ok):
        return Outcome(cls="Ok", value=plain(raw.data), raw=raw)
    return Outcome(cls="Ok", value=plain(raw), raw=raw)


def crash(err: BaseException) -> Outcome:
    return Outcome(cls="Crash", message=f"{type(err).__name__}: {err}", raw=err)


class NotPrepared(Exception):
    """A definition the harness built was expected to prepare, and did not."""


async def prepare(kind: str, spec: dict, name: str | None = None):
    """Prepare without caching; the result or outcome as koreo returned it."""
    _, preparer = KINDS[kind]
    return await preparer(name or unique(kind.lower()), copy.deepcopy(spec))


async def prepared(kind: str, spec: dict, name: str | None = None):
    """Prepare without caching, insisting on success."""
    got = await prepare(kind, spec, name)
    if not isinstance(got, tuple):
        raise NotPrepared(f"{kind}: {outcome(got).brief()} for {spec}")
    return got[0]


async def install(kind: str, name: str, spec: dict, version: str = "1"):
    """Offer a definition the way the controller does; returns what is cached."""
    cls, preparer = KINDS[kind]
    return await prepare_and_cache(
        resource_class=cls,
        preparer=preparer,
        metadata={"name": name, "resourceVersion": version},
        spec=copy.deepcopy(spec),
    )


async def uninstall(kind: str, name: str):
    await delete_from_cache(KINDS[kind][0], name)


async def run_rf(function, cluster, inputs, owner, location="kmon"):
    """One ResourceFunction pass -> (Outcome, resource_id)"""
    got = await reconcile_resource_function(
        api=cluster,
        location=location,
        function=function,
        owner=owner,
        inputs=celpy.json_to_cel(inputs),
    )
    return outcome(got[0]), got[1]


async def run_vf(function, inputs, base=None, location="kmon"):
    return outcome(
        await reconcile_value_function(
            location=location,
            function=function,
            inputs=celpy.json_to_cel(inputs),
            value_base=celpy.json_to_cel(base) if base is not None else None,
        )
    )


@dataclass
class WorkflowRun:
    outcome: Outcome
    conditions: list
    resource_ids: Any
    state: Any
    state_errors: dict
    raw: Any = None

    def brief(self):
        return {
            "outcome": self.outcome,
            "conditions": self.conditions,
            "state": self.state,
            "state_errors": self.state_errors,
            "resource_ids": self.resource_ids,
        }


async def run_workflow(workflow, cluster, trigger, owner, key="kmon-workflow"):
    raw = await reconcile_workflow(
        api=cluster,
        workflow_key=key,
        owner=owner,
        trigger=celpy.json_to_cel(trigger),
        workflow=workflow,
    )
    return WorkflowRun(
        outcome=outcome(raw.result),
        conditions=[dict(condition) for condition in raw.conditions],
        resource_ids=plain(raw.resource_ids),
        state=plain(raw.state),
        state_errors=dict(raw.state_errors),
        raw=raw,
    )
