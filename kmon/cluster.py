"""An in-memory API server offering the interface koreo (through kr8s) uses.

Objects are addressed the way a server addresses them: by API version, plural
endpoint, namespace and name of the *request*. Every request is recorded, in
order, with a deep copy of its payload: the monitors read that log.
"""

import asyncio
import copy
import inspect
import json
import zlib
from contextlib import asynccontextmanager
from dataclasses import dataclass, field
from typing import Any, Callable

import kr8s


@dataclass
class Request:
    seq: int
    op: str  # GET, POST, PATCH, DELETE, LOOKUP
    version: str | None
    endpoint: str | None
    namespace: str | None
    name: str | None
    kind: str | None = None
    payload: Any = None
    raw_data: str | None = None
    content_type: str | None = None
    started: float = 0.0
    finished: float | None = None
    applied: bool = False
    error: str | None = None
    step: Any = None

    def brief(self):
        return {
            "op": self.op,
            "to": f"{self.version}/{self.endpoint}/{self.namespace}/{self.name}",
            "payload": self.payload,
            "error": self.error,
        }


MUTATIONS = ("POST", "PATCH", "DELETE")


class Response:
    def __init__(self, data, status_code=200):
        self._data = data
        self.status_code = status_code

    def json(self):
        return self._data


class ErrorResponse:
    """The part of httpx.Response kr8s and koreo look at."""

    def __init__(self, status_code):
        self.status_code = status_code

    def json(self):
        return {"message": f"status {self.status_code}"}


def server_error(status_code: int, message: str = "injected"):
    return kr8s.ServerError(
        message, status=f"status-{status_code}", response=ErrorResponse(status_code)
    )


def merge_patch(target, patch):
    """RFC 7386."""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    result = dict(target) if isinstance(target, dict) else {}
    result = copy.deepcopy(result)
    for key, value in patch.items():
        if value is None:
            result.pop(key, None)
        else:
            result[key] = merge_patch(result.get(key), value)
    return result


Key = tuple[str, str, str | None, str]


class Cluster:
    def __init__(self, plurals: dict[str, str] | None = None):
        self.objects: dict[Key, dict] = {}
        self.log: list[Request] = []
        self.plurals = plurals or {}
        # (request) -> seconds, or an awaitable; called before the effect applies
        self.before: Callable[[Request], Any] | None = None
        # called after the effect was applied but before the reply
        self.after: Callable[[Request], Any] | None = None
        # server-side decoration of stored objects: (key, obj) -> None
        self.decorate: Callable[[Key, dict], None] | None = None
        self._uid = 0

    # -- what the harness uses ------------------------------------------------

    def put(self, version, endpoint, namespace, name, obj):
        self.objects[(version, endpoint, namespace, name)] = copy.deepcopy(obj)

    def get(self, version, endpoint, namespace, name):
        return self.objects.get((version, endpoint, namespace, name))

    @property
    def mutations(self) -> list[Request]:
        return [request for request in self.log if request.op in MUTATIONS]

    def snapshot(self):
        return copy.deepcopy(self.objects)

    # -- what koreo/kr8s uses -------------------------------------------------

    @property
    def namespace(self):
        return "kmon-default-namespace"

    async def lookup_kind(self, kind: str):
        request = self._record("LOOKUP", None, None, None, kind)
        await self._hook(self.before, request)
        request.finished = _now()
        name = kind.split(".", 1)[0]
        if kind in self.plurals:
            return (name.lower(), self.plurals[kind], True)
        if name in self.plurals:
            plural = self.plurals[name]
            if plural is None:
                raise ValueError(f"Kind {kind} not found.")
            return (name.lower(), plural, True)
        return (name.lower(), f"{name.lower()}s", True)

    async def async_get(self, kind, *names, namespace=None, **kwargs):
        name = names[0] if names else None
        if isinstance(kind, str):
            raise TypeError("kmon: expected an API class")
        request = self._record(
            "GET",
            kind.version,
            kind.endpoint,
            namespace if kind.namespaced else None,
            name,
            kind=kind.kind,
        )
        await self._hook(self.before, request)
        found = self.objects.get(
            (request.version, request.endpoint, request.namespace, request.name)
        )
        found = copy.deepcopy(found)
        await self._hook(self.after, request)
        request.applied = True
        request.finished = _now()
        if found is None:
            # There are several ways to learn that there is none.
            match zlib.crc32(f"{request.endpoint}{name}{request.seq}".encode()) % 4:
                case 0:
                    raise kr8s.NotFoundError(f"{request.endpoint}/{name} not found")
                case 1:
                    raise server_error(404, "not found")
            return
        yield kind(api=self, resource=found, namespace=request.namespace)

    @asynccontextmanager
    async def call_api(
        self,
        method="GET",
        version="v1",
        base="",
        namespace=None,
        url="",
        raise_for_status=True,
        stream=False,
        data=None,
        headers=None,
        **kwargs,
    ):
        endpoint, _, name = url.partition("/")
        name = name or None
        payload = json.loads(data) if data else None
        if method == "POST" and isinstance(payload, dict):
            metadata = payload.get("metadata")
            name = metadata.get("name") if isinstance(metadata, dict) else None

        request = self._record(
            method, version, endpoint, namespace, name, payload=payload
        )
        request.raw_data = data
        request.content_type = (headers or {}).get("Content-Type")
        try:
            await self._hook(self.before, request)
            reply = self._apply(request)
            request.applied = True
            await self._hook(self.after, request)
        except BaseException as err:
            request.error = f"{type(err).__name__}: {err}"
            request.finished = _now()
            raise
        request.finished = _now()
        yield Response(copy.deepcopy(reply))

    # -- internals ------------------------------------------------------------

    def _record(self, op, version, endpoint, namespace, name, kind=None, payload=None):
        request = Request(
            seq=len(self.log),
            op=op,
            version=version,
            endpoint=endpoint,
            namespace=namespace,
            name=name,
            kind=kind,
            payload=copy.deepcopy(payload),
            started=_now(),
        )
        self.log.append(request)
        return request

    async def _hook(self, hook, request):
        if hook is None:
            return
        result = hook(request)
        if inspect.isawaitable(result):
            result = await result
        if isinstance(result, bool) or result is None:
            return
        if isinstance(result, (int, float)):
            await asyncio.sleep(result)

    def _apply(self, request: Request):
        key = (request.version, request.endpoint, request.namespace, request.name)
        current = self.objects.get(key)
        match request.op:
            case "POST":
                if current is not None:
                    raise server_error(409, "already exists")
                obj = _drop_nulls(copy.deepcopy(request.payload))
                self._uid += 1
                if self.decorate:
                    self.decorate(key, obj)
                self.objects[key] = obj
                return obj
            case "PATCH":
                if current is None:
                    raise server_error(404, "not found")
                obj = _drop_nulls(merge_patch(current, request.payload))
                if self.decorate:
                    self.decorate(key, obj)
                self.objects[key] = obj
                return obj
            case "DELETE":
                if current is None:
                    raise server_error(404, "not found")
                if (current.get("metadata") or {}).get("finalizers"):
                    # It stays until whoever placed them is done.
                    current["metadata"].setdefault(
                        "deletionTimestamp", "2024-03-03T00:00:00Z"
                    )
                    return current
                del self.objects[key]
                return {}
            case "GET":
                if current is None:
                    raise server_error(404, "not found")
                return current
        raise server_error(405, f"method {request.op}")


def _drop_nulls(obj):
    """API servers do not store null members of objects."""
    if isinstance(obj, dict):
        return {k: _drop_nulls(v) for k, v in obj.items() if v is not None}
    if isinstance(obj, list):
        return [_drop_nulls(item) for item in obj]
    return obj


def _now():
    try:
        return asyncio.get_running_loop().time()
    except RuntimeError:
        return 0.0
