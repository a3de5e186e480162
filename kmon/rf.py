"""ResourceFunction scenarios: a definition built in layers, together with the
Target Resource Specification those layers must produce (plain data), and the
reference notion of "the live object meets the target"."""

import copy
import json
from dataclasses import dataclass, field

from kmon import celgen
from kmon.values import deep_merge, jeq, scalar, simple_string

AS_SET = "x-koreo-compare-as-set"
AS_MAP = "x-koreo-compare-as-map"
LAST_APPLIED = "x-koreo-compare-last-applied"
DIRECTIVES = (AS_SET, AS_MAP, LAST_APPLIED)
ANNOTATION = "koreo.dev/last-applied-configuration"

# (apiVersion, kind, plural, namespaced)
APIS = [
    ("kmon.test/v1", "Widget", "widgets", True),
    ("kmon.test/v1", "Gadget", "gadgets", True),
    ("kmon.test/v2", "Widget", "widgets", True),
    ("other.test/v1beta1", "Widget", "widgetz", True),
    ("v1", "ConfigMap", "configmaps", True),
    ("apps/v1", "Deployment", "deployments", True),
    ("v1", "Service", "services", True),
    ("kmon.test/v1", "ClusterWidget", "clusterwidgets", False),
    ("v1", "Namespace", "namespaces", False),
]

# what a server's discovery answers
PLURALS = {
    (kind if version == "v1" else f"{kind}.{version}"): plural
    for version, kind, plural, _ in APIS
}

NAMESPACES = ("ns-a", "ns-b", "prod")

# Names a cluster accepts (of some kinds), to be used as they are.
NAMES = ("Thing", "system:node-Reader", "UPPER", "a", "web_1", "~x", "n" * 253)

OWNER_REF = {
    "apiVersion": "koreo.test/v1",
    "kind": "Trigger",
    "name": "parent",
    "uid": "uid-parent",
    "controller": False,
    "blockOwnerDeletion": True,
}


def gen_owner_ref(rng):
    ref = copy.deepcopy(OWNER_REF)
    ref["uid"] = rng.choice(("uid-parent", "uid-parent", "0f5c-11", "uid"))
    ref["controller"] = rng.random() < 0.4
    if rng.random() < 0.2:
        del ref["blockOwnerDeletion"]
    if rng.random() < 0.2:
        del ref["controller"]
    return ref


def other_owner(rng, owner_ref=None):
    """A reference to another owner, perhaps very much like the parent."""
    which = rng.choice("abc")
    ref = {"apiVersion": "v1", "kind": "Other", "name": f"other-{which}", "uid": f"uid-{which}"}
    roll = rng.random()
    if owner_ref is not None and roll < 0.4:
        # An earlier parent of the same name.
        ref = {**owner_ref, "uid": f"{owner_ref['uid']}-{which}"}
    if rng.random() < 0.4:
        ref["controller"] = rng.random() < 0.7
        ref["blockOwnerDeletion"] = rng.random() < 0.7
    return ref


def strip(value):
    """Without comparison directives."""
    if isinstance(value, dict):
        return {k: strip(v) for k, v in value.items() if k not in DIRECTIVES}
    if isinstance(value, list):
        return [strip(item) for item in value]
    return value


def directive_paths(value, path="$"):
    found = []
    if isinstance(value, dict):
        for key, item in value.items():
            if key in DIRECTIVES:
                found.append(f"{path}.{key}")
            found += directive_paths(item, f"{path}.{key}")
    elif isinstance(value, list):
        for idx, item in enumerate(value):
            found += directive_paths(item, f"{path}[{idx}]")
    return found


def without_last_applied(payload):
    """`payload` as it was before the annotation was added (the annotations map
    itself may only exist because of the annotation)."""
    clean = copy.deepcopy(payload)
    annotations = clean.get("metadata", {}).get("annotations")
    if isinstance(annotations, dict):
        annotations.pop(ANNOTATION, None)
    return clean


def drop_empty_annotations(obj):
    obj = copy.deepcopy(obj)
    metadata = obj.get("metadata")
    if isinstance(metadata, dict):
        if metadata.get("annotations") == {}:
            del metadata["annotations"]
        if metadata == {}:
            del obj["metadata"]
    return obj


def last_applied_of(live):
    text = ((live.get("metadata") or {}).get("annotations") or {}).get(ANNOTATION)
    if not isinstance(text, str):
        return None
    try:
        loaded = json.loads(text)
    except ValueError:
        return None
    return loaded if isinstance(loaded, dict) else None


# ---------------------------------------------------------------------------
# Reference: does the live object meet the target?

_ABSENT = object()


def _simple_key(value):
    if isinstance(value, bool):
        return ("bool", value)
    if isinstance(value, (int, float)):
        return ("number", value)
    if isinstance(value, (dict, list)):
        return ("composite", json.dumps(value, sort_keys=True))
    return (type(value).__name__, value)


def meets(target, live, last_applied=_ABSENT, directed=None, path="$"):
    """None if `live` meets `target`, else a description of the first difference."""
    if isinstance(target, dict):
        if not isinstance(live, dict):
            return f"{path}: expected a map, live has {live!r}"
        as_set = target.get(AS_SET, ())
        as_map = target.get(AS_MAP, {})
        from_last = target.get(LAST_APPLIED, ())
        for key, wanted in target.items():
            if key in DIRECTIVES or key == "ownerReferences":
                continue
            last = (
                last_applied.get(key, _ABSENT)
                if isinstance(last_applied, dict)
                else _ABSENT
            )
            have = last if key in from_last else live.get(key, _ABSENT)
            if have is _ABSENT:
                # Servers do not store null members, nor does a merge patch.
                if wanted is None:
                    continue
                return f"{path}.{key}: missing"
            mode = None
            if key in as_map:
                mode = ("map", as_map[key])
            elif key in as_set:
                mode = ("set", None)
            found = meets(wanted, have, last, mode, f"{path}.{key}")
            if found:
                return found
        return None
    if isinstance(target, list):
        if not isinstance(live, list):
            return f"{path}: expected a list, live has {live!r}"
        if directed and directed[0] == "set":
            wanted = {_simple_key(item) for item in target}
            have = {_simple_key(item) for item in live}
            if wanted != have:
                return f"{path}: sets differ by {wanted ^ have}"
            return None
        if directed and directed[0] == "map":
            fields = directed[1]
            have = {_member_key(item, fields): item for item in live}
            lasts = (
                {_member_key(item, fields): item for item in last_applied}
                if isinstance(last_applied, list)
                else {}
            )
            for item in target:
                key = _member_key(item, fields)
                if key not in have:
                    return f"{path}: member {key} missing"
                found = meets(
                    item, have[key], lasts.get(key, _ABSENT), None, f"{path}{{{key}}}"
                )
                if found:
                    return found
            return None
        if len(target) != len(live):
            return f"{path}: lengths differ"
        for idx, (wanted, have) in enumerate(zip(target, live)):
            last = (
                last_applied[idx]
                if isinstance(last_applied, list) and idx < len(last_applied)
                else _ABSENT
            )
            found = meets(wanted, have, last, None, f"{path}[{idx}]")
            if found:
                return found
        return None
    if not jeq(target, live):
        return f"{path}: wanted {target!r}, live has {live!r}"
    return None


def _member_key(item, fields):
    if not isinstance(item, dict):
        return ("?", repr(item))
    return tuple(_simple_key(item.get(field)) for field in fields)


# ---------------------------------------------------------------------------
# Generators

KEYS = (
    "alpha beta gamma delta size mode host port zone tier image replicas "
    "enabled weight policy region "
    # Names which mean something elsewhere
    "status metadata kind data labels annotations uid value items state spec "
    "resourceVersion generation managedFields finalizers true null a.b".split()
)
LABELS = (
    "app team app.kubernetes.io/name app.kubernetes.io/managed-by koreo.dev/owner "
    "koreo.dev/active koreo.dev/workflow koreo.dev/managed".split()
)


def _set_members(rng):
    pool = rng.choice(
        (
            ("x", "y", "z", "web", "db", "on"),
            (1, 2, 3, 443, 80, 0),
            ("x", 1, True, "true", 0, False, "y", 2.5),
        )
    )
    members = rng.sample(pool, rng.randint(0, min(4, len(pool))))
    if members and rng.random() < 0.2:
        # Written with repetitions.
        members += rng.choices(members, k=rng.randint(1, 2))
    return members


# What members of a map-directed list may be told apart by: values which are
# alike, or which mean something in other places.
MEMBER_NAMES = (
    *"m0 M0 m1 n1 n m mm a a$b b$c c a,b true None null ownerReferences name".split(),
    *DIRECTIVES,
    *(0, 1, 80, 443, True, False),
)


def _member_maps(rng, fields, depth):
    members = []
    confusable = rng.random() < 0.4
    taken = set()
    for idx in range(rng.randint(0, 3)):
        member = {}
        for field_idx, name in enumerate(fields):
            if confusable:
                member[name] = rng.choice(MEMBER_NAMES)
            elif field_idx == 0:
                member[name] = f"{rng.choice('mnop')}{idx}"
            else:
                member[name] = rng.choice(("tcp", 8080, "udp"))
        key = _member_key(member, fields)
        if key in taken:
            continue
        taken.add(key)
        for key in rng.sample(KEYS, rng.randint(0, 2)):
            if key not in member:
                member[key] = tree(rng, depth - 1)
        if depth > 0 and rng.random() < 0.15:
            member[AS_SET] = ["tags"]
            member["tags"] = _set_members(rng)
        members.append(member)
    return members


# Stored forms of values of types JSON does not have.
TYPED = (
    "2024-05-01T10:30:00Z",
    "1999-12-31T23:59:59Z",
    "3600s",
    "0s",
    "aGVsbG8=",
    "eA==",
)


def tree(rng, depth):
    """A plain (possibly directed) value."""
    roll = rng.random()
    if roll < 0.08:
        return rng.choice(TYPED)
    if depth <= 0 or roll < 0.45:
        return scalar(rng)
    if roll < 0.48:
        return [
            {str(key): tree(rng, depth - 1) for key in rng.sample((0, 1, 80, 443), 2)},
            {"true": 1, "false": tree(rng, depth - 1)},
        ]
    if roll < 0.6:
        return [tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return directed_map(rng, depth - 1)


def directed_map(rng, depth, low=0, high=4, last_applied=True):
    out = {}
    sets, maps, lasts = [], {}, []
    for key in rng.sample(KEYS, rng.randint(low, high)):
        roll = rng.random()
        if roll < 0.12:
            out[key] = _set_members(rng)
            sets.append(key)
        elif roll < 0.26:
            fields = rng.choice((["name"], ["port"], ["name", "protocol"]))
            out[key] = _member_maps(rng, fields, depth)
            maps[key] = fields
        else:
            out[key] = tree(rng, depth)
            if last_applied and roll < 0.34:
                lasts.append(key)
    if sets:
        out[AS_SET] = sets
    if maps:
        out[AS_MAP] = maps
    if lasts:
        out[LAST_APPLIED] = lasts
    return out


def gen_body(rng, depth=3):
    body = {}
    if rng.random() < 0.9:
        body["spec"] = directed_map(rng, depth, low=1)
    if rng.random() < 0.3:
        body["data"] = {
            key: simple_string(rng) for key in rng.sample(KEYS, rng.randint(0, 3))
        }
    if rng.random() < 0.2:
        key = rng.choice(("rules", "subsets"))
        body[key] = [directed_map(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.015:
        # Far larger than usual.
        body["bulk"] = rng.choice(
            (
                lambda: {"text": simple_string(rng) + "x" * rng.choice((4096, 40000, 130000))},
                lambda: [{"n": idx, "k": simple_string(rng)} for idx in range(120)],
                lambda: {f"k{idx}": [idx, {"d": [simple_string(rng)]}] for idx in range(90)},
            )
        )()
    metadata = {}
    if rng.random() < 0.5:
        metadata["labels"] = {
            key: simple_string(rng) for key in rng.sample(LABELS, rng.choice((1, 1, 2, 3)))
        }
    if rng.random() < 0.35:
        metadata["annotations"] = {
            rng.choice(("note", "kmon.test/owner", "koreo.dev/owner")): simple_string(rng)
        }
    if rng.random() < 0.1:
        metadata["finalizers"] = ["kmon.test/protect"]
    if metadata:
        body["metadata"] = metadata
    return body


def map_paths(value, prefix=()):
    """Paths of maps reachable through maps only (where overlays merge)."""
    yield prefix, value
    for key, item in value.items():
        if key in DIRECTIVES:
            continue
        if isinstance(item, dict):
            yield from map_paths(item, (*prefix, key))


def gen_overlay(rng, current, only_new=False):
    """A plain overlay for `current` which keeps directives meaningful."""
    overlay = {}
    spots = [
        (path, item)
        for path, item in map_paths(current)
        if path != () and path[:2] != ("metadata", "annotations")
    ]
    if not spots:
        spots = [((), current)]
    for _ in range(rng.randint(1, 3)):
        path, item = rng.choice(spots)
        directed = {
            *item.get(AS_SET, ()),
            *item.get(AS_MAP, {}),
            *item.get(LAST_APPLIED, ()),
        }
        existing = [
            key for key in item if key not in DIRECTIVES and key not in directed
        ]
        if path == ("metadata",):
            existing = []
            key = rng.choice(("labels", "annotations"))
            new = {rng.choice(("extra", "app", "zz")): simple_string(rng)}
            if only_new and isinstance(item.get(key), dict):
                new = {f"added{rng.randrange(3)}": simple_string(rng)}
        elif path == ("data",) or path == ("metadata", "labels"):
            key = rng.choice(existing + ["added"]) if not only_new else "added"
            new = simple_string(rng)
        elif existing and not only_new and rng.random() < 0.7:
            key = rng.choice(existing)
            new = _plain_tree(rng, 2)
        elif directed and not only_new and rng.random() < 0.4:
            key = rng.choice(sorted(directed))
            if key in item.get(AS_SET, ()):
                new = _set_members(rng)
            elif key in item.get(AS_MAP, {}):
                new = _member_maps(rng, item[AS_MAP][key], 1)
            else:
                new = scalar(rng)
        else:
            key = rng.choice(("added", "extra", "more"))
            if only_new and key in item:
                continue
            new = _plain_tree(rng, 2)
        spot = overlay
        blocked = False
        for part in path:
            spot = spot.setdefault(part, {})
            if not isinstance(spot, dict):
                blocked = True
                break
        if not blocked:
            spot[key] = new
    return overlay


def well_formed(value):
    """Do the directives describe what they are applied to?"""
    if isinstance(value, dict):
        for key in value.get(AS_SET, ()):
            items = value.get(key, [])
            if not isinstance(items, list) or any(
                isinstance(item, (dict, list)) for item in items
            ):
                return False
        for key, fields in value.get(AS_MAP, {}).items():
            items = value.get(key, [])
            if not isinstance(items, list):
                return False
            if any(
                not isinstance(item, dict) or not any(f in item for f in fields)
                for item in items
            ):
                return False
            if len({_member_key(item, fields) for item in items}) < len(items):
                return False
        return all(well_formed(item) for item in value.values())
    if isinstance(value, list):
        return all(well_formed(item) for item in value)
    return True


def good_overlay(rng, current, only_new=False):
    for _ in range(8):
        overlay = gen_overlay(rng, current, only_new)
        merged = deep_merge(current, overlay)
        if not well_formed(merged):
            continue
        if only_new and meets(strip(current), strip(merged)) is not None:
            continue
        return overlay
    return {}


def _plain_tree(rng, depth):
    return strip(tree(rng, depth))


@dataclass
class Scenario:
    api_version: str
    kind: str
    plural: str
    namespaced: bool
    name: str
    namespace: str | None
    spec: dict
    inputs: dict
    target: dict
    create_target: dict
    owner: tuple
    owned: bool
    policy: str
    delays: dict
    templates: dict = field(default_factory=dict)
    functions: dict = field(default_factory=dict)
    returns: dict | None = None
    layers: list = field(default_factory=list)

    @property
    def should_own(self):
        return self.owned and self.owner[0] == self.namespace

    @property
    def address(self):
        return (self.api_version, self.plural, self.namespace, self.name)

    @property
    def identity(self):
        metadata = {"name": self.name}
        if self.namespace is not None:
            metadata["namespace"] = self.namespace
        return {
            "apiVersion": self.api_version,
            "kind": self.kind,
            "metadata": metadata,
        }

    def brief(self):
        return {
            "spec": self.spec,
            "inputs": self.inputs,
            "owner": list(self.owner),
            "target": self.target,
            "functions": self.functions,
            "templates": self.templates,
        }


class Inputs:
    """Moves values out of a definition into inputs/locals behind expressions."""

    def __init__(self, rng):
        self.rng = rng
        self.inputs = {}
        self.locals = {}

    def expression(self, value, roots=("inputs", "locals"), keys=False):
        rng = self.rng
        roll = rng.random()
        if roll < 0.2 or typed(value) and roll < 0.6:
            return f"={celgen.typed_literal(rng, value, keys)}"
        if roll < 0.35 and not isinstance(value, float):
            return f"={celgen.literal(rng, value)}"
        key = f"p{len(self.inputs)}"
        self.inputs[key] = value
        if roll < 0.6 and "locals" in roots:
            local = f"l{len(self.locals)}"
            if rng.random() < 0.4:
                # An input (of another value, most likely) may have this name too.
                local = f"p{rng.randrange(len(self.inputs) + 1)}"
                if local in self.locals:
                    local = f"l{len(self.locals)}"
            self.locals[local] = f"=inputs.{key}"
            return f"=locals.{local}"
        if roll < 0.7:
            return f"=inputs['{key}']"
        if roll < 0.8:
            return f"=true ? inputs.{key} : inputs.{key}"
        return f"=inputs.{key}"

    def hide(self, value, chance, maps=True, top=True, keys=False):
        """Replace random subtrees of `value` by expressions for them."""
        rng = self.rng
        if not top and rng.random() < chance:
            if maps or not isinstance(value, dict):
                if not _has_directives(value):
                    return self.expression(value, keys=keys)
        if isinstance(value, dict):
            return {
                key: (
                    item
                    if key in DIRECTIVES
                    else self.hide(item, chance, maps=maps, top=False, keys=keys)
                )
                for key, item in value.items()
            }
        if isinstance(value, list):
            # Nothing merges into what lists hold, so there keys of maps may
            # be of any type.
            return [
                self.hide(item, chance, maps=True, top=False, keys=True)
                for item in value
            ]
        return value


def typed(value):
    """Could be the stored form of a CEL value of another type."""
    if isinstance(value, str):
        return any(
            form.match(value)
            for form in (celgen.TIMESTAMP, celgen.DURATION, celgen.BASE64)
        )
    if isinstance(value, dict):
        return any(key[:1].isdigit() for key in value)
    return False


def _has_directives(value):
    return bool(directive_paths(value))


def has_nulls(value):
    if isinstance(value, dict):
        return any(item is None or has_nulls(item) for item in value.values())
    return isinstance(value, list) and any(has_nulls(item) for item in value)


def _annotated(target):
    """Null annotations specify nothing: Koreo always adds one of its own."""
    if (target.get("metadata") or {}).get("annotations", {}) is None:
        target = {**target, "metadata": {**target["metadata"]}}
        del target["metadata"]["annotations"]
    return target


def with_nulls(rng, value, share=0.3, path=()):
    """The same with some more members, which are null."""
    if isinstance(value, dict):
        out = {
            key: (
                item
                if key in DIRECTIVES or key == "ownerReferences"
                else with_nulls(rng, item, share, (*path, key))
            )
            for key, item in value.items()
        }
        if rng.random() < share:
            if path == ("metadata",):
                options = ("labels", "annotations", "finalizers", "nothing")
            elif path == ():
                options = ("spec", "data", "nothing", "state")
            else:
                options = (*KEYS, "nothing", "unset")
            key = rng.choice(options)
            if key not in out and key not in ("port", "ownerReferences"):
                out[key] = None
        return out
    if isinstance(value, list):
        return [with_nulls(rng, item, share, (*path, 0)) for item in value]
    return value


def gen_scenario(
    rng,
    unique,
    body=None,
    nulls=False,
    policy=None,
    owned=None,
    readonly=False,
    create_overlay="additive",
    use_template=None,
    overlays=None,
    api=None,
    hostile_identity=False,
    lookup=False,
) -> Scenario:
    api_version, kind, plural, namespaced = api or rng.choice(APIS)
    name = rng.choice(("thing", "web-1", "x.y", unique, unique, *NAMES))
    namespace = rng.choice(NAMESPACES) if namespaced else None
    hidden = Inputs(rng)

    def maybe(value):
        return hidden.expression(value, roots=("inputs", "locals")) if rng.random() < 0.4 else value

    identity_metadata = {"name": name}
    if namespace is not None:
        identity_metadata["namespace"] = namespace
    identity = {
        "apiVersion": api_version,
        "kind": kind,
        "metadata": identity_metadata,
    }

    def impostor():
        """Parts of some other object's identity."""
        fake = {}
        if rng.random() < 0.5:
            fake["apiVersion"] = rng.choice(("v1", "evil.test/v1", api_version))
        if rng.random() < 0.5:
            fake["kind"] = rng.choice(("Secret", "ConfigMap", "Widget"))
        metadata = {}
        if rng.random() < 0.7:
            metadata["name"] = rng.choice(("impostor", "other", "kube-root"))
        if rng.random() < 0.7:
            metadata["namespace"] = rng.choice(("kube-system", *NAMESPACES))
        if rng.random() < 0.2:
            metadata["generateName"] = "gen-"
        if rng.random() < 0.15:
            metadata["uid"] = "uid-forged"
        if metadata:
            fake["metadata"] = metadata
        return fake

    if body is None:
        body = gen_body(rng)
    if nulls:
        body = with_nulls(rng, body)
        if rng.random() < 0.2:
            body.setdefault("metadata", {}).setdefault("annotations", None)
    base = copy.deepcopy(body)
    if hostile_identity:
        base = deep_merge(base, impostor())

    templates, functions = {}, {}
    spec: dict = {}
    if use_template is None:
        use_template = rng.random() < 0.3

    layers = []
    if use_template:
        template_name = f"tmpl-{unique}"
        template = {"apiVersion": api_version, "kind": kind, **base}
        templates[template_name] = {"template": template}
        spec["resourceTemplateRef"] = {"name": maybe(template_name)}
        target = template
    else:
        if rng.random() < 0.5 and "apiVersion" not in base:
            base = {"apiVersion": api_version, "kind": kind, **base}
        spec["resource"] = hidden.hide(base, 0.2)
        target = base
    layers.append(copy.deepcopy(target))
    target = deep_merge(target, identity)

    if overlays is None:
        overlays = rng.choice((0, 0, 1, 1, 2, 3))
    overlay_specs = []
    for idx in range(overlays):
        overlay = good_overlay(rng, target)
        if nulls and rng.random() < 0.5:
            overlay = with_nulls(rng, overlay)
        if hostile_identity and rng.random() < 0.8:
            overlay = deep_merge(overlay, impostor())
        if not overlay:
            continue
        skip = rng.random() < 0.2
        one: dict = {}
        if rng.random() < 0.35:
            function_name = f"vf-{unique}-{idx}"
            inner = Inputs(rng)
            return_spec = inner.hide(overlay, 0.4, maps=False)
            function_spec: dict = {"return": return_spec}
            if inner.locals:
                function_spec["locals"] = inner.locals
            functions[function_name] = function_spec
            one["overlayRef"] = {"kind": "ValueFunction", "name": function_name}
            if inner.inputs:
                one["inputs"] = {
                    key: (hidden.expression(item) if rng.random() < 0.4 or not _static_ok(item) else item)
                    for key, item in inner.inputs.items()
                }
        else:
            one["overlay"] = hidden.hide(overlay, 0.3, maps=False)
        if skip:
            one["skipIf"] = rng.choice(
                ("=true", "=size(inputs) >= 0", hidden.expression(True))
            )
        elif rng.random() < 0.2:
            one["skipIf"] = rng.choice(("=false", hidden.expression(False)))
        overlay_specs.append(one)
        if not skip:
            layers.append(copy.deepcopy(overlay))
            target = deep_merge(target, overlay)
    if overlay_specs:
        spec["overlays"] = overlay_specs
    target = deep_merge(target, identity)

    delays = {"create": 30, "patch": 30, "recreate": 30}
    create_target = target
    create_spec: dict = {}
    if rng.random() < 0.5:
        delays["create"] = create_spec["delay"] = rng.choice((0, 1, 7, 45, 120))
    if rng.random() < 0.15:
        create_spec["enabled"] = True
    if create_overlay and rng.random() < 0.35:
        overlay = good_overlay(rng, target, only_new=(create_overlay == "additive"))
        if hostile_identity and rng.random() < 0.9:
            overlay = deep_merge(overlay, impostor())
        if overlay:
            create_spec["overlay"] = hidden.hide(overlay, 0.3, maps=False)
            create_target = deep_merge(deep_merge(target, overlay), identity)
    if create_spec:
        spec["create"] = create_spec

    if policy is None:
        policy = rng.choice(("patch", "patch", "patch", "recreate", "never", "default"))
    if policy in ("patch", "recreate"):
        delays[policy] = rng.choice((0, 1, 5, 30, 77))
        spec["update"] = {policy: {"delay": delays[policy]}}
        if delays[policy] == 30 and rng.random() < 0.7:
            spec["update"] = {policy: {}}
    elif policy == "never":
        spec["update"] = {"never": {}}

    if owned is None:
        owned = rng.random() < 0.7
    owner_namespace = (
        namespace
        if rng.random() < 0.7 and namespace is not None
        else rng.choice(NAMESPACES)
    )
    owner = (owner_namespace, gen_owner_ref(rng))

    api_config: dict = {
        "apiVersion": api_version,
        "kind": kind,
        "plural": plural,
        "name": maybe(name),
    }
    if lookup:
        del api_config["plural"]
    if namespaced:
        api_config["namespace"] = maybe(namespace)
        if rng.random() < 0.2:
            api_config["namespaced"] = True
    else:
        api_config["namespaced"] = False
    if not owned or rng.random() < 0.2:
        api_config["owned"] = owned
    if readonly or rng.random() < 0.1:
        api_config["readonly"] = readonly
    spec["apiConfig"] = api_config

    hidden.inputs["tag"] = simple_string(rng)
    spec["return"] = {
        "name": "=resource.metadata.name",
        "tag": "=inputs.tag",
        "fixed": ["static", 7, True],
    }
    returns = {"name": name, "tag": hidden.inputs["tag"], "fixed": ["static", 7, True]}
    if rng.random() < 0.4:
        spec["postconditions"] = [
            {
                "assert": "=resource.metadata.name == inputs.wantName",
                "permFail": {"message": "postcondition"},
            }
        ]
        hidden.inputs["wantName"] = name
    if rng.random() < 0.3:
        spec["preconditions"] = [
            {"assert": "=size(inputs.tag) >= 0", "skip": {"message": "never"}}
        ]
    if hidden.locals:
        spec["locals"] = hidden.locals

    return Scenario(
        api_version=api_version,
        kind=kind,
        plural=plural,
        namespaced=namespaced,
        name=name,
        namespace=namespace,
        spec=spec,
        inputs=hidden.inputs,
        target=_annotated(target),
        create_target=_annotated(create_target),
        owner=owner,
        owned=owned,
        policy="patch" if policy == "default" else policy,
        delays=delays,
        templates=templates,
        functions=functions,
        returns=returns,
        layers=layers,
    )


def _static_ok(value):
    return True


async def install_scenario(scenario: Scenario):
    """Install what the scenario's function refers to and prepare the function."""
    from kmon import defs

    for name, spec in scenario.templates.items():
        await defs.install("ResourceTemplate", name, spec)
    for name, spec in scenario.functions.items():
        await defs.install("ValueFunction", name, spec)
    function = await defs.prepared("ResourceFunction", scenario.spec)
    return function


async def uninstall_scenario(scenario: Scenario):
    from kmon import defs

    for name in scenario.templates:
        await defs.uninstall("ResourceTemplate", name)
    for name in scenario.functions:
        await defs.uninstall("ValueFunction", name)


# ---------------------------------------------------------------------------
# Live objects

EXTRAS = {
    "defaulted": "by-server",
    "phase": 3,
    "observedGeneration": 2,
    "conditionsX": [{"type": "Ready", "status": "True"}],
    # As API servers write 1e19.
    "observedTotal": 10000000000000000000,
}


def benign(rng, target, owner_ref=None, annotate=True):
    """A live object which meets `target`, as a server and others may leave it."""
    uses_last_applied = any(
        path.endswith(LAST_APPLIED) for path in directive_paths(target)
    )
    live = _benign(rng, target)
    live.pop("metadata", None)
    metadata = _benign(rng, target.get("metadata", {}), extras=False)
    for key, item in strip(target.get("metadata", {})).items():
        if item is not None:
            metadata.setdefault(key, item)
    live["metadata"] = metadata
    live["apiVersion"] = target["apiVersion"]
    live["kind"] = target["kind"]
    metadata.setdefault("uid", "uid-live")
    metadata["resourceVersion"] = "41"
    if rng.random() < 0.5:
        metadata["managedFields"] = [{"manager": "koreo", "operation": "Update"}]
    if rng.random() < 0.4:
        live["status"] = {"ready": True, "conditions": [{"type": "Ready"}]}
    if rng.random() < 0.3 and target.get("metadata", {}).get("labels", {}) is not None:
        metadata.setdefault("labels", {})["injected"] = "yes"
    annotations = metadata.get("annotations")
    if annotate and (uses_last_applied or rng.random() < 0.7):
        applied = strip(target)
        if not uses_last_applied and rng.random() < 0.4:
            # What was applied before the target became what it is now.
            applied = earlier(rng, applied)
        metadata.setdefault("annotations", {})[ANNOTATION] = json.dumps(applied)
    elif rng.random() < 0.2:
        metadata.setdefault("annotations", {})[ANNOTATION] = rng.choice(
            ("", "{", "[]", "null", "{}", '{"spec": 3}', "7")
        )
    refs = []
    if rng.random() < 0.3:
        for _ in range(rng.choice((1, 1, 1, 2, 3, 5))):
            ref = other_owner(rng, owner_ref or OWNER_REF)
            if ref["uid"] not in {one["uid"] for one in refs}:
                refs.append(ref)
    if rng.random() < 0.15 and "finalizers" not in target.get("metadata", {}):
        metadata["finalizers"] = ["kmon.test/hold"]
    if rng.random() < 0.08:
        metadata.setdefault("deletionTimestamp", "2024-02-02T00:00:00Z")
    if owner_ref is not None:
        refs.insert(rng.randint(0, len(refs)), copy.deepcopy(owner_ref))
    if refs:
        metadata["ownerReferences"] = refs
    elif rng.random() < 0.1:
        metadata["ownerReferences"] = []
    return live


def earlier(rng, value):
    """`value` as it may have been once."""
    if isinstance(value, dict):
        out = {}
        for key, item in value.items():
            roll = rng.random()
            if roll < 0.12:
                continue
            out[key] = rng.choice((None, [], {}, "old")) if roll < 0.18 else earlier(rng, item)
        if rng.random() < 0.2:
            out[rng.choice(KEYS)] = rng.choice(("old", {"k": "v"}, [1]))
        return out
    if isinstance(value, list):
        out = [earlier(rng, item) for item in value]
        roll = rng.random()
        if roll < 0.3:
            return out[: rng.randint(0, len(out))]
        if roll < 0.4:
            return [*out, rng.choice(("old", {"name": "old"}, 1))]
        if roll < 0.5:
            rng.shuffle(out)
        return out
    return rng.choice((value, value, value, "old", 7, None))


def _benign(rng, target, extras=True):
    if isinstance(target, dict):
        out = {}
        for key, item in target.items():
            if key in DIRECTIVES:
                continue
            if item is None:
                if rng.random() < 0.3:  # seldom stored by a server
                    out[key] = None
                continue
            if key in target.get(LAST_APPLIED, ()):
                roll = rng.random()
                if roll < 0.3:
                    continue  # dropped by the server
                if roll < 0.5:
                    out[key] = "set-by-server"
                    continue
            if key in target.get(AS_SET, ()):
                members = list(item)
                rng.shuffle(members)
                if members and rng.random() < 0.2:
                    members.append(rng.choice(members))
                out[key] = members
            elif key in target.get(AS_MAP, {}):
                members = [_benign(rng, member) for member in item]
                for member, wanted in zip(members, item):
                    for name in target[AS_MAP][key]:
                        if name in wanted:
                            member[name] = wanted[name]
                        else:
                            member.pop(name, None)
                rng.shuffle(members)
                out[key] = members
            else:
                out[key] = _benign(rng, item)
        if extras:
            for key, item in EXTRAS.items():
                if rng.random() < 0.15 and key not in target:
                    out[key] = copy.deepcopy(item)
        return out
    if isinstance(target, list):
        return [_benign(rng, item) for item in target]
    if (
        isinstance(target, int)
        and not isinstance(target, bool)
        and rng.random() < 0.05
    ):
        return float(target)
    if isinstance(target, float) and target == int(target) and rng.random() < 0.3:
        return int(target)
    return target


def serverside(rng, target, obj):
    """What a server may do to a stored object which meets `target`: add fields,
    and keep set- and map-directed lists in an order of its own. In place."""
    if isinstance(target, dict) and isinstance(obj, dict):
        for key, item in target.items():
            if key in DIRECTIVES or key not in obj:
                continue
            have = obj[key]
            if key in target.get(AS_SET, ()):
                if isinstance(have, list):
                    rng.shuffle(have)
            elif key in target.get(AS_MAP, {}):
                if isinstance(have, list):
                    fields = target[AS_MAP][key]
                    wanted = {_member_key(one, fields): one for one in item}
                    for member in have:
                        found = wanted.get(_member_key(member, fields))
                        if found is not None:
                            serverside(rng, found, member)
                    rng.shuffle(have)
            else:
                serverside(rng, item, have)
        if rng.random() < 0.2:
            key = rng.choice(sorted(EXTRAS))
            if key not in target and key not in DIRECTIVES:
                obj.setdefault(key, copy.deepcopy(EXTRAS[key]))
    elif isinstance(target, list) and isinstance(obj, list):
        for wanted, have in zip(target, obj):
            serverside(rng, wanted, have)


def decorator(rng, target):
    """A `Cluster.decorate` hook for objects of one scenario."""
    versions = iter(range(100, 100000))

    def decorate(key, obj):
        metadata = obj.setdefault("metadata", {})
        annotations = copy.deepcopy(metadata.get("annotations"))
        serverside(rng, {k: v for k, v in target.items() if k != "metadata"}, obj)
        if annotations is not None:
            metadata["annotations"] = annotations
        metadata.setdefault("uid", "uid-server")
        metadata["resourceVersion"] = str(next(versions))
        metadata.setdefault("creationTimestamp", "2024-01-01T00:00:00Z")
        bare = target.get("metadata", {}).get("labels", {}) is None
        if rng.random() < 0.4 and not bare:
            metadata.setdefault("labels", {}).setdefault("injected", "yes")
        if rng.random() < 0.4:
            obj["status"] = {"phase": rng.choice(("Pending", "Ready"))}

    return decorate


# ---------------------------------------------------------------------------
# Drift: changes to a live object after which it no longer meets the target


def _other_scalar(rng, value):
    """Differs from `value`, often only in type."""
    options = []
    if isinstance(value, bool):
        options = [not value, str(value).lower(), int(value), None, [], {}, str(value)]
    elif isinstance(value, int):
        options = [value + 1, -value - 1, str(value), value + 0.5, None, [value], {}]
        if value in (0, 1):
            options += [bool(value)] * 2
    elif isinstance(value, float):
        options = [value + 1, str(value), [value], None, False]
    elif isinstance(value, str):
        options = [value + "x", value.upper() + "Y", [value], {"v": value}, 7, None]
        options += [list(value), value + " ", {}]
        if value == "":
            options += [[], {}, False, 0]
        if value in ("true", "True"):
            options += [True] * 3
        if value in ("false", "False"):
            options += [False] * 3
        if value in ("null", "None", "nan"):
            options += [None] * 3
    else:
        options = [1, "x", False]
    return rng.choice(options)


def drift_points(target, live, path=(), last_applied=False):
    """(path, kind, target value) for everything the target specifies."""
    if isinstance(target, dict) and isinstance(live, dict):
        for key, wanted in target.items():
            if key in DIRECTIVES or key == "ownerReferences":
                continue
            if key in target.get(LAST_APPLIED, ()):
                continue
            here = (*path, key)
            if wanted is None and "metadata" not in here:
                yield here, "null", None
                continue
            if key not in live:
                continue
            if path == () and key in ("apiVersion", "kind"):
                continue
            if path == ("metadata",) and key in ("name", "namespace"):
                continue
            if path == () and key == "metadata":
                yield from drift_points(wanted, live[key], here)
                continue
            if path == ("metadata",):
                # the server itself keeps these maps of strings
                if isinstance(wanted, dict) and isinstance(live[key], dict):
                    for inner in wanted:
                        if inner in live[key] and inner not in DIRECTIVES:
                            yield (*here, inner), "string", wanted[inner]
                continue
            if key in target.get(AS_SET, ()):
                yield here, "set", wanted
            elif key in target.get(AS_MAP, {}):
                if not isinstance(live[key], list):
                    continue  # drifted already
                yield here, ("map", tuple(target[AS_MAP][key])), wanted
                fields = target[AS_MAP][key]
                wanted_by = {_member_key(item, fields): item for item in wanted}
                members = live[key] if isinstance(live[key], list) else ()
                for idx, member in enumerate(members):
                    found = wanted_by.get(_member_key(member, fields))
                    if found is not None:
                        yield from drift_points(found, member, (*here, idx))
            else:
                yield here, "plain", wanted
                yield from drift_points(wanted, live[key], here)
    elif isinstance(target, list) and isinstance(live, list):
        for idx, (wanted, have) in enumerate(zip(target, live)):
            here = (*path, idx)
            yield here, "item", wanted
            yield from drift_points(wanted, have, here)


def apply_drift(rng, target, live):
    """Drift `live` in place at one place; returns a description, or None."""
    points = list(drift_points(target, live))
    if not points:
        return None
    path, kind, wanted = rng.choice(points)
    parent = live
    for key in path[:-1]:
        parent = parent[key]
    key = path[-1]
    if kind == "null":
        parent[key] = rng.choice(("x", "", 0, 5, False, True, [], {}, [1], {"a": 1}))
        return f"null {path} became {parent[key]!r}"
    have = parent[key]

    if kind != "item" and rng.random() < 0.25:
        del parent[key]
        return f"removed {path}"

    if kind == "string":
        parent[key] = f"{have}-edited"
        return f"changed {path}"

    if isinstance(wanted, list) and isinstance(have, list):
        if kind == "set":
            roll = rng.random()
            if roll < 0.35:
                have.append(rng.choice(("extra", 99, True, False, "1", 1, 0, "true")))
                return f"added {have[-1]!r} to set {path}"
            if roll < 0.7 and have:
                gone = have.pop(rng.randrange(len(have)))
                return f"removed {gone!r} from set {path}"
            if roll < 0.9 and have:
                idx = rng.randrange(len(have))
                have[idx] = _other_scalar(rng, have[idx])
                return f"changed a member of set {path} to {have[idx]!r}"
            parent[key] = rng.choice(("x", {}, 3, None, {"0": "x"}))
            return f"retyped set {path} to {parent[key]!r}"
        if isinstance(kind, tuple):
            roll = rng.random()
            if roll < 0.6 and have:
                idx = rng.randrange(len(have))
                del have[idx]
                return f"removed a member of {path}"
            if roll < 0.8 and have:
                idx = rng.randrange(len(have))
                name = rng.choice(kind[1])
                if isinstance(have[idx], dict) and name in have[idx]:
                    have[idx][name] = f"{have[idx][name]}-renamed"
                return f"renamed a member of {path}"
            parent[key] = rng.choice(("x", {}, 3, None, {"name": "m0"}))
            return f"retyped map list {path} to {parent[key]!r}"
        roll = rng.random()
        if roll < 0.3:
            have.append(rng.choice((copy.deepcopy(have[-1]) if have else "x", "x", {}, None)))
            return f"list {path} got longer"
        if roll < 0.55 and have:
            del have[rng.randrange(len(have))]
            return f"list {path} got shorter"
        if roll < 0.75 and len(have) > 1:
            have.reverse()
            return f"list {path} reversed"
        parent[key] = rng.choice(({}, "x", 0, None, False, {"0": "x"}))
        return f"list {path} became {parent[key]!r}"
    if isinstance(wanted, dict):
        parent[key] = rng.choice(([], "x", 0, None, True, [copy.deepcopy(have)], ""))
        return f"map {path} became {parent[key]!r}"
    parent[key] = _other_scalar(rng, have)
    return f"{path}: {have!r} became {parent[key]!r}"


def last_applied_points(target, path=()):
    """Paths (through maps only) of keys compared to what was last applied."""
    if isinstance(target, dict):
        for key, item in target.items():
            if key in DIRECTIVES:
                continue
            if key in target.get(LAST_APPLIED, ()):
                yield (*path, key)
            elif key not in target.get(AS_SET, ()) and key not in target.get(AS_MAP, {}):
                yield from last_applied_points(item, (*path, key))


def drift_last_applied(rng, target, live):
    """Make the live object's record of what was last applied differ in a place
    where the target is compared to it."""
    points = list(last_applied_points(target))
    loaded = last_applied_of(live)
    if not points or loaded is None:
        return None
    path = rng.choice(points)
    parent = loaded
    for key in path[:-1]:
        if not isinstance(parent, dict) or key not in parent:
            return None
        parent = parent[key]
    if not isinstance(parent, dict) or path[-1] not in parent:
        return None
    roll = rng.random()
    annotations = live["metadata"]["annotations"]
    if roll < 0.3:
        del parent[path[-1]]
    elif roll < 0.6 or isinstance(parent[path[-1]], (dict, list)):
        parent[path[-1]] = "previously"
    elif roll < 0.85:
        parent[path[-1]] = _other_scalar(rng, parent[path[-1]])
    else:
        del annotations[ANNOTATION]
        return "last-applied annotation removed"
    annotations[ANNOTATION] = json.dumps(loaded)
    return f"last applied {path} differs"


def unmet(scenario, live):
    """Why `live` does not meet the scenario's target (None when it does)."""
    last = last_applied_of(live)
    return meets(scenario.target, live, _ABSENT if last is None else last)


def uids(obj):
    refs = (obj.get("metadata") or {}).get("ownerReferences") or []
    return [ref.get("uid") for ref in refs if isinstance(ref, dict)]


def is_full_target(scenario, payload, target=None):
    """None when `payload` is exactly the target (plus Koreo's annotation and owner
    references), else the first difference."""
    from kmon.values import jdiff

    want = drop_empty_annotations(strip(target or scenario.target))
    have = drop_empty_annotations(without_last_applied(payload))
    want.get("metadata", {}).pop("ownerReferences", None)
    want = drop_empty_annotations(without_last_applied(want))
    have.get("metadata", {}).pop("ownerReferences", None)
    return jdiff(want, have)
