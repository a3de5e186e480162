"""The bundled CRD schemas, read independently of koreo (and of fastjsonschema)."""

import math
import os

import yaml

from kmon import boot

VALID, INVALID, UNCLEAR = "valid", "invalid", "unclear"


def load():
    """kind -> schema of its `spec`"""
    found = {}
    folder = os.path.join(boot.REPO_SRC, "koreo", "schema")
    for name in sorted(os.listdir(folder)):
        if not name.endswith(".yaml"):
            continue
        with open(os.path.join(folder, name)) as handle:
            for document in yaml.safe_load_all(handle):
                if not document or document.get("kind") != "CustomResourceDefinition":
                    continue
                for version in document["spec"]["versions"]:
                    if version["name"] == "v1beta1":
                        found[document["spec"]["names"]["kind"]] = version["schema"][
                            "openAPIV3Schema"
                        ]["properties"]["spec"]
    return found


def worst(verdicts):
    found = VALID
    for verdict in verdicts:
        if verdict == INVALID:
            return INVALID
        if verdict == UNCLEAR:
            found = UNCLEAR
    return found


HANDLED = {
    "type", "properties", "required", "items", "maxItems", "minItems", "maxLength",
    "minLength", "enum", "oneOf", "anyOf", "maxProperties", "minProperties",
    "additionalProperties",
}
NO_CONSTRAINT = {"description", "nullable", "default", "title", "example", "format"}


def judge(schema, value):
    verdicts = []
    if any(
        key not in HANDLED and key not in NO_CONSTRAINT and not key.startswith("x-")
        for key in schema
    ):
        verdicts.append(UNCLEAR)

    wanted = schema.get("type")
    if wanted:
        if value is None and schema.get("nullable"):
            # OpenAPI takes a null here, JSON schema does not.
            return UNCLEAR
        verdicts.append(of_type(wanted, value))

    if "enum" in schema and not any(
        type(value) is type(option) and value == option for option in schema["enum"]
    ):
        verdicts.append(INVALID)

    if isinstance(value, str):
        if len(value) > schema.get("maxLength", math.inf):
            verdicts.append(INVALID)
        if len(value) < schema.get("minLength", 0):
            verdicts.append(INVALID)

    if isinstance(value, list):
        if len(value) > schema.get("maxItems", math.inf):
            verdicts.append(INVALID)
        if len(value) < schema.get("minItems", 0):
            verdicts.append(INVALID)
        if "items" in schema:
            verdicts += [judge(schema["items"], item) for item in value]

    if isinstance(value, dict):
        properties = schema.get("properties", {})
        if len(value) > schema.get("maxProperties", math.inf):
            verdicts.append(INVALID)
        if len(value) < schema.get("minProperties", 0):
            verdicts.append(INVALID)
        for name in schema.get("required", ()):
            if name not in value:
                verdicts.append(INVALID)
        for name, item in value.items():
            if name in properties:
                verdicts.append(judge(properties[name], item))
            elif schema.get("additionalProperties") is False:
                verdicts.append(INVALID)
            elif isinstance(schema.get("additionalProperties"), dict):
                verdicts.append(judge(schema["additionalProperties"], item))

    for key in ("oneOf", "anyOf"):
        if key in schema:
            options = [judge(option, with_defaults(schema, value)) for option in schema[key]]
            matching = options.count(VALID)
            if UNCLEAR in options:
                verdicts.append(UNCLEAR)
            elif matching == 0 or (key == "oneOf" and matching != 1):
                verdicts.append(INVALID)
    return worst(verdicts)


def with_defaults(schema, value):
    """Defaults may be filled in before alternatives are considered (or not)."""
    if not isinstance(value, dict):
        return value
    names = set()
    for key in ("oneOf", "anyOf"):
        for option in schema.get(key, ()):
            names |= set(option.get("required", ()))
    for name, sub in schema.get("properties", {}).items():
        if "default" in sub and name in names and name not in value:
            raise NotImplementedError(f"{name} has a default and is an alternative")
    return value


def of_type(wanted, value):
    if isinstance(wanted, list):
        options = [of_type(option, value) for option in wanted]
        return VALID if VALID in options else worst(options)
    if wanted == "object":
        return VALID if isinstance(value, dict) else INVALID
    if wanted == "array":
        return VALID if isinstance(value, list) else INVALID
    if wanted == "string":
        return VALID if isinstance(value, str) else INVALID
    if wanted == "boolean":
        return VALID if isinstance(value, bool) else INVALID
    if wanted == "integer":
        if isinstance(value, bool):
            return INVALID
        if isinstance(value, float):
            return UNCLEAR if value.is_integer() else INVALID
        return VALID if isinstance(value, int) else INVALID
    if wanted == "number":
        good = isinstance(value, (int, float)) and not isinstance(value, bool)
        return VALID if good else INVALID
    if wanted == "null":
        return VALID if value is None else INVALID
    return UNCLEAR
