"""Import the code under test (always from /repo's working tree) and prepare the
process for monitoring. Import this module before anything from `koreo`."""

import logging
import os
import sys

sys.dont_write_bytecode = True

REPO_SRC = os.environ.get("KMON_REPO_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

logging.disable(logging.CRITICAL)

import koreo.cache as _cache

# CPython 3.12 (the sandbox; koreo-core itself requires 3.13) leaks a generic
# class's private-name mangling to the code after it, so that the module global
# `__CACHE` is bound under a mangled name and every lookup compiled before the
# class fails. Offer the very same object under both names.
_names = vars(_cache)
for _name in [name for name in _names if name.startswith("_") and name.endswith("__CACHE")]:
    _names.setdefault("__CACHE", _names[_name])

assert os.path.realpath(_cache.__file__).startswith(os.path.realpath(REPO_SRC)), (
    f"koreo was imported from {_cache.__file__}"
)
