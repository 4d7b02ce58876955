"""The part of pydantic_core this library's schemas use, on symbolic values.

pydantic_core is a compiled extension, which symbolic values cannot enter.  The schemas it is
given are data, built by running the real `__get_pydantic_core_schema__` of the library under the
real pydantic; their validators and serialisers are the library's own Python functions.  This
module interprets such a schema, calling those functions on symbolic values.  It is the
environment model of C29; wherever values are concrete (replays of counterexamples, validation of
passing paths, narrowed inputs) the harnesses use the real pydantic instead, with JSON text.
A schema node outside this model raises EngineError: the harness is then decided on narrowed inputs.
"""

from __future__ import annotations

import sys
import warnings

from .engine import ConcCtx, EngineError, SymBool, SymInt
from .text import SymStr

SITE = "/opt/venv/lib/python3.12/site-packages"

try:
    import pydantic  # noqa: F401
except ImportError:
    sys.path.append(SITE)
    import pydantic  # noqa: F401

from pydantic import BaseModel, TypeAdapter, ValidationError  # noqa: E402

warnings.filterwarnings("ignore", module="pydantic")
warnings.filterwarnings("ignore", message="Pydantic serializer warnings")

EXACT, LAX = 2, 0
MISSING = object()


def invalid():
    return ValidationError.from_exception_data("value", [])


def plainly_wrong(v):
    """No scalar, whatever conversions are tried."""
    return v is None or isinstance(v, (list, dict, tuple)) or type(v) is object or type(v).__module__.startswith("expression.")


def unsupported(what):
    raise EngineError(f"pydantic model: {what}")


def is_real(ctx):
    """Whether the values of this run are plain ones, on which the real pydantic works."""
    return isinstance(ctx, ConcCtx) or bool(getattr(getattr(ctx, "ex", None), "narrow", False))


class Run:
    """One validation. `mode` is the kind of the whole input; `native`: v is JSON not yet turned into Python."""

    def __init__(self, mode):
        self.mode = mode
        self.defs = {}

    def call(self, f, *a):
        if f["type"] != "no-info":
            unsupported(f["type"])
        try:
            return f["function"](*a)
        except ValidationError:
            raise
        except (ValueError, AssertionError) as e:
            raise invalid() from e

    def go(self, s, v, native):
        """(value, exactness), or ValidationError."""
        m = getattr(self, "v_" + s["type"].replace("-", "_"), None)
        if m is None or s.get("strict"):
            unsupported(s["type"])
        return m(s, v, native)

    def v_any(self, s, v, native):
        return v, LAX

    def v_none(self, s, v, native):
        if v is None:
            return v, EXACT
        raise invalid()

    def v_int(self, s, v, native):
        if type(v) not in (int, SymInt):
            if plainly_wrong(v) or (type(v) is str and v in ("", "x", "ok")):
                raise invalid()
            unsupported(f"{type(v).__name__} for an int")
        for k, ok in (("gt", lambda b: v > b), ("ge", lambda b: v >= b), ("lt", lambda b: v < b), ("le", lambda b: v <= b)):
            if s.get(k) is not None and not ok(s[k]):
                raise invalid()
        if s.get("multiple_of") is not None:
            unsupported("multiple_of")
        return v, EXACT

    def v_str(self, s, v, native):
        if set(s) - {"type", "metadata", "ref"}:
            unsupported("str constraints")
        if isinstance(v, str):
            return v, EXACT
        if plainly_wrong(v) or type(v) in (int, SymInt, bool, SymBool):
            raise invalid()
        unsupported(f"{type(v).__name__} for a str")

    def v_bool(self, s, v, native):
        if type(v) in (bool, SymBool):
            return v, EXACT
        if plainly_wrong(v) or (type(v) is str and v in ("", "x", "ok")):
            raise invalid()
        unsupported(f"{type(v).__name__} for a bool")

    def v_literal(self, s, v, native):
        if not all(type(e) is str for e in s["expected"]):
            unsupported("literals other than str")
        if isinstance(v, str):
            for e in s["expected"]:
                if v == e:
                    return e, EXACT
        raise invalid()

    def v_list(self, s, v, native):
        if set(s) - {"type", "items_schema", "metadata", "ref"}:
            unsupported("list constraints")
        if type(v) not in ((list,) if native else (list, tuple)):
            if v is None or isinstance(v, (str, dict)) or type(v) in (int, SymInt, bool, SymBool):
                raise invalid()
            if plainly_wrong(v):
                raise invalid()
            unsupported(f"{type(v).__name__} for a list")
        if "items_schema" not in s:
            return list(v), EXACT
        out, ex, bad = [], EXACT, None
        for x in v:
            try:
                y, e = self.go(s["items_schema"], x, native)
            except ValidationError as err:
                bad = bad or err
                continue
            out.append(y)
            ex = min(ex, e)
        if bad:
            raise bad
        return out, ex

    def v_is_instance(self, s, v, native):
        if not native and isinstance(v, s["cls"]):
            return v, EXACT
        raise invalid()

    def v_union(self, s, v, native):
        best = None
        for c in s["choices"]:
            c = c[0] if isinstance(c, tuple) else c
            try:
                r = self.go(c, v, native)
            except ValidationError:
                continue
            if s.get("mode", "smart") == "left_to_right" or r[1] == EXACT:
                return r
            if best is None or r[1] > best[1]:
                best = r
        if best is None:
            raise invalid()
        return best

    def v_tagged_union(self, s, v, native):
        d = s["discriminator"]
        if type(d) is not str:
            unsupported("discriminator")
        if not isinstance(v, dict) or d not in v:
            raise invalid()
        for k, c in s["choices"].items():
            if v[d] == k:
                return self.go(c, v, native)
        raise invalid()

    def v_chain(self, s, v, native):
        ex = EXACT
        for x in s["steps"]:
            v, e = self.go(x, v, native)
            ex, native = min(ex, e), False
        return v, ex

    def v_function_wrap(self, s, v, native):
        ex = [EXACT]

        def handler(x, outer_location=None):
            r, e = self.go(s["schema"], x, False)
            ex[0] = min(ex[0], e)
            return r

        return self.call(s["function"], v, handler), ex[0]

    def v_function_before(self, s, v, native):
        return self.go(s["schema"], self.call(s["function"], v), False)

    def v_function_after(self, s, v, native):
        r, e = self.go(s["schema"], v, native)
        return self.call(s["function"], r), e

    def v_function_plain(self, s, v, native):
        return self.call(s["function"], v), LAX

    def v_json_or_python(self, s, v, native):
        return self.go(s["json_schema" if self.mode == "json" else "python_schema"], v, native)

    def v_lax_or_strict(self, s, v, native):
        return self.go(s["lax_schema"], v, native)

    def v_nullable(self, s, v, native):
        return (v, EXACT) if v is None else self.go(s["schema"], v, native)

    def v_definitions(self, s, v, native):
        self.defs.update({d["ref"]: d for d in s["definitions"]})
        return self.go(s["schema"], v, native)

    def v_definition_ref(self, s, v, native):
        return self.go(self.defs[s["schema_ref"]], v, native)

    def v_default(self, s, v, native):
        if v is not MISSING:
            return self.go(s["schema"], v, native)
        if s.get("validate_default"):
            unsupported("validate_default")
        if "default" in s:
            return s["default"], EXACT
        unsupported("default_factory")

    def fields(self, s, v, native, total):
        if s.get("extra_schema") or s.get("computed_fields"):
            unsupported("extra fields")
        out, ex, bad = {}, EXACT, False
        for k, f in s["fields"].items():
            if "validation_alias" in f or "serialization_alias" in f:
                unsupported("alias")
            x = v.get(k, MISSING)
            if x is MISSING and f["schema"]["type"] != "default":
                bad = bad or f.get("required", total)
                continue
            try:
                out[k], e = self.go(f["schema"], x, native)
                ex = min(ex, e)
            except ValidationError:
                bad = True
        extra = s.get("extra_behavior", (s.get("config") or {}).get("extra_fields_behavior", "ignore"))
        if extra == "forbid":
            bad = bad or any(k not in s["fields"] for k in v)
        elif extra != "ignore":
            unsupported(extra)
        if bad:
            raise invalid()
        return out, ex

    def v_typed_dict(self, s, v, native):
        if not isinstance(v, dict):
            if plainly_wrong(v) or isinstance(v, str) or type(v) in (int, SymInt, bool, SymBool):
                raise invalid()
            unsupported(f"{type(v).__name__} for a typed dict")
        return self.fields(s, v, native, s.get("total", True))

    def v_model(self, s, v, native):
        if s.get("custom_init") or s.get("root_model") or s.get("post_init"):
            unsupported("model with its own initialisation")
        if not native and type(v) is s["cls"]:
            return v, EXACT
        if not isinstance(v, dict):
            if plainly_wrong(v) or isinstance(v, str) or type(v) in (int, SymInt, bool, SymBool):
                raise invalid()
            unsupported(f"{type(v).__name__} for a model")
        if s["schema"]["type"] != "model-fields":
            unsupported(s["schema"]["type"])
        out, ex = self.fields(s["schema"], v, native, True)
        return s["cls"].model_construct(**out), ex


def infer(v, json):
    if v is None or type(v) in (bool, int, SymInt, SymBool) or isinstance(v, str):
        return v
    if type(v) is list or (json and type(v) is tuple):
        return [infer(x, json) for x in v]
    if type(v) is tuple:
        return tuple(infer(x, json) for x in v)
    if type(v) is dict:
        if not all(type(k) is str for k in v):
            unsupported("keys")
        return {k: infer(x, json) for k, x in v.items()}
    if isinstance(v, BaseModel):
        return dump(type(v).__pydantic_core_schema__, v, json, {})
    unsupported(f"serialising {type(v).__name__}")


def dump(s, v, json, defs):
    ser = s.get("serialization")
    if ser:
        if ser["type"] != "function-plain" or ser.get("info_arg") or ser.get("is_field_serializer") or ser.get("when_used", "always") != "always":
            unsupported("serialiser " + ser["type"])
        r = ser["function"](v)
        return dump(ser["return_schema"], r, json, defs) if ser.get("return_schema") else infer(r, json)
    t = s["type"]
    if t in ("none", "int", "str", "bool", "any", "literal"):
        return infer(v, json)
    if t == "list":
        if type(v) is not list:
            unsupported("serialising as a list")
        return [dump(s["items_schema"], x, json, defs) if "items_schema" in s else infer(x, json) for x in v]
    if t == "model":
        return {k: dump(f["schema"], getattr(v, k), json, defs) for k, f in s["schema"]["fields"].items()}
    if t in ("default", "function-wrap", "function-before", "function-after"):
        return dump(s["schema"], v, json, defs)
    if t == "nullable":
        return None if v is None else dump(s["schema"], v, json, defs)
    if t == "json-or-python":
        return dump(s["json_schema"], v, json, defs)
    if t == "chain":
        return dump(s["steps"][-1], v, json, defs)
    if t == "definitions":
        return dump(s["schema"], v, json, {**defs, **{d["ref"]: d for d in s["definitions"]}})
    if t == "definition-ref":
        return dump(defs[s["schema_ref"]], v, json, defs)
    unsupported("serialising a " + t)


_ADAPTERS: dict = {}


def adapter(tp):
    k = repr(tp)
    if k not in _ADAPTERS:
        _ADAPTERS[k] = TypeAdapter(tp)
    return _ADAPTERS[k]


def to_text(j):
    import json

    return json.dumps(j)


def validate_json(ctx, tp, j):
    """The value of the JSON tree j, or ValidationError."""
    a = adapter(tp)
    if is_real(ctx):
        return a.validate_json(to_text(j))
    return Run("json").go(a.core_schema, j, True)[0]


def validate_python(ctx, tp, v):
    a = adapter(tp)
    if is_real(ctx):
        return a.validate_python(v)
    return Run("python").go(a.core_schema, v, False)[0]


def dump_json(ctx, tp, v):
    """The JSON tree that v is written as."""
    a = adapter(tp)
    if is_real(ctx):
        import json

        return json.loads(a.dump_json(v))
    return dump(a.core_schema, v, True, {})


def dump_python(ctx, tp, v):
    a = adapter(tp)
    if is_real(ctx):
        return a.dump_python(v)
    return dump(a.core_schema, v, False, {})
