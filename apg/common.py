"""Helpers shared by the property checks."""

import copy
import json
import re

from . import gen, model as M, run
from .driver import Violation


def texts_of(bundle, layout=None):
    return [M.render(m, layout) for m in bundle["modules"]]


def names_of(bundle):
    return [m["name"] for m in bundle["modules"]]


def must(gen_name, bundle, texts=None, modules=None, **kw):
    """Run a generator which has to succeed."""
    texts = texts if texts is not None else texts_of(bundle)
    if gen_name != "cosmos":
        modules = modules or names_of(bundle)
    r = run.generate(gen_name, texts, modules, **kw)
    if not r.ok:
        raise Violation(
            "generate-%s failed (%s) on a valid bundle: %s" % (gen_name, r.rc, r.tail())
        )
    return r


def cosmos_packets(bundle, module, messages=None, texts=None, target="tgt"):
    """{packet name: CosmosPacket} of all sequences (or the given ones)."""
    if messages is None:
        messages = [d["name"] for d in module["defs"] if d["d"] == "seq"]
    if not messages:
        return {}
    r = must(
        "cosmos", bundle, texts=texts, modules=module["name"], messages=messages,
        target=target,
    )
    text = file_text(r, target + ".txt")
    packets = read_cosmos(text)
    names = [p.name for p in packets]
    if names != messages:
        raise Violation(
            "COSMOS file has the packets %s, requested were %s" % (names, messages)
        )
    for p in packets:
        if p.target != target:
            raise Violation("COSMOS packet %s has target %s" % (p.name, p.target))
    return {p.name: p for p in packets}


def read_cosmos(text):
    try:
        return run.parse_cosmos(text)
    except run.CosmosFormatError as e:
        raise Violation(str(e)) from e


def file_text(result, name):
    if name not in result.files:
        raise Violation(
            "file %s is missing, written were %s" % (name, sorted(result.files))
        )
    return result.files[name].decode("utf-8", "replace")


def header_names(gen_name, bundle):
    suffix = "_msg.h" if gen_name == "cfs" else ".h"
    return [M.c_name(m["name"]) + suffix for m in bundle["modules"]]


def norm_comment(text):
    """Comments are compared without what has to be changed in C or COSMOS."""
    return re.sub(r"[\\\"'*/\s]", "", text or "")


def norm_description(text):
    """The same for COSMOS, where only quotes and backslashes are changed."""
    return re.sub(r"[\\\"']", "", text or "").strip()


def clone(x):
    return json.loads(json.dumps(x)) if not isinstance(x, list) else copy.deepcopy(x)


def strip_comments(bundle):
    b = clone(bundle)

    def with_strip(w):
        if w:
            w["comment"] = None
            for i in w["items"]:
                i["comment"] = None
                if "w" in i["value"]:
                    with_strip(i["value"]["w"])

    for m in b["modules"]:
        m["comment"] = m["icomment"] = None
        for i in m["imports"]:
            i["comment"] = None
        for d in m["defs"]:
            d["comment"] = None
            for x in d.get("fields", []) + d.get("items", []):
                x["comment"] = None
                if x.get("with"):
                    with_strip(x["with"])
    return b


def show_bundle(case):
    b = case["bundle"] if "bundle" in case else case
    out = "\n".join(texts_of(b))
    extra = {k: v for k, v in case.items() if k not in ("bundle", "modules")}
    if extra:
        out += "\n" + json.dumps(extra, sort_keys=True)[:600]
    return out[:3000]


def c_value(x, t):
    """A C expression of a constrained value."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, float):
        return repr(x)
    if x < 0:
        return "(%dLL - 1)" % (x + 1)
    return "%dULL" % x


def c_path(path):
    return ".".join(M.c_name(k) for k in path)


def layout_of(scope, seq):
    """[(field, dims, element, bit offset, element bits)], total bits: how a
    packed C struct has to be laid out (bitfields follow each other, anything
    else starts at the next byte)."""
    out = []
    at = 0
    for f in seq["fields"]:
        dims, ty = M.split_array(f["ty"])
        t = scope.resolve(ty)
        if t.get("d") == "seq":
            bits = -(-layout_of(scope, t)[1] // 8) * 8
            bitfield = False
        elif dims:
            from .cprobe import element_bits_in_c

            bits = element_bits_in_c(t)
            bitfield = False
        else:
            bits = M.leaf_bits(t)
            bitfield = gen.is_bitfield_leaf(t)
        if not bitfield:
            at = -(-at // 8) * 8
        out.append((f, dims, t, at, bits))
        at += bits * M.prod(dims)
    return out, at
