"""Independent model of the ASN.1 subset APG reads: a JSON-able syntax tree, its
text form, and what the tree means (widths, leaf items, values).

Nothing here uses APG's code.  Shapes:

 bundle  {"modules": [module, ...]}
 module  {"name", "comment", "imports": [import], "icomment", "defs": [def]}
 import  {"types": [name], "from": module name, "comment"}
 def     {"d": "simple", "name", "ty", "comment"}
         {"d": "enum", "name", "items": [{"key", "pos", "comment"}], "comment"}
         {"d": "seq", "name", "fields": [field], "comment"}
         {"d": "choice", "name", "fields": [field], "comment"}
 field   {"key", "ty", "comment", "with"}
 ty      {"k": "uint"|"int", "lo", "hi"}, {"k": "real", "lo", "hi"} (texts),
         {"k": "bool"}, {"k": "str", "t", "n"}, {"k": "ref", "n"},
         {"k": "arr", "n", "e"}
 with    {"comment", "items": [{"key", "value", "comment"}]}; value is
         {"w": with} or {"v": text, "x": python value}
 comment None or {"le": bool, "unit": str|None, "text": str|None}
"""

import random

FLOAT_LIMIT = 3.4e38

POSIX = {
    "Int8-t": ("int", -(2**7), 2**7 - 1),
    "Int16-t": ("int", -(2**15), 2**15 - 1),
    "Int32-t": ("int", -(2**31), 2**31 - 1),
    "Int64-t": ("int", -(2**63), 2**63 - 1),
    "Uint8-t": ("uint", 0, 2**8 - 1),
    "Uint16-t": ("uint", 0, 2**16 - 1),
    "Uint32-t": ("uint", 0, 2**32 - 1),
    "Uint64-t": ("uint", 0, 2**64 - 1),
    "Float": ("real", "-3.4e38", "3.4e38"),
    "Double": ("real", "-1.7976931348623157e308", "1.7976931348623157e308"),
}


def c_name(name):
    return name.replace("-", "_")


def lowerize(name):
    return name[:1].lower() + name[1:]


# ---------------------------------------------------------------- text form


class Layout:
    """White space choices of a rendering: canonical, or drawn from a seed."""

    def __init__(self, seed=None):
        self.rng = None if seed is None else random.Random(seed)

    def sep(self, default, minimum):
        if self.rng is None:
            return default
        r = self.rng
        if minimum == 0 and r.random() < 0.35:
            return ""
        pool = [" ", "\n", "\t", "  ", "\n\n", "\r\n", " \t ", "\n    "]
        return "".join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3])))

    def spaces(self, default):
        if self.rng is None:
            return default
        return " " * self.rng.choice([0, 1, 1, 2, 5])

    def newline(self, default):
        if self.rng is None:
            return default
        return self.rng.choice(["\n", "\r\n", "\n\n", "\n \t", "\n        "])


def comment_text(comment, layout):
    out = layout.spaces(" ") + "--" + layout.spaces(" ")
    if comment["le"]:
        out += "ENDIANNESS(LITTLE)" + layout.spaces(" ")
    if comment["unit"] is not None:
        out += "[" + comment["unit"] + "]" + layout.spaces(" ")
    if comment["text"] is not None:
        out += comment["text"]
    return out


def type_text(ty):
    k = ty["k"]
    if k in ("uint", "int"):
        return "INTEGER(%d..%d)" % (ty["lo"], ty["hi"])
    if k == "real":
        return "REAL(%s .. %s)" % (ty["lo"], ty["hi"])
    if k == "bool":
        return "BOOLEAN"
    if k == "null":
        return "NULL"
    if k == "str":
        return "%s (SIZE (%d))" % (ty["t"], ty["n"])
    if k == "ref":
        return ty["n"]
    if k == "arr":
        return "SEQUENCE (SIZE (%d)) OF %s" % (ty["n"], type_text(ty["e"]))
    if k == "raw":
        return ty["text"]
    raise AssertionError(k)


class _Out:
    """Collects ("t", token) ("s", default, minimum) ("c", comment)."""

    def __init__(self):
        self.parts = []

    def t(self, token):
        self.parts.append(("t", token))

    def s(self, default, minimum):
        self.parts.append(("s", default, minimum))

    def c(self, comment):
        if comment is not None:
            self.parts.append(("c", comment))


def _with_parts(o, w, indent):
    o.t("(WITH COMPONENTS {")
    o.c(w["comment"])
    for i, item in enumerate(w["items"]):
        o.s("\n" + indent + "  ", 0)
        o.t(item["key"])
        o.s(" ", 0)
        if "w" in item["value"]:
            _with_parts(o, item["value"]["w"], indent + "  ")
        else:
            o.t("(")
            o.s("", 0)
            o.t(item["value"]["v"])
            o.s("", 0)
            o.t(")")
        if i < len(w["items"]) - 1:
            o.s("", 0)
            o.t(",")
        o.c(item["comment"])
    o.s("\n" + indent, 0)
    o.t("})")


def _fields_parts(o, fields):
    for i, field in enumerate(fields):
        last = i == len(fields) - 1
        o.s("\n    ", 0)
        o.t(field["key"] + " " + type_text(field["ty"]))
        if field.get("with"):
            o.c(field["comment"])
            o.s(" ", 0)
            _with_parts(o, field["with"], "    ")
            if not last:
                o.s("", 0)
                o.t(",")
        elif last:
            o.c(field["comment"])
        else:
            o.s("", 0)
            o.t(",")
            o.c(field["comment"])


def module_parts(module):
    o = _Out()
    o.s("", 0)
    o.t("Module-" + module["name"])
    o.s(" ", 1)
    o.t("DEFINITIONS AUTOMATIC TAGS ::= BEGIN")
    o.c(module["comment"])
    if module["imports"]:
        o.s("\n\n", 1)
        o.t("IMPORTS")
        for imp in module["imports"]:
            o.s("\n  ", 1)
            for i, name in enumerate(imp["types"]):
                if i:
                    o.s("", 0)
                    o.t(",")
                    o.s(" ", 0)
                o.t(name)
            o.s(" ", 1)
            o.t("FROM Module-" + imp["from"])
            o.c(imp["comment"])
        o.s("", 0)
        o.t(";")
        o.c(module["icomment"])
    for d in module["defs"]:
        o.s("\n\n  ", 1)
        o.t(d["name"])
        o.s(" ", 0)
        if d["d"] == "simple":
            o.t("::= " + type_text(d["ty"]))
            o.c(d["comment"])
            continue
        if d["d"] == "enum":
            o.t("::= ENUMERATED {")
            o.c(d["comment"])
            for i, item in enumerate(d["items"]):
                o.s("\n    ", 0)
                o.t(item["key"])
                if item["pos"] is not None:
                    o.s("", 0)
                    o.t("(")
                    o.s("", 0)
                    o.t(str(item["pos"]))
                    o.s("", 0)
                    o.t(")")
                if i < len(d["items"]) - 1:
                    o.s("", 0)
                    o.t(",")
                o.c(item["comment"])
        else:
            o.t("::= SEQUENCE {" if d["d"] == "seq" else "::= CHOICE {")
            o.c(d["comment"])
            _fields_parts(o, d["fields"])
        o.s("\n  ", 0)
        o.t("}")
    o.s("\n\n", 1)
    o.t("END")
    o.s("\n", 0)
    return o.parts


def render_parts(parts, layout=None):
    layout = layout or Layout()
    out = []
    after_comment = False
    for part in parts:
        if part[0] == "t":
            if after_comment:
                out.append("\n")
            out.append(part[1])
            after_comment = False
        elif part[0] == "s":
            if after_comment:
                default = part[1] if part[1].startswith("\n") else "\n" + part[1]
                out.append(layout.newline(default))
                after_comment = False
            else:
                out.append(layout.sep(part[1], part[2]))
        else:
            out.append(comment_text(part[1], layout))
            after_comment = True
    return "".join(out)


def render(module, layout=None):
    return render_parts(module_parts(module), layout)


# ----------------------------------------------------------------- meaning


class Scope:
    """Name lookup over a bundle (type names are unique in a bundle)."""

    def __init__(self, bundle):
        self.bundle = bundle
        self.defs = {}
        self.home = {}
        for m in bundle["modules"]:
            for d in m["defs"]:
                self.defs[d["name"]] = d
                self.home[d["name"]] = m["name"]

    def resolve(self, ty):
        """Follow a reference: a non-reference type, or an enum/seq/choice def."""
        while ty["k"] == "ref":
            d = self.defs[ty["n"]]
            if d["d"] != "simple":
                return d
            ty = d["ty"]
        return ty


def enum_positions(d):
    """[(key, position)] in position order; every item or no item has one."""
    if any(i["pos"] is not None for i in d["items"]):
        return sorted(
            ((i["key"], i["pos"]) for i in d["items"]), key=lambda x: x[1]
        )
    return [(i["key"], n) for n, i in enumerate(d["items"])]


def real_bits(ty):
    lo, hi = float(ty["lo"]), float(ty["hi"])
    return 32 if lo >= -FLOAT_LIMIT and hi <= FLOAT_LIMIT else 64


def int_bits(lo, hi):
    for bits in (8, 16, 32, 64):
        if lo >= -(2 ** (bits - 1)) and hi < 2 ** (bits - 1):
            return bits
    raise AssertionError((lo, hi))


def leaf_bits(t):
    """Width in bits of a resolved leaf (scalar type, string or enum)."""
    if t.get("d") == "enum":
        return max(1, (len(t["items"]) - 1).bit_length())
    k = t["k"]
    if k == "uint":
        return max(1, t["hi"].bit_length())
    if k == "int":
        return int_bits(t["lo"], t["hi"])
    if k == "real":
        return real_bits(t)
    if k == "bool":
        return 1
    if k == "str":
        return 8 * t["n"]
    raise AssertionError(k)


def leaf_kind(t):
    if t.get("d") == "enum":
        return "enum"
    return t["k"]


def split_array(ty):
    """(dimensions, element type) of a type; strings are elements."""
    dims = []
    while ty["k"] == "arr":
        dims.append(ty["n"])
        ty = ty["e"]
    return dims, ty


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class Leaf:
    """One transported item of a packet."""

    def __init__(self, path, field, dims, element, bits, value):
        self.path = path  # keys from the packet down to the item
        self.field = field
        self.key = path[-1]
        self.dims = dims  # [] when not an array
        self.element = element  # resolved type or enum definition
        self.kind = leaf_kind(element)
        self.bits = bits  # of one element
        self.value = value  # constrained python value or None

    @property
    def total_bits(self):
        return self.bits * prod(self.dims)


def with_dict(w):
    return {i["key"]: i["value"] for i in w["items"]} if w else {}


def leaves(scope, seq, inherited=None, path=()):
    """The items of a SEQUENCE in order, nested sequences flattened.
    Arrays of sequences are not flattened: they raise LookupError."""
    out = []
    inherited = inherited or {}
    for f in seq["fields"]:
        dims, ty = split_array(f["ty"])
        element = scope.resolve(ty)
        here = path + (f["key"],)
        given = inherited.get(f["key"])
        if element.get("d") == "seq":
            if dims:
                raise LookupError("array of sequences")
            inner = dict(with_dict(f.get("with")))
            if given is not None and "w" in given:
                inner.update(with_dict(given["w"]))
            out.extend(leaves(scope, element, inner, here))
        elif element.get("d") == "choice":
            raise LookupError("choice")
        else:
            value = None
            if given is not None and "w" not in given:
                value = given["x"]
            out.append(Leaf(here, f, dims, element, leaf_bits(element), value))
    return out


def seq_defs(bundle):
    return [
        (m, d) for m in bundle["modules"] for d in m["defs"] if d["d"] == "seq"
    ]


def all_defs(bundle, *kinds):
    return [
        (m, d)
        for m in bundle["modules"]
        for d in m["defs"]
        if not kinds or d["d"] in kinds
    ]


def value_paths(w, path=()):
    """[(key path, value)] of the leaves of a WITH COMPONENTS, in text order."""
    out = []
    for i in w["items"]:
        here = path + (i["key"],)
        if "w" in i["value"]:
            out.extend(value_paths(i["value"]["w"], here))
        else:
            out.append((here, i["value"]))
    return out
