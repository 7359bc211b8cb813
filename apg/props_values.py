"""C06 C07 C08 C09: constrained values in msgids, COSMOS, C and binary files."""

import itertools
import re
import struct

from hypothesis import strategies as st

from . import gen, model as M, run
from .common import (
    c_path, c_value, clone, cosmos_packets, file_text, header_names, must, show_bundle,
)
from .cprobe import run_probe
from .driver import Info, Property, Skip, Violation
from .gen import Opts
from .props_layout import (
    BOOL, COSMOS_ARRAYS, F, INT, REF, SEQ, SIMPLE, UINT, ENUM, simple_bundle,
)

IDENT = {
    "packet-version-number": 13,
    "packet-type-is-cmd": 12,
    "sec-hdr-flag-is-present": 11,
    "application-process-identifier": 0,
}


def W(*items):
    out = []
    for key, value in items:
        if isinstance(value, dict):
            v = {"w": value}
        elif isinstance(value, bool):
            v = gen.bool_value(value)
        elif isinstance(value, float):
            v = {"v": repr(value), "x": value}
        else:
            v = gen.int_value(value)
        out.append({"key": key, "value": v, "comment": None})
    return {"comment": None, "items": out}


def split_values(d):
    """(MIDs, [(key, value)]) a sequence's own WITH COMPONENTS give."""
    mids, values = [], []
    for f in d["fields"]:
        if f.get("with"):
            for path, value in M.value_paths(f["with"]):
                full = (f["key"],) + path
                if "primary" in path[:-1]:
                    mids.append((full, value))
                else:
                    values.append((full, value))
    return mids, values


def mid_of(pairs):
    mid = 0
    for path, value in pairs:
        mid |= int(value["x"]) << IDENT[path[-1]]
    return mid


def parse_macro(text):
    text = text.strip()
    if text.startswith("(") and text.endswith(")"):
        text = text[1:-1].strip()
    if text in ("true", "false"):
        return text == "true"
    try:
        return int(text, 0)
    except ValueError:
        try:
            return float(text)
        except ValueError:
            return text


def msgids_macros(r, module):
    guard = "ASN1_PARSER_"
    out = run.macros(file_text(r, M.c_name(module["name"]) + "_msgids.h"))
    return [(n, v) for n, v in out if not n.startswith(guard)]


def parse_id(text):
    for convert in (lambda x: int(x, 0), int, float):
        try:
            return convert(text)
        except ValueError:
            pass
    raise Violation("COSMOS id %r is not a number" % text)


def cosmos_ids(packet, leaves, name):
    """Exactly the constrained items are ID items, with their values."""
    if [i.name for i in packet.items] != [l.key for l in leaves]:
        raise Violation(
            "packet %s has the items %s, expected %s"
            % (name, [i.name for i in packet.items], [l.key for l in leaves])
        )
    for item, leaf in zip(packet.items, leaves):
        where = "%s.%s" % (name, ".".join(leaf.path))
        if (item.id is None) != (leaf.value is None):
            raise Violation(
                "%s: COSMOS id %s, constrained to %s" % (where, item.id, leaf.value)
            )
        if item.id is not None and parse_id(item.id) != leaf.value:
            raise Violation(
                "%s: COSMOS id %s, constrained to %s" % (where, item.id, leaf.value)
            )
    return list(zip(packet.items, leaves))


# ---------------------------------------------------------------------- C06


def c06_check(case):
    b = case["bundle"]
    scope = M.Scope(b)
    r = must("cfs", b)
    seen = 0
    partial = False
    for m in b["modules"]:
        defs = [d for d in m["defs"] if d["d"] == "seq"]
        macros = msgids_macros(r, m)
        mids = sorted((n, v) for n, v in macros if n.endswith("_MID"))
        want = []
        for d in defs:
            pairs, _ = split_values(d)
            if pairs:
                want.append((M.c_name(d["name"]).upper() + "_MID", mid_of(pairs)))
        have = [(n, parse_macro(v)) for n, v in mids]
        if have != sorted(want):
            raise Violation(
                "module %s: message ids %s, the CCSDS primary headers say %s"
                % (m["name"], hexes(have), hexes(sorted(want)))
            )
        packets = cosmos_packets(b, m)
        for d in defs:
            pairs, _ = split_values(d)
            if not pairs:
                continue
            seen += 1
            partial = partial or len(pairs) < 4
            mid = 0
            bits = {}
            own = {path[:-1] for path, _ in pairs}
            for item, leaf in cosmos_ids(packets[d["name"]], M.leaves(scope, d), d["name"]):
                if leaf.path[:-1] in own and item.name in IDENT:
                    if item.id is not None:
                        mid |= parse_id(item.id) << IDENT[item.name]
                    bits.setdefault(leaf.path[:-1], {})[item.name] = item.bits
            if mid != mid_of(pairs):
                raise Violation(
                    "%s: COSMOS recognises 0x%04X, the message id is 0x%04X"
                    % (d["name"], mid, mid_of(pairs))
                )
            for got in bits.values():
                if got != {
                    "packet-version-number": 3, "packet-type-is-cmd": 1,
                    "sec-hdr-flag-is-present": 1, "application-process-identifier": 11,
                }:
                    raise Violation("%s: widths of the identification %s" % (d["name"], got))
    return Info(
        seen > 0, "%d messages" % seen, "partial" if partial else "complete",
        "%d modules" % len(b["modules"]),
    )


def hexes(pairs):
    return [(n, "0x%04X" % v if isinstance(v, int) else v) for n, v in pairs]


def ccsds_directed(values):
    defs = [
        SEQ("Ident", F("packet-version-number", UINT(7)), F("packet-type-is-cmd", BOOL),
            F("sec-hdr-flag-is-present", BOOL),
            F("application-process-identifier", UINT(2047))),
        SEQ("Prim", F("packet-identification", REF("Ident")), F("rest", UINT(65535))),
        SEQ("Head", F("primary", REF("Prim"))),
    ]
    for i, (v, t, s, a) in enumerate(values):
        defs.append(SEQ("Msg-%d" % i, F("head", REF("Head"), W(("primary", W(
            ("packet-identification", W(
                ("packet-version-number", v), ("packet-type-is-cmd", t),
                ("sec-hdr-flag-is-present", s), ("application-process-identifier", a),
            )))))), F("x", UINT(1))))
    return {"bundle": simple_bundle(defs)}


C06 = Property(
    "C06",
    lambda tier: st.fixed_dictionaries({"bundle": gen.ccsds_bundles(Opts(
        modules=(1, 2), seqs=(0, 1), withs=False, arrays=COSMOS_ARRAYS | {"enum"},
        fields=(1, 3)))}),
    c06_check, show_bundle,
    "Random CCSDS header modules (field order, wrapping, naming, module split) with messages whose "
    "packet identification is given completely or in part, in any order; the *_MID macro, the "
    "COSMOS ID items and the CCSDS bit layout (3/1/1/11) are compared. Non-trivial: at least one "
    "message with an identification.",
    {"quick": 1000, "thorough": 18000},
    directed=[
        ccsds_directed(
            [(v, bool(k & 1), bool(k & 2), a) for k, (v, a) in enumerate(
                [(0, 0), (1, 1), (2, 15), (3, 16), (4, 255), (5, 256), (6, 1024), (7, 2047),
                 (0, 0x2A), (7, 0x7F)])]
        ),
        ccsds_directed([(0, bool(k & 1), bool(k & 2), 1 << (k % 11)) for k in range(11)]),
    ],
    assumptions=["values are inside of the ranges of the CCSDS fields"],
)

# ---------------------------------------------------------------------- C07


def c07_check(case):
    b = case["bundle"]
    scope = M.Scope(b)
    r = must("cfs", b)
    kinds = set()
    total = 0
    for m in b["modules"]:
        want = []
        for d in m["defs"]:
            if d["d"] != "seq":
                continue
            name = M.c_name(d["name"]).upper()
            mids, values = split_values(d)
            if mids:
                want.append((name + "_MID", mid_of(mids)))
            for path, v in values:
                want.append((name + "_" + M.c_name(path[-1]).upper(), v["x"]))
                kinds.add(type(v["x"]).__name__)
                total += 1
                if len(path) > 2:
                    kinds.add("nested")
        have = [(n, parse_macro(v)) for n, v in msgids_macros(r, m)]
        key = lambda p: (p[0], type(p[1]).__name__, str(p[1]))
        if sorted(have, key=key) != sorted(want, key=key):
            raise Violation(
                "module %s: constants %s, the WITH COMPONENTS give %s"
                % (m["name"], sorted(have, key=key), sorted(want, key=key))
            )
        for n, v in run.macros(file_text(r, M.c_name(m["name"]) + "_msg.h")):
            if not n.startswith("ASN1_PARSER_"):
                raise Violation("constant %s in the message header of %s" % (n, m["name"]))
        packets = cosmos_packets(b, m)
        for d in m["defs"]:
            if d["d"] == "seq":
                cosmos_ids(packets[d["name"]], M.leaves(scope, d), d["name"])
    return Info(total > 0, *sorted(kinds))


@st.composite
def c07_cases(draw):
    if draw(st.integers(0, 3)) == 0:
        b = draw(gen.ccsds_bundles(
            Opts(seqs=(0, 1), withs=False, fields=(1, 3), arrays=COSMOS_ARRAYS | {"enum"})))
    else:
        b = draw(gen.bundles(Opts(
            simples=(0, 1), enums=(0, 1), seqs=(2, 4), big_enums=False,
            comments=draw(st.booleans()), arrays=COSMOS_ARRAYS | {"enum"},
        )))
    return {"bundle": b}


C07 = Property(
    "C07", lambda tier: c07_cases(), c07_check, show_bundle,
    "Random bundles whose sequences constrain items of nested, local or imported sequences to "
    "values (integers, reals, booleans, any depth, any order); the constants of each msgids header "
    "are compared with them as a multiset, and the ID items of every COSMOS packet (own and "
    "inherited constraints) item by item. Non-trivial: at least one constrained item.",
    {"quick": 1240, "thorough": 22000},
    directed=[
        {"bundle": simple_bundle([
            SEQ("In", F("a", UINT(2**64 - 1)), F("b", INT(-2**63, 5)), F("c", BOOL),
                F("d", {"k": "real", "lo": "-1.0", "hi": "1.0"}), F("e", BOOL), F("f", UINT(3))),
            SEQ("Mid", F("in", REF("In"))),
            SEQ("Out", F("m", REF("Mid"), W(("in", W(
                ("c", True), ("a", 2**64 - 1), ("e", False), ("d", -0.5), ("b", -2**63),
                ("f", 0))))), F("n", REF("In"), W(("f", 3)))),
        ])},
    ],
    assumptions=["constants are compared by name and value, not by position in the file"],
)

# ---------------------------------------------------------------------- C08


def c_leaves(scope, d, prefix=()):
    """(C path, field, dims, element) of every scalar, string or array."""
    out = []
    for f in d["fields"]:
        dims, ty = M.split_array(f["ty"])
        t = scope.resolve(ty)
        here = prefix + (f["key"],)
        if t.get("d") == "seq" and not dims:
            out.extend(c_leaves(scope, t, here))
        else:
            out.append((here, dims, t))
    return out


def declared_variables(header):
    """[(type, name)] of the variables a header declares."""
    code = re.sub(r"(?m)^\s*#.*$", "", run.strip_c_comments(header))
    before = None
    while before != code:
        before = code
        code = re.sub(r"\{[^{}]*\}", " @ ", code)
    out = []
    for statement in code.split(";"):
        x = re.fullmatch(r"\s*(?:extern\s+)?(\w+)\s+(\w+)\s*", statement)
        if x:
            out.append((x.group(1), x.group(2)))
    return out


def c08_check(case):
    b = case["bundle"]
    scope = M.Scope(b)
    r = must("c", b)
    heads = header_names("c", b)
    body, plan = [], []
    initialised = 0
    for m in b["modules"]:
        c_text = file_text(r, M.c_name(m["name"]) + ".c")
        defined = []
        code = run.strip_c_comments(c_text)
        for x in re.finditer(r"(?m)^\s*(\w+)\s+(\w+)\s*=", code):
            defined.append((x.group(1), x.group(2)))
        want = sorted(
            (M.c_name(d["name"]), M.lowerize(M.c_name(d["name"])))
            for d in m["defs"]
            if d["d"] == "seq" and any(f.get("with") for f in d["fields"])
        )
        if sorted(defined) != want:
            raise Violation(
                "module %s initialises %s, expected %s" % (m["name"], sorted(defined), want)
            )
        declared = declared_variables(file_text(r, M.c_name(m["name"]) + ".h"))
        if sorted(declared) != want:
            raise Violation(
                "the header of module %s declares %s, expected %s"
                % (m["name"], sorted(declared), want)
            )
        for d in m["defs"]:
            if d["d"] != "seq" or not any(f.get("with") for f in d["fields"]):
                continue
            initialised += 1
            t = M.c_name(d["name"])
            var = M.lowerize(t)
            body.append("{ static %s e; memset(&e, 0, sizeof e);" % t)
            given = {}
            for f in d["fields"]:
                if f.get("with"):
                    for path, v in M.value_paths(f["with"]):
                        full = (f["key"],) + path
                        given[full] = v["x"]
                        body.append("e.%s = %s;" % (c_path(full), c_value(v["x"], None)))
            body.append(
                'printf("%%d\\n", memcmp(&e, &%s, sizeof e) == 0 && sizeof e == sizeof %s);'
                % (var, var)
            )
            leaves = []
            for path, dims, el in c_leaves(scope, d):
                if dims or el.get("d") == "seq" or el.get("k") == "str":
                    continue
                fmt, cast = ("%.17g", "(double)") if el.get("k") == "real" else ("%lld", "(long long)")
                body.append(
                    'printf("%s %s\\n", %se.%s, %s%s.%s);'
                    % (fmt, fmt, cast, c_path(path), cast, var, c_path(path))
                )
                leaves.append(path)
            body.append("}")
            plan.append((d, leaves))
    if body:
        includes = heads + [M.c_name(m["name"]) + ".c" for m in b["modules"]]
        lines = iter(run_probe(r.files, includes, body, "generate-c"))
        for d, leaves in plan:
            same = next(lines)
            diffs = []
            for path in leaves:
                want, have = next(lines).split(" ")
                if want != have:
                    diffs.append("%s is %s, expected %s" % (".".join(path), have, want))
            if same != "1" or diffs:
                raise Violation(
                    "initialised variable of %s differs from its WITH COMPONENTS: %s"
                    % (d["name"], "; ".join(diffs) or "bytes differ")
                )
    return Info(initialised > 0, "%d variables" % min(initialised, 5))


@st.composite
def c08_cases(draw):
    if draw(st.integers(0, 5)) == 0:
        b = draw(gen.ccsds_bundles(Opts(seqs=(0, 1), withs=False, fields=(1, 3))))
    elif draw(st.integers(0, 5)) == 0:
        b = draw(gen.binary_bundles())
    else:
        b = draw(gen.bundles(Opts(
            simples=(0, 1), enums=(0, 1), seqs=(2, 4), big_enums=False,
            comments=draw(st.booleans()), few_keys=draw(st.integers(0, 2)) == 0,
        )))
    return {"bundle": b}


C08 = Property(
    "C08", lambda tier: c08_cases(), c08_check, show_bundle,
    "Random bundles with WITH COMPONENTS on several fields, any depth and order; the generated .c "
    "files are compiled and every initialised variable is compared, byte for byte and item by item, "
    "with a zeroed struct which has exactly the given values assigned. Non-trivial: at least one "
    "initialised variable.",
    {"quick": 1040, "thorough": 18000},
    directed=[
        {"bundle": simple_bundle([
            SEQ("In", F("a", UINT(2**64 - 1)), F("b", INT(-2**63, 5)), F("c", BOOL),
                F("d", {"k": "real", "lo": "-1.0", "hi": "1.0"}), F("e", BOOL), F("f", UINT(7))),
            SEQ("Out", F("m", REF("In"), W(("c", True), ("a", 2**64 - 1), ("f", 5))),
                F("u", UINT(3)),
                F("n", REF("In"), W(("b", -2**63), ("e", True), ("d", -0.5)))),
        ])},
    ],
    assumptions=[
        "values are compared with GCC's conversion of the ASN.1 literal to the member's type",
    ],
)

# ---------------------------------------------------------------------- C09


def flat_values(scope, d, w):
    """[(path, element, value)] of a sequence in declaration order."""
    given = M.with_dict(w)
    out = []
    for f in d["fields"]:
        t = scope.resolve(f["ty"])
        v = given[f["key"]]
        if t.get("d") == "seq":
            out.extend(((f["key"],) + p, e, x) for p, e, x in flat_values(scope, t, v["w"]))
        else:
            out.append(((f["key"],), t, v["x"]))
    return out


FORMATS = {
    ("uint", 8): "B", ("uint", 16): "H", ("uint", 32): "I", ("uint", 64): "Q",
    ("int", 8): "b", ("int", 16): "h", ("int", 32): "i", ("int", 64): "q",
    ("real", 32): "f", ("real", 64): "d",
}


def listings(bundle):
    """Every WITH COMPONENTS listing with the definition it is for."""
    scope = M.Scope(bundle)
    out = []

    def walk(w, d):
        out.append((w, d))
        for i in w["items"]:
            if "w" in i["value"]:
                f = next(x for x in d["fields"] if x["key"] == i["key"])
                walk(i["value"]["w"], scope.resolve(f["ty"]))

    for _, d in M.seq_defs(bundle):
        for f in d["fields"]:
            if f.get("with"):
                walk(f["with"], scope.resolve(f["ty"]))
    return out


def c09_damage(bundle, damage):
    """Make the values of one sequence incomplete or impossible to write."""
    b = clone(bundle)
    scope = M.Scope(b)
    kind, n = damage["kind"], damage["n"]
    valued = [d for _, d in M.seq_defs(b) if any(f.get("with") for f in d["fields"])]
    lists = listings(b)
    if not lists:
        return None
    if kind == "drop":
        pool = [w for w, _ in lists if len(w["items"]) > 1]
        if not pool:
            return None
        w = pool[n % len(pool)]
        del w["items"][n // 7 % len(w["items"])]
    elif kind == "field":
        d = valued[n % len(valued)]
        d["fields"].insert(
            n // 7 % (len(d["fields"]) + 1), F("extra-x9", UINT(255))
        )
    elif kind == "component":
        _, d = lists[n % len(lists)]
        d["fields"].insert(
            n // 7 % (len(d["fields"]) + 1), F("extra-x9", UINT(255))
        )
    elif kind == "without":
        d = valued[n % len(valued)]
        pool = [f for f in d["fields"] if f.get("with")]
        if len(d["fields"]) < 2 or len(pool) < 2:
            return None
        pool[n // 7 % len(pool)]["with"] = None
    else:
        pool = []
        for w, d in lists:
            for i in w["items"]:
                f = next(x for x in d["fields"] if x["key"] == i["key"])
                t = scope.resolve(f["ty"])
                if "w" not in i["value"]:
                    small = M.leaf_bits(t) == 32 if t["k"] == "real" else True
                    if kind == "odd" or small:
                        pool.append((i, f, t))
        if not pool:
            return None
        i, f, t = pool[n % len(pool)]
        n //= len(pool)
        if kind == "large" and t["k"] == "real":
            v = ["3.5e38", "-1e39", "1.0e300"][n % 3]
            i["value"] = {"v": v, "x": float(v)}
        elif kind == "large":
            bits = M.leaf_bits(t) - (t["k"] == "int")
            lowest = 0 if t["k"] == "uint" else -(2**bits)
            v = [2**bits, lowest - 1, 2**bits + 5, 2 ** (bits + 8) - 1, 2**70][n % 5]
            i["value"] = gen.int_value(v)
        else:
            ty, v = [
                (UINT(7), gen.int_value(5)), (BOOL, gen.bool_value(True)),
                (UINT(2**24 - 1), gen.int_value(7)), (UINT(2**63 - 1), gen.int_value(7)),
            ][n % 4]
            # every listing for this type has to have a value of the new type
            f["ty"] = ty
            for w, d in lists:
                if any(x is f for x in d["fields"]):
                    for item in w["items"]:
                        if item["key"] == f["key"]:
                            item["value"] = v
    return b


def c09_refused(case):
    damage = case["damage"]
    if damage["kind"] == "endianness":
        b, endianness = case["bundle"], "none"
        if not listings(b):
            raise Skip()
    else:
        b, endianness = c09_damage(case["bundle"], damage), case["endianness"]
        if b is None:
            raise Skip()
    r = run.generate("binary", [M.render(m) for m in b["modules"]],
                     [m["name"] for m in b["modules"]], endianness=endianness)
    if r.rc == 0:
        raise Violation(
            "generate-binary accepts values which are incomplete or cannot be written (%s)"
            % damage["kind"]
        )
    if r.files:
        raise Violation(
            "generate-binary refuses the values (%s), but writes %s"
            % (damage["kind"], sorted(r.files))
        )
    return Info(True, "refused: " + damage["kind"])


def c09_check(case):
    if case.get("damage"):
        return c09_refused(case)
    b = case["bundle"]
    scope = M.Scope(b)
    images = {}
    for e in ("little-endian", "big-endian"):
        images[e] = must("binary", b, endianness=e)
    heads = header_names("binary", b)
    body, plan = [], []
    files = dict(images["little-endian"].files)
    bins = set()
    for m, d in M.seq_defs(b):
        if not any(f.get("with") for f in d["fields"]):
            continue
        t = M.c_name(d["name"])
        name = M.lowerize(t) + ".bin"
        bins.add(name)
        values = []
        for f in d["fields"]:
            inner = scope.resolve(f["ty"])
            values.extend(
                ((f["key"],) + p, el, x) for p, el, x in flat_values(scope, inner, f["with"])
            )
        for e, mark in (("little-endian", "<"), ("big-endian", ">")):
            if name not in images[e].files:
                raise Violation("generate-binary did not write %s" % name)
            want = b"".join(
                struct.pack(mark + FORMATS[(M.leaf_kind(el), M.leaf_bits(el))], x)
                for _, el, x in values
            )
            have = images[e].files[name]
            if have != want:
                at = next(
                    (i for i, (p, q) in enumerate(zip(have, want)) if p != q),
                    min(len(have), len(want)),
                )
                raise Violation(
                    "%s (%s) is %s, expected %s, first difference at byte %d"
                    % (name, e, have.hex(), want.hex(), at)
                )
        image = images["little-endian"].files[name]
        body.append(
            "{ static const unsigned char raw[] = {%s}; static %s s; "
            'printf("%%d\\n", sizeof raw == sizeof s); memcpy(&s, raw, sizeof s < sizeof raw ? '
            "sizeof s : sizeof raw);" % (",".join(str(x) for x in image) or "0", t)
        )
        for path, el, x in values:
            body.append(
                '{ __typeof__(s.%s) v = %s; printf("%%d\\n", s.%s == v); }'
                % (c_path(path), c_value(x, el), c_path(path))
            )
        body.append("}")
        plan.append((d, values))
    for e, r in images.items():
        got = {n for n in r.files if n.endswith(".bin")}
        if got != bins:
            raise Violation("binary files %s, expected %s" % (sorted(got), sorted(bins)))
    if body:
        lines = iter(run_probe(files, heads, body, "generate-binary"))
        for d, values in plan:
            if next(lines) != "1":
                raise Violation("the image of %s has not the size of its struct" % d["name"])
            for path, _, x in values:
                if next(lines) != "1":
                    raise Violation(
                        "the image of %s read through its struct has another value for %s than %r"
                        % (d["name"], ".".join(path), x)
                    )
    n = sum(len(v) for _, v in plan)
    return Info(n >= 2, "%d images" % min(len(plan), 5))


@st.composite
def c09_cases(draw):
    case = {"bundle": draw(gen.binary_bundles()), "damage": None}
    if draw(st.integers(0, 4)) == 0:
        case["damage"] = {
            "kind": draw(st.sampled_from(
                ["drop", "field", "component", "without", "large", "large", "odd", "endianness"])),
            "n": draw(st.integers(0, 10**4)),
        }
        case["endianness"] = draw(st.sampled_from(["little-endian", "big-endian"]))
    return case


ALL_NUMBERS = simple_bundle([
    SIMPLE(n, {"k": k, "lo": lo, "hi": hi}) for n, (k, lo, hi) in M.POSIX.items()
] + [
    SEQ("In", *[F("k%d" % i, REF(n)) for i, n in enumerate(M.POSIX)]),
    SEQ("Out", F("x", REF("In"), W(*reversed([
        ("k%d" % i, v) for i, v in enumerate(
            [-2, -300, -70000, -2**40, 200, 60000, 2**31 + 5, 2**63 + 9, 1.5, -2.25]
        )
    ])))),
])

C09 = Property(
    "C09", lambda tier: c09_cases(), c09_check, show_bundle,
    "Random sequences of whole-byte integers and reals (inline or POSIX named, nested, imported) "
    "with all values given in any order; both byte orders are compared with an independent "
    "encoding, and the little-endian image is read through the generated, compiled struct. In a "
    "fifth of the cases a value, component or field is missing, too large or of a type without a "
    "binary form, or no byte order is given: the command has to fail and to write nothing. "
    "Non-trivial: at least 2 values.",
    {"quick": 1120, "thorough": 20000},
    directed=[{"bundle": ALL_NUMBERS}] + [
        {"bundle": ALL_NUMBERS, "damage": {"kind": kind, "n": n}, "endianness": e}
        for kind, count in (("large", 50), ("odd", 40), ("drop", 12), ("component", 8),
                            ("field", 2))
        for n, e in zip(range(count), itertools.cycle(["little-endian", "big-endian"]))
    ],
    assumptions=[
        "only sequences whose values are all given and of 8, 16, 32 or 64 bits are in the domain, "
        "everything else is refused by the generator",
    ],
)
