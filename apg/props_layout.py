"""C01 C02 C03 C04 C05 C10 C21: the shape of the generated artefacts."""

import copy
import itertools
import random
import re

from hypothesis import strategies as st

from . import gen, model as M, run
from .common import (
    c_path, cosmos_packets, file_text, header_names, layout_of, must, names_of,
    norm_description, show_bundle, texts_of,
)
from .cprobe import Member, compare_members, run_probe, statements
from .driver import Info, Property, Violation
from .gen import Opts

COSMOS_ARRAYS = frozenset({"posix", "simple", "nested"})

# ------------------------------------------------------------------ helpers


def simple_bundle(defs, name="m"):
    return {
        "modules": [
            {"name": name, "comment": None, "imports": [], "icomment": None, "defs": defs}
        ]
    }


def F(key, ty, w=None, comment=None):
    return {"key": key, "ty": ty, "comment": comment, "with": w}


def SEQ(name, *fields):
    return {"d": "seq", "name": name, "comment": None, "fields": list(fields)}


def ENUM(name, *keys):
    return {
        "d": "enum", "name": name, "comment": None,
        "items": [
            {"key": k[0], "pos": k[1], "comment": None} if isinstance(k, tuple)
            else {"key": k, "pos": None, "comment": None}
            for k in keys
        ],
    }


def SIMPLE(name, ty):
    return {"d": "simple", "name": name, "ty": ty, "comment": None}


def CHOICE(name, *fields):
    return {"d": "choice", "name": name, "comment": None, "fields": list(fields)}


def UINT(hi, lo=0):
    return {"k": "uint", "lo": lo, "hi": hi}


def INT(lo, hi):
    return {"k": "int", "lo": lo, "hi": hi}


def REF(n):
    return {"k": "ref", "n": n}


def ARR(n, e):
    return {"k": "arr", "n": n, "e": e}


BOOL = {"k": "bool"}
NATURAL = [8, 16, 32, 64]


def big_sizes(cosmos=False):
    """Arrays and strings with far more elements than usual."""
    bytes_ = [SIMPLE("Uint%d-t" % w, UINT(2**w - 1)) for w in NATURAL]
    fields = [
        F("a", ARR(70000, REF("Uint8-t"))), F("b", ARR(300, ARR(301, REF("Uint16-t")))),
        F("c", {"k": "str", "t": "IA5String", "n": 70000}),
        F("d", ARR(2, ARR(2, ARR(2, ARR(2, ARR(2, REF("Uint32-t"))))))),
        F("e", ARR(129, REF("Uint64-t"))), F("f", REF("Uint8-t")),
    ]
    if not cosmos:
        fields.append(F("g", ARR(5000, {"k": "str", "t": "NumericString", "n": 3})))
    return simple_bundle(bytes_ + [SEQ("Pkt", *fields), SEQ("Outer", F("p", REF("Pkt")),
                                                            F("x", REF("Uint8-t")))])


def many(n, cosmos=False):
    """Many definitions in a module, many modules, many types of one import,
    a long chain of imports."""
    wide = [SEQ("Wide-%d" % i, F("w%d" % i, UINT(2 ** (i % 8 + 1) - 1)), F("v", UINT(255)))
            for i in range(n)]
    wide.append(SEQ("Wide-all", *[F("k%d" % i, REF("Wide-%d" % i)) for i in range(n)]))
    wide += [ENUM("Enum-%d" % i, *["e%d-%d" % (i, k) for k in range(i + 2)]) for i in range(n)]
    modules = [{"name": "wide", "comment": None, "imports": [], "icomment": None, "defs": wide}]
    for i in range(n):
        imports = []
        fields = [F("own%d" % i, UINT(7))]
        if i:
            imports.append({"types": ["Chain-%d" % (i - 1)], "from": "chain-%d" % (i - 1),
                            "comment": None})
            fields.append(F("prev%d" % i, REF("Chain-%d" % (i - 1))))
        modules.insert(0, {"name": "chain-%d" % i, "comment": None, "imports": imports,
                           "icomment": None, "defs": [SEQ("Chain-%d" % i, *fields)]})
    top = [{"types": ["Wide-%d" % i for i in range(n)], "from": "wide", "comment": None}]
    top += [{"types": ["Chain-%d" % i], "from": "chain-%d" % i, "comment": None}
            for i in range(n)]
    fields = [F("t%d" % i, REF("Wide-%d" % i)) for i in range(n)]
    fields += [F("u%d" % i, REF("Chain-%d" % i)) for i in range(0, n, 5)]
    modules.insert(n // 2, {"name": "top", "comment": None, "imports": top, "icomment": None,
                            "defs": [SEQ("Top", *fields)]})
    return {"modules": modules}


def leaf_classes(bundle):
    scope = M.Scope(bundle)
    out = set()
    for _, d in M.seq_defs(bundle):
        for f in d["fields"]:
            dims, ty = M.split_array(f["ty"])
            t = scope.resolve(ty)
            kind = "seq" if t.get("d") == "seq" else M.leaf_kind(t)
            if dims:
                kind = "array of " + kind
            elif kind != "seq" and gen.is_bitfield_leaf(t):
                kind = "bitfield " + kind
            out.add(kind)
            if ty["k"] == "ref" and scope.defs[ty["n"]]["d"] == "simple":
                out.add("simple definition")
            if f.get("with"):
                out.add("WITH COMPONENTS")
    if len(bundle["modules"]) > 1:
        out.add("several modules")
    return out


def total_fields(bundle):
    return sum(len(d["fields"]) for _, d in M.seq_defs(bundle))


# ---------------------------------------------------------------------- C01


def c01_leaf_members(scope, seq):
    leaves = M.leaves(scope, seq)
    at = 0
    out = []
    for i, leaf in enumerate(leaves):
        out.append((leaf, at))
        at += leaf.total_bits
    return out, at


def c01_compare(bundle, aligned, only=None):
    """Offsets and widths of every item: struct as compiled against packet."""
    scope = M.Scope(bundle)
    r = must("cfs", bundle)
    body = []
    plan = []
    for mi, m in enumerate(bundle["modules"]):
        packets = cosmos_packets(bundle, m)
        for d in m["defs"]:
            if d["d"] != "seq":
                continue
            struct = M.c_name(d["name"])
            packet = packets[d["name"]]
            members = []
            at = 0
            for i, item in enumerate(packet.items):
                total = item.bits if item.array_bits is None else item.array_bits
                members.append((item, at, total))
                at += total
            plan.append((d, struct, members, at))
    # the struct is walked by the item order of the packet: nested members in
    # declaration order
    for pi, (d, struct, members, total) in enumerate(plan):
        leaves = M.leaves(scope, d)
        if [l.key for l in leaves] != [item.name for item, _, _ in members]:
            raise Violation(
                "packet %s has the items %s, the struct has %s"
                % (d["name"], [i.name for i, _, _ in members], [l.key for l in leaves])
            )
        body.append('printf("size %%zu\\n", sizeof(%s));' % struct)
        for li, leaf in enumerate(leaves):
            acc = c_path(leaf.path)
            label = "m%d" % li
            if leaf.dims or leaf.kind in ("real", "str"):
                body.append(
                    'printf("%s %%zu %%zu\\n", offsetof(%s, %s) * 8, '
                    "sizeof(((%s *)0)->%s) * 8);" % (label, struct, acc, struct, acc)
                )
            else:
                body.append('SCAN(%s, s.%s = -1, "%s"); printf("\\n");' % (struct, acc, label))
    lines = iter(
        run_probe(r.files, header_names("cfs", bundle), body, "cFS structs")
    )
    for d, struct, members, total in plan:
        size = int(next(lines).split()[1]) * 8
        if aligned and size != total:
            raise Violation(
                "%s: the C struct has %d bits, the COSMOS packet %d" % (d["name"], size, total)
            )
        for item, at, bits in members:
            parts = next(lines).split()
            off, width = (
                (int(parts[2]), int(parts[3])) if parts[1] == "bits"
                else (int(parts[1]), int(parts[2]))
            )
            if width != bits:
                raise Violation(
                    "%s.%s: %d bits in C, %d bits in COSMOS" % (d["name"], item.name, width, bits)
                )
            if aligned and off != at:
                raise Violation(
                    "%s.%s: bit offset %d in C, %d in COSMOS" % (d["name"], item.name, off, at)
                )


def c01_check(case):
    c01_compare(case["bundle"], case["aligned"])
    kinds = leaf_classes(case["bundle"])
    return Info(
        total_fields(case["bundle"]) >= 3 and len(kinds) >= 2,
        "aligned" if case["aligned"] else "unaligned", *sorted(kinds),
    )


@st.composite
def c01_cases(draw):
    aligned = draw(st.integers(0, 4)) > 0
    if draw(st.integers(0, 4)) == 0:
        b = draw(gen.ccsds_bundles(
            Opts(modules=(1, 2), seqs=(0, 1), withs=False, comments=False, arrays=COSMOS_ARRAYS)
        ))
    else:
        b = draw(gen.bundles(Opts(
            arrays=COSMOS_ARRAYS, comments=False, few_keys=draw(st.integers(0, 2)) == 0,
        )))
    if aligned:
        b = gen.align(b)
    return {"bundle": b, "aligned": aligned}


def _finding_fails(fn):
    def still():
        try:
            fn()
        except Violation:
            return True
        return False

    return still


ENUM_ARRAY = simple_bundle(
    [ENUM("En", "aa", "bb", "cc"), SEQ("Pkt", F("x", ARR(4, REF("En"))))]
)
SEQ_ARRAY = simple_bundle(
    [
        SIMPLE("Uint8-t", UINT(255)),
        SEQ("Inner", F("x", REF("Uint8-t"))),
        SEQ("Pkt", F("y", ARR(3, REF("Inner")))),
    ]
)


def _seq_array_finding():
    packets = cosmos_packets(SEQ_ARRAY, SEQ_ARRAY["modules"][0], ["Pkt"])
    bits = sum(i.array_bits or i.bits for i in packets["Pkt"].items)
    if bits != 24:
        raise Violation("array of sequences: %d bits in COSMOS, 24 in C" % bits)


C01 = Property(
    "C01", lambda tier: c01_cases(), c01_check, show_bundle,
    "Random bundles (1-3 modules, nested and imported sequences, all item kinds, widths 1-64 "
    "bits, CCSDS headers). The cFS struct is compiled and measured, the COSMOS packet is read "
    "item by item, and offset/width/total are compared. Non-trivial: at least 3 fields of at "
    "least 2 kinds in the bundle.",
    {"quick": 1040, "thorough": 20000},
    directed=[
        {
            "bundle": gen.align(simple_bundle([SEQ("Pkt", *[
                F("f%d" % w, UINT(2**w - 1)) for w in range(1, 65)
            ])])), "aligned": True,
        },
        {
            "bundle": gen.align(simple_bundle([SEQ("Pkt", *[
                F("f%d" % i, INT(lo, hi)) for i, (lo, hi) in enumerate(
                    [(-1, 0), (-128, 127), (-129, 0), (-1, 128), (-32768, 32767),
                     (-32769, 1), (-2, 32768), (-2**31, 2**31 - 1), (-2**31 - 1, 0),
                     (-1, 2**31), (-2**63, 2**63 - 1)]
                )
            ])])), "aligned": True,
        },
        {
            "bundle": gen.align(simple_bundle([
                SIMPLE("Flag", BOOL), SIMPLE("Zero", UINT(0)), ENUM("One", "only"),
                SEQ("Pkt", F("a", REF("Flag")), F("b", REF("Zero")), F("c", REF("One")),
                    F("d", BOOL)),
            ])), "aligned": True,
        },
        {
            "bundle": simple_bundle([
                SIMPLE("Uint16-t", UINT(65535)),
                SEQ("Pkt", F("a", ARR(4, ARR(2, REF("Uint16-t"))))),
            ]), "aligned": True,
        },
        {"bundle": big_sizes(True), "aligned": True},
        {"bundle": gen.align(many(12)), "aligned": True},
    ],
    assumptions=[
        "GCC on x86-64 stands for the flight compiler; bit offsets are compared numerically",
        "arrays of ENUMERATED and of SEQUENCE are known findings and not generated here",
    ],
    findings={
        "C01-array-of-enumerated": _finding_fails(lambda: c01_compare(ENUM_ARRAY, True)),
        "C01-array-of-sequence": _finding_fails(_seq_array_finding),
    },
)

# ---------------------------------------------------------------------- C02


def c02_compile(bundle, gens, order):
    for g in gens:
        r = must(g, bundle)
        headers = header_names(g, bundle)
        if g == "cfs":
            headers += [M.c_name(n) + "_msgids.h" for n in names_of(bundle)]
        for h in headers:
            file_text(r, h)
        order_h = sorted(headers, key=lambda h: (order * 7919 + hash_text(h)) % 1000003)
        files = dict(r.files)
        sources = []
        for i, h in enumerate(headers):
            name = "tu_%d.c" % i
            files[name] = ('#include "%s"\nint tu_%d;\n' % (h, i)).encode()
            sources.append(name)
        sources += sorted(n for n in r.files if n.endswith(".c"))
        text = "".join('#include "%s"\n' % h for h in order_h + headers)
        # every sequence and enumeration is a usable type
        for n, (_, d) in enumerate(M.all_defs(bundle, "seq", "enum")):
            text += "static %s use_%d; int size_%d[sizeof(use_%d) > 0 ? 1 : -1];\n" % (
                M.c_name(d["name"]), n, n, n
            )
        c = run.gcc(files, text, run=False, extra_sources=sources)
        if not c.ok:
            raise Violation(
                "output of generate-%s does not compile:\n%s" % (g, c.messages[:1500])
            )


def hash_text(s):
    import zlib

    return zlib.crc32(s.encode())


def has_withs(bundle):
    return any(f.get("with") for _, d in M.seq_defs(bundle) for f in d["fields"])


def c02_check(case):
    b = case["bundle"]
    gens = ["cfs", "c"]
    if not has_withs(b) or case.get("binary"):
        gens.append("binary")
    c02_compile(b, gens, case["order"])
    kinds = leaf_classes(b)
    if M.all_defs(b, "choice"):
        kinds.add("choice")
    return Info(len(kinds) >= 3 or M.all_defs(b, "choice"), *sorted(kinds))


@st.composite
def c02_cases(draw):
    which = draw(st.integers(0, 5))
    binary = False
    if which == 0:
        b = draw(gen.ccsds_bundles())
    elif which == 1:
        b = draw(gen.binary_bundles())
        binary = True
    else:
        b = draw(gen.bundles(Opts(
            withs=draw(st.booleans()), choices=draw(st.booleans()),
            modules=(1, 4) if draw(st.integers(0, 3)) == 0 else (1, 3),
        )))
    return {"bundle": b, "order": draw(st.integers(0, 50)), "binary": binary}


CHOICE_BUILTIN = simple_bundle([CHOICE("Ch", F("x", UINT(255)), F("y", BOOL))])
CHOICE_FIELD = simple_bundle(
    [
        SIMPLE("Uint8-t", UINT(255)),
        SEQ("Inner", F("x", REF("Uint8-t"))),
        CHOICE("Ch", F("i", REF("Inner"))),
        SEQ("Outer", F("c", REF("Ch"))),
    ]
)

ENUM_KEYS_SHARED = simple_bundle([ENUM("Ea", "on", "off"), ENUM("Eb", "on", "unknown")])
C_KEYWORD_KEY = simple_bundle([SEQ("Pkt", F("int", UINT(255)))])

C02 = Property(
    "C02", lambda tier: c02_cases(), c02_check, show_bundle,
    "Random bundles with every construct of the subset (imports, arrays, strings, choices, "
    "WITH COMPONENTS, odd comments, long names); all output of generate-cfs, generate-c and "
    "generate-binary goes through gcc: each header alone, all headers together twice in a drawn "
    "order, every .c file, every type used. Non-trivial: 3 or more kinds of items, or a CHOICE.",
    {"quick": 720, "thorough": 12000},
    directed=[
        {"bundle": simple_bundle([
            ENUM("En", "aa", "bb"),
            SEQ("Inner", F("x", UINT(3))),
            CHOICE("Ch", F("a", REF("Inner")), F("b", REF("En"))),
        ]), "order": 0},
        {"bundle": big_sizes(), "order": 1},
        {"bundle": many(20), "order": 2},
    ],
    assumptions=["gcc -std=gnu17 (default) accepts the code; warnings are not errors"],
    findings={
        "C02-choice-of-builtin": _finding_fails(lambda: c02_compile(CHOICE_BUILTIN, ["cfs"], 0)),
        "C02-choice-as-field": _finding_fails(lambda: c02_compile(CHOICE_FIELD, ["cfs"], 0)),
        "C02-enum-keys-shared": _finding_fails(lambda: c02_compile(ENUM_KEYS_SHARED, ["cfs"], 0)),
        "C02-c-keyword": _finding_fails(lambda: c02_compile(C_KEYWORD_KEY, ["cfs"], 0)),
    },
)

# ---------------------------------------------------------------------- C03

_MEMBER = re.compile(r"^.*?(\w+)((?:\[\d+\])*)( : ?\d+)?$")


def struct_members(norm):
    """Member names, in order, of a normalised struct definition."""
    body = norm[norm.index("{") + 1: norm.rindex("}")]
    out = []
    for part in body.split(";"):
        part = " ".join(part.split())
        if part:
            m = _MEMBER.match(part)
            out.append(m.group(1) if m else part)
    return out


def c03_check(case):
    b, g = case["bundle"], case["gen"]
    scope = M.Scope(b)
    r = must(g, b)
    heads = header_names(g, b)
    structs = {}
    for m, h in zip(b["modules"], heads):
        defs, _ = run.c_definitions(file_text(r, h))
        for name, norm in defs:
            structs.setdefault(name, []).append((m["name"], norm))
    body, plan = [], []
    for m, d in M.seq_defs(b):
        struct = M.c_name(d["name"])
        found = structs.get(struct, [])
        if [x[0] for x in found] != [m["name"]]:
            raise Violation(
                "%s is defined in the headers of %s, expected once in the one of %s"
                % (struct, [x[0] for x in found], m["name"])
            )
        want = [M.c_name(f["key"]) for f in d["fields"]]
        have = struct_members(found[0][1])
        if have != want:
            raise Violation("struct %s has the members %s, expected %s" % (struct, have, want))
        fields, total = layout_of(scope, d)
        members = []
        for i, (f, dims, t, at, bits) in enumerate(fields):
            mem = Member("m%d" % i, M.c_name(f["key"]), dims, t, at, bits)
            members.append(mem)
            body.extend(statements(struct, mem))
        body.append('printf("size %%zu\\n", sizeof(%s));' % struct)
        plan.append((struct, members, -(-total // 8)))
    lines = run_probe(r.files, heads, body, "generate-" + g)
    at = 0
    for struct, members, size in plan:
        chunk = lines[at: at + len(members) + 1]
        at += len(members) + 1
        compare_members(struct, members, chunk[:-1], "generate-" + g)
        have = int(chunk[-1].split()[1])
        if have != size:
            raise Violation("sizeof(%s) is %d, expected %d" % (struct, have, size))
    kinds = leaf_classes(b)
    return Info(total_fields(b) >= 3 and len(kinds) >= 2, "generate-" + g, *sorted(kinds))


@st.composite
def c03_cases(draw):
    g = draw(st.sampled_from(["cfs", "cfs", "c", "binary"]))
    b = draw(gen.bundles(Opts(comments=draw(st.booleans()), withs=g != "binary",
                              few_keys=draw(st.integers(0, 3)) == 0,
                              fields=(1, 8))))
    return {"bundle": b, "gen": g}


C03 = Property(
    "C03", lambda tier: c03_cases(), c03_check, show_bundle,
    "Random bundles, one of generate-cfs/-c/-binary; every struct is read for its member names "
    "and measured by a compiled probe (offset, width, signedness, float/double/char/struct type, "
    "array dimensions, sizeof) against the layout computed from the ASN.1 text. Non-trivial: at "
    "least 3 fields of at least 2 kinds.",
    {"quick": 1280, "thorough": 24000},
    directed=[
        {"bundle": simple_bundle([SEQ("Pkt", *[
            F("f%d" % w, UINT(2**w - 1)) for w in range(1, 65)
        ])]), "gen": g}
        for g in ("cfs", "c", "binary")
    ] + [
        {"bundle": simple_bundle([SEQ("Pkt", *[
            F("f%d" % w, UINT(2 ** (w - 1))) for w in range(1, 65)
        ])]), "gen": "cfs"},
        {"bundle": simple_bundle([
            SIMPLE(n, {"k": k, "lo": lo, "hi": hi}) for n, (k, lo, hi) in M.POSIX.items()
        ] + [SEQ("Pkt", *[
            F("k%d" % i, REF(n)) for i, n in enumerate(M.POSIX)
        ]), SEQ("Arrays", *[
            F("k%d" % i, ARR(i + 2, REF(n))) for i, n in enumerate(M.POSIX)
        ])]), "gen": "c"},
        {"bundle": simple_bundle([
            SIMPLE("Uint8-t", UINT(255)),
            SEQ("Pkt", F("a", ARR(2, ARR(3, ARR(4, REF("Uint8-t"))))),
                F("b", ARR(5, {"k": "str", "t": "IA5String", "n": 7})))]), "gen": "cfs"},
    ] + [
        {"bundle": b, "gen": g} for g in ("cfs", "c", "binary") for b in (big_sizes(), many(12))
    ],
    assumptions=["GCC on x86-64"],
)

# ---------------------------------------------------------------------- C04

COSMOS_TYPE = {
    "uint": "UINT", "enum": "UINT", "bool": "UINT", "int": "INT", "real": "FLOAT",
    "str": "STRING",
}


def c04_packet(packet, leaves, name):
    have = [i.name for i in packet.items]
    want = [l.key for l in leaves]
    if have != want:
        raise Violation("packet %s has the items %s, expected %s" % (name, have, want))
    for item, leaf in zip(packet.items, leaves):
        where = "%s.%s" % (name, ".".join(leaf.path))
        if item.type != COSMOS_TYPE[leaf.kind]:
            raise Violation("%s: type %s, expected %s" % (where, item.type, COSMOS_TYPE[leaf.kind]))
        if item.bits != leaf.bits:
            raise Violation("%s: %d bits, expected %d" % (where, item.bits, leaf.bits))
        want_total = leaf.total_bits if leaf.dims else None
        if item.array_bits != want_total:
            raise Violation(
                "%s: array size %s bits, expected %s" % (where, item.array_bits, want_total)
            )


def c04_check(case):
    b = case["bundle"]
    scope = M.Scope(b)
    depth = 0
    for m in b["modules"]:
        packets = cosmos_packets(b, m)
        for d in m["defs"]:
            if d["d"] == "seq":
                leaves = M.leaves(scope, d)
                depth = max([depth] + [len(l.path) for l in leaves])
                c04_packet(packets[d["name"]], leaves, d["name"])
                if packets[d["name"]].endianness != "BIG_ENDIAN":
                    raise Violation(
                        "packet %s is %s" % (d["name"], packets[d["name"]].endianness)
                    )
    kinds = leaf_classes(b)
    return Info(
        total_fields(b) >= 3 and len(kinds) >= 2, "nesting depth %d" % min(depth, 6),
        *sorted(kinds),
    )


@st.composite
def c04_cases(draw):
    return {"bundle": draw(gen.bundles(Opts(
        arrays=COSMOS_ARRAYS | {"enum", "bits"}, comments=draw(st.integers(0, 3)) == 0,
        fields=(1, 8), few_keys=draw(st.integers(0, 3)) == 0,
    )))}


C04 = Property(
    "C04", lambda tier: c04_cases(), c04_check, show_bundle,
    "Random bundles; every sequence of every module is generated as a COSMOS packet, the file is "
    "read back and compared item by item (order, name, bits, type, array size) with the flattened "
    "ASN.1 sequence. Non-trivial: at least 3 fields of at least 2 kinds.",
    {"quick": 1600, "thorough": 30000},
    directed=[
        {"bundle": simple_bundle([SEQ("Pkt", *[
            F("f%d" % w, UINT(2**w - 1)) for w in range(1, 65)
        ])])},
        {"bundle": simple_bundle([SEQ("Pkt", *[
            F("f%d" % w, UINT(2 ** (w - 1))) for w in range(1, 65)
        ])])},
        {"bundle": simple_bundle(
            [SEQ("Level0", F("x", UINT(3)))]
            + [SEQ("Level%d" % i, F("a%d" % i, BOOL), F("b%d" % i, REF("Level%d" % (i - 1))),
                   F("c%d" % i, UINT(9))) for i in range(1, 7)]
        )},
        {"bundle": big_sizes(True)}, {"bundle": many(12)},
    ],
    assumptions=["arrays of SEQUENCE are a known finding of C01 and not generated here"],
)

# ---------------------------------------------------------------------- C05


def float_limits(t):
    """The LIMITS of a REAL item, or None when it covers its C type."""
    lo, hi = float(t["lo"]), float(t["hi"])
    top = M.FLOAT_LIMIT if M.real_bits(t) == 32 else 1.7976931348623157e308
    if lo > -top or hi < top:
        return [lo, lo, hi, hi]
    return None


def c05_item(item, leaf, where):
    c = leaf.field["comment"] or {"le": False, "unit": None, "text": None}
    if leaf.kind == "enum":
        states = [(k, str(p)) for k, p in M.enum_positions(leaf.element)]
    elif leaf.kind == "bool":
        states = [("False", "0"), ("True", "1")]
    else:
        states = []
    if sorted(item.states) != sorted(states):
        raise Violation("%s: states %s, expected %s" % (where, item.states, states))
    if not leaf.dims:
        want = float_limits(leaf.element) if leaf.kind == "real" else None
        have = None
        if item.limits is not None:
            try:
                have = [float(x) for x in item.limits[3:]]
            except ValueError:
                have = item.limits
            if item.limits[:3] != ["DEFAULT", "5", "ENABLED"]:
                raise Violation("%s: LIMITS %s" % (where, item.limits))
        if have != want:
            raise Violation("%s: limits %s, expected %s" % (where, have, want))
    units = [c["unit"], c["unit"]] if c["unit"] else None
    if item.units != units:
        raise Violation("%s: units %s, expected %s" % (where, item.units, units))
    little = "LITTLE_ENDIAN" if c["le"] else None
    if item.endianness != little:
        raise Violation("%s: endianness %s, expected %s" % (where, item.endianness, little))
    if norm_description(item.description) != norm_description(c["text"]):
        raise Violation(
            "%s: description %r, the comment is %r" % (where, item.description, c["text"])
        )


def c05_check(case):
    b = case["bundle"]
    scope = M.Scope(b)
    marks = set()
    for m in b["modules"]:
        packets = cosmos_packets(b, m)
        for d in m["defs"]:
            if d["d"] != "seq":
                continue
            p = packets[d["name"]]
            text = d["comment"]["text"] if d["comment"] else ""
            if norm_description(p.description) != norm_description(text):
                raise Violation(
                    "packet %s: description %r, the comment is %r" % (d["name"], p.description, text)
                )
            leaves = M.leaves(scope, d)
            if len(leaves) != len(p.items):
                raise Violation("packet %s has %d items, expected %d" % (
                    d["name"], len(p.items), len(leaves)))
            for item, leaf in zip(p.items, leaves):
                c05_item(item, leaf, "%s.%s" % (d["name"], ".".join(leaf.path)))
                if leaf.kind in ("enum", "bool"):
                    marks.add("states")
                if leaf.kind == "real":
                    marks.add("limits" if float_limits(leaf.element) else "full real range")
                c = leaf.field["comment"]
                if c and c["unit"]:
                    marks.add("unit")
                if c and c["le"]:
                    marks.add("little endian")
                if c and c["text"]:
                    marks.add("description")
    return Info(len(marks) >= 2, *sorted(marks))


@st.composite
def c05_cases(draw):
    return {"bundle": draw(gen.bundles(Opts(
        arrays=COSMOS_ARRAYS | {"enum"}, enums=(0, 3), modules=(1, 2), simples=(0, 4),
        few_keys=draw(st.integers(0, 2)) == 0,
    )))}


def C(text=None, unit=None, le=False):
    return {"le": le, "unit": unit, "text": text}


C05 = Property(
    "C05", lambda tier: c05_cases(), c05_check, show_bundle,
    "Random bundles with comments on two thirds of nothing and everything (units, endianness "
    "marks, quotes, backslashes); each item of each packet is compared with its declaration: "
    "STATEs, LIMITS, UNITS, LITTLE_ENDIAN, description. Non-trivial: at least 2 of states, "
    "limits, full real range, unit, little endian, description occur.",
    {"quick": 1400, "thorough": 26000},
    directed=[
        {"bundle": simple_bundle([SEQ("Pkt", *[
            F("r%d" % i, {"k": "real", "lo": lo, "hi": hi}) for i, (lo, hi) in enumerate(
                itertools.chain(
                    [("-3.4e38", "3.4e38"), ("-3.4e38", "1.0"), ("-1.0", "3.4e38"),
                     ("-3.5e38", "3.4e38"), ("-3.4e38", "3.5e38"), ("0.0", "0.0"),
                     ("-1.7976931348623157e308", "1.7976931348623157e308"),
                     ("-1.7976931348623157e308", "1e300"),
                     ("-1e300", "1.7976931348623157e308")]
                )
            )
        ])])},
        {"bundle": simple_bundle([SEQ("Pkt",
            F("a", UINT(3), comment=C("say \"x\" \\", "m/s", True)),
            F("b", BOOL, comment=C(None, "%", False)),
            F("c", UINT(9), comment=C("last \\\\")),
        )])},
    ],
    assumptions=[
        "descriptions are compared without quotes and backslashes",
        "LIMITS of array items are not compared",
    ],
)

# ---------------------------------------------------------------------- C10


def c10_check(case):
    b, g = case["bundle"], case["gen"]
    scope = M.Scope(b)
    r = must(g, b)
    body = []
    want = []
    for m, d in M.all_defs(b, "enum"):
        for key, pos in M.enum_positions(d):
            body.append('printf("%%lld\\n", (long long)%s);' % M.c_name(key))
            want.append(("enum constant %s.%s" % (d["name"], key), pos))
        body.append('printf("%%zu\\n", sizeof(%s));' % M.c_name(d["name"]))
        want.append(("sizeof(%s)" % d["name"], 1 if len(d["items"]) <= 256 else 2))
    for m, d in M.seq_defs(b):
        for f in d["fields"]:
            t = scope.resolve(f["ty"]) if f["ty"]["k"] != "arr" else {}
            if t.get("d") != "enum":
                continue
            struct = M.c_name(d["name"])
            acc = M.c_name(f["key"])
            poss = M.enum_positions(t)
            for key, pos in [poss[0], poss[len(poss) // 2], poss[-1]]:
                body.append(
                    '{ static %s s; memset(&s, 0, sizeof s); s.%s = %s; '
                    'printf("%%lld\\n", (long long)s.%s); }' % (struct, acc, M.c_name(key), acc)
                )
                want.append(("%s stored in %s.%s" % (key, d["name"], f["key"]), pos))
    lines = run_probe(r.files, header_names(g, b), body, "generate-" + g)
    for (what, pos), line in zip(want, lines):
        if int(line) != pos:
            raise Violation("%s is %s, expected %d (generate-%s)" % (what, line, pos, g))
    # the constants in the enum are exactly the items, in position order
    for m, h in zip(b["modules"], header_names(g, b)):
        defs = dict(run.c_definitions(file_text(r, h))[0])
        for d in m["defs"]:
            if d["d"] == "enum":
                norm = defs.get(M.c_name(d["name"]), "{}")
                inner = norm[norm.index("{") + 1: norm.rindex("}")]
                names = [x.split("=")[0].strip() for x in inner.split(",") if x.strip()]
                items = [M.c_name(k) for k, _ in M.enum_positions(d)]
                if sorted(names) != sorted(items):
                    raise Violation(
                        "enum %s has the constants %s, expected %s" % (d["name"], names, items)
                    )
    states = 0
    for m in b["modules"]:
        packets = cosmos_packets(b, m)
        for d in m["defs"]:
            if d["d"] != "seq":
                continue
            leaves = M.leaves(scope, d)
            for item, leaf in zip(packets[d["name"]].items, leaves):
                if leaf.kind == "enum":
                    states += 1
                    have = sorted((int(v), k) for k, v in item.states)
                    exp = sorted((p, k) for k, p in M.enum_positions(leaf.element))
                    if have != exp or item.bits != M.leaf_bits(leaf.element):
                        raise Violation(
                            "%s.%s: states %s in %d bits, expected %s in %d"
                            % (d["name"], leaf.key, have, item.bits, exp,
                               M.leaf_bits(leaf.element))
                        )
    enums = M.all_defs(b, "enum")
    given = any(d["items"][0]["pos"] is not None for _, d in enums)
    return Info(
        states > 0 and any(len(d["items"]) > 1 for _, d in enums),
        "positions given" if given else "no positions",
        *sorted({"%d bit enum" % M.leaf_bits(d) for _, d in enums}),
    )


@st.composite
def c10_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary"]))
    o = Opts(
        arrays=frozenset(), comments=draw(st.booleans()), withs=False, enums=(1, 3),
        simples=(0, 1), modules=(1, 2), fields=(1, 5), strings=False, posix=False, reals=False,
        nesting=draw(st.booleans()),
    )
    b = draw(gen.bundles(o))
    # make sure enumerations are used
    for i, (m, d) in enumerate(M.seq_defs(b)):
        local = [e["name"] for e in m["defs"] if e["d"] == "enum"]
        if local:
            d["fields"] = d["fields"] + [
                F("zz-used%d" % j, REF(n)) for j, n in enumerate(local)
            ]
    return {"bundle": b, "gen": g}


C10 = Property(
    "C10", lambda tier: c10_cases(), c10_check, show_bundle,
    "Random ENUMERATED types (1 to 300 items, no positions or a permutation given in any order), "
    "used by sequences; constants, storage in the struct and COSMOS STATEs are compared with the "
    "ASN.1 numbering. Non-trivial: an enum of 2 or more items is an item of a packet.",
    {"quick": 1120, "thorough": 20000},
    directed=[
        {"bundle": simple_bundle([
            ENUM("En", *["k%d" % i for i in range(n)]), SEQ("Pkt", F("x", REF("En"))),
        ]), "gen": "cfs"}
        for n in (1, 2, 3, 4, 5, 8, 9, 128, 129, 255, 256, 257)
    ],
    assumptions=["either all or no items of an ENUMERATED have a position"],
)

# ---------------------------------------------------------------------- C21


def union_members(norm):
    body = norm[norm.index("{") + 1: norm.rindex("}")]
    return [" ".join(x.split()) for x in body.split(";") if x.strip()]


def c21_messages(b, module, choice, pick):
    """The bundle and a list of messages of which one needs the CHOICE: as the
    message, as a field, in a nested sequence, as the element of an array;
    alone or next to messages which are fine."""
    r = random.Random(pick)
    b = copy.deepcopy(b)
    m = [x for x in b["modules"] if x["name"] == module][0]
    name = choice["name"]
    inner = {"k": "ref", "n": name}
    num = {"k": "uint", "lo": 0, "hi": 255}
    for depth in range(pick % 4):
        if r.randrange(5) == 0:
            inner = {"k": "arr", "n": r.randint(1, 3), "e": inner}
        name = "Zz-wrap-%d" % depth
        fields = [{"key": "ch", "ty": inner, "comment": None, "with": None}]
        for key in r.sample(["u", "v", "w"], r.randint(0, 3)):
            f = {"key": key, "ty": num, "comment": None, "with": None}
            fields.insert(r.randint(0, len(fields)), f)
        m["defs"].insert(
            r.randint(0, len(m["defs"])),
            {"d": "seq", "name": name, "fields": fields, "comment": None},
        )
        inner = {"k": "ref", "n": name}
    names = [name]
    fine = []
    for i in range(r.randint(0, 2)):
        fine.append("Zz-fine-%d" % i)
        m["defs"].append({
            "d": "seq", "name": fine[-1], "comment": None,
            "fields": [{"key": "u", "ty": num, "comment": None, "with": None}],
        })
    for n in fine:
        names.insert(r.randint(0, len(names)), n)
    return b, names


def c21_check(case):
    b, g = case["bundle"], case["gen"]
    r = must(g, b)
    heads = header_names(g, b)
    found = {}
    for m, h in zip(b["modules"], heads):
        text = run.strip_c_comments(file_text(r, h))
        for u in re.finditer(r"\bunion\s+(\w+)\s*(\{[^}]*\})\s*(\w+)\s*;", text):
            found.setdefault(u.group(1), []).append((m["name"], u.group(2), u.group(3)))
    choices = M.all_defs(b, "choice")
    extra = set(found) - {M.c_name(d["name"]) for _, d in choices}
    if extra:
        raise Violation("unions %s come from no CHOICE" % sorted(extra))
    body, want = [], []
    for m, d in choices:
        name = M.c_name(d["name"])
        if [x[0] for x in found.get(name, [])] != [m["name"]]:
            raise Violation("union %s: expected once in module %s, found %s" % (
                name, m["name"], found.get(name)))
        _, text, var = found[name][0]
        have = union_members(text)
        exp = [
            "%s %s" % (M.c_name(f["ty"]["n"]), M.c_name(f["key"])) for f in d["fields"]
        ]
        if have != exp:
            raise Violation("union %s has the alternatives %s, expected %s" % (name, have, exp))
        for f in d["fields"]:
            acc = M.c_name(f["key"])
            body.append(
                '{ static union %s u; printf("%%d %%d\\n", (int)offsetof(union %s, %s), '
                "_Generic(u.%s, %s: 1, default: 0)); }"
                % (name, name, acc, acc, M.c_name(f["ty"]["n"]))
            )
            want.append(("%s.%s" % (name, acc), "0 1"))
        body.append(
            'printf("%%d\\n", (int)(sizeof(union %s) >= sizeof(%s)));'
            % (name, M.c_name(d["fields"][0]["ty"]["n"]))
        )
        want.append(("size of %s" % name, "1"))
    if body:
        lines = run_probe(r.files, heads, body, "generate-" + g)
        for (what, w), line in zip(want, lines):
            if w != line:
                raise Violation("union alternative %s: %s, expected %s" % (what, line, w))
    if choices:
        m, d = choices[case["pick"] % len(choices)]
        b2, names = c21_messages(b, m["name"], d, case["pick"])
        c = run.generate("cosmos", texts_of(b2), m["name"], messages=names)
        if c.rc == 0 or c.files:
            raise Violation(
                "generate-cosmos accepted the messages %s with the CHOICE %s (%s, files %s)"
                % (names, d["name"], c.rc, sorted(c.files))
            )
    return Info(
        any(len(d["fields"]) > 1 for _, d in choices), "generate-" + g,
        "%d choices" % len(choices),
    )


@st.composite
def c21_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary"]))
    b = draw(gen.bundles(Opts(
        choices=True, withs=False, arrays=frozenset({"posix"}), fields=(1, 3), enums=(1, 2),
        simples=(0, 1), modules=(1, 2),
    )))
    return {"bundle": b, "gen": g, "pick": draw(st.integers(0, 10**4))}


C21 = Property(
    "C21", lambda tier: c21_cases(), c21_check, show_bundle,
    "Random bundles with a CHOICE per module whose alternatives are sequences or enumerations, "
    "local or imported; the union is read and probed with the compiler, and COSMOS has to refuse "
    "the type. Non-trivial: a CHOICE of 2 or more alternatives.",
    {"quick": 880, "thorough": 12000},
    assumptions=["alternatives of built-in types are a known finding of C02"],
)
