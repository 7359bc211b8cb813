"""C11 C12 C13: reading the text, comments, independence of order."""

import random
import re

from hypothesis import strategies as st

from . import gen, model as M, run
from .common import (
    clone, cosmos_packets, file_text, header_names, must, names_of, norm_comment,
    read_cosmos, show_bundle, strip_comments, texts_of,
)
from .driver import Info, Property, Violation
from .gen import Opts
from .props_layout import COSMOS_ARRAYS, C, F, REF, SEQ, SIMPLE, UINT, simple_bundle, has_withs

# ---------------------------------------------------------------------- C11
# Expected and actual reading of a module are brought to the same JSON form.


def _exp_comment(c):
    return None if c is None else [c["unit"] or None, c["text"] or None]


def _exp_type(ty):
    dims, e = M.split_array(ty)
    k = e["k"]
    if k in ("uint", "int"):
        return [dims, "INTEGER", e["lo"], e["hi"]] if not dims else [dims, "INTEGER"]
    if k == "real":
        return [dims, "REAL", float(e["lo"]), float(e["hi"])]
    if k == "bool":
        return [dims, "BOOLEAN"]
    if k == "str":
        return [dims + [e["n"]], e["t"]]
    return [dims, e["n"]]


def _exp_with(w):
    if not w:
        return None
    out = []
    for i in w["items"]:
        if "w" in i["value"]:
            value = ["with", _exp_with(i["value"]["w"])]
        else:
            x = i["value"]["x"]
            value = [type(x).__name__, x]
        out.append([i["key"], value, _exp_comment(i["comment"])])
    return [_exp_comment(w["comment"]), out]


def _exp_fields(fields):
    return [
        [f["key"], _exp_type(f["ty"]), _exp_comment(f["comment"]), _exp_with(f.get("with"))]
        for f in fields
    ]


def expected_module(m):
    defs = []
    for d in m["defs"]:
        head = [d["d"], d["name"], _exp_comment(d["comment"])]
        if d["d"] == "simple":
            body = _exp_type(d["ty"])
        elif d["d"] == "enum":
            by_key = {i["key"]: i for i in d["items"]}
            body = sorted(
                [p, k, _exp_comment(by_key[k]["comment"])] for k, p in M.enum_positions(d)
            )
        else:
            body = _exp_fields(d["fields"])
        defs.append(head + [body])
    return {
        "name": m["name"], "comment": _exp_comment(m["comment"]),
        "imports": [[i["types"], i["from"]] for i in m["imports"]], "defs": defs,
    }


def read_models(texts):
    """Runs in a child process: APG's model of the texts in the same form."""
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
    from asn1_parser.asn1.grammar_elements.array import Array
    from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
    from asn1_parser.asn1.grammar_elements.choice import Choice
    from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
    from asn1_parser.asn1.grammar_elements.sequence import Sequence
    from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
    from asn1_parser.asn1.grammar_elements.with_components import WithComponents

    def comment(c):
        return None if c is None else [c.get_unit() or None, c.get_comment() or None]

    def typ(t):
        dims = []
        inner = t.get_type()
        while isinstance(inner, Array):
            dims.append(inner.get_length())
            t = inner.get_asn_type()
            inner = t.get_type()
        if isinstance(inner, Asn1String):
            return [dims + [inner.get_length()], inner.get_type_name()]
        name = t.get_type_name()
        if name in ("INTEGER", "REAL") and not dims:
            return [dims, name, t.get_begin(), t.get_end()]
        return [dims, name]

    def withs(w):
        if w is None:
            return None
        out = []
        for c in w.get_components():
            v = c.get_value()
            if isinstance(v, WithComponents):
                value = ["with", withs(v)]
            else:
                value = [type(v).__name__, v]
            out.append([c.get_key(), value, comment(c.get_comment())])
        return [comment(w.get_comment()), out]

    def fields(children):
        return [
            [f.get_key(), typ(f.get_asn_type()), comment(f.get_comment()),
             withs(f.get_with_components())]
            for f in children
        ]

    bundle = ASN1BundleBuilder.build_from_texts(texts)
    out = []
    for m in bundle.get_modules():
        defs = []
        for d in m.get_definitions():
            if isinstance(d, Sequence):
                kind, body = "seq", fields(d.get_children())
            elif isinstance(d, Choice):
                kind, body = "choice", fields(d.get_children())
            elif isinstance(d, Enumerated):
                kind = "enum"
                body = sorted(
                    [e.get_pos(), e.get_key(), comment(e.get_comment())] for e in d.get_enum()
                )
            elif isinstance(d, SimpleDefinition):
                kind, body = "simple", typ(d.get_asn_type())
            else:
                kind, body = type(d).__name__, None
            defs.append([kind, d.get_type_name(), comment(d.get_comment()), body])
        out.append(
            {
                "name": m.get_module_name(), "comment": comment(m.get_comment()),
                "imports": [
                    [list(i.get_definitions()), i.get_module_name()]
                    for i in m.get_import_items()
                ],
                "defs": defs,
            }
        )
    return out


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return "%s: read %r, written %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), "%s.%s" % (path, k))
    if isinstance(a, list):
        for i in range(min(len(a), len(b))):
            if a[i] != b[i]:
                return first_difference(a[i], b[i], "%s[%d]" % (path, i))
        if len(a) != len(b):
            return "%s: read %d entries, written %d" % (path, len(a), len(b))
    return "%s: read %r, written %r" % (path, a, b)


def c11_check(case):
    b = case["bundle"]
    canonical = texts_of(b)
    layout = [M.render(m, M.Layout(case["layout"] + i)) for i, m in enumerate(b["modules"])]
    for texts, what in ((canonical, "canonical text"), (layout, "re-spaced text")):
        plain = [t.replace("\r\n", "\n") for t in texts]
        kind, models = run.in_child(lambda: read_models(plain))
        if kind != "ok":
            raise Violation("%s of a valid bundle was not read: %s %s" % (what, kind, models))
        want = [expected_module(m) for m in b["modules"]]
        if models != want:
            raise Violation("%s: %s" % (what, first_difference(models, want)))
    g = case["gen"]
    if g == "binary" and has_withs(b):
        g = "c"
    if g == "cosmos":
        module = next((m for m in b["modules"] if any(d["d"] == "seq" for d in m["defs"])), None)
        if module is None:
            return Info(False)
        messages = [d["name"] for d in module["defs"] if d["d"] == "seq"]
        kw = {"modules": module["name"], "messages": messages}
    else:
        kw = {}
    one = must(g, b, texts=canonical, **kw).files
    two = must(g, b, texts=layout, **kw).files
    if one != two:
        bad = sorted(n for n in set(one) | set(two) if one.get(n) != two.get(n))
        raise Violation("white space changes the output of generate-%s: %s" % (g, bad))
    return Info(
        sum(len(d.get("fields", d.get("items", [0]))) for _, d in M.all_defs(b)) >= 4,
        "generate-" + g, "%d modules" % len(b["modules"]),
    )


@st.composite
def c11_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary", "cosmos"]))
    arrays = COSMOS_ARRAYS | {"enum"} if g == "cosmos" else Opts().arrays
    b = draw(gen.bundles(Opts(
        choices=draw(st.booleans()), arrays=arrays, enums=(0, 2), big_enums=False,
        withs=g != "binary" or draw(st.booleans()),
    )))
    return {"bundle": b, "gen": g, "layout": draw(st.integers(0, 10**6))}


C11 = Property(
    "C11", lambda tier: c11_cases(), c11_check, show_bundle,
    "Random bundles of every construct are written as text twice, canonically and with random "
    "white space (spaces, tabs, blank lines, CRLF, none); the parsed modules are walked and "
    "compared with the syntax tree they were written from, and one generator has to give identical "
    "files for both texts. Non-trivial: at least 4 fields or items.",
    {"quick": 1120, "thorough": 20000},
    assumptions=["white space is only varied where the grammar allows it (DESIGN.md)"],
)

# ---------------------------------------------------------------------- C12


def c_tokens(data):
    return " ".join(run.strip_c_comments(data.decode("utf-8", "replace")).split())


def _region_comments(text, name, kind):
    """Text of a definition in a header, from the end of what precedes it."""
    pattern = {
        "seq": r"typedef\s+struct\b[^{]*\{(?P<b>.*?)\n\}[^;{}]*\b%s\s*;",
        "enum": r"typedef\s+enum\b[^{]*\{(?P<b>.*?)\n\}[^;{}]*\b%s\s*;",
        "choice": r"union\s+%s\s*\{(?P<b>.*?)\n\}[^;{}]*;",
    }[kind] % re.escape(name)
    best = None
    for m in re.finditer(pattern, text, re.S):
        best = m
    return best


COMMENT = re.compile(r"/\*.*?\*/|//[^\n]*", re.S)


def comment_parts(text):
    """All comment texts of a C fragment."""
    return [m.group(0) for m in COMMENT.finditer(text)]


def element_comments(block, keys):
    """{key: comments between the previous element and the end of its line}."""
    out = {}
    current = []
    todo = list(keys)
    for line in block.split("\n"):
        code = run.strip_c_comments(line)
        comments = comment_parts(line)
        current.extend(comments)
        if todo and re.search(r"\b%s\b" % re.escape(todo[0]), code):
            out[todo.pop(0)] = current
            current = []
    return out


def _in_comments(text, comments):
    want = norm_comment(text)
    return not want or any(want in norm_comment(c) for c in comments)


def mark_comments(bundle):
    """Put a word of its own in front of every comment which is kept; returns
    the bundle and {word: (module index, what it belongs to)}."""
    b = clone(bundle)
    words = {}

    def mark(c, k, what):
        if c and c["text"]:
            word = "zq%dqz" % len(words)
            words[word] = (k, what)
            c["text"] = word + " " + c["text"]

    for k, m in enumerate(b["modules"]):
        mark(m["comment"], k, "module")
        if m["imports"]:
            mark(m["icomment"], k, "imports")
        for d in m["defs"]:
            if d["d"] != "simple":
                mark(d["comment"], k, d["name"])
                for x in d.get("fields", []) + d.get("items", []):
                    mark(x["comment"], k, d["name"] + "." + x["key"])
    return b, words


def fill_comments(bundle, seed):
    """Give about half of the places a plain comment and take others away."""
    b = clone(bundle)
    r = random.Random(seed)

    def fill(x, name):
        n = r.randint(0, 4)
        if n < 2:
            x[name] = C("note")
        elif n == 2:
            x[name] = None

    for m in b["modules"]:
        fill(m, "comment")
        fill(m, "icomment")
        for d in m["defs"]:
            fill(d, "comment")
            for x in d.get("fields", []) + d.get("items", []):
                fill(x, "comment")
    return b


def check_marks(b, g, r, words):
    """Every comment is in the header of its module once and in no other one;
    the one of the module is the first thing, the one of the imports not."""
    texts = [file_text(r, h) for h in header_names(g, b)]
    for word, (k, what) in words.items():
        counts = [t.count(word) for t in texts]
        if counts != [1 if i == k else 0 for i in range(len(texts))]:
            raise Violation(
                "the comment of %s in module %s is %s times in the headers %s"
                % (what, b["modules"][k]["name"], counts, header_names(g, b))
            )
        first = comment_parts(texts[k])[0]
        if (what == "module") != (word in first):
            raise Violation(
                "the first comment of the header of module %s is %r, but the comment of %s is %r"
                % (b["modules"][k]["name"], first, what, word)
            )


def c12_check(case):
    b, g = case["bundle"], case["gen"]
    words = {}
    if case.get("fill"):
        b = fill_comments(b, case["fill"])
    if case.get("marks"):
        b, words = mark_comments(b)
    bare = strip_comments(b)
    one = must(g, b)
    two = must(g, bare)
    if sorted(one.files) != sorted(two.files):
        raise Violation("comments change the set of files of generate-%s" % g)
    for n in sorted(one.files):
        if n.endswith(".bin"):
            same = one.files[n] == two.files[n]
        else:
            same = c_tokens(one.files[n]) == c_tokens(two.files[n])
        if not same:
            raise Violation("comments change the code in %s (generate-%s)" % (n, g))
    # comments are kept, next to what they belong to
    kept = 0
    check_marks(b, g, one, words)
    for m, h in zip(b["modules"], header_names(g, b)):
        text = file_text(one, h)
        everything = comment_parts(text)
        for c, what in ((m["comment"], "module"), (m["icomment"] if m["imports"] else None, "imports")):
            if c and c["text"]:
                kept += 1
                if not _in_comments(c["text"], everything):
                    raise Violation("comment %r of the %s of %s is lost" % (c["text"], what, h))
        for d in m["defs"]:
            if d["d"] == "simple":
                continue
            region = _region_comments(text, M.c_name(d["name"]), d["d"])
            if region is None:
                raise Violation("%s is not defined in %s" % (d["name"], h))
            # the nearest definition start before the closing brace
            block = region.group(0)
            start = max(block.rfind("typedef "), block.rfind("union ") if d["d"] == "choice" else -1)
            begin = region.start() + max(start, 0)
            block = text[begin: region.end()]
            if d["comment"] and d["comment"]["text"]:
                kept += 1
                before = text[:begin]
                found = list(COMMENT.finditer(before))
                if not found or before[found[-1].end():].strip() or not _in_comments(
                    d["comment"]["text"], [found[-1].group(0)]
                ):
                    raise Violation(
                        "comment %r of %s is not in front of it" % (d["comment"]["text"], d["name"])
                    )
            elements = d.get("fields") or [
                {"key": k, "comment": {i["key"]: i for i in d["items"]}[k]["comment"]}
                for k, _ in M.enum_positions(d)
            ]
            found = element_comments(block, [M.c_name(e["key"]) for e in elements])
            for e in elements:
                c = e["comment"]
                if not c:
                    continue
                around = found.get(M.c_name(e["key"]), [])
                for part in (c["unit"], c["text"]):
                    if part:
                        kept += 1
                        if not _in_comments(part, around):
                            raise Violation(
                                "comment %r of %s.%s is not at its place in %s (found there: %s)"
                                % (part, d["name"], e["key"], h, around)
                            )
    # COSMOS: only descriptions, units and the endianness marks differ
    if case["cosmos"]:
        for m in b["modules"]:
            p1, p2 = cosmos_packets(b, m), cosmos_packets(bare, m)
            for name in p1:
                if _cosmos_core(p1[name]) != _cosmos_core(p2[name]):
                    raise Violation("comments change the items of the COSMOS packet %s" % name)
    return Info(kept >= 2, "generate-" + g, "cosmos" if case["cosmos"] else "C only")


def _cosmos_core(p):
    return [
        (i.keyword, i.name, i.type, i.bits, i.array_bits, i.id, i.states, i.limits)
        for i in p.items
    ]


@st.composite
def c12_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary"]))
    cosmos = draw(st.integers(0, 2)) == 0
    marks = draw(st.booleans())
    fill = draw(st.integers(0, 10**6)) if marks else 0
    if g == "binary" and draw(st.booleans()):
        return {
            "bundle": draw(gen.binary_bundles(cosmos=True)), "gen": g, "cosmos": cosmos, "marks": marks,
            "fill": fill,
        }
    b = draw(gen.bundles(Opts(
        modules=(1, 3), choices=not cosmos and draw(st.booleans()), withs=g != "binary",
        arrays=COSMOS_ARRAYS | {"enum"}, enums=(0, 2), big_enums=False,
        few_keys=draw(st.integers(0, 3)) == 0,
    )))
    return {"bundle": b, "gen": g, "cosmos": cosmos, "marks": marks, "fill": fill}


C12 = Property(
    "C12", lambda tier: c12_cases(), c12_check, show_bundle,
    "Random bundles with comments at every place the grammar allows, with characters which mean "
    "something in C or COSMOS; the code of the commented and of the stripped bundle has to be the "
    "same token for token, and every comment has to be found next to its element; in half of the "
    "cases the comments have unique words, which have to be there once and nowhere else. Non-trivial: at "
    "least 2 comments to keep.",
    {"quick": 1120, "thorough": 20000},
    directed=[
        {"bundle": simple_bundle([SEQ("Pkt",
            F("a", UINT(3), comment=C("*/ int x; /*", "m/s")),
            F("b", UINT(9), comment=C("tail \\")),
            F("c", UINT(9), comment=C("tail \\ \\")),
            F("d", UINT(9), comment=C("??/")),
            F("e", UINT(9)),
        )]), "gen": g, "cosmos": True} for g in ("cfs", "c", "binary")
    ],
    assumptions=[
        "comments are compared without quotes, backslashes, '*', '/' and white space",
        "comments of simple definitions, imports of single types and WITH COMPONENTS are not kept",
    ],
)

# ---------------------------------------------------------------------- C13


def shuffled(bundle, seed, files_only):
    r = random.Random(seed)
    b = clone(bundle)
    r.shuffle(b["modules"])
    if not files_only:
        for m in b["modules"]:
            r.shuffle(m["defs"])
            r.shuffle(m["imports"])
            for i in m["imports"]:
                r.shuffle(i["types"])
    return b


def header_meaning(text):
    defs, rest = run.c_definitions(text)
    includes = sorted(re.findall(r"#include\s+\S+", run.strip_c_comments(text)))
    notes = sorted(
        " ".join(c.split()) for c in comment_parts(text)
    )
    return {
        "definitions": sorted(defs), "rest": sorted(rest), "includes": includes,
        "macros": sorted(run.macros(text)), "comments": notes,
    }


def c13_check(case):
    b, g = case["bundle"], case["gen"]
    r = random.Random(case["seed"])
    one = must(g, b)
    if case["files_only"]:
        b2 = shuffled(b, case["seed"], True)
        order = names_of(b)
        r.shuffle(order)
        two = must(g, b2, modules=order)
        if one.files != two.files:
            bad = sorted(
                n for n in set(one.files) | set(two.files) if one.files.get(n) != two.files.get(n)
            )
            raise Violation(
                "the order of the files or of --asn1-modules changes %s (generate-%s)" % (bad, g)
            )
    else:
        b2 = shuffled(b, case["seed"], False)
        two = must(g, b2)
        if sorted(one.files) != sorted(two.files):
            raise Violation("the order of definitions changes the set of files")
        for n in sorted(one.files):
            if n.endswith(".bin"):
                same = one.files[n] == two.files[n]
                what = "bytes"
            else:
                m1 = header_meaning(one.files[n].decode())
                m2 = header_meaning(two.files[n].decode())
                what = [k for k in m1 if m1[k] != m2[k]]
                same = not what
            if not same:
                raise Violation(
                    "the order of definitions or imports changes %s of %s (generate-%s)"
                    % (what, n, g)
                )
    if case["cosmos"]:
        for m in b["modules"]:
            messages = [d["name"] for d in m["defs"] if d["d"] == "seq"]
            if not messages:
                continue
            kw = {"modules": m["name"], "messages": messages}
            if must("cosmos", b, **kw).files != must("cosmos", b2, **kw).files:
                raise Violation(
                    "the order of files, definitions or imports changes the COSMOS packets of %s"
                    % m["name"]
                )
    moved = texts_of(b) != texts_of(b2)
    return Info(moved, "generate-" + g, "files" if case["files_only"] else "definitions")


@st.composite
def c13_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary"]))
    cosmos = draw(st.integers(0, 2)) == 0
    if g == "binary" and draw(st.booleans()):
        b = draw(gen.binary_bundles(cosmos=True))
    else:
        b = draw(gen.bundles(Opts(
            modules=(1, 4), withs=g != "binary", arrays=COSMOS_ARRAYS | {"enum"},
            choices=not cosmos and draw(st.booleans()), big_enums=False, fields=(1, 4),
            comments=draw(st.booleans()),
        )))
    return {
        "bundle": b, "gen": g, "cosmos": cosmos, "seed": draw(st.integers(0, 10**6)),
        "files_only": draw(st.booleans()),
    }


C13 = Property(
    "C13", lambda tier: c13_cases(), c13_check, show_bundle,
    "Random bundles are generated twice: with the files and --asn1-modules in another order "
    "(output identical), or with definitions, imports and imported names in another order (every "
    "definition, constant, include and comment the same, binary and COSMOS output identical). "
    "Non-trivial: the shuffle changed the input.",
    {"quick": 1120, "thorough": 20000},
)
