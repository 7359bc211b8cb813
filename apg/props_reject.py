"""C15 C16 C17 C18: what has to be rejected, and how."""

import os
import random
import re

from hypothesis import strategies as st

from . import gen, model as M, run
from .common import (
    clone, cosmos_packets, file_text, header_names, must, names_of, show_bundle, texts_of,
)
from .cprobe import Member, run_probe  # noqa: F401
from .driver import Info, Property, Skip, Violation
from .gen import Opts
from .props_layout import (
    ARR, BOOL, CHOICE, COSMOS_ARRAYS, ENUM, F, INT, REF, SEQ, SIMPLE, UINT, simple_bundle,
)

GENS = ["cfs", "c", "binary", "cosmos"]


class Job:
    """One command line: texts and arguments, changed by the faults."""

    def __init__(self, bundle, g):
        self.bundle = bundle
        self.gen = g
        self.texts = None  # of the bundle when None
        self.modules = None
        self.messages = None
        self.extra_paths = []
        self.twice = []
        if g == "cosmos":
            pool = [
                (m["name"], d["name"])
                for m in bundle["modules"] for d in m["defs"] if d["d"] == "seq"
            ]
            if not pool:
                raise Skip()
            self.modules, self.messages = pool[-1][0], [pool[-1][1]]

    def copy(self):
        j = Job.__new__(Job)
        j.__dict__.update(self.__dict__)
        j.bundle = clone(self.bundle)
        return j

    def execute(self, d, out):
        texts = self.texts if self.texts is not None else texts_of(self.bundle)
        paths = run.write_inputs(d, texts)
        paths += [paths[i] for i in self.twice]
        for at, path in self.extra_paths:
            paths.insert(at, path)
        modules = self.modules if self.modules is not None else names_of(self.bundle)
        argv = run.argv_for(self.gen, paths, out, modules, None, self.messages)
        rc, o, e = run.cli_raw(argv, d)
        return run.Result(rc, o, e, {})


def expect_rejected(job, control, existing, what):
    """The faulty command fails and writes nothing; the control succeeds."""
    with run.Scratch() as d:
        before = {}
        if control is not None:
            r = control.execute(d, "out")
            if not r.ok:
                raise Violation(
                    "generate-%s failed (%s) on the bundle without the fault: %s"
                    % (job.gen, r.rc, r.tail())
                )
        out = "out" if existing else "out2"
        before = run.read_tree(os.path.join(d, out))
        r = job.execute(d, out)
        after = run.read_tree(os.path.join(d, out))
        if r.rc == "hang":
            raise Violation("generate-%s does not end: %s" % (job.gen, what))
        if r.ok:
            raise Violation("generate-%s accepts %s" % (job.gen, what))
        if before != after:
            changed = sorted(
                n for n in set(before) | set(after) if before.get(n) != after.get(n)
            )
            raise Violation(
                "generate-%s reports %s (%s), but wrote %s"
                % (job.gen, what, r.tail()[-160:], changed)
            )


# ---------------------------------------------------------------------- C15

FAULTS = {}


def fault(*gens):
    def register(fn):
        FAULTS[fn.__name__.replace("_", "-")] = (fn, gens or GENS)
        return fn

    return register


def unused_name(bundle, r):
    used = {d["name"] for _, d in M.all_defs(bundle)}
    for n in r.sample(["Zulu", "Yankee", "Ghost-type", "Missing2", "Q"], 5):
        if n not in used:
            return n
    raise Skip()


def near_name(bundle, r):
    """A name which is like a defined one."""
    names = [d["name"] for _, d in M.all_defs(bundle)]
    used = set(names)
    n = r.choice(names)
    for c in (n + "-x", n + "2", n[:-1] if len(n) > 1 and n[-2] != "-" else n + "q"):
        if c not in used:
            return c
    return unused_name(bundle, r)


def pick(r, pool):
    pool = list(pool)
    if not pool:
        raise Skip()
    return r.choice(pool)


def wrap(ty, r):
    for _ in range(r.choice([0, 0, 1, 2])):
        ty = ARR(r.randint(1, 4), ty)
    return ty


@fault()
def undefined_field_type(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "seq"))
    f = pick(r, d["fields"])
    n = r.choice([unused_name, near_name])(j.bundle, r)
    f["ty"], f["with"] = wrap(REF(n), r), None


@fault()
def undefined_choice_type(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "choice"))
    pick(r, d["fields"])["ty"] = REF(near_name(j.bundle, r))


@fault()
def undefined_simple_type(j, r):
    m = pick(r, j.bundle["modules"])
    m["defs"].insert(
        r.randint(0, len(m["defs"])), SIMPLE("Alias-x9", REF(near_name(j.bundle, r)))
    )


@fault()
def not_imported(j, r):
    m = pick(r, [m for m in j.bundle["modules"] if m["imports"]])
    used = gen.used_types(m)
    i, n = pick(r, [(i, n) for i in m["imports"] for n in i["types"] if n in used])
    i["types"].remove(n)
    if not i["types"]:
        m["imports"].remove(i)


@fault()
def import_of_unknown_type(j, r):
    m = pick(r, [m for m in j.bundle["modules"] if m["imports"]])
    i = pick(r, m["imports"])
    i["types"].insert(r.randint(0, len(i["types"])), near_name(j.bundle, r))


@fault()
def import_of_a_type_which_is_elsewhere(j, r):
    """The type is there, but in the module itself or in a third one."""
    m = pick(r, [m for m in j.bundle["modules"] if m["imports"]])
    i = pick(r, m["imports"])
    own = r.randint(0, 1)
    d = pick(r, [
        d for o, d in M.all_defs(j.bundle)
        if (o is m if own else o["name"] not in (m["name"], i["from"]))
    ])
    i["types"].insert(r.randint(0, len(i["types"])), d["name"])


@fault()
def import_of_unknown_type_in_a_part_of_its_own(j, r):
    m = pick(r, [m for m in j.bundle["modules"] if m["imports"]])
    i = pick(r, m["imports"])
    m["imports"].insert(
        r.choice([0, len(m["imports"])]),
        {"types": [near_name(j.bundle, r)], "from": i["from"], "comment": None},
    )


@fault()
def import_from_wrong_module(j, r):
    m = pick(r, [m for m in j.bundle["modules"] if m["imports"]])
    i = pick(r, m["imports"])
    n = pick(r, i["types"])
    others = [
        o["name"] for o in j.bundle["modules"] if o["name"] not in (m["name"], i["from"])
    ]
    other = pick(r, others)
    i["types"].remove(n)
    if not i["types"]:
        m["imports"].remove(i)
    for k in m["imports"]:
        if k["from"] == other:
            k["types"].append(n)
            break
    else:
        m["imports"].append({"types": [n], "from": other, "comment": None})


@fault()
def imported_module_not_given(j, r):
    wanted = {i["from"] for m in j.bundle["modules"] for i in m["imports"]}
    if j.gen == "cosmos":
        wanted.discard(j.modules)
    gone = pick(r, sorted(wanted))
    j.bundle["modules"] = [m for m in j.bundle["modules"] if m["name"] != gone]


def other_def(name, d, r):
    k = r.randint(0, 3)
    if k == 0:
        return clone(d)
    if k == 1:
        return SEQ(name, F("k", UINT(7)))
    if k == 2:
        return ENUM(name, "dup-a-x", "dup-b-x")
    return SIMPLE(name, UINT(255))


@fault()
def type_defined_twice_in_module(j, r):
    m, d = pick(
        r, [(m, d) for m, d in M.all_defs(j.bundle) if d["name"] not in M.POSIX]
    )
    m["defs"].insert(r.randint(0, len(m["defs"])), other_def(d["name"], d, r))


@fault()
def type_defined_in_two_modules(j, r):
    m, d = pick(r, M.all_defs(j.bundle))
    o = pick(r, [o for o in j.bundle["modules"] if o is not m])
    if d["name"] in M.POSIX:
        new = clone(d)
    else:
        new = other_def(d["name"], {"d": "seq", "name": d["name"], "comment": None,
                                    "fields": [F("z", UINT(1))]}, r)
    o["defs"].insert(r.randint(0, len(o["defs"])), new)


@fault()
def module_name_twice(j, r):
    if len(j.bundle["modules"]) < 2 or r.randint(0, 1):
        # a module of its own, which nothing else depends on
        names = names_of(j.bundle)
        name = r.choice([n for n in names if names.count(n) == 1] or names)
        j.bundle["modules"].insert(
            r.randint(0, len(j.bundle["modules"])),
            {
                "name": name, "comment": None, "imports": [], "icomment": None,
                "defs": [SEQ("Again-%d-x9" % len(j.bundle["modules"]), F("k", UINT(7)))],
            },
        )
        if j.gen != "cosmos":
            j.modules = sorted(set(names_of(j.bundle)))
        return
    m, o = r.sample(j.bundle["modules"], 2)
    old, m["name"] = m["name"], o["name"]
    for x in j.bundle["modules"]:
        for i in x["imports"]:
            if i["from"] == old:
                i["from"] = o["name"]
    if j.gen == "cosmos":
        j.modules = o["name"] if j.modules == old else j.modules
    else:
        j.modules = sorted(set(names_of(j.bundle)))


@fault()
def several_module_names_twice(j, r):
    names = names_of(j.bundle)
    if len(names) < 2:
        raise Skip()
    at = r.choice([0, 0, len(names)])
    j.modules = j.modules if j.gen == "cosmos" else names
    for i, name in enumerate(r.sample(names, r.randint(2, len(names)))):
        j.bundle["modules"].insert(at, {
            "name": name, "comment": None, "imports": [], "icomment": None,
            "defs": [SEQ("Again-%d-x9" % i, F("k", UINT(7)))],
        })


@fault()
def file_twice(j, r):
    j.twice = j.twice + [r.randrange(len(j.bundle["modules"]))]


@fault()
def null_field(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "seq", "choice"))
    f = pick(r, d["fields"])
    f["ty"], f["with"] = {"k": "null"}, None


@fault()
def null_array(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "seq"))
    f = pick(r, d["fields"])
    f["ty"], f["with"] = ARR(2, wrap({"k": "null"}, r)), None


@fault()
def null_simple(j, r):
    m = pick(r, j.bundle["modules"])
    m["defs"].insert(r.randint(0, len(m["defs"])), SIMPLE("Nothing-x9", {"k": "null"}))


def all_withs(w):
    out = [w]
    for i in w["items"]:
        if "w" in i["value"]:
            out.extend(all_withs(i["value"]["w"]))
    return out


def all_items(w):
    out = list(w["items"])
    for i in w["items"]:
        if "w" in i["value"]:
            out.extend(all_items(i["value"]["w"]))
    return out


@fault()
def key_used_twice_in_a_type(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "seq", "choice"))
    at = r.randrange(len(d["fields"]))
    f = clone(d["fields"][at])
    if d["d"] == "seq" and r.randint(0, 1):
        f["ty"] = UINT(r.choice([1, 255]))
    f["with"] = None
    d["fields"].insert(r.choice([at + 1, r.randint(0, len(d["fields"]))]), f)


@fault()
def key_used_twice_in_an_enumeration(j, r):
    _, d = pick(r, M.all_defs(j.bundle, "enum"))
    at = r.randrange(len(d["items"]))
    i = clone(d["items"][at])
    if i["pos"] is not None:
        # the numbers stay right
        i["pos"] = len(d["items"])
    d["items"].insert(r.choice([at + 1, r.randint(0, len(d["items"]))]), i)


@fault()
def component_key_given_twice(j, r):
    withs = [
        f["with"] for _, d in M.all_defs(j.bundle, "seq") for f in d["fields"] if f.get("with")
    ]
    w = pick(r, [w for f in withs for w in all_withs(f)])
    i = clone(pick(r, w["items"]))
    w["items"].insert(r.randint(0, len(w["items"])), i)


@fault()
def unknown_component_key(j, r):
    withs = [
        f["with"] for _, d in M.all_defs(j.bundle, "seq") for f in d["fields"] if f.get("with")
    ]
    w = pick(r, withs)
    item = pick(r, all_items(w))
    item["key"] = item["key"] + r.choice(["-nokey", "9x"])


@fault()
def component_key_of_the_wrong_level(j, r):
    scope = M.Scope(j.bundle)
    pool = []
    for _, d in M.all_defs(j.bundle, "seq"):
        for f in d["fields"]:
            if not f.get("with"):
                continue
            t = scope.resolve(f["ty"])
            # keys of the sequences inside of t which t itself does not have
            own = {x["key"] for x in t["fields"]}
            for x in t["fields"]:
                inner = scope.resolve(M.split_array(x["ty"])[1])
                if inner.get("d") == "seq":
                    pool += [
                        (f["with"], y["key"]) for y in inner["fields"] if y["key"] not in own
                    ]
            pool += [
                (f["with"], y["key"]) for y in d["fields"] if y["key"] not in own
            ]
    w, key = pick(r, pool)
    w["items"].append({"key": key, "value": gen.int_value(0), "comment": None})


@fault()
def with_components_of_an_enumerated_or_simple_type(j, r):
    scope = M.Scope(j.bundle)
    pool = []
    for _, d in M.all_defs(j.bundle, "seq"):
        for f in d["fields"]:
            if f["ty"]["k"] == "ref" and scope.defs[f["ty"]["n"]]["d"] in ("enum", "simple"):
                pool.append(f)
    f = pick(r, pool)
    f["with"] = {
        "comment": None,
        "items": [{"key": "a", "value": gen.int_value(0), "comment": None}],
    }


@fault("cfs", "c", "binary")
def module_missing_in_argument(j, r):
    names = list(j.modules or names_of(j.bundle))
    if len(names) < 2:
        raise Skip()
    names.remove(r.choice(names))
    j.modules = names


@fault("cfs", "c", "binary")
def module_only_in_argument(j, r):
    names = list(j.modules or names_of(j.bundle))
    n = r.choice(names)
    new = r.choice([n + "-x", n + "2", "ghost", n.upper(), ""])
    if new in names:
        raise Skip()
    names.insert(r.randint(0, len(names)), new)
    j.modules = names


@fault("cfs", "c", "binary")
def module_wrong_in_argument(j, r):
    names = list(j.modules or names_of(j.bundle))
    k = r.randrange(len(names))
    names[k] = names[k] + "-x"
    if len(set(names)) < len(names):
        raise Skip()
    j.modules = names


@fault("cfs", "c", "binary")
def module_twice_in_argument(j, r):
    names = list(j.modules or names_of(j.bundle))
    names.insert(r.randint(0, len(names)), r.choice(names))
    j.modules = names


@fault("cosmos")
def cosmos_unknown_module(j, r):
    new = j.modules + r.choice(["-x", "2"])
    if new in names_of(j.bundle):
        raise Skip()
    j.modules = new


@fault("cosmos")
def cosmos_unknown_message(j, r):
    messages = list(j.messages)
    messages.insert(r.randint(0, len(messages)), near_name(j.bundle, r))
    j.messages = messages


@fault("cosmos")
def cosmos_message_of_other_module(j, r):
    others = [
        d["name"] for m, d in M.all_defs(j.bundle, "seq") if m["name"] != j.modules
    ]
    messages = list(j.messages)
    messages.insert(r.randint(0, len(messages)), pick(r, others))
    j.messages = messages


@fault()
def input_file_missing(j, r):
    j.extra_paths = [(r.randint(0, len(j.bundle["modules"])), "nofile.asn")]


# these can be there several times, none of them takes another one away
REPEATED = {
    "undefined-field-type", "undefined-choice-type", "not-imported", "import-of-unknown-type",
    "type-defined-twice-in-module", "type-defined-in-two-modules", "module-name-twice",
    "file-twice", "null-field", "unknown-component-key",
    "key-used-twice-in-a-type", "component-key-given-twice", "module-twice-in-argument",
    "module-missing-in-argument", "module-only-in-argument", "module-wrong-in-argument",
    "cosmos-unknown-message",
}


def faulty_job(case):
    job = Job(clone(case["bundle"]), case["gen"])
    r = random.Random(case["pick"])
    FAULTS[case["fault"]][0](job, r)
    for _ in range(case.get("times", 1) - 1):
        if case["fault"] in REPEATED:
            try:
                FAULTS[case["fault"]][0](job, r)
            except Skip:
                pass
    return job


def c15_check(case):
    control = Job(clone(case["bundle"]), case["gen"])
    job = faulty_job(case)
    expect_rejected(
        job, control, case["existing"],
        "an inconsistent bundle (%s)" % case["fault"],
    )
    return Info(True, case["fault"], "generate-" + case["gen"])


@st.composite
def c15_cases(draw):
    name = draw(st.sampled_from(sorted(FAULTS)))
    g = draw(st.sampled_from(sorted(FAULTS[name][1])))
    b = draw(gen.bundles(Opts(
        modules=(1, 3) if draw(st.integers(0, 3)) == 0 else (2, 4),
        simples=(1, 2), enums=(1, 1), seqs=(1, 3), fields=(1, 4),
        comments=False, big_enums=False, arrays=COSMOS_ARRAYS,
        withs=g != "binary",
        choices="choice" in name or draw(st.integers(0, 3)) == 0,
    )))
    if g == "binary" and "component" in name:
        b = draw(gen.binary_bundles())
    return {
        "bundle": b, "gen": g, "fault": name, "pick": draw(st.integers(0, 10**6)),
        "existing": draw(st.booleans()), "times": draw(st.sampled_from([1, 1, 2, 3])),
    }


def show_fault(case):
    try:
        job = faulty_job(case)
    except Skip:
        return "not applicable"
    return (
        "generate-%s, %s; modules=%s messages=%s\n%s"
        % (case["gen"], case["fault"], job.modules, job.messages,
           "\n".join(texts_of(job.bundle)))
    )[:3000]


def W1(key, value):
    return {"comment": None, "items": [{"key": key, "value": value, "comment": None}]}


C15 = Property(
    "C15", lambda tier: c15_cases(), c15_check, show_fault,
    "A random consistent bundle (accepted: the control run) gets one fault of %d kinds at a random "
    "place; the command has to exit with an error and leave the output folder (empty, or holding "
    "the control run's files) as it was. Non-trivial: every case where the fault applies."
    % len(FAULTS),
    {"quick": 2000, "thorough": 40000},
    level="fault_enumeration",
    directed=[
        {
            "bundle": {
                "modules": [
                    {
                        "name": "a", "comment": None, "imports": [], "icomment": None,
                        "defs": [
                            SIMPLE("Sa", UINT(7)), ENUM("Ea", "e1", "e2"),
                            SEQ("Ta", F("x", UINT(3)), F("y", BOOL), F("z", UINT(7))),
                            SEQ("Tb", F("t", REF("Ta")), F("s", REF("Sa")), F("e", REF("Ea"))),
                        ],
                    },
                    {
                        "name": "b", "comment": None, "icomment": None,
                        "imports": [{"types": ["Ta", "Tb"], "from": "a", "comment": None}],
                        "defs": [
                            SEQ("Tc", F("t", REF("Tb"), None if g == "binary" else
                                        W1("t", {"w": {"comment": None, "items": [
                                            {"key": k, "value": gen.int_value(1), "comment": None}
                                            for k in "xz"
                                        ]}})),
                                F("u", REF("Ta"))),
                            CHOICE("Ch", F("p", REF("Ta")), F("q", REF("Tb"))),
                        ],
                    },
                    {
                        "name": "c", "comment": None, "icomment": None,
                        "imports": [{"types": ["Tc"], "from": "b", "comment": None}],
                        "defs": [SEQ("Td", F("t", REF("Tc")))],
                    },
                ]
            },
            "gen": g, "fault": name, "pick": p, "existing": p % 2 == 0, "times": 1 + p // 2 * 2,
        }
        for name in sorted(FAULTS) for g in FAULTS[name][1]
        for p in (
            range(6) if "component" in name else (0, 1, 2, 3) if name in REPEATED else (0, 1)
        )
    ],
    assumptions=[
        "WITH COMPONENTS on a predefined type is outside of the property (APG does not promise "
        "to find it)",
    ],
)

# ---------------------------------------------------------------------- C16

KEYWORDS = [
    "DEFINITIONS", "AUTOMATIC", "TAGS", "BEGIN", "IMPORTS", "FROM", "END", "SEQUENCE",
    "ENUMERATED", "CHOICE", "INTEGER", "REAL", "BOOLEAN", "IA5String", "NumericString",
    "SIZE", "OF", "WITH", "COMPONENTS", "TRUE", "FALSE", "Module-",
]

BAD_TYPES = [
    "INTEGER(0...7)", "INTEGER(0..)", "INTEGER(..7)", "INTEGER(a..b)", "INTEGER(0,7)",
    "INTEGER(0..7", "INTEGER 0..7)", "INTEGER()", "INTEGER(0..1.5)", "INTEGER(0)",
    "INTEGER[0..7]", "INTEGER(0..7))", "REAL(1.0, 2.0)", "REAL(1.0 .. )", "REAL( .. 2.0)",
    "REAL(a .. b)", "REAL(1.0 .. 2.0", "IA5String", "IA5String (SIZE 3)",
    "IA5String (SIZE (x))", "IA5String (SIZE (3)", "IA5String (3)", "NumericString (SIZE ())",
    "NumericString", "SEQUENCE (SIZE (3)) BOOLEAN", "SEQUENCE OF BOOLEAN",
    "SEQUENCE (SIZE ()) OF BOOLEAN", "SEQUENCE (SIZE (3)) OF", "SEQUENCE (SIZE (n)) OF BOOLEAN",
    "SEQUENCE (SIZE (3) OF BOOLEAN", "BOOLEAN(0..1)", "BOOLEAN TRUE", "OCTET STRING", "",
    "REAL(1 .. 2)", "REAL(1 .. 2.0)", "REAL(1.0 .. 2)", "INTEGER(0..1.0)", "INTEGER(0.0..1)",
    "INTEGER(0x0..7)", "INTEGER(0..0x7)", "INTEGER(0..TRUE)", "REAL(TRUE .. 2.0)",
    "REAL(0.0 .. 1.0 .. 2.0)", "INTEGER(0..1..2)", "INTEGER{0..7}", "REAL[0.0 .. 7.0]", "INTEGER(1.0..2.0)", "INTEGER(0..7, 9..10)", "INTEGER(0+7)", "INTEGER(-9-7)", "INTEGER(0 7)",
    "REAL(0.0+1.0)", "REAL(-2.0-1.0)", "REAL(0.0 1.0)", "REAL(0.0 ..1.0 )",
    "SEQUENCE { a BOOLEAN }", "ENUMERATED { a, b }", "boolean", "5", "\"Foo\"",
]

BAD_COMMENTS = [
    "open [ bracket", "close ] bracket", "a -- b", "brace { x", "pipe | x", "tilde ~", "caf\u00e9",
    "m] x", "m]", "[m x", "[m", "[]", "[] x", "[m m] x", "[m]]", "[[m]", "]", "[", "[m.s] x",
    "unit later [m]", "[m] [s]", "x--", "-- x", "--", "] x", "\u00b0C", "back `tick",
]


def tokens_of(parts, pred=lambda t: True):
    return [i for i, p in enumerate(parts) if p[0] == "t" and pred(p[1])]


def split_key(token):
    """The leading name of a token ("key type" or a bare name)."""
    head = token.split(" ", 1)
    return head[0], (" " + head[1] if len(head) > 1 else "")


def is_name_token(t):
    h, _ = split_key(t)
    return h[:1].isalpha() and h.replace("-", "").isalnum() and not any(
        h.startswith(k) for k in KEYWORDS
    )


# what a change can put into the text, for the kinds where there is a choice
VARIANTS = {
    "bad-type": BAD_TYPES,
    # blocks are no field types, but definitions may have them
    "bad-simple-type": [t for t in BAD_TYPES if "{" not in t],
    "bad-comment": BAD_COMMENTS,
    "bad-position": [
        "k9()", "k9(x)", "k9(1.5)", "k9(0", "k9 0)", "k9[0]", "k9(0)(1)", "k9(0..1)", "k9(-)",
        "k9 = 0", "k9(TRUE)", "k9(0) k8", "K9",
    ],
    "suffix": ["END\n", "x\n", "}\n", "X ::= BOOLEAN\n", "\n;\n", None, "@", ".", "0", "END"],
    "stray": [
        "@", "!", "\"", ";", "}", "{", ")", "#", "$", "foo", "=", "\\", "?", "&", "*/",
    ],
    "name-chars": [
        "%s_x", "%s-", "1%s", "-%s", "_%s", "%s.a", "under", "%s$", "%s's", "%s--a", "a--%s",
    ],
    "module-name": [
        "%s", "cap", "Module-%s_x", "Module %s", "Module-", "Modul-%s", "Module-1%s",
        "Module-%s-", "Module_%s", "MODULE-%s", "Module-%s--a", "Module--%s",
    ],
    "bad-value": ["x", "1,5", "1..2", "0x1F", "\"a\"", "TRUE FALSE", "1 2", "()", "Foo", "true"],
    "blank": ["", "\n", " \t\n"],
    # what has to be there together
    "drop-phrase": [
        "Module-", "FROM Module-", "FROM", "DEFINITIONS AUTOMATIC TAGS ::= BEGIN", "DEFINITIONS",
        "AUTOMATIC TAGS", "TAGS", "::= BEGIN", "BEGIN", "IMPORTS", "::= SEQUENCE {", "::= SEQUENCE",
        "::= ENUMERATED {", "::= ENUMERATED", "::= CHOICE {", "::= CHOICE", "SEQUENCE (SIZE (",
        "SEQUENCE", "(SIZE (", "SIZE", "))", ")) OF", "OF", "IA5String", "NumericString",
        "IA5String (SIZE (", "NumericString (SIZE (", "INTEGER", "INTEGER(", "REAL", "REAL(",
        "BOOLEAN", "(WITH COMPONENTS {", "WITH COMPONENTS", "WITH", "COMPONENTS", "(TRUE)",
        "TRUE", "FALSE", "(", ")", "..", " .. ", "::=", "{", "}", "})", ",", ";", "END",
    ],
    # a name which is the same in the whole bundle and on the command line
    "illegal-name": [
        (what, form)
        for what in ("type", "key", "module")
        for form in (
            "{}-X", "{}-xYz", "{}X", "{}xYz", "A{}", "{}_x", "_{}", "{}-", "-{}", "1{}", "{}.x",
            "{}--x", "{}:x", "{}\u00e9", "case", "{}-x-9-", "{}-x-9-Y",
        )
    ],
}


def illegal_name(j, k, n, new):
    """Rename a type, key or module everywhere."""
    r = random.Random(n)
    what, form = new
    m = j.bundle["modules"][k]
    if what == "type":
        old = pick(r, [d["name"] for d in m["defs"]])
    elif what == "module":
        old = m["name"]
    else:
        old = pick(r, [x["key"] for d in m["defs"] for x in d.get("fields", d.get("items", []))])
        if form == "{}--x" and old in {x["key"] for d in m["defs"] for x in d.get("items", [])}:
            # a comment
            raise Skip()
    if form == "case":
        name = old[0].swapcase() + old[1:]
        if name == old:
            raise Skip()
    else:
        if form == "A{}" and what == "type":
            form = "AB{}"
        name = form.replace("{}", old)
    before = r"(?<=Module-)" if what == "module" else r"(?<![A-Za-z0-9-])"
    pattern = re.compile(before + re.escape(old) + r"(?![A-Za-z0-9-])")
    j.texts = [pattern.sub(lambda _: name, t) for t in texts_of(j.bundle)]
    swap = lambda x: name if x == old else x
    if what == "module":
        if j.gen == "cosmos":
            j.modules = swap(j.modules)
        else:
            j.modules = [swap(x) for x in names_of(j.bundle)]
    if what == "type" and j.gen == "cosmos":
        j.messages = [swap(x) for x in j.messages]


def token_kind(t):
    """What a token is for the grammar."""
    head = t.split(" ")[0]
    if is_name_token(t):
        return "key and type" if " " in t else "name" if t[0].islower() else "type name"
    if t.lstrip("-").isdigit():
        return "number"
    return head if len(t) < 3 or head[0] != ":" else t.split("(")[0]


def token_at(parts, r, at, pred=lambda t: True):
    """A token, each kind of them equally often; or the one at a given index."""
    pool = tokens_of(parts, pred)
    if at is not None:
        return pool[at % len(pool)] if pool else pick(r, pool)
    kinds = {}
    for i in pool:
        kinds.setdefault(token_kind(parts[i][1]), []).append(i)
    return pick(r, kinds[pick(r, sorted(kinds))])


def phrase_spots(text, phrase):
    """Where a phrase stands, outside of comments."""
    pattern = re.escape(phrase)
    if phrase[0].isalpha() and phrase[-1].isalpha():
        pattern = r"(?<![A-Za-z0-9-])%s(?![A-Za-z0-9])" % pattern
    out = []
    start = 0
    for line in text.splitlines(True):
        code = line.split("--")[0]
        out += [start + match.start() for match in re.finditer(pattern, code)]
        start += len(line)
    return out


def mutate(kind, module, n, variant=None, at=None):
    """Text of the module after one malforming change; Skip when there is no
    place for it."""
    r = random.Random(n)
    m = clone(module)
    if kind in VARIANTS:
        pool = VARIANTS[kind]
        new = r.choice(pool) if variant is None else pool[variant % len(pool)]
    if kind == "bad-type":
        fields = [f for d in m["defs"] if d["d"] in ("seq", "choice") for f in d["fields"]]
        bad = {"k": "raw", "text": new}
        f = pick(r, fields)
        f["ty"], f["with"], f["comment"] = bad, None, None
        return M.render(m)
    if kind == "bad-simple-type":
        bad = {"k": "raw", "text": new}
        m["defs"].insert(r.randint(0, len(m["defs"])), SIMPLE("Bad-x9", bad))
        return M.render(m)
    if kind == "bad-comment":
        bad = {"le": False, "unit": None, "text": new}
        spots = [m] + m["defs"] + [
            x for d in m["defs"] for x in d.get("fields", []) + d.get("items", [])
        ] + m["imports"]
        spot = pick(r, spots)
        spot["comment"] = bad
        return M.render(m)
    if kind == "bad-position":
        d = pick(r, [d for d in m["defs"] if d["d"] == "enum"])
        d["items"] = [dict(i, pos=None) for i in d["items"]]
        d["items"].insert(
            r.randint(0, len(d["items"])), {"key": new, "pos": None, "comment": None}
        )
        return M.render(m)
    if kind == "empty-block":
        d = pick(r, [d for d in m["defs"] if d["d"] != "simple"])
        if d["d"] == "enum":
            d["items"] = []
        elif r.randint(0, 2) == 0 and any(f.get("with") for f in d["fields"]):
            f = pick(r, [f for f in d["fields"] if f.get("with")])
            f["with"]["items"] = []
        else:
            d["fields"] = []
        return M.render(m)
    if kind == "no-definitions":
        m["defs"] = []
        return M.render(m)
    if kind == "empty-import":
        i = pick(r, m["imports"])
        i["types"] = []
        return M.render(m)
    parts = M.module_parts(m)
    if kind == "prefix":
        text = M.render_parts(parts)
        end = text.rindex("END") + 2
        return text[: r.randint(0, end)]
    if kind == "suffix":
        text = M.render_parts(parts)
        return text + (text if new is None else new)
    if kind == "drop-token":
        i = token_at(parts, r, at)
        parts[i] = ("t", "")
        return M.render_parts(parts)
    if kind == "double-token":
        i = token_at(parts, r, at)
        parts[i] = ("t", parts[i][1] + " " + parts[i][1])
        return M.render_parts(parts)
    if kind == "stray":
        i = token_at(parts, r, at)
        parts[i] = ("t", " " + new + " " + parts[i][1])
        return M.render_parts(parts)
    if kind == "keyword-case":
        pool = [
            (i, k) for i in tokens_of(parts) for k in KEYWORDS if k in parts[i][1]
        ]
        i, k = pick(r, pool)
        t = parts[i][1]
        new = r.choice([k.lower(), k[0] + k[1:].swapcase(), k[:-1], k.swapcase()])
        if new == k:
            raise Skip()
        at = r.choice([a for a in range(len(t)) if t.startswith(k, a)])
        parts[i] = ("t", t[:at] + new + t[at + len(k):])
        return M.render_parts(parts)
    if kind == "name-case":
        i = token_at(parts, r, at, is_name_token)
        head, rest = split_key(parts[i][1])
        if r.randint(0, 1) and len(head) > 1:
            at = r.randint(1, len(head) - 1)
            new = head[:at] + head[at].swapcase() + head[at + 1:]
        else:
            new = head[0].swapcase() + head[1:]
        if new == head:
            raise Skip()
        parts[i] = ("t", new + rest)
        return M.render_parts(parts)
    if kind == "name-chars":
        i = token_at(parts, r, at, is_name_token)
        head, rest = split_key(parts[i][1])
        if "--" in new and not rest:
            # the rest of the line is a comment, where one may stand for an enumeration
            raise Skip()
        new = head.replace("-", "_") if new == "under" else new.replace("%s", head)
        if new == head:
            raise Skip()
        parts[i] = ("t", new + rest)
        return M.render_parts(parts)
    if kind == "module-name":
        i = tokens_of(parts, lambda t: t.startswith("Module-"))[0]
        t = parts[i][1]
        n = t[len("Module-"):]
        parts[i] = ("t", "Module-" + n.capitalize() if new == "cap" else new.replace("%s", n))
        return M.render_parts(parts)
    if kind == "bad-value":
        pool = []
        for i in tokens_of(parts):
            if parts[i][1] == "(":
                pool.append(i)
        i = pick(r, pool)
        k = next(k for k in range(i + 1, len(parts)) if parts[k][0] == "t")
        parts[k] = ("t", new)
        return M.render_parts(parts)
    if kind == "drop-phrase":
        text = M.render_parts(parts)
        spots = phrase_spots(text, new)
        i = spots[at] if at is not None else pick(r, spots)
        return text[:i] + text[i + len(new):]
    if kind == "no-space":
        text = M.render_parts(parts)
        match = pick(r, re.finditer(r"(?m)^ *[a-z][a-z0-9-]*( )(?=[A-Z])", text))
        return text[: match.start(1)] + text[match.end(1):]
    if kind == "second-comment":
        lines = M.render_parts(parts).splitlines(True)
        i = pick(r, [i for i, x in enumerate(lines) if "--" in x])
        lines.insert(i + 1, r.choice(["-- again\n", "    -- [m] x\n", "--\n"]))
        return "".join(lines)
    if kind == "blank":
        return new
    raise AssertionError(kind)


MALFORMED = [
    "bad-type", "bad-simple-type", "bad-comment", "bad-position", "empty-block", "no-definitions",
    "empty-import", "prefix", "suffix", "drop-token", "double-token", "stray",
    "keyword-case", "name-case", "name-chars", "module-name", "bad-value", "blank",
    "illegal-name", "drop-phrase", "no-space", "second-comment",
]


def c16_job(case):
    b = case["bundle"]
    control = Job(b, case["gen"])
    job = control.copy()
    k = case["pick"] % len(b["modules"])
    if case["kind"] == "illegal-name":
        pool = VARIANTS["illegal-name"]
        v = case.get("variant")
        new = pool[(case["pick"] if v is None else v) % len(pool)]
        illegal_name(job, k, case["pick"], new)
        return control, job
    texts = texts_of(b)
    texts[k] = mutate(
        case["kind"], b["modules"][k], case["pick"], case.get("variant"), case.get("at"))
    job.texts = texts
    return control, job


def c16_check(case):
    control, job = c16_job(case)
    expect_rejected(
        job, control if case["control"] else None, case["control"],
        "malformed text (%s)" % case["kind"],
    )
    return Info(True, case["kind"], "generate-" + case["gen"])


@st.composite
def c16_cases(draw):
    # as often as there are variants, but each kind often enough
    kind = draw(st.sampled_from(
        [k for k in MALFORMED for _ in range(max(4, len(VARIANTS.get(k, ())) // 3))]))
    variant = None
    if kind in VARIANTS:
        variant = draw(st.integers(0, len(VARIANTS[kind]) - 1))
    g = draw(st.sampled_from(GENS))
    b = draw(gen.bundles(Opts(
        modules=(1, 3) if kind != "empty-import" else (2, 3),
        enums=(0, 1), fields=(1, 4), seqs=(1, 2), big_enums=False,
        withs=g != "binary", arrays=COSMOS_ARRAYS, choices=draw(st.booleans()),
        comments=draw(st.booleans()),
    )))
    return {
        "bundle": b, "gen": g, "kind": kind, "pick": draw(st.integers(0, 10**6)),
        "variant": variant,
        "control": draw(st.integers(0, 3)) == 0,
    }


def show_malformed(case):
    try:
        _, job = c16_job(case)
    except Skip:
        return "not applicable"
    return ("generate-%s, %s\n%s" % (case["gen"], case["kind"], "\n".join(job.texts)))[:3000]


_C16_BUNDLE = {
    "modules": [
        {
            "name": "m", "comment": {"le": False, "unit": None, "text": "module"},
            "imports": [], "icomment": None,
            "defs": [
                SIMPLE("Sa", UINT(7)), ENUM("Ea", "e1", "e2"),
                SEQ("Ta", F("x", UINT(3)), F("y", BOOL), F("r", {"k": "real", "lo": "-1.0", "hi": "1.0"}),
                    F("s", {"k": "str", "t": "IA5String", "n": 3})),
                SEQ("Tb", F("t", REF("Ta")), F("s", REF("Sa"))),
            ],
        }
    ]
}

# every construct, in two modules which import from each other's side
_NOTE = {"le": False, "unit": "m", "text": "note"}
_C16_FULL = {
    "modules": [
        {
            "name": "b-c", "comment": None, "icomment": None,
            "imports": [
                {"types": ["Sa", "Ta"], "from": "m", "comment": None},
                {"types": ["Ea"], "from": "m", "comment": _NOTE},
            ],
            "defs": [
                dict(SEQ("Tc", F("t", REF("Ta"), W1("x", gen.int_value(2))), F("e", REF("Ea"))), comment=_NOTE),
                CHOICE("Ch", F("a-1", REF("Ta")), F("b", REF("Tc"))),
                SEQ("Td", F("s", REF("Sa"))),
                SEQ("Te", F("s", ARR(3, REF("Sa"))), F("n", {"k": "str", "t": "NumericString", "n": 4}),
                    F("t", REF("Tc"), {"comment": None, "items": [
                        {"key": "e", "value": gen.int_value(1), "comment": _NOTE}]})),
            ],
        },
        {
            "name": "m", "comment": None, "imports": [], "icomment": None,
            "defs": [
                SIMPLE("Sa", UINT(255)), ENUM("Ea", "e1", "e2", "e3"),
                ENUM("Eb", ("f1", 1), ("f2", 0)),
                SEQ("Ta", F("x", UINT(3)), F("y", BOOL),
                    F("r", {"k": "real", "lo": "-1.0", "hi": "1.0"}), F("i", INT(-8, 7))),
                SIMPLE("Sb", BOOL),
            ],
        },
    ]
}


# its values are not complete enough for binary files
_C16_GENS = ["cfs", "c", "cosmos"]


def _c16_tokens():
    """Every token of the full bundle dropped, doubled and with something before
    it, every phrase dropped."""
    for k, m in enumerate(_C16_FULL["modules"]):
        parts = M.module_parts(m)
        for v, phrase in enumerate(VARIANTS["drop-phrase"]):
            for at in range(len(phrase_spots(M.render_parts(parts), phrase))):
                yield {
                    "bundle": _C16_FULL, "gen": _C16_GENS[at % 3], "kind": "drop-phrase",
                    "pick": k, "variant": v, "at": at, "control": False,
                }
        for kind in ("drop-token", "double-token", "stray", "name-case", "name-chars"):
            pred = is_name_token if kind.startswith("name") else lambda t: True
            for at in range(len(tokens_of(parts, pred))):
                for rep in range(3 if kind.startswith("name") else 1):
                    # the module is chosen by the parity
                    n = 2 * (at + 50 * rep) + k
                    yield {
                        "bundle": _C16_FULL, "gen": _C16_GENS[at % 3], "kind": kind, "pick": n,
                        "at": at, "control": False,
                    }


C16 = Property(
    "C16", lambda tier: c16_cases(), c16_check, show_malformed,
    "The text of one module of a random valid bundle gets one malforming change of %d kinds "
    "(truncation at any byte, a token dropped, doubled or inserted, wrong case, forbidden "
    "characters in names and comments, malformed types and values, empty blocks); every command "
    "has to exit with an error and write nothing. Non-trivial: every case where the change "
    "applies." % len(MALFORMED),
    {"quick": 2400, "thorough": 50000},
    level="fault_enumeration",
    directed=[
        {"bundle": _C16_FULL, "gen": g, "kind": "blank", "pick": 1, "control": True}
        for g in _C16_GENS
    ] + [
        {"bundle": _C16_BUNDLE, "gen": GENS[p % 4], "kind": k, "pick": p, "control": p % 8 == 0}
        for k in MALFORMED for p in range(4 if k in VARIANTS else 12)
    ] + [
        {
            "bundle": _C16_BUNDLE, "gen": GENS[(p + v) % 4], "kind": k, "pick": 100 * p + v,
            "variant": v, "control": False,
        }
        for k in sorted(VARIANTS) for v in range(len(VARIANTS[k])) for p in range(3)
    ] + [
        {
            "bundle": _C16_FULL, "gen": _C16_GENS[(p + v) % 3], "kind": k, "pick": p,
            "variant": v, "control": False,
        }
        for k in sorted(VARIANTS) for v in range(len(VARIANTS[k])) for p in range(2)
    ] + [
        {"bundle": _C16_FULL, "gen": _C16_GENS[p % 3], "kind": k, "pick": p, "control": False}
        for k in ("second-comment", "no-space") for p in range(24)
    ] + list(_c16_tokens()),
    assumptions=["the grammar of APG's documentation is what is well-formed"],
)

# ---------------------------------------------------------------------- C17


def chain_defs(n, r, kinds):
    """n definitions, each uses the next one (and some later ones)."""
    defs = []
    for i in range(n):
        name = "T%d" % i
        fields = []
        targets = []
        if i + 1 < n:
            targets.append(i + 1)
        if i + 2 < n and r.random() < 0.4:
            targets.append(r.randint(i + 1, n - 1))
        for k, t in enumerate(targets):
            ty = REF("T%d" % t)
            if "array" in kinds and r.random() < 0.3:
                ty = ARR(2, ty)
            fields.append(F("k%d" % k, ty))
        fields.append(F("own", UINT(255)))
        r.shuffle(fields)
        defs.append(SEQ(name, *fields))
    return defs


def dag_bundle(case):
    r = random.Random(case["pick"])
    n = case["n"]
    if case["shape"] == "types":
        defs = chain_defs(n, r, case["kinds"])
        if case["order"] == "reverse":
            pass  # users come first
        elif case["order"] == "random":
            r.shuffle(defs)
        else:
            defs.reverse()
        if "choice" in case["kinds"]:
            lo = r.choice([0, 0, n // 2, n - 1])
            users = [lo, n - 1, *[r.randint(lo, n - 1) for _ in range(r.choice([0, 1, 2, 6, 9]))]]
            r.shuffle(users)
            at = r.choice([0, 0, r.randint(0, len(defs))])
            defs.insert(at, CHOICE(
                "Top", *[F("a%d" % i, REF("T%d" % u)) for i, u in enumerate(users)]
            ))
        if "others" in case["kinds"]:
            # enumerations and simple definitions, anywhere in the text
            seqs = [d for d in defs if d["d"] == "seq"]
            for i in range(r.randint(1, 4)):
                e = ENUM("En%d" % i, "e%da" % i, "e%db" % i)
                d = r.choice(seqs)
                if r.randint(0, 1):
                    e = SIMPLE("En%d" % i, UINT(r.choice([7, 255, 65535])))
                d["fields"].insert(
                    r.randint(0, len(d["fields"])), F("other%d" % i, REF(e["name"]))
                )
                defs.insert(r.choice([len(defs), r.randint(0, len(defs))]), e)
        return simple_bundle(defs)
    modules = []
    for i in range(n):
        uses = sorted({i + 1, r.randint(i + 1, n - 1)} if i + 1 < n else set())
        if i + 1 < n and r.random() < 0.3:
            uses = [r.randint(i + 1, n - 1)]
        fields = uses
        if case["shape"] == "dense":
            # every module imports all later ones: 2**n ways through the imports
            uses = list(range(i + 1, n))
            fields = uses[:1]
        modules.append(
            {
                "name": "m%d" % i, "comment": None, "icomment": None,
                "imports": [
                    {"types": ["T%d" % u], "from": "m%d" % u, "comment": None} for u in uses
                ],
                "defs": [
                    SEQ("T%d" % i, *([F("u%d" % u, REF("T%d" % u)) for u in fields]
                                     + [F("own", UINT(255))])),
                ],
            }
        )
        r.shuffle(modules[-1]["imports"])
    if case["order"] == "random":
        r.shuffle(modules)
    elif case["order"] == "forward":
        modules.reverse()
    return {"modules": modules}


def cycle_bundle(case):
    """The acyclic bundle with one edge more, which closes a cycle."""
    r = random.Random(case["pick"])
    n = max(case["n"], case["length"])
    b = dag_bundle(dict(case, n=n))
    length = case["length"]
    start = r.randint(0, n - length)
    if case["shape"] == "types":
        # T<start> -> ... -> T<start+length-1> -> T<start>
        d = next(d for m, d in M.all_defs(b) if d["name"] == "T%d" % (start + length - 1))
        ty = REF("T%d" % start)
        via = case["via"]
        if via == "array":
            ty = ARR(r.randint(1, 3), ty)
        elif via == "array2":
            ty = ARR(2, ARR(r.randint(1, 3), ty))
        elif via == "choice":
            alts = [F("a", ty), F("b", REF("T%d" % (n - 1)))]
            alts += [F("c%d" % i, REF("T%d" % (n - 1))) for i in range(r.choice([0, 0, 3, 7]))]
            r.shuffle(alts)
            c = CHOICE("Via", *alts)
            ms = b["modules"][0]["defs"]
            ms.insert(r.randint(0, len(ms)), c)
            ty = REF("Via")
        d["fields"].insert(r.randint(0, len(d["fields"])), F("loop", ty))
        # the chain has to exist: T<i> uses T<i+1>
        return b
    by_name = {m["name"]: m for m in b["modules"]}
    for k in range(start, start + length):
        src = by_name["m%d" % k]
        nxt = start if k == start + length - 1 else k + 1
        if all(i["from"] != "m%d" % nxt for i in src["imports"]):
            src["imports"].append(
                {"types": ["T%d" % nxt], "from": "m%d" % nxt, "comment": None}
            )
            if case["use"] and nxt != k:
                src["defs"][0]["fields"].append(F("loop", REF("T%d" % nxt)))
    return b


def c17_check(case):
    g = case["gen"]
    if case["cyclic"]:
        b = cycle_bundle(case)
        job = Job(b, g)
        if g == "cosmos" and case["shape"] == "modules":
            m = b["modules"][case["pick"] % len(b["modules"])]
            job.modules, job.messages = m["name"], [m["defs"][0]["name"]]
        old = run.CPU_LIMIT_S
        run.CPU_LIMIT_S = 20
        try:
            expect_rejected(
                job, None, False,
                "circular %s of length %d%s"
                % (
                    "imports" if case["shape"] == "modules" else "types", case["length"],
                    "" if case["shape"] == "modules" else " (%s)" % case["via"],
                ),
            )
        finally:
            run.CPU_LIMIT_S = old
        return Info(True, "cycle of " + case["shape"], "length %d" % case["length"])
    b = dag_bundle(case)
    old = run.CPU_LIMIT_S
    run.CPU_LIMIT_S = 20
    try:
        return c17_acyclic(case, b, g)
    finally:
        run.CPU_LIMIT_S = old


def c17_acyclic(case, b, g):
    if g == "cosmos":
        if "array" in case["kinds"]:
            raise Skip()
        m = next(m for m in b["modules"] for d in m["defs"] if d["name"] == "T0")
        packets = cosmos_packets(b, m, ["T0"])
        want = len(M.leaves(M.Scope(b), M.Scope(b).defs["T0"]))
        if len(packets["T0"].items) != want:
            raise Violation(
                "COSMOS packet of nested sequences has %d items instead of %d"
                % (len(packets["T0"].items), want)
            )
        return Info(case["n"] > 3, "acyclic " + case["shape"])
    r = must(g, b)
    # every header can be read on its own: definitions come before their uses
    names = header_names(g, b)
    for name in names if len(names) <= 3 else [names[0], names[-1]]:
        c = run.gcc(r.files, '#include "%s"\n' % name, run=False, flags=["-I."])
        if not c.ok:
            raise Violation(
                "generate-%s: a definition is missing or comes after its use in %s: %s"
                % (g, name, c.messages[:300])
            )
    return Info(case["n"] > 3, "acyclic " + case["shape"])


@st.composite
def c17_cases(draw, tier="quick"):
    shape = draw(st.sampled_from(["types"] * 6 + ["modules"] * 6 + ["dense"]))
    cyclic = shape != "dense" and draw(st.booleans())
    g = draw(st.sampled_from(GENS))
    limit = 7 if shape == "modules" else (14 if g == "cosmos" else 30)
    if cyclic:
        limit = 7
    if shape == "dense":
        limit = 24
    kinds = []
    if shape == "types":
        kinds = [k for k in ("array", "choice", "others") if draw(st.booleans())]
    return {
        "shape": shape, "cyclic": cyclic, "gen": g, "n": draw(st.integers(1, limit)),
        "kinds": kinds, "pick": draw(st.integers(0, 10**6)),
        "order": draw(st.sampled_from(["reverse", "forward", "random"])),
        "length": draw(st.sampled_from([1, 2, 3, 4, 5, 7])), "use": draw(st.booleans()),
        "via": draw(st.sampled_from(["field", "array", "array2", "choice"])),
    }


def show_graph(case):
    b = cycle_bundle(case) if case["cyclic"] else dag_bundle(case)
    return ("generate-%s\n%s" % (case["gen"], "\n".join(texts_of(b))))[:3000]


C17 = Property(
    "C17", lambda tier: c17_cases(tier), c17_check, show_graph,
    "Random acyclic graphs of types (up to 30 definitions in any order) and modules (up to 7, or up "
    "to 25 which import all others behind them) have to be generated, within 20 s of CPU time, with "
    "every definition before its use; the same graphs with one edge which "
    "closes a cycle of length 1-7 (through fields, arrays, arrays of arrays, CHOICE or imports) "
    "have to end with an error, within 20 s of CPU time and without output. Non-trivial: cyclic, "
    "or more than 3 nodes.",
    {"quick": 1800, "thorough": 30000},
    level="exploration",
    directed=[
        {
            "shape": s, "cyclic": True, "gen": g, "n": 4, "kinds": [], "pick": p, "order": "random",
            "length": l, "use": True, "via": v,
        }
        for s in ("types", "modules") for g in GENS for l in (1, 2, 3) for p in (1,)
        for v in (("field", "array", "choice") if s == "types" else ("field",))
    ] + [
        {
            "shape": "dense", "cyclic": False, "gen": g, "n": 25, "kinds": [], "pick": p,
            "order": o, "length": 1, "use": True, "via": "field",
        }
        for g in GENS for p, o in ((1, "random"), (2, "reverse"))
    ],
    assumptions=["a run which needs more than 20 s of CPU time does not end"],
)

# ---------------------------------------------------------------------- C18


def place(ty, where, r):
    """A bundle which uses the type at this place, with the message Pkt."""
    around = [F("pre", UINT(255)), F("post", UINT(15))]
    if where == "field":
        fs = around[:1] + [F("val", ty)] + around[1:]
        return simple_bundle([SEQ("Pkt", *fs)])
    if where == "simple":
        defs = [SIMPLE("Val", ty), SEQ("Pkt", F("pre", UINT(255)), F("val", REF("Val")))]
        r.shuffle(defs)
        return simple_bundle(defs)
    if where == "nested":
        defs = [SEQ("Inner", F("val", ty)), SEQ("Pkt", F("pre", UINT(255)), F("in", REF("Inner")))]
        return simple_bundle(defs)
    if where == "import":
        return {
            "modules": [
                simple_bundle([SIMPLE("Val", ty)], "a")["modules"][0],
                {
                    "name": "m", "comment": None, "icomment": None,
                    "imports": [{"types": ["Val"], "from": "a", "comment": None}],
                    "defs": [SEQ("Pkt", F("val", REF("Val")), F("post", UINT(7)))],
                },
            ]
        }
    if where == "element":
        return simple_bundle([SIMPLE("Val", ty), SEQ("Pkt", F("val", ARR(3, REF("Val"))))])
    raise AssertionError(where)


def raw(text):
    return {"k": "raw", "text": text}


def c18_bad(case):
    """(bundle, what) of a range which has to be rejected."""
    r = random.Random(case["pick"])
    kind = case["kind"]
    if kind == "posix":
        name = case["name"]
        k, lo, hi = M.POSIX[name]
        if k == "real":
            lo2, hi2 = r.choice([
                ("-3.3e38", hi), (lo, "3.3e38"), ("-3.5e38", hi), (lo, "3.5e38"),
                ("0.0", hi), (lo, "0.0"), ("-1.0", "1.0"), ("-1.7976931348623155e308", "1.0e308"),
            ])
            if (float(lo2), float(hi2)) == (float(lo), float(hi)):
                raise Skip()
            ty = raw("REAL(%s .. %s)" % (lo2, hi2))
        else:
            d = r.choice([1, 1, 2, 7, 128])
            lo2, hi2 = r.choice([(lo + d, hi), (lo - d, hi), (lo, hi + d), (lo, hi - d),
                                 (lo - d, hi + d), (0, hi), (lo, 0), (-hi, hi)])
            if k == "uint" and r.random() < 0.1:
                lo2, hi2 = -(hi + 1) // 2, (hi + 1) // 2 - 1  # the signed twin
            if (lo2, hi2) == (lo, hi) or lo2 > hi2:
                raise Skip()
            ty = raw("INTEGER(%d..%d)" % (lo2, hi2))
        defs = [SIMPLE(name, ty), SEQ("Pkt", F("a", REF(name)), F("b", UINT(255)))]
        if case["where"] == "simple":
            defs[1]["fields"].pop(0)  # defined but not used
        r.shuffle(defs)
        return simple_bundle(defs), "%s with the range %s" % (name, ty["text"])
    if kind == "reversed":
        lo, hi = case["lo"], case["hi"]
        if r.random() < 0.5:
            text = "INTEGER(%d..%d)" % (hi, lo)
        else:
            text = "REAL(%.3e .. %.3e)" % (float(hi), float(lo))
            if float("%.3e" % hi) <= float("%.3e" % lo):
                raise Skip()
        return place(raw(text), case["where"], r), text
    if kind == "too-wide-uint":
        hi = r.choice([2**64, 2**64 + 1, 2**65 - 1, 2**70, 10**30, 2**128])
        lo = r.choice([0, 0, 1, hi, 2**64])
        text = "INTEGER(%d..%d)" % (min(lo, hi), hi)
        return place(raw(text), case["where"], r), text
    if kind == "too-wide-int":
        lo, hi = r.choice([
            (-(2**63) - 1, 0), (-1, 2**63), (-(2**63) - 1, 2**63), (-1, 2**64 - 1), (-1, 2**64),
            (-(10**25), -(10**24)), (-128, 10**20), (-(2**63), 2**63),
        ])
        text = "INTEGER(%d..%d)" % (lo, hi)
        return place(raw(text), case["where"], r), text
    text = "REAL(%s .. %s)" % r.choice([
        ("-1e400", "1.0"), ("-1.0", "1e400"), ("-1.8e308", "0.0"), ("0.0", "1.8e308"),
        ("-1e999", "1e999"), ("1e309", "1e310"),
    ])
    return place(raw(text), case["where"], r), text


def width_bundle(case):
    fields = []
    for i, t in enumerate(case["types"]):
        fields.append(F("k%d" % i, t))
    return simple_bundle([SEQ("Pkt", *fields)])


def c18_widths(case):
    """Widths of single ranges, in the C struct and in the packet."""
    b = width_bundle(case)
    g = case["gen"]
    packet = cosmos_packets(b, b["modules"][0])["Pkt"]
    kinds = {"uint": "UINT", "int": "INT", "real": "FLOAT"}
    for t, item in zip(case["types"], packet.items):
        want = M.leaf_bits(t)
        if item.bits != want or item.type != kinds[t["k"]]:
            raise Violation(
                "COSMOS item for %s is %s of %d bits, needed are %s of %d"
                % (M.type_text(t), item.type, item.bits, kinds[t["k"]], want)
            )
    if len(packet.items) != len(case["types"]):
        raise Violation("COSMOS packet with %d items of %d" % (len(packet.items), len(case["types"])))
    if g == "cosmos":
        return
    r = must(g, b)
    header = header_names(g, b)[0]
    file_text(r, header)
    body = []
    for i, t in enumerate(case["types"]):
        f = "s.k%d" % i
        if t["k"] == "real":
            body.append(
                "memset(&s, 0, sizeof s); %s = 1.0/3; printf(\"%%d\\n\", bits(&s, sizeof s) > 0 "
                "? (%s == 1.0/3 ? 64 : %s == (double)(float)(1.0/3) ? 32 : 0) : 0);" % (f, f, f)
            )
            continue
        lo, hi = t["lo"], t["hi"]
        # exactly the values of the range's encoding fit
        body.append(
            "memset(&s, 0, sizeof s); %s = -1; printf(\"%%d\\n\", bits(&s, sizeof s));" % f
        )
        for v in (lo, hi):
            body.append(
                "%s = %s; printf(\"%%d\\n\", %s == %s && (%s < 0) == %d);"
                % (f, cval(v), f, cval(v), f, v < 0)
            )
    main = (
        "#include <stdio.h>\n#include <string.h>\n#include \"%s\"\n"
        "static int bits(void *p, size_t n) { int c = 0; unsigned char *q = p; while (n--) "
        "c += __builtin_popcount(*q++); return c; }\nstatic Pkt s;\n"
        "int main(void) {\n%s\nreturn 0; }\n" % (header, "\n".join(body))
    )
    c = run.gcc(r.files, main)
    if not c.ok:
        raise Violation("generate-%s: invalid C: %s" % (g, c.messages[:300]))
    lines = iter(c.lines)
    for t in case["types"]:
        want = M.leaf_bits(t)
        got = int(next(lines))
        if got != want:
            raise Violation(
                "generate-%s encodes %s with %d bits, needed are %d"
                % (g, M.type_text(t), got, want)
            )
        if t["k"] != "real":
            for v in ("lo", "hi"):
                if next(lines) != "1":
                    raise Violation(
                        "generate-%s: the field for %s cannot hold %d" % (g, M.type_text(t), t[v])
                    )


def cval(v):
    if v < 0:
        return "(%dLL - 1)" % (v + 1)
    return "%dULL" % v if v >= 2**63 else "%dLL" % v


def c18_check(case):
    if case["kind"] == "widths":
        c18_widths(case)
        return Info(len(case["types"]) > 1, "widths")
    b, what = c18_bad(case)
    job = Job(b, case["gen"])
    if case["gen"] == "cosmos":
        job.modules, job.messages = "m", ["Pkt"]
    with run.Scratch() as d:
        r = job.execute(d, "out")
        if r.rc == "hang":
            raise Violation("generate-%s does not end for %s" % (case["gen"], what))
        if r.ok:
            raise Violation("generate-%s accepts %s (%s)" % (case["gen"], what, case["where"]))
        if case["kind"] in ("posix", "reversed", "too-wide-real"):
            # found when reading: nothing may have been written
            files = run.read_tree(os.path.join(d, "out"))
            if files:
                raise Violation(
                    "generate-%s reports %s, but wrote %s" % (case["gen"], what, sorted(files))
                )
    return Info(True, case["kind"], "at " + case["where"])


@st.composite
def near_power(draw, lo=1, hi=64):
    e = draw(st.integers(lo, hi))
    return max(0, min(2**hi - 1, 2**e + draw(st.integers(-2, 1))))


@st.composite
def width_types(draw):
    k = draw(st.integers(0, 5))
    if k < 2:
        top = draw(st.one_of(near_power(), st.integers(0, 2**64 - 1)))
        lo = draw(st.one_of(st.just(0), st.just(top), st.integers(0, top)))
        return {"k": "uint", "lo": lo, "hi": top}
    if k < 5:
        a = draw(st.one_of(near_power(0, 63), st.integers(1, 2**63)))
        lo = -max(1, min(a, 2**63))
        hi = draw(st.one_of(
            near_power(0, 63), st.just(lo), st.just(0), st.just(-1), st.integers(lo, 2**63 - 1)
        ))
        hi = max(lo, min(hi, 2**63 - 1))
        return {"k": "int", "lo": lo, "hi": hi}
    return draw(gen.real_type())


@st.composite
def c18_cases(draw):
    kind = draw(st.sampled_from(
        ["widths", "widths", "posix", "reversed", "too-wide-uint", "too-wide-int", "too-wide-real"]
    ))
    case = {
        "kind": kind, "gen": draw(st.sampled_from(GENS)), "pick": draw(st.integers(0, 10**6)),
        "where": draw(st.sampled_from(["field", "simple", "nested", "import", "element"])),
    }
    if kind == "widths":
        case["types"] = draw(st.lists(width_types(), min_size=1, max_size=14))
    elif kind == "posix":
        case["name"] = draw(st.sampled_from(sorted(M.POSIX)))
    elif kind == "reversed":
        lo = draw(st.one_of(st.integers(-300, 300), st.integers(-(2**63), 2**62)))
        case["lo"] = lo
        case["hi"] = lo + draw(st.one_of(st.just(1), st.integers(1, 2**40)))
    return case


def show_range(case):
    if case["kind"] == "widths":
        return "generate-%s %s" % (case["gen"], [M.type_text(t) for t in case["types"]])
    try:
        b, what = c18_bad(case)
    except Skip:
        return "not applicable"
    return "generate-%s, %s\n%s" % (case["gen"], what, "\n".join(texts_of(b)))


def _edge_types():
    out = []
    for n in range(0, 65):
        for v in (2**n - 1, 2**n):
            if v < 2**64:
                out.append(UINT(v))
    signed = []
    for n in (0, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63):
        for lo in (-(2**n), -(2**n) - 1, -(2**n) + 1):
            for hi in (0, lo, 2**n - 1, 2**n, 1):
                if -(2**63) <= lo < 0 and lo <= hi < 2**63:
                    signed.append(INT(lo, hi))
    out += signed
    return [out[i:i + 20] for i in range(0, len(out), 20)]


C18 = Property(
    "C18", lambda tier: c18_cases(), c18_check, show_range,
    "Random ranges around every power of two: those which fit have to give exactly the needed "
    "width and signedness in the compiled struct and in the COSMOS packet (all unsigned widths "
    "1-64 and the signed boundaries as directed cases); redefined POSIX names, reversed ranges and "
    "ranges beyond 64 bits or double have to be rejected at every place a type can stand. "
    "Non-trivial: a range to reject, or more than one range.",
    {"quick": 2000, "thorough": 40000},
    directed=[
        {"kind": "widths", "gen": g, "pick": 0, "where": "field", "types": ts}
        for g in ("cfs", "c", "binary") for ts in _edge_types()
    ] + [
        {"kind": "posix", "gen": GENS[p % 4], "pick": p, "where": w, "name": n}
        for n in sorted(M.POSIX) for p in range(6) for w in ("field", "simple")
    ],
)
