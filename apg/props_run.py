"""C14 C19 C20: histories of commands, independence, completeness."""

import os
import random
import re

from hypothesis import strategies as st

from . import gen, model as M, run
from .common import (
    clone, file_text, must, names_of, read_cosmos, texts_of,
)
from .driver import Info, Property, Skip, Violation
from .gen import Opts
from .props_layout import (
    ARR, BOOL, CHOICE, COSMOS_ARRAYS, ENUM, F, REF, SEQ, SIMPLE, UINT, many, simple_bundle,
)

# ---------------------------------------------------------------------- C14


def seqs_of(bundle):
    return [(m["name"], d["name"]) for m, d in M.all_defs(bundle, "seq")]


def op_request(op, bundle):
    """(modules, messages) of a command of an operation."""
    if op["gen"] != "cosmos":
        return names_of(bundle), None
    pool = seqs_of(bundle)
    module = pool[op["n"] % len(pool)][0]
    messages = [d for m, d in pool if m == module]
    keep = 1 + op["n"] % len(messages)
    return module, messages[:keep]


LATE = {
    "late-bits.asn": (
        "Module-late-x9 DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"
        "Late-b-x9 ::= INTEGER(0..7)\n"
        "Late-a-x9 ::= SEQUENCE {\n  a SEQUENCE (SIZE (3)) OF Late-b-x9\n}\n"
        "END\n"
    ),
    "late-part.asn": (
        "Module-late-x9 DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"
        "Late-b-x9 ::= SEQUENCE {\n  a INTEGER(0..255),\n  b INTEGER(0..255)\n}\n"
        "Late-a-x9 ::= SEQUENCE {\n  x Late-b-x9 (WITH COMPONENTS {\n    b(3)\n  })\n}\n"
        "END\n"
    ),
    "late-choice.asn": (
        "Module-late-x9 DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"
        "Late-b-x9 ::= SEQUENCE {\n  a INTEGER(0..255)\n}\n"
        "Late-c-x9 ::= CHOICE {\n  a Late-b-x9\n}\n"
        "Late-a-x9 ::= SEQUENCE {\n  b Late-b-x9,\n  c Late-c-x9\n}\n"
        "END\n"
    ),
    "broken.asn": "Module-late-x9 DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nLate-b-x9 ::= SEQ\nEND\n",
}


def op_argv(op, bundle, paths, out):
    """The arguments of a command; a failing one is wrong in its arguments, in
    a file, or in something only the generation itself can notice."""
    modules, messages = op_request(op, bundle)
    if op["op"] == "fail":
        kind = op["n"] // 2 % 4
        late = None
        if kind == 0:
            if op["gen"] == "cosmos":
                messages = messages + ["Not-there"]
            else:
                modules = modules + ["not-there"]
        elif kind == 1:
            late = "broken.asn" if op["n"] % 2 else "missing.asn"
        elif op["gen"] == "cosmos":
            late = "late-choice.asn"
            modules, messages = "late-x9", ["Late-b-x9", "Late-a-x9"]
        else:
            late = "late-bits.asn"
            if op["gen"] == "binary" and op["n"] % 2:
                late = "late-part.asn"
        if late:
            at = op["n"] % (len(paths) + 1)
            paths = paths[:at] + [late] + paths[at:]
            if op["gen"] != "cosmos":
                modules = modules + ["late-x9"]
    return run.argv_for(
        op["gen"], paths, out, modules, op["endianness"], messages, op["target"]
    )


def fresh(op, bundle, cache):
    modules, messages = op_request(op, bundle)
    key = (op["bundle"], op["gen"], str(modules), str(messages), op["endianness"], op["target"])
    if key not in cache:
        r = must(
            op["gen"], bundle, modules=modules, messages=messages,
            endianness=op["endianness"], target=op["target"],
        )
        cache[key] = r.files
    return cache[key]


def c14_check(case):
    bundles = case["bundles"]
    cache = {}
    tree = {}
    history = []
    n_gen = 0
    with run.Scratch() as d:
        inputs = {}
        for i, b in enumerate(bundles):
            names = ["b%d_%d.asn" % (i, k) for k in range(len(b["modules"]))]
            run.write_inputs(d, texts_of(b), names)
            inputs[i] = names
        for names in inputs.values():
            for n in names:
                with open(os.path.join(d, n), "rb") as f:
                    tree[n] = f.read()
        for n, text in LATE.items():
            tree[n] = text.encode()
            with open(os.path.join(d, n), "wb") as f:
                f.write(tree[n])
        for op in case["ops"]:
            i = op["bundle"] % len(bundles)
            op = dict(op, bundle=i)
            out = "out%d" % (op["dir"] % 2)
            history.append("%s %s b%d -> %s" % (op["op"], op["gen"], i, out))
            if op["op"] in ("foreign", "stale"):
                if op["op"] == "foreign":
                    name = "keep-%d.txt" % (op["n"] % 3)
                else:
                    made = sorted(fresh(op, bundles[i], cache))
                    name = made[op["n"] % len(made)]
                path = os.path.join(out, name)
                os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
                data = b"# stale \xff %d\n" % op["n"] * (1 + 400 * (op["n"] % 2))
                with open(os.path.join(d, path), "wb") as f:
                    f.write(data)
                tree[path] = data
            elif op["op"] == "delete":
                mine = sorted(p for p in tree if p.startswith(out + "/"))
                if mine:
                    path = mine[op["n"] % len(mine)]
                    os.unlink(os.path.join(d, path))
                    del tree[path]
            else:
                if op.get("over"):
                    # all files of this command are already there, with other content
                    for k, name in enumerate(sorted(fresh(op, bundles[i], cache))):
                        path = os.path.join(out, name)
                        os.makedirs(os.path.dirname(os.path.join(d, path)), exist_ok=True)
                        tree[path] = b"# stale %d \xff\n" % k * (op["over"] * op["over"] * 40 - 39)
                        with open(os.path.join(d, path), "wb") as f:
                            f.write(tree[path])
                rc, o, e = run.cli_raw(op_argv(op, bundles[i], inputs[i], out), d)
                if op["op"] == "fail":
                    if rc == 0:
                        raise Violation(
                            "a wrong module, message or file was accepted: %s"
                            % op_argv(op, bundles[i], inputs[i], out)
                        )
                else:
                    if rc != 0:
                        raise Violation(
                            "generate-%s fails (%s) after %s: %s"
                            % (op["gen"], rc, history[:-1], (o + e)[-300:])
                        )
                    n_gen += 1
                    for name, data in fresh(op, bundles[i], cache).items():
                        path = os.path.join(out, name)
                        if op["gen"] == "cosmos":
                            data = tree.get(path, b"") + data
                        tree[path] = data
            got = run.read_tree(d)
            if got != tree:
                bad = sorted(n for n in set(got) | set(tree) if got.get(n) != tree.get(n))
                raise Violation(
                    "the history %s leaves other files than single runs in an empty folder: %s"
                    % (history, bad)
                )
    labels = sorted({op["op"] for op in case["ops"]})
    env = case.get("env")
    if env:
        c14_environment(bundles[0], env, cache)
        labels.append("other process environment")
    return Info(n_gen >= 2, *labels)


def c14_environment(bundle, env, cache):
    op = {
        "op": "gen", "gen": env["gen"], "bundle": 0, "n": env["n"], "target": "tgt",
        "endianness": "big-endian",
    }
    want = fresh(op, bundle, cache)
    with run.Scratch() as d:
        os.makedirs(os.path.join(d, "in", "deep"))
        os.makedirs(os.path.join(d, "work"))
        texts = texts_of(bundle)
        names = run.write_inputs(
            os.path.join(d, "in", "deep"), texts,
            ["Other name %d.asn1" % k for k in range(len(texts))],
        )
        out = "new/folder/of/output"
        if env["absolute"]:
            paths = [os.path.join(d, "in", "deep", n) for n in names]
            out = os.path.join(d, "work", out)
        else:
            paths = [os.path.join("..", "in", "deep", n) for n in names]
        argv = op_argv(op, bundle, paths, out)
        if env.get("before"):
            # after other commands in the same process, one of them refused
            before = [
                op_argv(dict(op, gen=g), bundle, paths, os.path.join(d, "before"))
                for g in env["before"]
            ]
            bad = op_argv(dict(op, op="fail", n=0), bundle, paths, os.path.join(d, "before"))
            rc, o, e = run.cli_many(before + [bad, argv], os.path.join(d, "work"))
        else:
            rc, o, e = run.cli_subprocess(
                argv, os.path.join(d, "work"),
                {
                    "PYTHONHASHSEED": str(env["hashseed"]), "LC_ALL": env["locale"],
                    "TZ": env["tz"], "LD_PRELOAD": run.clock_library(),
                    "CLOCK_SHIFT_S": str(env.get("clock", 0)), "USER": "u%s" % env["hashseed"],
                    "LOGNAME": "u%s" % env["hashseed"],
                },
            )
        if rc != 0:
            raise Violation(
                "generate-%s fails (%s) with other paths or in another environment: %s"
                % (env["gen"], rc, (o + e)[-300:])
            )
        got = run.read_tree(os.path.join(d, "work"))
        got = {os.path.relpath(n, "new/folder/of/output"): v for n, v in got.items()}
        if got != want:
            bad = sorted(n for n in set(got) | set(want) if got.get(n) != want.get(n))
            raise Violation(
                "generate-%s writes other files in another environment (%s): %s"
                % (env["gen"], env, bad)
            )


def smaller_bundle(bundle, seed):
    """The same modules with fewer definitions, keys and comments, as after an edit."""
    b = clone(bundle)
    r = random.Random(seed)
    for m in b["modules"]:
        imported = {t for x in b["modules"] for i in x["imports"] for t in i["types"]}
        for d in r.sample(m["defs"], len(m["defs"])):
            if len(m["defs"]) > 1 and r.randint(0, 1) and d["name"] not in imported:
                if dependents(b, d["name"]) == {d["name"]}:
                    m["defs"].remove(d)
        if r.randint(0, 1):
            m["comment"] = None
    return b if seqs_of(b) else clone(bundle)


@st.composite
def c14_cases(draw):
    bundles = []
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.integers(0, 2)) == 0:
            b = draw(gen.binary_bundles(cosmos=True))
        else:
            b = draw(gen.bundles(Opts(
                modules=(1, 2), fields=(1, 3), seqs=(1, 2), enums=(0, 1), simples=(0, 1),
                big_enums=False, arrays=frozenset({"posix"}), withs=False,
                comments=draw(st.booleans()),
            )))
            if draw(st.booleans()):
                # values, but none which the binary generator does not know
                b["modules"][0]["defs"].append(
                    SEQ("Vin-x9", F("v", UINT(255)), F("w", UINT(65535)))
                )
                b["modules"][0]["defs"].append(
                    SEQ("Vout-x9", F("a", REF("Vin-x9"), {
                        "comment": None, "items": [
                            {"key": "w", "value": gen.int_value(draw(st.integers(0, 65535))),
                             "comment": None},
                            {"key": "v", "value": gen.int_value(draw(st.integers(0, 255))),
                             "comment": None},
                        ]}))
                )
        bundles.append(b)
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["gen"] * 5 + ["fail", "foreign", "stale", "delete"]),
        "gen": st.sampled_from(["cfs", "c", "binary", "cosmos", "cosmos"]),
        "bundle": st.integers(0, 1), "dir": st.sampled_from([0, 0, 0, 1]), "n": st.integers(0, 50),
        "endianness": st.sampled_from(["little-endian", "big-endian"]),
        "target": st.sampled_from(["tgt", "tgt", "sub/tgt2"]),
        "over": st.sampled_from([0, 0, 0, 1, 2, 4]),
    })
    if len(bundles) == 1 and draw(st.booleans()):
        bundles.append(smaller_bundle(bundles[0], draw(st.integers(0, 10**6))))
    case = {"bundles": bundles, "ops": draw(st.lists(op, min_size=2, max_size=8)), "env": None}
    if draw(st.integers(0, 3)) == 0:
        case["env"] = {
            "gen": draw(st.sampled_from(["cfs", "c", "binary", "cosmos"])),
            "n": draw(st.integers(0, 9)), "absolute": draw(st.booleans()),
            "hashseed": draw(st.integers(0, 10**6)),
            "locale": draw(st.sampled_from(["C", "C.UTF-8", "POSIX", "de_DE.UTF-8"])),
            "tz": draw(st.sampled_from(["UTC", "Asia/Tokyo"])),
            "clock": 86400 * draw(st.integers(1, 4000)) + draw(st.integers(0, 86399)),
            "before": draw(st.sampled_from([
                None, ["cfs"], ["c"], ["binary"], ["cosmos"], ["cfs", "c", "binary", "cosmos"],
            ])),
        }
    return case


def show_history(case):
    out = "\n".join(
        "%s %s bundle %d out%d n=%d %s" % (
            o["op"], o["gen"], o["bundle"] % len(case["bundles"]), o["dir"] % 2, o["n"], o["target"]
        )
        for o in case["ops"]
    )
    if case.get("env"):
        out += "\nenvironment %s" % case["env"]
    for b in case["bundles"]:
        out += "\n" + "\n".join(texts_of(b))
    return out[:3000]


C14 = Property(
    "C14", lambda tier: c14_cases(), c14_check, show_history,
    "Random histories of 2 to 8 operations in two output folders (the four commands on one or two "
    "bundles, failing commands, foreign, stale and deleted files); after every operation the whole "
    "folder (also where every file of a command is already there with other "
    "content, or was written from a former version of the modules) has to equal a model built from single runs in empty folders (COSMOS files grow by the "
    "fresh content, everything else is replaced), inputs included. A quarter of the cases also runs "
    "a separate process with another hash seed, locale, time, user, working folder, file names and "
    "path form, or several commands in one process. Non-trivial: "
    "at least 2 successful commands.",
    {"quick": 1000, "thorough": 12000},
    directed=[
        {
            "bundles": [simple_bundle([
                SEQ("Vin", F("v", UINT(255)), F("w", UINT(65535))),
                SEQ("Vout", F("a", REF("Vin"), {"comment": None, "items": [
                    {"key": "w", "value": gen.int_value(258), "comment": None},
                    {"key": "v", "value": gen.int_value(3), "comment": None},
                ]})),
            ])],
            "ops": [
                {"op": o, "gen": g, "bundle": 0, "dir": 0, "n": n, "endianness": "big-endian",
                 "target": "tgt", "over": over}
                for o, n, over in (
                    ("gen", 0, 0), ("gen", 1, 4), ("fail", 0, 0), ("gen", 1, 1), ("fail", 3, 4),
                    ("gen", 1, 2),
                )
            ],
            "env": {
                "gen": g, "n": 1, "absolute": True, "hashseed": 77, "locale": "C", "tz": "UTC",
                "clock": 987654321, "before": before,
            },
        }
        for g in ("cfs", "c", "binary", "cosmos")
        for before in (None, ["cfs", "c", "binary", "cosmos"])
    ],
)

# ---------------------------------------------------------------------- C19


def dependencies(bundle):
    out = {}
    for _, d in M.all_defs(bundle):
        used = set()
        for f in d.get("fields", []):
            _, e = M.split_array(f["ty"])
            if e["k"] == "ref":
                used.add(e["n"])
        out[d["name"]] = used
    return out


def dependents(bundle, name):
    deps = dependencies(bundle)
    out = {name}
    while True:
        more = {n for n, used in deps.items() if used & out} - out
        if not more:
            return out
        out |= more


def module_closure(bundle, names):
    by_name = {m["name"]: m for m in bundle["modules"]}
    out = set(names)
    while True:
        more = {i["from"] for n in out for i in by_name[n]["imports"]} - out
        if not more:
            return out
        out |= more


def code(data):
    return " ".join(run.strip_c_comments(data.decode("utf-8", "replace")).split())


def files_of_module(g, m):
    n = M.c_name(m["name"])
    if g == "cfs":
        return [n + "_msg.h", n + "_msgids.h"]
    if g == "c":
        return [n + ".h", n + ".c"]
    out = [n + ".h"]
    for d in m["defs"]:
        if d["d"] == "seq" and any(f.get("with") for f in d["fields"]):
            out.append(M.lowerize(M.c_name(d["name"])) + ".bin")
    return out


def cosmos_text(bundle, module, messages):
    r = must("cosmos", bundle, modules=module, messages=messages)
    return file_text(r, "tgt.txt")


def change_def(d, r):
    """Another definition with the same name; keys which others use stay."""
    if d["d"] == "seq":
        n = r.randint(0, 2)
        if n == 0:
            d["fields"].append(F("added-x9", r.choice([UINT(7), UINT(65535), BOOL])))
        elif n == 1:
            d["fields"].insert(0, F("added-x9", UINT(255)))
        else:
            d["fields"].reverse()
            d["fields"].append(F("added-x9", UINT(1)))
    elif d["d"] == "enum":
        positions = d["items"][0]["pos"] is not None
        d["items"].append({
            "key": "added-x9", "pos": len(d["items"]) if positions else None, "comment": None,
        })
    elif d["d"] == "choice":
        d["fields"].append(F("added-x9", d["fields"][0]["ty"]))
    elif d["ty"]["k"] in ("uint", "bool"):
        # A bitfield stays one, and a whole number of bytes too: there may be arrays of it.
        wide, narrow = (511, 3) if gen.is_bitfield(d["ty"]) else (65535, 255)
        d["ty"] = UINT(wide) if d["ty"] != UINT(wide) else UINT(narrow)
    else:
        d["ty"] = {"k": "int", "lo": -5, "hi": 70000}


def c19_modules(case):
    b, g = case["bundle"], case["gen"]
    r = random.Random(case["pick"])
    if len(b["modules"]) < 2:
        raise Skip()
    start = r.sample(names_of(b), r.randint(1, len(b["modules"]) - 1))
    keep = module_closure(b, start)
    if len(keep) == len(b["modules"]):
        raise Skip()
    part = {"modules": [m for m in b["modules"] if m["name"] in keep]}
    full = must(g, b)
    less = must(g, part)
    for m in part["modules"]:
        for n in files_of_module(g, m):
            for x in (full, less):
                if n not in x.files:
                    raise Violation("generate-%s: %s is missing" % (g, n))
            same = (
                full.files[n] == less.files[n] if n.endswith(".bin")
                else code(full.files[n]) == code(less.files[n])
            )
            if not same:
                raise Violation(
                    "generate-%s: the file %s depends on modules which %s does not use"
                    % (g, n, m["name"])
                )
    if case["cosmos"]:
        for m in part["modules"]:
            messages = [d["name"] for d in m["defs"] if d["d"] == "seq"]
            if messages and cosmos_text(b, m["name"], messages) != cosmos_text(
                part, m["name"], messages
            ):
                raise Violation(
                    "the COSMOS packets of %s depend on modules it does not use" % m["name"]
                )
    return Info(True, "unrelated modules")


def c19_definition(case):
    b, g = case["bundle"], case["gen"]
    r = random.Random(case["pick"])
    pool = [
        (m["name"], d["name"]) for m, d in M.all_defs(b) if d["name"] not in M.POSIX
    ]
    if not pool:
        raise Skip()
    home, name = r.choice(pool)
    b2 = clone(b)
    target = next(d for m, d in M.all_defs(b2) if d["name"] == name)
    change_def(target, r)
    touched = dependents(b, name)
    one, two = must(g, b), must(g, b2)
    if sorted(one.files) != sorted(two.files):
        raise Violation("a change of %s changes the set of files" % name)
    others = {M.c_name(d["name"]) for _, d in M.all_defs(b) if d["name"] not in touched}
    lower = {M.lowerize(M.c_name(d["name"])) for _, d in M.all_defs(b, "choice")
             if d["name"] not in touched}
    n_compared = 0
    for n in one.files:
        d1, r1 = run.c_definitions(one.files[n].decode())
        d2, r2 = run.c_definitions(two.files[n].decode())
        d1 = {k: v for k, v in d1 if k in others or k in lower}
        d2 = {k: v for k, v in d2 if k in others or k in lower}
        n_compared += len(d1)
        if d1 != d2:
            bad = sorted(k for k in set(d1) | set(d2) if d1.get(k) != d2.get(k))
            raise Violation(
                "generate-%s: a change of %s changes %s, which does not use it" % (g, name, bad)
            )
        objects = {M.lowerize(x) for x in others}
        o1, o2 = (
            sorted(x for x in rest if re.match(r"\w+ (\w+)", x)
                   and re.match(r"\w+ (\w+)", x).group(1) in objects)
            for rest in (r1, r2)
        )
        prefixes = tuple(M.c_name(x).upper() + "_" for x in touched)
        m1, m2 = (
            [x for x in run.macros(y.files[n].decode()) if not x[0].startswith(prefixes)]
            for y in (one, two)
        )
        n_compared += len(o1) + len(m1) - 1
        if o1 != o2 or m1 != m2:
            raise Violation(
                "generate-%s: a change of %s changes values of other types in %s" % (g, name, n)
            )
    if case["cosmos"]:
        for m in b["modules"]:
            messages = [
                d["name"] for d in m["defs"] if d["d"] == "seq" and d["name"] not in touched
            ]
            n_compared += len(messages)
            if messages and cosmos_text(b, m["name"], messages) != cosmos_text(
                b2, m["name"], messages
            ):
                raise Violation(
                    "a change of %s changes the COSMOS packets %s, which do not use it"
                    % (name, messages)
                )
    return Info(n_compared > 0, "unrelated definition")


def split_cosmos(text):
    """The packets of a file, as texts."""
    parts = re.split(r"^(?=TELEMETRY )", text, flags=re.M)
    return [p.strip("\n") for p in parts[1:]]


def c19_messages(case):
    b = case["bundle"]
    r = random.Random(case["pick"])
    mods = [m for m in b["modules"] if sum(d["d"] == "seq" for d in m["defs"]) >= 1]
    m = r.choice(mods)
    names = [d["name"] for d in m["defs"] if d["d"] == "seq"]
    single = {}
    for n in names:
        blocks = split_cosmos(cosmos_text(b, m["name"], [n]))
        if len(blocks) != 1:
            raise Violation("one message %s gives %d packets" % (n, len(blocks)))
        single[n] = blocks[0]
    request = list(names)
    r.shuffle(request)
    if len(request) > 2:
        request = request[: r.randint(2, len(request))]
    if r.random() < 0.3:
        request.append(request[0])
    got = split_cosmos(cosmos_text(b, m["name"], request))
    want = [single[n] for n in request]
    if got != want:
        raise Violation(
            "the packets of --asn1-messages %s differ from those of single runs" % ",".join(request)
        )
    return Info(len(request) > 1, "messages")


def c19_check(case):
    return {
        "modules": c19_modules, "definition": c19_definition, "messages": c19_messages,
    }[case["kind"]](case)


@st.composite
def c19_cases(draw):
    kind = draw(st.sampled_from(["modules", "definition", "messages"]))
    g = draw(st.sampled_from(["cfs", "c", "binary"]))
    cosmos = draw(st.booleans())
    if g == "binary" and kind == "modules" and draw(st.booleans()):
        b = draw(gen.binary_bundles(cosmos=True))
    else:
        b = draw(gen.bundles(Opts(
            modules=(2, 4) if kind == "modules" else (1, 3), seqs=(1, 4) if kind == "messages" else (1, 3),
            fields=(1, 4), withs=g != "binary" or kind == "messages", simples=(0, 4),
            arrays=COSMOS_ARRAYS, big_enums=False,
            choices=kind != "messages" and not cosmos and draw(st.booleans()),
            comments=draw(st.booleans()), few_keys=draw(st.booleans()),
        )))
    return {
        "kind": kind, "gen": g, "bundle": b, "cosmos": cosmos, "pick": draw(st.integers(0, 10**6)),
    }


def show_c19(case):
    return (
        "%s generate-%s pick %d\n%s"
        % (case["kind"], case["gen"], case["pick"], "\n".join(texts_of(case["bundle"])))
    )[:3000]


C19 = Property(
    "C19", lambda tier: c19_cases(), c19_check, show_c19,
    "Metamorphic: the code of a module is the same with and without modules it does not use; a "
    "changed definition changes no definition and no packet which does not use it; several "
    "--asn1-messages in any order give the same packets as single runs. Non-trivial: something "
    "unrelated was left to compare.",
    {"quick": 1120, "thorough": 20000},
    directed=[
        {
            "kind": "messages", "gen": "cfs", "cosmos": True, "pick": p,
            "bundle": simple_bundle([
                SEQ("Hdr", F("id", UINT(255)), F("flag", BOOL)),
                SEQ("Box", F("hdr", REF("Hdr"))),
                SEQ("Pa", F("box", REF("Box"), {"comment": None, "items": [{
                    "key": "hdr", "comment": None, "value": {"w": {"comment": None, "items": [
                        {"key": "id", "value": gen.int_value(7), "comment": None}]}}}]})),
                SEQ("Pb", F("box", REF("Box")), F("x", UINT(7))),
            ]),
        }
        for p in range(4)
    ],
)

# ---------------------------------------------------------------------- C20


def expected_files(g, bundle):
    out = set()
    for m in bundle["modules"]:
        out.update(files_of_module(g, m))
    return out


def c20_header(g, bundle, m, name, text):
    stripped = run.strip_c_comments(text)
    defs, rest = run.c_definitions(text)
    got = {"struct": [], "enum": [], "union": []}
    for n, norm in defs:
        for kind in got:
            if re.match(r"(typedef )?%s\b" % kind, norm):
                if kind == "union":
                    n = re.match(r"(?:typedef )?union (\w+)", norm).group(1)
                got[kind].append(n)
                break
        else:
            raise Violation("%s defines %s" % (name, norm[:80]))
    for kind, d in (("struct", "seq"), ("enum", "enum"), ("union", "choice")):
        want = sorted(M.c_name(x["name"]) for x in m["defs"] if x["d"] == d)
        if sorted(got[kind]) != want:
            raise Violation(
                "generate-%s: %s defines the %ss %s, the module has %s"
                % (g, name, kind, sorted(got[kind]), want)
            )
    objects = sorted(
        "%s %s;" % (M.c_name(d["name"]), M.lowerize(M.c_name(d["name"])))
        for d in m["defs"]
        if d["d"] == "seq" and any(f.get("with") for f in d["fields"])
    )
    plain = sorted(re.sub(r"^extern ", "", s).replace(" ;", ";") for s in rest)
    if plain != (objects if g == "c" else []):
        raise Violation(
            "generate-%s: %s declares %s instead of %s" % (g, name, plain, objects)
        )
    suffix = "_msg.h" if g == "cfs" else ".h"
    want = sorted({M.c_name(i["from"]) + suffix for i in m["imports"]})
    includes = sorted(set(re.findall(r'#\s*include\s+"([^"]+)"', stripped)))
    if includes != want:
        raise Violation(
            "generate-%s: %s includes %s, the module imports %s" % (g, name, includes, want)
        )


def guard_of(name, text):
    lines = [l.strip() for l in run.strip_c_comments(text).split("\n") if l.strip()]
    m = re.match(r"#\s*ifndef\s+(\w+)$", lines[0]) if lines else None
    if (
        not m or not re.match(r"#\s*define\s+%s$" % m.group(1), lines[1])
        or not re.match(r"#\s*endif$", lines[-1])
    ):
        raise Violation("%s has no include guard" % name)
    return m.group(1)


def c20_check(case):
    b, g = case["bundle"], case["gen"]
    if g == "cosmos":
        return c20_cosmos(case)
    if case["default_dir"]:
        with run.Scratch() as d:
            paths = run.write_inputs(d, texts_of(b))
            argv = run.argv_for(g, paths, "x", names_of(b), "big-endian")[:-2]
            rc, o, e = run.cli_raw(argv, d)
            if rc != 0:
                raise Violation("generate-%s without --output-dir fails: %s" % (g, (o + e)[-300:]))
            files = {
                n: v for n, v in run.read_tree(d).items() if n not in paths
            }
        prefix = "output/%s/" % g
        if any(not n.startswith(prefix) for n in files):
            raise Violation("generate-%s without --output-dir writes %s" % (g, sorted(files)))
        files = {n[len(prefix):]: v for n, v in files.items()}
    else:
        files = must(g, b).files
    want = expected_files(g, b)
    if set(files) != want:
        raise Violation(
            "generate-%s writes %s instead of %s (missing %s, unexpected %s)"
            % (g, sorted(files), sorted(want), sorted(want - set(files)), sorted(set(files) - want))
        )
    guards = {}
    for m in b["modules"]:
        for n in files_of_module(g, m):
            if n.endswith(".bin"):
                continue
            text = files[n].decode("utf-8", "replace")
            if n.endswith(".h"):
                guard = guard_of(n, text)
                if guard in guards:
                    raise Violation("%s and %s have the same guard %s" % (n, guards[guard], guard))
                guards[guard] = n
            if n.endswith("_msgids.h"):
                defs, rest = run.c_definitions(text)
                if defs or rest:
                    raise Violation("%s holds more than constants: %s" % (n, (defs or rest)[:2]))
                withs = any(
                    f.get("with") for d in m["defs"] if d["d"] == "seq" for f in d["fields"]
                )
                constants = [x for x, _ in run.macros(text) if x not in guards]
                if not withs and constants:
                    raise Violation("%s holds the constants %s without values" % (n, constants))
            elif n.endswith(".h"):
                c20_header(g, b, m, n, text)
                macros = [x for x, _ in run.macros(text) if x not in guards]
                if macros:
                    raise Violation("%s defines the macros %s" % (n, macros))
            else:
                defs, rest = run.c_definitions(text)
                want_objects = sorted(
                    M.lowerize(M.c_name(d["name"])) for d in m["defs"]
                    if d["d"] == "seq" and any(f.get("with") for f in d["fields"])
                )
                got = sorted(
                    re.match(r"(?:const )?\w+ (\w+) ?=", s).group(1)
                    if re.match(r"(?:const )?\w+ (\w+) ?=", s) else s
                    for s in [x for _, x in defs] + rest
                )
                if got != want_objects:
                    raise Violation(
                        "%s initialises %s, values are given for %s" % (n, got, want_objects)
                    )
    n_defs = len(M.all_defs(b, "seq", "enum", "choice"))
    return Info(
        n_defs >= 3, "generate-" + g, "several modules" if len(b["modules"]) > 1 else "one module"
    )


def c20_cosmos(case):
    b = case["bundle"]
    r = random.Random(case["pick"])
    mods = [m for m in b["modules"] if any(d["d"] == "seq" for d in m["defs"])]
    m = r.choice(mods)
    names = [d["name"] for d in m["defs"] if d["d"] == "seq"]
    r.shuffle(names)
    names = names[: r.randint(1, len(names))]
    target = r.choice(["tgt", "a_b", "TARGET-1", "x.y"])
    with run.Scratch() as d:
        paths = run.write_inputs(d, texts_of(b))
        argv = run.argv_for("cosmos", paths, "out", m["name"], None, names, target)
        prefix = "out/"
        if case["default_dir"]:
            argv = argv[:-2]
            prefix = "output/cosmos/"
        rc, o, e = run.cli_raw(argv, d)
        if rc != 0:
            raise Violation("generate-cosmos fails on a valid bundle: %s" % (o + e)[-300:])
        files = {n: v for n, v in run.read_tree(d).items() if n not in paths}
    if sorted(files) != [prefix + target + ".txt"]:
        raise Violation(
            "generate-cosmos writes %s instead of %s" % (sorted(files), prefix + target + ".txt")
        )
    packets = read_cosmos(files[prefix + target + ".txt"].decode())
    if [(p.target, p.name) for p in packets] != [(target, n) for n in names]:
        raise Violation(
            "generate-cosmos writes the packets %s, requested were %s of %s"
            % ([(p.target, p.name) for p in packets], names, target)
        )
    scope = M.Scope(b)
    for p in packets:
        want = [l.key for l in M.leaves(scope, scope.defs[p.name])]
        if [i.name for i in p.items] != want:
            raise Violation(
                "packet %s has the items %s instead of %s" % (p.name, [i.name for i in p.items], want)
            )
    return Info(len(names) > 1, "generate-cosmos")


@st.composite
def c20_cases(draw):
    g = draw(st.sampled_from(["cfs", "c", "binary", "cosmos"]))
    if g == "binary" and draw(st.booleans()):
        b = draw(gen.binary_bundles(cosmos=True))
    else:
        b = draw(gen.bundles(Opts(
            modules=(1, 4), seqs=(1, 4), fields=(1, 3), big_enums=False,
            arrays=COSMOS_ARRAYS if g == "cosmos" else COSMOS_ARRAYS | {"enum", "seq", "str"},
            withs=g != "binary", choices=g != "cosmos" and draw(st.booleans()),
            comments=draw(st.booleans()),
        )))
    # modules which hold nothing but simple definitions, or nothing with values
    return {
        "bundle": b, "gen": g, "pick": draw(st.integers(0, 10**6)),
        "default_dir": draw(st.integers(0, 3)) == 0,
    }


def show_c20(case):
    return (
        "generate-%s pick %d\n%s"
        % (case["gen"], case["pick"], "\n".join(texts_of(case["bundle"])))
    )[:3000]


C20 = Property(
    "C20", lambda tier: c20_cases(), c20_check, show_c20,
    "For random bundles the set of written files is computed from the syntax tree and has to be "
    "exact; every header holds exactly its module's structs, enums, unions and objects, includes "
    "exactly the headers of the imported modules and has a guard of its own; a COSMOS file holds "
    "exactly the requested packets and their items in order. Non-trivial: at least 3 definitions, "
    "or several packets.",
    {"quick": 1280, "thorough": 25000},
    directed=[
        {
            "gen": g, "pick": p, "default_dir": False,
            "bundle": {
                "modules": [
                    simple_bundle([SIMPLE("Only-simple", UINT(7))], "only-simple")["modules"][0],
                    simple_bundle([ENUM("Only-enum", "e1", "e2")], "only-enum")["modules"][0],
                    simple_bundle([SEQ("Pa", F("a", UINT(7))), SEQ("Pa-b", F("a", UINT(7))),
                                   SEQ("Pb", F("a", ARR(2, REF("Uint8-t")))),
                                   SIMPLE("Uint8-t", UINT(255))]
                                  + ([] if g == "cosmos" else [CHOICE("Ch", F("x", REF("Pa")))]),
                                  "a-b")["modules"][0],
                ]
            },
        }
        for g in ("cfs", "c", "binary", "cosmos") for p in (0, 1)
    ] + [
        {"gen": g, "pick": p, "default_dir": False, "bundle": many(16)}
        for g, p in [("cfs", 0), ("c", 0), ("binary", 0)] + [("cosmos", p) for p in range(4)]
    ] + [
        {"gen": "cosmos", "pick": p, "default_dir": False, "bundle": simple_bundle(
            [SEQ("Pkt-%d" % i, F("a%d" % i, UINT(i))) for i in range(40)]
        )}
        for p in range(4)
    ],
)
