"""Hypothesis strategies for bundles of ASN.1 modules (shapes: see model.py)."""

import random
from dataclasses import dataclass, replace

from hypothesis import strategies as st

from . import model as M

WORDS = [
    "a", "b", "x", "y", "alt", "pos", "rate", "temp", "mode", "hk", "gnc",
    "q0", "v2", "cnt", "adcs", "status", "n1", "spin", "bus", "volt",
    "primary", "none", "packet", "header", "id", "length", "msg", "spare", "t",
    # words of the language
    "string", "integer", "real", "boolean", "module", "sequence", "choice", "size", "begin",
    "end", "imports", "from", "definitions", "components", "enumerated", "value", "type", "name",
]
LONG_WORD = "averylongidentifierwhichdoesnotfit"
C_WORDS = {
    "auto", "break", "case", "char", "const", "continue", "default", "do",
    "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline",
    "int", "long", "register", "restrict", "return", "short", "signed",
    "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned",
    "void", "volatile", "while", "asm", "typeof", "unix", "linux", "main",
}


@dataclass(frozen=True)
class Opts:
    modules: tuple = (1, 3)
    simples: tuple = (0, 2)
    enums: tuple = (0, 2)
    seqs: tuple = (1, 3)
    fields: tuple = (1, 6)
    comments: bool = True
    withs: bool = True
    choices: bool = False
    strings: bool = True
    reals: bool = True
    bools: bool = True
    # element kinds of arrays: posix, simple (whole bytes), bits (bitfields),
    # enum, seq, str, nested
    arrays: frozenset = frozenset({"posix", "simple", "enum", "seq", "str", "nested"})
    nesting: bool = True
    enum_fields: bool = True
    posix: bool = True
    # the same few names for the items of all sequences
    few_keys: bool = False
    big_enums: bool = True
    with_enums: bool = True
    permute: bool = True
    stretch: bool = True

    def but(self, **kw):
        return replace(self, **kw)


# ------------------------------------------------------------------ scalars


WIDTHS = [8, 16, 32, 33, 53, 54, 63, 64]


@st.composite
def value_within(draw, lo, hi):
    """A value of a range: its ends, what is next to them, powers of two and
    their neighbours, anything."""
    how = draw(st.integers(0, 5))
    if how == 0:
        return lo
    if how == 1:
        return hi
    if how == 2:
        return draw(st.integers(lo, hi))
    r = random.Random(draw(st.integers(0, 10**6)))
    if how == 3:
        pool = [lo, lo + 1, hi - 1, hi, (lo + hi) // 2]
    elif how == 4:
        pool = [s * 2**b + d for b in range(65) for s in (1, -1) for d in (-1, 0, 1)]
    else:
        pool = []
    pool = [v for v in pool if lo <= v <= hi]
    return r.choice(pool) if pool else r.randint(lo, hi)


@st.composite
def uint_type(draw, max_bits=64):
    bits = draw(st.one_of(
        st.integers(1, max_bits), st.sampled_from([b for b in WIDTHS if b <= max_bits])
    ))
    lowest, highest = 2 ** (bits - 1), 2**bits - 1
    if bits == 1:
        lowest = 0
    hi = draw(
        st.one_of(
            st.just(highest), st.just(lowest), st.integers(lowest, highest)
        )
    )
    lo = draw(st.one_of(st.just(0), st.just(0), st.integers(0, hi)))
    return {"k": "uint", "lo": lo, "hi": hi}


@st.composite
def int_type(draw):
    bits = draw(st.sampled_from([8, 16, 32, 64]))
    prev = bits // 2 if bits > 8 else 0
    m, p = 2 ** (bits - 1), (2 ** (prev - 1) if prev else 0)
    shape = draw(st.sampled_from(["full", "low", "high", "neg"]))
    if shape == "full":
        lo, hi = -m, m - 1
    elif shape == "low":
        # the lower bound needs this width
        lo = draw(st.one_of(st.just(-p - 1), st.integers(-m, -p - 1)))
        hi = draw(st.integers(-1, m - 1))
    elif shape == "high":
        # only the upper bound needs this width
        lo = draw(st.one_of(st.just(-1), st.integers(-max(p, 1), -1)))
        hi = draw(st.one_of(st.just(max(p, 0)), st.integers(p, m - 1)))
    else:
        lo = draw(st.integers(-m, -p - 1))
        hi = draw(st.integers(lo, -1))
    return {"k": "int", "lo": lo, "hi": hi}


REAL_TEXTS = [
    "-1.0", "0.0", "1.5", "2.25", "100.0", "-273.15", "1e6", "-1.5e-3", "3.4e38",
    "-3.4e38", "180.0", "-0.5", "1.0E3", "12345678.5",
]
DOUBLE_TEXTS = [
    "-1e39", "3.5e38", "-3.5e38", "1.0e300", "-1.0e300",
    "1.7976931348623157e308", "-1.7976931348623157e308", "3.41e38", "-3.4001e38",
]


def any_real(r, lo, hi):
    """The text of any number between two numbers, of any magnitude."""
    for _ in range(20):
        x = r.choice([-1, 1]) * r.random() * 10.0 ** r.randint(-30, 38)
        digits = r.choice([1, 3, 7, 9, 17])
        x = float("%.*g" % (digits, x))
        if lo <= x <= hi:
            return r.choice([repr(x), "%.17e" % x, ("%.17E" % x)])
    return None


@st.composite
def real_type(draw):
    pool = REAL_TEXTS if draw(st.booleans()) else REAL_TEXTS + DOUBLE_TEXTS
    a = draw(st.sampled_from(pool))
    b = draw(st.sampled_from(pool))
    if draw(st.integers(0, 3)) == 3:
        r = random.Random(draw(st.integers(0, 10**6)))
        a = any_real(r, -3.4e38, 3.4e38) or a
        if r.randrange(2):
            b = any_real(r, -3.4e38, 3.4e38) or b
    if float(a) > float(b):
        a, b = b, a
    return {"k": "real", "lo": a, "hi": b}


@st.composite
def string_type(draw):
    n = draw(st.one_of(st.integers(1, 12), st.sampled_from([16, 31, 32, 255, 256, 1000])))
    return {"k": "str", "t": draw(st.sampled_from(["IA5String", "NumericString"])), "n": n}


def scalar_type(o):
    pool = [uint_type(), uint_type(max_bits=16), int_type()]
    if o.reals:
        pool.append(real_type())
    if o.bools:
        pool.append(st.just({"k": "bool"}))
    return st.one_of(pool)


# ----------------------------------------------------------------- comments

COMMENT_CHARS = (
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    " !\"#$%&'()*+,./:;<=>?@\\^_"
)
UNITS = ["m", "m/s", "deg", "rad/s^2", "%", "mA", "C", "kg^2/s", "V2"]
COMMENT_WORDS = [
    "status", "of the unit", "*/ int x;", "/* open", "// slash", "a \\", "\\",
    "say \"hi\"", "it's", "100%", "x * y / z", "# not a macro", "??/", "END",
    "SEQUENCE", ");", "0x1F", "T @ 3", "a\\n", "\"", "%s %d", "*/", "a,b;c", "::=",
    "two  spaces", "a   b  c",
]


@st.composite
def comment_text(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        text = draw(st.sampled_from(COMMENT_WORDS))
    elif kind == 1:
        text = " ".join(
            draw(st.lists(st.sampled_from(COMMENT_WORDS), min_size=1, max_size=3))
        )
    else:
        text = draw(st.text(COMMENT_CHARS, min_size=1, max_size=24))
    text = text.strip()
    while "--" in text:
        text = text.replace("--", "-")
    text = text or "note"
    if draw(st.integers(0, 15)) == 15:
        # far longer than a line
        text = " ".join([text] * (draw(st.sampled_from([100, 400])) // len(text) + 1))
    return text


@st.composite
def comments(draw, unit=False, le=False):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return {"le": False, "unit": None, "text": None}
    out = {"le": False, "unit": None, "text": None}
    if unit and draw(st.booleans()):
        out["unit"] = draw(st.sampled_from(UNITS))
    if le and draw(st.integers(0, 3)) == 0:
        out["le"] = True
    if draw(st.integers(0, 4)) > 0 or not (out["unit"] or out["le"]):
        out["text"] = draw(comment_text())
    return out


# -------------------------------------------------------------------- names


FEW_KEYS = ["mode", "value", "on-time"]


class Names:
    """Unique names: per bundle for types, enum keys and modules (one name
    space in C), per sequence for keys."""

    def __init__(self, draw, few=False):
        self.draw = draw
        self.few = few
        self.used = set(C_WORDS)
        self.types = []

    def _stem(self):
        n = self.draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 2, 3, 7]))
        words = [self.draw(st.sampled_from(WORDS)) for _ in range(min(n, 3))]
        if n > 3:
            # many short parts, also digits only
            n = self.draw(st.sampled_from([7, 7, 10, 16]))
            words += ["%x" % self.draw(st.integers(0, 15)) for _ in range(n - 3)]
        if words == ["primary"]:
            # alone it is the CCSDS primary header
            words.append("x")
        if len(words) > 1 and words[-1] == "t":
            # size_t and its like belong to the C library
            words.append("x")
        if self.draw(st.integers(0, 19)) == 19:
            words.append(LONG_WORD)
        return "-".join(words)

    def _unique(self, stem, used, fold):
        name, n = stem, 1
        while fold(name) in used:
            n += 1
            name = "%s-%d" % (stem, n) if n % 2 else "%s%d" % (stem, n)
        used.add(fold(name))
        return name

    @staticmethod
    def fold(name):
        return M.c_name(name).lower()

    def type_name(self):
        if self.types and self.draw(st.integers(0, 4)) == 0:
            stem = self.draw(st.sampled_from(self.types)).lower() + self.draw(
                st.sampled_from(["-b", "2", "-x"])
            )
        else:
            stem = self._stem()
        name = self._unique(stem, self.used, self.fold)
        name = name[0].upper() + name[1:]
        self.types.append(name)
        return name

    def global_key(self, stem=None):
        return self._unique(stem or self._stem(), self.used, self.fold)

    def key(self, used):
        stem = self.draw(st.sampled_from(FEW_KEYS)) if self.few else self._stem()
        if used and self.draw(st.integers(0, 5)) == 0:
            stem = self.draw(st.sampled_from(sorted(used))) + "-n"
        if stem in C_WORDS:
            stem += "-k"
        return self._unique(stem, used, lambda s: s)

    def module(self, used):
        return self._unique(self._stem(), used, self.fold)


# ------------------------------------------------------------------ bundles


class Builder:
    def __init__(self, draw, o):
        self.draw = draw
        self.o = o
        self.names = Names(draw, o.few_keys)
        self.modules = []
        self.home = {}  # type name -> module name
        self.scope = {}  # type name -> definition

    def comment(self, **kw):
        if not self.o.comments or self.draw(st.integers(0, 3)) > 0:
            return None
        return self.draw(comments(**kw))

    def resolve(self, ty):
        while ty["k"] == "ref":
            d = self.scope[ty["n"]]
            if d["d"] != "simple":
                return d
            ty = d["ty"]
        return ty

    # definitions

    def add(self, d):
        self.current["defs"].append(d)
        self.home[d["name"]] = self.current["name"]
        self.scope[d["name"]] = d
        return d

    def posix(self, name=None):
        name = name or self.draw(
            st.sampled_from(
                sorted(n for n in M.POSIX if self.o.reals or n not in ("Float", "Double"))
            )
        )
        if name not in self.scope:
            k, lo, hi = M.POSIX[name]
            self.names.used.add(Names.fold(name))
            self.add(
                {
                    "d": "simple", "name": name,
                    "ty": {"k": k, "lo": lo, "hi": hi},
                    "comment": self.comment(),
                }
            )
        return {"k": "ref", "n": name}

    def simple(self):
        string = self.o.strings and self.draw(st.integers(0, 6)) == 6
        return self.add(
            {
                "d": "simple", "name": self.names.type_name(),
                "ty": self.draw(string_type() if string else scalar_type(self.o)),
                "comment": self.comment(unit=True),
            }
        )

    def enum(self):
        name = self.names.type_name()
        size = self.draw(
            st.one_of(
                st.integers(1, 9),
                st.sampled_from([16, 17, 33] + ([129, 256, 257, 300] if self.o.big_enums else [])),
            )
        )
        if size > 9:
            stem = self.names.global_key()
            keys = [self.names.global_key("%s-s%d" % (stem, i)) for i in range(size)]
        else:
            keys = [self.names.global_key() for _ in range(size)]
        if self.draw(st.booleans()):
            pos = [None] * size
        elif size <= 9:
            pos = self.draw(st.permutations(list(range(size))))
        else:
            shift = self.draw(st.integers(0, size - 1))
            pos = [(i + shift) % size for i in range(size)]
            if self.draw(st.booleans()):
                pos.reverse()
        items = []
        for i, k in enumerate(keys):
            c = self.comment(unit=True) if i < 6 else None
            items.append({"key": k, "pos": pos[i], "comment": c})
        return self.add({"d": "enum", "name": name, "items": items, "comment": self.comment()})

    def known(self, pred):
        return sorted(n for n, d in self.scope.items() if pred(d))

    def ref(self, pred):
        pool = self.known(pred)
        if not pool:
            return None
        return {"k": "ref", "n": self.draw(st.sampled_from(pool))}

    def array(self):
        o = self.o
        kinds = sorted(o.arrays - {"nested"})
        if not kinds:
            return None
        kind = self.draw(st.sampled_from(kinds))
        whole = lambda d: d["d"] == "simple" and not is_bitfield(d["ty"])
        bits = lambda d: d["d"] == "simple" and is_bitfield(d["ty"])
        if kind == "posix":
            e = self.posix() if o.posix else None
        elif kind == "simple":
            e = self.ref(whole)
        elif kind == "bits":
            e = self.ref(bits)
        elif kind == "enum":
            e = self.ref(lambda d: d["d"] == "enum")
        elif kind == "seq":
            e = self.ref(lambda d: d["d"] == "seq")
        else:
            e = self.draw(string_type())
        if e is None:
            return None
        depth = 1
        if "nested" in o.arrays:
            depth = self.draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
        for _ in range(depth):
            sizes = [10, 16, 32]
            if kind == "seq" or depth > 3:
                # arrays of arrays of ...: keep the whole below a gigabyte
                sizes = [10]
            elif depth == 1:
                sizes += [100, 256, 1000]
            n = self.draw(st.one_of(st.integers(1, 7), st.sampled_from(sizes)))
            if n * self.rough_size(e) > 2**24:
                break
            e = {"k": "arr", "n": n, "e": e}
        return e if e["k"] == "arr" else {"k": "arr", "n": 1, "e": e}

    def rough_size(self, ty):
        """About the number of bytes in C."""
        if ty["k"] == "arr":
            return ty["n"] * self.rough_size(ty["e"])
        if ty["k"] == "str":
            return ty["n"]
        if ty["k"] == "ref":
            d = self.scope[ty["n"]]
            if d["d"] == "seq":
                return sum(self.rough_size(f["ty"]) for f in d["fields"])
        return 8

    def field_type(self):
        o = self.o
        kinds = ["scalar", "scalar", "scalar", "simple"]
        if o.posix:
            kinds.append("posix")
        if o.arrays:
            kinds.append("array")
        if o.enum_fields:
            kinds.append("enum")
        if o.strings:
            kinds.append("str")
        if o.nesting:
            kinds += ["seq", "seq"]
        kind = self.draw(st.sampled_from(kinds))
        ty = None
        if kind == "simple":
            ty = self.ref(lambda d: d["d"] == "simple")
        elif kind == "posix":
            ty = self.posix()
        elif kind == "array":
            ty = self.array()
        elif kind == "enum":
            ty = self.ref(lambda d: d["d"] == "enum")
        elif kind == "str":
            ty = self.draw(string_type())
        elif kind == "seq":
            ty = self.ref(lambda d: d["d"] == "seq")
        if ty is None:
            ty = self.draw(scalar_type(o))
        return ty

    def seq(self, name=None, fields=None):
        name = name or self.names.type_name()
        keys = set()
        out = []
        for _ in range(0 if fields else self.draw(st.integers(*self.o.fields))):
            key = self.names.key(keys)
            ty = self.field_type()
            f = {
                "key": key, "ty": ty,
                "comment": self.comment(unit=True, le=True), "with": None,
            }
            if ty["k"] == "ref" and self.o.withs:
                d = self.scope[ty["n"]]
                if d["d"] == "seq" and self.draw(st.booleans()):
                    f["with"] = self.with_components(d, {})
            out.append(f)
        return self.add(
            {"d": "seq", "name": name, "fields": fields or out, "comment": self.comment()}
        )

    def choice(self):
        keys = set()
        out = []
        for _ in range(self.draw(st.one_of(st.integers(1, 5), st.just(9)))):
            ty = self.ref(lambda d: d["d"] in ("seq", "enum"))
            if ty is None:
                return None
            out.append(
                {
                    "key": self.names.key(keys), "ty": ty,
                    "comment": self.comment(unit=True), "with": None,
                }
            )
        return self.add(
            {
                "d": "choice", "name": self.names.type_name(),
                "fields": out, "comment": self.comment(),
            }
        )

    # values

    def value(self, t):
        draw = self.draw
        if t.get("d") == "enum":
            if not self.o.with_enums:
                return None
            return int_value(draw(st.integers(0, len(t["items"]) - 1)))
        k = t["k"]
        if k in ("uint", "int"):
            v = draw(value_within(t["lo"], t["hi"]))
            text = str(v)
            if draw(st.integers(0, 14)) == 14:
                text = ("-0" if v < 0 else "00") + str(abs(v))
            return {"v": text, "x": v}
        if k == "bool":
            v = draw(st.booleans())
            return {"v": "TRUE" if v else "FALSE", "x": v}
        if k == "real":
            lo, hi = float(t["lo"]), float(t["hi"])
            pool = [x for x in REAL_TEXTS if lo <= float(x) <= hi] or [t["lo"]]
            text = draw(st.sampled_from(pool))
            if draw(st.integers(0, 2)) == 2:
                r = random.Random(draw(st.integers(0, 10**6)))
                text = any_real(r, lo, hi) or text
            return {"v": text, "x": float(text)}
        return None

    def with_components(self, seq, taken, complete=False):
        """A listing for a sequence; keys in `taken` have values already."""
        out = []
        for f in seq["fields"]:
            if f["key"] in taken or f["ty"]["k"] == "arr":
                continue
            if not complete and self.draw(st.integers(0, 2)) == 0:
                continue
            t = self.resolve(f["ty"])
            if t.get("d") == "seq":
                own = {i["key"] for i in f["with"]["items"]} if f.get("with") else set()
                inner = self.with_components(t, own, complete)
                value = {"w": inner} if inner else None
            elif t.get("d") == "choice":
                value = None
            else:
                value = self.value(t)
            if value is not None:
                out.append(
                    {"key": f["key"], "value": value, "comment": self.comment(unit=True)}
                )
        if not out:
            return None
        if len(out) > 1 and self.o.permute:
            out = self.draw(st.permutations(out))
        return {"comment": self.comment(), "items": list(out)}

    # modules

    def start_module(self, name):
        self.current = {
            "name": name, "comment": self.comment(), "imports": [],
            "icomment": self.comment(), "defs": [],
        }
        self.modules.append(self.current)

    def fill_module(self):
        o, draw = self.o, self.draw
        for _ in range(draw(st.integers(*o.simples))):
            self.simple()
        for _ in range(draw(st.integers(*o.enums))):
            self.enum()
        for _ in range(draw(st.integers(*o.seqs))):
            self.seq()
        if o.choices:
            self.choice()

    def finish_module(self):
        m = self.current
        m["imports"] = self.imports_of(m)
        if self.o.permute:
            m["defs"] = list(self.draw(st.permutations(m["defs"])))
            if len(m["imports"]) > 1:
                m["imports"] = list(self.draw(st.permutations(m["imports"])))

    def imports_of(self, m):
        used = used_types(m)
        by_module = {}
        for n in sorted(used):
            if self.home[n] != m["name"]:
                by_module.setdefault(self.home[n], []).append(n)
        # sometimes import a type which is not used
        others = [n for n in sorted(self.scope) if self.home[n] != m["name"] and n not in used]
        if others and self.draw(st.integers(0, 3)) == 0:
            n = self.draw(st.sampled_from(others))
            by_module.setdefault(self.home[n], []).append(n)
        out = []
        for src, names in by_module.items():
            parts = [names]
            if len(names) > 1 and self.draw(st.integers(0, 3)) == 0:
                # the same module in two parts
                parts = [names[:1], names[1:]]
            out += [{"types": p, "from": src, "comment": self.comment()} for p in parts]
        return out

    def bundle(self):
        modules = self.modules
        if len(modules) > 1 and self.o.permute:
            modules = list(self.draw(st.permutations(modules)))
        return {"modules": modules}


def used_types(m):
    used = set()
    for d in m["defs"]:
        if d["d"] in ("seq", "choice"):
            for f in d["fields"]:
                _, e = M.split_array(f["ty"])
                if e["k"] == "ref":
                    used.add(e["n"])
    return used


def int_value(v):
    return {"v": str(v), "x": v}


def is_bitfield(ty):
    """A scalar type which C encodes as a bitfield."""
    if ty["k"] == "bool":
        return True
    return ty["k"] == "uint" and M.leaf_bits(ty) not in (8, 16, 32, 64)


def is_bitfield_leaf(t):
    return t.get("d") == "enum" or is_bitfield(t)


@st.composite
def bundles(draw, o=Opts()):
    b = Builder(draw, o)
    used = set()
    for _ in range(draw(st.integers(*o.modules))):
        b.start_module(b.names.module(used))
        b.fill_module()
        b.finish_module()
    out = b.bundle()
    if o.stretch and draw(st.integers(0, 9)) == 9:
        stretch(out, draw(st.integers(0, 10**6)), o.withs)
    return out


def stretch(bundle, seed, withs):
    """Make one dimension of the bundle much larger than usual: the fields of a
    sequence, the definitions of a module, the modules imported by a module."""
    r = random.Random(seed)
    module = r.choice(bundle["modules"])
    what = r.choice(["fields", "definitions", "imports", "types", "depth", "values", "simples"])
    n = r.choice([12, 20, 40, 60]) if what == "fields" else r.randint(4, 9)
    if what == "definitions":
        n *= 3

    def field(key, ty=None):
        bits = r.choice([1, 3, 7, 8, 16, 24, 32, 64])
        ty = ty or {"k": "uint", "lo": 0, "hi": 2**bits - 1}
        return {"key": key, "ty": ty, "comment": None, "with": None}

    def seq(name, ty=None):
        return {"d": "seq", "name": name, "fields": [field("zz", ty)], "comment": None}

    def ref(name):
        return {"k": "ref", "n": name}

    def new_module(name, defs):
        bundle["modules"].insert(r.randint(0, len(bundle["modules"])), {
            "name": name, "comment": None, "imports": [], "icomment": None, "defs": defs,
        })

    def add_import(source, types):
        module["imports"].append({"types": types, "from": source, "comment": None})

    seqs = [d for d in module["defs"] if d["d"] == "seq"]
    if what == "fields" and seqs:
        d = r.choice(seqs)
        new = [field("zz%d" % i) for i in range(n)]
        at = r.randint(0, len(d["fields"]))
        d["fields"][at:at] = new
    elif what == "definitions":
        for i in range(n):
            at = r.randint(0, len(module["defs"]))
            ref = {"k": "ref", "n": "Zz-def-%d" % r.randrange(i)} if i and r.randrange(2) else None
            module["defs"].insert(at, seq("Zz-def-%d" % i, ref))
    elif what == "imports":
        order = list(range(n))
        r.shuffle(order)
        for i in range(n):
            new_module("zz-mod-%d" % i, [seq("Zz-def-%d" % i)])
            add_import("zz-mod-%d" % i, ["Zz-def-%d" % i])
        fields = [field("zz%d" % i, ref("Zz-def-%d" % i)) for i in order]
        module["defs"].append({"d": "seq", "name": "Zz-all", "comment": None, "fields": fields})
    elif what == "types":
        # many types of one module
        names = ["Zz-def-%d" % i for i in range(n)]
        new_module("zz-mod", [seq(x) for x in names])
        r.shuffle(names)
        add_import("zz-mod", names)
        fields = [field("zz%d" % i, ref(x)) for i, x in enumerate(names)]
        module["defs"].append({"d": "seq", "name": "Zz-all", "comment": None, "fields": fields})
    elif what == "simples":
        # many simple definitions of the same few types, all used in one sequence
        pool = [{"k": "bool"}, {"k": "uint", "lo": 0, "hi": 2 ** r.randint(1, 64) - 1},
                {"k": "int", "lo": -1, "hi": 2 ** r.randint(1, 63) - 1},
                {"k": "real", "lo": "-1.0", "hi": "100.0"},
                {"k": "str", "t": "IA5String", "n": r.randint(1, 40)}]
        pool = r.sample(pool, 2)
        fields = []
        for i in range(n):
            d = {"d": "simple", "name": "Zz-def-%d" % i, "ty": r.choice(pool), "comment": None}
            module["defs"].insert(r.randint(0, len(module["defs"])), d)
            fields.append(field("zz%d" % i, ref(d["name"])))
        module["defs"].append({"d": "seq", "name": "Zz-all", "comment": None, "fields": fields})
    elif what in ("depth", "values"):
        # a chain of sequences, each in the next one
        value = None
        spread = r.randrange(2) == 1
        if what == "values" and withs:
            value = {"v": "1", "x": 1}
        for i in range(n):
            d = seq("Zz-def-%d" % i, ref("Zz-def-%d" % (i - 1)) if i else None)
            if i and value and i < n - 1:
                value = {"w": {"comment": None, "items": [
                    {"key": "zz", "value": value, "comment": None},
                ]}}
            if value and i == n - 1:
                # the value of the innermost item from the outermost sequence
                d["fields"][0]["with"] = {"comment": None, "items": [
                    {"key": "zz", "value": value, "comment": None},
                ]}
            if i < n - 1 and spread:
                new_module("zz-mod-%d" % i, [d])
                if i:
                    source = [{
                        "types": ["Zz-def-%d" % (i - 1)], "from": "zz-mod-%d" % (i - 1),
                        "comment": None,
                    }]
                    [m for m in bundle["modules"] if m["defs"] == [d]][0]["imports"] = source
                continue
            module["defs"].insert(r.randint(0, len(module["defs"])), d)
        if spread:
            add_import("zz-mod-%d" % (n - 2), ["Zz-def-%d" % (n - 2)])


# ----------------------------------------------------------- aligned layout


def align(bundle):
    """Add filler bitfields so that everything which C starts at a byte also
    starts at a byte when all items are simply put one after another."""
    scope = M.Scope(bundle)
    done = {}

    def element_bits(t):
        if t.get("d") == "seq":
            return seq_bits(t)
        return M.leaf_bits(t)

    def seq_bits(d):
        if d["name"] in done:
            return done[d["name"]]
        out, bits = [], 0
        n = 0

        def fill():
            nonlocal bits, n
            if bits % 8:
                n += 1
                width = 8 - bits % 8
                out.append(
                    {
                        "key": "fill-%d" % n,
                        "ty": {"k": "uint", "lo": 0, "hi": 2**width - 1},
                        "comment": None, "with": None,
                    }
                )
                bits += width

        for f in d["fields"]:
            dims, ty = M.split_array(f["ty"])
            t = scope.resolve(ty)
            if t.get("d") == "seq" or dims or not is_bitfield_leaf(t):
                fill()
            out.append(f)
            bits += element_bits(t) * M.prod(dims)
        fill()
        d["fields"] = out
        done[d["name"]] = bits
        return bits

    for _, d in M.seq_defs(bundle):
        seq_bits(d)
    return bundle


# -------------------------------------------------------------------- CCSDS


@st.composite
def ccsds_bundles(draw, o=Opts(modules=(1, 2), seqs=(0, 1), withs=False)):
    """A CCSDS header module and message modules which use it."""
    b = Builder(draw, o)
    used = set()
    one_module = draw(st.booleans())
    b.start_module(b.names.module(used))
    b.names.used.update({"packet_identification", "header", "primary_header"})

    def field(key, ty, w=None):
        return {"key": key, "ty": ty, "comment": b.comment(unit=True), "with": w}

    def ref(d):
        return {"k": "ref", "n": d["name"]}

    def named(ty, stem):
        if draw(st.booleans()):
            return ty
        d = b.add({"d": "simple", "name": b.names.type_name(), "ty": ty, "comment": None})
        return ref(d)

    boolean = {"k": "bool"}
    ident = b.add(
        {
            "d": "seq", "name": b.names.type_name(), "comment": b.comment(),
            "fields": [
                field("packet-version-number", named({"k": "uint", "lo": 0, "hi": 7}, "v")),
                field("packet-type-is-cmd", named(boolean, "c")),
                field("sec-hdr-flag-is-present", named(boolean, "s")),
                field(
                    "application-process-identifier",
                    named({"k": "uint", "lo": 0, "hi": 2047}, "apid"),
                ),
            ],
        }
    )
    primary = b.add(
        {
            "d": "seq", "name": b.names.type_name(), "comment": b.comment(),
            "fields": [
                field("packet-identification", ref(ident)),
                field("sequence-flags", {"k": "uint", "lo": 0, "hi": 3}),
                field("sequence-count", {"k": "uint", "lo": 0, "hi": 16383}),
                field("packet-length", {"k": "uint", "lo": 0, "hi": 65535}),
            ],
        }
    )
    secondary = b.add(
        {
            "d": "seq", "name": b.names.type_name(), "comment": b.comment(),
            "fields": [
                field("seconds", {"k": "uint", "lo": 0, "hi": 2**32 - 1}),
                field("function-code", {"k": "uint", "lo": 0, "hi": 127}),
                field("is-reserved", boolean),
                field("checksum", {"k": "uint", "lo": 0, "hi": 255}),
            ],
        }
    )
    header_fields = [field("primary", ref(primary)), field("secondary", ref(secondary))]
    if draw(st.integers(0, 3)) == 0:
        header_fields.reverse()
    header = b.add(
        {
            "d": "seq", "name": b.names.type_name(), "comment": b.comment(),
            "fields": header_fields,
        }
    )
    wrap = None
    if draw(st.integers(0, 3)) == 0:
        wrap = b.add(
            {
                "d": "seq", "name": b.names.type_name(), "comment": None,
                "fields": [field("hdr", ref(header))],
            }
        )
    if not one_module:
        b.finish_module()
        b.start_module(b.names.module(used))

    def ident_with(empty):
        items = [
            ("packet-version-number", int_value(draw(st.integers(0, 7)))),
            ("packet-type-is-cmd", bool_value(draw(st.booleans()))),
            ("sec-hdr-flag-is-present", bool_value(draw(st.booleans()))),
            (
                "application-process-identifier",
                int_value(
                    draw(
                        st.one_of(
                            st.integers(0, 2047), st.sampled_from([0, 1, 15, 16, 255, 2047])
                        )
                    )
                ),
            ),
        ]
        if not empty and draw(st.integers(0, 3)) == 0:
            keep = draw(st.integers(0, 3))
            items = items[keep:] if draw(st.booleans()) else [items[keep]]
        if draw(st.booleans()):
            items = draw(st.permutations(items))
        return {
            "comment": b.comment(),
            "items": [{"key": k, "value": v, "comment": b.comment()} for k, v in items],
        }

    def item(key, w):
        return {"key": key, "value": {"w": w}, "comment": b.comment()}

    def header_with():
        items = [
            item(
                "primary",
                {
                    "comment": b.comment(),
                    "items": [item("packet-identification", ident_with(False))],
                },
            )
        ]
        if draw(st.booleans()):
            inner = b.with_components(secondary, set())
            if inner:
                items.append(item("secondary", inner))
        if draw(st.integers(0, 3)) == 0:
            items.reverse()
        w = {"comment": b.comment(), "items": items}
        if wrap:
            w = {"comment": None, "items": [item("hdr", w)]}
        return w

    for _ in range(12 if draw(st.integers(0, 15)) == 15 else draw(st.integers(1, 3))):
        keys = {"header"}
        fields = [field("header", ref(wrap or header), header_with())]
        for _ in range(draw(st.integers(0, 3))):
            fields.append(
                {
                    "key": b.names.key(keys), "ty": b.field_type(),
                    "comment": b.comment(unit=True, le=True), "with": None,
                }
            )
        if draw(st.integers(0, 3)) == 0 and len(fields) > 1:
            # the header need not come first in the text
            fields = fields[1:] + fields[:1]
        b.seq(fields=fields)
    b.finish_module()
    return b.bundle()


def bool_value(v):
    return {"v": "TRUE" if v else "FALSE", "x": v}


# ------------------------------------------------------------------- binary


OTHER_TYPES = Opts(fields=(1, 4), withs=False, big_enums=False)
# without arrays of strings and sequences, which COSMOS does not support
OTHER_COSMOS_TYPES = Opts(
    fields=(1, 4), withs=False, big_enums=False,
    arrays=frozenset({"posix", "simple", "enum", "nested"}),
)


@st.composite
def binary_bundles(draw, cosmos=False):
    """Sequences whose values are completely given, of whole byte numbers."""
    o = Opts(
        modules=(1, 2), comments=True, arrays=frozenset(), strings=False, bools=False,
        enum_fields=False, withs=False,
    )
    b = Builder(draw, o)
    used = set()
    sizes = st.sampled_from([8, 16, 32, 64])

    @st.composite
    def number(d):
        kind = d(st.sampled_from(["uint", "int", "real", "posix"]))
        if kind == "posix":
            return None
        if kind == "int":
            return d(int_type())
        if kind == "real":
            return d(real_type())
        bits = d(sizes)
        hi = d(st.one_of(st.just(2**bits - 1), st.integers(2 ** (bits - 1), 2**bits - 1)))
        return {"k": "uint", "lo": d(st.one_of(st.just(0), st.integers(0, hi))), "hi": hi}

    def number_field(keys):
        key = b.names.key(keys)
        ty = draw(number()) or b.posix()
        return {"key": key, "ty": ty, "comment": b.comment(unit=True), "with": None}

    plain = []
    n_modules = draw(st.integers(1, 3))
    for i in range(n_modules):
        b.start_module(b.names.module(used))
        for _ in range(draw(st.integers(1, 3))):
            keys = set()
            fields = []
            for _ in range(draw(st.integers(1, 4))):
                if plain and draw(st.integers(0, 3)) == 0:
                    d = draw(st.sampled_from(plain))
                    fields.append(
                        {
                            "key": b.names.key(keys), "ty": {"k": "ref", "n": d["name"]},
                            "comment": b.comment(), "with": None,
                        }
                    )
                else:
                    fields.append(number_field(keys))
            plain.append(
                b.add(
                    {
                        "d": "seq", "name": b.names.type_name(), "fields": fields,
                        "comment": b.comment(),
                    }
                )
            )
        if i == n_modules - 1 or draw(st.booleans()):
            for _ in range(12 if draw(st.integers(0, 15)) == 15 else draw(st.integers(1, 2))):
                keys = set()
                fields = []
                for _ in range(draw(st.integers(1, 3))):
                    d = draw(st.sampled_from(plain))
                    fields.append(
                        {
                            "key": b.names.key(keys), "ty": {"k": "ref", "n": d["name"]},
                            "comment": b.comment(),
                            "with": b.with_components(d, set(), complete=True),
                        }
                    )
                b.add(
                    {
                        "d": "seq", "name": b.names.type_name(), "fields": fields,
                        "comment": b.comment(),
                    }
                )
        if draw(st.integers(0, 3)) == 0:
            # types without values: anything a struct can have
            b.o = OTHER_COSMOS_TYPES if cosmos else OTHER_TYPES
            if draw(st.booleans()):
                b.simple()
            if draw(st.booleans()):
                b.enum()
            b.seq()
            b.o = o
        b.finish_module()
    return b.bundle()
