"""C programs which measure the generated structs with the real compiler."""

from . import model as M
from . import run
from .driver import Violation

PRELUDE = """
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#define SCAN(T, EXPR_SET, LABEL) do { \\
  static T s; memset(&s, 0, sizeof s); EXPR_SET; \\
  const unsigned char *p = (const unsigned char *)&s; \\
  long first = -1, last = -1, n = 0; \\
  for (size_t i = 0; i < sizeof s * 8; i++) \\
    if (p[i / 8] >> (i % 8) & 1) { if (first < 0) first = i; last = i; n++; } \\
  printf("%s bits %ld %ld %ld", LABEL, first, n, last - first + 1); } while (0)
#define CLASS(E) _Generic((E), float: 1, double: 2, char: 3, default: 0)
"""


class Member:
    """What one struct member (or leaf) has to look like."""

    def __init__(self, label, path, dims, t, offset, bits):
        self.label = label
        self.path = path  # C expression below the struct, e.g. a.b
        self.dims = dims
        self.t = t  # resolved element
        self.offset = offset  # bits, or None when not compared
        self.bits = bits  # of one element


def statements(struct, m):
    """C statements which print one line about a member."""
    acc = m.path
    first = acc + "".join("[0]" for _ in m.dims)
    kind = M.leaf_kind(m.t) if m.t.get("d") != "seq" else "seq"
    out = []
    if kind == "str":
        dims = m.dims + [m.t["n"]]
        first = acc + "".join("[0]" for _ in dims)
    else:
        dims = m.dims
    if kind == "seq":
        out.append(
            '{ static %s s; printf("%s obj %%zu %%zu %%d", offsetof(%s, %s) * 8, '
            "sizeof(s.%s) * 8, _Generic(s.%s, %s: 1, default: 0)); }"
            % (struct, m.label, struct, acc, first, first, M.c_name(m.t["name"]))
        )
    elif kind in ("real", "str"):
        out.append(
            '{ static %s s; printf("%s obj %%zu %%zu %%d", offsetof(%s, %s) * 8, '
            "sizeof(s.%s) * 8, CLASS(s.%s)); }"
            % (struct, m.label, struct, acc, first, first)
        )
    elif dims:
        out.append(
            '{ static %s s; printf("%s obj %%zu %%zu %%d", offsetof(%s, %s) * 8, '
            "sizeof(s.%s) * 8, ({ __typeof__(s.%s) v = -1; v < 0; })); }"
            % (struct, m.label, struct, acc, first, first)
        )
    else:
        out.append('SCAN(%s, s.%s = -1, "%s");' % (struct, acc, m.label))
        out.append(
            '{ static %s s; memset(&s, 0, sizeof s); s.%s = -1; printf(" %%d", s.%s < 0); }'
            % (struct, acc, acc)
        )
    arr = acc
    for _ in dims:
        out.append(
            '{ static %s s; printf(" %%zu", sizeof(s.%s) / sizeof(s.%s[0])); }'
            % (struct, arr, arr)
        )
        arr += "[0]"
    out.append('printf("\\n");')
    return out


def expected_line(m):
    """The fields the printed line has to have: None matches anything."""
    kind = M.leaf_kind(m.t) if m.t.get("d") != "seq" else "seq"
    dims = list(m.dims)
    if kind == "seq":
        return ["obj", m.offset, m.bits, 1] + dims
    if kind == "real":
        return ["obj", m.offset, m.bits, 1 if m.bits == 32 else 2] + dims
    if kind == "str":
        return ["obj", m.offset, 8, 3] + dims + [m.t["n"]]
    if dims:
        return ["obj", m.offset, m.bits, 1 if kind == "int" else 0] + dims
    return ["bits", m.offset, m.bits, m.bits, 1 if kind == "int" else 0]


def element_bits_in_c(t):
    """Size of an array element in C: enums are whole (packed) bytes there."""
    if t.get("d") == "enum":
        return 8 if len(t["items"]) <= 256 else 16
    return M.leaf_bits(t)


def run_probe(files, includes, body, what, flags=(), extra_sources=()):
    text = "".join('#include "%s"\n' % i for i in includes) + PRELUDE
    text += "int main(void) {\n" + "\n".join(body) + "\nreturn 0; }\n"
    r = run.gcc(files, text, flags=flags, extra_sources=extra_sources)
    if not r.ok:
        raise Violation(
            "%s: the generated code does not compile as the model says it should:\n%s"
            % (what, r.messages[:1500])
        )
    return r.lines


def compare_members(struct, members, lines, what):
    """lines: the output for exactly these members."""
    got = {}
    for line in lines:
        parts = line.split(" ")
        got[parts[0]] = parts[1:]
    for m in members:
        want = expected_line(m)
        have = got.get(m.label)
        if have is None:
            raise run.HarnessError("no probe output for %s" % m.label)
        have = [have[0]] + [int(x) for x in have[1:]]
        ok = len(have) == len(want) and all(
            w is None or w == h for w, h in zip(want, have)
        )
        if not ok:
            names = (
                ["kind", "bit offset", "bits", "class"] if want[0] == "obj"
                else ["kind", "bit offset", "bits", "span", "signed"]
            )
            raise Violation(
                "%s: member %s of %s: expected %s, the compiler says %s (%s, array dimensions)"
                % (what, m.path, struct, want, have, ", ".join(names))
            )
