"""Runs the real APG command line, the C compiler, and reads what they wrote."""

import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import warnings

REPO = os.environ.get("APG_REPO", "/repo")
MAIN = os.path.join(REPO, "asn1_parser", "main.py")
PYTHON = "/opt/venv/bin/python"
CPU_LIMIT_S = 60  # a run that needs more than this is reported as a hang

_loaded = False
_scratch_root = None


class HarnessError(Exception):
    """The check itself failed (no verdict about the code)."""


def preload():
    """Import APG once; every command then runs in a forked child of its own."""
    global _loaded
    if _loaded:
        return
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import importlib

    importlib.import_module("asn1_parser.main")
    import runpy  # noqa: F401  (used in the children)

    _loaded = True


def scratch_root():
    global _scratch_root
    if _scratch_root is None or not os.path.isdir(_scratch_root):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            _scratch_root = tempfile.mkdtemp(prefix="apgcheck-", dir=base)
        except OSError:
            _scratch_root = tempfile.mkdtemp(prefix="apgcheck-")
    return _scratch_root


def set_scratch_root(path):
    global _scratch_root
    _scratch_root = path


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c", dir=scratch_root())
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


class Result:
    def __init__(self, rc, out, err, files):
        self.rc = rc  # exit status, "hang" or "signal N"
        self.out = out
        self.err = err
        self.files = files  # {relative path below the output dir: bytes}

    @property
    def ok(self):
        return self.rc == 0

    def tail(self):
        text = (self.out + "\n" + self.err).strip()
        text = re.sub(r"/\S*/(apgcheck|c)\S*/", "", text)
        return text[-400:]


def read_tree(path):
    out = {}
    for base, _, names in os.walk(path):
        for name in names:
            full = os.path.join(base, name)
            with open(full, "rb") as f:
                out[os.path.relpath(full, path)] = f.read()
    return out


def _run_main(argv):
    """The exit status of `main.py argv` in this process."""
    import runpy
    import traceback

    sys.argv = [MAIN] + argv
    try:
        runpy.run_path(MAIN, run_name="__main__")
    except SystemExit as e:
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code & 0xFF
        print(e.code, file=sys.stderr)
        return 1
    except BaseException:
        traceback.print_exc()
        return 1
    return 0


def _child(argvs, cwd, out_path, err_path):
    try:
        fd = os.open(out_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        fd = os.open(err_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 2)
        sys.stdout = os.fdopen(1, "w", encoding="utf-8", closefd=False)
        sys.stderr = os.fdopen(2, "w", encoding="utf-8", closefd=False)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT_S, CPU_LIMIT_S + 5))
        os.chdir(cwd)
        sys.setrecursionlimit(1000)
        for argv in argvs:
            code = _run_main(argv)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    finally:
        os._exit(99)


def cli_raw(argv, cwd):
    """Run `main.py argv` in a forked child; (rc, stdout, stderr)."""
    return cli_many([argv], cwd)


def cli_many(argvs, cwd):
    """Several commands one after the other in one process; the result of the last one."""
    preload()
    out_path = os.path.join(cwd, ".stdout")
    err_path = os.path.join(cwd, ".stderr")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        _child(argvs, cwd, out_path, err_path)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        rc = "hang" if sig in (signal.SIGXCPU, signal.SIGKILL) else "signal %d" % sig
    else:
        rc = os.WEXITSTATUS(status)
    if rc == 99:
        raise HarnessError("could not start the command: %r" % (argvs,))
    with open(out_path, encoding="utf-8", errors="replace") as f:
        out = f.read()
    with open(err_path, encoding="utf-8", errors="replace") as f:
        err = f.read()
    os.unlink(out_path)
    os.unlink(err_path)
    return rc, out, err


def in_child(fn):
    """fn() in a forked child with the CPU limit; its JSON-able result, or
    ("exception", text), or ("hang", "")."""
    preload()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT_S, CPU_LIMIT_S + 5))
            try:
                out = ["ok", fn()]
            except BaseException as e:  # reported to the parent
                out = ["exception", "%s: %s" % (type(e).__name__, e)]
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        finally:
            os._exit(99)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "hang", "signal %d" % os.WTERMSIG(status)
    if os.WEXITSTATUS(status) != 0:
        raise HarnessError("in_child failed")
    kind, value = json.loads(data)
    return kind, value


def cli_subprocess(argv, cwd, env_extra=None):
    """The same as a fresh interpreter process (for environment effects)."""
    env = {
        "PATH": "/opt/venv/bin:/usr/bin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONWARNINGS": "ignore",
        "HOME": cwd,
    }
    env.update(env_extra or {})
    p = subprocess.run(
        [PYTHON, "-B", MAIN] + argv,
        cwd=cwd,
        env=env,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        timeout=600,
        check=False,
    )
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode(
        "utf-8", "replace"
    )


CLOCK_C = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long shift(void) { const char *s = getenv("CLOCK_SHIFT_S"); return s ? atol(s) : 0; }
int clock_gettime(clockid_t id, struct timespec *t)
{
    static int (*real)(clockid_t, struct timespec *);
    if (!real)
        real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
    int rc = real(id, t);
    if (rc == 0 && id == CLOCK_REALTIME)
        t->tv_sec += shift();
    return rc;
}
time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out)
        *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec t;
    (void) tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
"""
_clock = []


def clock_library():
    """A shared library which moves the clock of a process, for LD_PRELOAD."""
    if not _clock:
        base = os.path.join(scratch_root(), "clock%d" % os.getpid())
        with open(base + ".c", "w", encoding="utf-8") as f:
            f.write(CLOCK_C)
        subprocess.run(
            ["gcc", "-w", "-shared", "-fPIC", base + ".c", "-o", base + ".so", "-ldl"], check=True,
            stdin=subprocess.DEVNULL,
        )
        _clock.append(base + ".so")
    return _clock[0]


def write_inputs(cwd, texts, names=None):
    paths = []
    for i, text in enumerate(texts):
        name = names[i] if names else "m%d.asn" % i
        path = os.path.join(cwd, name)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        paths.append(name)
    return paths


GENERATOR_ARGS = {
    "cfs": ["generate-cfs"],
    "c": ["generate-c"],
    "binary": ["generate-binary"],
    "cosmos": ["generate-cosmos"],
}


def argv_for(gen, paths, out, modules, endianness=None, messages=None, target="tgt"):
    argv = GENERATOR_ARGS[gen] + list(paths)
    if gen == "cosmos":
        argv += [
            "--asn1-module", modules,
            "--asn1-messages", ",".join(messages),
            "--output-file-name", target,
        ]
    else:
        argv += ["--asn1-modules", ",".join(modules)]
        if gen == "binary" and endianness != "none":
            argv += ["--endianness", endianness or "little-endian"]
    return argv + ["--output-dir", out]


def generate(gen, texts, modules, endianness=None, messages=None, target="tgt"):
    """One command on fresh inputs in a scratch folder."""
    with Scratch() as d:
        paths = write_inputs(d, texts)
        argv = argv_for(gen, paths, "out", modules, endianness, messages, target)
        rc, out, err = cli_raw(argv, d)
        files = read_tree(os.path.join(d, "out"))
        return Result(rc, out, err, files)


# ------------------------------------------------------------ C compiler


class CResult:
    def __init__(self, ok, messages, lines):
        self.ok = ok
        self.messages = messages
        self.lines = lines


def gcc(files, main_text, run=True, flags=(), extra_sources=()):
    """Write the files, compile main_text against them, run it."""
    with Scratch() as d:
        for name, data in files.items():
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(data)
        with open(os.path.join(d, "probe_main.c"), "w", encoding="utf-8") as f:
            f.write(main_text)
        cmd = ["gcc", "-w", "-O0", "-fno-diagnostics-color"] + list(flags)
        if not run:
            cmd += ["-fsyntax-only"]
        cmd += ["probe_main.c"] + list(extra_sources)
        if run:
            cmd += ["-o", "probe"]
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TMPDIR": d}
        p = subprocess.run(
            cmd, cwd=d, env=env, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=600, check=False,
        )
        messages = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            if p.returncode < 0 or "fatal error: Killed" in messages:
                raise HarnessError("gcc was killed: " + messages[-300:])
            return CResult(False, messages, [])
        if not run:
            return CResult(True, messages, [])
        q = subprocess.run(
            [os.path.join(d, "probe")], cwd=d, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=600, check=False,
        )
        if q.returncode != 0:
            raise HarnessError("probe exited with %d" % q.returncode)
        return CResult(True, messages, q.stdout.decode().splitlines())


# ------------------------------------------------------- reading artefacts

_COSMOS_TOKEN = re.compile(r"\"(?:[^\\\"]|\\.)*\"|'(?:[^\\']|\\.)*'|\S+")


class CosmosItem:
    def __init__(self):
        self.keyword = self.name = self.type = ""
        self.bits = 0
        self.array_bits = None
        self.id = None
        self.description = ""
        self.endianness = None
        self.states = []
        self.limits = None
        self.units = None


class CosmosPacket:
    def __init__(self, target, name, endianness, description):
        self.target = target
        self.name = name
        self.endianness = endianness
        self.description = description
        self.items = []


class CosmosFormatError(Exception):
    pass


def parse_cosmos(text):
    """Read a COSMOS telemetry definition as COSMOS does (keyword and
    white space separated parameters, double quoted strings)."""
    packets = []
    item = None

    def want(cond, line):
        if not cond:
            raise CosmosFormatError("not a COSMOS definition: %r" % line)

    for line in text.split("\n"):
        stripped = line.strip()
        if not stripped or stripped.startswith("#"):
            continue
        tokens = _COSMOS_TOKEN.findall(stripped)
        key, args = tokens[0], tokens[1:]
        if key == "TELEMETRY":
            want(len(args) == 4 and _quoted(args[3]), line)
            packets.append(CosmosPacket(args[0], args[1], args[2], args[3][1:-1]))
            item = None
        elif key in ("APPEND_ITEM", "APPEND_ID_ITEM", "APPEND_ARRAY_ITEM"):
            want(packets, line)
            n = 3 if key == "APPEND_ITEM" else 4
            want(len(args) in (n + 1, n + 2) and _quoted(args[n]), line)
            item = CosmosItem()
            item.keyword, item.name, item.type = key, args[0], args[2]
            want(re.fullmatch(r"\d+", args[1]), line)
            item.bits = int(args[1])
            if key == "APPEND_ARRAY_ITEM":
                want(re.fullmatch(r"\d+", args[3]), line)
                item.array_bits = int(args[3])
            elif key == "APPEND_ID_ITEM":
                item.id = args[3]
            item.description = args[n][1:-1]
            if len(args) == n + 2:
                want(args[n + 1] in ("LITTLE_ENDIAN", "BIG_ENDIAN"), line)
                item.endianness = args[n + 1]
            packets[-1].items.append(item)
        elif key == "STATE":
            want(item is not None and len(args) == 2, line)
            item.states.append((args[0], args[1]))
        elif key == "LIMITS":
            want(item is not None and len(args) == 7, line)
            want(item.limits is None, line)
            item.limits = args
        elif key == "UNITS":
            want(item is not None and len(args) == 2, line)
            want(item.units is None, line)
            item.units = args
        else:
            want(False, line)
    return packets


def _quoted(token):
    return len(token) >= 2 and token[0] == '"' and token[-1] == '"'


def strip_c_comments(text):
    """Remove comments as a C compiler does (no strings in these files)."""
    text = text.replace("\\\n", "")
    out = []
    i = 0
    while i < len(text):
        if text.startswith("//", i):
            j = text.find("\n", i)
            i = len(text) if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            i = len(text) if j < 0 else j + 2
            out.append(" ")
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def c_definitions(text):
    """{name: normalised text} of the struct, enum and union definitions of a
    header, plus the list of every remaining non-preprocessor statement."""
    code = strip_c_comments(text)
    code = "\n".join(
        l for l in code.split("\n") if not l.lstrip().startswith("#")
    )
    defs = []
    rest = []
    buf = ""
    depth = 0
    for ch in code:
        buf += ch
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
        elif ch == ";" and depth == 0:
            norm = " ".join(buf.split())
            m = re.search(r"(\w+) ?;$", norm)
            if "{" in norm and m:
                defs.append((m.group(1), norm))
            else:
                rest.append(norm)
            buf = ""
    if buf.strip():
        rest.append(" ".join(buf.split()))
    return defs, rest


def macros(text):
    """[(name, value)] of the #defines of a header, comments removed."""
    out = []
    for line in strip_c_comments(text).split("\n"):
        m = re.match(r"\s*#\s*define\s+(\w+)(?:\s+(.*?))?\s*$", line)
        if m:
            out.append((m.group(1), m.group(2) or ""))
    return out
