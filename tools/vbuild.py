"""Builds the harness of one check from /repo's current working tree.

Every object is compiled by ninja with a dependency file, so a change in any
header of /repo that a translation unit includes rebuilds it.  Nothing is
written outside /verif/build.
"""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = [
    "-DBOOST_ASIO_DISABLE_CONCEPTS=1",
    "-DBOOST_MATH_DISABLE_FLOAT128=1",
    "-DFMT_HEADER_ONLY=1",
    "-DRAPIDJSON_HAS_STDSTRING=1",
    "-DTINYSPLINE_DOUBLE_PRECISION",
    "-DFFTW_DOUBLE_ONLY",
]
INCS = [
    f"-I{VERIF}/cfg",
    f"-I{VERIF}/shims",
    f"-I{VERIF}/harness",
    f"-I{REPO}/src",
    f"-isystem {REPO}/3rdparty/timertt",
    "-isystem /usr/include/concurrentqueue/moodycamel",
]
CXX_BASE = (
    ["-std=gnu++20", "-w", "-fpermissive", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS",
     f"-include {VERIF}/shims/compat_pre.hpp"]
    + DEFS + INCS
)
C_BASE = ["-std=gnu11", "-w", "-O1", "-g1"] + DEFS + INCS

SAN = {
    "": [],
    "asan": ["-fsanitize=address"],
    "asub": ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=undefined"],
    "tsan": ["-fsanitize=thread"],
}


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


class Plan:
    """sources: list of (path, sanitizer-key, extra flags)."""

    def __init__(self, name, sources, link_san="", libs=(), cxxflags=(), main_san=None):
        self.name = name
        self.sources = sources
        self.link_san = link_san
        self.libs = list(libs)
        self.cxxflags = list(cxxflags)


def obj_name(src, san, extra):
    import hashlib
    tag = hashlib.sha1((san + "|" + " ".join(extra)).encode()).hexdigest()[:8]
    base = src
    for p in (REPO + "/", VERIF + "/"):
        if base.startswith(p):
            base = base[len(p):]
            break
    return "obj/" + base.strip("/").replace("/", "__") + "." + tag + ".o"


def write_ninja(plans, path):
    out = ["ninja_required_version = 1.3", f"builddir = {BUILD}"]
    out.append("rule cxx")
    out.append("  command = g++ $flags -MMD -MF $out.d -c $in -o $out")
    out.append("  depfile = $out.d")
    out.append("  deps = gcc")
    out.append("rule cc")
    out.append("  command = gcc $flags -MMD -MF $out.d -c $in -o $out")
    out.append("  depfile = $out.d")
    out.append("  deps = gcc")
    out.append("rule link")
    out.append("  command = g++ $flags $in -o $out $libs")
    seen = set()
    for p in plans:
        objs = []
        for src, san, extra in p.sources:
            extra = list(extra) + p.cxxflags
            o = obj_name(src, san, extra)
            objs.append(o)
            if o in seen:
                continue
            seen.add(o)
            rule = "cc" if src.endswith(".c") else "cxx"
            # include directories of the check come before the common ones
            first = [f for f in extra if f.startswith("-I")]
            flags = first + (C_BASE if rule == "cc" else CXX_BASE) + SAN[san] + extra
            out.append(f"build {esc(o)}: {rule} {esc(src)}")
            out.append("  flags = " + " ".join(flags))
        exe = "bin/" + p.name
        out.append(f"build {exe}: link " + " ".join(esc(o) for o in objs))
        out.append("  flags = " + " ".join(SAN[p.link_san]))
        out.append("  libs = " + " ".join(p.libs + ["-lpthread", "-ldl"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    txt = "\n".join(out) + "\n"
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)


def build(plans, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "build-" + "-".join(sorted(p.name for p in plans))[:60] + ".ninja")
    write_ninja(plans, path)
    r = subprocess.run(
        ["ninja", "-C", BUILD, "-f", path, "-j", os.environ.get("VERIF_JOBS", "8")],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines()
                 if not l.startswith(("g++ ", "gcc ")) and not (l.startswith("[") and "] g" in l)]
        sys.stderr.write("\n".join(lines)[-5000:] + "\n")
        raise SystemExit(4 if "undefined reference" in r.stdout else 3)
    if not quiet:
        sys.stdout.write(r.stdout[-2000:])
    return [os.path.join(BUILD, "bin", p.name) for p in plans]
