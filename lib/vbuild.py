"""Content-addressed build driver for the verification harnesses.

Compiles /repo's sources (taken from the current working tree) plus a harness
from /verif/harness into one binary per flavour.  Objects are cached by the
hash of the command line and of every non-system file the compiler read, so a
changed file is always recompiled no matter what its time stamp says, and an
unchanged one never is.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
GEN = os.path.join(CACHE, "gen")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

CXX = "g++"
COMMON = [
    "-std=c++17", "-pthread", "-w", "-fno-omit-frame-pointer", "-DNDEBUG",
    "-DBOOST_IOSTREAMS_DYN_LINK", "-DBOOST_IOSTREAMS_NO_LIB",
    "-DGFLAGS_IS_A_DLL=0", "-DGLOG_CUSTOM_PREFIX_SUPPORT",
    "-DUSE_PROMETHEUS=1", "-DCARTOGRAPHER_VERIF=1",
    "-DEIGEN_DONT_PARALLELIZE",
]
INCLUDES = [
    "-I", os.path.join(VERIF, "shim"), "-I", REPO, "-I", GEN,
    "-I", os.path.join(VERIF, "harness"),
    "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/lua5.2",
    "-isystem", "/usr/include/cairo",
]
UBSAN = ("-fsanitize=address,undefined -fno-sanitize=vptr,alignment,shift-base,null,"
         "pointer-overflow,object-size,"
         "float-divide-by-zero")
FLAVORS = {
    # address + undefined behaviour
    "asan": ["-O1", "-g1"] + UBSAN.split() + ["-fno-sanitize-recover=all"],
    # data races, lock-order inversions
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # plain optimised build, for oracles that need many evaluations
    "opt": ["-O2", "-g1"],
}
LIBS = [
    "-lceres", "-lglog", "-lgflags", "-lprotobuf", "-llua5.2",
    "-lboost_iostreams", "-lcairo", "-lz",
    "-lprometheus-cpp-core", "-lprometheus-cpp-pull",
    "-labsl_synchronization", "-labsl_graphcycles_internal",
    "-labsl_str_format_internal", "-labsl_strings",
    "-labsl_strings_internal", "-labsl_raw_hash_set", "-labsl_hash",
    "-labsl_city", "-labsl_low_level_hash", "-labsl_hashtablez_sampler",
    "-labsl_time", "-labsl_time_zone", "-labsl_base", "-labsl_int128",
    "-labsl_throw_delegate", "-labsl_raw_logging_internal",
    "-labsl_bad_optional_access",
]

class BuildError(Exception):
    pass


_hash_lock = threading.Lock()
_hashes = {}


def file_hash(path):
    with _hash_lock:
        h = _hashes.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hashes[path] = h
    return h


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def repo_files(suffixes):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "cartographer")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(suffixes):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def is_cloud(rel):
    return rel.startswith("cartographer/cloud/") and not rel.startswith(
        "cartographer/cloud/metrics/")


def is_library_source(rel):
    base = os.path.basename(rel)
    return not (base.endswith("_test.cc") or base.endswith("_main.cc") or
                is_cloud(rel) or base.startswith("fake_") or
                base.startswith("mock_") or "test_helpers" in base or
                "/testing/" in rel)


def generate():
    """Runs protoc and makes config.h; both keyed by content."""
    protos = [p for p in repo_files((".proto",)) if not is_cloud(p)]
    key = hashlib.sha256()
    for p in protos:
        key.update(p.encode())
        key.update(file_hash(os.path.join(REPO, p)).encode())
    key = key.hexdigest()
    stamp = os.path.join(GEN, "stamp")
    have = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            have = f.read()
    if have != key:
        tmp = GEN + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(
            ["protoc", "--cpp_out", tmp, "-I", REPO] +
            [os.path.join(REPO, p) for p in protos],
            capture_output=True, text=True)
        if r.returncode:
            raise BuildError("protoc failed:\n" + r.stderr)
        for root, _, files in os.walk(tmp):
            for f in files:
                src = os.path.join(root, f)
                with open(src, "rb") as fh:
                    write_if_changed(
                        os.path.join(GEN, os.path.relpath(src, tmp)),
                        fh.read())
        subprocess.run(["rm", "-rf", tmp])
        with open(stamp, "w") as f:
            f.write(key)
    tmpl = open(os.path.join(REPO, "cartographer/common/config.h.cmake")).read()
    tmpl = tmpl.replace("@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@",
                        os.path.join(REPO, "configuration_files"))
    tmpl = tmpl.replace("@PROJECT_SOURCE_DIR@", REPO)
    write_if_changed(os.path.join(GEN, "cartographer/common/config.h"),
                     tmpl.encode())


_INCLUDE = re.compile(rb'^[ \t]*#[ \t]*include[ \t]+[<"]([^">]+)[">]', re.M)
_inc_cache = {}


def includes(path):
    if path not in _inc_cache:
        try:
            with open(path, "rb") as f:
                _inc_cache[path] = [
                    m.decode() for m in _INCLUDE.findall(f.read())]
        except OSError:
            _inc_cache[path] = []
    return _inc_cache[path]


def resolve(inc, including):
    for base in (os.path.dirname(including), REPO, GEN,
                 os.path.join(VERIF, "harness")):
        p = os.path.normpath(os.path.join(base, inc))
        if os.path.isfile(p):
            return p
    return None


def closure(sources):
    """Sources whose headers are (transitively) included by 'sources'."""
    todo = [os.path.abspath(s) for s in sources]
    seen, result, textual = set(), [], set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p.endswith(".cc"):
            result.append(p)
        for inc in includes(p):
            r = resolve(inc, p)
            if r is None:
                continue
            todo.append(r)
            if r.endswith(".cc"):
                textual.add(r)  # included into another source
            if r.endswith(".pb.h"):
                todo.append(r[:-5] + ".pb.cc")
            elif r.endswith(".h"):
                cc = r[:-2] + ".cc"
                if os.path.isfile(cc):
                    todo.append(cc)
    return sorted(set(result) - textual)


def all_library_sources():
    out = [os.path.join(REPO, s) for s in repo_files((".cc",))
           if is_library_source(s)]
    for root, _, files in os.walk(GEN):
        out += [os.path.join(root, f) for f in files if f.endswith(".pb.cc")]
    return sorted(out)


def flags_for(src, flavor, extra):
    if src.endswith(".pb.cc"):
        # Generated code: shared by all flavours, not under test.
        return COMMON + ["-O1"] + INCLUDES
    return COMMON + FLAVORS[flavor] + list(extra) + INCLUDES


def _mangle(path):
    return hashlib.sha256(path.encode()).hexdigest()[:24]


def _key(cmd, deps):
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode())
        h.update(file_hash(d).encode())
    return h.hexdigest()[:40]


def compile_one(src, flavor, extra=()):
    flags = flags_for(src, flavor, extra)
    cmd = [CXX] + flags + ["-c", src]
    man_path = os.path.join(
        CACHE, "man", _mangle("\0".join(cmd)) + ".json")
    manifests = []
    if os.path.exists(man_path):
        try:
            with open(man_path) as f:
                manifests = json.load(f)
        except ValueError:
            manifests = []
    for deps in manifests:
        obj = os.path.join(CACHE, "obj", _key(cmd, deps) + ".o")
        if os.path.exists(obj):
            return obj, False
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "man"), exist_ok=True)
    tmp = os.path.join(CACHE, "obj",
                       "tmp%d_%s" % (os.getpid(), _mangle(src + flavor)))
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", tmp + ".d"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s (%s) failed:\n%s" %
                         (src, flavor, r.stderr[-6000:]))
    with open(tmp + ".d") as f:
        text = f.read().replace("\\\n", " ")
    os.unlink(tmp + ".d")
    deps = [os.path.normpath(d) for d in text.split(":", 1)[1].split()]
    obj = os.path.join(CACHE, "obj", _key(cmd, deps) + ".o")
    os.replace(tmp + ".o", obj)
    manifests = [m for m in manifests if m != deps] + [deps]
    write_if_changed(man_path, json.dumps(manifests[-6:]).encode())
    return obj, True


def compile_many(srcs, flavor, extra=()):
    # Big ones first.
    srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, flavor, extra), srcs))
    return [r[0] for r in res], sum(1 for r in res if r[1])


def link(objs, out, flavor):
    cmd = ([CXX, "-pthread"] +
           [f for f in FLAVORS[flavor] if f.startswith("-f") or f[:2] == "-O"] +
           objs + ["-o", out, "-rdynamic"] + LIBS)
    return subprocess.run(cmd, capture_output=True, text=True)


def build(harness, flavor, extra_sources=(), whole=False, quiet=False):
    """Builds /verif/harness/<harness>.cc, or one of /repo's own programs when
    'harness' is a path there, and returns the binary's path."""
    t0 = time.time()
    generate()
    name = harness
    main = os.path.join(VERIF, "harness", harness + ".cc")
    if harness.endswith(".cc"):
        main = os.path.join(REPO, harness)
        harness = os.path.basename(harness)[:-3]
    vmutex = os.path.join(VERIF, "harness", "vmutex.cc")
    extra_sources = [os.path.join(REPO, s) for s in extra_sources]
    srcs = closure([main, vmutex] + extra_sources)
    if whole:
        srcs = sorted(set(srcs) | set(all_library_sources()))
    objs, compiled = compile_many(srcs, flavor)
    h = hashlib.sha256(("\0".join(sorted(objs)) + "|".join(LIBS) +
                        flavor).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    out = os.path.join(CACHE, "bin", "%s.%s.%s" % (harness, flavor, h))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = link(objs, tmp, flavor)
        if r.returncode and not whole:
            # A function declared in one header may be defined in a source of
            # another name: fall back to the whole library.
            return build(name, flavor, extra_sources, True, quiet)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" %
                             (harness, r.stderr[-6000:]))
        os.replace(tmp, out)
        for old in os.listdir(os.path.join(CACHE, "bin")):
            p = os.path.join(CACHE, "bin", old)
            if old.startswith("%s.%s." % (harness, flavor)) and p != out:
                try:
                    os.unlink(p)
                except OSError:
                    pass
    if not quiet:
        print("[build] %s/%s: %d sources, %d compiled, %.1fs" %
              (harness, flavor, len(srcs), compiled, time.time() - t0),
              flush=True)
    return out


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
