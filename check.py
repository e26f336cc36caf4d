#!/usr/bin/env python3
"""Builds and runs one check against /repo's working tree.

  ./check.py ID [--tier quick|thorough] [--seed N] [--scale X] [--only SUB] [--replay FILE] [--build-only]

Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import fcntl
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LIB = os.path.join(REPO, "lib")

sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

DEFS = ("-DNDEBUG -DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SYSTEM_NO_DEPRECATED "
        "-DDOTS_ENABLE_LOG_DATA -DDOTS_ENABLE_LOG_DEBUG -DDOTS_NO_GLOBAL_TRANSCEIVER -DFMT_HEADER_ONLY=1 "
        "-DHAS_STRING_VIEW=1 -DHAS_UNCAUGHT_EXCEPTIONS -DONLY_C_LOCALE=1 -DUSE_OS_TZDB=1 "
        "-DDOTS_PROPERTIES_NO_CONSTEXPR_OFFSETS")
SAN = ("-fsanitize=address,bool,enum,signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,unreachable,return,array-bounds "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer")
CXX = "clang++"
OPT = os.environ.get("VERIF_OPT", "-O1")
FLAGS = f"{OPT} -gline-tables-only -std=gnu++20 -w -ftemplate-backtrace-limit=1 {SAN}"

# never needed by the harnesses, and slow to compile
SKIP = re.compile(r"/(Application|dots)\.cpp$")
HEAVY = re.compile(r"/(WebSocket\w*)\.cpp$")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def generate(models, out):
    """Runs the repo's code generator on the models; touches only headers that change."""
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    procs = []
    for m in models:
        procs.append((m, subprocess.Popen(
            ["/opt/vp/dcg-venv/bin/python", "/opt/vp/dcg-venv/bin/dcg.py", f"--config={REPO}/dots-cg-cpp/src/config_cpp.py",
             f"--templatePath={REPO}/dots-cg-cpp/src", m], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for m, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise SystemExit(f"code generation failed for {m}:\n{o}")
    for f in os.listdir(tmp):
        write_if_changed(os.path.join(out, f), open(os.path.join(tmp, f)).read())
    for f in os.listdir(out):
        if f.endswith(".dots.h") and not os.path.exists(os.path.join(tmp, f)):
            os.remove(os.path.join(out, f))
    shutil.rmtree(tmp, ignore_errors=True)


def lib_sources(groups, app=False):
    allsrc = sorted(glob.glob(f"{LIB}/src/**/*.cpp", recursive=True))
    res = []
    for s in allsrc:
        rel = os.path.relpath(s, f"{LIB}/src")
        if SKIP.search("/" + rel) and not app:
            continue
        if groups == "all":
            res.append(s)
            continue
        for g in groups:
            if re.match(g, rel):
                res.append(s)
                break
    return res


# path patterns (relative to lib/src) of the parts a check needs; if linking fails, everything is built
GROUPS = {
    "core": [r"type/", r"serialization/", r"tools/(?!Uri|IpNetwork|logging)", r"tools/logging", r"io/DescriptorConverter", r"Event\.cpp"],
    "app": [r"(Application|dots)\.cpp$"],
    "tools": [r"tools/", r"type/Chrono", r"type/Uuid"],
    "cache": [r"Container", r"Dispatcher", r"Event", r"Subscription"],
    "io": [r"[^/]*\.cpp$", r"io/[^/]*\.cpp$", r"io/auth/", r"io/channels/Local"],
    "stream": [r"io/channels/(?!WebSocket)"],
    "ws": [r"io/channels/WebSocket"],
}


class UnitFailure(Exception):
    """Generated code (units) could not be compiled."""


def build(cid, cfg, units=(), unit_inc=""):
    """units: (source, compiler, flags) besides the sources of the check"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "gen")
    models = glob.glob(f"{REPO}/external/dots/model/*.dots") + glob.glob(f"{REPO}/lib/src/model/*.dots") + \
        [f"{REPO}/tests/src/serialization/serialization.dots", f"{REPO}/tests/src/type/TestStaticStruct.dots"]
    models += sorted(glob.glob(f"{ROOT}/models/*.dots"))
    models = [m for m in models if os.path.exists(m)]
    generate(models, gen)

    pats = [p for g in cfg["groups"] for p in GROUPS[g]]
    inc = f"-I{ROOT}/harness -I{LIB}/include -I{gen} -isystem {REPO}/external -isystem /opt/vp/cmake/include -isystem {ROOT}/harness/ext"
    for attempt in (pats, "all"):
        srcs = lib_sources(attempt, "app" in cfg["groups"])
        hsrc = ["pbt.cpp"] + cfg["sources"]
        n = ["ninja_required_version = 1.8", f"cxx = {CXX}", f"flags = {FLAGS} {DEFS} {inc}",
             "rule cc", "  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
             "rule unit", f"  command = $uxx {DEFS} $uflags {inc} {unit_inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
             "rule ar", "  command = rm -f $out && ar rcs $out $in", "  description = AR $out",
             "rule ld", "  command = $cxx $flags $in -o $out $libs", "  description = LD $out"]
        objs = []
        for s in srcs:
            o = "lib/" + os.path.relpath(s, LIB).replace("/", "_") + ".o"
            n.append(f"build {o}: cc {s}")
            objs.append(o)
        hobjs = []
        for s in hsrc:
            o = "h/" + s.replace("/", "_") + ".o"
            n.append(f"build {o}: cc {ROOT}/harness/{s}")
            if s == "pbt.cpp":
                n.append("  extra = -O2 -fno-sanitize=all")
            hobjs.append(o)
        for s in sorted(glob.glob(f"{REPO}/bin/{cfg['program']}/src/**/*.cpp", recursive=True)) if "program" in cfg else []:
            o = f"h/{cfg['program']}_" + os.path.basename(s) + ".o"
            n.append(f"build {o}: cc {s}")
            n.append(f"  extra = -I{os.path.dirname(s)} -Dmain={cfg['program']}_main")
            hobjs.append(o)
        for src, compiler, flags in units:
            o = "h/" + os.path.basename(src) + ".o"
            n.append(f"build {o}: unit {src}")
            n += [f"  uxx = {compiler}", f"  uflags = {flags}"]
            hobjs.append(o)
        n.append(f"build {cid}.a: ar {' '.join(objs)}")
        n.append(f"build {cid}: ld {' '.join(hobjs)} {cid}.a")
        n.append(f"  libs = {cfg.get('libs', '')} -ldate-tz -lboost_program_options -lpthread -lrt")
        nf = os.path.join(BUILD, f"{cid}.ninja")
        write_if_changed(nf, "\n".join(n) + "\n")
        r = sh(f"ninja -C {BUILD} -f {cid}.ninja -k 20 -j {os.environ.get('VERIF_JOBS', '8')} {cid}")
        if r.returncode == 0:
            return os.path.join(BUILD, cid)
        if "undefined reference" not in r.stdout and "undefined symbol" not in r.stdout or attempt == "all":
            failed = re.findall(r"^FAILED: (?:\[code=\d+\] )?(\S+)", r.stdout, re.M)
            if units and failed and all(os.path.basename(f)[:-2] in [os.path.basename(u[0]) for u in units] for f in failed):
                raise UnitFailure(r.stdout)
            print(r.stdout[-12000:])
            raise SystemExit(f"build of {cid} failed")
    raise SystemExit("unreachable")


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__, "IDs:", " ".join(sorted(CHECKS)))
        return 2
    cid = sys.argv[1]
    args = sys.argv[2:]
    cfg = CHECKS[cid]
    t0 = time.time()
    if "script" in cfg:
        return subprocess.call([sys.executable, os.path.join(ROOT, cfg["script"])] + args)
    exe = build(cid, cfg)
    print(f"{cid}: built in {time.time() - t0:.1f} s", flush=True)
    if "--build-only" in args:
        return 0
    return run(exe, args)


def run(exe, args):
    env = dict(os.environ)
    env["VERIF_ROOT"] = ROOT
    symbolize = 1 if "--replay" in args else 0
    env["ASAN_OPTIONS"] = (f"detect_leaks=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:symbolize={symbolize}:exitcode=98:"
                           "allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=4000:quarantine_size_mb=32:malloc_context_size=8:detect_stack_use_after_return=0")
    env["UBSAN_OPTIONS"] = f"print_stacktrace=0:symbolize={symbolize}:exitcode=98"
    return subprocess.call([exe] + args, env=env)


if __name__ == "__main__":
    sys.exit(main())
