#!/usr/bin/env python3
"""Check X26: generates models, translates and compiles them, and runs the comparison of the resulting types.

Options as check.py. The thorough tier does so for several seeds derived from the given one.
"""
import hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import check      # noqa: E402
import x26gen     # noqa: E402

CID = "X26"
CFG = {"sources": ["x26.cpp", "model.cpp"], "groups": ["core"]}
COUNT = 8
OUT = os.path.join(check.BUILD, "x26")
DCG = ["/opt/vp/dcg-venv/bin/python", "/opt/vp/dcg-venv/bin/dcg.py", f"--config={check.REPO}/dots-cg-cpp/src/config_cpp.py", f"--templatePath={check.REPO}/dots-cg-cpp/src"]
CLANG = f"clang++ {check.OPT} -gline-tables-only -std=gnu++20 -w -ftemplate-backtrace-limit=1 {check.SAN}"
# as the library is built: offsets of properties are constant expressions
GCC = "g++ -O1 -std=gnu++20 -w"
INC = f"-I{check.LIB}/include -I{check.BUILD}/gen -isystem {check.REPO}/external -isystem /opt/vp/cmake/include"


def translate(model, out):
    """Returns the output of a failure."""
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(DCG + [model], cwd=out, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout if r.returncode != 0 else None


def use(enums, structs):
    """What any user of the types would write."""
    o = [f"#include <{t['name']}.dots.h>" for t in enums + structs] + ["#include <cstdio>", "int main()", "{"]
    for e in enums:
        o.append(f"    dots::type::Descriptor<dots::types::{e['name']}>::Instance();")
        for i in e["items"]:
            o.append(f"    {{ {e['name']} x = {e['name']}::{i['name']}; (void)x; }}")
    for s in structs:
        o.append(f"    {{ {s['name']} x; {s['name']} y{{ x }}; y = x; (void)(x == y); x._descriptor(); (void){s['name']}::_Cached; (void){s['name']}::_Properties(); (void){s['name']}::_KeyProperties();")
        for p in s["props"]:
            t = p["type"]
            if t.kind == "vector":
                e = "dots::types::uint8_t" if t.ref.kind == "bool" else t.ref.cpp()
                o.append(f"      x.{p['name']} = dots::types::vector_t<{t.ref.cpp()}>{{}}; {{ {s['name']} z{{ .{p['name']} = {{ {e}{{}} }} }}; (void)z; }}")
            else:
                o.append(f"      x.{p['name']} = {t.cpp()}{{}};")
            o.append(f"      (void){s['name']}::{p['name']}_p; (void)x.{p['name']}.isValid(); (void)*x.{p['name']};")
        o.append("    }")
    o += ["}", ""]
    return "\n".join(o)


def headers_fail(text, source, tag="shrink"):
    """The failure of translating a model or of compiling code that uses its types, or None."""
    out = os.path.join(OUT, tag)
    subprocess.run(["rm", "-rf", out])
    os.makedirs(out)
    m = os.path.join(out, "model.dots")
    open(m, "w").write(text)
    f = translate(m, out)
    if f is not None:
        return "the code generator fails:\n" + f[-1500:]
    cpp = os.path.join(out, "use.cpp")
    open(cpp, "w").write(source)
    procs = [subprocess.Popen(f"{c} -fsyntax-only -std=gnu++20 -w {check.DEFS} {d} {INC} -I{out} {cpp}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
             for c, d in (("clang++ -ferror-limit=3", ""), ("g++ -fmax-errors=3", "-UDOTS_PROPERTIES_NO_CONSTEXPR_OFFSETS"))]
    res = [(p.communicate()[0], p.returncode) for p in procs]
    for o, c in res:
        if c != 0:
            return "code using the generated types does not compile:\n" + o[:1500]
    return None


def shrink(seed, i):
    """The smallest part of a model that still fails and its failure, or None."""
    enums, structs, order, r = x26gen.model(seed, i)

    def attempt(en, st):
        import random
        names = {t["name"] for t in en + st}
        for s in st:
            if any(n not in names for p in s["props"] for n in p["type"].needs()):
                return None
            if not s["props"]:
                return None
        text = x26gen.dots_text(en, st, [t for t in order if t["name"] in names], random.Random(seed))
        src = use(en, st)
        f = headers_fail(text, src)
        return (text, src, f) if f else None

    best = attempt(enums, structs)
    if best is None:
        return None
    limit = time.time() + 120
    # whole types, last ones first, then properties and enumerators
    again = True
    while again and time.time() < limit:
        again = False
        for group in (structs, enums):
            for k in reversed(range(len(group))):
                if time.time() > limit:
                    break
                rest = group[:k] + group[k + 1:]
                f = attempt(rest if group is enums else enums, rest if group is structs else structs)
                if f:
                    best, again = f, True
                    group[:] = rest
        for s in structs + enums:
            part = "props" if "props" in s else "items"
            for k in reversed(range(len(s[part]))):
                if time.time() > limit or len(s[part]) == 1:
                    break
                kept = s[part]
                s[part] = kept[:k] + kept[k + 1:]
                f = attempt(enums, structs)
                if f:
                    best, again = f, True
                else:
                    s[part] = kept
    return best


def violation(text, source, failure):
    body = json.dumps({"property": CID, "model": text, "source": source}, indent=1)
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{CID}-model-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(body)
    print(text + "\n" + failure)
    print(f"VIOLATION property={CID} replay={p}", flush=True)


def build(seed):
    """The program for the models of a seed, or None after having reported a violation."""
    os.makedirs(OUT, exist_ok=True)
    models, units = x26gen.generate(seed, COUNT, OUT)
    gen = os.path.join(OUT, "gen")
    tmp = gen + ".tmp"
    subprocess.run(["rm", "-rf", tmp])
    os.makedirs(gen, exist_ok=True)
    os.makedirs(tmp)
    failure, first = None, None
    for i, m in enumerate(models):
        f = translate(m, tmp)
        if f is not None and first is None:
            first, failure = i, f
    if first is None:
        for f in os.listdir(tmp):
            check.write_if_changed(os.path.join(gen, f), open(os.path.join(tmp, f)).read())
        try:
            return check.build(CID, CFG, [(u, *((CLANG, "") if i % 2 == 0 else (GCC, "-UDOTS_PROPERTIES_NO_CONSTEXPR_OFFSETS"))) for i, u in enumerate(units)], f"-I{gen}")
        except check.UnitFailure as e:
            failure = str(e)
            first = int(re.search(r"^FAILED: .*x26_(\d+)\.cpp\.o", failure, re.M).group(1))
    small = shrink(seed, first)
    if small is None:
        # it is the harness that does not fit the code
        print(failure[-6000:])
        raise SystemExit("build of X26 failed")
    violation(*small)
    return None


def option(args, name, default):
    return args[args.index(name) + 1] if name in args else default


def evidence(tier, seed, t0, violations, merged=None):
    p = os.path.join(ROOT, "evidence", f"{CID}.json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        e = merged or json.load(open(p))
    except OSError:
        e = None
    if e is None:
        e = {"property": CID, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}}
    e["wall_s"] = time.time() - t0
    e["violations"] = violations
    e["tier"], e["seed"] = tier, seed
    json.dump(e, open(p, "w"), indent=1)


def merge(total, e, models):
    if total is None:
        total = e
        total["coverage"]["models"] = 0
    else:
        a, b = total["coverage"], e["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "discarded", "unreproduced_failures"):
            a[k] = a.get(k, 0) + b.get(k, 0)
        for k in ("per_sub_check", "classes"):
            for n, v in b.get(k, {}).items():
                a.setdefault(k, {})[n] = a.get(k, {}).get(n, 0) + v
    total["coverage"]["models"] += models
    return total


def main():
    args = sys.argv[1:]
    t0 = time.time()
    tier = option(args, "--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(option(args, "--seed", os.environ.get("VERIF_SEED", "1")))
    replay = option(args, "--replay", None)
    path = os.path.join(ROOT, "evidence", f"{CID}.json")
    if replay:
        text = open(replay).read()
        if text.startswith("{"):
            d = json.loads(text)
            models = [m for m in (check.glob.glob(f"{check.REPO}/external/dots/model/*.dots") + check.glob.glob(f"{check.REPO}/lib/src/model/*.dots"))]
            f = headers_fail(d["model"], d["source"], "replay")
            print(d["model"])
            if f:
                print(f)
                print(f"VIOLATION property={CID} replay={replay}")
            return 1 if f else 0
        seed = int(re.search(r"^seed (\d+)", text, re.M).group(1))
    rounds = 12 if tier == "thorough" and not replay else 1
    total = None
    for k in range(rounds):
        s = seed + 1000003 * k
        exe = build(s)
        if exe is None:
            evidence(tier, seed, t0, 1, total)
            return 1
        print(f"{CID}: built in {time.time() - t0:.1f} s", flush=True)
        if "--build-only" in args:
            return 0
        rest = list(args)
        if "--seed" in rest:
            del rest[rest.index("--seed"):rest.index("--seed") + 2]
        rc = check.run(exe, rest + ([] if replay else ["--seed", str(s)]))
        if replay:
            return rc
        if rc not in (0, 1):
            return rc
        total = merge(total, json.load(open(path)), COUNT)
        evidence(tier, seed, t0, rc, total)
        if rc:
            return rc
    return 0


if __name__ == "__main__":
    sys.exit(main())
