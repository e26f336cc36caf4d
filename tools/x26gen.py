#!/usr/bin/env python3
"""Generates random models and the C++ that registers them together with what they declare (check X26).

  x26gen.py SEED COUNT OUTDIR
"""
import os, random, re, sys

FUND = {"bool": ("boolean", "bool_t"), "int8": ("int8", "int8_t"), "uint8": ("uint8", "uint8_t"), "int16": ("int16", "int16_t"),
        "uint16": ("uint16", "uint16_t"), "int32": ("int32", "int32_t"), "uint32": ("uint32", "uint32_t"), "int64": ("int64", "int64_t"),
        "uint64": ("uint64", "uint64_t"), "float32": ("float32", "float32_t"), "float64": ("float64", "float64_t"),
        "property_set": ("property_set", "property_set_t"), "timepoint": ("timepoint", "timepoint_t"),
        "steady_timepoint": ("steady_timepoint", "steady_timepoint_t"), "duration": ("duration", "duration_t"),
        "uuid": ("uuid", "uuid_t"), "string": ("string", "string_t")}
FLAGS = ["cached", "internal", "persistent", "cleanup", "local", "substruct_only"]
BITS = {"cached": 1, "internal": 2, "persistent": 4, "cleanup": 8, "local": 16, "substruct_only": 32}
# names that a model might well use, next to arbitrary ones
NAMES = ["id", "value", "name", "type", "types", "dots", "data", "size", "index", "key", "tag", "P", "T", "p", "init", "rhs", "other", "struct_", "property",
         "header", "details", "std", "metadata", "Metadata", "emplace", "isValid", "valid", "instance", "descriptor", "storage", "area", "offset", "x", "y",
         "x_", "_y", "vector", "string", "uint8", "bool_", "Type", "Struct", "Property", "string_t", "value_t", "options", "comment", "imports", "items",
         "loop", "attributes", "cached", "key_", "set", "clear", "copy", "equal", "less", "assign", "merge", "swap", "publish", "remove"]
WORDS = ["a", "number", "of", "things", "[key]", "// or", "what's \"this\"?", "100%", "<b>", "{x}", "{{ y }}", "{% if %}", "*/", "/*", "#", "\u00e4\u00f6", "C:\\temp", "??/", "@code", ";", "struct X {", "1: int32 z;"]


class Type:
    def __init__(self, kind, ref=None):
        self.kind, self.ref = kind, ref   # kind: fundamental name, "enum", "struct", "vector" (ref: element)

    def dots(self):
        return self.kind if self.ref is None else f"vector<{self.ref.dots()}>" if self.kind == "vector" else self.ref["name"]

    def model(self):
        if self.kind == "vector":
            return f"x26::vec({self.ref.model()})"
        if self.kind in ("enum", "struct"):
            return f"x26::of({self.ref['var']})"
        return f"x26::of(Type::{FUND[self.kind][0]})"

    def cpp(self):
        if self.kind == "vector":
            return f"dots::types::vector_t<{self.ref.cpp()}>"
        return "dots::types::" + (self.ref["name"] if self.ref is not None else FUND[self.kind][1])

    def needs(self):
        return self.ref.needs() if self.kind == "vector" else [self.ref["name"]] if self.ref is not None else []


def comment(r):
    t = " ".join(r.choice(WORDS) for _ in range(r.randint(1, 6)))
    return (t.strip("/ ") or "text") + ("\\" if r.random() < 0.05 else "")


def ident(r, used):
    while True:
        if r.random() < 0.5:
            n = r.choice(NAMES)
        else:
            n = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + "".join(
                r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(r.randint(1, 10)))
            n = n.replace("__", "_z").rstrip("_")
            if re.fullmatch(r"do|if|or|int|for|new|try|and|not|asm|xor|auto|bool|case|char|else|enum|goto|long|this|true|void|NULL|EOF|NAN|.*_(pt?|t)|[A-Z]+", n):
                n += "1"
        if n not in used and not any(n == u + s or u == n + s for u in used for s in ("_p", "_pt")):
            used.add(n)
            return n


def model(seed, i):
    r = random.Random(f"x26/{seed}/{i}")
    pre = f"X{i}"
    enums, structs, order = [], [], []

    def enum():
        used, items = set(), []
        n = r.choice([1, 2, 3, 5, 8, 17])
        tags = r.sample(range(1, 200), n)
        if r.random() < 0.5:
            tags.sort()
        values = set()
        for t in tags:
            v = None if r.random() < 0.3 else r.choice([r.randint(1, 10), r.randint(1, 300), r.randint(1, 2**31 - 1), 2**31 - 1])
            if (t - 1 if v is None else v) in values:
                continue
            values.add(t - 1 if v is None else v)
            items.append({"tag": t, "name": ident(r, used), "value": v, "comment": comment(r) if r.random() < 0.3 else None})
        e = {"name": f"{pre}E{len(enums)}{r.choice(['', 'Color', '_x'])}", "var": f"e{len(enums)}", "items": items}
        e["doc"] = comment(r) if r.random() < 0.3 else None
        enums.append(e)
        order.append(e)

    def elem(key):
        k = r.random()
        if not key and k < 0.12 and structs:
            return Type("struct", r.choice(structs[-6:]))
        if k < 0.25 and enums:
            return Type("enum", r.choice(enums))
        return Type(r.choice(list(FUND)))

    def struct():
        used, props = set(), []
        n = r.choice([1, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 31])
        tags = r.sample(range(1, 32), n)
        if r.random() < 0.6:
            tags.sort()
        for t in tags:
            key = r.random() < 0.25
            ty = elem(key and r.random() < 0.8)
            if r.random() < 0.25:
                ty = Type("vector", ty)
            name = ident(r, used)
            if ty.needs() and r.random() < 0.2 and ty.needs()[0] not in used:
                name = ty.needs()[0]  # property named like its type
                used.add(name)
            props.append({"tag": t, "name": name, "type": ty, "key": key, "comment": comment(r) if r.random() < 0.3 else None,
                          "doc": comment(r) if r.random() < 0.1 else None, "deprecated": r.random() < 0.05})
        opts = {}
        for f in FLAGS:
            if r.random() < 0.25:
                opts[f] = r.choice([None, "true", "false"]) if f != "cached" else r.choice([None, "true", "false", "false"])
        s = {"name": f"{pre}S{len(structs)}{r.choice(['', 'Item', '_y'])}", "var": f"s{len(structs)}", "props": props, "opts": opts,
             "doc": comment(r) if r.random() < 0.3 else None, "deprecated": r.random() < 0.05}
        s["flags"] = (0 if opts.get("cached", None) == "false" else 1)
        for f in FLAGS[1:]:
            if f in opts and opts[f] != "false":
                s["flags"] |= BITS[f]
        structs.append(s)
        order.append(s)

    for _ in range(r.randint(1, 3)):
        enum()
    for _ in range(r.randint(5, 9)):
        struct()
        if r.random() < 0.15:
            enum()
    shuffled = order[:]
    if r.random() < 0.5:
        r.shuffle(shuffled)  # types may be used before they are defined
    return enums, structs, shuffled, r


def dots_text(enums, structs, order, r):
    out = [f"// a file comment: {comment(r)}"]
    for t in order:
        if t["doc"]:
            out.append(f"{r.choice(['//', '///'])} {t['doc']}")
        if "items" in t:
            out.append(f"enum {t['name']} {{")
            lines = []
            for k, i in enumerate(t["items"]):
                v = "" if i["value"] is None else f" = {i['value']}"
                last = k + 1 == len(t["items"])
                lines.append(f"    {i['tag']}: {i['name']}{v}{'' if last else ','}" + (f" {r.choice(['//', '//<'])} {i['comment']}" if i["comment"] else ""))
            out += lines + ["}"]
        else:
            opts = [f if v is None else f"{f}={v}" for f, v in t["opts"].items()] + (["deprecated"] if t["deprecated"] else [])
            r.shuffle(opts)
            out.append(f"struct {t['name']} " + (f"[{', '.join(opts)}] " if opts else "") + "{")
            for p in t["props"]:
                if p["doc"]:
                    out.append(f"    {r.choice(['//', '///'])} {p['doc']}")
                po = (["key"] if p["key"] else []) + (["deprecated"] if p["deprecated"] else [])
                out.append(f"    {p['tag']}: {'[' + ', '.join(po) + '] ' if po else ''}{p['type'].dots()} {p['name']};" + (f" {r.choice(['//', '//<'])} {p['comment']}" if p["comment"] else ""))
            out.append("}")
        out.append("")
    return "\n".join(out)


def q(s):
    return '"' + s + '"'


def cpp_text(i, enums, structs):
    o = ['#include "x26.h"', ""]
    for t in enums + structs:
        o.append(f"#include <{t['name']}.dots.h>")
    o += ["", "using dots::type::Type;", "", "namespace", "{"]
    for s in structs:
        o += [f"    x26::Access access_{s['var']}(dots::type::Struct& x, size_t i)", "    {", f"        auto& s = static_cast<{s['name']}&>(x);", "        switch (i)", "        {"]
        for k, p in enumerate(s["props"]):
            o.append(f"            case {k}: return x26::access(s.{p['name']});")
        o += ["            default: throw std::logic_error{ \"no property\" };", "        }", "    }", ""]
        o += [f"    dots::types::property_set_t set_{s['var']}(size_t i)", "    {", "        switch (i)", "        {"]
        for k, p in enumerate(s["props"]):
            o.append(f"            case {k}: return {s['name']}::{p['name']}_p;")
        o += ["            default: throw std::logic_error{ \"no property\" };", "        }", "    }", ""]
        init = []
        for k, p in enumerate(s["props"]):
            t = p["type"]
            if t.kind == "vector":
                e = "dots::types::uint8_t" if t.ref.kind == "bool" else t.ref.cpp()
                init.append(f"            .{p['name']} = {{ {', '.join([e + '{}'] * (k % 3 + 1))} }}")
            else:
                init.append(f"            .{p['name']} = {t.cpp()}{{}}")
        for keep, fn in ((lambda k: True, "full"), (lambda k: k % 2 == 0, "half")):
            ini = [x for k, x in enumerate(init) if keep(k)]
            o += [f"    void {fn}_{s['var']}(dots::type::Struct& x)", "    {", f"        static_cast<{s['name']}&>(x) = {s['name']}{{", ",\n".join(ini), "        };", "    }", ""]
    o += [f"    void add(x26::Registration& r)", "    {"]
    for e in enums:
        o.append(f"        auto {e['var']} = std::make_shared<mdl::EnumT>(mdl::EnumT{{ {q(e['name'])}, {{")
        for it in e["items"]:
            v = it["tag"] - 1 if it["value"] is None else it["value"]
            o.append(f"            {{ {it['tag']}, {q(it['name'])}, {v} }},")
        o.append("        } });")
        o.append(f"        r.enums.push_back({{ {e['var']}, &dots::type::Descriptor<dots::types::{e['name']}>::Instance(), {{")
        for it in e["items"]:
            o.append(f"            static_cast<int32_t>({e['name']}::{it['name']}),")
        o.append("        } });")
    for s in structs:
        o.append(f"        auto {s['var']} = std::make_shared<mdl::StructT>(mdl::StructT{{ {q(s['name'])}, {s['flags']}, {{")
        for p in s["props"]:
            o.append(f"            {{ {q(p['name'])}, {p['tag']}, {'true' if p['key'] else 'false'}, {p['type'].model()} }},")
        o.append("        } });")
        o.append(f"        r.structs.push_back({{ {s['var']}, &{s['name']}::_Descriptor(), access_{s['var']}, set_{s['var']}, full_{s['var']}, half_{s['var']}, x26::typed<{s['name']}>() }});")
    o += ["    }", "", "    const bool g_added = x26::add(add);", "}", ""]
    return "\n".join(o)


def generate(seed, count, out):
    models, units = [], []
    for i in range(count):
        enums, structs, order, r = model(seed, i)
        for name, text in ((f"x26_{i}.dots", dots_text(enums, structs, order, r)), (f"x26_{i}.cpp", cpp_text(i, enums, structs))):
            p = os.path.join(out, name)
            try:
                same = open(p).read() == text
            except OSError:
                same = False
            if not same:
                with open(p, "w") as f:
                    f.write(text)
        models.append(os.path.join(out, f"x26_{i}.dots"))
        units.append(os.path.join(out, f"x26_{i}.cpp"))
    return models, units


if __name__ == "__main__":
    os.makedirs(sys.argv[3], exist_ok=True)
    print(*generate(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3])[0], sep="\n")
