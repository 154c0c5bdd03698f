"""Whole-crate facts and compile-fail witnesses: what client programs can be written at all."""
import glob
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import build

WITNESS = os.path.join(build.VERIF, "witness", "programs.rs")


def result(entry):
    return {"config": "types", "entry": entry, "part": "", "violations": [], "unsupported": [], "obligations": {},
            "stats": {}, "functions": [], "facts": []}


def viol(r, rule, msg, where=()):
    r["violations"].append({"entry": r["entry"], "rule": rule, "message": msg, "where": list(where)})


def built(ctx, facts):
    """type-checks the crate (with unsafe code forbidden) and returns the path of its metadata"""
    if "rmeta" in ctx:
        return ctx["rmeta"]
    tmp = ctx["tmp"]
    env = build.base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target-types")
    env["CARGO_INCREMENTAL"] = "0"
    env["LD_LIBRARY_PATH"] = build.sysroot() + "/lib"
    env["RUSTC_WRAPPER"] = ctx["exe"]
    env["MIRDUMP_CRATE"] = "treena"
    env["MIRDUMP_FACTS"] = facts
    env["RUSTFLAGS"] = "-Funsafe_code -Awarnings --cap-lints=forbid"
    h = os.path.join(tmp, "types")
    os.makedirs(os.path.join(h, "src"), exist_ok=True)
    open(os.path.join(h, "Cargo.toml"), "w").write(
        '[package]\nname = "vptypes"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
        '[dependencies]\ntreena = { path = "%s" }\n' % build.REPO)
    open(os.path.join(h, "src", "lib.rs"), "w").write("")
    rc, o = build.run(["cargo", "check", "-q", "--offline"], env, h)
    ctx["check_out"] = o
    if rc:
        return None
    m = glob.glob(os.path.join(tmp, "target-types", "**", "libtreena-*.rmeta"), recursive=True)
    if len(m) != 1 or not os.path.exists(facts):
        raise build.BuildError("no metadata of treena: " + o[-2000:])
    ctx["rmeta"] = m[0]
    return m[0]


def facts(ctx):
    """rules over the facts the compiler reports about the crate"""
    r = result("crate facts")
    path = os.path.join(ctx["tmp"], "facts.json")
    m = built(ctx, path)
    if m is None:
        errs = re.findall(r"error[^\n]*unsafe[^\n]*\n\s*--> ([^\n]*)", ctx["check_out"])
        if errs:
            viol(r, "unsafe", "unsafe code, so that the borrow rules no longer decide what reading can do", errs)
            return r
        raise build.BuildError("treena does not check: " + ctx["check_out"][-3000:])
    ob = r["obligations"]

    def count(k):
        ob[k] = ob.get(k, 0) + 1
    count("the crate has no unsafe code")
    crate = None
    for line in open(path):
        f = json.loads(line)
        k = f["fact"]
        if k == "crate":
            crate = f
        elif k == "type":
            if not f["exported"]:
                continue        # what an exported type holds is found through that type
            if f["cells"]:
                viol(r, "interior", "`%s` holds %s: a shared reference to it can change it" % (f["path"], f["cells"][0]), [f["span"]])
            if f["raw_pointer"]:
                viol(r, "interior", "`%s` holds a raw pointer" % f["path"], [f["span"]])
            count("no type of the crate can change behind a shared reference")
        elif k == "static":
            if f["mutable"] or f["cells"]:
                viol(r, "interior", "the static `%s` can change" % f["path"], [f["span"]])
            count("no static can change")
        elif k == "id_field":
            if f["public"]:
                viol(r, "forge", "the field `%s` of the id type `%s` is public" % (f["field"], f["type"]), [f["span"]])
            count("fields of id types are private")
        elif k == "fn":
            if f["gives_id"] and f["free_inputs"]:
                viol(r, "forge", "`%s` gives outsiders an id out of nothing but freely made values" % f["path"], [f["span"]])
            if f["unsafe"]:
                viol(r, "unsafe", "`%s` is an unsafe function" % f["path"], [f["span"]])
            count("no function outsiders can call makes an id from freely made values")
    if not crate or not crate["id_trait"] or not crate["id_types"]:
        r["unsupported"].append("the trait of internal ids was not found")
    r["facts"] = ["%s: %d" % kv for kv in sorted(ob.items())]
    return r


def sections():
    out, cur = [], None
    for line in open(WITNESS):
        m = re.match(r"//# (\w+)", line)
        if m:
            cur = [m.group(1), []]
            out.append(cur)
        elif cur is not None:
            cur[1].append(line.rstrip("\n"))
    pre = out[0][1]
    return pre, out[1:]


def compile_one(ctx, name, text):
    d = os.path.join(ctx["tmp"], "w")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + ".rs")
    open(src, "w").write("\n".join(text) + "\n")
    env = build.base_env()
    p = subprocess.run(["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-Awarnings",
                        "--crate-name", "w_" + name, "-o", os.path.join(d, "lib" + name + ".rmeta"),
                        "--extern", "treena=" + ctx["rmeta"], "-L", os.path.dirname(ctx["rmeta"]), src],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for line in p.stderr.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("level") == "error" and e.get("spans"):
            errs.append(((e.get("code") or {}).get("code"), [s["line_start"] for s in e["spans"] if s["is_primary"]], e["message"]))
    return p.returncode, errs


def witnesses(ctx):
    r = result("client programs")
    if built(ctx, os.path.join(ctx["tmp"], "facts.json")) is None:
        raise build.BuildError("treena does not check: " + ctx["check_out"][-3000:])
    pre, secs = sections()
    jobs = []
    for name, body in secs:
        text = pre + body
        marks = [(i + 1, re.search(r"//~ (.*)$", l).group(1).split()) for i, l in enumerate(text) if "//~" in l]
        bad = [m[0] for m in marks]
        jobs.append((name, text, marks))
        if marks:
            jobs.append((name + "_twin", [l if i + 1 not in bad else "" for i, l in enumerate(text)], []))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda j: compile_one(ctx, j[0], j[1]), jobs))
    res = {j[0]: (j, o) for j, o in zip(jobs, outs)}
    for name, ((_, text, marks), (rc, errs)) in res.items():
        if name.endswith("_twin"):
            continue
        twin = res.get(name + "_twin")
        if not marks:
            if rc:
                viol(r, "witness", "the program `%s`, which only reads or shares, does not compile: %s" % (name, errs[:1]))
            else:
                ob = r["obligations"]
                ob["reading programs compile"] = ob.get("reading programs compile", 0) + 1
            continue
        if twin[1][0]:
            r["unsupported"].append("the legitimate twin of `%s` does not compile: %s" % (name, twin[1][1][:1]))
            continue
        if rc == 0:
            viol(r, "witness", "the program `%s` compiles: `%s` is accepted" % (name, text[marks[0][0] - 1].split("//~")[0].strip()))
            continue
        codes = {c for c, lines, m in errs if c}
        if not codes or not codes <= set(marks[0][1]) or not any(marks[0][0] in l for c, l, m in errs if c):
            r["unsupported"].append("`%s` is rejected for another reason: %s" % (name, errs[:2]))
            continue
        ob = r["obligations"]
        k = "misusing programs are rejected, their legitimate twins compile"
        ob[k] = ob.get(k, 0) + 1
    r["facts"] = ["%d client programs compiled" % len(jobs)]
    return r
