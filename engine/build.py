"""Builds the MIR dumper and dumps the monomorphic MIR of the analysis harness together
with everything it reaches in /repo's current working tree and in std."""
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def sysroot():
    rc, out = run(["rustc", "--print", "sysroot"], base_env())
    if rc:
        raise BuildError(out)
    return out.strip()


def driver():
    d = os.path.join(VERIF, "mirdump")
    rc, out = run(["cargo", "build", "-q", "--offline"], base_env(), d)
    exe = os.path.join(d, "target", "debug", "mirdump")
    if rc or not os.path.exists(exe):
        raise BuildError("mirdump does not build:\n" + out)
    return exe


def scratch():
    return tempfile.mkdtemp(prefix="vp-treena-")


def rm_scratch(d):
    if d.startswith(tempfile.gettempdir()) and "vp-treena-" in d:
        shutil.rmtree(d, ignore_errors=True)


def dump(exe, tmp, name="debug", release=False, cfgs=(), crate_dir=None, crate="vpharness"):
    """returns the path of the dump"""
    out = os.path.join(tmp, name + ".json")
    tgt = os.path.join(tmp, "target-" + name)
    # a private copy of the harness, so that nothing is written next to it
    src = crate_dir or os.path.join(VERIF, "harness")
    h = os.path.join(tmp, "harness-" + name)
    os.makedirs(h)
    shutil.copytree(os.path.join(src, "src"), os.path.join(h, "src"))
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(src, f)):
            t = open(os.path.join(src, f)).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(os.path.join(h, f), "w").write(t)
    env = base_env()
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["MIRDUMP_CRATE"] = crate
    env["MIRDUMP_OUT"] = out
    env["MIRDUMP_REDIRECT"] = os.path.join(VERIF, "mirdump", "redirect.txt")
    env["MIRDUMP_OPAQUE"] = os.path.join(VERIF, "mirdump", "opaque.txt")
    env["RUSTC_WRAPPER"] = exe
    env["CARGO_TARGET_DIR"] = tgt
    env["CARGO_INCREMENTAL"] = "0"
    flags = "-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Awarnings"
    for c in cfgs:
        flags += " --cfg " + c
    if release:
        flags += " -Cdebug-assertions=off -Coverflow-checks=on"
    env["RUSTFLAGS"] = flags
    rc, o = run(["cargo", "build", "-q", "--offline"], env, h)
    shutil.rmtree(tgt, ignore_errors=True)
    if rc or not os.path.exists(out):
        raise BuildError("the harness does not build against %s:\n%s" % (REPO, o[-4000:]))
    return out
