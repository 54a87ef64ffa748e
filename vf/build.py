"""Builds the MIR-dump driver and dumps the MIR of the harness (and so of /repo's current source).

Everything is built into a scratch directory made for this run and removed at its end: nothing is
left in /repo, and nothing another run left behind is used.
"""
import atexit, os, shutil, subprocess, tempfile, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
_scratch = None

class BuildError(Exception):
    pass

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-dendron-")
        pid = os.getpid()
        def clean(d=_scratch, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch

def run(cmd, cwd, env=None, check=True):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p

def sysroot(toolchain="+nightly"):
    return run(["rustc", toolchain, "--print", "sysroot"], HERE).stdout.strip()

def driver():
    pre = os.environ.get("VF_DRIVER")          # development only
    if pre and os.path.exists(pre):
        return pre
    t = os.path.join(scratch(), "driver")
    d = os.path.join(scratch(), "driver-src")
    shutil.copytree(os.path.join(HERE, "driver"), d)
    run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", t], d)
    return os.path.join(t, "release", "mirdump")

def crate_copy(name, text_subst=True):
    """A copy of a harness crate in the scratch directory, with its path dependency set to REPO."""
    d = os.path.join(scratch(), name)
    if os.path.exists(d):
        return d
    shutil.copytree(os.path.join(HERE, name), d)
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace('"/repo"', '"%s"' % REPO)
    open(p, "w").write(s)
    return d

def dump(features=()):
    """Dumps the harness' MIR; returns the path of the JSON file."""
    pre = os.environ.get("VF_DUMP")            # development only
    if pre and os.path.exists(pre):
        return pre
    out = os.path.join(scratch(), "mir.json")
    env = {
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "MIRDUMP_STOP": os.path.join(HERE, "driver", "stop.txt"),
        "MIRDUMP_OUT": out,
        "RUSTC_WORKSPACE_WRAPPER": driver(),
        "CARGO_TARGET_DIR": os.path.join(scratch(), "hx"),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
    }
    run(["cargo", "+nightly", "check", "--offline"] + (["--features", ",".join(features)] if features else []), crate_copy("harness"), env)
    if not os.path.exists(out):
        raise BuildError("the driver wrote no dump")
    return out

def rlib():
    """Builds the crate with the stable toolchain, unsafe code forbidden; (path of the rlib, deps dir)."""
    t = os.path.join(scratch(), "rlib")
    d = os.path.join(scratch(), "rlib-src")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "lib.rs"), "w").write("")
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "w"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
        'dendron = { path = "%s" }\n[workspace]\n' % REPO)
    p = run(["cargo", "build", "--offline"], d, {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Awarnings"})
    deps = os.path.join(t, "debug", "deps")
    libs = [f for f in os.listdir(deps) if f.startswith("libdendron-") and f.endswith(".rlib")]
    if len(libs) != 1:
        raise BuildError("expected one libdendron rlib, found %s" % libs)
    return os.path.join(deps, libs[0]), deps
