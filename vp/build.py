"""Builds the analysis front end (a rustc driver and the rmeta of /repo's dependencies) and dumps the
type-checked program of /repo's current working tree.  Nothing of /repo is ever executed."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
LIB = os.path.join(BUILD, "lib")
DRIVER = os.path.join(BUILD, "vpdump")
TOOL = "+nightly"


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", TOOL, "--print", "sysroot"], text=True, env=_env()).strip()


def setup(force=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "stamp")
        h = hashlib.sha256()
        for f in ("driver/src/main.rs", "driver/Cargo.toml", "deps/Cargo.toml", "deps/Cargo.lock", "deps/src/lib.rs"):
            with open(os.path.join(VERIF, f), "rb") as fh:
                h.update(fh.read())
        key = h.hexdigest()
        if not force and os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(DRIVER):
            return
        tgt = os.path.join(BUILD, "target")
        e = _env()
        e["CARGO_TARGET_DIR"] = os.path.join(tgt, "driver")
        r = subprocess.run(["cargo", TOOL, "build", "--offline", "--locked", "--message-format=json"],
                           cwd=os.path.join(VERIF, "driver"), env=e, stdout=subprocess.PIPE, text=True)
        if r.returncode:
            raise SystemExit("driver build failed")
        exe = None
        for l in r.stdout.splitlines():
            j = json.loads(l)
            if j.get("executable"):
                exe = j["executable"]
        shutil.copy2(exe, DRIVER)
        e["CARGO_TARGET_DIR"] = os.path.join(tgt, "deps")
        r = subprocess.run(["cargo", TOOL, "check", "--offline", "--locked", "--message-format=json"],
                           cwd=os.path.join(VERIF, "deps"), env=e, stdout=subprocess.PIPE, text=True)
        if r.returncode:
            raise SystemExit("dependency check failed")
        if os.path.isdir(LIB):
            shutil.rmtree(LIB)
        os.makedirs(LIB)
        ext = {}
        for l in r.stdout.splitlines():
            j = json.loads(l)
            if j.get("reason") != "compiler-artifact":
                continue
            name = j["target"]["name"].replace("-", "_")
            for f in j["filenames"]:
                if f.endswith((".rmeta", ".so")):
                    dst = os.path.join(LIB, os.path.basename(f))
                    shutil.copy2(f, dst)
                    ext[name] = os.path.basename(f)
        with open(os.path.join(BUILD, "externs.json"), "w") as fh:
            json.dump({k: ext[k] for k in ("bitter", "encoding_rs", "fnv", "phf", "serde")}, fh)
        shutil.rmtree(tgt)
        with open(stamp, "w") as fh:
            fh.write(key)


def src_files():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(root, f))
    return out


def src_hash():
    h = hashlib.sha256()
    for f in src_files():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    with open(DRIVER, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def edition():
    import re
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', t, re.M)
    return m.group(1) if m else "2021"


def rustc_args(out_dir):
    ext = json.load(open(os.path.join(BUILD, "externs.json")))
    a = ["--crate-name", "boxcars", "--edition", edition(), os.path.join(REPO, "src/lib.rs"),
         "--crate-type", "lib", "--emit=metadata", "--out-dir", out_dir,
         "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "opt-level=0", "-C", "debuginfo=0",
         "-Zmir-opt-level=0", "--cap-lints", "allow", "-L", "dependency=" + LIB]
    for k, v in ext.items():
        a += ["--extern", "%s=%s" % (k, os.path.join(LIB, v))]
    return a


class BuildError(Exception):
    pass


def dump():
    """Compile /repo's current tree up to MIR and return the path of the dump."""
    setup()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    key = src_hash()
    path = os.path.join(cache, key + ".json")
    if os.path.exists(path):
        return path
    tmp = os.path.join(cache, "tmp.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    e = _env()
    e["VPDUMP_OUT"] = os.path.join(tmp, "dump.json")
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["CARGO_PKG_VERSION"] = "0"
    r = subprocess.run([DRIVER] + rustc_args(tmp) + ["--sysroot", sysroot()], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=REPO)
    if not os.path.exists(e["VPDUMP_OUT"]):
        shutil.rmtree(tmp)
        raise BuildError(r.stdout[-4000:])
    old = sorted(glob.glob(os.path.join(cache, "*.json")), key=os.path.getmtime)
    for f in old[:-8]:
        os.remove(f)
    os.rename(e["VPDUMP_OUT"], path)
    shutil.rmtree(tmp)
    return path


def unsafe_uses():
    """(file:line, message) of every use of unsafe code in /repo's current tree, and the compiler's output"""
    import re, tempfile
    setup()
    e = _env()
    e["CARGO_PKG_VERSION"] = "0"
    d = tempfile.mkdtemp(prefix="vpu")
    try:
        a = rustc_args(d)
        i = a.index("--cap-lints")
        a = a[:i] + a[i + 2:] + ["-A", "warnings", "-F", "unsafe-code"]
        r = subprocess.run(["rustc", TOOL] + a, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return re.findall(r"error: ([^\n]*(?:unsafe|no_mangle|export_name|link_section)[^\n]*)\n\s*--> ([^\n]*)", r.stdout), r


def metadata(out_dir):
    """Type-checks /repo's current tree and returns the path of its metadata."""
    setup()
    e = _env()
    e["CARGO_PKG_VERSION"] = "0"
    r = subprocess.run(["rustc", TOOL] + rustc_args(out_dir), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
    lib = os.path.join(out_dir, "libboxcars.rmeta")
    if r.returncode or not os.path.exists(lib):
        raise BuildError(r.stdout[-4000:])
    return lib


def check_witness(src, lib, out_dir):
    """Type-checks a program against the crate."""
    ext = json.load(open(os.path.join(BUILD, "externs.json")))
    a = ["rustc", TOOL, "--crate-name", "witness", "--edition", "2021", src, "--crate-type", "lib", "--emit=metadata", "--out-dir", out_dir,
         "--cap-lints", "allow", "-L", "dependency=" + LIB, "--extern", "boxcars=" + lib,
         "--extern", "serde=" + os.path.join(LIB, ext["serde"])]
    return subprocess.run(a, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


if __name__ == "__main__":
    t = time.time()
    setup("--force" in sys.argv)
    print("setup", round(time.time() - t, 1))
    t = time.time()
    print(dump(), round(time.time() - t, 1))
