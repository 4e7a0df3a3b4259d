"""Builds /repo's library to compiler MIR and exports it (always from the
current working tree).  Nothing of the library is executed."""
import hashlib, json, os, subprocess, sys, fcntl, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOOL = ["rustc", "+nightly"]
RC = ["--edition", "2021", "--cap-lints", "allow", "--crate-type", "lib",
      "--emit=metadata"]
LUTS = ["pow2_div_pow5", "pow5_div_pow2", "pow2_div_pow10", "pow10_div_pow2"]
CONFIGS = {
    "release": ["-C", "debug-assertions=off", "-C", "overflow-checks=off"],
    "debug": ["-C", "debug-assertions=on", "-C", "overflow-checks=on"],
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + r.stdout[-4000:])
    return r.stdout


def sources(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds.sort()
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    out.append(os.path.join(d, f))
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(HERE, "extractor")
    d = digest(sources(os.path.join(src, "src"), os.path.join(src, "Cargo.toml")))
    exe = os.path.join(BUILD, f"mirx-{d}")
    if not os.path.exists(exe):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "xt"))
        run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=src, env=env)
        shutil.copy(os.path.join(BUILD, "xt", "debug", "mirx"), exe + ".tmp")
        os.replace(exe + ".tmp", exe)
    return exe


def extract(config="release"):
    """-> path of the exported MIR for /repo's current source; "values": of the
    compiler's values of its constants and statics"""
    values = config == "values"
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        files = sources(os.path.join(REPO, "src"), os.path.join(HERE, "probe"),
                        os.path.join(HERE, "stubs"))
        d = digest(files + [exe])
        out = os.path.join(BUILD, f"mir-{config}-{d}.json")
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):       # older exports are of no use
            if f.startswith(f"mir-{config}-"):
                os.unlink(os.path.join(BUILD, f))
        lib = os.path.join(BUILD, "lib-" + config)
        shutil.rmtree(lib, ignore_errors=True)
        os.makedirs(lib)
        fl = CONFIGS["release" if values else config]
        ps = [subprocess.Popen(TOOL + RC + ["--crate-name", f"f256_{n}_lut",
              os.path.join(HERE, "stubs", f"f256_{n}_lut.rs"),
              "-Zalways-encode-mir", "--out-dir", lib]) for n in LUTS]
        if any([p.wait() for p in ps]):
            raise BuildError("table stubs do not build")
        ex = []
        for n in LUTS:
            ex += ["--extern", f"f256_{n}_lut={lib}/libf256_{n}_lut.rmeta"]
        crate = ["--crate-name", "f256", os.path.join(REPO, "src/lib.rs"),
                 "--cfg", 'feature="std"', "-Zalways-encode-mir", "-L", lib,
                 "--out-dir", lib] + ex + fl
        sysroot = run(TOOL + ["--print", "sysroot"]).strip()
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", MIRX_OUT=out + ".tmp")
        if values:
            run([exe, "rustc", "--sysroot", sysroot] + RC + crate,
                env=dict(env, MIRX_VALUES="1"))
        else:
            run(TOOL + RC + crate)
            run([exe, "rustc", "--sysroot", sysroot] + RC +
                [os.path.join(HERE, "probe", "probe.rs"), "--extern",
                 f"f256={lib}/libf256.rmeta", "-L", lib, "--out-dir", lib] + fl, env=env)
        os.replace(out + ".tmp", out)
        shutil.rmtree(lib, ignore_errors=True)
        return out


if __name__ == "__main__":
    for c in sys.argv[1:] or ["release"]:
        print(extract(c))
