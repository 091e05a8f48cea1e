"""Build the MIR dump of /repo's current tree with the driver."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IL_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver", "debug", "ildump")


class DumpError(Exception):
    pass


def _env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTFLAGS",
                        "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR",
                        "CARGO_BUILD_TARGET")}
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=env).strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    return env


def build_driver():
    env = _env()
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q", "--manifest-path",
                        os.path.join(VERIF, "driver", "Cargo.toml"), "--target-dir", os.path.join(BUILD, "driver")],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise DumpError("driver build failed:\n" + r.stderr[-4000:])


def make_dump():
    """Type-check the crate as it is now and return the parsed dump."""
    if not os.path.exists(DRIVER):
        build_driver()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="dump-", dir=BUILD)
    try:
        out = os.path.join(tmp, "dump.json")
        env = _env()
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["ILDUMP_OUT"] = out
        env["ILDUMP_CRATE"] = "il2_iltags"
        env["RUSTFLAGS"] = "-Zmir-opt-level=0 -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "-q", "--manifest-path",
                            os.path.join(REPO, "Cargo.toml"), "--target-dir", os.path.join(tmp, "t")],
                           env=env, capture_output=True, text=True, cwd=tmp)
        if r.returncode or not os.path.exists(out):
            raise DumpError("cargo check of %s failed:\n%s" % (REPO, r.stderr[-4000:]))
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    build_driver()
    if len(sys.argv) > 1:
        d = make_dump()
        with open(sys.argv[1], "w") as f:
            json.dump(d, f)
        print(len(d["fns"]), "functions", len(d["types"]), "types")
