#!/usr/bin/env python3
"""Builds the driver (once) and dumps the type-checked program of /repo's current
working tree.  Output: /verif/.build/dump/*.json, one file per workspace crate."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OMIT = {"unreal_mod_manager", "unreal_mod_integrator", "unreal_cpp_bootstrapper"}


class BuildFailed(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k.startswith("RUSTC") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, e, cwd):
    p = subprocess.run(cmd, env=e, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


def driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "driver")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "-q"], e, os.path.join(VERIF, "driver"))
    if rc:
        raise RuntimeError("driver build failed:\n" + out)
    return os.path.join(B, "driver", "debug", "thirdump")


def layout():
    ws = os.path.join(B, "ws")
    os.makedirs(ws, exist_ok=True)
    text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    for n in OMIT:
        text = re.sub(rf'^\s*"{n}",[ \t]*\n', "", text, flags=re.M)
    text = re.sub(r"^steamy-vdf = .*git.*\n", "", text, flags=re.M)
    p = f"{ws}/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    shutil.copyfile(os.path.join(HERE, "ws.Cargo.lock"), f"{ws}/Cargo.lock")
    want = {d for d in os.listdir(REPO) if not d.startswith(".") and d not in OMIT | {"target"} and os.path.isdir(f"{REPO}/{d}")}
    for n in os.listdir(ws):
        if os.path.islink(f"{ws}/{n}") and (n not in want or os.readlink(f"{ws}/{n}") != f"{REPO}/{n}"):
            os.unlink(f"{ws}/{n}")
    for n in want:
        if not os.path.islink(f"{ws}/{n}"):
            os.symlink(f"{REPO}/{n}", f"{ws}/{n}")
    return ws, text


def extract():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv = driver()
        ws, text = layout()
        members = [os.path.basename(m) for m in re.findall(r'^\s*"([A-Za-z0-9_/.-]+)",\s*$', text, flags=re.M)]
        # drop the fingerprints of the workspace crates: the dump always comes from the current tree
        for m in members:
            for d in glob.glob(f"{B}/target/debug/.fingerprint/{m}-*") + [f"{B}/target/debug/build/{m}"]:
                shutil.rmtree(d, ignore_errors=True)
        dump = os.path.join(B, "dump")
        shutil.rmtree(dump, ignore_errors=True)
        os.makedirs(dump)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(B, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["THIRDUMP_OUT"] = dump
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["CARGO_PROFILE_DEV_DEBUG"] = "0"
        rc, out = run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--features",
                       "unreal_helpers/serde", "--offline"], e, ws)
        if rc:
            raise BuildFailed(out)
        return dump
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    t = time.time()
    try:
        print(extract())
    except BuildFailed as ex:
        print(ex)
        sys.exit(1)
    print("%.1fs" % (time.time() - t))
