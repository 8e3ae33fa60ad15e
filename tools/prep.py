"""Builds what the checks share: the injector, the replay driver, and rlibs of the two dependencies for Verus."""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GIF_REPO", "/repo")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def cargo(name):
    return subprocess.Popen(["cargo", "build", "--offline", "-q"], cwd=f"{VERIF}/{name}", env=ENV,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def toolchain():
    m = re.search(r"Toolchain:\s*(\S+)", run(["verus", "--version"]).stdout)
    return m.group(1) if m else "1.98.1-x86_64-unknown-linux-gnu"


def locked(name):
    """directory of the version of a dependency that the replay crate is locked to"""
    lock = open(f"{VERIF}/replay/Cargo.lock").read()
    v = re.search(rf'name = "{name}"\nversion = "([^"]+)"', lock).group(1)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    d = glob.glob(f"{home}/registry/src/*/{name}-{v}")
    if not d:
        raise RuntimeError(f"{name} {v} is not in the cargo cache")
    return d[0], v


def rlibs():
    """-> (directory, {crate: version})"""
    tc = toolchain()
    out = f"{VERIF}/target/rlib-{tc}"
    os.makedirs(out, exist_ok=True)
    vers = {}
    for name, flags in (("weezl", ["--edition", "2018", "--cfg", 'feature="std"', "--cfg", 'feature="alloc"']),
                        ("color_quant", ["--edition", "2018"])):
        d, v = locked(name)
        vers[name] = v
        lib = f"{out}/lib{name}.rlib"
        mark = f"{out}/{name}.version"
        if os.path.exists(lib) and os.path.exists(mark) and open(mark).read() == v:
            continue
        tmp = f"{out}/tmp-{os.getpid()}"
        os.makedirs(tmp, exist_ok=True)
        r = run(["rustup", "run", tc, "rustc", "--crate-type", "rlib", "--crate-name", name, "--cap-lints", "allow",
                 "-O", f"{d}/src/lib.rs", "--out-dir", tmp] + flags)
        if r.returncode:
            raise RuntimeError(f"building {name} failed: {r.stderr[-2000:]}")
        os.replace(f"{tmp}/lib{name}.rlib", lib)
        os.rmdir(tmp)
        open(mark, "w").write(v)
    return out, vers


def main():
    ps = [cargo("injector"), cargo("replay")]
    rlibs()
    for p in ps:
        o, _ = p.communicate()
        if p.returncode:
            print(o)
            return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
