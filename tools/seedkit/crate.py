"""Builds the parts of the crate in the current directory that need no ruff together with demo.rs beside this file, and runs the demo in a scratch directory."""
import os, re, shutil, subprocess, sys, tempfile
REPO, HERE = os.getcwd(), os.path.dirname(os.path.abspath(__file__))
LEFT_OUT = {"collection_integration", "collection::nodes", "python_discovery::cases", "python_discovery::constant_resolver", "python_discovery::discovery",
            "python_discovery::module_resolver", "python_discovery::semantic_analyzer", "python_discovery::visitor"}


def read(p):
    return open(p, encoding="utf-8").read()


def module(path, directory, prefix=""):
    text = re.sub(r"^pub use (\w+)\b[^;]*;", lambda m: "" if prefix + m[1] in LEFT_OUT else m[0], read(path), flags=re.M)

    def mod(m):
        vis, name = m[1] or "", m[2]
        if prefix + name in LEFT_OUT:
            return ""
        inner = f"{directory}/{name}"
        if os.path.exists(f"{inner}/mod.rs"):
            if any(x.startswith(f"{prefix}{name}::") for x in LEFT_OUT):
                return f"{vis}mod {name} {{\n{module(f'{inner}/mod.rs', inner, f'{prefix}{name}::')}\n}}"
            return f'#[path = "{inner}/mod.rs"]\n{vis}mod {name};'
        return f'#[path = "{inner}.rs"]\n{vis}mod {name};'
    return re.sub(r"^(pub(?:\([^)]*\))? )?mod (\w+);", mod, text, flags=re.M)


def main():
    tmp = tempfile.mkdtemp(prefix="demo-")
    try:
        m = re.sub(r"^ruff_\w+ = .*\n", "", read(f"{REPO}/Cargo.toml"), flags=re.M)
        m = m.replace("[lib]\n", '[lib]\npath = "lib.rs"\n', 1).replace('["cdylib", "rlib"]', '["rlib"]')
        open(f"{tmp}/Cargo.toml", "w").write(m + '\n[[bin]]\nname = "demo"\npath = "demo.rs"\n[profile.dev]\ndebug = 0\n[workspace]\n')
        open(f"{tmp}/lib.rs", "w").write("#![allow(warnings)]\n" + module(f"{REPO}/src/lib.rs", f"{REPO}/src"))
        shutil.copy(f"{REPO}/Cargo.lock", f"{tmp}/Cargo.lock")
        shutil.copy(f"{HERE}/demo.rs", f"{tmp}/demo.rs")
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.environ.get("DEMO_TARGET", f"{tmp}/target"), RUSTC_WRAPPER="")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", "demo"], cwd=tmp, env=env)
        if r.returncode:
            print("the demo does not build")
            return 3
        os.makedirs(f"{tmp}/scratch")
        return subprocess.run([env["CARGO_TARGET_DIR"] + "/debug/demo"], cwd=f"{tmp}/scratch", timeout=120).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
