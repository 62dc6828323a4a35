"""Builds the whole crate in the current directory with demo.rs beside this file, and runs the demo in a scratch directory.
The parser crates are missing here (git submodule), so the stand-ins in stubs/ beside this file take their place (Python's own parser);
so does one for pyo3, whose interpreter has nothing but sys.executable."""
import os, re, shutil, subprocess, sys, tempfile
REPO, HERE = os.getcwd(), os.path.dirname(os.path.abspath(__file__))


def main():
    tmp = tempfile.mkdtemp(prefix="demo-")
    try:
        m = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
        deps = re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", m, re.M | re.S).group(1)
        deps = re.sub(r"^pyo3.*$", 'pyo3 = { path = "ruff/crates/pyo3" }', deps, flags=re.M).replace('path = "ruff/crates/', f'path = "{tmp}/stubs/')
        open(f"{tmp}/Cargo.toml", "w").write('[package]\nname = "rtest"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[[bin]]\nname = "demo"\npath = "demo.rs"\n'
                                             '[profile.dev]\ndebug = 0\n[workspace]\n[features]\nextension-module = []\n[dependencies]\n' + deps)
        shutil.copytree(f"{HERE}/stubs", f"{tmp}/stubs")
        shutil.copytree(f"{REPO}/src", f"{tmp}/src")
        if os.path.exists(f"{tmp}/src/main.rs"):
            os.remove(f"{tmp}/src/main.rs")
        with open(f"{tmp}/src/pyo3.rs", "a", encoding="utf-8") as f:
            f.write("\npub fn demo_main(argv: Vec<String>) { main_cli_with_args(pyo3::Python::vx(), argv); }\npub fn demo_run(args: Option<Vec<String>>) -> i32 { run_tests(pyo3::Python::vx(), args) }\n")
        lib = open(f"{tmp}/src/lib.rs", encoding="utf-8").read()
        open(f"{tmp}/src/lib.rs", "w").write(re.sub(r'#\[cfg\(feature = "extension-module"\)\]\s*\n', "", lib) + "\npub use crate::pyo3::{demo_main, demo_run};\n")
        shutil.copy(f"{REPO}/Cargo.lock", f"{tmp}/Cargo.lock")
        shutil.copy(f"{HERE}/demo.rs", f"{tmp}/demo.rs")
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{tmp}/target", RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", "demo"], cwd=tmp, env=env)
        if r.returncode:
            print("the demo does not build")
            return 3
        os.makedirs(f"{tmp}/scratch")
        return subprocess.run([f"{tmp}/target/debug/demo"], cwd=f"{tmp}/scratch", timeout=120).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
