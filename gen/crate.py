"""Writes harness crates (under /verif/build) and builds/runs them."""
import os, json, subprocess, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")


def env(toolchain="stable"):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


CARGO = """[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
mpstthree = {{ path = "{repo}", features = ["full", "baking_atmp_interleaved", "baking_interleaved", "top_down_nuscr", "transport"] }}
mpst-seq-proc = {{ path = "{repo}/mpst_seq_proc" }}
vmon = {{ path = "{verif}/vmon" }}
either = "1"
crossbeam-channel = "0.5"
petgraph = "0.6"

[profile.dev]
opt-level = {opt}
overflow-checks = true
debug = 0
incremental = false
{bins}
"""


def write_crate(name, bins, opt=0, extra=""):
    """bins: {binname: source text}"""
    d = os.path.join(BUILD, name)
    src = os.path.join(d, "src")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(src)
    b = ""
    for bn, text in bins.items():
        with open(os.path.join(src, bn + ".rs"), "w") as f:
            f.write(text)
        b += f'\n[[bin]]\nname = "{bn}"\npath = "src/{bn}.rs"\n'
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO.format(name=name, repo=REPO, verif=VERIF, bins=b, opt=opt) + extra)
    lock = os.path.join(VERIF, "gen", "Cargo.lock.base")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d


def build(d, toolchain="stable", timeout=800, args=(), extra_env=None):
    """returns (ok, log)"""
    p = subprocess.run(["cargo", "build", "--offline", "--keep-going", *args], cwd=d, env=dict(env(toolchain), **(extra_env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode == 0, p.stdout
