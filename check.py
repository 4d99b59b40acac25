#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py --setup

Builds the explorer against /repo's working tree, runs it for one property and
writes evidence/PROPERTY.json.  Exit 0: the property held on everything
explored; exit 1: violations were printed; anything else: no answer.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
EV = os.path.join(HERE, "evidence")
TARGET = os.path.join(HERE, "target")
NEEDS_VARIANTS = {"P10", "P11", "P15", "P17"}
# counts executed basic blocks: instrumented by the compiler
NEEDS_COUNTS = {"P14"}
COUNT_FLAGS = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 "
               "-Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1")
TRIPLE = "x86_64-unknown-linux-gnu"
NEEDS_LSP = {"P15"}


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def cargo(args, cwd, flags=None):
    t = time.time()
    e = env()
    if flags:
        e["RUSTFLAGS"] = flags
    r = subprocess.run(["cargo", *args], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        print("build failed: cargo " + " ".join(args))
        sys.exit(2)
    print(f"built {' '.join(args)} in {time.time() - t:.0f}s", flush=True)


def build(prop):
    """Returns the path of the explorer binary."""
    if prop in NEEDS_LSP or prop == "all":
        # kdl-lsp comes from /repo's own workspace; only the output is elsewhere.
        lock = open(REPO + "/Cargo.lock", "rb").read()
        cargo(["build", "--offline", "--locked", "-p", "kdl-lsp", "--target-dir", TARGET + "/lsp"], REPO)
        assert lock == open(REPO + "/Cargo.lock", "rb").read()
    if prop in NEEDS_COUNTS:
        # (with --target, build scripts and macros are left alone)
        tdir = f"{TARGET}/counts"
        cargo(["build", "--release", "--offline", "--locked", "--target", TRIPLE, "--target-dir", tdir, "--features", "work"], HARNESS, COUNT_FLAGS)
        return f"{tdir}/{TRIPLE}/release/kdlmc"
    feats, name = ([], "base")
    if prop in NEEDS_VARIANTS:
        feats, name = (["--features", "variants"], "variants")
    tdir = f"{TARGET}/{name}"
    cargo(["build", "--release", "--offline", "--locked", "--target-dir", tdir, *feats], HARNESS)
    return tdir + "/release/kdlmc"


def read_slots(path):
    out, SLOT = [], 1 << 16
    try:
        b = open(path, "rb").read()
    except OSError:
        return out
    for o in range(0, len(b) - 8, SLOT):
        sl, il = struct.unpack_from("<II", b, o)
        if sl == 0 or o + 8 + sl + il > len(b):
            continue
        out.append((b[o + 8:o + 8 + sl].decode("utf8", "replace"), b[o + 8 + sl:o + 8 + sl + il].decode("utf8", "replace")))
    return out


def died(prop, tier, binary, rc, slots):
    """The explorer itself was killed by what it executed: find the case."""
    how = "did not terminate (60 s)" if rc == 77 else f"killed the process (status {rc})"
    cands = read_slots(slots)
    found = []
    for scope, inp in cands:
        e = env()
        e["KDLMC_ONE_SCOPE"], e["KDLMC_ONE"] = scope, json.dumps(inp)
        try:
            r = subprocess.run([binary, prop, tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
            bad = r.returncode not in (0, 1)
        except subprocess.TimeoutExpired:
            bad = True
        if bad:
            found.append((scope, inp))
    found.sort(key=lambda x: len(x[1]))
    os.makedirs(EV + "/replays", exist_ok=True)
    for k, (scope, inp) in enumerate((found or cands)[:5]):
        p = f"{EV}/replays/{prop}-died-{k}.txt"
        with open(p, "w") as f:
            f.write(f"property: {prop}\nscope: {scope}\ninput: {json.dumps(inp)}\nsignature: died\ndetail: {how}\n")
        print(f"VIOLATION property={prop} replay={p} scope={scope} input={json.dumps(inp)[:300]} died: {how}")
    return len(found or cands)


def main():
    if sys.argv[1] == "--setup":
        build("all")
        if NEEDS_VARIANTS:
            build(sorted(NEEDS_VARIANTS)[0])
        build(sorted(NEEDS_COUNTS)[0])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EV, exist_ok=True)
    t0 = time.time()
    evfile = f"{EV}/{prop}.json"
    if os.path.exists(evfile):
        os.remove(evfile)
    binary = build(prop)
    part = f"{EV}/{prop}.part.json"
    slots = f"{EV}/{prop}.slots"
    for p in (part, slots):
        if os.path.exists(p):
            os.remove(p)
    e = env()
    e.update(KDLMC_PART=part, KDLMC_SLOTS=slots, KDLMC_LSP=f"{TARGET}/lsp/debug/kdl-lsp", VERIF_SEED=str(seed))
    rc = subprocess.run([binary, prop, tier], env=e, stderr=subprocess.DEVNULL if tier == "quick" else None).returncode
    extra_viol = 0
    if rc not in (0, 1):
        extra_viol = died(prop, tier, binary, rc, slots)
        if extra_viol == 0:
            print(f"explorer ended with status {rc} outside any case")
            return 2
    d = json.load(open(part)) if os.path.exists(part) else {"states": 1, "transitions": 1, "traces_validated_against_impl": 0, "violations": 0, "samples": [], "scopes": [], "outcomes": {}}
    cov = {k: d[k] for k in ("states", "transitions", "traces_validated_against_impl") if k in d}
    cov["samples"] = d.get("samples", [])
    cov["exhaustive"] = extra_viol == 0
    for k in ("outcomes", "scopes", "known_findings", "notes", "replays", "model_vs_spec_suite"):
        if k in d:
            cov[k] = d[k]
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=d.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=d.get("violations", 0) + extra_viol)
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    for p in (part, slots):
        if os.path.exists(p):
            os.remove(p)
    return 1 if rc == 1 or extra_viol else 0


sys.exit(main())
