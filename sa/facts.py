"""Builds the analysis driver and dumps MIR facts for /repo's current sources.

Everything lives in /verif/.work and is rebuilt on demand; facts are keyed by a
hash over the sources that were read, so an edited tree is always re-analysed."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

SA = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SA)
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.environ.get("SA_WORK", os.path.join(VERIF, ".work"))
sys.path.insert(0, SA)
import mkws

GADGETS = ["jf-rescue/gadgets", "jf-merkle-tree/gadgets", "jf-elgamal/gadgets", "jf-signature/gadgets", "jf-signature/schnorr", "jf-signature/bls",
           "jf-signature/bls12-381", "jf-pcs/test-srs", "jf-plonk/test-srs"]
STD = [f"jf-{c}/std" for c in ("aead", "elgamal", "merkle-tree", "pcs", "plonk", "relation", "rescue", "signature", "utils", "vrf", "prf")]
CONFIGS = {
    "par": ["--features", ",".join(GADGETS + STD)],
    "seq": ["--no-default-features", "--features", ",".join(GADGETS + STD + ["jf-poseidon2/bls12-381", "jf-poseidon2/bn254"])],
}


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def sha(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in (".git", "target", "node_modules")]
        out += [os.path.join(d, f) for f in fs if os.path.splitext(f)[1] in exts]
    return out


def sources():
    return tree(REPO, {".rs", ".toml"})


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(SA, "driver", "main.rs")
    tag = sha([src], sysroot().encode())
    out = os.path.join(WORK, "driver-" + tag)
    if not os.path.exists(out):
        tmp = out + ".tmp"
        r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("driver does not build:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out, tag


class FactsError(Exception):
    pass


def ensure(config="par"):
    """-> (facts dir, meta). meta['failed'] lists packages that do not type-check"""
    with Lock():
        return _ensure(config, False)


def _ensure(config, retry):
    drv, dtag = driver()
    own = tree(os.path.join(SA, "stubs"), {".rs", ".toml"}) + tree(os.path.join(SA, "witness"), {".rs"}) + [os.path.join(SA, "mkws.py"), os.path.join(SA, "facts.py")]
    key = sha(sources() + own, (dtag + config).encode())
    fd = os.path.join(WORK, "facts", f"{config}-{key}")
    meta = os.path.join(fd, "meta.json")
    if os.path.exists(meta):
        with open(meta) as f:
            return fd, json.load(f)
    t0 = time.time()
    ws = os.path.join(WORK, "ws")
    members, names = mkws.generate(REPO, ws)
    target = os.path.join(WORK, "t-" + config)
    # the wrapper only runs on crates cargo considers stale
    for pat in (".fingerprint/jf-*", "build/jf-*", "incremental"):
        for p in glob.glob(os.path.join(target, "debug", pat)):
            shutil.rmtree(p, ignore_errors=True)
    tmp = fd + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env = dict(os.environ, SA_FACTS_DIR=tmp, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=target, LD_LIBRARY_PATH=sysroot() + "/lib",
               CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+nightly", "check", "--offline", "--workspace", "--keep-going", "--message-format=json"] + CONFIGS[config]
    r = subprocess.run(cmd, cwd=ws, env=env, capture_output=True, text=True)
    done, errs = set(), {}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            done.add(m["target"]["name"].replace("-", "_"))
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            c = m["target"]["name"].replace("-", "_")
            errs.setdefault(c, []).append(m["message"]["rendered"][:600])
    have = {os.path.basename(p)[:-5] for p in glob.glob(os.path.join(tmp, "jf_*.json"))}
    want = {n.replace("-", "_") for n in names.values() if n.startswith("jf-")}
    if not have and r.returncode:
        raise FactsError("no crate could be analysed:\n" + r.stderr[-3000:])
    failed = sorted(want - (have & done)) if r.returncode else []
    if not r.returncode and want - have:
        # cargo considered some member fresh: start over with an empty target directory
        shutil.rmtree(target, ignore_errors=True)
        if retry:
            raise RuntimeError(f"crates were not analysed: {sorted(want - have)}")
        redo = True
    else:
        redo = False
    if redo:
        shutil.rmtree(tmp, ignore_errors=True)
        return _ensure(config, True)
    for c in failed:
        p = os.path.join(tmp, c + ".json")
        if os.path.exists(p):
            os.remove(p)
    # old fact sets are not needed any more
    os.makedirs(os.path.dirname(fd), exist_ok=True)
    info = {"config": config, "key": key, "crates": sorted(have - set(failed)), "failed": failed, "errors": {c: e[:3] for c, e in errs.items()},
            "stderr": r.stderr[-2000:] if failed else "", "files": len(sources()), "seconds": round(time.time() - t0, 1), "rc": r.returncode}
    with open(os.path.join(tmp, "meta.json"), "w") as f:
        json.dump(info, f)
    shutil.rmtree(fd, ignore_errors=True)
    os.rename(tmp, fd)
    olds = sorted(glob.glob(os.path.join(WORK, "facts", config + "-*")), key=os.path.getmtime)
    for o in olds[:-4]:
        if o != fd:
            shutil.rmtree(o, ignore_errors=True)
    return fd, info


if __name__ == "__main__":
    for c in sys.argv[1:] or ["par"]:
        print(ensure(c))
