#!/usr/bin/env python3
"""Generate a side-car cargo workspace for /repo.

Every member of /repo's workspace is mirrored with its `src` directory linked
straight to the repository (so the analysed text is always the current one) and
with a rewritten manifest: git dependencies between members become path
dependencies, crates that are not available offline become the signature-level
stand-ins of sa/stubs, dev-dependencies / benches / examples are dropped.
"""
import os, sys, tomllib, json

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = {
    "merlin", "sha3", "ark-bw6-761", "ark-crypto-primitives", "spongefish",
    "dyn-clone", "chacha20poly1305", "crypto_kx", "blst",
    "espresso-systems-common", "itertools",
}
PATCHED = ["ark-r1cs-std"]
DROP = {"icicle-bn254", "icicle-core", "icicle-cuda-runtime"}
DROP_FEATURES = {"icicle", "kzg-print-trace"}


def toml_val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_val(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)


def stub_version(name):
    with open(os.path.join(HERE, "stubs", name, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)["package"]["version"]


def generate(repo, out):
    with open(os.path.join(repo, "Cargo.toml"), "rb") as f:
        root = tomllib.load(f)
    members = root["workspace"]["members"]
    wsdeps = root["workspace"]["dependencies"]
    edition = root["workspace"]["package"]["edition"]
    manifests, pkg2dir = {}, {}
    for m in members:
        with open(os.path.join(repo, m, "Cargo.toml"), "rb") as f:
            manifests[m] = tomllib.load(f)
        pkg2dir[manifests[m]["package"]["name"]] = m
    files = {}
    files["Cargo.toml"] = (
        "[workspace]\nmembers = " + toml_val(members + ["witness"]) + '\nresolver = "2"\n\n'
        "[profile.dev]\ndebug = 0\nincremental = false\n\n"
        "[patch.crates-io]\n"
        + "".join(f"{n} = {{ path = {toml_val(os.path.join(HERE, 'stubs', n))} }}\n" for n in PATCHED)
    )
    links = {}
    for m, man in manifests.items():
        deps = {}
        for name, spec in man.get("dependencies", {}).items():
            if name in DROP:
                continue
            if isinstance(spec, str):
                spec = {"version": spec}
            spec = dict(spec)
            if spec.pop("workspace", False):
                base = wsdeps[name]
                base = {"version": base} if isinstance(base, str) else dict(base)
                feats = list(base.get("features", [])) + list(spec.get("features", []))
                base.update(spec)
                if feats:
                    base["features"] = sorted(set(feats))
                spec = base
            pkg = spec.get("package", name)
            for k in ("git", "tag", "rev", "branch"):
                had = spec.pop(k, None)
            if pkg in pkg2dir:
                spec.pop("version", None)
                spec["path"] = "../" + pkg2dir[pkg]
            elif pkg in STUBS:
                spec.pop("version", None)
                spec["path"] = os.path.join(HERE, "stubs", pkg)
            # `dep:` style optional deps keep working
            deps[name] = spec
        feats = {}
        for f, lst in man.get("features", {}).items():
            if f in DROP_FEATURES:
                continue
            keep = []
            for e in lst:
                d = e.split("/")[0].rstrip("?")
                if d.startswith("dep:"):
                    d = d[4:]
                elif "/" not in e and e in man.get("features", {}):
                    d = None
                if d is None or d in deps:
                    keep.append(e)
            feats[f] = keep
        p = man["package"]
        t = "[package]\n"
        t += f"name = {toml_val(p['name'])}\nversion = {toml_val(p['version'])}\n"
        t += f"edition = {toml_val(edition)}\nautobenches = false\nautoexamples = false\nautotests = false\n"
        if "lib" in man:
            t += "\n[lib]\n" + "".join(f"{k} = {toml_val(v)}\n" for k, v in man["lib"].items())
        t += "\n[features]\n" + "".join(f"{toml_val(k)} = {toml_val(v)}\n" for k, v in feats.items())
        t += "\n[dependencies]\n" + "".join(f"{toml_val(k)} = {toml_val(v)}\n" for k, v in deps.items())
        files[f"{m}/Cargo.toml"] = t
        links[f"{m}/src"] = os.path.join(repo, m, "src")
    # a crate of our own that expands the exported macros
    if "jf-utils" in pkg2dir:
        ver = lambda n: toml_val({k: v for k, v in (wsdeps[n] if isinstance(wsdeps[n], dict) else {"version": wsdeps[n]}).items() if k in ("version", "default-features", "features")})
        files["witness/Cargo.toml"] = (
            '[package]\nname = "jf-witness"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n'
            f'jf-utils = {{ path = "../{pkg2dir["jf-utils"]}", default-features = false }}\nark-serialize = {ver("ark-serialize")}\nark-std = {ver("ark-std")}\n')
        links["witness/src"] = os.path.join(HERE, "witness", "src")
    os.makedirs(out, exist_ok=True)
    for rel, text in files.items():
        path = os.path.join(out, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        old = open(path).read() if os.path.exists(path) else None
        if old != text:
            with open(path, "w") as f:
                f.write(text)
    for rel, target in links.items():
        path = os.path.join(out, rel)
        if os.path.islink(path) and os.readlink(path) == target:
            continue
        if os.path.lexists(path):
            os.unlink(path)
        os.symlink(target, path)
    names = {m: man["package"]["name"] for m, man in manifests.items()}
    names["witness"] = "jf-witness"
    return members, names


if __name__ == "__main__":
    print(generate(sys.argv[1], sys.argv[2]))
