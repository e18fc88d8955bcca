#!/usr/bin/env python3
"""Generates, from /repo's current working tree, two cargo workspaces under /verif/build:
   sym/  the crates lifted to symbolic reals (+ lifted harness, symbolic hx)
   nat/  the crates as they are             (+ the same harness, native hx)   -- used for replay
Only files whose content differs are written, so cargo rebuilds incrementally."""
import json, os, re, shutil, subprocess, sys, tomllib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
UNLIFTED = {"derive"}

ENV = dict(os.environ)
ENV.update({
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "CARGO_INCREMENTAL": "1", "RUSTFLAGS": "-Awarnings",
    "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
})
ENV.pop("CARGO_TARGET_DIR", None)


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=800):
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def tv(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {tv(x)}" for k, x in v.items()) + " }"
    raise ValueError(v)


def load(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def crate_dir(name):
    return REPO if name == "simple" else os.path.join(REPO, name)


def deps_of(name, wsdeps):
    """(dependency table, names of path dependencies)"""
    t = load(os.path.join(crate_dir(name), "Cargo.toml"))
    out, paths = {}, []
    for k, v in t.get("dependencies", {}).items():
        if k == "validate":
            continue
        if isinstance(v, str):
            v = {"version": v}
        v = dict(v)
        if v.pop("workspace", False):
            base = wsdeps.get(k, {})
            base = {"version": base} if isinstance(base, str) else dict(base)
            feats = list(base.get("features", [])) + [f for f in v.get("features", []) if f not in base.get("features", [])]
            base.update({x: y for x, y in v.items() if x != "features"})
            if feats:
                base["features"] = feats
            v = base
        if "path" in v:
            real = os.path.realpath(os.path.join(crate_dir(name), v["path"]))
            n = os.path.basename(real)
            v["path"] = "../" + n
            paths.append(n)
        out[k] = v
    return t, out, paths


def closure(roots, wsdeps):
    seen, st = [], list(roots)
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.append(n)
        st += deps_of(n, wsdeps)[2]
    return sorted(seen)


def copy_tree(src, dst, fix=None):
    keep = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        rel = os.path.relpath(root, src)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            keep.add(p)
            d = os.path.join(dst, p)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(os.path.join(root, f), "rb") as h:
                data = h.read()
            if fix:
                data = fix(data)
            try:
                with open(d, "rb") as h:
                    if h.read() == data:
                        continue
            except OSError:
                pass
            with open(d, "wb") as h:
                h.write(data)
    prune(dst, keep)


def prune(dst, keep):
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.relpath(os.path.join(root, f), dst))
            if p not in keep:
                os.remove(os.path.join(root, f))


def build_lift():
    rc, out = run(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "lift"),
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "target-tools")})
    if rc:
        raise BuildError("lift does not build:\n" + out[-3000:])
    return os.path.join(BUILD, "target-tools", "debug", "lift")


def gen(kind, group, roots):
    """kind: sym | nat. One workspace per group, so that a crate a group does not use cannot break it."""
    ws = os.path.join(BUILD, kind + "_" + group)
    root = load(os.path.join(REPO, "Cargo.toml"))
    wsdeps = root.get("workspace", {}).get("dependencies", {})
    names = closure(roots, wsdeps)
    pairs = []
    for n in names:
        t, deps, _ = deps_of(n, wsdeps)
        pk = t["package"]
        lifted = kind == "sym" and n not in UNLIFTED
        if lifted:
            deps["symreal"] = {"path": os.path.join(VERIF, "symreal")}
        s = f'[package]\nname = {tv(pk["name"])}\nversion = {tv(pk.get("version", "0.1.0"))}\nedition = {tv(pk.get("edition", "2021"))}\n'
        if "lib" in t:
            s += "[lib]\n" + "".join(f"{k} = {tv(v)}\n" for k, v in t["lib"].items())
        s += "[dependencies]\n" + "".join(f"{k} = {tv(v)}\n" for k, v in deps.items())
        feats = t.get("features", {})
        s += "[features]\n" + "".join(f"{k} = {tv(v)}\n" for k, v in feats.items())
        write(os.path.join(ws, n, "Cargo.toml"), s)
        src = os.path.join(crate_dir(n), "src")
        if lifted:
            pairs += [src, os.path.join(ws, n, "src")]
        else:
            # quoted casts of the procedural macros
            fix = (lambda d: re.sub(rb"\b(\w+) as (?:crate::)?(?:Float|f64)\b", rb"::symreal::sym_as::<_, crate::Float>(\1)", d)) \
                if kind == "sym" else None
            copy_tree(src, os.path.join(ws, n, "src"), fix)
    # harness
    hsrc = os.path.join(VERIF, "harness", group)
    hx = "hx-sym" if kind == "sym" else "hx-native"
    s = f'[package]\nname = "h_{group}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
    if kind in ("sym", "nat"):
        s += f'hx = {{ path = "{VERIF}/{hx}" }}\n'
    if kind == "sym":
        s += f'symreal = {{ path = "{VERIF}/symreal" }}\n'
    for n in roots:
        s += f'{n} = {{ path = "../{n}" }}\n'
    extra = os.path.join(hsrc, "deps.toml")
    if os.path.exists(extra):
        s += open(extra).read()
    write(os.path.join(ws, "h_" + group, "Cargo.toml"), s)
    if kind == "sym":
        pairs += [os.path.join(hsrc, "src"), os.path.join(ws, "h_" + group, "src")]
    else:
        copy_tree(os.path.join(hsrc, "src"), os.path.join(ws, "h_" + group, "src"))
    s = "[workspace]\nresolver = \"2\"\nmembers = " + tv(names + ["h_" + group]) + "\n"
    s += "[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = true\ndebug-assertions = false\n"
    s += "[profile.dev.package.symreal]\nopt-level = 2\n" if kind == "sym" else ""
    write(os.path.join(ws, "Cargo.toml"), s)
    if not os.path.exists(os.path.join(ws, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    if pairs:
        lift = build_lift()
        # files that disappeared
        for a, b in zip(pairs[::2], pairs[1::2]):
            if os.path.isdir(b):
                keep = {os.path.normpath(os.path.relpath(os.path.join(r, f), a))
                        for r, _, fs in os.walk(a) for f in fs if f.endswith(".rs")}
                prune(b, keep)
        rc, out = run([lift] + pairs, VERIF)
        if rc:
            raise BuildError(out)
        # non-Rust files that sources may include
    return ws, names


def build(kind, group, roots):
    ws, names = gen(kind, group, roots)
    rc, out = run(["cargo", "build", "--offline", "-q", "-p", "h_" + group], ws,
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "target-" + kind)})
    if rc:
        raise BuildError(f"{kind} build of {group} failed:\n" + "\n".join(" ".join(x.split())[:400] for x in out.splitlines())[-6000:])
    return os.path.join(BUILD, "target-" + kind, "debug", "h_" + group), names


if __name__ == "__main__":
    from groups import GROUPS
    for g in sys.argv[2:] or GROUPS:
        try:
            print(build(sys.argv[1], g, GROUPS[g]))
        except BuildError as e:
            print(e)
