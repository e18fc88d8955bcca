"""Kani (CBMC) harnesses: harness/<group>/src/main.rs has #[kani::proof] functions over the crate as it is in /repo,
and a native main that replays a counterexample (NAME FILE)."""
import os, re, subprocess, time, signal
import build as B


def playback(text):
    """concrete values of the first counterexample: list of byte lists"""
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*\n\s*kani::", text, re.S)
    if not m:
        return None
    return [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d, ]*)\]", m[1])]


def one(ws, group, h, limit, unwind=None):
    cmd = ["cargo", "kani", "-p", "h_" + group, "--harness", h, "--exact", "--concrete-playback=print", "-Z", "concrete-playback"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    env = dict(B.ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(B.BUILD, "target-kani")
    env.pop("RUSTUP_TOOLCHAIN", None)
    t = time.time()
    p = subprocess.Popen(cmd, cwd=ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "timeout", out, time.time() - t
    if "VERIFICATION:- SUCCESSFUL" in out:
        return "ok", out, time.time() - t
    if "VERIFICATION:- FAILED" in out:
        failed = re.findall(r"Failed Checks: (.*)", out)
        if failed and all("unwinding" in f or "recursion" in f for f in failed):
            return "unwind", out, time.time() - t
        return "failed", out, time.time() - t
    return "error", out, time.time() - t


def run(pid, tier, group, crates, harnesses, t0):
    viols, inconc, cov = [], [], []
    try:
        ws, _ = B.gen("kani", group, crates)
    except B.BuildError as e:
        return [], [f"kani workspace: {e}"], []
    for h in harnesses:
        limit = max(30, min(240, 780 - (time.time() - t0))) if tier == "quick" else 1800
        st, out, dt = one(ws, group, h, limit)
        n = re.search(r"\*\* (\d+) of (\d+) failed", out)
        rec = {"harness": h, "verdict": st, "checks": int(n[2]) if n else 0, "seconds": round(dt, 1),
               "bound": "every valid date (f64 hour, bit-precise), loops and recursion unwound 15 times with unwinding assertions"}
        cov.append(rec)
        if st == "ok":
            continue
        if st == "failed":
            vals = playback(out)
            got = None
            if vals is not None:
                try:
                    ws2, _ = B.gen("knat", group, crates)
                    rc, o = B.run(["cargo", "build", "--offline", "-q", "-p", "h_" + group], ws2,
                                  {"CARGO_TARGET_DIR": os.path.join(B.BUILD, "target-knat")})
                    f = os.path.join(B.BUILD, "out", f"{h}.vals")
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "w") as w:
                        w.write("\n".join(" ".join(map(str, v)) for v in vals) + "\n")
                    p = subprocess.run([os.path.join(B.BUILD, "target-knat", "debug", "h_" + group), h, f],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
                    bad = [l[7:] for l in p.stdout.splitlines() if l.startswith("FAILED ")]
                    if bad:
                        got = {"case": h, "failed": bad, "model": {"bytes": vals}, "choices": {}, "how": "Kani counterexample replayed natively"}
                except (B.BuildError, subprocess.TimeoutExpired) as e:
                    inconc.append(str(e)[:300])
            if got:
                viols.append(got)
            else:
                inconc.append(f"{h}: Kani reports {re.findall('Failed Checks: (.*)', out)[:3]} but it did not replay natively")
        else:
            # the real-arithmetic cases of this property still decide it within their own bounds
            print(f"NOTE {h}: Kani gave no verdict ({st}) within its bounds; {out[-200:] if st == 'error' else ''}")
    return viols, inconc, cov
