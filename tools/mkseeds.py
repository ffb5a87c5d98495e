#!/usr/bin/env python3
"""Write the planted bugs of tools/seedlist*.py to seeded/<id>/, verifying each in a scratch copy.

usage: mkseeds.py write              write seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}
       mkseeds.py verify [ID...]     in a scratch copy: builds, baseline passes, demo 0 without / nonzero with
       mkseeds.py catch [ID...]      apply to /repo, run the property's check, undo; prints a table
       mkseeds.py matrix [ID...]     the same with every check
       mkseeds.py pcatch|pmatrix N [ID...]  the same on N private copies of /repo and /verif at once, each
                                     bind-mounted in a user namespace of its own, so /repo is left alone
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = r'''#!/bin/bash
# Runs demo.rs against the crate in the current directory.  Exit 0 if the property it shows holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
bellframe = { path = "$repo", default-features = false, features = [@FEATURES@] }
@DEPS@[workspace]
TOML
cd "$dir" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cargo build --offline -q >"$dir/log" 2>&1 || { cat "$dir/log"; exit 2; }
timeout 120 "$dir/target/debug/demo"
'''

def seeds():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seedlist*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.SEEDS
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out

def apply_edits(s, base):
    for f, old, new in s["edits"]:
        p = os.path.join(base, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            raise SystemExit(f"{s['id']}: old text occurs {n} times in {f}")
        open(p, "w").write(t.replace(old, new))

def write(sel):
    tmp = tempfile.mkdtemp(prefix="mkseeds.")
    subprocess.run(["git", "clone", "-q", REPO, tmp + "/r"], check=True)
    for s in seeds():
        if sel and s["id"] not in sel: continue
        apply_edits(s, tmp + "/r")
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True, text=True).stdout
        subprocess.run(["git", "-C", tmp + "/r", "checkout", "-q", "--", "."], check=True)
        d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        sh = DEMO_SH.replace("@FEATURES@", ", ".join('"%s"' % f for f in s.get("features", []))) \
                    .replace("@DEPS@", "".join(x + "\n" for x in s.get("deps", [])))
        open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)

def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e)

def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def verify(sel):
    scratch = "/tmp/mkseeds_verify"
    if os.path.exists(scratch): shutil.rmtree(scratch)
    shutil.copytree(REPO, scratch, symlinks=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=scratch + "/target", RUSTFLAGS="-Awarnings")
    want = None
    rc, out = sh(["cargo", "test", "--offline", "--no-fail-fast"], scratch, env=env)
    base_fail = sorted(set(l.split()[1] for l in out.splitlines() if l.startswith("test ") and l.endswith("FAILED")))
    base_ok = set(l[5:].rsplit(" ...", 1)[0] for l in out.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    print("baseline:", len(base_ok), "ok; failing:", base_fail)
    bad = 0
    for s in seeds():
        if sel and s["id"] not in sel: continue
        d = os.path.join(ROOT, "seeded", s["id"])
        rc0, o0 = sh(["bash", d + "/demo.sh"], scratch, timeout=300)
        rc, o = sh(["git", "-C", scratch, "apply", d + "/patch.diff"])
        assert rc == 0, o
        rc, o = sh(["cargo", "test", "--offline", "--no-fail-fast"], scratch, env=env)
        ok = set(l[5:].rsplit(" ...", 1)[0] for l in o.splitlines() if l.startswith("test ") and l.endswith("... ok"))
        # doctest names carry line numbers, which patches may move: compare by count and unit test names
        import re
        norm = lambda S: sorted(re.sub(r"\(line \d+\)", "", x) for x in S)
        lost = [x for x in norm(base_ok) if norm(ok).count(x) < norm(base_ok).count(x)]
        rc1, o1 = sh(["bash", d + "/demo.sh"], scratch, timeout=300)
        sh(["git", "-C", scratch, "checkout", "-q", "--", "."])
        good = rc0 == 0 and rc1 not in (0, 2) and not lost
        bad += not good
        print(("OK  " if good else "BAD ") + s["id"], f"demo {rc0}->{rc1}", "lost tests: %s" % lost[:5] if lost else "", flush=True)
        if rc0: print(o0[-1500:])
        if rc1 in (0, 2): print(o1[-1500:])
        if not ok: print(o[-1500:])
    shutil.rmtree(scratch)
    return bad

def catch(sel, every):
    allids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
    res = {}
    for s in seeds():
        if sel and s["id"] not in sel: continue
        d = os.path.join(ROOT, "seeded", s["id"])
        rc, o = sh(["git", "-C", REPO, "apply", d + "/patch.diff"]); assert rc == 0, o
        try:
            hits = []
            for pid in (allids if every else [s["property"]]):
                rc, o = sh([ROOT + "/run.sh", pid], ROOT, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
                if rc == 1 and f"VIOLATION property={pid} " in o: hits.append(pid)
                elif rc != 0: hits.append(f"{pid}!rc={rc}")
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        res[s["id"]] = hits
        mp = ROOT + "/tools/matrix.json"
        mx = json.load(open(mp)) if os.path.exists(mp) else {}
        if every or s["id"] not in mx or not hits: mx[s["id"]] = hits
        json.dump(mx, open(mp, "w"), indent=1, sort_keys=True)
        print(("CAUGHT " if s["property"] in hits else "MISSED ") + s["id"], s["property"], "by", " ".join(hits), flush=True)
    return res

def parallel(n, sel, every):
    """Runs catch/matrix in N namespaces; the bugs are dealt out round robin."""
    base = "/tmp/mx"
    if os.path.exists(base): shutil.rmtree(base)
    ids = [s["id"] for s in seeds() if not sel or s["id"] in sel]
    n = min(n, len(ids)); procs = []
    for i in range(n):
        w = f"{base}/w{i}"; os.makedirs(w + "/verif"); os.makedirs(w + "/repo")
        subprocess.run(["cp", "-a", "/verif/.", w + "/verif/"], check=True)
        subprocess.run(f"cd {REPO} && tar cf - --exclude=./target . | tar xf - -C {w}/repo", shell=True, check=True)
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."], check=True)
        mp = w + "/verif/tools/matrix.json"
        if os.path.exists(mp): os.remove(mp)
        cmd = "matrix" if every else "catch"
        inner = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && exec python3 tools/mkseeds.py {cmd} " + " ".join(ids[i::n])
        procs.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", inner]))
    for p in procs: p.wait()
    mp = ROOT + "/tools/matrix.json"
    mx = json.load(open(mp)) if os.path.exists(mp) else {}
    for i in range(n):
        f = f"{base}/w{i}/verif/tools/matrix.json"
        for k, hits in (json.load(open(f)) if os.path.exists(f) else {}).items():
            if every or not hits: mx[k] = hits
            else: mx[k] = sorted(set(mx.get(k, [])) | set(hits))
    json.dump(mx, open(mp, "w"), indent=1, sort_keys=True)
    shutil.rmtree(base)

if __name__ == "__main__":
    cmd, sel = (sys.argv[1] if len(sys.argv) > 1 else ""), sys.argv[2:]
    if cmd == "write": write(sel)
    elif cmd == "verify": sys.exit(1 if verify(sel) else 0)
    elif cmd == "catch": catch(sel, False)
    elif cmd == "matrix": catch(sel, True)
    elif cmd in ("pcatch", "pmatrix"): parallel(int(sel[0]), sel[1:], cmd == "pmatrix")
    else: print(__doc__)
