#!/usr/bin/env python3
"""Mutation testing of the checks: which small changes of /repo/src do no checks see?

usage: mutate.py list [FILE...]         number of mutants per file
       mutate.py run N OUT [FILE...]    run them in N namespaces (private copies of /repo and /verif); OUT gets JSON lines
       mutate.py worker I N OUT FILES   (internal)
Only survivors are interesting: each is either equivalent, outside every property, or a gap.
"""
import json, os, re, shutil, subprocess, sys
CHECKS = {
 "bell.rs": "C26 C25 C02 C18 C20 C28 C35", "stage.rs": "C26 C25 C29 C17 C22 C02 C28 C35",
 "row/accumulator.rs": "C31 C29 C01 C34", "utils.rs": "C05 C07 C09 C20 C21 C10 C15", "call.rs": "C27 C28",
 "parity.rs": "C04", "method_lib/lib_serde.rs": "C22 C28 C23", "method/mod.rs": "C15 C27 C17 C16 C22",
 "method/class.rs": "C16 C17 C22 C23", "method_lib/mod.rs": "C23 C24 C22 C30 C36", "method_lib/parse_cc_lib.rs": "C36", "mask.rs": "C18 C01 C28 C29 C35 C32",
 "block.rs": "C09 C10 C33 C32 C34 C14 C08 C31 C29 C15 C01 C35", "music.rs": "C19 C20 C21 C28",
 "row/owned.rs": "C02 C03 C08 C01 C05 C29 C31 C32 C34", "row/borrowed.rs": "C03 C12 C05 C06 C04 C21 C02 C18 C29 C31 C01 C32 C33 C35",
 "row/same_stage_vec.rs": "C07 C33 C29 C08 C09 C32 C34 C35 C01", "place_not.rs": "C11 C12 C13 C14 C28 C29 C31 C27 C35",
 "row/errors.rs": "C35 C08 C02 C29", }
SUBS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"(?<=[ (])!(?=[a-z(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.\.=", [".."]), (r"(?<=[a-z0-9)])\.\.(?=[a-z0-9(])", ["..="]), (r"\.rev\(\)", [""]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
 (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.first\(", [".last("]), (r"\.last\(", [".first("]), (r"\.next\(\)", [".next_back()"]),
 (r"is_some\b", ["is_none"]), (r"is_none\b", ["is_some"]), (r"\.inv\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\.take\(", [".skip("]),
 (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\bmin\(", ["max("]),
 (r"is_even\(\)", ["is_even() == false"]), (r"\.peek\(\)", [".next()"]), (r"\.sort\(\)", [".reverse()"]), (r"\.to_lowercase\(\)", [".to_uppercase()"]),
 (r"\.trim\(\)", [""]), (r"checked_sub\(", ["checked_add("]), (r"checked_add\(", ["checked_sub("]), (r"checked_mul\(", ["checked_add("]),
 (r"\bSTART\b", ["END"]), (r"\bLEAD\b", ["FRONT"])]
PAIRS = [("start", "end"), ("lhs", "rhs"), ("left", "right"), ("self", "other"), ("self", "rhs"), ("a", "b"), ("b", "c"), ("front", "back"),
 ("lhs_stage", "rhs_stage"), ("first", "last"), ("Included", "Excluded"), ("Some(", "None; ("), ("Less", "Greater"), ("Equal", "Greater"), ("Less", "Equal"),
 ("unwrap_or(true)", "unwrap_or(false)"), ("div", "rem"), ("usize", "u8 as usize"), ("usize", "u16 as usize"), ("usize", "u32 as usize"), ("usize", "i8 as usize"),
 ("checked_add", "wrapping_add"), ("checked_mul", "wrapping_mul"), ("checked_sub", "wrapping_sub"), ("saturating_sub", "wrapping_sub"), ("saturating_add", "wrapping_add"),
 ("saturating_mul", "wrapping_mul"), ("isize", "i8"), ("i", "j"), ("row", "self"), ("permute", "inv"), ("mul", "div"), ("skip_while", "take_while"), ("position", "rposition"),
 ("filter", "skip_while"), ("filter", "take_while"), ("extend", "clone_from"), ("is_empty()", "is_empty() == false"), ("len()", "len().saturating_sub(1)"), ("leftover_row", "first_row"),
 ("stage()", "effective_stage()"), ("index()", "number()"), ("number()", "index()"), ("line", "first_stage"), ("chars()", "chars().rev()"), ("windows(2)", "chunks(2)"),
 ("zip", "chain"), ("to_lowercase", "to_ascii_lowercase"), ("bell_iter", "iter"), ("&=", "="), ("|=", "="), ("&=", "|="), ("dedup()", "len()"), ("sort_unstable()", "len()"),
 ("drain", "splice"), ("trim", "trim_start"), ("trim", "trim_end"), ("lines()", "split('\\n')"), ("truncate", "resize"), ("tuple_windows", "tuples"), ("circular_tuple_windows", "tuple_windows"),
 ("PartialEq", "PartialEq"), ("is_little", "is_differential"), ("is_jump", "is_little")]
NUM = re.compile(r"(?<![\w.\"'])(\d+)(?![\w.\"'])")

def blank(src):
    """Blank out comments, strings and chars (same length)."""
    out = list(src); i = 0; n = len(src)
    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n": out[k] = "\0"
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i); j = n if j < 0 else j; wipe(i, j); i = j
        elif src[i] == '"':
            j = i + 1
            while src[j] != '"': j += 2 if src[j] == "\\" else 1
            wipe(i, j + 1); i = j + 1
        elif src[i] == "'" and (m := re.match(r"'(\\.[^']*|[^'\\])'", src[i:])):
            wipe(i, i + m.end()); i += m.end()
        else: i += 1
    return "".join(out)

def mutants(f):
    src = open("/repo/src/" + f).read(); b = blank(src)
    m = re.search(r"#\[cfg\(test\)\]\s*mod ", b); end = m.start() if m else len(b)
    res = []
    def add(a, z, new):
        if a >= end: return
        line = src.count("\n", 0, a) + 1
        ls = src.rfind("\n", 0, a) + 1; le = src.find("\n", a)
        if re.match(r"\s*(#\[|use |pub use|impl|macro_rules|debug_assert|assert)", src[ls:le]): return
        res.append((f, line, src[ls:le].strip(), src[a:z], new, src[:a] + new + src[z:]))
    if os.environ.get("MUT_OPS") == "new":
        for x, y in PAIRS:
            for p, q in ((x, y), (y, x)):
                pat = (r"(?<!\w)" if p[0].isalnum() else "") + re.escape(p) + (r"(?!\w)" if p[-1].isalnum() else "")
                if p == "usize": pat = r"(?<= as )usize(?!\w)"
                elif " as usize" in p or " == " in p or ";" in p or "saturating_sub(1)" in p or ".rev()" in p: continue
                for m in re.finditer(pat, b): add(m.start(), m.end(), q)
        for m in re.finditer(r'"(\\.|[^"\\\n])*"', src):
            if b[m.start()] == "\0" and not src[src.rfind("\n", 0, m.start()) + 1:m.start()].lstrip().startswith(("//", "#")) and m.end() - m.start() > 2:
                add(m.end() - 1, m.end(), '~"')
        for m in re.finditer(r"(?m)^ *(assert\w*!\([^;]*\);)$", b):
            if m.start(1) < end: res.append((f, src.count("\n", 0, m.start()) + 1, src[m.start(1):m.end(1)], "assert", "", src[:m.start(1)] + src[m.end(1):]))
        for m in re.finditer(r"(?m)^ *([^\n{}]* => [^\n{}]*,)$", b): add(m.start(1), m.end(1), "")
        for m in re.finditer(r"\?;", b): add(m.start(), m.end(), ".ok();")
        return res
    for pat, news in SUBS:
        for m in re.finditer(pat, b):
            for new in news: add(m.start(), m.end(), new)
    for m in NUM.finditer(b):
        v = int(m.group(1)); add(m.start(), m.end(), str(v + 1))
        if v > 0: add(m.start(), m.end(), str(v - 1))
    for m in re.finditer(r"\bif ((?!let)[^{}\n]+) \{", b):
        add(m.start(1), m.end(1), "true"); add(m.start(1), m.end(1), "false")
    for m in re.finditer(r"(?m)^( *)([a-z_*][^\n{}]*;)$", b):
        s = m.group(2)
        if re.match(r"(let|use|pub|return|type|const|mod|extern|continue|break|debug_assert|assert|unreachable|panic)\b", s): continue
        if s.count("(") != s.count(")"): continue
        add(m.start(2), m.end(2), "();")
    for m in re.finditer(r"\((\w+), (\w+)\)", b):
        add(m.start(), m.end(), f"({m.group(2)}, {m.group(1)})")
    return res

def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def worker(i, n, out, files):
    todo = [m for f in files for m in mutants(f)][i::n]
    os.environ.update(VERIF_TIER="quick", VERIF_SEED="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_BUILD_JOBS="3")
    with open(out, "a") as o:
        for f, line, text, old, new, whole in todo:
            path = "/repo/src/" + f; orig = open(path).read()
            open(path, "w").write(whole); how = "SURVIVED"
            try:
                for c in CHECKS[f].split():
                    rc, log = sh(["/verif/run.sh", c], 300)
                    if rc == 2: how = "nobuild"; break
                    if rc != 0: how = c if rc == 1 else f"{c} rc={rc}"; break
            finally: open(path, "w").write(orig)
            subprocess.run("pkill -f '^/verif/harness/target/debug/c[0-9]+' ", shell=True) if "124" in how else None
            o.write(json.dumps({"file": f, "line": line, "text": text, "old": old, "new": new, "how": how}) + "\n"); o.flush()

def run(n, out, files):
    base = "/tmp/mut"
    if os.path.exists(base): shutil.rmtree(base)
    procs = []
    for i in range(n):
        w = f"{base}/w{i}"; os.makedirs(w + "/verif"); os.makedirs(w + "/repo")
        subprocess.run(["cp", "-a", "/verif/.", w + "/verif/"], check=True)
        subprocess.run(f"cd /repo && tar cf - --exclude=./target . | tar xf - -C {w}/repo", shell=True, check=True)
        inner = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && exec nice python3 tools/mutate.py worker {i} {n} {out}.{i} " + " ".join(files)
        procs.append(subprocess.Popen(["unshare", "-Urm", "--pid", "--fork", "--mount-proc", "bash", "-c", inner]))
    for p in procs: p.wait()
    with open(out, "w") as o:
        for i in range(n):
            if os.path.exists(f"{out}.{i}"): o.write(open(f"{out}.{i}").read()); os.remove(f"{out}.{i}")
    shutil.rmtree(base)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["list"]:
        for f in a[1:] or CHECKS: print(f, len(mutants(f)))
    elif a[:1] == ["run"]: run(int(a[1]), a[2], a[3:] or list(CHECKS))
    elif a[:1] == ["worker"]: worker(int(a[1]), int(a[2]), a[3], a[4:])
    else: print(__doc__)
