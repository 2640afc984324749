#!/usr/bin/env python3
"""Mutation survey: small syntactic changes to scratch copies of /repo, checked with copies of the machinery.

    mutate.py ROOT WORKERS OUT [FILE-SUBSTRING] [SHARE]

ROOT gets one folder per worker with copies of /repo and /verif (remove it afterwards). SHARE: take every n-th
mutant. Survivors go to OUT, one JSON line each, to be judged by hand (many change nothing that is observable)."""
import json, os, re, subprocess, sys, shutil, threading, queue, time

LIB = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27"]
CHECKS = {
 "dandy/src/dfa/mod.rs": ["C24","C25","C20","C19","C17","C16","C23","C14","C10","C04","C12","C27"],
 "dandy/src/dfa/eval.rs": ["C10","C12","C20"],
 "dandy/src/dfa/parse.rs": ["C01","C03"],
 "dandy/src/nfa/mod.rs": ["C11","C13","C15","C16","C18","C21","C22","C14","C05","C12","C27"],
 "dandy/src/nfa/eval.rs": ["C11","C12","C13"],
 "dandy/src/nfa/parse.rs": ["C02","C03"],
 "dandy/src/nfa/words.rs": ["C26"],
 "dandy/src/parser/fa.rs": ["C01","C02","C03"],
 "dandy/src/parser/mod.rs": ["C01","C02","C03","C06"],
 "dandy/src/parser/regex.rs": ["C06","C07","C08"],
 "dandy/src/regex/mod.rs": ["C09","C08","C06"],
 "dandy/src/table/mod.rs": ["C04","C05"],
 "dandy/src/util.rs": ["C17","C18","C19","C20","C21","C22"],
 "dandy-draw/src/lib.rs": ["C34","C35","C36"],
 "dandy-draw/src/pos2.rs": ["C34","C35"],
 "dandy-draw/src/canvas.rs": ["C38","C39"],
 "dandy-draw/src/egui.rs": ["C37"],
 "dandy-cli/src/main.rs": ["C28","C29","C30","C31","C32"],
 "dandy-cli/src/automata.rs": ["C28","C29","C30","C31","C32"],
 "dandy-cli/src/equivalence.rs": ["C28","C32"],
 "dandy-cli/src/binary_op.rs": ["C29","C32"],
 "dandy-cli/src/enumerate.rs": ["C30","C32"],
 "dandy-cli/src/test_files.rs": ["C31","C32"],
 "dandy-wasm/src/lib.rs": ["C33"],
}
RULES = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ (?=[\w(])", " - "), (r" - (?=[\w(])", " + "), (r" \* (?=[\w(])", " / "), (r" / (?=[\w(])", " * "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"(?<![\w!=])!(?=[\w(])(?!\[)", ""),
 (r"(?<![\w.\"])0(?![\w.\"])", "1"), (r"(?<![\w.\"])1(?![\w.\"])", "2"), (r"(?<![\w.\"])2(?![\w.\"])", "3"), (r"(?<![\w.])(\d+\.\d+)", None),
 (r"\.rev\(\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bmany1\(", "many0("), (r"\bmany0\(", "many1("), (r"\bspace1\b", "space0"), (r"\bspace0\b", "space1"),
 (r"separated_list1\(", "separated_list0("), (r"separated_list0\(", "separated_list1("), (r"\bunion\(", "intersection("), (r"\.intersection\(", ".difference("), (r"\.difference\(", ".intersection("),
 (r"\bfirst\(", "last("), (r"\blast\(", "first("), (r"\+=", "-="), (r"-=", "+="), (r"\.skip\((\w+)\)", ""), (r"\.unwrap_or\(true", ".unwrap_or(false"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
 (r"\.is_ok\(\)", ".is_err()"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\bself\.(initial_state)\b", "0"), (r"\.trim\(\)", ""), (r"\.sqrt\(\)", ""), (r"\.cos\(\)", ".sin()"), (r"\.sin\(\)", ".cos()"),
 (r"graphemes\(true\)", "graphemes(false)"), (r"\.lines\(\)", ".split('\\n')"), (r"\.pop\(\)", ".first().cloned()"), (r"\.clone\(\)", None),
]
def mutants(repo, sub):
    out = []
    for f in sorted(CHECKS):
        if sub and sub not in f: continue
        if not os.path.exists(f"{repo}/{f}"): continue
        lines = open(f"{repo}/{f}").read().split("\n")
        for i, l in enumerate(lines):
            if l.startswith("#[cfg(test)]") or l.strip().startswith("mod tests"): break
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "debug_assert", "\"", "'")): continue
            code = l.split(" //")[0]
            for pat, rep in RULES:
                for m in re.finditer(pat, code):
                    if rep is None:
                        if not m.groups(): continue
                        new = str(float(m.group(1)) * 1.5 + (0.25 if float(m.group(1)) == 0 else 0))
                    else: new = rep
                    nl = code[:m.start()] + new + code[m.end():]
                    out.append((f, i, l, nl))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "const", "type", "break", "macro")) and ("(" in s or "=" in s):
                ind = l[: len(l) - len(l.lstrip())]
                prev = lines[i-1].strip()
                if prev.endswith((";", "{", "}")): out.append((f, i, l, ind + "/* removed */"))
            m = re.match(r"(\s*(?:\} else )?if )(?!let\b)(.+) \{$", code)
            if m:
                out.append((f, i, l, m.group(1) + "true {")); out.append((f, i, l, m.group(1) + "false {"))
            if re.match(r"\s*\.(filter|skip|take|sort|dedup|chain|rev|retain|flat_map)\(.*\)$", code): out.append((f, i, l, ""))
    return out
def sh(cmd, cwd, t=900, env=None):
    try: return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "", "timeout")
def prepare(root, k):
    w = f"{root}/{k}"
    if os.path.exists(w + "/ready"): return w
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(f"git clone -q /repo {w}/repo && git clone -q /verif {w}/verif", shell=True, check=True)
    subprocess.run(f"cp /repo/Cargo.lock {w}/repo/ 2>/dev/null; rm -rf {w}/verif/seeded; grep -rlF /repo {w}/verif --include=* --exclude-dir=.git | xargs sed -i 's#/repo\\b#{w}/repo#g'", shell=True)
    r = sh("./check setup", w + "/verif", 1800)
    print(k, "setup", r.returncode, r.stdout[-300:], flush=True)
    open(w + "/ready", "w").close()
    return w
def work(root, k, q, out, lock, div):
    w = prepare(root, k)
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: n, (f, i, old, new) = q.get_nowait()
        except queue.Empty: return
        p = f"{w}/repo/{f}"; src = open(p).read(); lines = src.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t = time.time(); verdict = "SURVIVED"
        try:
            for c in CHECKS[f]:
                r = sh(f"./check {c} --cases {div.get(c, 12000)}", w + "/verif", 600, env)
                if r.returncode == 1: verdict = "killed " + c; break
                if r.returncode != 0:
                    verdict = "nobuild" if "cannot build" in r.stdout + r.stderr else f"ERROR {c} {r.returncode} " + (r.stdout + r.stderr)[-200:]
                    break
        finally: open(p, "w").write(src)
        with lock:
            rec = dict(n=n, verdict=verdict, file=f, line=i + 1, old=old.strip(), new=new.strip(), secs=round(time.time() - t))
            out.write(json.dumps(rec, ensure_ascii=False) + "\n"); out.flush()
if __name__ == "__main__":
    root, workers, outp = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    sub = sys.argv[4] if len(sys.argv) > 4 else ""; share = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    ms = mutants("/repo", sub)[::share]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l); done.add((d["file"], d["line"], d["old"], d["new"]))
    q = queue.Queue()
    for n, m in enumerate(ms):
        if (m[0], m[1] + 1, m[2].strip(), m[3].strip()) not in done: q.put((n, m))
    print(len(ms), "mutants", q.qsize(), "to do", flush=True)
    div = {c: 1500 for c in ("C28","C29","C30","C31")}; div.update({"C32": 600, "C33": 4000, "C37": 4000, "C26": 3000, "C24": 6000, "C25": 6000})
    out = open(outp, "a"); lock = threading.Lock()
    ts = [threading.Thread(target=work, args=(root, k, q, out, lock, div)) for k in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
