#!/usr/bin/env python3
"""Mutation survey: which small edits of the crate pass its tests and no check notices.

usage: mutate.py OUT.jsonl [--workers N] [--minutes M] [--files a.rs,b.rs] [--seed S]

Works on copies under /tmp/mut only.  Not a check: it looks for holes in the checks.
"""
import json, os, random, re, subprocess, sys, threading, time, queue, argparse
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--minutes", type=float, default=60); ap.add_argument("--files", default="")
ap.add_argument("--set", type=int, default=1); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--only", default="")
A = ap.parse_args()
STABLE = [x.split(".rs::", 1)[1] for x in (lambda j: j.get("stable") or j.get("passed") or j.get("tests"))(json.load(open("/opt/vp/BASELINE.json")))]
CHECKS = {"parse.rs": "C09 C10 C08 C24 C03 C05", "token.rs": "C08 C09 C10 C24", "date.rs": "C13 C23 C02 C08 C21 C11 C01", "time.rs": "C14 C23 C26 C04 C21 C24 C19 C20",
          "timestamp.rs": "C11 C12 C23 C03 C21 C26 C24 C25 C19 C20", "interval.rs": "C15 C16 C17 C27 C05 C10 C25 C26 C24 C18 C19 C20", "serde.rs": "C22 C21",
          "common.rs": "C13 C27 C03 C25 C26 C11 C12 C08 C01 C19 C20"}
FILES = A.files.split(",") if A.files else ["common.rs", "date.rs", "time.rs", "timestamp.rs", "interval.rs", "parse.rs", "token.rs", "serde.rs"]

def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/src/" + f).read().split("\n")
        for n, l in enumerate(lines):
            if re.match(r"\s*mod tests?\b|\s*#\[cfg\(test\)\]", l):
                break
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "///", "*")):
                continue
            code = l.split(" //")[0]
            if re.search(r"\b(TZ|DYNTZ|DTZ|DTZMOD|IgnoreDtf|DOW)\b.*DateToken|DateToken.*\b(TZ|DYNTZ|DTZ|DTZMOD|IgnoreDtf|DOW)\b", l) or re.match(r"fn (fmt)", s):
                continue
            def add(new, kind):
                if new != l:
                    out.append((f, n, l, new, kind))
            for a, bs in ((" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                          (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / "]), (" / ", [" * "]), (" % ", [" / "]),
                          (" += ", [" -= "]), (" -= ", [" += "]), (" |= ", [" &= ", " = "])):
                for m in re.finditer(re.escape(a), code):
                    if a.strip() in "<>" and re.search(r"\b(fn|impl|let [a-z_]+:|struct|enum|where)\b", code) and "if" not in code:
                        continue
                    for b in bs:
                        add(l[:m.start()] + b + l[m.end():], a.strip() + "->" + b.strip())
            for m in re.finditer(r"(?<![\w.\"'])(\d[\d_]*)(?![\w\"'.])", code):
                v = int(m.group(1).replace("_", ""))
                add(l[:m.start()] + str(v + 1) + l[m.end():], "n+1")
                if v > 0:
                    add(l[:m.start()] + str(v - 1) + l[m.end():], "n-1")
            for m in re.finditer(r"\btrue\b", code): add(l[:m.start()] + "false" + l[m.end():], "true->false")
            for m in re.finditer(r"\bfalse\b", code): add(l[:m.start()] + "true" + l[m.end():], "false->true")
            for m in re.finditer(r"(?<=[ (])!(?=[a-zA-Z_(])", code): add(l[:m.start()] + l[m.end():], "drop !")
            for m in re.finditer(r"(?<=[ (\[=])-(?=[a-z_(0-9])", code): add(l[:m.start()] + l[m.end():], "drop -")
            m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{)$", code)
            if m:
                add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false")
                add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true")
            if re.match(r"\s*\*?[a-z_][\w.\[\]]* (=|\+=|-=|\|=|\*=) .*;$", code):
                add(re.match(r"\s*", l).group(0) + "// dropped", "drop stmt")
            if re.match(r"\s*return .*;$", code):
                add(re.match(r"\s*", l).group(0) + "{}", "drop return")
            for a, b in (("TmYear", "TmMonth"), ("Month", "Day"), (".year", ".mon"), ("MIN", "MAX"), (".trunc()", ".round()"), (".round()", ".trunc()"), (".abs()", ""),
                         ("div_euclid", "div"), ("rem_euclid", "rem"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), (".floor()", ".trunc()")):
                if a in code:
                    i = code.index(a)
                    add(l[:i] + b + l[i + len(a):], a + "->" + b)
    return out

FAMILIES = [["hour", "minute", "second"], ["tm.hour", "tm.min", "tm.sec"], ["year", "mon", "day"], ["tm.year", "tm.mon", "tm.mday"], ["month()", "day()"], ["val", "fval"],
            ["MINS_PER_HOUR", "HOURS_PER_DAY"], ["SECS_PER_MINUTE", "SECS_PER_HOUR"], ["USECS_PER_SEC", "USECS_PER_MINUTE", "USECS_PER_HOUR", "USECS_PER_DAY"],
            ["MONTHS_PER_YEAR", "DAYS_PER_MONTH"], ["DateOrder::YMD", "DateOrder::MDY", "DateOrder::DMY"], ["DateStyle::ISO", "DateStyle::XSD", "DateStyle::SQL", "DateStyle::German", "DateStyle::Postgres"],
            ["IntervalStyle::Postgres", "IntervalStyle::PostgresVerbose", "IntervalStyle::SQLStandard", "IntervalStyle::ISO8601"],
            ["TokenType::YEAR", "TokenType::MONTH", "TokenType::DAY", "TokenType::HOUR", "TokenType::MINUTE", "TokenType::SECOND", "TokenType::MILLISECOND", "TokenType::MICROSECOND", "TokenType::DOY", "TokenType::JULIAN", "TokenType::TZ", "TokenType::WEEK"],
            ["TokenField::Number", "TokenField::Date", "TokenField::Time", "TokenField::String", "TokenField::Special", "TokenField::Tz"],
            ["DateUnit::Second", "DateUnit::Minute", "DateUnit::Hour", "DateUnit::Day", "DateUnit::Week", "DateUnit::Month", "DateUnit::Quarter", "DateUnit::Year", "DateUnit::Decade", "DateUnit::Century", "DateUnit::Millennium", "DateUnit::MilliSec", "DateUnit::MicroSec", "DateUnit::Epoch", "DateUnit::JULIAN", "DateUnit::Dow", "DateUnit::IsoDow", "DateUnit::Doy", "DateUnit::IsoYear"],
            ["is_ascii_digit()", "is_ascii_alphanumeric()"], ["is_ascii_alphabetic()", "is_ascii_lowercase()", "is_ascii_alphanumeric()"], ["is_ascii_whitespace()", "is_ascii_control()"],
            ["is_ascii_punctuation()", "is_ascii_graphic()"], ["to_ascii_lowercase()", "to_owned()"], [".min(", ".max("], ["is_some()", "is_none()"], ["is_empty()", "is_ascii()"],
            ["start_century", "is_bc", "is2digits", "have_text_month"], ["break;", "continue;", "{}"], ["i64::MAX", "i64::MIN"], ["i32::MAX", "i32::MIN"], ["tm_mask", "f_mask"]]

def mutants2():
    rnd = random.Random(A.seed)
    out = []
    for f in FILES:
        lines = open("/repo/src/" + f).read().split("\n")
        for n, l in enumerate(lines):
            if re.match(r"\s*mod tests?\b|\s*#\[cfg\(test\)\]", l):
                break
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "///", "*")):
                continue
            code = l.split(" //")[0]
            if re.search(r"\b(TZ|DYNTZ|DTZ|DTZMOD|IgnoreDtf|DOW)\b.*DateToken|DateToken.*\b(TZ|DYNTZ|DTZ|DTZMOD|IgnoreDtf|DOW)\b", l) or re.match(r"fn (fmt)", s):
                continue
            def add(new, kind):
                if new != l:
                    out.append((f, n, l, new, kind))
            for a, b in ((" as i64", " as i32 as i64"), (" as i32", " as i16 as i32"), (" as f64", " as f32 as f64"), (" as usize", " as u8 as usize"), (" as i128", " as i64 as i128"), (" as u64", " as u32 as u64"), (" as u32", " as u16 as u32")):
                for m in re.finditer(re.escape(a) + r"\b", code):
                    add(l[:m.start()] + b + l[m.end():], "narrow" + a)
            for op in ("add", "sub", "mul", "neg", "abs"):
                for m in re.finditer(r"([\w.]+(?:\(\))?)\.checked_%s\(([^()]*(?:\(\))?[^()]*)\)" % op, code):
                    add(l[:m.start()] + f"Some({m.group(1)}.wrapping_{op}({m.group(2)}))" + l[m.end():], "wrapping_" + op)
            for fam in FAMILIES:
                for a in fam:
                    for m in re.finditer(r"(?<![\w.:])" + re.escape(a) + (r"(?!\w)" if a[-1].isalnum() else ""), code) if a[0].isalpha() and "(" not in a else re.finditer(re.escape(a), code):
                        if "fn " in code:
                            continue
                        bs = [b for b in fam if b != a]
                        for b in rnd.sample(bs, min(2, len(bs))):
                            add(l[:m.start()] + b + l[m.end():], a + "~>" + b)
            for m in re.finditer(r"b'(\\?.)'", code):
                c = m.group(1)
                if len(c) == 1 and c.isalnum():
                    add(l[:m.start()] + "b'" + ("q" if c.isalpha() else chr(ord(c) - 1) if c > "0" else "1") + "'" + l[m.end():], "char")
                elif len(c) == 1:
                    add(l[:m.start()] + "b'~'" + l[m.end():], "char")
            for op in (" && ", " || "):
                if op in code:
                    m = re.match(r"(\s*(?:\} else )?(?:if|while) )(?!let )(.*)( \{)$", code)
                    if m and m.group(2).count("(") == m.group(2).count(")"):
                        ps = m.group(2).split(op)
                        for k in range(len(ps)):
                            add(m.group(1) + op.join(ps[:k] + ps[k + 1:]) + m.group(3), "drop operand")
                    elif s.startswith(op.strip()):
                        pass
            if re.match(r"\s*(&&|\|\|) ", code) and code.count("(") == code.count(")"):
                add("", "drop operand")
            if re.match(r"\s*\| \S+( =>.*)?$", code) and "=>" not in code:
                add("", "drop alternative")
            m = re.match(r"(\s*)([^=]+) => (.*)$", code)
            if m and " | " in m.group(2) and " if " not in m.group(2):
                ps = m.group(2).split(" | ")
                for k in range(len(ps)):
                    add(m.group(1) + " | ".join(ps[:k] + ps[k + 1:]) + " => " + m.group(3), "drop alternative")
            if m and code.rstrip().endswith(",") and code.count("(") == code.count(")"):
                add("", "drop arm")
            if re.match(r"\s*[\w.:]+\(.*\)\??;$", code):
                add("", "drop call")
            for m in re.finditer(r"\.len\(\)", code):
                add(l[:m.end()] + " + 1" + l[m.end():], "len+1")
                add(l[:m.start()] + ".len().saturating_sub(1)" + l[m.end():], "len-1")
            if re.match(r"\s*\*?[a-z_][\w.]* (=|\+=|-=|\|=|\*=) .*;$", code) and n + 1 < len(lines) and re.match(r"\s*\*?[a-z_][\w.]* (=|\+=|-=|\|=|\*=) .*;$", lines[n + 1]):
                out.append((f, n, l, lines[n + 1] + "\n" + l, "swap statements"))
            if re.match(r"\s*\*?[a-z_][\w.]* (\+=|-=|\*=) .*;$", code):
                out.append((f, n, l, l + "\n" + l, "twice"))
    return out

q = queue.Queue()
ms = mutants() if A.set == 1 else mutants2()
random.Random(A.seed).shuffle(ms)
if A.only:
    want = [json.loads(x) for x in open(A.only)]
    ms = [(w["file"], w["line"] - 1, w["old"], w["new"], w["kind"]) for w in want]
seen = set()
for o in ([A.out] if os.path.exists(A.out) else []):
    for x in open(o):
        j = json.loads(x); seen.add((j["file"], j["line"] - 1, j["new"]))
for m in ms:
    if (m[0], m[1], m[3]) not in seen:
        q.put(m)
print(len(ms), "mutants,", q.qsize(), "to do", flush=True)
lock = threading.Lock()
end = time.time() + A.minutes * 60
ENV = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", MC_FAILFAST="1", RUSTUP_TOOLCHAIN="stable")

def sh(cmd, timeout, env=ENV):
    p = subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""

def work(k):
    w = f"/tmp/mut/w{k}"
    os.makedirs(w, exist_ok=True)
    sh(f"rsync -a --delete --exclude target /repo/ {w}/repo/ 2>/dev/null || (rm -rf {w}/repo; cp -a /repo {w}/repo); rm -rf {w}/mc; mkdir -p {w}/v; cp -a /verif/mc {w}/mc; rm -rf {w}/mc/target; cp /verif/known_findings.jsonl {w}/v/; sed -i 's#/repo#{w}/repo#' {w}/mc/Cargo.toml; sed -i 's/incremental = false/incremental = true/;s/codegen-units = 8/codegen-units = 32/' {w}/mc/Cargo.toml", 300)
    while time.time() < end:
        try:
            f, n, old, new, kind = q.get_nowait()
        except queue.Empty:
            return
        src = f"{w}/repo/src/{f}"
        text = open("/repo/src/" + f).read()
        ls = text.split("\n")
        ls[n] = new
        if kind == "swap statements":
            del ls[n + 1]
        open(src, "w").write("\n".join(ls))
        r = {"file": f, "line": n + 1, "old": old, "new": new, "kind": kind}
        t0 = time.time()
        rc, o = sh(f"cd {w}/repo && CARGO_TARGET_DIR={w}/tt cargo test --all-features --no-fail-fast --offline --lib -- --test-threads 4 2>/dev/null", 120)
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M))
        if not passed:
            r["res"] = "nobuild" if rc != 124 else "tests"
        elif any(x not in passed for x in STABLE):
            r["res"] = "tests"
        else:
            rc, o = sh(f"cd {w} && CARGO_TARGET_DIR={w}/mt cargo build --release --offline --manifest-path {w}/mc/Cargo.toml", 300)
            if rc:
                r["res"] = "harness-nobuild"
            else:
                r["res"] = "SURVIVED"
                for c in CHECKS[f].split():
                    rc, o = sh(f"{w}/mt/release/mc check {c} --tier quick --verif {w}/v", 700)
                    if rc != 0:
                        r["res"] = f"{c} rc={rc}"
                        break
        r["t"] = round(time.time() - t0, 1)
        open(src, "w").write(text)
        with lock:
            open(A.out, "a").write(json.dumps(r) + "\n")

ts = [threading.Thread(target=work, args=(k,)) for k in range(A.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
