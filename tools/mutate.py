#!/usr/bin/env python3
"""Mutation analysis: small systematic changes of /repo's sources; of those that compile and pass the
existing tests, the ones no property detects are printed.

usage: mutate.py PART PARTS OUT   (inside tools/private.sh, with its own copy of /repo and /verif)
Never used by any registered check.
"""
import os, random, re, shutil, subprocess, sys

part, parts, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ET = os.environ.get("MUT_TARGET", "/tmp/et%d" % part)
REPO = "/repo"
FILES = ["ilint/mod.rs", "io/mod.rs", "io/array/mod.rs", "io/data/mod.rs", "io/std_io/mod.rs", "tags/mod.rs",
         "tags/payload/mod.rs", "tags/raw/mod.rs", "tags/serialization/mod.rs", "tags/macros.rs",
         "tags/standard/explicit/mod.rs", "tags/standard/factory/mod.rs", "tags/standard/implicit/mod.rs",
         "tags/standard/constants.rs", "tags/util/mod.rs"]
ORDER = {
    "ilint/mod.rs": "C01 C02 C03", "io/mod.rs": "C19 C20 C32", "io/array/mod.rs": "C17 C18", "io/data/mod.rs": "C04 C29 C21",
    "io/std_io/mod.rs": "C20 C21 C29 C32", "tags/mod.rs": "C05 C13 C25 C24 C06 C29", "tags/payload/mod.rs": "C22",
    "tags/raw/mod.rs": "C16 C27 C29", "tags/serialization/mod.rs": "C04 C02 C29", "tags/macros.rs": "C05 C07 C24",
    "tags/standard/explicit/mod.rs": "C05 C08 C12 C28 C24 C14 C06 C10 C11 C29 C31",
    "tags/standard/factory/mod.rs": "C08 C10 C13 C29", "tags/standard/implicit/mod.rs": "C05 C08 C24",
    "tags/standard/constants.rs": "C05", "tags/util/mod.rs": "C15 C25",
}
ALL = ["C%02d" % i for i in range(1, 33)]

def all_mutants():
    res = []
    for f in FILES:
        p = os.path.join(REPO, "src", f)
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            if i < 31: continue
            for m, tag in raw(l):
                if m != l:
                    res.append((f, i, m, tag))
    return res

def raw(line):
    s = line.strip()
    if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "trait", "pub trait", "pub struct", "macro_rules", "where", "fn ", "pub fn")):
        return
    rules = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
             (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" && ", " || "), (r" \|\| ", " && "),
             (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![a-z])!(?=[a-z])", ""),
             (r"\b\d+\b", lambda m: str(int(m.group(0)) + 1)), (r"\b0x[0-9A-Fa-f_]+\b", lambda m: "(%s + 1)" % m.group(0)),
             (r"from_be_bytes", "from_le_bytes"), (r"to_be_bytes", "to_le_bytes"), (r"checked_add", "overflowing_add"),
             (r"saturating_sub", "wrapping_sub"), (r"std::cmp::min\(", "std::cmp::max("), (r"\bmin\(", "std::cmp::max("),
             (r"is_ok\(\)", "is_err()"), (r"\.\.=", ".."),
             (r"Some\((.*)\) =>", r"Some(\1) if false =>"), (r"sort_unstable\(\)", "len()"), (r"\.checked_add\((\w+)\)", r".checked_add(\1 + 1)")]
    kinds = {"CorruptedData": "UnexpectedTagType", "TagTooLarge": "CorruptedData", "UnknownTag": "CorruptedData",
             "UnexpectedTagType": "UnknownTag", "EndOfData": "UnableToReadData", "UnableToReadData": "EndOfData",
             "UnableToWriteData": "UnableToReadData", "UnableToSerialize": "CorruptedData"}
    for k, v in kinds.items():
        rules.append((r"ErrorKind::%s\b" % k, "ErrorKind::" + v))
    for pat, rep in rules:
        for m in re.finditer(pat, line):
            r = rep(m) if callable(rep) else m.expand(rep)
            yield line[:m.start()] + r + line[m.end():], pat
    ind = line[:len(line) - len(line.lstrip())]
    if s.endswith(";") and not s.startswith(("let ", "const ", "pub const", "static", "return", "type ", "pub ", "}")):
        yield ind + "();", "drop"
    if s.endswith("?;") and not s.startswith("let "):
        yield ind + "let _ = " + s[:-2] + ";", "ignore"
    if s.startswith("return Err("):
        yield ind + "();", "noreturn"

def sh(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")

def main():
    os.makedirs(ET + "/evidence", exist_ok=True)
    shutil.copy("/verif/known_findings.txt", ET)
    ms = all_mutants()
    random.Random(5).shuffle(ms)
    ms = ms[part::parts]
    log = open(out, "a")
    done = set(l.split("\t")[0] for l in open(out)) if os.path.exists(out) else set()
    for f, i, new, tag in ms:
        key = "%s:%d:%s" % (f, i + 1, new.strip())
        if key in done: continue
        p = os.path.join(REPO, "src", f)
        orig = open(p).read()
        lines = orig.split("\n")
        lines[i] = new
        try:
            open(p, "w").write("\n".join(lines))
            rc, o = sh(["cargo", "test", "--lib", "--offline", "-q", "--", "--test-threads", "4"], REPO, 60)
            if "could not compile" in o:
                res = "nocompile"
            elif rc != 0 and not re.search(r"(?s)failures:\n\s+io::std_io::tests::test_readreader_read_all\n\ntest result", o):
                res = "tests"
            else:
                rc, o = sh(["cargo", "build", "--release", "--offline", "-q", "--target-dir", ET], "/verif/harness", 300)
                if rc != 0:
                    res = "harness-nocompile"
                else:
                    res = "SURVIVED"
                    first = ORDER[f].split()
                    env = dict(os.environ, ILCHECK_GUIDED="none", ILCHECK_GUIDED_S="0")
                    for c in first + [c for c in ALL if c not in first]:
                        env["ILCHECK_BUDGET_S"] = "15" if c in first else "5"
                        rc, o = sh([ET + "/release/ilcheck", "run", c, "quick", "1", ET], ET, 300, env)
                        if rc == 1 and "VIOLATION" in o:
                            res = "caught " + c
                            break
                        if rc != 0:
                            res = "ODD %s rc %d %s" % (c, rc, o[-200:].replace("\n", " "))
                            break
        finally:
            open(p, "w").write(orig)
        log.write("%s\t%s\n" % (key, res)); log.flush()

if __name__ == "__main__":
    if out == "count":
        ms = all_mutants(); print(len(ms))
        from collections import Counter
        print(Counter(m[0] for m in ms))
    else:
        main()
