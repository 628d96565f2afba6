"""Development tool (no check uses it): simple mutation testing in a scratch copy.

    mutate.py list                 shows the mutants
    mutate.py run OUT [from [to]]  builds each, runs the tests, and every check on the survivors until one reports

Changes come from small rules on the text of the non-test parts of src/."""
import json, os, re, subprocess, sys, time
sys.argv, argv = ["plant.py", "--check"], sys.argv
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant
REPO = "/repo"
WT = plant.WT = "/tmp/mut-wt"
plant.sh.__defaults__ = (WT,)
TARGET = "/tmp/mut-target"


def balanced(s, i):
    """end of the bracketed text that starts at i"""
    n = 0
    while i < len(s):
        if s[i] in "([{":
            n += 1
        elif s[i] in ")]}":
            n -= 1
            if n == 0:
                return i + 1
        i += 1
    return len(s)


SWAPS = [("==", "!="), ("!=", "=="), (" > ", " >= "), (" > ", " < "), (" < ", " <= "), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"),
         (".ends_with(", ".contains("), (".starts_with(", ".contains("), ("min_by_key", "max_by_key"), (".last()", ".next()"), (".rev()", ""), ("rposition", "position"),
         (".is_none()", ".is_some()"), (".is_some()", ".is_none()"), ("set_local", "set_remote"), ("set_remote", "set_local"), (".local.as_ref()", ".remote.as_ref()"),
         (".canonicalize()", ".canonicalize().map(|_| path.to_path_buf())"), (" + 1", ""), (" - 1", ""), ("to_lowercase", "to_uppercase"), ("Location::Local", "Location::Remote"),
         ("Location::Remote", "Location::Local"), ("symlink_metadata", "metadata"), (".skip(already_local)", ""), ("&from, &to", "&to, &from"), ("self.from", "self.to"), ("self.to", "self.from"), ("..=pos", "..pos"),
         (".windows(2)", ".windows(2).rev()"), (".flatten()", ".flatten().skip(1)"), ("---", "--"), ("'-'", "'_'"), ("'.'", "'_'"), ("\".tar", "\".taz"), ("{}.tar.zst", "{}.tar"), ("update_builds_from_file_list", "update_from_file_list"),
         ("from.clone()", "to.clone()"), ("to.clone()", "from.clone()"), ("old_build", "new_build"), ("patch.from", "patch.to"), ("patch.to", "patch.from"), ("Ordering::Relaxed", "Ordering::SeqCst"), ("unwrap_or_default()", "unwrap_or(true)")]


def mutants():
    for f in sorted(subprocess.run(["git", "ls-files", "src"], cwd=REPO, capture_output=True, text=True).stdout.split()):
        if f.endswith("test_helpers.rs"):
            continue
        s = open(os.path.join(REPO, f)).read()
        end = min([m.start() for m in re.finditer(r"#\[cfg\(test\)\]\nmod |\n#\[test\]", s)] or [len(s)])
        body = s[:end]
        seen = set()
        def out(a, b, new, why):
            m = s[:a] + new + s[b:]
            if m not in seen and m != s:
                seen.add(m)
                return [(f, s.count("\n", 0, a) + 1, why, s[a:b].strip()[:70], m)]
            return []
        skip = [(m.start(), balanced(s, s.index("(", m.start()))) for m in re.finditer(r"\b(log::\w+!|format!|bail!|with_context|\.context|\.note|println!|dbg!)\s*\(", body)]
        skip += [(m.start(), m.end()) for m in re.finditer(r"//.*|#\[.*", body)]
        def skipped(i):
            return any(a <= i < b for a, b in skip)
        for old, new in SWAPS:
            for m in re.finditer(re.escape(old), body):
                if not skipped(m.start()):
                    yield from out(m.start(), m.end(), new, "%s -> %s" % (old, new))
        for m in re.finditer(r"\bif (?!let)([^{]*?) \{", body):
            yield from out(m.start(1), m.end(1), "!(%s)" % m.group(1), "negate")
        for m in re.finditer(r"\n *(ensure!)\(", body):
            e = balanced(s, m.end() - 1)
            yield from out(m.start(), e + 1, "", "delete")
        for m in re.finditer(r"\n *(\.(filter|take_while|skip|sort\w*|or_else|map_or|note|min_by_key|peel\w*|flush|prefix|strip_prefix))\(", body):
            yield from out(m.start(), balanced(s, m.end() - 1), "", "delete call")
        # statements
        for m in re.finditer(r"(?<=[;{}]\n)( +)(?!let |return|use |fn |pub |const |static |//|log::|#|if |for |match |else|\}|ensure!|async |continue|break|struct |impl |loop|while )(?=[\w(&*])", body):
            i = m.end()
            n = 0
            while i < len(body):
                if body[i] in "([{":
                    n += 1
                elif body[i] in ")]}":
                    n -= 1
                    if n < 0:
                        break
                elif body[i] == ";" and n == 0:
                    i += 1
                    break
                i += 1
            st = body[m.end():i]
            if st.endswith(";") and st.count("\n") < 25 and not skipped(m.end()):
                yield from out(m.end(), i, "", "delete statement")
                if st.endswith("?;"):
                    yield from out(m.end(), i, "let _ = " + st[:-2] + ";", "ignore error")
        for m in re.finditer(r"\n *(return [^;]*|continue|break);", body):
            yield from out(m.start(), m.end(), "", "delete jump")


def main():
    ms = list(mutants())
    if argv[1] == "list":
        for i, m in enumerate(ms):
            print(i, *m[:4])
        return
    outf = open(argv[2], "a")
    a, b = int(argv[3]) if len(argv) > 3 else 0, int(argv[4]) if len(argv) > 4 else len(ms)
    order = ["C20", "C11", "C22", "C10", "C15", "C14", "C05", "C07", "C12", "C18", "C13", "C06", "C01", "C16", "C21", "C04", "C09", "C08", "C03", "C02", "C17", "C19"]
    caught = {p: 0 for p in order}
    import random
    for i in random.Random(5).sample(range(a, b), b - a):
        f, line, why, what, text = ms[i]
        plant.fresh()
        open(os.path.join(WT, f), "w").write(text)
        r = plant.sh(["timeout", "300", "cargo", "test", "--workspace", "--no-run", "--offline", "--locked"])
        res = None
        if r.returncode:
            res = "no build"
        else:
            try:
                plant.sh(["true"])
                p = subprocess.run(["timeout", "120", "cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--", "--test-threads", "8"], cwd=WT, env=plant.ENV, stdout=open("/tmp/mut.log", "w"), stderr=subprocess.STDOUT)
            except Exception as e:
                res = "error %r" % e
            if p.returncode == 124:
                res = "tests hang"
            elif p.returncode:
                subprocess.run(["python3", "/opt/vp/results.py", "/tmp/mut.json", "cargo:/tmp/mut.log"], stdout=subprocess.DEVNULL)
                got = set(json.load(open("/tmp/mut.json")).get("passed", []))
                base = json.load(open("/opt/vp/BASELINE.json"))
                want = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
                if want - got:
                    res = "tests fail"
        if res is None:
            res = "SURVIVES"
            for pid in sorted(order, key=lambda p: -caught[p]):
                e = dict(os.environ, VF_REPO=WT, VF_TARGET=TARGET, VERIF_SEED="1", VF_MAXBAD="1", VF_WORKERS=os.environ.get("VF_WORKERS", "5"), VF_BUDGET="100")
                p = subprocess.run(["timeout", "200", "python3", "vf/main.py", pid], cwd=os.environ.get("VF_FROM", plant.VERIF), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode == 1 and "VIOLATION property=" + pid in p.stdout:
                    j = p.stdout.index("VIOLATION property=" + pid)
                    res = "caught by %s: %s" % (pid, p.stdout[j:].split("\n", 2)[1][:160])
                    caught[pid] += 1
                    break
                if p.returncode not in (0, 1):
                    res = "rc %d in %s" % (p.returncode, pid)
        print(i, f, line, why, "|", what.replace("\n", " "), "|", res, file=outf, flush=True)


main()
