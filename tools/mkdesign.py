"""Brings DESIGN.md up to date: the monitoring rules of section 2 from the checks, sections 3-5 from known_findings.json and seeded/."""
import importlib, json, os, re, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "vf")
text = open("DESIGN.md").read()
text = text.split("\n## 3. ")[0].rstrip() + "\n"
out, pid = [], None
for line in text.split("\n"):
    m = re.match(r"### (C\d\d) ", line)
    if m:
        pid = m.group(1)
    if pid and line.startswith("*Monitored, and judged against:*"):
        line = "*Monitored, and judged against:* " + importlib.import_module("props." + pid).RULE.strip() + "  "
    out.append(line)
text = "\n".join(out)
kf = json.load(open("known_findings.json"))
text += "\n## 3. Defects found\n\nThe checks found the following genuine defects. *Repaired* (one `fix:` commit each in /repo; the check reports the violation again should it return):\n\n"
text += "| property | commit | what failed |\n|---|---|---|\n"
for e in kf:
    if e["status"] != "known":
        text += "| %s | %s | %s |\n" % (e["property"], e["commit"][:8], e["what"])
text += "\n*Recorded, not repaired* (all inside dependencies that cannot be replaced here; identified by the place of the panic or the report in `known_findings.json`):\n\n"
for e in kf:
    if e["status"] == "known":
        text += "- %s `%s`: %s\n" % (e["property"], e["signature"], e["what"])
text += "\n" + open("tools/design_tail.md").read().rstrip() + "\n\n"
text += "| planted change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    text += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"]))
open("DESIGN.md", "w").write(text)
