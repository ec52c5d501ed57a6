"""Writes DESIGN.md: prose from tools/design_head.md and design_tail.md, tables from the committed data."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p)).read()
props = {d["id"]: d for d in map(json.loads, rd("properties.jsonl").splitlines()) if d}
man = json.loads(rd("MANIFEST.json"))
kf = json.loads(rd("known_findings.json"))
out = [rd("tools", "design_head.md")]
for c in man["checks"]:
    out.append(f"- **{c['property']}** {props[c['property']]['title']}. {c['level_note']}\n")
out.append(rd("tools", "design_tail.md"))
out.append("\n## Seeded changes and the checks that catch them\n\nEach lives in `seeded/<id>/`, breaks the named property, builds and passes the 405 stable tests.\n"
           "`caught` is the result of the property's quick check on the changed tree (exit 1 with its VIOLATION line).\n\n| change | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.loads(rd("tools", "caught.json"))
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.loads(rd("seeded", d, "meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run')} |\n")
out.append("\n## Genuine defects\n\nKnown findings (recorded in `known_findings.json`, printed as KNOWN-FINDING, exit 0):\n\n")
for f in kf["findings"]:
    out.append(f"- {f['property']}: {f['what']}\n")
out.append(f"\nRepaired with {len(kf['fixed'])} `fix:` commits; every one was reverted on a copy and the revert is reported by the property's check:\n\n")
for f in kf["fixed"]:
    out.append("- " + f.replace("fixed: property=", "") + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
