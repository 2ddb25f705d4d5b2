"""Development tool: record /repo's fix commits in known_findings.json ("fixed" suppresses nothing)."""
import json, re, subprocess
M = """bf7c977 C01/C09, ec95b56 C14, 4b0be7a C14, 3b74dce C02, 4b4acc3 C05, 0494e06 C03, a90ac7a C05, d85bdd3 C07, 6048752 C02/C07, 486695c C02, 62cbd4f C08, f5a4560 C08, 36e357d C02/C07, c21692f C01, e7f237d C01, 147a96d C07, 76a43db C02, b90d855 C12/C04, c54022f C01, 54e1e7a C01/C04/C06, dcdd74b C20, ae7698d C07/C03, dae9ba2 C10, 98d92cf C01, 7d7c71a C07, 7f63d06 C01, 25aaac3 C01, f9ba2ca C11, 5ca311f C01/C02/C10, 83a2a43 C01/C02, 567f705 C01/C11, 5fc0140 C01, d5612d0 C02/C20, 6de1974 C13/C20, f04099e C15/C19, 8e6a0be C15, 56f7bdd C15/C08, a4ad5df C01/C03/C08, aa099cf C01, baaa6e7 C01, b0293be C03/C07, f59fbd8 C01/C20, 1ba41aa C01, 4e529e8 C01, 84ea89a C20, 34eb851 C07, c4bacb0 C03/C07, 32403ec C07, 9c6416b C06, ae57726 C03, 2148459 C06, ec09bda C07/C03, 48e044b C07, 893af19 C07/C20, 9805624 C06/C07, f005749 C03/C05, 5e17037 C14/C03, ad4acb7 C07/C17, 1cca319 C20/C01, d9ecf32 C01/C20, 3987a45 C20, aaf24bb C20, 288e52a C20, 46d3cbf C20, d6145c1 C14, cb37e09 C16, 5f6277e C12, 45ce031 C10/C12, ecb3487 C13, 63d4047 C13/C19, fb225b6 C13, c0e8dc4 C13/C17, 18e68d5 C13, de2a25c C10/C07, c70185b C10, 063873d C11/C06, a719c1b C06/C07/C12, 844eb3d C10, c53a62a C02/C17/C10, 763efd0 C17/C10, def8c02 C16, 6a2093a C16, 4641940 C02/C05/C16, 2c8eb01 C05/C16, c100bc2 C02/C05/C16, 56d4215 C05/C02, 714993a C06, 8643b82 C06, 4ce0664 C06/C07, 30639dc C06/C07, ff4f0bf C06, 83872c1 C07, ba113c2 C11/C10, 1aef608 C07, 27f54bc C06/C02, d6c440c C01, 1bb694a C06, 0138b43 C07, 8e8eabc C07, d6e150d C07, 828f4f4 C07, fa7b250 C07, 2173a98 C07, fdb3fc8 C07, f1494e7 C07/C10, 556b261 C07, 5a74404 C07, 9c707de C07, ef6cc5b C07/C03, 80c3796 C07, 35b784c C07, 1246091 C07, 1f50029 C07, a903bef C07, 5f055ae C07/C01, 54e6139 C07, c115750 C07/C09, c8554aa C11, 756151e C11, 94f8617 C11/C01, 8401de2 C11, c299c55 C11/C01, 45c4e24 C11/C01/C09, be64f89 C18, 87983aa C18, 579b48a C18, 5b3d449 C18, 5da1475 C18, 8e2a7ba C18, 159fcec C18, e83fdc2 C18, 4f5320f C13, 15a2578 C07"""
EXTRA = {}  # commit: properties, for commits after the list above
try:
    EXTRA = json.load(open("/verif/tools/fixed_extra.json"))
except FileNotFoundError:
    pass
m = dict(x.strip().split() for x in M.split(","))
m.update(EXTRA)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01", "3b18b09..HEAD"],
                     capture_output=True, text=True).stdout
out = []
for rec in log.split("\x01"):
    rec = rec.strip()
    if not rec:
        continue
    h, s, b = rec.split("\x00")
    if not s.startswith("fix:"):
        continue
    what = s[4:].strip()
    b = " ".join(b.split())
    if b:
        what += ". " + b
    props = m.get(h)
    assert props, h
    for p in props.split("/"):
        out.append(f"fixed: property={p} {h} (failed before the commit) {what}")
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = out
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
print(len(out))
