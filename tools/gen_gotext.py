#!/usr/bin/env python3
"""Writes harness/h/gotext.go: the translations of /repo's message files, which
are the source that the catalogue in locales.go is generated from."""
import json, os, glob
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "h", "gotext.go")
def q(s):
    return json.dumps(s, ensure_ascii=False)
rows = []
for f in sorted(glob.glob("/repo/locales/*/messages.gotext.json")):
    d = json.load(open(f))
    for m in d["messages"]:
        i = m["id"] if isinstance(m["id"], str) else m["id"][0]
        t = m.get("translation", "")
        if isinstance(t, str):
            rows.append((d["language"], i, t))
text = "package h\n\n// Code generated by tools/gen_gotext.py from /repo's locales. DO NOT EDIT.\n\n"
text += "// translations of the message files of the repository: language, key, text\nvar gotext = [][3]string{\n"
text += "".join("\t{%s, %s, %s},\n" % (q(a), q(b), q(c)) for a, b, c in rows) + "}\n"
old = open(out).read() if os.path.exists(out) else None
if old != text:
    tmp = out + ".tmp%d" % os.getpid()
    open(tmp, "w").write(text)
    os.replace(tmp, out)
