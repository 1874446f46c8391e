#!/usr/bin/env python3
"""Collects small sample documents of each language from the repository's fixtures into sim/langsim/corpus.json (run by hand; the result is committed)."""
import os, json, sys
langs = sys.argv[1:]
out = {}
for l in langs:
    docs = []
    root = f"/repo/examples/oak-{l}/tests"
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".rs", ".md", ".ron")) and l != "markdown" or f.endswith((".parsed.json", ".lexed.json", ".built.json", ".expected.json")):
                continue
            try: s = open(p, encoding="utf-8", newline="").read()
            except Exception: continue
            if 0 < len(s.encode()) <= 900: docs.append(s)
    docs = sorted(set(docs), key=lambda s: (len(s), s))
    if len(docs) > 10: docs = docs[:: max(1, len(docs) // 10)][:10]
    out[l] = docs
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../sim/langsim/corpus.json"), "w"), ensure_ascii=False, indent=0, sort_keys=True)
for l in langs: print(l, len(out[l]), end="; ")
