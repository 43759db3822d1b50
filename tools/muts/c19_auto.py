"""Every wiping statement removed, every secret entry turned public, one at a time."""
import os, re
for d, _, fs in sorted(os.walk("/repo/graviola/src")):
    if "aarch64" in d: continue
    for fn in sorted(fs):
        if not fn.endswith(".rs"): continue
        p = os.path.join(d, fn); rel = p[len("/repo/"):]; s = open(p).read()
        for pat, tag in [(r"\n *(low::)?zeroise(_value)?\([^\n]*\);", "z"), (r"Entry::new_secret\(\)", "e")]:
            for k in re.finditer(pat, s):
                old = k.group(0); new = "\n" if tag == "z" else "Entry::new_public()"
                nth = len(re.findall("(?=" + re.escape(old) + ")", s[:k.start()]))
                m(f"{tag}:{rel[13:]}:{s.count(chr(10), 0, k.start() + 1) + 1}", "C19", [(rel, old, new, nth)])
