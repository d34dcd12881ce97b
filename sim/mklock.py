"""Derives Cargo.lock from /repo's (without the unfetchable benchmarks crates), so that every
dependency has the version the repository pins."""
import re, os
GONE = ("datafusion-distributed-benchmarks", "tpchgen", "tpchgen-arrow")
text = open("/repo/Cargo.lock", encoding="utf-8").read()
blocks = text.split("[[package]]\n")
out = [b for b in blocks if not re.match(rf'name = "({"|".join(GONE)})"\n', b)]
text = "[[package]]\n".join(out)
text = re.sub(rf'(?m)^ "({"|".join(GONE)})( [^"]*)?",\n', "", text)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "Cargo.lock"), "w").write(text)
