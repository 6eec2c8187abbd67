"""Generates DESIGN.md from design.md, the planted bugs and the properties that are not applicable."""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c18-occurrence"}


def main():
    import mkmeta
    rows = ["| id | property | needs | breaks | caught by |", "|----|----|----|----|----|"]
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], "missed" if i in MISSED else m["property"]))
    na = ["* **%s** %s: %s" % (p["entry"]["id"], p["entry"]["title"], p["reason"]) for p in mkmeta.NA] or ["(none listed yet)"]
    s = open(os.path.join(V, "vp", "design.md")).read()
    s = s.replace("@SEEDS@", "\n".join(rows)).replace("@NA@", "\n".join(na))
    open(os.path.join(V, "DESIGN.md"), "w").write(s)


if __name__ == "__main__":
    main()
