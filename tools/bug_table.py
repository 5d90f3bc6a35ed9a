"""Development tool: rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
# bugs that the checks missed when they were planted -> what was strengthened
MISSED = {}
for rnd, text in {
    1: "c02-postproc-int c07-gauss-small-var c09-auroc-float32",
    2: "c14-data-seed-zero c20-rshash-trunc c21-narrow-range c22-near-duplicates c24-running-sum c33-storm-repeats",
    3: "c03-uint16-index c06-long-history c09-history-cap c11-skip-same c11-window-256 c16-xstream-score-grows c18-mad-cap "
       "c22-insert-tolerance c23-masked-zero c28-negative-max c33-hst-first-window",
    4: "c35-hst-id c37-iterate-float32 c02-chunk-tail c03-pandas-float c14-seed-mod c15-stl-cache-key c24-flat-shortcut "
       "c27-component-byte c32-stale-cache",
    5: "c06-window-limit c07-conformal-chunk c08-zero-weights c13-stl-inplace c15-hst-shared-leaves c20-expanded-distance "
       "c23-mad-fallback c25-hidden-floor c26-chi2-approx c26-singular-reset c32-row-limit c42-esd-class-list c34-seed-zero",
    6: "c06-zscore-clip c15-kitnet-rng c22-tree-cap c23-deep-steps c24-phase-byte c25-lr-decay c32-nan-zero c34-feature-cap "
       "c41-float32-wide",
    7: "c09-zero-division c11-float32-score c12-kitnet-executions c17-conformal-blocks c18-skip-outliers c24-sums-float32 "
       "c26-range-stretch c38-storm-int",
    8: "c14-wide-kitnet c31-label-cap c42-chain-scratch",
}.items():
    for b in text.split():
        MISSED[b] = rnd
rows = []
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["needs"].replace("|", "/").replace("\n", " "), m["property"],
                                         "after round %d" % MISSED[b] if b in MISSED else ""))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
mark = "<!-- bug table -->"
s = s[:s.index(mark)] if mark in s else s.rstrip() + "\n\n"
s += mark + "\n\n| planted bug | needs | caught by | first missed |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows), "bugs,", sum(1 for r in rows if "after round" in r), "first missed")
