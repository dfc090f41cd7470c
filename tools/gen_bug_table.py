"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ (notes of earlier rows are kept)."""
import json, os, re
NEW = {  # first missed, and what was added
 "c10-tlv-in-primitive": "missed at first; values are now well-formed TLV themselves more often",
 "c19-auto-nested": "missed at first; sorting is now also judged with automatic detection and within single templates",
 "c46-second-code": "missed at first; values are now given after others that are much like them",
 "c17-children-once": "missed at first; objects are now given again",
 "c06-log10": "missed with some seeds; every power of ten is now sampled from below",
 "c01-masks-count": "missed at first; there are now up to 700 masking characters",
 "c18-many-masks": "missed at first; there are now up to 700 masking characters",
 "c18-long-take": "missed at first; C18 now has values of up to 9000 bytes",
 "c14-other-zero": "missed at first; there are now more tags as vendors make them",
 "c21-0x": "missed at first; C21 now has words and notations of which some characters are digits",
 "c03-at-file": "missed at first; C03 now has values that are names of files",
 "c11-ff-blocks": "missed at first; C11 now has data filled up with every byte",
 "c43-depth": "missed at first; C43 now has values within up to 260 templates",
 "c48-many": "missed at first; C48 now has values among up to 150 others and within up to 240 templates",
 "c46-sign": "missed at first; C46 now has every prefix before padded numbers",
 "c49-list-padding": "missed at first; C49 now has values with something repeated, and values given as whole objects",
 "c13-after-same-value": "missed at first; C13 now has several of a few objects, sorted and unsorted",
 "c15-masked-short": "missed at first; C15 now has masked data of every other length",
 "c17-depth": "missed at first; C17 now has chains around the number of levels looked into",
 "c07-release": "first written so that the compiler removes the read",
 "c03-parallelism": "missed at first; C03 now binds the program to one processor, and runs a copy elsewhere as another user",
 "c16-processed": "missed at first; C16 now compares the explanation of a refused value as well",
 "c54-infer": "missed at first; C54 now has everything that is almost an option",
 "c54-negative": "missed at first; C54 now has words after an option that begin with a hyphen",
 "c05-help-branch": "missed at first; C05 now has the help shown without an operation",
 "c19-masked-last": "missed at first; C19 now has masked values among equal tags",
 "c08-triples": "missed at first; C08 now nests every tag sixty levels deep",
 "c21-fullwidth": "missed at first; C21 now puts every Unicode character between digits",
 "c46-octal": "missed at first; C46 now has many more ways of writing numbers",
 "c50-merged-masks": "missed at first; C50 now sets what other programs choose colour by",
 "c14-tail": "missed at first; C14 now has every separator followed by every type of field",
 "c15-crlf": "missed at first; C15 now has several separators between, before and after fields",
 "c18-first-four": "missed at first; up to twelve masking characters are now configured",
 "c19-four-bytes": "missed at first; C19 now has tags that share a long beginning",
 "c48-with-header": "missed at first; C48 now has good values with what may surround them",
 "c13-many": "missed at first; C13 now has tags among thousands of others",
 "c16-hex-marker": "missed at first; C16 now has what people write around hex",
 "c10-empty-last": "missed at first; tag 00 and empty objects are now generated at every level",
 "c12-length-cut": "missed at first; C12 now has objects followed by status words and padding",
 "c03-locale": "missed at first; C03 now sets whole locales and other common variables",
 "c14-length-16-bits": "missed at first; C14 now has fields of up to 130 000 characters",
 "c17-ascii-children": "missed at first; C17 now has values that are TLV and printable",
 "c50-file-parent": "missed at first; C50 now looks for relative files in parent directories",
 "c16-tail": "missed at first; C16 now puts every character around data of either format",
 "c52-force": "missed at first; C52 now sets what programs choose colour by",
 "c03-weekday": "missed at first; C03 now varies what else a process inherits",
 "c03-stdin-closed": "missed at first; C03 now varies what else a process inherits",
 "c01-boundary": "missed at first; C01 now has long text of several bytes a character",
 "c11-trailing-padding": "missed at first; C11 now adds all one- and two-byte tails",
}
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
s = open("DESIGN.md").read()
head, tail = s.split("|---|---|---|\n", 1) if s.count("|---|---|---|\n") == 1 else s.rsplit("|---|---|---|\n", 1)
rows, rest = re.match(r"((?:\|.*\n)*)(.*)", tail, re.S).groups()
old = {}
for r in rows.splitlines():
    i, p, c = [x.strip() for x in r.strip("|").split("|", 2)]
    old[i] = c
out = ""
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    c = old.get(i, "yes")
    if i in NEW:
        c = f"yes ({NEW[i]})"
    out += f"| {i} | {m['property']} | {c} |\n"
open("DESIGN.md", "w").write(head + "|---|---|---|\n" + out + rest)
