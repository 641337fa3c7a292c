#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo (run by hand)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [
("end of the record string", "C14", "a record label that ends inside of a field was read past its end, and crashed"),
("negative number", "C02", "the character that follows a negative number was dropped"),
("slash that", "C03", "a slash that starts no comment was skipped, so invalid programs were accepted"),
("line comments", "C02", "line comments at the end of the file, or ended by a carriage return, were read wrongly"),
("underscore", "C02", "identifiers that start with an underscore were rejected"),
("node statement without", "C02", "a node statement without semicolon before '{', 'subgraph', 'node', 'edge' or 'graph' was rejected"),
("edges of a chain", "C04", "all edges of a chain left from the port of its first node"),
("font styles", "C11", "the order of the font styles in the document was random"),
("XML does not", "C12", "labels with control characters gave malformed documents"),
("huge font", "C05", "huge font sizes overflowed"),
("keep the font", "C06", "labels that moved between rows lost their font size"),
("vertical segments", "C19", "vertical segments were reported to cross boxes that they do not reach"),
("errors of writing", "C22", "write errors of the output file were ignored"),
("reachability without", "C15", "reachability queries overflowed the stack on long paths"),
("visit each node once", "C24", "the reachability test took exponential time on graphs with many paths"),
("no nodes", "C05", "programs without nodes crashed"),
("nest too deeply", "C01", "deeply nested scopes overflowed the stack"),
("small gap", "C05", "boxes of a row that touch by rounding crashed the verification"),
("straighten an edge", "C05", "straightening an edge moved its label into a neighbor, and crashed the verification"),
("share a location", "C05", "two connectors at one location divided by zero"),
("keep their size", "C08", "labels that moved between rows lost their size, and overlapped nodes"),
("whole text", "C13", "texts of labels left the canvas"),
("nested record cells", "C14", "nested record fields were measured in the wrong direction, so their texts did not fit"),
("printing parse errors", "C25", "the marker of the report was always at the end of the line, and missing on the last line"),
("above the top", "C13", "labels moved above the top of the canvas"),
("on top of other", "C08", "labels moved on top of other shapes"),
("include lines", "C12", "lines did not grow the canvas"),
("lone minus", "C25", "the report of a lone minus pointed behind it, even into the next line"),
("nesting of record fields", "C01", "deeply nested record fields overflowed the stack"),
("without copying nested", "C01", "reading nested record fields copied them once for each level, which took quadratic work"),
("NUL characters", "C03", "a NUL character ended the program; whatever followed it was ignored"),
("bend routes", "C10", "routes that turn around at a connector came in from the wrong side, left to right"),
("numeric colors", "C21", "hash marks followed by another hash, a sign, or another number of digits were taken for colors"),
("blank record fields", "C01", "blank record fields were kept and searched again, which took quadratic work"),
("after the edges are straightened", "C30", "the leftmost connectors were straightened away after the alignment, which left an empty left margin of hundreds of units"),
]
out = ["# Defects of nadavrot/layout that the checks found, all repaired in /repo.",
       "# A 'fixed' entry suppresses nothing. An open finding would be a line",
       "#   known: property=<id> sig=<signature> :: <what fails>"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], text=True).splitlines()
for l in log:
    h, s = l.split("|", 1)
    if not s.startswith("fix:"):
        continue
    k = [m for m in M if m[0] in s]
    assert len(k) == 1, s
    out.append(f"fixed: property={k[0][1]} {h} {k[0][2]}")
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
