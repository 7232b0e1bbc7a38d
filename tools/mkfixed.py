#!/usr/bin/env python3
"""Prints the fixed: lines of known_findings.txt from the fix commits of /repo."""
import subprocess
WHERE = {"numpy.floating": "C03", "importlib": "C03", "mean and sum over": "C03", "dropped the positive": "C11",
         "integer data truncated": "C03", "in place": "C14", "limits of zero": "C12", "left the output file open": "C17",
         "waited forever": "C08", "chunk sizes less": "C13", "same (date-parsed)": "C16", "debug mode": "C17",
         "renamed with chdims": "C01", "given to limit()": "C03", "short integer": "C03", "min and max": "C03",
         "every output is skipped": "C08", "after a failed close": "C17", "classic-format": "C05",
         "scalar (zero-dim": "C03", "missing scalar": "C09", "capitalized positive": "C11",
         "a NaN in the data": "C12", "vardeps": "C22",
         "order of the directory": "C21", "chunking over the length of strings": "C01", "mean of data with a NaN": "C01",
         "strings of one character": "C18", "spelled differently": "C16", "one of the input": "C23", "another number of dimensions": "C23", "strings were transposed": "C23"}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p = next((v for k, v in WHERE.items() if k in s), "C19")
        print("fixed: property=%s %s %s" % (p, h, s[5:]))
