#!/usr/bin/env python3
"""Every string of up to N pieces, with its normal forms from Python's own Unicode tables:
hex(name) hex(NFC) hex(casefold(name)) hex(casefold(NFC)), one line each."""
import itertools, sys, unicodedata
P = ["a", "A", ".", "-", "e", "E", "\u0301", "\u00e9", "\u00c9", "\u00df", "s", "\u0130", "\u0307", "\u212a", "\u4e2d", "\U00010400", "\u1e9e", " "]
n = int(sys.argv[1])
h = lambda s: s.encode().hex()
for k in range(1, n + 1):
    for t in itertools.product(P, repeat=k):
        s = "".join(t)
        c = unicodedata.normalize("NFC", s)
        print(h(s), h(c), h(s.casefold()), h(c.casefold()))
