"""Literals of the source under check: those which are new since the baseline feed the search for a witness.

A failed or undecided obligation says which function departs from its contract but not on which input; constants that a
change brings in (a length, a code point, a keyword) are good guesses.  This only steers the search: a witness is an
input on which the real code was run and answered wrongly."""
import collections, glob, json, os, re, struct, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = f"{V}/contracts/literals.json"
TOK = re.compile(r'''
  (?P<c>//[^\n]*|/\*.*?\*/)
 |(?P<raw>b?r(?P<h>\#*)"(?P<rs>.*?)"(?P=h))
 |(?P<str>b?"(?P<ss>(?:\\.|[^"\\])*)")
 |(?P<chr>b?'(?P<cs>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?P<fr>\.\d[\d_]*)?(?P<ex>[eE][+-]?\d+)?)(?P<suf>[iuf]\w+)?
''', re.X | re.S)
def unesc(s):
    def f(m):
        e = m.group(1)
        if e[0] == "u": return chr(int(e[2:-1].replace("_", ""), 16))
        if e[0] == "x": return chr(int(e[1:], 16))
        if e[0] == "\n": return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e[0], e[0])
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", f, s, flags=re.S)
def literals(root):
    n = collections.Counter()
    for f in sorted(glob.glob(f"{root}/src/*.rs") + glob.glob(f"{root}/ser-write-json/src/**/*.rs", recursive=True) + glob.glob(f"{root}/ser-write-msgpack/src/**/*.rs", recursive=True)):
        try: t = open(f, encoding="utf8").read()
        except (OSError, UnicodeDecodeError): continue
        for m in TOK.finditer(t):
            try:
                if m.group("raw"): n["s " + m.group("rs").encode().hex()] += 1
                elif m.group("str"): n["s " + unesc(m.group("ss")).encode().hex()] += 1
                elif m.group("chr"): c = unesc(m.group("cs")); n["s " + c.encode().hex()] += 1; n[f"i {ord(c)}"] += 1
                elif m.group("id") in WIDTH: n["t " + m.group("id")] += 1
                elif m.group("num"):
                    x = m.group("num").replace("_", "")
                    if m.group("fr") or m.group("ex") or (m.group("suf") or "").startswith("f"): n[f"f {struct.unpack('<Q', struct.pack('<d', float(x)))[0]}"] += 1
                    else: n[f"i {int(x, 0) if x[:1] == '0' and x[1:2] in 'xbo' and len(x) > 1 else int(x)}"] += 1
            except (ValueError, OverflowError): pass
    return n
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31}
def new(root):
    """literals that occur more often than they did, at most 200 of them (a rewritten file is no hint); narrow integer types count by their limits"""
    try: base = json.load(open(BASE))
    except OSError: return []
    l = [k for k, c in sorted(literals(root).items()) if c > base.get(k, 0) and len(k) < 4000]
    l = [x for k in l for x in ([k] if k[0] != "t" else [f"i {2 ** WIDTH[k[2:]] - 1}", f"i {2 ** WIDTH[k[2:]]}"])]
    return list(dict.fromkeys(l)) if len(l) <= 200 else []
if __name__ == "__main__":
    if sys.argv[1:2] == ["baseline"]: json.dump(dict(sorted(literals("/repo").items())), open(BASE, "w"), indent=0)
    else: print("\n".join(new(sys.argv[1])))
