"""Round-trip clauses (C27, C28): from each clause of a reader's contract, the part of it that the round trip needs.
What the clause says about inputs that have to be refused is dropped; what it says about the value read and where reading stops
stays, for inputs the format theory gives a meaning to. A clause that says nothing about refusal is shared (gets the tag)."""
import re
P = r"\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\)"
def weaken(t):
    t = t.replace("{ r is Err }", "{ true }").replace("=> r is Err", "=> true").replace("r is Ok <==>", "r is Ok <==")
    t = re.sub(r"(\b(?:jels|jents|jskip|sdec|hexdec|b64dec|adec|sskip)" + P + r") == (Some" + P + ")", r"(\1 is None || \1 == \2)", t)
    t = re.sub(r"(\bskipn" + P + r") == (Sk::Rest" + P + ")", r"(!(\1 is Rest) || \1 == \2)", t)
    return t
def add(spec, tag, wanted, skip, special, also):
    """wanted: tags that are taken over; skip: functions left out; special: function -> extra clause; also: functions whose other obligations count for tag too"""
    L = spec.split("\n"); out = []; fn = None; acc = None
    for l in L:
        if l.startswith("@@"):
            fn = None; acc = None
            m = re.match(r"@@fn (.*?)( \[([^\]]*)\])?$", l)
            if m:
                fn = m.group(1).split(" | ")[0]
                if any(f in a for f in m.group(1).split(" | ") for a in also if f == a) and m.group(3): l = l[:-1] + "," + tag + "]"
            out.append(l); continue
        if fn and fn not in skip:
            m = re.match(r"(\s*ensures)(.*)$", l)
            body = None
            if m: acc = []; body = m.group(2)
            elif acc is not None: body = l
            if body is not None:
                acc.append(body)
                t = re.search(r"//((?:\s*#C\d\d)+)\s*$", body)
                if t:
                    tags = re.findall(r"C\d\d", t.group(1))
                    if set(tags) & wanted:
                        if fn in special: out.append(l); out.append("    " + special[fn] + " // #" + tag); acc = []; special = {k: v for k, v in special.items() if k != fn}; continue
                        if fn + "!" in skip: out.append(l); acc = []; continue
                        txt = "\n".join(acc); txt = re.sub(r"//((?:\s*#C\d\d)+)\s*$", "", txt)
                        w = weaken(txt)
                        if w == txt: l = l + " #" + tag
                        else: out.append(l); out.append("    " + w.strip() + " // #" + tag); acc = []; continue
                    acc = []
        out.append(l)
    return "\n".join(out)
