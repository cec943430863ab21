from hlib import *

META = {
    "bounds": {
        "quick": "every text of <=8 characters over all Unicode scalar values (so with every escape whose name has <=4 characters; names of <=4 characters resolved by the solver over the table of all such names), texts with one or two escapes of fixed long names (letters, digits, blanks, hyphens; unknown; lower-case; digits only) around 0-2 symbolic characters each; a text with 40 escapes and 2 symbolic characters; from_yaml, from_yaml_file and the feature switched off",
        "thorough": "every text of <=11 characters; 3 symbolic characters around fixed names",
    },
    "outside": "longer texts; the YAML reader (the text handed to it is what is compared); empty braces",
    "stubs": "yaml.safe_load records its text and returns fixed settings; unicodedata.lookup on symbolic names by table; re: backtracking matcher; files are virtual",
}
BUDGET = {"quick": 90, "thorough": 2400}
NAMES = ["BULLET", "LATIN SMALL LETTER I", "HYPHEN-MINUS", "CJK UNIFIED IDEOGRAPH-4E00",
         "VARIATION SELECTOR-1", "DIGIT ONE", "NO SUCH NAME", "bullet", "Bullet", "42",
         "LATIN_SMALL"]
NAMECHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -"
SETTINGS_DICT = {"tokens": {"a": [], " ": ["w"]}, "rules": {"a": "A"},
                 "whitespace": {"default": " ", "token_class": "w", "consolidate": False}}


def jobs(tier):
    big = tier == "thorough"
    out = []
    for n in range(12 if big else 9):
        out.append({"n": n, "route": "text"})
        if n < 8:
            out.append({"n": n, "route": "file"})
        if n < 7:
            out.append({"n": n, "route": "off"})
    m = 3 if big else 2
    for k in range(len(NAMES)):
        out.append({"pre": m, "name": k, "post": m, "route": "text"})
        out.append({"pre": 1, "name": k, "post": 1, "route": "off"})
        out.append({"pre": 1, "name": k, "mid": 1, "name2": (k + 1) % len(NAMES), "post": 1, "route": "text"})
        out.append({"pre": 0, "name": k, "mid": 0, "name2": k, "post": 0, "route": "file"})
    for route in ("text", "file", "off"):
        out.append({"rep": 40, "route": route, "fuel": 3000000})
    return out


def replaced(text):
    """The documented replacement; None if a name is unknown."""
    import unicodedata

    out = ""
    i, n = 0, len(text)
    while i < n:
        if i + 3 < n and text[i] == "\\" and text[i + 1] == "N" and text[i + 2] == "{":
            j = i + 3
            while j < n and text[j] in NAMECHARS:
                j += 1
            if i + 3 < j < n and text[j] == "}":
                try:
                    out = out + unicodedata.lookup(text[i + 3:j])
                except KeyError:
                    return None
                i = j + 1
                continue
        out = out + text[i]
        i += 1
    return out


def body(W, P):
    from graphtransliterator import GraphTransliterator

    route = P["route"]
    ab = None if route != "file" else "".join(chr(k) for k in range(32, 127)) + "\n"
    if "n" in P:
        text = W.string("s", P["n"], ab)
    elif "rep" in P:
        # more escapes than any small count, some text in between
        bits = ["\\N{" + NAMES[k % 6] + "}" + ("\n" if k % 7 == 3 else "x: " if k % 3 else "") for k in range(P["rep"])]
        k = W.choose("where", [0, 17, P["rep"]])
        text = "".join(bits[:k]) + W.string("s", 2, ab) + "".join(bits[k:])
    else:
        text = W.string("pre", P["pre"], ab) + "\\N{" + NAMES[P["name"]] + "}"
        if "name2" in P:
            text = text + W.string("mid", P["mid"], ab) + "\\N{" + NAMES[P["name2"]] + "}"
        text = text + W.string("post", P["post"], ab)
    for i in range(len(text) - 3):
        W.assume(W.Not(W.eq(text[i:i + 4], "\\N{}")))
    seen = []

    def record(s):
        if hasattr(s, "read"):
            s = s.read()
        seen.append(s)
        return cp(SETTINGS_DICT)

    W.on_yaml(record)
    if route == "file":
        path = W.virtual_file("x.yaml", text)
        kind, gt = W.run(GraphTransliterator.from_yaml_file, path)
    elif route == "off":
        kind, gt = W.run(GraphTransliterator.from_yaml, text, charnames_escaped=False)
    else:
        kind, gt = W.run(GraphTransliterator.from_yaml, text)
    want = text if route == "off" else replaced(text)
    if want is None:
        W.cover("unknown name")
        W.check(kind == "exc", "an unknown name raises no error")
        return
    W.cover("replaced")
    W.check(kind == "ok", "an error is raised")
    if kind == "ok":
        W.check(len(seen) == 1, "the text is not read once")
        W.observe(seen[-1])
        W.check(W.eq(seen[-1], want), "another text")
