#!/usr/bin/env python3
"""Writes the reference data of the harnesses (harness/ref) from sources other than the code
under test: the Unicode character database and the cp949 codec that come with Python. Only the
published hanja readings (hanja.go) have no other source: `gen_ref.py --hanja FILE` takes the
snapshot, once, from the pinned table.go."""
import os, re, sys, unicodedata as U

here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, "..", "harness", "ref")
HEAD = "// Code generated by tools/gen_ref.py; DO NOT EDIT.\n\npackage ref\n\n"

BASIC_STROKES = dict(zip("ㄱㄴㄷㄹㅁㅂㅅㅇㅈㅊㅋㅌㅍㅎㅏㅑㅓㅕㅗㅛㅜㅠㅡㅣ",
                         [1,1,2,3,3,4,2,1,3,4,2,3,4,3,2,3,2,3,2,3,2,3,1,1]))
# how the compound vowels are written
VOWELS = {"ㅐ":"ㅏㅣ","ㅒ":"ㅑㅣ","ㅔ":"ㅓㅣ","ㅖ":"ㅕㅣ","ㅘ":"ㅗㅏ","ㅙ":"ㅗㅏㅣ","ㅚ":"ㅗㅣ",
          "ㅝ":"ㅜㅓ","ㅞ":"ㅜㅓㅣ","ㅟ":"ㅜㅣ","ㅢ":"ㅡㅣ"}

def rows(vals, fmt="0x%04x", per=16):
    return "\n".join("\t" + ", ".join(fmt % v for v in vals[i:i+per]) + "," for i in range(0, len(vals), per))

def letters():
    """tables over U+1100-11FF and U+3130-318F, one per function"""
    def name(c): return U.name(chr(c), "")
    LEAD = range(0x1100, 0x1113); VOW = range(0x1161, 0x1176); TAIL = range(0x11A8, 0x11C3); COMPAT = range(0x3131, 0x3164)
    key = {}
    for rng, pre in ((LEAD,"HANGUL CHOSEONG "),(VOW,"HANGUL JUNGSEONG "),(TAIL,"HANGUL JONGSEONG "),(COMPAT,"HANGUL LETTER ")):
        for c in rng:
            assert name(c).startswith(pre), hex(c)
            key[c] = name(c)[len(pre):]
    def target(rng):
        d = {key[c]: c for c in rng}
        f = {}
        for c in key:
            # consonants and vowels share no names, except none
            if key[c] in d: f[c] = d[key[c]]
        return f
    def own(rng): # from the form itself and the compatibility form only
        return {c: v for c, v in target(rng).items() if c in rng or c in COMPAT}
    tabs = {"Compat": target(COMPAT), "Lead": own(LEAD), "Vowel": own(VOW), "Tail": own(TAIL)}
    byname = {key[c]: c for c in COMPAT}
    elems, strokes = {}, {}
    for c in COMPAT:
        ch = chr(c)
        if ch in BASIC_STROKES: strokes[c] = BASIC_STROKES[ch]; continue
        if ch in VOWELS: e = [ord(x) for x in VOWELS[ch]]
        else:
            n = key[c]
            parts = [n[5:]]*2 if n.startswith("SSANG") else n.split("-")
            e = [byname[p] for p in parts]
        assert all(chr(x) in BASIC_STROKES for x in e)
        elems[c] = e; strokes[c] = sum(BASIC_STROKES[chr(x)] for x in e)
    s = HEAD
    s += "// Tables by letter: index r-0x1100 for U+1100-11FF, r-0x3130+0x100 for U+3130-318F; 0 = none.\n"
    idx = list(range(0x1100, 0x1200)) + list(range(0x3130, 0x3190))
    def tab(nm, doc, f, ty="rune"):
        return "// %s is %s.\nvar %s = [%d]%s{\n%s\n}\n\n" % (nm, doc, nm, len(idx), ty, rows([f(c) for c in idx]))
    for nm, doc in (("Compat","the compatibility form"),("Lead","the lead form"),("Vowel","the vowel form"),("Tail","the tail form")):
        s += tab(nm+"Tab", doc, lambda c: tabs[nm].get(c, 0))
    co = lambda c: tabs["Compat"].get(c, 0)
    s += tab("StrokeTab", "the number of strokes", lambda c: strokes.get(co(c), 0), "int")
    for i in range(3):
        s += tab("Elem%dTab" % i, "basic letter %d of a compound letter" % i,
                 lambda c: (elems.get(co(c), [])+[0,0,0])[i])
    open(os.path.join(out, "jamo_tab.go"), "w").write(s)
    assert len(elems) == 27 and len(strokes) == 51

def cp949():
    dec = []
    for lead in range(0x80, 0x100):
        for trail in range(256):
            try:
                t = bytes([lead, trail]).decode("cp949")
                v = ord(t) if len(t) == 1 else 0xFFFD
            except UnicodeDecodeError: v = 0xFFFD
            dec.append(v)
    enc = []
    for c in range(0x10000):
        v = 0
        if c >= 0x80 and not 0xD800 <= c < 0xE000:
            try:
                b = chr(c).encode("cp949")
                v = b[0] << 8 | b[1]
            except UnicodeEncodeError: pass
        enc.append(v)
    s = HEAD + "// Dec is the character of each two-byte code (index code-0x8000), U+FFFD if there is none.\n"
    s += "var Dec = [32768]uint16{\n%s\n}\n\n" % rows(dec)
    s += "// Enc is the code of each character up to U+FFFF, 0 if there is none.\nvar Enc = [65536]uint16{\n%s\n}\n" % rows(enc)
    open(os.path.join(out, "cp949_tab.go"), "w").write(s)

def hanja(path):
    m = {}
    for k, v in re.findall(r"^\s*0x([0-9a-f]+):\s*0x([0-9a-f]+),", open(path, encoding="utf8").read(), re.M):
        m[int(k, 16)] = int(v, 16)
    assert len(m) == 27496, len(m)
    lo, hi = 0x3400, 0xFAFF
    tab = [m.get(c, 0) for c in range(lo, hi+1)]
    assert all(lo <= k <= hi for k in m)
    s = HEAD + "// Hanja is the published reading of U+3400 + index, 0 if there is none.\n"
    s += "var Hanja = [%d]uint16{\n%s\n}\n" % (len(tab), rows(tab))
    # KS X 1001 order
    ks = []
    for lead in range(0xCA, 0xFE):
        for trail in range(0xA1, 0xFF):
            t = bytes([lead, trail]).decode("cp949")
            if ord(t) in m: ks.append(ord(t))
    poly = "串廓金拏諾寧怒坍宅不樂異泌"
    ks = [c for c in ks if chr(c) not in poly]
    assert all(m[a] <= m[b] for a, b in zip(ks, ks[1:]))
    s += "\n// Order lists the supported hanja of KS X 1001 (but for the polyphonic ones) in its order.\n"
    s += "var Order = [%d]uint16{\n%s\n}\n" % (len(ks), rows(ks))
    open(os.path.join(out, "hanja_tab.go"), "w").write(s)

if len(sys.argv) > 2 and sys.argv[1] == "--hanja": hanja(sys.argv[2])
else: letters(); cp949()
