#!/usr/bin/env python3
"""Writes MANIFEST.json and harness/bounds.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]

JAMO = "Reference: letter names of the Unicode Character Database (Python unicodedata), compiled into harness/ref by tools/gen_ref.py."
CODE = "Reference: Python's cp949 codec, an implementation of Microsoft's table independent of this one, compiled into harness/ref by tools/gen_ref.py."
CHARS = "every character of 1 to 4 bytes (all scalar values), all stray bytes, all prefixes of longer characters"
B = {
"C01": ("all 2^16 runes of the syllable block's plane; complete for the property's domain", "nothing", [JAMO]),
"C02": ("all triples of 32-bit runes; complete", "nothing", [JAMO]),
"C03": ("all 32-bit runes; complete", "nothing", []),
"C04": ("all 32-bit runes; complete", "nothing", [JAMO]),
"C05": ("all 32-bit runes; complete", "nothing", [JAMO]),
"C06": ("all 32-bit runes; complete", "nothing", [JAMO, "The spelling of compound letters is the one of the Unicode names (GIYEOK-SIOS), of SSANG- for doubled consonants, and of Hangul orthography for the vowels."]),
"C07": ("all 32-bit runes; complete", "nothing", ["The stroke counts of the 24 basic letters are those of the pinned version."]),
"C08": ("all byte strings up to 5 bytes (thorough: 7); any character after arbitrary or mixed prefixes; last characters of words of 15 to 300 characters and of words of 1000 to 70000 bytes", "arbitrary contents of longer words", []),
"C09": ("all words up to 3 bytes (thorough: 5) with all particles of 1-2 and 0-1 bytes; any last syllable with all particles of 0, 1, 3, 6, 7, 9 bytes; thirteen usual pairs after any character; words of up to 9000 bytes and particles of up to 450 bytes with an arbitrary last syllable", "longer particles other than the usual ones", []),
"C10": ("every code: all 128 single bytes, all 2^15 pairs with a first byte of at least 0x80, through From, the reader and the decoder; complete for single codes (texts: C13)", "nothing", [CODE]),
"C11": ("every character: all scalar values in four parts by length, all byte strings of 1-3 (thorough: 4) bytes, through To, the writer and the encoder; complete for single characters (texts: C14)", "nothing", [CODE]),
"C12": ("every code and every character of the code page; texts of up to 2 (thorough: 3) arbitrary codes mixed with ASCII; texts of up to 4000 bytes with arbitrary ones at the end, by functions, reader and writer, wrappers and Transform", "longer texts (by C13 and C14 these are the concatenation of their characters)", [CODE]),
"C13": ("all texts of the unit shapes of up to 5 (thorough: 8) units and 8 (thorough: 12) bytes (A: any ASCII byte, D: any two-byte unit, T: any lone first byte); two arbitrary units after texts of 7 to 2045 (thorough: 5000) characters; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; arbitrary units in texts longer than 2^16 bytes; repetitions of one unit (assigned, unassigned, of every length) at every phase in streams of 33000 (thorough: 70000) bytes with arbitrary units at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart; texts of 2^20 bytes with arbitrary characters at the end", "more than 3 arbitrary two-byte units in one text in the quick tier (thorough: 5)", [CODE]),
"C14": ("all texts of the shapes of up to 3 characters ("+CHARS+"); all byte strings up to 3 (thorough: 4) bytes; two arbitrary characters after texts of 7 to 2045 (thorough: 5000) bytes; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; arbitrary units in texts longer than 2^16 bytes; repetitions of one character (of 1 to 4 bytes, stray, cut off) at every phase in texts of 33000 (thorough: 70000) bytes with arbitrary characters at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart; texts of 2^20 bytes with arbitrary characters at the end", "more arbitrary characters in one text", [CODE]),
"C15": ("streams of up to 4 (thorough: 5) arbitrary units; every division into reads of 1-4 bytes with one empty read anywhere and the end with or after the last bytes; buffers of 1, 2, 3, 4, 16; every sequence of three buffer sizes out of 0, 1, 2, 3, 9; arbitrary units near buffer ends in streams up to 1024 (thorough: 4095) bytes; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; arbitrary units in texts longer than 2^16 bytes; repetitions of one unit (assigned, unassigned, of every length) at every phase in streams of 8500 (thorough: 33000) bytes with arbitrary units at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart; several empty reads anywhere, up to 260 in a row; streams of 3000 (thorough: 20000) small reads; io.ReadAll, io.Copy, ReadFrom, bufio.Reader, io.ReadFull", "longer arbitrary streams", [CODE]),
"C16": ("texts of up to 3 arbitrary characters ("+CHARS+"); every division over writes of 1-6 bytes with one empty write anywhere; all byte strings up to 4 (thorough: 5) bytes in two writes; texts up to 1025 (thorough: 4096) bytes with arbitrary characters at the joint; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; arbitrary units in texts longer than 2^16 bytes; repetitions of one character (of 1 to 4 bytes, stray, cut off) at every phase in texts of 8500 (thorough: 33000) bytes with arbitrary characters at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart; several empty writes anywhere, up to 101 in a row; 3000 (thorough: 20000) small writes; io.WriteString, io.Copy, WriteTo, bufio.Writer", "longer arbitrary texts", [CODE]),
"C17": ("inputs of up to 3 (thorough: 4) arbitrary units, every room from 0 to three bytes per unit and one more, both values of atEOF; Bytes, String and Reader of the x/text wrapper on up to 3 units and on texts that pass its buffer ends; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; repetitions of one unit (assigned, unassigned, of every length) at every phase in streams of 8500 (thorough: 33000) bytes with arbitrary units at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart", "longer arbitrary inputs", [CODE]),
"C18": ("inputs of up to 2 (thorough: 3) arbitrary characters ("+CHARS+") with every room from 0 to more than needed and both values of atEOF; all byte strings up to 4 (thorough: 5) bytes; Bytes, String and Writer of the wrapper, on texts that pass its buffer ends too; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; repetitions of one character (of 1 to 4 bytes, stray, cut off) at every phase in texts of 8500 (thorough: 33000) bytes with arbitrary characters at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart", "longer arbitrary inputs", [CODE]),
"C19": ("streams of up to 3 arbitrary units with a failure after every byte, with and after data, five error values (one calls itself temporary and wraps io.EOF); sources that would deliver again after the failure; writers failing (with nothing, half or all of the bytes taken) at or from the first, second or third call under every division of texts of up to 3 characters; streams of up to 10000 (thorough: 40000) bytes with the failure behind them; destinations that fail at or from one of 8 calls of long texts", "longer streams, destinations that take a part of the bytes without an error (against the rules of io.Writer)", [CODE]),
"C20": ("each function of the root package before and after each other one on any two letters, and after histories of 40, 300 and 3000 (thorough: 70000) calls; any two Joins of arbitrary letters, any two words with particles; two or three calls of From, To, Bytes on arbitrary texts of up to 2 units with arbitrary overwriting of arguments and results, short and longer than 100 bytes; two readers, two writers, two transformers in every interleaving of the first 4-5 steps", "longer arbitrary histories", [JAMO, CODE]),
"C21": ("all 32-bit runes for IsHanja; every character alone; texts of up to 6 arbitrary characters, stray bytes among them; all byte strings up to 3 (thorough: 4) bytes; any character at the begin, the end and inside texts up to 300 (thorough: 2000) characters; one arbitrary unit at every offset from 0 to 17 in ASCII with 0, 1, 7, 16 bytes behind it; arbitrary units in texts longer than 2^16 bytes; repetitions of one character (of 1 to 4 bytes, stray, cut off) at every phase in texts of 33000 (thorough: 140000) bytes with arbitrary characters at the end; a fixed character of each kind and an arbitrary one 0 to 17 (thorough: 66) ASCII bytes apart; texts of 2^20 bytes with arbitrary characters at the end", "more arbitrary characters in one text", []),
"C22": ("all 32-bit runes; complete", "nothing", ["The readings are compared with a snapshot taken from the pinned version; besides, their order is compared with the order of KS X 1001, from Python's cp949 codec."]),
"C23": ("every ordered pair of 17 kinds of calls (all exported functions, readers, writers, transformers and wrappers on arbitrary short data), as first calls of the process and later ones; every pair of functions of the root package; three calls of a kind. All accesses of both calls to memory that existed before are compared by locksets, and the second call is run before every synchronisation operation of the first", "more than two calls at a time, more than two switches between them, switches inside code that does not synchronise (such code is shown to be free of conflicting accesses)", ["Conflicts found by locksets are reported only if the Go race detector confirms them, wrong results under a schedule only if a native run reproduces them."]),
"C24": ("streams of up to 4 arbitrary units, whole and truncated, ending or failing; every division into reads of 1-4 bytes with one empty read anywhere; buffers of 1, 2, 3, 5, 64 bytes and every sequence of four sizes out of 0, 1, 2, 4; streams of up to 9000 bytes; many empty reads", "longer streams", [CODE]),
"C25": ("texts of up to 3 characters (thorough: arbitrary ones; quick: the three-byte ones out of two windows of 256) in every division over writes of 1-5 bytes; one failure (thorough: two in texts of up to 6 bytes) anywhere, repeated in the same or other pieces or replaced by another text; all byte strings of 2 (thorough: 3) bytes; failures inside texts of several thousand bytes", "longer arbitrary texts, more failures; destinations that take a part of the bytes", [CODE]),
"C26": ("all 119 constants, all 32-bit runes; complete", "nothing", [JAMO.replace("compiled into harness/ref by tools/gen_ref.py", "in harness/props/constants.go")]),
}
LEVEL = ("Symbolic execution of the go/ssa form of the real code (generated anew from /repo on each run); the solver decides each assertion "
 "for all values within the bounds, no assurance beyond them. A violation is reported only with an input that fails on the compiled code. "
 "Trusts the encoder's model of Go (cross-checked by executing models of explored paths natively), z3 (sampled queries re-decided by cvc5), "
 "and term rewriting on decision trees (sampled rewritings certified by z3). ")
info, checks = {}, []
for p in props:
    i = p["id"]
    b, o, a = B[i]
    info[i] = {"bounds": b, "outside": o, "assumptions": a}
    checks.append({
        "property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": "symbolic execution of Go SSA with SMT (z3 bit-vectors), counterexamples replayed natively" +
            ("; lockset analysis and symbolic context switches" if i == "C23" else ""),
        "level": "model_checking",
        "level_note": LEVEL + "Bounds: " + b + ". Outside: " + o + "." + "".join(" " + x for x in a),
    })
json.dump(info, open(os.path.join(root, "harness", "bounds.json"), "w"), indent=1, ensure_ascii=False)
json.dump({"version": 1,
    "setup_cmd": "cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/symgo .",
    "checks": checks, "not_applicable": [],
    "notes": "No hooks: the harnesses use the public API only. Defects found and repaired: KNOWN_FINDINGS.txt."},
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
