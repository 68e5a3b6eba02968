#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one dict per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Syllable decomposition and composition are exact inverses",
 "For every precomposed Hangul syllable (U+AC00 to U+D7A3), Split returns exactly the lead, the vowel and the tail (0 if there is none) of the Unicode Hangul decomposition, and Join of those three gives the same syllable back. SplitCompat returns the compatibility forms of the same three letters, and Join of those also gives the syllable back.",
 ["inputs"], "every precomposed syllable",
 "Tests split 6 and join 4 of the 11,172 syllables; one wrong row of the index arithmetic shows only on others.",
 ["hangul.go", "jamo.go"], [("Split/Join/SplitCompat", "hangul.go"), ("leadIdx/medialIdx/tailIdx", "jamo.go")],
 ["return values of Split, SplitCompat, Join"])
prop("C02", "Join composes exactly the valid jamo triples and rejects all others",
 "For any three runes, Join returns a syllable exactly when the first is a modern lead consonant, the second a modern vowel and the third either 0 or a modern tail consonant, each given as conjoining or as compatibility jamo, and that syllable has exactly these three components. For every other triple Join returns U+FFFD: no component is ever dropped, replaced or invented.",
 ["inputs"], "every triple of 32-bit runes (2^96)",
 "Tests pass 4 valid triples and no invalid one; rejection has never been exercised.",
 ["hangul.go", "jamo.go"], [("Join", "hangul.go"), ("Lead/Medial/Tail and *Idx", "jamo.go")], ["return value of Join"])
prop("C03", "A rune that is no syllable has no components",
 "For every rune that is not a precomposed Hangul syllable, Split and SplitCompat return 0, 0, 0; they never attribute jamo to ASCII, hanja, lone jamo, negative or out-of-range values.",
 ["inputs"], "every 32-bit rune outside U+AC00..U+D7A3",
 "Every tested input is a Hangul syllable.",
 ["hangul.go"], [("Split", "hangul.go")], ["return values of Split and SplitCompat"])
prop("C04", "Jamo forms convert to the same letter, and to nothing else",
 "CompatJamo maps every modern lead, vowel and tail jamo, and Lead, Medial and Tail map every compatibility jamo, to the jamo of the same letter (by Unicode character name) in the compatibility, lead, vowel or tail form; a rune already in the target form is returned unchanged. Every other rune, including a jamo whose letter lacks the target form, yields 0.",
 ["inputs"], "every 32-bit rune, for each of the four conversions",
 "Tests convert 4 runes; the tables hold over 130 entries and default cases cover the remaining 2^32 runes.",
 ["jamo.go", "constant.go"], [("CompatJamo, Lead, Medial, Tail and their tables", "jamo.go")], ["return values of CompatJamo, Lead, Medial, Tail"])
prop("C05", "Classification predicates match the modern Hangul repertoire",
 "IsLead, IsMedial and IsTail hold exactly for the modern conjoining leads (U+1100-1112), vowels (U+1161-1175) and tails (U+11A8-11C2); IsJaeum holds exactly for leads, tails and compatibility consonants (U+3131-314E), IsMoeum exactly for vowels and compatibility vowels (U+314F-3163). IsHangul holds exactly for precomposed syllables and for runes that are jaeum or moeum.",
 ["inputs"], "every 32-bit rune, for each of the six predicates",
 "No test calls any of the predicates.",
 ["jamo.go", "hangul.go"], [("IsLead, IsMedial, IsTail, IsJaeum, IsMoeum", "jamo.go"), ("IsHangul", "hangul.go")], ["return values of the predicates"])
prop("C06", "Compound letters split into exactly their basic letters",
 "SplitMultiElement succeeds exactly for the 27 compound letters (16 consonants, 11 vowels), in compatibility, lead, vowel or tail form, and then returns, in writing order, the basic compatibility letters the compound is written with, none of which is itself compound. For every other rune it returns no elements and false.",
 ["inputs"], "every 32-bit rune",
 "Tests try one compound and one basic letter.",
 ["jamo.go"], [("SplitMultiElement, multiElements", "jamo.go")], ["return values of SplitMultiElement"])
prop("C07", "Stroke counts are additive over components and zero elsewhere",
 "The stroke count of a syllable is the sum of the counts of its components, that of a compound letter the sum of the counts of its basic letters, and all forms (lead, vowel, tail, compatibility) of a letter count the same. Each of the 24 basic letters has its fixed positive count, and every rune that is neither a syllable nor a modern jamo counts 0.",
 ["inputs"], "every 32-bit rune",
 "Tests count 8 runes, none containing the rarer compound vowels.",
 ["stroke.go", "jamo.go", "hangul.go"], [("Stroke, strokes", "stroke.go"), ("SplitMultiElement", "jamo.go")], ["return value of Stroke"])
prop("C08", "LastConsonant depends on the last character only, and only on syllables",
 "For every string, LastConsonant returns the tail consonant of the last character if that is a precomposed Hangul syllable with a tail, and otherwise 0 (in particular for the empty string, for words ending in non-Hangul text and for malformed UTF-8, without panicking). EndsWithConsonant is true exactly when LastConsonant is not 0.",
 ["inputs"], "every string (any bytes, any length)",
 "Tests use 5 words, all empty or ending in a syllable.",
 ["hangul.go"], [("LastConsonant, EndsWithConsonant", "hangul.go")], ["return values of LastConsonant, EndsWithConsonant"])
prop("C09", "AppendPostposition appends exactly the particle Korean grammar selects",
 "For every word and every pair of particles the result is the word, byte for byte, followed by exactly one particle: `with` if the word's last character is a syllable with a tail consonant, `without` otherwise. The only exception is the particle 으로, which after a tail of exactly ㄹ also takes `without`.",
 ["inputs"], "every word and every pair of particle strings",
 "Tests use 9 word/particle combinations; malformed and non-Hangul words, and tails other than four, are never seen.",
 ["hangul.go"], [("AppendPostposition", "hangul.go")], ["return value of AppendPostposition"])
prop("C10", "Decoding follows the CP949 code page for every code",
 "Decoding maps every ASCII byte to itself and every two-byte code (first byte 0x80-0xFF, any second byte) to the UTF-8 form of the character that Microsoft's code page 949 assigns to it, or to U+FFFD if it assigns none. From, the reader and the x/text decoder agree on every code.",
 ["inputs"], "all 128 ASCII bytes and all 32,768 two-byte codes",
 "Tests decode some 200 of the 17,048 assigned codes, and no unassigned one.",
 ["encoding/cp949/cp949.go", "encoding/cp949/lookup_from.go"], [("translateFromCp949.Translate, fromTable", "encoding/cp949/cp949.go")], ["From", "NewReader", "CP949Encoding.NewDecoder"])
prop("C11", "Encoding follows the CP949 code page for every character",
 "Encoding maps every ASCII character to its byte, every character of code page 949 to its two-byte code, and every other Unicode character, including all beyond U+FFFF and U+FFFD itself, to exactly one '?'; every byte that is not part of well-formed UTF-8 also becomes one '?'. To, the writer and the x/text encoder agree on every character.",
 ["inputs"], "every Unicode scalar value and every malformed byte sequence up to 4 bytes",
 "Tests encode some 200 encodable characters and no other.",
 ["encoding/cp949/cp949.go", "encoding/cp949/lookup_to.go"], [("translateToCp949.Translate, toTable", "encoding/cp949/cp949.go")], ["To", "NewWriter", "CP949Encoding.NewEncoder"])
prop("C12", "Text in the CP949 repertoire survives a round trip both ways",
 "Encoding and then decoding any text whose characters are all in the CP949 repertoire (ASCII, all 11,172 Hangul syllables, KS X 1001 hanja and symbols) gives the text back, and decoding and then encoding any valid CP949 byte string gives the bytes back. Distinct characters of the repertoire never encode alike, and distinct valid codes never decode alike.",
 ["inputs"], "every character of the repertoire, every valid code, and texts composed of them",
 "Tests check 4 fixed texts in each direction, never composed.",
 ["encoding/cp949/cp949.go", "encoding/cp949/lookup_from.go", "encoding/cp949/lookup_to.go"], [("fromTable and toTable are mutually inverse", "encoding/cp949/lookup_from.go")], ["From", "To"])
prop("C13", "Decoding whole byte strings is total and unit by unit",
 "For every byte string, From terminates without panicking; its output is valid UTF-8 and is the concatenation of the decodings of the successive units (one byte below 0x80, two bytes otherwise), independent of position, neighbours and length. If the string ends in the middle of a two-byte unit it returns ErrCP949UnexpectedStream and no text, and in no other case does it return an error.",
 ["inputs"], "every byte string",
 "Tests decode 4 well-formed strings and one truncated one of length 1; buffer growth and unit boundaries are sampled by accident only.",
 ["encoding/cp949/cp949.go", "encoding/cp949/public.go"], [("translateFromCp949.Translate, ensureCap, appendRune", "encoding/cp949/cp949.go")], ["From"])
prop("C14", "Encoding whole strings is total and character by character",
 "For every byte string, To terminates without panicking and without error, and its output is the concatenation of the encodings of the successive characters (malformed bytes counting as one character each), independent of position, neighbours and length. Output is never longer than the input for well-formed UTF-8.",
 ["inputs"], "every byte string",
 "Tests encode 4 well-formed strings.",
 ["encoding/cp949/cp949.go", "encoding/cp949/public.go"], [("translateToCp949.Translate", "encoding/cp949/cp949.go")], ["To"])
prop("C15", "The decoding reader is insensitive to chunking",
 "Whatever the source's read sizes (including reads of 0 bytes without error, and data delivered together with EOF) and the caller's buffer sizes (including 0), the bytes read from NewReader up to the end are exactly the decoding of the whole source stream, with nothing lost, repeated or reordered, and the end is reported as io.EOF. If the source ends in the middle of a two-byte character, all text before it is delivered first and the end is reported as ErrCP949UnexpectedStream.",
 ["inputs", "schedules", "histories"], "every source byte stream, every sequence of source read sizes, every sequence of caller buffer sizes",
 "No test touches NewReader.",
 ["encoding/cp949/public.go", "encoding/cp949/cp949.go"], [("cp949Reader.Read", "encoding/cp949/public.go")], ["NewReader, Read"],
 [("cdata", "converted but not yet delivered", "encoding/cp949/public.go"), ("rdata", "read but not yet converted", "encoding/cp949/public.go")])
prop("C16", "The encoding writer is insensitive to chunking",
 "However a text is split over Write calls, even inside a character, the bytes that reach the destination are exactly the encoding of the text written so far, without a last incomplete character, which is held back until it is completed. Each successful Write reports all its bytes as written.",
 ["inputs", "schedules", "histories"], "every UTF-8 or malformed byte string and every way to split it into Write calls",
 "No test touches NewWriter.",
 ["encoding/cp949/public.go", "encoding/cp949/cp949.go"], [("cp949Writer.Write", "encoding/cp949/public.go")], ["NewWriter, Write, the destination"],
 [("buf", "bytes of an incomplete character", "encoding/cp949/public.go")])
prop("C17", "The x/text decoder honours the Transformer contract and equals From",
 "For every source, destination size and end-of-input flag, Transform of the decoder from NewDecoder writes within the destination, consumes whole units only, reports nDst and nSrc such that the output is the decoding of the consumed input, and returns nil only if everything was consumed, ErrShortDst only if the next unit does not fit, ErrShortSrc only if the input ends inside a unit that may still be completed. Hence its Bytes, String and Reader give the result of From for inputs of any length, and a truncated input gives an error, never silently shortened or corrupted text.",
 ["inputs", "schedules", "histories"], "every source, destination capacity, end flag, and every sequence of Transform calls",
 "Tests decode 4 texts of at most 500 bytes, with buffers far larger.",
 ["encoding/cp949/encoding.go"], [("cp949Decoder.Transform", "encoding/cp949/encoding.go")], ["NewDecoder: Transform, Bytes, String, Reader"])
prop("C18", "The x/text encoder honours the Transformer contract and equals To",
 "For every source, destination size and end-of-input flag, Transform of the encoder from NewEncoder writes within the destination, consumes whole characters only, reports nDst and nSrc such that the output is the encoding of the consumed input, and returns nil only if everything was consumed, ErrShortDst only if the next character does not fit, ErrShortSrc only if the input ends inside a character that may still be completed. Hence its Bytes, String and Writer give the result of To for inputs of any length.",
 ["inputs", "schedules", "histories"], "every source, destination capacity, end flag, and every sequence of Transform calls",
 "Tests encode 4 texts of at most 500 bytes in one Write each.",
 ["encoding/cp949/encoding.go"], [("cp949Encoder.Transform", "encoding/cp949/encoding.go")], ["NewEncoder: Transform, Bytes, String, Writer"])
prop("C19", "Reader and writer report failures of the streams they wrap",
 "If the source of NewReader fails with an error other than EOF, everything decodable read before the failure is delivered first and then exactly that error is reported, on every later read as well. If the destination of NewWriter fails, that Write returns the destination's error and does not report success.",
 ["fault_sequences", "inputs", "schedules"], "every failure point, every stream content before it, every chunking",
 "No test injects a failure.",
 ["encoding/cp949/public.go"], [("cp949Reader.Read, cp949Writer.Write", "encoding/cp949/public.go")], ["NewReader, NewWriter"])
prop("C20", "Results are independent of earlier and later calls and of callers' writes",
 "Every function returns the same result for the same arguments whatever was called before; it leaves the argument slices unmodified; and a result once returned is never changed by later calls, nor can a caller who writes into a returned slice, or into an argument after the call, influence any later result. Readers, writers, decoders and encoders are independent of each other.",
 ["histories", "inputs"], "every sequence of two or three calls with any arguments, with arbitrary caller writes between them",
 "Tests make each call once, on fresh data.",
 ["encoding/cp949/public.go", "encoding/cp949/cp949.go", "jamo.go", "stroke.go", "hanja/hanja.go", "hangul.go"], [("fresh translator and buffers for each call", "encoding/cp949/public.go"), ("package tables are never handed out", "jamo.go")], ["all exported functions"])
prop("C21", "Hanja conversion rewrites hanja only, character by character",
 "For every valid UTF-8 string, hanja.Convert replaces each character for which IsHanja holds by exactly one Hangul syllable that depends on that character only, and copies every other character unchanged, at any position and length; so the number of characters is preserved, the result contains no convertible hanja, and converting again changes nothing. IsHanja holds only for CJK ideographs, never for ASCII, Hangul or other text, and for malformed input Convert does not panic and returns valid UTF-8.",
 ["inputs"], "every string, every rune",
 "One test converts one sentence.",
 ["hanja/hanja.go", "hanja/table.go"], [("Convert, IsHanja", "hanja/hanja.go"), ("table", "hanja/table.go")], ["hanja.Convert", "hanja.IsHanja"])
prop("C22", "Each hanja has its proper Korean reading",
 "For each of the 27,496 supported hanja, Convert yields the reading published with this version of the library, and IsHanja holds for exactly these characters. The readings of the KS X 1001 hanja are in the order in which that standard (and so code page 949) arranges them, which is by reading, except for its known polyphonic characters.",
 ["inputs"], "every 32-bit rune",
 "One test converts 9 of the 27,496 hanja.",
 ["hanja/table.go", "hanja/hanja.go"], [("table", "hanja/table.go")], ["hanja.Convert", "hanja.IsHanja"])
prop("C23", "All functions may be called concurrently",
 "Any exported function, and distinct readers, writers, encoders and decoders, may be used from several goroutines at the same time on separate data: no call writes, without synchronisation, to memory that another call reads or writes, so every interleaving gives the results of sequential execution.",
 ["schedules", "inputs"], "every interleaving of calls from different goroutines, for all inputs",
 "No test uses more than one goroutine.",
 ["hangul.go", "jamo.go", "stroke.go", "encoding/cp949/public.go", "encoding/cp949/cp949.go", "encoding/cp949/encoding.go", "hanja/hanja.go"], [("package tables are read-only after initialisation; all other state is local to the call or object", "encoding/cp949/cp949.go")], ["all exported functions, under the race detector"])
prop("C24", "The reader delivers what it has before it asks for more",
 "Read of NewReader returns between 0 and len(buffer) bytes: 0 bytes without an error only for an empty buffer or after a source read that delivered nothing. It delivers all text of the complete characters received so far before it reads the source again, so interactive streams never stall; it asks the source for at least one byte each time, never reads it for an empty buffer, and never again once it has ended or failed.",
 ["inputs", "schedules", "histories"], "every stream, every division into reads, every sequence of buffer sizes",
 "Tests read from sources that are complete in memory, so that they cannot see a reader that waits for more than it needs.",
 ["encoding/cp949/public.go"], [("cp949Reader.Read", "encoding/cp949/public.go")], ["NewReader"])
prop("C25", "A Write that failed leaves the writer as it was",
 "If the destination of NewWriter fails without taking anything, the failed Write reports no byte as written and leaves no trace: none of its bytes is held back, the incomplete character pending from earlier Writes still is, and when the destination works again, repeating the Write, or writing something else instead, puts exactly the bytes at the destination that are due without the failed Write.",
 ["fault_sequences", "inputs", "histories"], "every text, every division into Writes, every sequence of failures and repetitions",
 "No test injects a failure.",
 ["encoding/cp949/public.go"], [("cp949Writer.Write", "encoding/cp949/public.go")], ["NewWriter"])
prop("C26", "The exported letter constants stand for the letters they are named for",
 "Each exported letter constant is the jamo, in the form its prefix says (none: compatibility, Lead, Medial, Tail), of the letter it is named for, and every modern jamo in every form has one. The functions agree with the constants: CompatJamo, Lead, Medial and Tail take the constant of a letter in one form to the constant of the same letter in the other (0 if there is none), and the predicates hold for exactly the constants of their form.",
 ["inputs"], "every constant; every rune that one of the predicates calls a letter",
 "Tests use 18 of the 119 constants.",
 ["constant.go", "jamo.go"], [("the constant blocks", "constant.go"), ("CompatJamo, Lead, Medial, Tail and the predicates", "jamo.go")], ["values of the constants, results of the functions for them"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
