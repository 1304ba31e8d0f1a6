#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ trace validation with TLC of events recorded from the real code"
GEN = "; inputs enumerated by TLC (%s) plus seeded generators"
NOTES = {
    "C01": (TV + "; MCInts, MCItoa model-checked", "8-bit types exhaustive (16-bit in thorough), every decade/chunk boundary and seeded bulk for wider types; the digit cascade is model-checked exhaustively in radix 2 and 3."),
    "C02": (TV + GEN % "GenText", "Every byte in every lexical position, all class strings up to length 3 (4), numerals around 2^k and 10^k, overlong numerals, every integer type; reading is model-checked against writing in MCInts."),
    "C03": (TV, "Every type; 8-bit types, char, bool, null exhaustive; structured and seeded floats/doubles over every exponent."),
    "C04": (TV + "; MCGrisu (reduced-precision Grisu2) model-checked", "Exact rounding-interval membership for structured and seeded doubles over every binary exponent; exhaustive only at reduced precision."),
    "C05": (TV + "; MCGrisu model-checked", "Exact shortness/closeness relation with the 1% margins of the statement; exhaustive only at reduced precision."),
    "C06": (TV + "; MCLayout model-checked", "Canonical layout recomputed from the digits read back; the in-place layout algorithm is model-checked for every digit count and exponent."),
    "C07": (TV, "All special classes; float and long double conversions judged exactly; over every exponent."),
    "C08": (TV + GEN % "GenText" + "; MCReading model-checked", "Nearest-even relation decided exactly; midpoints and their neighbours generated exactly; the whole range of long double; hexadecimal texts not judged."),
    "C09": (TV + GEN % "GenText" + "; MCTexts model-checked", "Any encoder that decodes exactly is accepted; all class strings up to length 3 (4), every pair of adjacent bytes, seeded longer texts."),
    "C10": (TV + GEN % "GenText" + "; MCTexts model-checked", "As C09, also under a Latin-1 locale."),
    "C11": (TV + GEN % "GenText", "All class strings over the words' letters up to length 5 (6), every one-byte edit of the words, all 256 chars."),
    "C12": (TV + "; histories generated by TLC (GenHeap: every transition of the 3-object heap, plus random walks); MCHeap model-checked", "Every heap transition for 3 objects and 2 values replayed on each formatter class; baseline texts come from pristine child processes."),
    "C13": (TV, "Every accessor and generic function of every formatter kind over boundary and seeded values."),
    "C14": (TV + " (sanitizer/valgrind builds: a fault is an event no action explains); MCDtoaBounds, MCLayout model-checked", "AddressSanitizer, UBSan and valgrind see only executed paths; the table/buffer bounds of the double formatter are model-checked for every exponent."),
    "C15": (TV + "; the configuration is part of the specification's state", "4 (7) configured builds and the default, spellings of 0 to 53 characters."),
    "C16": (TV + " recorded from several threads, plain and ThreadSanitizer; MCThreads model-checked", "Schedules are sampled, but ThreadSanitizer reports unsynchronised sharing whatever the schedule; the design is model-checked for all interleavings of 3 threads."),
    "C17": (TV + " against a register machine over exact naturals; histories generated by TLC (GenBig); MCBig model-checked", "Random walks, directed carry/borrow/shift/capacity histories, sanitised and portable builds; algorithms exhaustive with 2-bit words."),
    "C18": (TV, "Powers of ten exhaustive; classification over structured and seeded patterns, both signs."),
    "C19": (TV + " (same call in reference and other locales)", "Comma, grouping and two ISO-8859 locales (6) compiled with localedef; one known finding (comma decimal point in float extraction), modelled as the action KnownComma."),
    "C20": (TV, "Every supported type crossed with boundary values, generic functions against classes; every call form on every type must be accepted (compile-time probes logged as accept events)."),
    "C21": (TV + " (same call in reference and other builds)", "4 (11) builds: GCC/Clang, -O0..-O3, unsigned char, no elision, portable code paths."),
    "C22": (TV + " (each call in a pristine process, then in histories; allocation balance)", "Histories are sampled, built around near-equal arguments and throwing calls; leaks are judged by repeated calls in an allocation-counting build."),
    "C23": (TV + "; histories generated by TLC (GenHeap) and mapped to extractor objects; MCHeap model-checked", "Every transition of 3 objects and 2 texts, random walks, and bulk texts read as every type of their family."),
    "C24": (TV + " (same call under each rounding mode)", "All four rounding modes over structured and seeded doubles at every exponent."),
    "C25": (TV + " (DiyTrace) against exact arithmetic; MCGrisu model-checked", "Cached powers exhaustive over all exponents; products aimed at the rounding boundary plus seeded ones; GCC, Clang and portable builds."),
    "C26": (TV + "; MCLayout, MCInts model-checked", "JSON forms judged by the grammar and by exact value; 8-bit types and char exhaustive, structured and seeded values elsewhere; every layout of a double is model-checked to be a JSON number."),
    "C27": (TV + " under allocation faults", "Every single allocation of every sampled call fails, alone and with all that follow; calls over every type and operation, text lengths 0 to 70 and beyond."),
    "C28": (TV + " (same call before, in and after main)", "One order of initialisation that precedes, and one of destruction that follows, everything in the library; unoptimised build, so that nothing is folded (also -O2 and Clang in thorough)."),
    "C29": (TV + " (measured cost)", "Texts of 128 kB and 1 MB of repeated units; measured processor time with a factor-3 margin, so growth between linear and about n^1.5 is not told apart."),
}
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n) for p, (t, n) in sorted(NOTES.items())]
m = dict(version=1, setup_cmd="python3 check.py selftest", checks=checks, not_applicable=[],
         notes="No hooks: the drivers use the public headers and the internal headers under include/lexi/detail. TLA+/TLC; see DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
