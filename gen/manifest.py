#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os

CHOICE = "exhaustive enumeration of the bounded choice tree of {} on the real code, compared with an independent reference model"
NOTE = " Exhaustive within the bounds written into the evidence; says nothing beyond them. Trusts the reference model in mc/src, rustc and std."
T = {
    "C01": ("values of ~95 types", "Every generated value up to the deviation bound is encoded and decoded by the real code at every offset tried."),
    "C02": ("values and byte strings of ~95 types", "Real encodings are compared byte for byte with the layout of an independent encoder, and bytes of that encoder are decoded."),
    "C03": ("byte strings decoded as ~95 types", "Every byte string is decoded under a counting allocator, a watchdog and a small stack."),
    "C04": ("byte strings decoded as ~95 types", "What the real decoder accepts is compared with an independent decoder, value and length."),
    "C05": ("values of ~90 types", "Every generated value is written as JSON and read back by the real code."),
    "C06": ("values of ~90 types", "Every text written is parsed by a strict RFC 8259 parser and compared with the value."),
    "C07": ("spellings and mutants of JSON documents", "Every text which denotes a value by an independent decoder is read as that value."),
    "C08": ("JSON texts (tries, mutants, floods)", "Every text is decoded under a counting allocator, a watchdog and a small stack."),
    "C09": ("JSON texts (tries, mutants)", "Every text which by an independent decoder denotes nothing is rejected."),
    "C10": ("values of ~90 types", "Every generated value is written as RON and read back by the real code."),
    "C11": ("spellings and mutants of RON documents", "Every text which denotes a value by an independent decoder is read as that value."),
    "C12": ("RON texts (tries, mutants, floods)", "Every text is decoded under a counting allocator, a watchdog and a small stack."),
    "C13": ("RON texts (tries, mutants)", "Every text which by an independent decoder denotes nothing is rejected."),
    "C14": ("TOML documents", "Every document within the supported subset is parsed to the map which an independent parser gives."),
    "C15": ("TOML texts (tries, mutants, floods)", "Every text is parsed under a counting allocator, a watchdog and a small stack; faults found by an independent parser are rejected."),
    "C16": ("derive attribute combinations x values x documents", "Types with every combination of attributes up to the bound are generated, compiled against the real derive macro and checked against the schema each should have."),
    "C17": ("type shapes x values", "Types of every shape up to the bound are generated, compiled with the real derive macro and round-tripped in three formats."),
    "C18": ("fault positions in array decoding", "Every fault position of every array shape up to the bound is injected; a registry of live elements counts drops."),
    "C19": ("rejected inputs of four formats", "The position of every error is compared with the reader state and with the token an independent decoder finds at fault."),
    "C20": ("numbers and numerals", "Numbers and numerals of bounded shape, in the thorough tier every f32, are encoded and decoded and compared with exact arithmetic."),
    "C21": ("strings and escape sequences", "Every Unicode scalar value in every position and escape form is encoded and decoded."),
    "C22": ("feature sets", "All 32 feature sets are built, and a probe over a bounded set of values and documents is compared between them."),
    "C24": ("histories, nests and thread interleavings of calls", "Every call of every history, nest and interleaving up to the bound gives what it gives in a process of its own; threads are run one at a time under a controlled scheduler which hands over at the callbacks."),
    "C25": ("calls on elements of every kind of memory, and of pairs of calls on two threads", "Every execution up to the bound is run on the real code under Miri, whose monitor checks every access to memory."),
    "C26": ("calls on machines of 32 and 64 bits and of both byte orders", "Every execution up to the bound is run by the real code built for x86_64, wasm32 (under node) and s390x (under Miri), and the results are compared."),
    "C27": ("values of ~115 types, written in several ways", "Every value up to the bound, those which do not round-trip included, is written under a counting allocator and a watchdog, several times and built in two ways, and read back."),
    "C28": ("single faults in valid inputs of ~100 types", "Every single fault of the listed kinds, in every place of every value up to the bound, is decoded by the real code, and the reason compared with the fault which was put in."),
    "C23": ("sequences of values over one reader state", "Every sequence up to the bound is written into one output and read back from one reader state."),
}

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl") if l.strip()]
    done = open(f"{here}/gen/claimed.txt").read().split()
    checks = [
        {
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "stateless model checking: " + CHOICE.format(T[i][0]),
            "level": "model_checking",
            "level_note": T[i][1] + NOTE,
        }
        for i in have if i in done
    ]
    m = {
        "version": 1,
        "setup_cmd": "bash run.sh build",
        "checks": checks,
        "not_applicable": [{"property": i, "reason": "no check yet"} for i in have if i not in done],
        "notes": "No hooks: everything is observed through the public API.",
    }
    json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
    open(f"{here}/MANIFEST.json", "a").write("\n")

main()
