#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
T = {
    "C01": ("generated modules encoded by an independent encoder, compared with the parsed module field by field", "Sampled modules; every opcode, every immediate at its boundaries and every vector length up to a few thousand are enumerated."),
    "C02": ("structure-aware and blind corruption of encodings, compared with an independent decoder in both directions", "Sampled; all one-byte changes of small encodings and all opcode, tag and section bytes are enumerated."),
    "C08": ("fuzzing with byte, token and length mutations under a counting allocator and a crash supervisor", "Sampled; every length field of one module is replaced by all powers of two and neighbours. Nesting above 3000 and more than 2^20 locals are excluded as recorded findings."),
    "C09": ("metamorphic: styled encodings of one generated module must parse to equal modules with equal verdicts", "Sampled, all format freedoms combined."),
    "C10": ("enumerated and generated section sequences and preambles against the ordering rule", "All section sequences up to a small length and all single-byte changes of the preamble; longer ones sampled."),
    "C11": ("differential: the same bytes through differently behaving sources", "Sampled inputs, over a fixed set of source behaviours with random chunking and size hints."),
    "C12": ("mutated, borderline and enumerated modules against an independent validator; accepted-but-invalid is reported", "Sampled; straight-line and nested bodies are enumerated over a small instruction alphabet."),
    "C13": ("generated valid modules and enumerated bodies against an independent validator; rejected-but-valid is reported", "Sampled; straight-line and nested bodies are enumerated over a small instruction alphabet, and sizes up to 10^5 are tried."),
    "C14": ("enumeration of all instructions against all operand stacks up to a bounded depth, oracle: an independent typing table", "Complete for operand stacks up to depth 4 per instruction and for all result uses; sequences sampled."),
    "C15": ("enumerated and generated control structures against an independent validator", "Enumerated for small nesting and stacks, sampled beyond."),
    "C16": ("generated index spaces with every index at and around the border, against the index rule", "Enumerated for small spaces and all occurrences, sampled for large ones."),
    "C17": ("enumerated and generated initialiser expressions against the constant-expression rule", "All sequences up to length 3 over an alphabet of one instruction per kind; longer ones sampled."),
    "C18": ("enumerated and generated declarations at and around every limit against the module rules", "Limits enumerated at powers of two and neighbours, export name collisions sampled."),
    "C19": ("enumeration of all memory instructions, alignments, operands and memory declarations", "Complete over instructions, alignment exponents 0 to 40 and boundary offsets."),
    "C20": ("generated modules; the reported external types compared with those computed independently", "Sampled; every kind of re-exported entity is enumerated."),
    "C21": ("histories and threads of validations and parses, compared with each verdict in isolation; permuted and partial modules", "Sampled histories and interleavings of up to 8 threads."),
    "C22": ("enumerated and generated local and global accesses against the declared types", "Enumerated for small declarations, sampled for long ones."),
    "C23": ("generated encodings with exactly one defect; the error compared with the defect's kind", "Sampled positions; all tag, opcode and section bytes enumerated."),
    "C24": ("generated files, names and flags given to the built tool, outcome computed independently", "Sampled."),
    "C25": ("generated inputs under Miri, AddressSanitizer and MemorySanitizer", "Sampled; floats cut at every byte are enumerated in all containers. Undefined behaviour that none of the tools detects is not seen."),
    "C03": ("enumeration and generated byte sequences against an exact LEB128 model", "All sequences of at most 2 bytes and all last two groups after eight prefixes are covered completely; longer ones are sampled."),
    "C04": ("enumerated and random bit patterns, read back bit by bit", "All signs and exponents with patterned mantissas; all f32 patterns in the thorough tier, f64 sampled."),
    "C05": ("generated containers and strings against an own UTF-8 and framing model", "All strings of up to four critical bytes and all code points; everything else sampled, lengths at powers of two up to 2^20+1."),
    "C06": ("generated regions with right and wrong sizes against the framing rule", "Sampled; announced sizes off by one and by powers of two, up to four levels of nesting."),
    "C07": ("generated element sequences; position of a counting source after each element", "Sampled over 160 element types; each element is cut at every byte."),
}
have = [p["id"] for p in props if p["id"] in T]
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i][0] + ("" if i in ("C24", "C25") else "; then a coverage-guided search over the choices of the generators"),
            "level": "exploration",
            "level_note": T[i][1],
        }
        for i in have
    ],
    "not_applicable": [],
    "notes": "All checks are property-based tests and fuzzers in one harness crate; see DESIGN.md. A failing case is written to replays/ and rerun with `target/release/harness replay FILE`.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
missing = [p["id"] for p in props if p["id"] not in T]
print("without a check:", missing)
