"""Writes MANIFEST.json for the properties whose module exists."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "C01": ("strict RP66 framing monitor over generated writes", "Every observed file is parsed by an independent strict "
            "framing parser; body lengths are swept around every multiple of the record capacity."),
    "C02": ("reassembly oracle against tapped records and across record lengths", "Reassembled records equal the tapped "
            "ones and those of the same specification at another record length; contents equal the specification."),
    "C03": ("bit-exact reference model of frame data, dlisio cross-check", "Slots compared bit for bit with the rows "
            "supplied, for generated dtypes, byte orders, layouts, casts and special values."),
    "C04": ("strict EFLR component-grammar monitor", "All explicitly formatted records of generated specifications are "
            "decoded by an independent strict parser with nothing left over."),
    "C05": ("reference model of the specification vs decoded objects", "Decoded attributes compared with a model which "
            "interprets the same program of API calls."),
    "C06": ("independent encoders/decoders over boundary and history sweeps", "Struct writer and written files compared "
            "with own encodings; unrepresentable values must raise."),
    "C07": ("identity and reference-resolution monitor", "Random object graphs and orders of calls; references resolve "
            "uniquely to the intended object."),
    "C08": ("descriptor/record-length consistency monitor", "Descriptors decoded from the file are compared with the "
            "lengths of its records and with the data supplied."),
    "C09": ("record-order automaton over decoded files", "Sequence of records checked by an automaton for random orders "
            "of calls."),
    "C10": ("byte equality across chunkings and on-disk prefix monitor at each flush", "Final bytes equal over chunk "
            "configurations; on-disk content checked at each flush."),
    "C11": ("metamorphic byte equality across data sources and windows", "Same data through four kinds of sources; "
            "windows compared with pre-sliced data."),
    "C12": ("fail-closed oracle over a catalogue of invalid inputs", "Each unrepresentable input must raise; whatever is "
            "written must decode to the specification."),
    "C13": ("index statistics recomputed from decoded rows", "Frame index metadata compared with statistics of the rows "
            "in the same file."),
    "C14": ("byte equality of in-process histories with a fresh process", "Histories of build/write/mutate compared with "
            "fresh subprocesses executing the final specification."),
    "C15": ("writability sweep over record lengths and body sizes", "Valid specifications at every accepted record "
            "length and body size must be written and decode."),
    "C16": ("payload equality monitor on no-format records", "Type-1 records compared byte for byte with the payloads."),
    "C17": ("mode automaton and restricted-aspect catalogue", "Each restricted aspect violated or not under sequences of "
            "entering and leaving the mode."),
    "C18": ("per-logical-file reference model, shared-set rejection", "Contents of each logical file compared with its "
            "own model; sharing must be rejected."),
    "C19": ("checksums of the caller's data around writes", "All caller-owned buffers, dicts and HDF5 files compared "
            "before and after successful and failing writes."),
    "C20": ("byte equality with the history without the rejected calls", "Rejected add_* calls and failed writes must "
            "leave no trace in later files."),
}


def main():
    props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    missing = []
    for p in props:
        if not os.path.exists(os.path.join(HERE, "vf", "props", p.lower() + ".py")):
            missing.append(p)
            continue
        tech, note = NOTES[p]
        cmd = f"/opt/venv/bin/python -B run.py {p}"
        checks.append({"property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "technique": "runtime monitoring: " + tech, "level": "exploration",
                       "level_note": note + " Held on the executions observed (see evidence), not proved; trusts the "
                       "harness's own reader and model."})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, h5py, dlisio\"",
         "hooks": {"guard": "WELL_ID_DLISWRITER_VERIF", "enable": "environment variable WELL_ID_DLISWRITER_VERIF=1 "
                   "(set by run.py); dliswriter is imported from /repo/src, nothing to compile",
                   "source_commits": HOOKS},
         "checks": checks,
         "not_applicable": [{"property": p, "reason": "check not built yet"} for p in missing],
         "notes": "run.py replay FILE re-runs the case of a replay file. Evidence in evidence/."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


HOOKS = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "4dfcac0"], text=True).strip()]
main()
