#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the list of implemented checks."""
import json, subprocess
TECH = {
 "C01": ("online comparison of the reader's items with a reference splitter under adversarial read boundaries", "exploration"),
 "C02": ("heap and stack monitors plus read-fault injection on the line reader", "exploration"),
 "C03": ("tokenizer under hostile Unicode and separator floods in a bounded stack, cross-thread purity monitor", "exploration"),
 "C04": ("metamorphic monitor: token equality of lines differing in volatile values", "exploration"),
 "C05": ("token monitor against the words a line was built from", "exploration"),
 "C07": ("conservation monitor: self-inspection and rearranged, volatile-substituted content must give an empty report", "exploration"),
 "C08": ("online comparison of anomalies with a reference detector around chunk boundaries, duplicate runs and file groups", "exploration"),
 "C09": ("context monitor: before/after lists checked against the file's true neighbours", "exploration"),
 "C10": ("accounting monitor over reports of trees with injected unreadable and unmatched sources", "fault_enumeration"),
 "C14": ("differential monitor plain/compressed trees, truncation and bit-flip injection", "fault_enumeration"),
 "C26": ("metamorphic monitor over rearranged, distributed and enlarged baselines", "exploration"),
 "C11": ("file listing monitor over generated trees with look-alike noise names, symlinks and odd names", "exploration"),
 "C12": ("metamorphic monitor over file names: equal names for rotations, different names for different logs", "exploration"),
 "C13": ("save/load monitor with write failures at every byte range, full device and cut files", "fault_enumeration"),
 "C15": ("cache monitor with injected remote errors, early ends, write failures, process death and concurrency", "fault_enumeration"),
 "C16": ("history monitor: cache operations over look-alike locations against a map", "exploration"),
 "C17": ("crawl monitor against a mock site with delayed, reordered and failing responses and a request log", "exploration"),
 "C18": ("page monitor: rendered reports read back by an HTML tokenizer, hostile against innocuous strings", "exploration"),
 "C19": ("process monitor: the real command line tool against the report of the library, outputs and exit codes", "exploration"),
 "C20": ("dominance monitor of discovered baselines against a mock Zuul service and its request log", "exploration"),
 "C21": ("decode/encode monitor of hostile Zuul documents and request-log monitor of build pages", "exploration"),
 "C22": ("differential monitor: remote against local trees, caches off, cold and warm, with cut bodies and a request log", "fault_enumeration"),
 "C23": ("replay monitor: archived models, targets and reports of this release against the current code", "exploration"),
 "C24": ("differential monitor of the Python module in a real interpreter, with wrong, foreign and damaged models", "exploration"),
 "C25": ("input monitor: strings, paths and locations against the content they must become", "exploration"),
 "C27": ("process monitor: the test command over datasets with planted anomalies and right or wrong descriptions", "exploration"),
 "C28": ("history and schedule monitor: analyses after and beside others against the same analysis in a fresh process, and ThreadSanitizer", "exploration"),
 "C29": ("process monitor with fault injection: the command line program on a mock service against the analysis on disk and the request log", "fault_enumeration"),
 "C30": ("heap monitor (counting allocator): a log and one many times as long with the same distinct lines", "exploration"),
 "C06": ("differential monitor of three search implementations against a reference cosine", "exploration"),
}
NOTE = "Held on the executions observed (counts in the evidence file), judged by an oracle independent of the code; no proof for inputs not generated."
def main():
    props = [json.loads(l) for l in open('/verif/properties.jsonl')]
    done = subprocess.run(['/verif/target/debug/vh', 'list'], capture_output=True, text=True).stdout.split()
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in done and i in TECH:
            checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                           "technique": "runtime monitoring: " + TECH[i][0], "level": TECH[i][1],
                           "level_note": TECH[i][2] if len(TECH[i]) > 2 else NOTE})
        else:
            na.append({"property": i, "reason": "monitor not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every monitor observes the public API, the file system, the network or the process boundary. Commits in /repo are fix: commits, listed in KNOWN_FINDINGS.txt."}
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
    open('/verif/MANIFEST.json', 'a').write('\n')
main()
