#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import sys, os, json
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props
T = {
"C01": ("online monitor with error-bounded reference, guard pages, ASan/UBSan", "random networks, SIMD builds and buffer offsets; trusts the double-precision reference"),
"C02": ("online monitor against per-sample prediction, guard pages, ASan/UBSan", "random networks, batches, threads and builds, incl. a > 2^31-value data set"),
"C03": ("online monitor with reverse-mode reference gradient, guard pages, ASan/UBSan", "random networks and losses, all builds; trusts the reference gradient"),
"C04": ("online monitor over float sweeps against double precision, guard pages, ASan/UBSan", "every float in the thorough tier, samples of each binade in the quick one"),
"C05": ("online monitor against the published formulas, ASan/UBSan", "random widths, values and offsets"),
"C06": ("online monitor recomputing the metrics over the whole set, ASan/UBSan", "random networks and data sets, incl. > 2^24 samples"),
"C07": ("monitor over recorded epochs: conservation of samples through gradients and callbacks", "random optimizers, sizes, batches; ASan/UBSan"),
"C08": ("online monitor replaying every step with the update rule in double precision", "random optimizers, properties and sizes; all SIMD builds"),
"C09": ("differential trace monitor: interleaved run against each instance alone in its own process", "random schedules of 2-5 instances; bit-exact"),
"C10": ("round-trip monitor with numpy as independent reader and writer, ASan/UBSan", "random networks with hostile bit patterns"),
"C11": ("fault-injecting monitor: mutated model files judged by an independent parser, ASan/UBSan", "random and systematic mutations"),
"C12": ("round-trip monitor against numpy in both directions, ASan/UBSan", "all types, orders, ranks 0-8, npy, npz, compressed, mmap"),
"C13": ("fault-injecting monitor: mutated files judged by an independent parser, ASan/UBSan, leak accounting", "random and systematic mutations"),
"C14": ("system-call fault and kill injection by ptrace, post-mortem monitor", "every file-system call of a save x errors, short writes and kills"),
"C15": ("ThreadSanitizer over all parallel regions on an instrumented OpenMP runtime, outcome monitor", "stress with injected delays; races seen on executed schedules"),
"C16": ("ASan/UBSan, valgrind and allocation accounting over random API histories", "random valid call sequences"),
"C17": ("allocation-fault enumeration with accounting and ASan", "every allocation of each construction fails once, and from then on"),
"C18": ("statistical monitor on drawn weights (bounds, moments, Kolmogorov-Smirnov) and scripted rand()", "fixed-seed tests with false alarm probability below 1e-9"),
"C19": ("trace monitor with scripted results against a reference automaton", "random histories and configurations"),
"C20": ("trace monitor: the file is read back after every epoch", "random histories and configurations"),
"C21": ("trace monitor: the log is parsed after every epoch", "random histories, metric names and existing files"),
"C22": ("online monitor of the parameter layout with guard pages, ASan/UBSan", "random networks and offsets, all SIMD builds"),
"C23": ("online monitor with generated shared libraries, loader accounting, ASan/UBSan", "random load orders and names"),
"C24": ("online monitor against double precision, guard pages, ASan/UBSan, all SIMD builds", "every size up to several vectors and random larger ones, every alignment"),
"C25": ("trace monitor parsing the display on a pseudo-terminal, ASan/UBSan", "random totals and widths"),
"C26": ("monitor of every call to user-defined optimizers, losses, metrics and callbacks, ASan/UBSan", "random networks and configurations, several builds"),
"C28": ("differential monitor over builds: files exchanged between all of them, predictions against one reference, the other monitors on installed libraries", "18 builds, random networks"),
"C29": ("system-call fault injection by ptrace, file and return value compared with the intended content, ASan", "every file-system call of each save and load x errors, short transfers and calls failing from there on"),
"C27": ("end-to-end trace monitor: checkpoint, log, stop decision and resumed run against recorded results", "random training runs, several builds; the example programs on random data, their reports recalculated with numpy"),
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=T[i][0], level=props.PROPS[i]["level"], level_note=T[i][1]))
    else: na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: harnesses compile the unchanged sources in several builds (or run configure and make in a copy) and watch them from outside. Repaired defects and known findings: known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
