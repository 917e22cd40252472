#!/usr/bin/env python3
"""Writes MANIFEST.json and sim/budgets.json (one place to edit both)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
RUN = "One run = one seed: a JSON plan drawn from it, executed in its own fork of a process in which SALib was imported behind the simulator's seams. "
POOLS = ["stdlib/pathos/p_tqdm process pools, their pickling and failure protocol (sim/pools.py: one process, tasks run in seeded order on pickled copies)"]
CLOCK = ["time.*, os.cpu_count, os.getpid, OS entropy, hash seed (per shard)"]
FILES = ["raw file operations below the scratch directory (real files, injected short/torn/failing reads, writes, closes, opens)", "standard output sink"]
REAL = "all of src/SALib, numpy, scipy, pandas"
# id: (rule, level_note, stubs, assumptions, quick wall, quick runs, thorough wall)
T = {}
# Quick tier: a fixed number of runs (about 50 s on eight idle cores), so that two quick
# checks of one tree explore the same runs whatever the load; the wall limit is a backstop.
QUICK = dict(C01=14000, C02=2000, C03=6400, C04=7200, C05=13600, C06=16000, C07=5200, C08=3200, C09=2400, C10=2000,
             C11=6400, C12=3600, C13=6000, C14=9600, C15=2400, C16=1440, C17=2400, C18=3600, C19=3200, C20=1200, C21=3200, C22=900)
def t(id, rule, note, stub, assume=(), qw=240, qr=None, tw=600):
    qr = QUICK[id]
    T[id] = dict(rule=RUN + rule, note=note, stub=stub, assume=list(assume), qw=qw, qr=qr, tw=tw)
PA = "simulated pools keep the documented contract of multiprocessing/pathos/p_tqdm (ordered map results, arguments and results pickled once per task, exceptions re-raised at collection)"
t("C01", "Non-trivial: at least two tasks ran in a worker and a result was stored and compared with serial evaluation bit for bit; distinct by completion orders of the pools.",
  "Seeded search over worker schedules, process and processor counts; bit-exact comparison with serial evaluation. Trusts the pool stand-ins to keep the pool contract.", POOLS + CLOCK, [PA])
t("C02", "Non-trivial: two or more outputs analysed in simulated workers and compared with serial analysis; distinct by completion orders.",
  "Seeded search over schedules; every analyser compared with its serial run to 1e-9 (HDMR 1e-6).", POOLS + CLOCK, [PA])
t("C03", "Non-trivial: parallel run compared with the one-processor run; distinct by completion orders and options.",
  "Seeded search over schedules and processor counts; values compared to 1e-9 with the serial run of the same seed.", POOLS + CLOCK, [PA])
t("C04", "Non-trivial: an injected fault actually struck a task; distinct by fault kind, task and completion order.",
  "Seeded fault injection; after each failed call the state is compared with the state before, then the fault is lifted and the call must succeed with the serial results.", POOLS + CLOCK, [PA, "a worker killed by the OS makes CPython's multiprocessing.Pool wait for ever; that library behaviour is outside the model"])
t("C05", "Non-trivial: results were stored over at least one simulated server, or a fault struck; distinct by completion orders and fault.",
  "Seeded search over server lists, answer orders and failures with a stand-in for pathos' parallel-python pools and servers.", ["pathos.pp pools and job servers (sim/pools.py)"] + CLOCK, [PA])
t("C06", "Non-trivial: a history of three or more steps with at least one result stored; distinct by abstract state sequence.",
  "Seeded histories against a small reference model of the three stages, with failing models, samplers and analyses in between.", POOLS + CLOCK, [PA])
t("C07", "Non-trivial: an interrupt or allocation failure landed inside SALib code; distinct by line interrupted.",
  "Seeded interrupts at lines of SALib code (sys.monitoring) inside every sampler, analyser and problem step, then state comparison and retry.", ["line-level interrupts (KeyboardInterrupt, MemoryError)"] + POOLS, ["interrupts land between lines of SALib code, not inside numpy's C code"])
t("C08", "Non-trivial: a valid sampler call; distinct by sampler and the two preceding history steps.",
  "Seeded histories and environments; every later call compared with a pristine process and with a second process with another hash seed, clock, processor count and entropy.", CLOCK + FILES)
t("C09", "Non-trivial: the analysis gave mostly finite indices; distinct by method and the two preceding history steps.",
  "As C08, for the analysis methods.", CLOCK + FILES)
t("C10", "Non-trivial: the scheduler switched between threads inside SALib code; distinct by threads, switch points and number of switches.",
  "Real threads run one at a time, switched at seeded lines of SALib code; every client's result compared with its solo run in a pristine process.", ["thread scheduling (baton passing at SALib line events)", "locks made by SALib"] + CLOCK, ["preemption happens between lines of SALib code, not inside numpy/scipy"])
t("C11", "Non-trivial: the command ran and its file was compared in full, or a fault struck; distinct by sampler, option set and fault.",
  "Seeded disk faults under the real command line; the file is read back by an independent reader and compared with the Python call.", FILES + CLOCK, ["crash model: data handed to the OS before a kill survives, later data does not"])
t("C12", "Non-trivial: the printed table was compared in full, or a fault struck; distinct by method, options and fault.",
  "Seeded read/stdout faults under the real command line; text compared with the table of the Python call.", FILES + CLOCK)
t("C13", "Non-trivial: the model run was cut and an incomplete output was offered; distinct by method, design and cut.",
  "Seeded crash points of the model run and resume cycles; incompleteness decided by an independent model of the designs.", ["the user's model run (crash and resume)"], ["lengths that another complete design of the same problem also has (e.g. FAST at multiples of D) are accepted by design of the API and not counted"])
t("C14", "Non-trivial: the file was read in two or more pieces or a fault struck; distinct by file shape and fault.",
  "Seeded chunkings, read errors and interrupts; the definition compared with the one the harness wrote.", FILES)
t("C15", "Non-trivial: two or more calls shared objects; distinct by call sequence.",
  "Seeded histories over shared dictionaries, problem objects and arrays; every step compared with the same step in a pristine process, inputs compared bit for bit.", CLOCK)
t("C16", "Non-trivial: a save was attempted; distinct by outcome and options.",
  "Seeded save outcomes; indices compared with the run without saving, table with the analysed data.", ["pandas.DataFrame.to_parquet (no parquet engine is installed here): a stand-in disk that stores, fails or writes partially"] + CLOCK)
t("C17", "Non-trivial: the problem or its analysis was saved or copied at least once; distinct by way of saving, continuation and step.",
  "Seeded histories with crash points between steps and inside the model; restored here or in a second process with another hash seed; every later state compared with the uninterrupted history of a pristine process.", POOLS + CLOCK + ["crash and restart (the process goes on with what was saved)"], [PA])
t("C18", "Non-trivial: at least one call was observed; distinct by call, outcome and interrupted line.",
  "Seeded settings of the process, then calls under interrupts, failing models, pools, disks and bad data; the process' state is compared before and after every call.", POOLS + FILES + ["line-level interrupts (KeyboardInterrupt, MemoryError)"],
  ["interrupts are not injected into clean-up code (finally, except and with statements) itself", "one call at a time: warnings.catch_warnings is documented not to be thread-safe"])
t("C19", "Non-trivial: a design was drawn in two or more batches, or a generator served two or more calls; distinct by sampler, batch and restart, or call, generator kind and crash.",
  "Seeded splits, losses, restarts and checkpoints; every piece compared with the campaign a pristine process draws in one go.", ["crash and restart (a campaign goes on with what was saved)"] + FILES + CLOCK)
t("C20", "Non-trivial: the scheduler switched between threads inside SALib code; distinct by the calls of the threads, switch points and number of switches.",
  "Real threads sharing one problem, data and result run one at a time, switched at seeded lines of SALib code; every result compared with the same call alone, the shared things with what they were.", ["thread scheduling (baton passing at SALib line events)", "locks made by SALib"] + CLOCK, ["preemption happens between lines of SALib code, not inside numpy/scipy"])
t("C21", "Non-trivial: at least one pool was made and its size judged; distinct by call, processes, processors, outputs, rows and fault.",
  "Model and analyses note every row and output they are given while seeded schedules and faults run; pool sizes and life are read from the simulated pools.", POOLS + CLOCK, [PA])
t("C22", "Non-trivial: at least one nested call was made inside the outer study; distinct by outer method, nested call and depth.",
  "Seeded nestings inside sampler, model and analysis functions; nested and outer results compared with the same work done alone in a pristine process.", POOLS + CLOCK, [PA, "nested work does not change the very problem object that is being worked on"])
from_na = {
 "N01": "structure of one sample as a function of one input: no schedule, clock, I/O, fault or history for a simulator to decide",
 "N02": "pure function of one input array and problem: nothing nondeterministic to simulate",
 "N03": "statistical accuracy of estimators, a numerical statement about one call: nothing for a simulator to decide",
 "N04": "pure function of one problem and data set: nothing nondeterministic to simulate",
 "N05": "pure conversion of one result object to a table or figure: nothing nondeterministic to simulate",
 "N06": "pure closed formulas: nothing nondeterministic to simulate",
 "N07": "parsing rules, a pure function of the file's text; how reads of it can split or fail is C14",
}
here = [i for i in sorted(T) if os.path.exists(os.path.join(H, "sim", "props", i.lower() + ".py"))]
checks = [{"property": i, "quick_cmd": "%s check.py %s quick" % (PY, i), "thorough_cmd": "%s check.py %s thorough" % (PY, i),
           "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
           "level": "exploration", "level_note": T[i]["note"]} for i in here]
na = [{"property": k, "reason": v} for k, v in from_na.items()]
na += [{"property": i, "reason": "check not built yet"} for i in sorted(T) if i not in here]
m = {"version": 1, "setup_cmd": "%s -c \"import numpy, scipy, pandas, SALib\"" % PY, "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is put in place from outside before SALib is imported. Replay: %s check.py replay replays/<file>. Determinism self-test: %s check.py selftest." % (PY, PY)}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
b = {}
for i in sorted(T):
    x = T[i]
    ev = {"assumptions": x["assume"], "components_real": REAL, "components_simulated": x["stub"]}
    b[i] = {"quick": {"runs": x["qr"], "wall": x["qw"], "rule": x["rule"], "evidence": ev},
            "thorough": {"runs": 2000000, "wall": x["tw"], "rule": x["rule"], "evidence": ev}}
json.dump(b, open(os.path.join(H, "sim", "budgets.json"), "w"), indent=1)
