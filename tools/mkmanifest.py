#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C": "runtime monitoring: the real calendars driven over every day of 1901-2199 (or seeded histories of queries), judged online by an independent rule-based oracle or a day-by-day count",
 "D": "runtime monitoring: real date operations driven over the representable range, judged online by an independent integer calendar; recording calendars observe every query made",
 "M": "runtime monitoring: real interpolants driven on generated data, judged online by double-double references with derived error bounds",
 "T": "runtime monitoring: real curves driven with recording day counts and interpolators (call-trace oracle), and with the library's parts against direct evaluation",
 "B": "runtime monitoring: real bonds priced through recording curves that isolate single payments, judged by an independent schedule; termination by watchdog",
 "R": "runtime monitoring: error texts of real refusals; hostile inputs under overflow checks, a CPU watchdog",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    t = T[i[0]]
    note = "Seeded exploration of the real code; see DESIGN.md for the exact domain enumerated and sampled. No claim beyond the executions observed."
    if i == "R01":
        t = "runtime monitoring: answers of the same questions compared bit for bit across processes, orders, object generations and threads; thread sanitizer (and Miri when thorough) on the threaded histories"
    if i == "R03":
        t = "runtime monitoring: hostile inputs under overflow checks and a CPU watchdog; a lean workload of all components under the address sanitizer, the memory sanitizer and Miri, each proven alive by a planted fault"
    if i == "R04":
        t = "runtime monitoring: rounds of identical questions to the real code under a counting allocator, with the process's threads, descriptors, environment, signals, panic hook, output streams and every path written watched"
    if i == "C10":
        t = "runtime monitoring: calendars written in the monitor, whose rules record every consultation and fail outside the days they may be asked about, driven through the library's derived answers"
    if i == "M09":
        t = "runtime monitoring: the real generic code run on a recording 31-digit differentiating number type, values and derivatives judged online by the same formulas in that type"
    if i in ("C03", "C04", "C05"):
        note = "Every market and every day of the claimed years observed against the reference rules; that is exhaustive over the stated domain, by execution."
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}", "technique": t, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through public interfaces (recording Calendar, Period, DayCount and Interpolator implementations), sanitizer builds and process-level watchdogs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
