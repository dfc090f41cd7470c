"""Writes MANIFEST.json from properties.jsonl."""
import json
TECH={
"C01":"monitored executions of checked and release builds under hostile workloads: exit status, panic, hang and stack monitors",
"C02":"online oracle over stdout, stderr and status of the real binary; one unacceptable part planted at random depth and position",
"C03":"metamorphic runtime monitor: repeated, concurrent and environment-shifted executions compared byte for byte",
"C04":"system call monitor (seccomp filter that kills on side effects) plus before/after directory and stdin offset comparison",
"C05":"fault injection at every output byte position (RLIMIT_FSIZE, LD_PRELOAD write faults, closed pipes, full device) with a prefix-and-status oracle",
"C06":"differential runtime monitoring of the overflow-checked and the release build",
"C07":"AddressSanitizer builds (checked and optimised), the standard library's checks of unsafe operations, Miri and valgrind memcheck over generated workloads",
"C08":"instructions counted by cachegrind for requests of one shape in three sizes, peak memory by wait4 under a limit of address space; oracle: marginal cost per byte",
"C22":"online comparison of indentation and blank lines of the real output with an executable specification",
"C13":"metamorphic runtime monitor: the same tag observed alone, among neighbours and nested; joined blocks compared with their parts",
"C16":"metamorphic runtime monitor: automatic against explicit formats on the same input, plus an executable specification of detection",
"C17":"metamorphic runtime monitor: the same tags observed through every format",
"C20":"runtime monitor comparing each displayed dump with the bytes that were put in",
"C21":"metamorphic runtime monitor: the same bytes in different notations through every hex option",
"C42":"runtime monitor that reads each drawing back, column by column, and compares it with an executable specification",
"C43":"runtime monitor that interprets the colour codes and judges the look of every character",
"C49":"metamorphic runtime monitor: the same value under its option and under its tag in every format",
"C50":"runtime monitor over generated configurations (command line, environment, files, profiles) with a probe that reveals every effective setting",
"C51":"runtime monitor with one invalid setting injected per execution, in each source",
"C52":"metamorphic runtime monitor: colour on against colour off, through pipes and pseudo-terminals, with a terminal interpreter",
"C53":"metamorphic runtime monitor: every spelling, form and order of the options against the canonical one",
"C55":"runtime monitor that reads help, manual page and completion scripts and tries everything they offer on the program; bash runs its script",
"C54":"runtime monitor with one defect injected into each valid command line",
}
NOTE={
"C08":"Growth is measured up to about 100 KB of data (some 10 KB in quick runs under cachegrind); a superlinear part that is small there is not seen. Settings (lists of masking characters) are excluded: the figment library parses them in quadratic time.",
"C07":"No report in any execution made. AddressSanitizer watches the program and its dependencies, not the precompiled standard library (which memcheck and Miri watch, on smaller samples). Operations under Miri exclude help texts and long inputs.",
"C01":"No crash or hang in any execution made; says nothing about inputs not generated. One known finding (known-findings.txt).",
"C04":"Every system call of every observed execution passed the filter. Assumes the filtered set covers what has side effects.",
"C05":"For each sampled request, each failure kind at each byte position of the output (a sample of positions for outputs longer than the per-request bound). Assumes write(2) is the only way delivery fails, and monitors operations, not help texts.",
"C03":"The variations are sampled. Terminal width only matters to help texts, which are not judged.",
}
checks=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i,"runtime monitor: generated workloads run through the real binary, each output judged online against an independent executable specification"),
        level="fault_enumeration" if i=="C05" else "exploration",
        level_note=NOTE.get(i,"Held in every execution made (counted in the evidence); small domains are exhausted where the rule says so, others are sampled. Trusts the oracle in monitor/src, which shares no code with pemv.")))
json.dump(dict(version=1,setup_cmd="./run.sh --setup",checks=checks,not_applicable=[]),open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
