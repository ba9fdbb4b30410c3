#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the table in sim/props.cc.
import json, os, re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
rows=dict((m.group(1),(m.group(2),m.group(3))) for m in re.finditer(r'\{ "(C\d+)", "(\w+)", "(\w+)", \d+, \d+, x_\w+, j_\w+, "',open(V+"/sim/props.cc").read()))
TRUST=" Assumes the simulated libc/OS seam (files, console, heap, clock, environment) behaves as POSIX/glibc document; the assembler or converter itself runs unmodified, built from /repo with the shipped optimisation flags. A seeded search: finds violations reliably where they are not extremely rare, proves nothing beyond what it ran."
NOTE={
"C01":"Faults placed at the write/close/open calls the fault-free run really made on the object file, compared with the fault-free object.",
"C02":"As C01 for symbol, listing and log file.",
"C03":"Faults placed at the open/read/seek/close calls on sources really made, in every pass and in diagnostics and listing re-reads; compared with the fault-free outputs.",
"C04":"Executable reference model of a .org/.byte/.word/.load/.inc/label sublanguage, plus open/seek/read faults on the loaded files.",
"C05":"Pairs of executions under different read/write segmentations and buffer sizes; comments shifting every construct over buffer boundaries.",
"C06":"Pairs of executions under different heap/stack contents, allocator placements, environments and clocks, on correct, erroneous and malformed programs; guard bytes behind every block and patterns in freed ones, also under faults.",
"C07":"Refusal of single, several or all later allocations, compared with the undisturbed outputs.",
"C08":"The whole simulated tree is compared after every run, also after faults and kills.",
"C09":"Rejected programs over existing outputs; the outputs must be untouched.",
"C10":"Multi-run histories with kills at any call, torn writes and power loss, followed by an undisturbed run that must equal one in a fresh directory.",
"C11":"Work budgets (basic blocks and system calls) as the bound; endless, malformed programs and permanent faults.",
"C12":"Peak number of open descriptors against nesting depth, and runs under a descriptor limit.",
"C13":"Exit status against standard error for erroneous, correct, malformed programs, bad command lines and faults; runs with and without warnings compared.",
"C14":"Listing, symbol file and object of the same run are parsed and compared with each other.",
"C15":"Executable model of the documented search order over shadowed names, plus open/stat/descriptor/memory faults.",
"C16":"Crash, fault and full-disk injection into the converter; after each run every file must be old or completely converted.",
"C17":"Converted trees compared with an independent specification of line-end conversion, after interrupted runs and under different enumeration orders and segmentations.",
"C18":"Console write failures; outputs and status must equal those of the undisturbed run.",
"C19":"Pairs of runs of one program with different output sets, option orders, tracing directives and I/O; failures of one additional output.",
"C20":"Pairs of runs of one program divided differently over inputs, includes, -d and options, each under its own segmentation and memory contents.",
"C21":"Wrong statements, long lines and segmentations; every diagnostic's file, line and quoted lines are compared with the simulated disk.",
"C22":"Pairs of runs without and with inactive text, files named only in it failing to open.",
"C23":"Pairs of runs under renaming, re-casing, local against named labels and sections against plain names, each under its own segmentation and memory contents.",
"C24":"Marked statements of known encoding; listing text and bytes compared with the sources on the simulated disk.",
"C25":"Two to four simulated processes on one machine, switched at system calls by a seeded schedule; each compared with its run alone; faults in and kills of one of them.",
"C26":"Two converters, or a converter and an assembler, on one tree under a seeded schedule of switches at system calls; kills, machine stops and faults.",
"C27":"Pairs of runs of one program without and with definitions that take 1 to 13 more passes to settle, each under its own segmentation and memory contents; read faults in later passes.",
"C28":"Programs with macros, loops, variables, local labels, sections, far branches and expressions are generated as trees and rendered twice, as they are and written out by an interpreter of the tree; both renderings are assembled in one scenario, each under its own segmentation, allocator and memory contents, some with read faults.",
}
WHY="decided by the source text alone: a pure function with no clock, I/O, scheduling, fault or history it could depend on, so simulation has nothing to vary; deciding it needs a second implementation of the language and input generation, which is another technique. (Crashes, memory errors, hangs and disagreement between outputs on such programs are still caught by C05, C06, C11, C13 and C14.)"
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in rows:
        t,l=rows[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,
          "technique":"deterministic simulation with fault injection (seeded search)","level":l,"level_note":NOTE[i]+TRUST})
    else: na.append({"property":i,"reason":("internal containers reached only through in-process calls; " if i=="C37" else "")+WHY})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every seam is put in at link time (--wrap and a private libc layer), so the sources under test are compiled as they are. Replay a reported violation with ./check.sh replay <file>."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),len(na))
