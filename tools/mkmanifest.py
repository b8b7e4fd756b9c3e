#!/usr/bin/env python3
"""python3 tools/mkmanifest.py > MANIFEST.json"""
import json,re,sys
BASE="bounded exhaustive exploration (stateless model checking) of the real code, "
T={
"C01":("every recording within D details of a rich base, all small trees; compared with the reference model","full-precision identity on every recording of the bounded family"),
"C02":("every small stream over alphabets of corner values x technique against exact arithmetic of the cells","resolution and no drift on all enumerated streams and long repeated patterns"),
"C03":("every gap sequence up to a length x time technique x kind of stream against an arithmetic model","time resolution on all enumerated sequences"),
"C04":("every kind of metadata value x place x nesting against the reference model","exact survival of all enumerated values"),
"C05":("every permutation, subset and technique of encoders at the writer and at the reader","negotiation on all enumerated encoder sets"),
"C06":("recordings of the bounded family, alone and in sequences in one stream, counting bytes","exact counts on all enumerated recordings"),
"C07":("every cut point of every file of a family (crash-point enumeration)","all cuts of all enumerated files"),
"C08":("every write call and byte position x kind of failure (fault enumeration)","all single faults, and pairs in thorough, of all enumerated writes"),
"C09":("every delivery of the bytes within D deviations, failures at every read call (fault enumeration)","all enumerated deliveries and failures"),
"C10":("every single field mutation of structured files, all short byte strings, every claimed size, under memory and CPU limits (fault enumeration)","no crash, hang or blow-up on all enumerated inputs"),
"C11":("the accepted inputs among all enumerated mutations are walked, used, written and read again","completeness of everything that loads in the enumerated set"),
"C12":("the bounded family in both directions against an independent codec bound by golden files","layout equality on all enumerated recordings"),
"C13":("every version 1 message within D details of a base against a mapping model","mapping on all enumerated messages"),
"C14":("the upgrade command on the bounded family of version 1 files, twice, with input and output faults","upgrade keeps all enumerated recordings"),
"C15":("all thread interleavings up to a preemption bound under a controlled scheduler at statement granularity, plus the same scenarios in a race-detector build","isolation on all explored schedules"),
"C16":("every iteration order of every map loop up to D deviating loops, controlled by instrumentation","independence of all explored orders"),
"C17":("every placement of an unsupported or missing part in the bounded family","refusal without output on all placements"),
"C18":("all windows x time patterns x trees against a filter model, all pairs of windows","slicing on all enumerated cases"),
"C19":("all time patterns x trees against an order model","validation on all enumerated cases"),
"C20":("all capture time patterns x trees against a min/max model, and the summary command's output","start, end, duration and summary on all enumerated cases"),
"C21":("every JSON document within D details of a base, every malformation of it, against a mapping model","import on all enumerated documents"),
"C22":("export of the bounded family parsed by an independent JSON reader and compared with the model; all output faults","export on all enumerated recordings"),
"C23":("every metadata block of a bounded family converted to JSON and back, every small JSON value, against a model","conversion on all enumerated blocks and documents"),
"C24":("every table within D details of a base (columns, cells, quoting, order) against a mapping model","import on all enumerated tables"),
"C25":("every sequence of commands up to a length over small file sets x input and output faults against a file-state model","command outcomes on all enumerated sequences"),
"C26":("every metadata block of a bounded family decoded with an independent BSON reader and compared with the model","conversion of all enumerated blocks"),
"C27":("all operation sequences up to a depth over shared objects, compared with fresh objects","purity on all enumerated histories"),
"C28":("the text of every value and capture of a bounded family, under every map order, against an exact-arithmetic model","texts of all enumerated values"),
}
FAULT={"C07","C08","C09","C10"}
reg=set()
import glob
for f in glob.glob("/verif/mc/checks/*.go"):
    reg|=set(re.findall(r'ID:\s*"(C\d\d)"',open(f).read()))
    for a in re.findall(r'for _, id := range \[\]string\{([^}]*)\}',open(f).read()):
        reg|=set(re.findall(r'"(C\d\d)"',a))
SKIP=set(sys.argv[1:])
checks=[];na=[]
for i in sorted(T):
    if i in reg and i not in SKIP:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json",technique=BASE+t,
            level="fault_enumeration" if i in FAULT else "model_checking",
            level_note=n+"; the bounds and the number of executions and states are in the evidence file; trusts the reference model in mc/model and the explorer in mc/eng"))
    else:
        na.append(dict(property=i,reason="the check is not built yet"))
print(json.dumps(dict(version=1,setup_cmd="true",checks=checks,not_applicable=na,
  notes="No hooks are committed in /repo: the builder in tools/build instruments a scratch overlay of /repo's working tree (map iteration order, scheduling points) and builds the harness in mc/ with it."),indent=1))
