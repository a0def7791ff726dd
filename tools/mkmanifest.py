import json
TITLE={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
T="deterministic simulation with fault injection: seeded search over schedules%s"
NOTE={
"C01":("exploration"," and inputs, result compared with an independent model","inputs are generated and bounded in size (up to some thousand statements); schedules are sampled"),
"C02":("exploration",", inputs and flush/compaction points; memory, disk and model compared","as C01; goleveldb runs unchanged on a simulated file system"),
"C03":("fault_enumeration"," and storage faults: every n-th operation of every kind is made to fail for some inputs, random ones for the others","faults are those of the file system interface (errors, short transfers, full disk)"),
"C04":("fault_enumeration"," and input faults: failing, short and interrupted reads, failing seeks, malformed lines","malformed lines are of six kinds"),
"C05":("exploration"," and crash points: the process is killed at any file operation, unsynced data is kept, lost or torn, and loaded again","the journal model of what survives a crash is the one of DESIGN.md"),
"C06":("fault_enumeration",", inputs and output faults, then import and comparison of all contents and answers","answers are compared for generated requests"),
"C07":("fault_enumeration"," and damage: truncation, altered bytes, failing reads","damage is sampled, except for truncation of small exports"),
"C08":("exploration"," and client histories while a load runs, checked against the moment of publication","handlers run directly or over a simulated network"),
"C09":("exploration",", client faults and request mixes; every answer compared with a lone request and a model","as C08"),
"C10":("exploration"," of updaters, observers and loggers, and of observed loads with faults","code of the standard library is interleaved only at its synchronisation"),
"C11":("exploration",", inputs, batch sizes, limits and crash points; the database is read back and compared with the model","sqlite (a Go translation) runs unchanged on the simulated file system"),
"C12":("fault_enumeration"," and failing statements of a simulated database driver, and of sqlite on a failing file system","the simulated driver accepts every statement unless told to fail"),
"C13":("fault_enumeration",", options and faults of whole runs of the programs with simulated arguments, files, terminal and exit","mysql is not available; command line parsing happens in the process"),
"C14":("fault_enumeration"," and faults in loads, exports and imports; goroutines and files are counted at the end","progress is bounded by simulated time and steps"),
"C15":("exploration"," of histories of additions and identifications with compactions and storage faults, compared with a union-find model","histories are sampled"),
"C16":("exploration"," of concurrent, abandoned and failing queries, compared with a model of path matching","graphs are small"),
"C17":("exploration"," and map iteration orders in separate processes, answers compared","the same build is used for both"),
"C18":("fault_enumeration",", transfers, terminal faults and clock progressions, with an emulated terminal","content is ASCII"),
}
import sys
built=sys.argv[1].split(',')
checks=[];na=[]
for id in sorted(NOTE):
    lvl,t,note=NOTE[id]
    if id in built:
        checks.append({"property":id,"quick_cmd":f"bash check.sh {id} quick","thorough_cmd":f"bash check.sh {id} thorough","technique":T%t,"level":lvl,"level_note":note})
    else:
        na.append({"property":id,"reason":"the check is not built yet"})
m={"version":1,"setup_cmd":"bash check.sh - build /dev/null-is-not-used","checks":checks,"not_applicable":na,
"notes":"Everything runs inside one simulated process per execution: patched copies of the Go runtime's scheduler, clock and randomness and of the system call layer are laid over the installed Go tree at build time. /repo needs no hooks. See DESIGN.md."}
m["setup_cmd"]="bash check.sh - setup"
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
