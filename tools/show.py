import json,sys
for p in sys.argv[1:]:
    d=json.load(open(p)); j=d["rejected_record_index"]
    print(p, d["configuration"][:60], "rec",j)
    for r in d["records_before"][-1:]: print("  prev", r[:260])
    print("  REJ ", d["rejected_record"][:900])
    print("  ops ", " ".join("%s%s%s"%(o[0],o[1],"" if o[0]!="a" else ("!" if o[2] else "")) for o in d["behaviour"][:j+1]))
