import json,sys
p='/verif/known_findings.jsonl'
def add(prop,key,commit,what):
    with open(p,'a') as f: f.write(json.dumps({"property":prop,"key":key,"status":"fixed","commit":commit,"what":f"fixed: property={prop} {commit} {what}"})+"\n")
