"""known_findings.json: open findings (suppressed, by canonical case) and repaired defects (suppress nothing)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {"4b7711e":"C14","ee02c11":"C01","cc273fc":"C01","a48caf6":"C03","e20fb06":"C03","be0d919":"C02","a777166":"C13","1b3e6ea":"C13","19e6ca7":"C14","18f7226":"C14","663afe4":"C09","22fbe07":"C20","b964db2":"C07","d26e34c":"C12","bca7f69":"C12","cfc6cd2":"C15","76998ac":"C15","22803c8":"C17","15e1188":"C18","0a1120d":"C07","7ea2760":"C10","86414de":"C18","6a45dc7":"C13","105d912":"C10","e6f2767":"C09","dd39052":"C09","e02854d":"C19","4751320":"C19","4d3b806":"C19"}
extra = json.load(open(os.path.join(root,"tools","fix_props.json"))) if os.path.exists(os.path.join(root,"tools","fix_props.json")) else {}
P.update(extra)
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        fixed.append(f"fixed: property={P[h]} {h} {s[5:]}")
path=os.path.join(root,"known_findings.json")
cur=json.load(open(path)) if os.path.exists(path) else {"findings":[]}
cur["fixed"]=fixed
json.dump(cur,open(path,"w"),indent=1)
