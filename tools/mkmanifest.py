import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import mani
checks=[];na=[]
for p in props:
    i=p['id']
    if i in mani.C:
        t,n=mani.C[i]
        checks.append(dict(property=i,quick_cmd=f'python3 check.py {i} quick',thorough_cmd=f'python3 check.py {i} thorough',technique=t,level='exploration',level_note=n))
    else: na.append(dict(property=i,reason=mani.NA.get(i,'check under construction')))
m=dict(version=1,setup_cmd='python3 setup.py',checks=checks,not_applicable=na,notes=mani.NOTES)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
