import json,os
V=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NOTE={}
exec(open(V+'/notes.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'{V}/kv/p_{i}.cpp') and i in NOTE:
        checks.append({'property':i,'quick_cmd':f'./check {i} --tier quick','thorough_cmd':f'./check {i} --tier thorough','technique':NOTE[i][0],'level':'model_checking','level_note':NOTE[i][1]})
    else: na.append({'property':i,'reason':NA.get(i,'check not built yet')})
json.dump({'version':1,'setup_cmd':'python3 kv/build.py','hooks':{'guard':'KV_HARNESS','enable':'the harness build (kv/build.py) passes -DKV_HARNESS; no hook is currently needed in /repo, so there are no hook commits','source_commits':[]},'checks':checks,'not_applicable':na,'notes':'python3 gen_manifest.py regenerates this file from properties.jsonl and notes.py'},open(V+'/MANIFEST.json','w'),indent=1)
