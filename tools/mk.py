import json
def P(id,title,statement,over,qtext,why,files,mech,technique=None,level_note=None,na=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if na: d["not_applicable"]=na
    else: d["technique"]=technique; d["level_note"]=level_note
    json.dump(d,open(f"/verif/tools/props/{id}.json","w"),indent=1)
