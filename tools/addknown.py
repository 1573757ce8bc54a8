#!/usr/bin/env python3
"""addknown.py REPLAY.json MSG WHAT: list a violation as a known finding (by hand, after analysis)."""
import json,sys,os
f=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known-findings.json')
d=json.load(open(f))
v=json.load(open(sys.argv[1]))
msg,what=sys.argv[2],sys.argv[3]
assert msg in v['Msg'],v['Msg']
e={'property':v['Property'],'space':v['Space'],'unit':v['Unit'],'msg':msg,'what':what}
d['findings']=[x for x in d['findings'] if not (x['property']==e['property'] and x.get('space')==e['space'] and x.get('unit')==e['unit'])]+[e]
json.dump(d,open(f,'w'),indent=1,ensure_ascii=True)
open(f,'a').write('\n')
