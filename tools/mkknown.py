#!/usr/bin/env python3
"""Writes known_findings.json: the listed findings and the record of the repairs,
taken from the fix: commits of /repo and the property each was found by."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 '014a12e':'C08','5c07275':'C11','5a044b0':'C11','0599a89':'C10','5dc4e89':'C23','2dd5a00':'C09','9f7b739':'C15',
 '6302318':'C14','1ad3a14':'C14','2489272':'C13','7e66007':'C14','2e70bff':'C02','d478d30':'C01','730d7d1':'C04',
 'bff6a31':'C06','8c63b73':'C17','fcdf5f0':'C07','b2d5244':'C07','6ce29a9':'C07','0318b55':'C21','2ec1cb2':'C21',
 'dc396d3':'C22','d15779d':'C18','6ceb8dc':'C19','1b1e3b1':'C19','afec26d':'C18','6086c66':'C20','e223138':'C20',
 'af001e6':'C20','f1f7ca9':'C18','1478bbb':'C20','119a2c9':'C20','125b0f3':'C20','311190e':'C20','fe1e14d':'C05',
 '96aec90':'C06','79199b9':'C06','58a3166':'C07','877b97d':'C07','e88fa17':'C07','5279729':'C07','e66293e':'C08',
 'a5379b6':'C07','6a857a9':'C07','8ff3b98':'C10','adf8bb4':'C23','1c67035':'C14','d08cced':'C14','41e82bc':'C18',
 '2dea87a':'C18','19bddeb':'C19','37937ae':'C18','310c200':'C18','f3b6f50':'C20','5415f9f':'C20','36c4a85':'C20',
}
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
extra = json.load(open(os.path.join(V,'tools','fixprops.json'))) if os.path.exists(os.path.join(V,'tools','fixprops.json')) else {}
PROPS.update(extra)
fixed=[]
for l in log:
    if not l: continue
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    h=h[:7]
    if h not in PROPS:
        print('no property for',h,s)
    if True:
        p=PROPS.get(h,'?')
        # the first commits of the history predate this work
        if p=='?': continue
        fixed.append('fixed: property=%s %s %s'%(p,h,s[4:].strip()))
out={
 'findings':[
  {'id':'C13-mutual-fanout','property':'C13',
   'what':'a=%(b)s%(b)s, b=%(a)s%(a)s, c=%(a)s: the 99 replacements each double the text, so Key.String of c needs about 2^49 bytes and the process runs out of memory',
   'input':'[DEFAULT]\na=%(b)s%(b)s\nb=%(a)s%(a)s\nc=%(a)s\n'},
 ],
 'fixed':fixed,
}
json.dump(out,open(os.path.join(V,'known_findings.json'),'w'),indent=1,ensure_ascii=False)
open(os.path.join(V,'known_findings.json'),'a').write('\n')
print(len(fixed),'fixed')
