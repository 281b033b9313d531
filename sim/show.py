#!/usr/bin/env python3
import json,glob,sys,os
fs=sys.argv[1:] or [max(glob.glob('/verif/replays/*.json'),key=os.path.getmtime)]
for f in fs:
    r=json.load(open(f)); print(r['scenario'],r['class'],'|',r['violation']); print('\n'.join(r['trace'][-120:])); print(r['choices'])
