#!/usr/bin/env python3
"""For each seed: do the lines it changes come from the original repository?"""
import os,re,subprocess,sys
BASE='2daffe6'
for s in sorted(os.listdir('/verif/seeded')):
    p=f'/verif/seeded/{s}/patch.diff'
    f=None;orig=0;mine=0;adds=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','-C','/repo','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if f is None or l.startswith('+++') or l.startswith('---') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            if bl[n-1].startswith('^'): orig+=1
            else: mine+=1
            n+=1
        elif l.startswith('+'): adds+=1
        else: n+=1
    print(f'{s:34} removes original {orig} mine {mine}; adds {adds}', '' if orig else '<<<<')
