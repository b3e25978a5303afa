#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: (re)creates the demonstration kit of /verif/seeded/ID from model/ and harness/"""
import sys, os, shutil, shlex
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
import build as b
d = '%s/seeded/%s' % (V, sys.argv[1]); k = d + '/kit'; shutil.rmtree(k, ignore_errors=True); os.makedirs(k)
for n in ['rt.h', 'rt_int.h', 'sym.h', 'rt_notifier.h', 'win_process.h', 'job_tokens.h', 'rt_common.cpp', 'rt_native.cpp', 'winnotifier.cpp', 'rt_disp.cpp', 'qt_model.h', 'qt_obj.h']: shutil.copy(V + '/model/' + n, k)
for n in ['hsched.h', 'mk.h', 'ref_lines.h'] + (['app.h'] if '"app.h"' in open(d + '/demo.cpp').read() else []): shutil.copy(V + '/harness/' + n, k)
fl = [f for f in b.DEFS if not f.startswith('-I/repo') and f != '-I' + b.JL and f != '-I' + b.WINELIB]
fl += ['-I' + b.WINELIB] + b.NATFLAGS
t = open(V + '/tools/seedkit/demo.sh').read()
q = lambda l: ' '.join(shlex.quote(x) for x in l)
t = t.replace('@FLAGS@', q(fl)).replace('@REDEF@', q(b.REDEF)).replace('@PLAIN@', q(b.PLAIN + ['-O1']))
open(d + '/demo.sh', 'w').write(t); os.chmod(d + '/demo.sh', 0o755)
