#!/bin/bash
# developer helper: backtrace of the first exceptions thrown in a case: gdbthrow.sh ID unit seed case
cd $(dirname $0)/..; python3 - "$@" <<'P'
import sys,os,subprocess
sys.path.insert(0,'vt')
import check as C, props as P
pid,unit,seed,case=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
u=C.Unit(P.PROPS[pid],P.PROPS[pid]["units"][unit],"quick",seed); u.build()
cmd=["gdb","-q","-batch","-ex","catch throw","-ex","run"]
for k in range(int(os.environ.get("K","1"))): cmd+=["-ex","bt 14","-ex","c"]
cmd+=["--args"]+u.cmd(["--case",case,"-v"])
subprocess.run(cmd,env=u.env())
P
