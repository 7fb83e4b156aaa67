import json,subprocess
import sys,os
F=os.path.join(os.path.dirname(os.path.abspath(__file__)),"fixed.txt")
P=open(F).read()
m=dict(x.split() for x in P.splitlines())
log=subprocess.run("git -C /repo log --reverse --format=%h%x09%s 2895bbb..HEAD",shell=True,capture_output=True,text=True).stdout
out=[{"property":"C08","status":"known","key":"cont-4qc-interlocking","what":"ContFourQuadrantConverter with interlocking time: the second half bridge is told i_out instead of -i_out, so the voltage error of the dead time cancels instead of adding up (action 0, i_out != 0: 0 instead of -2*t/tau*sign(i)); the existing unit tests pin this behaviour"},
{"property":"C16","status":"known","key":"flux-observer-state-space","what":"FluxObserver announces the range of psi_abs and psi_angle in physical units (+-l_m*i_limit, +-pi) although the delivered entries are normalised to +-1; test_flux_observer.py::test_state_space pins this state space"}]
for l in log.splitlines():
    h,s=l.split("\t")
    if h not in m:   # new commits: the property is given on the command line
        m[h]=sys.argv[1]; open(F,"a").write(f"{h} {m[h]}\n")
    out.append({"property":m[h],"status":"fixed","commit":h,"what":f"fixed: property={m[h]} {h} {s[5:]}"})
open("/verif/known-findings.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
