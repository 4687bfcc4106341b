"""python3 tools/mkseed.py FILE: FILE calls seed(id, property, needs, breaks, edits, demo source); writes tools/seeds/."""
import sys
import os
S=os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds")
def seed(i, prop, needs, breaks, edits, demo, lib=True):
    open(f"{S}/{i}.py","w").write("PROPERTY = %r\nNEEDS = %r\nBREAKS = %r\nEDITS = %r\n" % (prop,needs,breaks,edits))
    os.makedirs(f"{S}/{i}",exist_ok=True)
    open(f"{S}/{i}/demo.cpp","w").write(demo)
    src = f"{S}/_lib/demo.sh" if lib else f"{S}/C01-sse-static-stage/demo.sh"
    open(f"{S}/{i}/demo.sh","w").write(open(src).read()); os.chmod(f"{S}/{i}/demo.sh",0o755)
exec(open(sys.argv[1]).read())
