import subprocess, os, json, sys
# Work on copies (REPO, VERIF) while the originals must stay untouched.
REPO=os.environ.get("VERIF_REPO","/repo"); VER=os.environ.get("VERIF_DIR","/verif")
def seed(id, prop, subs, needs, breaks, demo_cc=None, srcs=(), demo_sh=None, libs="", extra=""):
    d=VER+"/seeded/"+id; os.makedirs(d,exist_ok=True)
    assert subprocess.run(["git","-C",REPO,"status","--porcelain"],capture_output=True).stdout==b"", "repo dirty"
    for f,a,b in subs:
        p=REPO+"/"+f; s=open(p).read(); assert s.count(a)==1,(f,s.count(a),a); open(p,"w").write(s.replace(a,b))
    diff=subprocess.run(["git","-C",REPO,"diff"],capture_output=True).stdout
    open(d+"/patch.diff","wb").write(diff)
    subprocess.run(["git","-C",REPO,"checkout","-q","--","."],check=True)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    if demo_cc:
        open(d+"/demo.cc","w").write(demo_cc)
        inc=" ".join("-I /repo/src/"+x for x in ["","nlp_common","incr_models","sw_models","phrase_models","error_correction","downhill_simplex","stack_dec","hat_trie","picojson"])
        demo_sh=f"""#!/bin/bash
# Exit 0 when the property holds on this input, nonzero otherwise. Everything is written in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
S=/repo/src
printf '#define HAVE_LEVELDB_LIB 1\\n#define HAVE_CXX11 1\\n#define THOT_LIBDIR "/none"\\n#define THOT_ALT_LIBDIR ""\\n#define THOT_LIBDIR_VARNAME "/none"\\n' > "$T/thot_config.h"
cd "$T"
g++ -std=gnu++14 -O1 -w -pthread -DHAVE_CONFIG_H -DTHOT_LM_STATE_H='"LM_State.h"' -DTHOT_PPINFO_H='"PpInfo.h"' -DTHOT_SMTMODEL_H='"SmtModel.h"' -I "$T" {inc} {extra} "$D/demo.cc" {" ".join("$S/"+x for x in srcs)} -o "$T/demo" {libs} || exit 98
"$T/demo" "$T"
"""
    if not demo_sh: return
    open(d+"/demo.sh","w").write(demo_sh); os.chmod(d+"/demo.sh",0o755)
def demo(d):
    t=d+"/demo.sh"
    if REPO!="/repo":
        t=d+"/.demo.sh"; open(t,"w").write(open(d+"/demo.sh").read().replace("/repo/",REPO+"/"))
    r=subprocess.run(["bash",t],cwd=REPO,capture_output=True)
    if t.endswith("/.demo.sh"): os.remove(t)
    return r
def trydemo(id, build=False):
    d=VER+"/seeded/"+id
    r0=demo(d)
    subprocess.run(["git","-C",REPO,"apply",d+"/patch.diff"],check=True)
    try:
        r1=demo(d)
    finally:
        subprocess.run(["git","-C",REPO,"checkout","-q","--","."],check=True)
    print(id,"clean rc",r0.returncode,"patched rc",r1.returncode, (r0.stderr[-600:] if r0.returncode else b"").decode(), (r1.stderr[-300:]).decode())
def trycheck(id, prop, tier="quick"):
    d=VER+"/seeded/"+id
    subprocess.run(["git","-C",REPO,"apply",d+"/patch.diff"],check=True)
    try:
        r=subprocess.run(["./run",prop],cwd=VER,capture_output=True,env=dict(os.environ,VERIF_TIER=tier,VERIF_SEED="1"))
    finally:
        subprocess.run(["git","-C",REPO,"checkout","-q","--","."],check=True)
    o=r.stdout.decode()
    print(id,prop,"rc",r.returncode,[l[:300] for l in o.splitlines() if "VIOLATION" in l or "ERROR" in l][:4])
