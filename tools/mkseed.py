#!/usr/bin/env python3
"""Plants bugs: writes /verif/seeded/<id>/ from the entries of seeds*.py (patch made in a scratch worktree)."""
import sys,os,json,subprocess,shutil,importlib.util
BASE="/verif/tools/seed_base"; OUT="/verif/seeded"
WT="/tmp/seedwt"
def sh(*a,**k): return subprocess.run(a,check=True,capture_output=True,text=True,**k).stdout
HEAD='''#[path = "../common.rs"]
mod common;
use common::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
'''
NOHOST='''pub fn hostile(_a: &[AccountInfo], _m: u32) -> ProgramResult {
    Ok(())
}
'''
def main():
    only=set(sys.argv[1:])
    seeds=[]
    import glob
    for f in sorted(glob.glob("/verif/tools/seed_base/seeds*.py")):
        sp=importlib.util.spec_from_file_location("s",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); seeds+=m.SEEDS
    shutil.rmtree(WT,ignore_errors=True)
    sh("git","-C","/repo","worktree","prune")
    sh("git","-C","/repo","worktree","add","--detach",WT,"HEAD")
    try:
        for s in seeds:
            if only and s["id"] not in only: continue
            sh("git","-C",WT,"checkout","--",".")
            for f,old,new in s["edits"]:
                p=f"{WT}/src/{f}"; t=open(p).read()
                if t.count(old)!=1: print(s["id"],"edit matches",t.count(old),"times in",f,repr(old[:60])); sys.exit(1)
                open(p,"w").write(t.replace(old,new))
            d=f"{OUT}/{s['id']}"; os.makedirs(d,exist_ok=True)
            open(d+"/patch.diff","w").write(sh("git","-C",WT,"diff"))
            for x in ("common.rs","demo.sh","Cargo.demo.toml"): shutil.copy(f"{BASE}/{x}",d)
            demo=HEAD+s.get("hostile",NOHOST)+"#[tokio::test]\nasync fn demo() {\n    let mut t = T::start().await;\n"+s["demo"].strip("\n")+"\n}\n"
            open(d+"/demo.rs","w").write(demo)
            json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    finally:
        subprocess.run(["git","-C","/repo","worktree","remove","--force",WT])
main()
