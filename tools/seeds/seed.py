"""usage: seed.py defs.py [id ...]: make, confirm and try planted bugs."""
import sys, os, json, subprocess, shutil, re, importlib.util
REPO='/repo'; OUT='/verif/seeded'; S='/tmp/seeds'
env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', OPENBLAS_NUM_THREADS='1')
def sh(c, cwd=None, t=900, e=None):
    p=subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(env, **(e or {})))
    return p.returncode, p.stdout.decode('utf8','replace')
BASE='a8f2438'
mine=set(sh(f'git log --format=%H {BASE}..HEAD', REPO)[1].split())
def blame_ok(diff):
    "does the diff remove or change a line of the original repository?"
    ok=False; f=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)', l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            h=sh(f'git blame -l -s -L{n},{n} HEAD -- {f}', REPO)[1].split()[0].lstrip('^')
            if not any(x.startswith(h) or h.startswith(x) for x in mine): ok=True
            n+=1
        elif l.startswith(' '): n+=1
    return ok
CORE={'C01','C02','C03','C04','C05'}
def harness(p): return 'core' if p in CORE else 'serde' if p=='C28' else 'full'
TGT={'core':'/tmp/tcore','full':'/tmp/tfullh','serde':'/tmp/tserde'}
def check(p, extra=''):
    h=harness(p)
    rc,o=sh('cargo build --offline --locked 2>&1 | tail -40', f'/verif/{h}', e={'CARGO_TARGET_DIR':TGT[h]})
    if 'could not compile' in o: return 9,o
    return sh(f'{TGT[h]}/debug/{h}_harness check {p} 2>&1', f'/verif/{h}', e={'VERIF_DIR':'/tmp/vd','VERIF_SEED':'1','VERIF_TIER':'quick'})
def main():
    spec=importlib.util.spec_from_file_location('d', sys.argv[1]); d=importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
    only=sys.argv[2:]
    for b in d.BUGS:
        if only and b['id'] not in only: continue
        assert sh('git status --porcelain', REPO)[1]=='', 'repo dirty'
        wd='/tmp/seeds/sr'
        if not os.path.exists(wd): sh(f'git worktree prune; git clone -q {REPO} {wd}')
        sh('git fetch -q origin; git reset -q --hard origin/HEAD', wd)
        bad=None
        for f,old,new in b['edits']:
            p=f'{wd}/src/{f}'; t=open(p).read()
            if t.count(old)!=1: bad=f'{f}: {t.count(old)} matches of {old!r}'; break
            open(p,'w').write(t.replace(old,new))
        if bad: print('BAD', b['id'], bad); continue
        diff=sh('git diff', wd)[1]
        if not blame_ok(diff): print('BAD', b['id'], 'no original line'); continue
        o=f"{OUT}/{b['id']}"; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o+'/patch.diff','w').write(diff)
        shutil.copytree(S+'/'+b.get('pack','pack'), o+'/pack'); shutil.copy(S+'/demo.sh', o+'/demo.sh'); os.chmod(o+'/demo.sh',0o755)
        open(o+'/main.rs','w').write(b['demo'].lstrip('\n'))
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(o+'/meta.json','w'), indent=1)
        res=[]
        rc,t=sh(o+'/demo.sh', REPO, e={'DEMO_TARGET_DIR':'/tmp/dtgt'}); 
        if rc: print('BAD', b['id'], 'demo fails unpatched', rc, t[-1500:]); shutil.rmtree(o); continue
        try:
            a,t=sh(f'git apply {o}/patch.diff', REPO); assert a==0, t
            rc,t=sh(o+'/demo.sh', REPO, e={'DEMO_TARGET_DIR':'/tmp/dtgt'}); res.append(f'demo={rc}')
            if rc in (0,2): print('BAD', b['id'], 'demo patched', rc, t[-1500:]); shutil.rmtree(o); continue
            rc,t=sh('bash /opt/vp/build.sh')
            if rc: print('BAD', b['id'], 'build', t[-1500:]); shutil.rmtree(o); continue
            rc,t=sh('bash /opt/vp/test.sh /tmp/o.json'); j=json.load(open('/tmp/o.json'))
            f=[k for k,v in j.items() if 'fail' in str(v)] if isinstance(j,dict) else None
            base=json.load(open('/opt/vp/BASELINE.json'))
            res.append('stable='+('ok' if not re.search(r'test result: FAILED',t) else 'FAILED'))
            rc,t=sh('cargo test --offline --no-fail-fast 2>&1; rm -f Cargo.lock', '/verif/rstat_full', e={'CARGO_TARGET_DIR':'/tmp/tfull'})
            own=re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', t); res.append('own='+','.join(f'{x[1]}/{x[2]}' for x in own))
            rc,t=check(b['prop']); v=[l for l in t.splitlines() if l.startswith('VIOLATION')]
            res.append(f'check={rc} '+('CAUGHT' if rc==1 and v else 'MISSED'))
            sub=[l[:160] for l in t.splitlines() if 'FAIL' in l or l.startswith('VIOLATION')][:2]
            res+=sub
        finally:
            sh('git checkout -- .', REPO)
        print('OK ' if 'stable=ok' in res and not re.search(r'/[1-9]',res[2]) and 'own=23/0,27/0'==res[2] else 'WARN', b['id'], ' | '.join(res), flush=True)
main()
