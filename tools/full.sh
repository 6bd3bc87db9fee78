cd ${1:-/verif}; S=$(date +%s)
python3-vt - > /tmp/full.out 2>&1 <<'P'
import json, subprocess, os, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
lst = json.loads(subprocess.run(['python3-vt','-m','pyvc.list'],env=env,capture_output=True,text=True,check=True).stdout)
tmp = tempfile.mkdtemp()
def go(k):
    t=time.time(); out=os.path.join(tmp,k+'.json')
    try:
        subprocess.run(['python3-vt','-m','pyvc.one',k,out],env=env,capture_output=True,timeout=500)
        r=json.load(open(out)); st=r['status']; x=[y for y in r['results'] if y[1]!='proved'][:2]
    except Exception as e:
        st='ERROR'; x=repr(e)[:200]
    print(st,k,round(time.time()-t,1),'' if st=='proved' else str(x)[:600],flush=True)
with ThreadPoolExecutor(6) as ex: list(ex.map(go,[c['key'] for c in lst if not c['assumed']]))
shutil.rmtree(tmp)
P
echo done $(( $(date +%s) - S )) >> /tmp/full.out
