"""debug one configuration in process: dbg.py ID CONFIG [tier]"""
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vsym import core, load, run
pid, name = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
spec = importlib.import_module('checks.' + pid)
cfg = [c for c in spec.configs(tier) if c['name'] == name][0]
env = spec.sym_env(cfg) if hasattr(spec, 'sym_env') else load.SymEnv()
r = run.run_config(spec, cfg, tier, env, 600)
for v in r['violations']:
    print(v['label'], str(v.get('inputs', v.get('values')))[:300])
    print(str(v.get('detail'))[-1500:])
print(r['complete'], str(r['problems'])[-3000:], r['wall'])
