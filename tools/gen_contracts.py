"""(Re)generate spec/contracts.json from the current tree -- reviewed by hand,
then frozen; never run by a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.context import Context
from checks import ownership

ctx = Context('quick')
r = ownership.run(ctx)
out = {}
for name, eff in sorted(ownership.effects(ctx, r).items()):
    out[name] = eff
os.makedirs('spec', exist_ok=True)
json.dump(out, open('spec/contracts.json', 'w'), indent=0, sort_keys=True)
print(len(out))
ctx.close()
