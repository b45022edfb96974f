"""Writes known_findings.json (hand-maintained texts, generated format)."""
import json, os, subprocess
FIX = [  # property, subject prefix of the fix commit, what failed
 ('C06', 'clip inverse heading deltas', 'delta dynamics inverse returned heading changes beyond max_dyaw (also C07)'),
 ('C08', 'reject a Discretizer whose', 'Discretizer accepted bins of a different shape than its bounds and mis-discretised'),
 ('C08', 'search the best discrete action', 'DiscreteActionSpaceWrapper.inverse with fit picked every object the action index of the SDC'),
 ('C08', 'make Discretizer.discretize usable', 'Discretizer.discretize raised under jit'),
 ('C11', "flag every observer's own row", 'is_ego flagged wrong rows in observation_from_state'),
 ('C12', 'keep roadgraph ids exact', 'filter_topk_roadgraph_points rounded ids above 2**24 through float32'),
 ('C11', 'slice the observer axis', 'Observation.for_obj sliced the wrong axis of batched observations'),
 ('C13', 'never report offroad', 'maps without a valid road edge reported every object offroad'),
 ('C16', 'reward only the objects', 'objects outside the control mask received reward'),
 ('C16', 'return a float reward', 'reward without configured metrics had the wrong dtype/shape'),
 ('C16', 'combine SDC-only metrics', 'SDC-only metrics failed to combine into rewards of batched states'),
 ('C18', 'tile action validity', 'PlanningAgentDynamics.forward failed on the validity of its single action'),
 ('C20', "pass the environment's Action", 'DMEnvWrapper passed the raw array to the reward'),
 ('C20', 'do not let DMEnvWrapper step', 'DMEnvWrapper could be stepped after its reset rejected a scenario'),
 ('C20', 'give the configured sim agents', 'make_sdc_dm_environment built sim agents without parameters and failed'),
 ('C24', 'read negative validity flags', 'negative validity flags of records were read as valid (also C25)'),
 ('C24', 'keep every step of state/which_time', 'truncating objects also truncated state/which_time'),
 ('C26', 'accept @ and %', "'@' and '%' in the directory of a sharded path were taken for the shard pattern"),
 ('C26', 'read every loading shard', 'an endlessly repeated dataset never read some of its loading shards'),
 ('C27', 'broadcast masked_mean', 'masked_mean along an axis with keepdims-less shape could not broadcast back'),
 ('C27', 'compare PyTrees of different', 'compare_all_leaf_nodes reported PyTrees of different structure as equal'),
 ('C27', 'mask trailing value', 'MaskedArray.masked_value failed for values with trailing dimensions'),
 ('C28', 'step and score states', 'states with a timestep of the documented batch shape could not be stepped or scored (also C27)'),
 ('C30', 'centre frames on center_agent_idx', 'rendering with VizConfig.center_agent_idx >= 0 raised IndexError'),
 ('C30', 'save frames to a file name', 'save_img_as_png raised for a file name without a directory'),
 ('C30', 'let plot_trajectory draw', 'plot_trajectory with its default time_idx=None raised TypeError'),
 ('C11', 'observe steps before the start', 'observations with more steps than had elapsed wrapped around and showed the end of the log (also C34)'),
 ('C15', 'no transition leads to', 'the kinematic metric at timestep 0 judged the last transition of the trajectory (also C34)'),
]
FINDINGS = [
 dict(id='F1', property='C26', status='finding', what='tf_examples_dataset batches inside every loading shard, so num_shards (documented to have no effect on the data) changes which incomplete batches drop_remainder drops: 4 files of 2 records, batch 8, 4 shards deliver nothing, 1 shard delivers the one full batch'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
out = list(FINDINGS)
seen = set()
for i, (p, pre, what) in enumerate(FIX, 1):
  h = [a for a, s in log if s.startswith('fix: ' + pre)]
  assert len(h) == 1, (pre, h)
  seen.add(h[0])
  out.append(dict(id=f'X{i}', property=p, status='fixed', commit=h[0], what=what,
                  text=f'fixed: property={p} {h[0]} {what}'))
left = [s for a, s in log if s.startswith('fix:') and a not in seen]
assert not left, left
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
  f.write('{"findings": [\n ' + ',\n '.join(json.dumps(o) for o in out) + '\n]}\n')
print(len(out))
d = os.path.join(here, 'DESIGN.md')
text = open(d).read()
a, rest = text.split('<!-- fixes:begin -->\n')
b = rest.split('<!-- fixes:end -->')[1]
rows = [f"* {o['id']} ({o['property']}{', ' + o['commit'] if 'commit' in o else ''}): {o['what']}\n" for o in out]
open(d, 'w').write(a + '<!-- fixes:begin -->\n' + ''.join(rows) + '<!-- fixes:end -->' + b)
