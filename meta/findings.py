"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (the "known" list is kept by hand)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix commit, by a distinctive part of its subject
MAP = [
    ('CaptureGame no', 'R08'), ('CaptureGame.', 'R08'), ('Gomoku and Pente no longer', 'R09'), ('PolarMaze', 'R05'), ('MDPMazeTask', 'R05'),
    ('TMaze', 'R06'), ('FourByThree', 'R06'), ('ShuttleDocking', 'R06'), ('Tiger, Shuttle', 'R06'),
    ('SequentialDataSet used float', 'D02'), ('DataSet length without', 'D01'), ('DataSet.convertField', 'D01'),
    ('DataSet.appendLinked', 'D01'), ('DataSet.getLinked', 'D01'), ('DataSet could not be pickled', 'D04'),
    ('DataSet.randomBatches', 'D03'), ('replaceNansByMeans', 'D01'), ('ImportanceDataSet.addSample', 'D01'),
    ('_convertToOneOfMany uses', 'D05'), ('class conversions dropped', 'D05'), ('ClassificationDataSet.clear', 'D05'),
    ('stratifiedSplit lost', 'D03'), ('convertSequenceToTimeWindows', 'D05'), ('DataSet.linkFields crashed', 'D01'),
    ('getNumSequences crashed', 'D02'), ('refused SequenceClassificationDataSet', 'D02'), ('save_pickle(compact', 'D04'),
    ('_convertToOneOfMany truncated', 'D05'),
]
extra = os.path.join(HERE, 'meta', 'findings_map.json')
if os.path.exists(extra):
    MAP += [tuple(x) for x in json.load(open(extra))]
p = os.path.join(HERE, 'known_findings.json')
data = json.load(open(p))
log = subprocess.check_output(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    props = [i for k, i in MAP if k in s]
    if len(props) != 1:
        print('no unique property for', line, props)
        sys.exit(1)
    out.append('fixed: property=%s %s %s' % (props[0], h, s[4:].strip()))
data['fixed'] = out
json.dump(data, open(p, 'w'), indent=1)
print(len(out), 'fixes')
