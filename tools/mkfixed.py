"""Rewrite the "fixed" entries of known_findings.jsonl from the fix: commits in /repo (run by hand)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # part of the subject -> property
 ('dates read', 'C08'), ('MLINE points', 'C01'), ('underlay points', 'C01'), ('WIPEOUT clipping', 'C01'), ('MATERIAL specular map', 'C03'), ('MLINESTYLE elements', 'C03'),
 ('SPATIAL_FILTER', 'C03'), ('TABLESTYLE title', 'C03'), ('header variables', 'C04'), ('lock flag', 'C01'), ('common properties', 'C01'), ('owner of some objects', 'C03'),
 ('dimensions in files', 'C01'), ('LIGHTLIST', 'C03'), ('XRECORD', 'C03'), ('SUNSTUDY dates', 'C03'), ('object after a TABLESTYLE', 'C03'), ('SECTIONSETTINGS', 'C03'),
 ('DATATABLE', 'C03'), ('MATERIAL specular gloss', 'C03'), ('MATERIAL wrote', 'C05'), ('MATERIAL map_v_tile', 'C03'), ('DICTIONARY lost', 'C03'), ('VBA_PROJECT data', 'C03'),
 ('another MLINESTYLE', 'C24'), ('SUNSTUDY hours', 'C06'), ('errors in the last', 'C16'), ('without ENDBLK', 'C15'), ('x data of a block', 'C18'), ('another block record', 'C24'),
 ('handles were given out twice', 'C09'), ('adding a block did not', 'C10'), ('fell apart', 'C17'), ('unrelated MTEXT', 'C17'), ('used up a handle', 'C24'),
 ('keep the repairs', 'C01'), ('written after their parts', 'C18'), ('normalizing a drawing twice', 'C11')]
EXTRA = os.path.join(HERE, 'tools', 'fixed_extra.json')
if os.path.exists(EXTRA): PROP += json.load(open(EXTRA))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
keep = [l for l in open(HERE + '/known_findings.jsonl') if l.strip() and json.loads(l)['status'] == 'known']
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = [q for k, q in PROP if k in s]
    if not p: print('no property for', l); continue
    out.append(json.dumps({'status': 'fixed', 'properties': [p[0]], 'text': 'fixed: property=%s %s %s' % (p[0], h, s[5:])}) + '\n')
open(HERE + '/known_findings.jsonl', 'w').writelines(keep + out)
print(len(keep), 'known', len(out), 'fixed')
