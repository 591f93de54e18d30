#!/usr/bin/env python3
"""One-off translator: spec/*.xml + src/enums.rs + default values -> TLA+ record tables.

Run by hand when the record catalogue of the specification is (re)drafted, never by a check:
the committed spec/Rec*.tla files are the specification, and the checks compare the code
with them.  Usage: xml2tla.py /repo DEFAULTS.txt OUTDIR
"""
import sys, re, json, xml.etree.ElementTree as ET
REPO, DEFAULTS, OUT = sys.argv[1:4]
VERS = "Version_1_0 Version_1_2 Version_1_40 Version_2_05 Version_2_10 Version_2_21 Version_2_22 Version_2_5 Version_2_6 R9 R10 R11 R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018".split()
VI = {v: i + 1 for i, v in enumerate(VERS)}
R12, R13, R14, R2000, R2004, R2007, R2010, R2013, R2018 = [VI[x] for x in "R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018".split()]
MAXV = 21

# ---------------------------------------------------------------- enums
enums = {}
src = open(REPO + '/src/enums.rs').read()
for m in re.finditer(r'pub enum (\w+)\s*\{(.*?)\n *\}', src, re.S):
    n = 0; vs = []
    for l in m.group(2).split('\n'):
        l = l.split('//')[0].strip().rstrip(',')
        if not l or l.startswith('#'): continue
        mm = re.match(r'(\w+)\s*(?:=\s*(-?\w+))?$', l)
        if mm.group(2) is not None: n = int(mm.group(2), 0)
        vs.append((mm.group(1), n)); n += 1
    enums[m.group(1)] = vs

# ---------------------------------------------------------------- defaults
dflt = {}
for line in open(DEFAULTS):
    p = line.rstrip('\n').split(' ', 2)
    if p[0] in 'EOT': dflt[p[0] + '.' + p[1]] = json.loads(p[2])
    else: dflt[p[0]] = json.loads(line[2:])

def ctype(c):
    for lo, hi, t in [(0,9,'s'),(10,59,'f'),(60,79,'i16'),(90,99,'i32'),(100,105,'s'),(110,149,'f'),(160,169,'i64'),(170,179,'i16'),
        (210,239,'f'),(270,289,'i16'),(290,299,'b'),(300,309,'s'),(310,319,'x'),(320,369,'s'),(370,389,'i16'),(390,399,'s'),(400,409,'i16'),
        (410,419,'s'),(420,429,'i32'),(430,439,'s'),(440,459,'i32'),(460,469,'f'),(470,481,'s'),(999,1009,'s'),(1010,1059,'f'),(1060,1070,'i16'),(1071,1071,'i32')]:
        if lo <= c <= hi: return t
    raise Exception('code %d' % c)

def fnum(x):
    return repr(float(x))

def tok(ty, j, code, opt):
    """(v, w) tokens for a JSON value j of the type ty written at the group code."""
    ct = ctype(code)
    if ty == 'bool':
        b = j
        if opt.get('neg'): b = not b
        return ('b:true' if j else 'b:false', 'i:%d' % (1 if b else 0))
    if ty == 'f64':
        return ('f:' + fnum(j), ('f:' + fnum(j)) if ct == 'f' else 'i:%d' % int(j))
    if ty in ('i16','i32','u32','i64','usize','u8i'):
        return ('i:%d' % j, ('f:' + fnum(j)) if ct == 'f' else 'i:%d' % j)
    if ty == 'String': return ('s:' + j, 's:' + j)
    if ty in ('Color','LineWeight'): return ('i:%d' % j['raw_value'], 'i:%d' % j['raw_value'])
    if ty == 'ViewMode': return ('i:%d' % j['flags'], 'i:%d' % j['flags'])
    if ty == 'Handle': return ('h:%X' % j, 's:%X' % j)
    if ty == 'char': return ('s:' + j, 'i:%d' % ord(j))
    if ty == 'Uuid': return ('s:' + j, 's:' + j)
    if ty == 'Vec<u8>':
        h = ''.join('%02X' % b for b in j)
        return ('x:' + h, 'x:' + h)
    if ty.startswith('DateTime'): return ('d:' + j, '*')
    if ty == 'Duration': return ('D:%d' % j['secs'], '*')
    if ty == 'XrefClip':
        return ('e:' + j, 'i:%d' % (1 if j != 'NotDisplayedNotPlotted' else 0))
    if ty in enums:
        n = dict(enums[ty])[j]
        return ('e:' + j, ('f:' + fnum(n)) if ct == 'f' else 'i:%d' % n)
    raise Exception('tok ' + ty)

KEYS = {'HandleMap': ['@k', '@v'], 'Point': ['x','y','z'], 'Vector': ['x','y','z'], 'Color': ['raw_value'], 'LineWeight': ['raw_value'], 'ViewMode': ['flags'],
        'TransformationMatrix': ['m%d%d' % (i, j) for i in range(1, 5) for j in range(1, 5)],
        'GeoMeshPoint': ['source.x','source.y','destination.x','destination.y'],
        'LwPolylineVertex': ['x','y','id','starting_width','ending_width','bulge'],
        'MLineStyleElement': ['offset','color.raw_value','line_type']}
CTY = {'HandleMap': ['String', 'Handle'], 'LwPolylineVertex': ['f64','f64','i32','f64','f64','f64'], 'MLineStyleElement': ['f64','i16','String']}

def scalar_cands(ty, code, n, name, opt):
    ct = ctype(code); q = 10 * n
    if ty == 'bool': return [True, False]
    if ty == 'f64':
        if ct == 'f': return [q + 1.25, -(q + 2.5), q * 1000 + 3.125, 0.0, (q + 1) / 1024.0]
        return [float(q + 1), float(q + 2), 0.0]
    if ty in ('i16','i32','u32','i64','usize','u8i'):
        if opt.get('small'): return [q % 120 + 1, q % 120 + 2, 0, 7]
        if ty == 'u32': return [q + 1, 0, 2000000000 + q]
        if ty == 'i64': return [q + 1, -(q + 2), 9000000000000000 + q, 0, -9000000000000000 - q]
        big = 32767 - n if (ct in ('i16', 'b') or ty == 'i16') else 2147483647 - n
        return [q + 1, -(q + 2), big, 0, -big - 1]
    if ty == 'String': return ['%s %d' % (name[:14], n), 'a%d' % n, '', 'B %d c' % n]
    if ty == 'Color': return [{'raw_value': v} for v in (n % 255 + 1, 256, (n + 50) % 255 + 1, 0, 257, 255)]
    if ty == 'LineWeight': return [{'raw_value': v} for v in (n % 200 + 1, -1, -2, -3, 211, 0)]
    if ty == 'ViewMode': return [{'flags': v} for v in (1, 2, 4, 8, 16, 31, 0)]
    if ty == 'Handle': return [0xA00 + n, 0xFFFFFF - n, 0]
    if ty == 'char': return ['A', ',', '~']
    if ty == 'Uuid': return ['00010203-0405-0607-0809-0a0b0c0d0e%02x' % (n % 256), 'ffeeddcc-bbaa-9988-7766-5544332211%02x' % (n % 256)]
    if ty == 'Vec<u8>': return [[n % 256, 1, 255], [0], [i % 256 for i in range(n, n + 255)], [10, 13, 92, 94]]
    if ty.startswith('DateTime'): return ['2001-02-03T04:05:06Z', '1999-12-31T23:59:59Z', '2024-02-29T12:00:00Z', '1970-01-01T00:00:01Z']
    if ty == 'Duration': return [{'secs': s} for s in (n * 60 + 5, 86399, 86400, 1000000 + n)]
    if ty == 'XrefClip': return ['DisplayedAndPlotted', 'DisplayedNotPlotted', 'NotDisplayedNotPlotted']
    if ty in enums: return [v for v, _ in enums[ty]]
    raise Exception('cands ' + ty)

class F:  # a field
    def __init__(s, name, ty, codes, default, multi=False, priv=False, opt=None, cands=None, carry=None, keys=None, ctys=None):
        s.name, s.ty, s.codes, s.multi, s.priv, s.opt = name, ty, codes, multi, priv, opt or {}
        s.keys = keys if keys is not None else KEYS.get(ty, [])
        if ty in ('Point', 'Vector', 'GeoMeshPoint'): s.keys = s.keys[:len(codes)]
        s.ctys = ctys or CTY.get(ty)
        s.default, s.cands, s.index = default, cands, None
    def elem(s, j):
        """JSON element -> tuple of (v,w)"""
        out = []
        if s.ty in ('Color', 'LineWeight', 'ViewMode') or not s.keys:
            return [tok(s.ty, j, s.codes[0], s.opt)]
        for i, k in enumerate(s.keys):
            v = j
            for p in k.split('.'): v = v[p]
            out.append(tok(s.ctys[i] if s.ctys else s.opt.get('cty', 'f64'), v, s.codes[min(i, len(s.codes) - 1)], s.opt))
        return out
    def value(s, j):
        return [s.elem(x) for x in j] if s.multi else [s.elem(j)]
    def mkcands(s, n):
        if s.cands is not None: return [s.value(j) for j in s.cands]
        if s.ty in ('Color','LineWeight','ViewMode') or not s.keys:
            el = scalar_cands(s.ty, s.codes[0], n, s.name.split('.')[-1], s.opt)
            if s.ty == 'Vec<u8>' and not s.multi: pass
        else:
            el = []
            for r in range(4):
                o = {}
                for i, k in enumerate(s.keys):
                    c = scalar_cands(s.ctys[i] if s.ctys else s.opt.get('cty', 'f64'), s.codes[min(i, len(s.codes) - 1)], n * 4 + i, k.split('.')[0], s.opt)
                    v = c[r % len(c)]
                    d = o; ps = k.split('.')
                    for p in ps[:-1]: d = d.setdefault(p, {})
                    d[ps[-1]] = v
                el.append(o)
        if s.multi:
            return [s.value(x) for x in ([el[0]], [el[i % len(el)] for i in range(3)], [], [el[1 % len(el)], el[0]])]
        return [s.value(x) for x in el]

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def tval(v):
    return '<<' + ','.join('<<' + ','.join(('S(%s)' % q(a)) if a == b else '<<%s,%s>>' % (q(a), q(b)) for a, b in e) + '>>' for e in v) + '>>'

class Kind:
    def __init__(s, key, tstr, mn=1, mx=MAXV):
        s.key, s.tstr, s.min, s.max = key, tstr, mn, mx
        s.fields, s.wr, s.rd, s.nowire, s.noread, s.flags = [], [], [], False, False, []
    def add(s, f):
        for g in s.fields:
            if g.name == f.name: return g
        s.fields.append(f); f.index = len(s.fields); return f
    def mark(s, code, w, mn=1, mx=MAXV): s.wr.append(('m', code, w, mn, mx))
    def put(s, f, codes=None, mn=1, mx=MAXV, nd=False, cond=0, comps=None, zf=None):
        """codes: list of (code, comp, min, notif)"""
        s.wr.append(('f', f.index, codes or [(c, i + 1, 1, '') for i, c in enumerate(f.codes)], mn, mx, nd, cond))
    def cnt(s, code, f, kind='i', mn=1, mx=MAXV, cond=0): s.wr.append(('n', code, f.index, kind, mn, mx))
    def read(s, f, codes=None):
        for i, c in enumerate(codes or f.codes):
            s.rd.append((c, f.index, i + 1))
    def emit(s):
        o = ['[key |-> %s, tstr |-> %s, min |-> %d, max |-> %d, nowire |-> %s, noread |-> %s, ns |-> %d,' % (q(s.key), q(s.tstr), s.min, s.max, str(s.nowire).upper(), str(s.noread).upper(), getattr(s, 'nspecific', len(s.rd)))]
        nc = getattr(s, 'ncommon', 0)
        o.append(' fields |-> ' + (s.cname + ' \\o ' if nc else '') + '<<')
        fl = []
        for f in s.fields[nc:]:
            fl.append('  [n |-> %s, ks |-> <<%s>>, multi |-> %s, priv |-> %s, d |-> %s, c |-> <<%s>>]' % (
                q(f.name), ','.join(q(k) for k in f.keys), str(f.multi).upper(), str(f.priv).upper(), tval(f.value(f.default)), ', '.join(tval(v) for v in f.mkcands(f.index))))
        o.append(',\n'.join(fl) + '>>,')
        w = []
        nw = getattr(s, 'ncwr', 0)
        for it in s.wr[nw:]:
            if it[0] == 'm': w.append('  M(%d, %s, %d, %d)' % (it[1], q('s:' + it[2]) if not it[2].startswith(('i:', 'f:', 's:', '*')) else q(it[2]), it[3], it[4]))
            elif it[0] == 'mv': w.append('  MV(%d, %s, %s, %d, %d)' % (it[1], q(it[2]), q(it[3]), it[4], it[5]))
            elif it[0] == 'n': w.append('  N(%d, %d, %s, %d, %d)' % (it[1], it[2], q(it[3]), it[4], it[5]))
            elif it[0] == 'f':
                cs = it[2]
                simple = all(c[2] == 1 and c[3] == '' and c[1] == i + 1 for i, c in enumerate(cs))
                if simple: w.append('  W(%d, <<%s>>, %d, %d, %s, %d)' % (it[1], ','.join(str(c[0]) for c in cs), it[3], it[4], str(it[5]).upper(), it[6]))
                else: w.append('  X(%d, <<%s>>, %d, %d, %s, %d)' % (it[1], ','.join('<<%d,%d,%d,%s>>' % (c[0], c[1], c[2], q(c[3])) for c in cs), it[3], it[4], str(it[5]).upper(), it[6]))
            elif it[0] == 'h': w.append('  H(%d, %d, %d)' % (it[1], it[2], it[3]))
        o.append(' wr |-> ' + ('ECommonWr \\o ' if nw else '') + '<<\n' + ',\n'.join(w) + '>>,')
        o.append(' rd |-> <<' + ','.join('<<%d,%d,%d>>' % r for r in s.rd) + '>>]')
        return '\n'.join(o)

ns = lambda e: e.tag.split('}')[-1]
def vrange(a): return VI[a.get('MinVersion', VERS[0])], VI[a.get('MaxVersion', VERS[-1])]
SKIPTY = {'ExtensionGroup', 'XData', 'MText', '(Attribute, Handle)', '(Vertex, Handle)', 'SectionTypeSettings', 'TableCellStyle', 'CodePair',
          'HashMap<String, Handle>', 'Vec<Option<DataTableValue>>', 'DimensionType'}

def foreach_codes(ent, name):
    for e in ent.iter():
        if ns(e) == 'Foreach' and re.match(r'(ent|obj)\.%s$' % name, e.attrib['Field']):
            return [int(w.attrib['Code']) for w in e if 'item' in w.attrib['Value']]
def mkfield(a, pre, dj, tag, ent):
    name, code = a['Name'], int(a['Code'])
    multi = a.get('AllowMultiples') == 'true'
    if tag == 'Pointer':
        jn = '__%s_handle' % name
        return F(pre + jn, 'Handle', [code], dj[jn], multi, True)
    ty = a['Type']
    if ty in SKIPTY or (name == 'handle' and pre == 'common.'): return None
    codes = [int(x) for x in a['CodeOverrides'].split(',')] if 'CodeOverrides' in a else [code]
    opt = {'neg': '!' in a.get('ReadConverter', '')}
    if ent.attrib['Name'] == 'VbaProject' and name == 'data': ty, multi = 'Vec<u8>', False
    if ty == 'u8' : ty = 'u8i'
    if name not in dj: return None
    if ty.startswith('DateTime') and not multi: dj = dict(dj); dj[name] = '2000-01-01T00:00:00Z'
    if ty == 'TransformationMatrix': codes = [code] * 16
    if multi and ty in KEYS and ty not in ('Color', 'LineWeight') and len(codes) == 1:
        codes = foreach_codes(ent, name) or codes
    if ty == 'Vec<u8>' and multi and not (dj[name] == []): raise Exception(name)
    return F(pre + name, ty, codes, dj[name], multi, name.startswith('__'), opt)

def conv_items(k, order, fm, pre, dj):
    for it in order:
        t, a = ns(it), it.attrib
        mn, mx = vrange(a)
        if t == 'WriteField':
            name = a['Field']
            fa = fm.get(name)
            if fa is None: raise Exception('%s: field %s' % (k.key, name))
            ft, fattr, f = fa
            if name == 'handle' or f is None: k.wr.append(('h', 5, 1, MAXV)) if name == 'handle' else None; continue
            m1, m2 = vrange(fattr)
            if name == 'owner': k.put(f, nd=True); continue
            k.put(f, mn=max(mn, m1), mx=min(mx, m2), nd=fattr.get('DisableWritingDefault') == 'true')
        elif t == 'WriteSpecificValue':
            v = a['Value']
            m = re.match(r'&(?:amp;)?String::from\("(.*)"\)$', v)
            code = int(a['Code'])
            if m: k.mark(code, m.group(1), mn, mx)
            elif v == 'obj.data.len() as i32': k.mark(code, '*')
            elif re.match(r'\w+\.(\w+)\.len\(\) as (i16|i32|f64)$', v):
                mm = re.match(r'\w+\.(\w+)\.len\(\) as (i16|i32|f64)$', v)
                f = fm_json(k, pre + mm.group(1))
                if f and not f.multi: k.mark(code, '*')
                elif f: k.cnt(code, f, 'f' if mm.group(2) == 'f64' else 'i', mn, mx)
                else: k.todo = getattr(k, 'todo', []) + [v]
            elif v == 'obj.data.len() as i32': k.mark(code, '*')
            elif v.startswith('as_i16(ent.attributes'): pass   # only with attributes: Compound.tla
            elif v == '0': k.mark(code, 'i:0', mn, mx)
            elif v == 'common.elevation':
                f = [x for x in k.fields if x.name == 'common.elevation'][0]
                k.put(f, [(code, 1, 1, '')], mn, mx, nd=True)
            elif re.match(r'(ent|obj)\.(\w+)$', v.replace('&amp;', '').replace('&', '')):
                f = fm_json(k, pre + re.match(r'(ent|obj)\.(\w+)$', v.replace('&', '')).group(2))
                k.put(f, [(code, 1, 1, '')], mn, mx)
            else: k.todo = getattr(k, 'todo', []) + [v]
        elif t == 'Foreach':
            if a['Field'].startswith('obj.data.chunks'): k.put(fm_json(k, 'data'), nd=True); continue
            m = re.match(r'(?:ent|obj)\.(\w+?)(\.values\(\)|\.values_row_major_4x3\(\))?$', a['Field'])
            f = fm_json(k, pre + m.group(1))
            if f is None: k.todo = getattr(k, 'todo', []) + [a['Field']]; continue
            if m.group(2) == '.values()':
                c = int(it[0].attrib['Code']); k.put(f, [(c, i + 1, 1, '') for i in range(16)], *vrange(it[0].attrib)); continue
            if m.group(2):
                c = int(it[0].attrib['Code']); k.put(f, [(c, ci, 1, '') for ci in [1,5,9,2,6,10,3,7,11,4,8,12]]); continue
            cs = []
            for w in it:
                wa = w.attrib; v = wa['Value']; mn2, mx2 = vrange(wa)
                if re.match(r'(\*?item(\.clone\(\))?|&item\.as_string\(\))$', v): ci = 1
                else:
                    key = re.match(r'&?item\.([\w.]+?)( as i32|\(\))?$', v.replace('.raw_value()', '')).group(1)
                    ci = [x.replace('.raw_value', '') for x in f.keys].index(key) + 1
                nd = 'f:0.0' if wa.get('DontWriteIfValueIs') == '0.0' else ''
                cs.append((int(wa['Code']), ci, mn2, nd))
                if mx2 != MAXV: k.put(f, [cs.pop()], mn, mx2); split = True
            if len(cs) == 1 and cs[0][2] > 1: k.put(f, [(cs[0][0], cs[0][1], 1, cs[0][3])], max(mn, cs[0][2]), mx)
            else: k.put(f, cs, mn, mx)
        elif t == 'WriteExtensionData': pass
        else: raise Exception(t)

def fm_json(k, name):
    for f in k.fields:
        if f.name == name: return f
    return None

def build(ent, pre, dj, k):
    """add the fields of an xml element; returns name -> (tag, attrib, field)"""
    fm = {}; seen = set()
    for e in ent:
        t, a = ns(e), e.attrib
        if t not in ('Field', 'Pointer'): continue
        f = mkfield(a, pre, dj, t, ent)
        if f is not None and f.codes[0] >= 0:
            f2 = k.add(f)
            if f2 is not f: f2.alt = getattr(f2, 'alt', []) + [f.codes]
            f2_codes = f.codes
            mm = re.match(r'__(\w+)_([xyz])$', a['Name'])
            if mm and t == 'Field':
                tgt = {'segment_direction': 'segment_directions', 'miter_direction': 'miter_directions', 'control_point': 'control_points', 'fit_point': 'fit_points',
                       'point': 'points', 'face_point_index': 'face_indices'}.get(mm.group(1), mm.group(1))
                g = fm_json(k, pre + tgt)
                if g is None: k.late = getattr(k, 'late', []) + [(len(k.rd), f2_codes[0], pre + tgt, 'xyz'.index(mm.group(2)) + 1)]
                elif f2_codes[0] not in seen: k.rd.append((f2_codes[0], g.index, 'xyz'.index(mm.group(2)) + 1))
                seen |= set(f2_codes)
            elif a.get('GenerateReader') != 'false':
                for i, c in enumerate(f2_codes):
                    if c not in seen or len(set(f2_codes)) == 1 and len(f2_codes) > 1: k.rd.append((c, f2.index, i + 1))
                seen |= set(f2_codes)
            fm[a['Name']] = (t, a, f2)
        else: fm[a['Name']] = (t, a, None)
    return fm

def declorder(k, ent, fm):
    for e in ent:
        t, a = ns(e), e.attrib
        if t not in ('Field', 'Pointer') or a.get('GenerateWriter') == 'false': continue
        f = fm[a['Name']][2]
        if f is None: continue
        mn, mx = vrange(a)
        codes = [int(x) for x in a['CodeOverrides'].split(',')] if 'CodeOverrides' in a else [int(a['Code'])]
        if f.ty == 'TransformationMatrix': codes = codes * 16
        nd, cond = a.get('DisableWritingDefault') == 'true', 0
        wc = a.get('WriteCondition')
        if wc:
            m = re.match(r'item\.(\w+)$', wc)
            if m: cond = fm_json(k, m.group(1)).index
            elif '!=' in wc: nd = True
            else:
                n2 = re.sub(r'(?<!^)([A-Z])', r'_\1', wc).lower()
                g = fm_json(k, f.name.rsplit('.', 1)[0] + '.' + n2 if '.' in f.name else n2); cond = g.index
        k.put(f, [(c, i + 1, 1, '') for i, c in enumerate(codes)], mn, mx, nd, cond)

def flags_of(e, pre=''):
    out = []
    for f in e:
        for g in f:
            if ns(g) == 'Flag': out.append((pre + (f.attrib.get('Name') if ns(f) == 'Field' else f.attrib['Field']), g.attrib['Name'], int(g.attrib['Mask'], 0)))
    return out

# =================================================================== entities
root = ET.parse(REPO + '/spec/EntitiesSpec.xml').getroot()
base = {e.attrib['Name']: e for e in root}
def common_entity(k, dj):
    return build(base['Entity'], 'common.', dj['common'], k)
kinds = {'E': [], 'O': [], 'T': [], 'H': []}
flags = []
def order(e):
    for c in e:
        if ns(c) == 'WriteOrder': return c
for e in root:
    n = e.attrib['Name']
    if n in ('Entity', 'DimensionBase'): continue
    if n == 'Underlay': continue
    mn, mx = vrange(e.attrib)
    k = Kind('E.' + n, e.attrib['TypeString'].split(',')[0], mn, mx)
    dj = dflt['E.' + n]
    sp = dj['specific'][n]
    k.custom_r = e.attrib.get('GenerateReaderFunction') == 'false'
    k.custom_w = e.attrib.get('GenerateWriterFunction') == 'false'
    fmc = common_entity(k, dj); k.ncommon = len(k.fields); crd, k.rd = k.rd, []
    if e.attrib.get('BaseClass') == 'DimensionBase':
        fmb = build(base['DimensionBase'], 'dimension_base.', sp['dimension_base'], k)
    fm = build(e, '', sp, k)
    k.nspecific = len(k.rd); k.rd += crd
    conv_items(k, order(base['Entity']), fmc, 'common.', dj); k.ncwr = len(k.wr); k.cname = 'ECommon'
    if e.attrib.get('BaseClass') == 'DimensionBase':
        bo = order(base['DimensionBase'])
        if bo is not None: conv_items(k, bo, fmb, 'dimension_base.', sp)
        else:
            k.mark(100, base['DimensionBase'].attrib['SubclassMarker'], R13)
            declorder(k, base['DimensionBase'], fmb)
        flags += [(k.key,) + f for f in flags_of(base['DimensionBase'], 'dimension_base.')]
    o = order(e)
    if not k.custom_w:
        if o is not None: conv_items(k, o, fm, '', sp)
        else:
            if e.attrib['SubclassMarker']: k.mark(100, e.attrib['SubclassMarker'], R13)
            declorder(k, e, fm)
    k.noread = k.custom_r
    k.nowire = k.custom_w
    flags += [(k.key,) + f for f in flags_of(e)]
    kinds['E'].append(k)

# =================================================================== objects
root = ET.parse(REPO + '/spec/ObjectsSpec.xml').getroot()
obase = {e.attrib['Name']: e for e in root}
for e in root:
    n = e.attrib['Name']
    if n in ('Object', 'DataTable'): continue
    mn, mx = vrange(e.attrib)
    k = Kind('O.' + n, e.attrib['TypeString'].split(',')[0], max(mn, R13), mx)
    dj = dflt['O.' + n]; sp = dj['specific'][n]
    k.custom_r = e.attrib.get('GenerateReaderFunction') == 'false'
    k.custom_w = e.attrib.get('GenerateWriterFunction') == 'false'
    build(obase['Object'], 'common.', dj['common'], k); k.ncommon = len(k.fields); crd, k.rd = k.rd, []; k.cname = 'OCommon'
    fm = build(e, '', sp, k)
    k.nspecific = len(k.rd); k.rd += crd
    k.wr.append(('h', 5, 1, MAXV))
    k.put(fm_json(k, 'common.__owner_handle'), nd=True)
    o = order(e)
    if not k.custom_w:
        if o is not None: conv_items(k, o, fm, '', sp)
        else:
            if e.attrib['SubclassMarker']: k.mark(100, e.attrib['SubclassMarker'])
            declorder(k, e, fm)
    k.noread = k.custom_r; k.nowire = k.custom_w
    flags += [(k.key,) + f for f in flags_of(e)]
    kinds['O'].append(k)

# =================================================================== tables
root = ET.parse(REPO + '/spec/TableSpec.xml').getroot()
for tb in root:
    e = tb[0]; n = e.attrib['Name']
    mn, mx = vrange(tb.attrib)
    k = Kind('T.' + n, tb.attrib['TypeString'], mn, mx)
    dj = dflt['T.' + n]
    nm = F('name', 'String', [2], dj['name']); k.add(nm); nm.cands = ['Tn %s' % n, 'B-%s' % n, 'x']
    k.wr.append(('h', 5, 1, MAXV))
    k.mark(100, 'AcDbSymbolTableRecord'); k.mark(100, e.attrib['ClassName'])
    k.put(nm); k.mark(70, 'i:0')
    k.rd.append((2, 1, 1))
    fm = build(e, '', dj, k)
    declorder(k, e, fm)
    
    if n == 'BlockRecord': k.wr = [x if not (x[0] == 'm' and x[1] == 70) else ('mv', 70, 'i:0', 'e:Unitless', 1, MAXV) for x in k.wr]
    kinds['T'].append(k)

# =================================================================== header
root = ET.parse(REPO + '/spec/HeaderVariablesSpec.xml').getroot()
k = Kind('H', 'HEADER')
dj = dflt['H']
for v in root:
    a = v.attrib; n = a['Field']; ty = a['Type']; code = int(a['Code'])
    if n in ('version', 'next_available_handle'): continue
    codes = [code] if code >= 0 else [10, 20, 30][:-code]
    mn, mx = vrange(a)
    if ty == 'XrefClippingBoundaryVisibility' and code == 290: tyx = 'XrefClip'
    else: tyx = ty
    f = F(n, ty, codes, dj[n])
    if ty.startswith('DateTime'): f.default = '2000-01-01T00:00:00Z'
    if ty == 'Uuid': f.default = '11111111-2222-3333-4444-555555555555'
    f = k.add(f)
    if a.get('SuppressWriting') != 'true':
        k.wr.append(('v', '$' + a['Name'], f.index, codes, mn, mx, a.get('DontWriteDefault') == 'true', ty, tyx))
flags += [('H',) + f for f in flags_of(root)]
k.noread = True
kinds['H'].append(k)

# =================================================================== hand-written parts of the catalogue
K = {k.key: k for g in kinds.values() for k in g}
def fld(k, n): 
    f = fm_json(k, n)
    if f is None: raise Exception(k.key + ' ' + n)
    return f
PTS = {12: 'insertion_point'}
DIMS = {
 'RotatedDimension': ('AcDbAlignedDimension', [('insertion_point', 12), ('definition_point_2', 13), ('definition_point_3', 14), ('rotation_angle', 50), ('extension_line_angle', 52)], 'AcDbRotatedDimension', ['RotatedHorizontalOrVertical', 'Aligned']),
 'RadialDimension': ('AcDbRadialDimension', [('definition_point_2', 15), ('leader_length', 40)], None, ['Radius']),
 'DiameterDimension': ('AcDbDiametricDimension', [('definition_point_2', 15), ('leader_length', 40)], None, ['Diameter']),
 'AngularThreePointDimension': ('AcDb3PointAngularDimension', [('definition_point_2', 13), ('definition_point_3', 14), ('definition_point_4', 15), ('definition_point_5', 16)], None, ['AngularThreePoint']),
 'OrdinateDimension': ('AcDbOrdinateDimension', [('definition_point_2', 13), ('definition_point_3', 14)], None, ['Ordinate']),
}
for n, (m1, fs, m2, types) in DIMS.items():
    k = K['E.' + n]; dj = dflt['E.' + n]['specific'][n]['dimension_base']
    t = F('dimension_base.dimension_type', 'DimensionType', [70], dj['dimension_type']); t = k.add(t); t.cands = types
    three = [fld(k, 'dimension_base.' + x).index for x in ('is_block_reference_referenced_by_this_block_only', 'is_ordinate_x_type', 'is_at_user_defined_location')]
    at = [i for i, it in enumerate(k.wr) if it[0] == 'f' and it[1] == fld(k, 'dimension_base.text_mid_point').index][0] + 1
    k.wr.insert(at, ('d', t.index, three))
    k.mark(100, m1, R13 if n == 'RotatedDimension' else 1)
    for fn, c in fs:
        f = fld(k, fn)
        k.put(f, [(c + 10 * i, i + 1, 1, '') for i in range(3)] if f.ty in ('Point', 'Vector') else [(c, 1, 1, '')])
    if m2: k.mark(100, m2, R13)
    k.nowire = False
k = K['E.Polyline']; P = lambda n, mn=1, mx=MAXV, nd=True: k.put(fld(k, n), None, mn, mx, nd)
k.mark(100, '*', R13); P('contains_vertices', 1, R13, False); P('location', R12, MAXV, False)
for n in 'thickness flags default_starting_width default_ending_width polygon_mesh_m_vertex_count polygon_mesh_n_vertex_count smooth_surface_m_density smooth_surface_n_density surface_type normal'.split(): P(n)
k.nowire = False
k = K['E.Vertex']
k.mark(100, 'AcDbVertex'); k.mark(100, '*', R13); P('location', nd=False)
for n in 'starting_width ending_width bulge'.split(): P(n)
P('flags', nd=False); P('curve_fit_tangent_direction', nd=False)
for i in '1234': P('polyface_mesh_vertex_index' + i, R12)
P('identifier', R2010, MAXV, False)
k.nowire = False
def hm(k):  # name -> handle
    el = lambda *a: [{'@k': x, '@v': y} for x, y in a]
    f = F('value_handles', 'HandleMap', [3, 350], [], True); f.cands = [el(('AA', 0xB1), ('BB', 0xB2)), el(('only', 0xFFFF)), [], el(('A', 1), ('a', 2), ('b c', 3))]
    return k.add(f)
k = K['O.Dictionary']; f = hm(k); own = fld(k, 'is_hard_owner').index
k.mark(100, 'AcDbDictionary'); k.put(fld(k, 'is_hard_owner'), mn=R2000); k.put(fld(k, 'duplicate_record_handling'), mn=R2000)
k.put(f, [(3, 1, 1, ''), (360, 2, 1, '')], cond=own); k.put(f, [(3, 1, 1, ''), (350, 2, 1, '')], cond=-own)
k.nowire = False
k = K['O.DictionaryWithDefault']; f = hm(k)
k.mark(100, 'AcDbDictionary'); k.put(fld(k, 'duplicate_record_handling'), mn=R2000); k.put(fld(k, 'default_handle')); k.put(f)
k.nowire = False
k = K['O.LightList']; k.mark(100, 'AcDbLightList'); k.put(fld(k, 'version')); f = fld(k, '__lights_handle'); k.cnt(90, f); k.put(f, [(5, 1, 1, ''), (1, 0, 1, 's:')])
k.nowire = False
k = K['O.SectionSettings']; k.mark(100, 'AcDbSectionSettings'); k.put(fld(k, 'section_type')); k.mark(91, 'i:0')
k.fields = k.fields[:2]; k.rd = [r for r in k.rd if r[1] <= 2]; k.nspecific = 1   # the others belong to its type settings
k.nowire = False
k = K['O.XRecordObject']; k.mark(100, 'AcDbXrecord'); k.put(fld(k, 'duplicate_record_handling')); k.nowire = False
k = K['O.SunStudy']; k.mark(100, 'AcDbSunStudy')
for n in 'version sun_setup_name description output_type sheet_set_name use_subset sheet_subset_name select_dates_from_calendar'.split(): k.put(fld(k, n))
f = fld(k, 'dates'); k.cnt(91, f); k.put(f, [(90, 1, 1, ''), (90, 1, 1, '')])
for n in 'select_range_of_dates start_time_seconds_past_midnight end_time_seconds_past_midnight interval_in_seconds'.split(): k.put(fld(k, n))
f = fld(k, 'hours'); f.opt['small'] = True; k.cnt(73, f); k.put(f, [(290, 1, 1, '')])
for n in '__page_setup_wizard_handle __view_handle __visual_style_handle shade_plot_type viewports_per_page viewport_distribution_row_count viewport_distribution_column_count spacing lock_viewports label_viewports __text_style_handle'.split(): k.put(fld(k, n))
k.nowire = False
K['O.VbaProject'].noread = K['O.GeoData'].noread = True
k = K['O.AcadProxyObject']; f = fld(k, 'object_ids')
k.rd = [(c, f.index, 1) if k.fields[g - 1].name.startswith('__object_ids_') else (c, g, i) for c, g, i in k.rd]
k = K['T.Layer']
lc = fld(k, 'color'); lc.cands = [{'raw_value': v} for v in (1, 5, 255, 7)]
on = F('is_layer_on', 'bool', [62], True); k.add(on)
i = [i for i, it in enumerate(k.wr) if it[0] == 'f' and it[1] == lc.index][0]
k.wr[i] = ('l', lc.index, on.index)
k.noread = True

for k in K.values():
    if getattr(k, 'todo', None): print('TODO', k.key, k.todo, file=sys.stderr)

for k in K.values():
    for pos, code, name, comp in reversed(getattr(k, 'late', [])):
        g = fm_json(k, name)
        if g is None: print('LATE', k.key, name, code, file=sys.stderr); continue
        k.rd.insert(pos, (code, g.index, comp))

# =================================================================== output
def emit2(k):
    s = k.emit()
    return s
_old = Kind.emit
def emit_wr(it):
    if it[0] == 'v': return '  V(%s, %d, <<%s>>, %d, %d, %s)' % (q(it[1]), it[2], ','.join(map(str, it[3])), it[4], it[5], str(it[6]).upper())
    if it[0] == 'd': return '  D(%d, %d, %d, %d)' % (it[1], *it[2])
    if it[0] == 'l': return '  L(%d, %d)' % (it[1], it[2])
def emit(k):
    special = [it for it in k.wr if it[0] in 'vdl']
    wr = k.wr
    k.wr = [it if it[0] not in 'vdl' else ('m', 9999, '@@%d@@' % i, 1, 1) for i, it in enumerate(wr)]
    s = _old(k)
    for i, it in enumerate(wr):
        if it[0] in 'vdl': s = s.replace('  M(9999, %s, 1, 1)' % q('s:@@%d@@' % i), emit_wr(it))
    k.wr = wr
    return s
for g, mod in (('E', 'RecEntities'), ('O', 'RecObjects'), ('T', 'RecTables'), ('H', 'RecHeader')):
    out = ['-' * 28 + ' MODULE %s ' % mod + '-' * 28,
           '(* Record catalogue, drafted from the DXF record definitions by tools/xml2tla.py and',
           '   frozen here: what each record kind contains, with which group codes, in which file',
           '   versions, and the values the model assigns to each field.  See Records.tla. *)',
           'EXTENDS RecOps', '']
    names = []
    k0 = kinds[g][0]
    if hasattr(k0, 'ncommon'):
        import copy
        kk = copy.copy(k0); kk.fields = k0.fields[:k0.ncommon]; kk.wr = k0.wr[:getattr(k0, 'ncwr', 0)]; kk.ncommon = 0; kk.ncwr = 0; kk.rd = []
        t = _old(kk)
        out.append('%s == %s\n' % (k0.cname, t[t.index(' fields |-> ') + 12:t.index(',\n wr |->')]))
        if g == 'E': out.append('ECommonWr == %s\n' % t[t.index(' wr |-> ') + 8:t.index(',\n rd |->')])
    for k in kinds[g]:
        nm = 'HeaderRec' if k.key == 'H' else k.key.replace('.', '_'); names.append(nm)
        out.append('%s ==\n%s\n' % (nm, emit(k)))
    out.append('Kinds == <<%s>>' % ', '.join(names))
    out.append('=' * 80)
    open(OUT + '/%s.tla' % mod, 'w').write('\n'.join(out) + '\n')
json.dump([list(f) for f in flags], open(OUT + '/flags.json', 'w'))
print({g: (len(v), sum(len(k.fields) for k in v)) for g, v in kinds.items()}, len(flags))
# settable fields that no file of any version carries: reported for a human to look at
for k in K.values():
    car = set()
    for it in k.wr:
        if it[0] == 'f': car.add(it[1])
        if it[0] == 'v': car.add(it[2])
        if it[0] == 'd': car |= {it[1], *it[2]}
        if it[0] == 'l': car |= {it[1], it[2]}
    none = [f.name for f in k.fields if f.index not in car and (not f.priv or f.name.endswith('_handle'))]
    if none: print('UNCARRIED', k.key, none, file=sys.stderr)
