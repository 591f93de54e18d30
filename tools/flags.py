"""One-off: the catalogue of flag words for Flags.tla and the accessors for the harness, from spec/flags.json.
usage: flags.py GENERATED_SOURCES_DIR"""
import json, re, sys, collections
gd = sys.argv[1]
src = {x: open(f'{gd}/{f}.rs').read() for x, f in (('E', 'entities'), ('O', 'objects'), ('H', 'header'))}
fl = collections.OrderedDict()
for k, f, n, m in json.load(open('/verif/spec/flags.json')): fl.setdefault((k, f), []).append((n, m.bit_length() - 1))
B = ['is_anonymous', 'has_non_consistent_attribute_definitions', 'is_xref', 'is_xref_overlay', 'is_externally_dependent', 'is_referenced_external_reference', 'is_resolved_external_reference']
fl['Block', 'flags'] = list(zip(B, range(7)))
C = ['erase', 'transform', 'color_change', 'layer_change', 'line_type_change', 'line_type_scale_change', 'visibility_change', 'clone', 'lineweight_change', 'plot_style_name_change']
fl['Class', 'proxy_capability_flags'] = list(zip(['is_%s_allowed' % c for c in C], range(10))) + [('is_R13_format_proxy', 15)]
fl['ViewMode', 'flags'] = list(zip(['is_perspective_view_active', 'is_front_clipping_on', 'is_back_clipping_on', 'is_ucs_follow_mode_on', 'is_front_clipping_at_eye'], range(5)))
tla, rs = [], []
for (k, f), q in fl.items():
    x, _, t = k.partition('.')
    if x in src:
        s = src[x]; t = t or 'Header'
        body = s[s.index('pub struct %s {' % t):]; body = body[:body.index('\n}')]
        ty = re.search(r'\b%s: (\w+)' % f, body).group(1)
    else: ty = 'i32'; t = k
    tla.append('    [k |-> "%s", f |-> "%s", w |-> %d, fl |-> <<%s>>]' % (k, f, {'i16': 16, 'i32': 32, 'u32': 32, 'i64': 32, 'u8': 8}[ty], ', '.join('<<"%s", %d>>' % z for z in q)))
    mod = {'E': 'entities::', 'O': 'objects::', 'H': '', 'Block': '', 'Class': '', 'ViewMode': 'enums::'}[x]
    rs.append('    flags!(o, "%s", "%s", %s, dxf::%s%s, [%s]);' % (k, f, ty, mod, t, ', '.join('%s/set_%s' % (n, n) for n, _ in q)))
open('/verif/spec/flags_catalogue.txt', 'w').write(',\n'.join(tla))
open('/verif/harness/src/flags_table.rs', 'w').write('// Written by tools/flags.py: how the accessors of every flag are called.\nuse crate::flags::Word;\npub fn table(o: &mut Vec<Word>) {\n' + '\n'.join(r.replace('/', ' ') for r in rs) + '\n}\n')
print(len(fl))
