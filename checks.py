"""Which specification modules and replay modes decide each property."""
REC = ['MCEntities', 'MCObjects', 'MCTables', 'MCHeader']
TECH = 'TLA+ specification model-checked with TLC; every explored behaviour replayed into the library'
NOTE_REC = 'TLC checks the record model (layout, version gates, reader dispatch) for every kind, version and one-field variation; each case is replayed through the real save and load. Values per field are samples chosen by the model.'
def rec(tier, seed):
    return dict(Seed=seed % 1000, NFull=2 if tier == 'quick' else 6, HotVers=1 if tier == 'quick' else 5)
def records(mods, modes):
    return lambda tier, seed: [dict(spec=m, consts=rec(tier, seed), engine='records', modes=modes) for m in mods]
CONT = dict(datatable=(4, 6), dict=(3, 4), dictdef=(3, 4), sections=(4, 6), tablestyle=(3, 5), xrecord=(2, 3), lights=(3, 6), sortents=(3, 6), vba=(2, 3), proxy=(4, 6))
def containers(tier, modes):
    big = tier != 'quick'
    return [dict(spec='Containers', tag=w.capitalize(), engine='containers', modes=modes, consts=dict(What='"%s"' % w, MaxN=n[big])) for w, n in CONT.items()]
def blocks(tier, modes):
    q = tier == 'quick'
    return [dict(spec='Blocks', tag=w + f, engine='blocks', modes=modes, consts=dict(What='"%s"' % w, Full='TRUE' if f else 'FALSE', Vers='{1, 9, 12, 13, 14, 15, 16, 17, 21}' if q and not f else '{13, 14, 15, 17}' if f and w == 'block' else '{%s}' % ', '.join(map(str, range(1, 22)))))
            for w in ('block', 'class') for f in ([''] if q else ['', 'Full'])]
def layout(tier, modes):
    q = tier == 'quick'
    return [dict(spec='Layout', engine='layout', modes=modes, consts={}),
            dict(spec='Layout', tag='Pairs', engine='layout', modes=modes, consts=dict(MaxN=2, Vers='{13, 14, 15, 16, 18}' if q else '{1, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}')),
            dict(spec='Layout', tag='Sim', engine='layout', modes=modes, consts=dict(MaxN=9), sim=dict(num=300 if q else 6000, depth=12))]
CHECKS = {}
def check(id, runs, note, level='model_checking', technique=TECH, **k):
    CHECKS[id] = dict(level=level, runs=runs, note=note, technique=technique, **k)
check('C01', records(['MCEntities'], 'text'), NOTE_REC)
check('C02', lambda t, s: records(['MCTables'], 'text')(t, s) + blocks(t, 'text'), NOTE_REC + ' Blocks and classes have a model of their own, with every field varied, neighbours, and files as other programs write them.')
check('C03', lambda t, s: records(['MCObjects'], 'text')(t, s) + containers(t, 'text'), NOTE_REC)
check('C04', records(['MCHeader'], 'text'), NOTE_REC)
check('C05', lambda t, s: records(REC, 'wire')(t, s) + containers(t, 'wire') + layout(t, 'wire') + blocks(t, 'wire'), NOTE_REC)
check('C24', lambda t, s: records(REC, 'fix')(t, s) + containers(t, 'fix') + layout(t, 'fix') + blocks(t, 'fix'), NOTE_REC)

NOTE_DRAW = 'TLC explores all histories of two edits from a new and from a cleared drawing, every edit of a drawing that holds several items of each kind, and long random histories; the library is driven through each and compared with the predicted drawing after every observed step.'
def drawing(aspects, extra=None):
    def f(tier, seed):
        sim = dict(num=60, depth=24) if tier == 'quick' else dict(num=4000, depth=40)
        return [dict(spec='Drawing', engine='drawing', modes=aspects, consts={}),
                dict(spec='Drawing', tag='Rich', engine='drawing', modes=aspects, consts=dict(Starts='{"rich"}', Depth=2)),
                dict(spec='Drawing', tag='RichSim', engine='drawing', modes=aspects, sim=dict(num=25 if tier == 'quick' else 1500, depth=12), consts=dict(Small='FALSE', Starts='{"rich"}', Depth=12)),
                dict(spec='Drawing', tag='Sim', engine='drawing', modes=aspects, sim=sim, consts=dict(Small='FALSE', Depth=sim['depth']))] + (extra(tier, seed) if extra else [])
    return f
check('C09', drawing('handles'), NOTE_DRAW)
check('C10', drawing('refs'), NOTE_DRAW)
check('C11', drawing('normal', lambda tier, seed: [dict(spec='Drawing', tag='Tables', engine='drawing', modes='normal', consts=dict(Focus='"tables"', Depth=6 if tier == 'quick' else 7))]), NOTE_DRAW)
check('C12', drawing('lookup', lambda tier, seed: [dict(spec='Pointers', engine='pointers', modes='-', consts=dict(Depth=3 if tier == 'quick' else 4))]), NOTE_DRAW)
check('C13', drawing('list'), NOTE_DRAW)

check('C07', lambda tier, seed: [dict(spec='Escape', engine='strings', modes='-', consts=dict(MaxLen=2 if tier == 'quick' else 3)),
                                 dict(spec='Escape', tag='Sweep', engine='strings', modes='-', consts=dict(MaxLen=1, Sweep='TRUE'))],
      'TLC checks that reading inverts writing for every character of the basic plane (and samples beyond) and for every string of up to two (thorough: three) pieces, every version and form; every string is stored in some thirty places of a drawing and taken through the real save and load.')
check('C08', lambda tier, seed: [dict(spec='Numbers', engine='numbers', modes='-', consts=dict(Deep='FALSE' if tier == 'quick' else 'TRUE'))],
      'TLC checks the digit-level model of writing and reading numbers, byte strings, handles and dates; every value is replayed under every group code of its kind and in typed fields, in both forms and eight versions.')
check('C17', lambda tier, seed: [dict(spec='Compound', engine='compound', modes='-', consts=dict(MaxRecs=4 if tier == 'quick' else 5))] +
      [dict(spec='Compound', tag='Sim', engine='compound', modes='-', consts=dict(MaxRecs=9), sim=dict(num=400 if tier == 'quick' else 20000, depth=11))],
      'TLC enumerates every sequence of up to four records (thorough: five) of eleven kinds and random longer ones; each is read by the library as entities section and as block, compared with the predicted grouping, saved in several versions and forms and read again, and built through the API.')
XL = '{"str", "brace", "layer", "bytes", "handle", "reals", "pos", "disp", "dir", "real", "dist", "scale", "int", "long"}'
EL = '{"str", "name", "own", "self", "layer", "mark", "real", "point", "short", "int", "long", "bool", "bytes", "xstr"}'
def trees(tier, seed):
    q = tier == 'quick'
    r = []
    for w, l in (('x', XL), ('ext', EL)):
        r += [dict(spec='Trees', tag=w + 'Shape', engine='trees', modes='2,deep' if w == 'x' else '2', consts=dict(What='"%s"' % w, Leaves='{"str", "int"}', MaxTok=6 if q else 8, MaxDepth=5 if q else 8)),
              dict(spec='Trees', tag=w + 'Kinds', engine='trees', modes='2', consts=dict(What='"%s"' % w, Leaves=l, MaxTok=4 if q else 5, MaxDepth=3)),
              dict(spec='Trees', tag=w + 'Sim', engine='trees', modes='3', consts=dict(What='"%s"' % w, Leaves=l, MaxTok=24, MaxDepth=10), sim=dict(num=300 if q else 10000, depth=60))]
    return r
check('C18', trees, 'TLC enumerates every data tree of up to six elements, all value kinds in shallow trees and random deep ones, and checks the flat form against a stack reader; each tree is attached to items of every kind (rotating), saved in a version and form, loaded and compared, with bare neighbours and own fields compared too.')

def dxbread(mode):
    return lambda tier, seed: [dict(spec='DxbRead', engine='dxb', modes=mode, consts=dict(MaxRecs=3 if tier == 'quick' else 4)),
                               dict(spec='DxbRead', tag='Sim', engine='dxb', modes=mode, consts=dict(MaxRecs=24), sim=dict(num=300 if tier == 'quick' else 20000, depth=26))]
def thumb(tier, seed):
    return [dict(spec='Thumb', engine='thumb', modes='-', consts=dict(Sizes='{1, 2, 3, 4, 5, 17, 50}' if tier == 'quick' else '{1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 64}'))]
check('C19', thumb, 'TLC works out the layout of previews of several sizes and pixel formats, in pieces, for eight versions and both forms, and of bitmaps as other programs write them (header lengths, bits per pixel, palettes with and without a stated size, piece sizes); it checks that the place of the pixels found from the header is the true one; each is replayed with pixels compared one by one.')
check('C20', dxbread('again'), 'TLC enumerates every sequence of up to three records (thorough: four) of 35 kinds, and random longer ones, and checks that each record gives one entity with what was in force; the library reads each, cut at every byte too, and what it read is saved as DXB and read again.')
check('C21', lambda tier, seed: [dict(spec='DxbWrite', engine='dxb', modes='-', consts=dict(MaxEnts=2 if tier == 'quick' else 3)),
                                 dict(spec='DxbWrite', tag='Sim', engine='dxb', modes='-', consts=dict(MaxEnts=12), sim=dict(num=300 if tier == 'quick' else 20000, depth=16))] + dxbread('again')(tier, seed),
      'TLC enumerates drawings of two entities (thorough: three) in the drawing and in a block, 14 kinds by nine styles, and random larger ones, and checks that the records written read back as the same; each is built through the API, saved as DXB and read back by the library.')
check('C25', lambda tier, seed: [dict(spec='Flags', engine='flags', modes='-', consts=dict(MaxOps=2 if tier == 'quick' else 3))],
      'TLC applies all pairs (thorough: triples) of accessor calls to seven words for each of 27 flag words (144 flags), all pairs of halves for packed versions, and colors and line weights at their limits; the library makes the same calls, and the word, every getter and all other fields are compared.')
check('C22', lambda tier, seed: [dict(spec='IoFaults', engine='faults', modes='-', consts=dict(N=5, MaxInt=2) if tier == 'quick' else dict(N=9, MaxInt=3, Chunks='{1, 2, 7, 64, 100000}', Kinds='{"Other", "UnexpectedEof", "WouldBlock", "BrokenPipe"}'))],
      'TLC explores every history of pieces, up to two interruptions (thorough: three) and a failure while a file of eight forms is read, written or saved to disk, and checks that success means completeness, that the failure is what is reported, and that pieces and interruptions make no difference (and, as a liveness property, that the transfer ends); each history is replayed with streams that behave so, a failure at every single byte is added, saving to disk runs against a file size limit at every point, and odd paths (missing, directory, full device, longer existing file) are tried.')
check('C23', lambda tier, seed: [dict(spec='Encoding', engine='encoding', modes='-', consts=dict(MaxStr=2 if tier == 'quick' else 3))],
      'TLC explores files of up to two strings (thorough: three) in eight kinds of places before and after the version, written in six ways, under four classes of encodings, and checks on the model that UTF-8 applies exactly from the statement of a version from 2007 on; each is read by the library with members of the class in turn (36 encodings), as text with and without a byte order mark and in both binary layouts; all single bytes and a grid of byte pairs are read in every encoding too. The oracle of what bytes mean in an encoding is the encoding_rs crate.')
SECS = ['{"ENTITIES"}', '{"BLOCKS"}', '{"TABLES"}', '{"HEADER", "CLASSES"}', '{"OBJECTS"}', '{"THUMBNAILIMAGE", "FOO"}']
def reader(mode, depth=None):
    def f(tier, seed):
        q = tier == 'quick'
        n = depth or (5 if q else 6)
        return [dict(spec='Reader', tag='S%d' % k, engine='reader', modes=mode, consts=dict(Focus=s, MaxTok=n, MaxOdd=2 if q else 3)) for k, s in enumerate(SECS)] + \
               [dict(spec='Reader', tag='Sim', engine='reader', modes=mode, consts=dict(Focus='{' + ', '.join(s[1:-1] for s in SECS) + '}', MaxTok=30, MaxOdd=3), sim=dict(num=300 if q else 10000, depth=32))]
    return f
NOTE_READ = 'TLC explores, section by section, every file of up to five tokens (thorough: six) with up to two odd ones (unknown, misplaced, repeated, wrong), and random longer files over all sections; it checks on the model that proper endings are accepted, errors stick and unknown content makes no difference; every file, as it stands and closed properly, is given to the library in several spellings (line ends, padding, comments, byte order mark, both binary layouts). '
def around(mode):
    def f(tier, seed):
        noise = mode == 'noise'
        return reader('content' if noise else 'errors')(tier, seed) + records(REC, mode)(tier, seed) + containers(tier, mode) + layout(tier, mode) + \
            (blocks(tier, 'given') + [dict(spec='Compound', engine='compound', modes='-', consts=dict(MaxRecs=4 if tier == 'quick' else 5))] if noise else [])
    return f
check('C14', around('noise'), NOTE_READ + 'Here: the files the model accepts, and the content they give. Every kind of record, in every version, with pairs of every value type that mean nothing to it put at every place (the models check that reading is not disturbed), whole drawings with comments after every pair, other line ends and other blanks, and blocks, classes and compound entities as other programs write them.')
check('C16', around('cut'), NOTE_READ + 'Here: the files the model rejects, the error and the line it names, and accepted files cut in the middle of a pair at every byte. Files with every kind of record in every version end after each pair of the record, or have a number in it that is none.')
check('C15', lambda tier, seed: [dict(spec='Hostile', engine='hostile', modes='quick' if tier == 'quick' else 'full', consts={})] + reader('panic', 4 if tier == 'quick' else 6)(tier, seed) + dxbread('panic')(tier, seed) + thumb(tier, seed) + [dict(spec='Bulk', engine='bulk', modes='text,binary', consts=dict(Big=200000 if tier == "quick" else 600000, Mid=30000))],
      'TLC enumerates every kind of record with every group code; values at and beyond the limits of the type of each code, alone, repeated and in pairs, are loaded, and what loads is saved and loaded again; the files of Reader.tla and DxbRead.tla, whole, cut short and with bytes changed at random, add structure, and Thumb.tla bitmaps whose headers lie; Bulk.tla repeats each kind of content 200,000 times (thorough: 600,000) and bounds the processor time. A panic, a request for memory out of all proportion to the input, a loading that does not end within 40 s, and a drawing that cannot be read back count.')

def values(tier, seed):
    return CHECKS['C07']['runs'](tier, seed) + CHECKS['C08']['runs'](tier, seed) + thumb(tier, seed) + CHECKS['C17']['runs'](tier, seed)[:1] + [r for r in trees(tier, seed) if 'Kinds' in r['tag']]
check('C06', lambda t, s: records(REC, 'binary')(t, s) + containers(t, 'binary') + layout(t, 'binary') + blocks(t, 'binary') + values(t, s), NOTE_REC + ' Strings, numbers, byte strings, previews, compound entities and application data are taken through both forms by their own models.')
