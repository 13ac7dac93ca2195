"""What each property's check runs: deductive harnesses (contracts/*.cpp) and the bounded native tier."""

# native binaries: source and flags
NATIVE = {
    'seq_f0': ('seq.cpp', ['-DNAT_POL=0', '-DNAT_BL=2']),
    'seq_f1': ('seq.cpp', ['-DNAT_POL=1', '-DNAT_BL=1']),
    'seq_f2': ('seq.cpp', ['-DNAT_POL=2', '-DNAT_BL=1']),
    'seq_f3': ('seq.cpp', ['-DNAT_POL=3', '-DNAT_B=3', '-DNAT_BL=3']),
    'seq_v0': ('seq.cpp', ['-DNAT_FLEX=0', '-DNAT_POL=0', '-DNAT_BL=2']),
    'seq_v1': ('seq.cpp', ['-DNAT_FLEX=0', '-DNAT_POL=1', '-DNAT_BL=1']),
    'seq_v2': ('seq.cpp', ['-DNAT_FLEX=0', '-DNAT_POL=2', '-DNAT_BL=2']),
    'boxes_t0': ('boxes.cpp', ['-DNAT_POL=0', '-DNAT_THREADS', '-pthread']),
    'boxes_t2': ('boxes.cpp', ['-DNAT_POL=2', '-DNAT_THREADS', '-pthread']),
    'heaps': ('heaps.cpp', ['-pthread']),
    'races': ('races.cpp', ['-fno-sanitize=address', '-fsanitize=thread', '-pthread', '-O1']),
}
for _k, _n in ((0, 'set'), (1, 'map'), (2, 'table')):
    for _p, _b in ((0, 2), (1, 5), (2, 2), (2, 5), (0, 6), (3, 3)):
        NATIVE['%s_%d%d' % (_n, _p, _b)] = ('assoc.cpp', ['-DNAT_KIND=%d' % _k, '-DNAT_POL=%d' % _p, '-DNAT_B=%d' % _b])
for _p in range(4):
    NATIVE['array_%d' % _p] = ('array.cpp', ['-DNAT_POL=%d' % _p])
    NATIVE['boxes_%d' % _p] = ('boxes.cpp', ['-DNAT_POL=%d' % _p])

SEQ = ['seq_f0', 'seq_f1', 'seq_f2', 'seq_v0']
ALLSEQ = SEQ + ['seq_f3', 'seq_v1', 'seq_v2']


def assoc(n, quick):
    return [n + x for x in (('_02', '_15', '_22') if quick else ('_02', '_15', '_22', '_25', '_06', '_33'))]


ALLASSOC = [x for n in ('set', 'map', 'table') for x in assoc(n, False)]
AR = ['array_0', 'array_1', 'array_2', 'array_3']
BX = ['boxes_0', 'boxes_1', 'boxes_2', 'boxes_3']

# property -> native binaries of the quick tier, of the thorough tier
PROPS = {
    'C01': (['seq_v0', 'seq_v2', 'seq_f0'], ALLSEQ),
    'C02': (['seq_f0', 'seq_f1', 'seq_f2'], ['seq_f0', 'seq_f1', 'seq_f2', 'seq_f3']),
    'C03': (SEQ + ['seq_v2'], ALLSEQ),
    'C04': (assoc('set', True), assoc('set', False)),
    'C05': (assoc('map', True), assoc('map', False)),
    'C06': (assoc('table', True), assoc('table', False)),
    'C07': (['set_02', 'set_22', 'map_02', 'map_22', 'map_15', 'table_02', 'table_22'], ALLASSOC),
    'C08': (['set_02', 'map_02', 'map_15', 'table_02'], ALLASSOC),
    'C09': (['seq_f0', 'seq_f1', 'seq_v0', 'set_02', 'map_02', 'table_02', 'array_0', 'boxes_0'], ALLSEQ + ALLASSOC + AR + BX),
    'C10': (['seq_f0', 'seq_f1', 'seq_f2', 'map_02', 'set_02', 'table_22', 'array_0', 'boxes_0'], ALLSEQ + ALLASSOC + AR + BX),
    'C11': (['seq_f0', 'seq_f1', 'seq_v0', 'set_02', 'map_15', 'table_02', 'array_0'], ALLSEQ + ALLASSOC + AR),
    'C12': (['seq_f0', 'seq_f1', 'seq_v0', 'set_02', 'map_02', 'table_02', 'array_0', 'boxes_0'], ALLSEQ + ALLASSOC + AR + BX),
    'C13': (['seq_f0', 'seq_f1', 'seq_v0', 'set_02', 'map_02', 'table_02', 'array_0', 'boxes_0'], ALLSEQ + ALLASSOC + AR + BX),
    'C14': (AR, AR),
    'C15': (BX, BX),
    'C16': (BX + ['boxes_t0', 'boxes_t2', 'races'], BX + ['boxes_t0', 'boxes_t2', 'races']),
    'C17': (['heaps', 'races'], ['heaps', 'races']),
    'C18': (['heaps'], ['heaps']),
    'C19': (['seq_f0', 'seq_v0', 'set_02', 'map_02', 'table_02', 'array_0'], ALLSEQ + ALLASSOC + AR),
    'C20': (['seq_f0', 'seq_f1', 'seq_f2', 'set_02', 'map_02', 'map_22', 'table_02'], ALLSEQ + ALLASSOC),
    'C21': (['seq_f0', 'seq_v0', 'set_02', 'map_02', 'map_15', 'table_02'], ALLSEQ + ALLASSOC),
}

# deductive harness files, and which of their harnesses matter to whom.  A property owns the obligations whose
# name starts with one of its categories.
CATS = {
    'C01': ('view', 'control', 'mem', 'contract'), 'C02': ('view', 'plan', 'merge', 'control', 'mem', 'contract'),
    'C03': ('view', 'control', 'mem', 'contract'), 'C04': ('view', 'control', 'mem', 'contract'),
    'C05': ('view', 'control', 'mem', 'contract'), 'C06': ('view', 'control', 'mem', 'contract'),
    'C07': ('view', 'frame', 'control', 'mem', 'contract'), 'C08': ('diff', 'control', 'mem', 'contract'),
    'C09': ('eq', 'control', 'mem', 'contract'), 'C10': ('frame', 'rc', 'contract'),
    'C11': ('iter', 'control', 'mem', 'contract'), 'C12': ('rc', 'life', 'mem', 'contract'),
    'C13': ('throw', 'frame', 'rc', 'life', 'mem', 'control', 'contract'), 'C14': ('view', 'iter', 'eq', 'frame', 'control', 'mem', 'contract'),
    'C15': ('view', 'eq', 'frame', 'share', 'rc', 'life', 'control', 'mem', 'contract'),
    'C16': ('atom', 'view', 'rc', 'control', 'mem', 'contract'),
    'C17': ('count', 'control', 'mem', 'contract'), 'C18': ('heap', 'control', 'mem', 'contract'),
    'C19': ('algo', 'iter', 'control', 'mem', 'contract'), 'C20': ('wf', 'plan', 'merge', 'contract'), 'C21': ('share', 'contract'),
}

# file -> {property: regex of the harnesses it uses}; flags: extra -D
# quick: the same for the quick tier where it is less
L = '_(root|inner|coll)$'
DEDUCTIVE = {
    'champ_persist': dict(src='champ_persist.cpp', flags=[], props={
        'C04': 'h_(add|erase)' + L, 'C05': 'h_(add|update|update_if_exists|erase)' + L,
        'C06': 'h_(add|update|update_if_exists|erase)' + L, 'C10': L, 'C12': L, 'C13': 'throw$', 'C20': L, 'C21': L},
        quick={'C05': 'h_(add|update|update_if_exists)' + L, 'C06': 'h_(add|update|erase)' + L, 'C12': '(inner|coll)$',
               'C13': '(inner|coll)_throw$', 'C20': 'h_(add|erase)' + L}),
    'champ_mut': dict(src='champ_mut.cpp', flags=[], props={'C07': L, 'C10': L, 'C12': L, 'C13': 'throw$', 'C20': L},
        quick={'C07': '_(inner|coll)$', 'C10': '_(root|coll)$', 'C12': '_(root|coll)$', 'C13': '_(root|coll)_throw$',
               'C20': 'h_(add|erase)_mut_(inner|coll)$'}),
    'champ_mut_gc': dict(src='champ_mut.cpp', flags=['-DVP_GC'], props={'C07': L, 'C10': L, 'C20': L},
        quick={'C07': '_coll$', 'C10': '_(root|coll)$', 'C20': '_coll$'}),
    'champ_whole': dict(src='champ_whole.cpp', flags=[], props={
        'C04': 'h_get_|whole_(add|erase)$', 'C05': 'h_get_|whole_(add|update|update_if_exists|erase)$',
        'C06': 'h_get_|whole_(add|update|update_if_exists|erase)$', 'C07': 'whole_.*mut$', 'C08': 'h_diff', 'C09': 'h_equals',
        'C10': 'whole', 'C11': 'traverse', 'C12': 'delete_deep|whole|make_merged', 'C13': 'whole.*throw$|make_merged.*throw$',
        'C19': 'traverse', 'C20': 'make_merged|whole', 'C21': 'make_merged|whole_[a-z_]*[^t]$'},
        quick={'C04': 'h_get_(depth|deep)|whole_(add|erase)$',
               'C05': 'h_get_(depth|deep)|whole_(add|update|update_if_exists|erase)$',
               'C06': 'h_get_(depth|deep)|whole_(add|update|update_if_exists|erase)$',
               'C08': 'h_diff_(root|inner|last|coll|same)$', 'C12': 'delete_deep_(root|coll|shift_coll)|whole|make_merged'}),
}

for _n, _f in (('box', []), ('box_unsafe', ['-DVP_UNSAFE']), ('box_gc', ['-DVP_GC'])):
    DEDUCTIVE[_n] = dict(src='box.cpp', flags=_f, props={
        'C15': '.', 'C09': 'compare', 'C10': 'copy|update|swap', 'C12': '.', 'C13': 'throw'})
for _n, _f in (('array', []), ('array_gc', ['-DVP_GC']), ('array_nt', ['-DVP_NO_TRANSIENT']), ('array_unsafe', ['-DVP_UNSAFE']),
               ('array_movethrow', ['-DVP_MOVE_THROWS'])):
    DEDUCTIVE[_n] = dict(src='array.cpp', flags=_f, props={
        'C14': '.', 'C09': 'equals', 'C10': '(?<!throw)$', 'C11': 'read|made', 'C12': '(?<!throw)$', 'C13': 'throw$',
        'C19': 'read|made'} if _n != 'array_movethrow' else {'C13': 'throw$', 'C14': 'throw$'})
DEDUCTIVE['atom'] = dict(src='atom.cpp', flags=[], props={'C16': '.'})
DEDUCTIVE['refcount'] = dict(src='refcount.cpp', flags=[], props={'C17': '.'})
DEDUCTIVE['heaps'] = dict(src='heaps.cpp', flags=[], props={'C18': '.'})

# radix balanced trees: persistent operations, operations in place (three memory policies), reading
R2 = ['-DVP_SHIFTS=2,4']
RW = ['-DVP_SHIFTS=2,34']     # positions beyond 32 bits
DEDUCTIVE['rbt_read'] = dict(src='rbt_read.cpp', flags=[], quick_flags=RW, props={
    'C01': 'rbt_(get|get_leaf|array_for)$', 'C02': 'rbt_(get|array_for)', 'C03': 'rbt_array_for$', 'C11': 'rbt_(region|array)',
    'C19': 'chunk'})
PERS = 'rbt_(update|update_leaf|make_path|push_tail|slice_[a-z_]*)'
DEDUCTIVE['rbt_persist'] = dict(src='rbt_persist.cpp', flags=[], quick_flags=RW, props={
    'C01': PERS + '(?<!throw)$', 'C02': PERS + '(?<!throw)$', 'C10': PERS + '(?<!throw)$', 'C12': PERS + '(?<!throw)$',
    'C13': 'throw$', 'C20': PERS + '(?<!throw)$', 'C21': PERS + '(?<!throw)$'},
    quick={'C01': 'rbt_(update|update_leaf|make_path|push_tail|slice_right|slice_right_leaf)$'})
MUT = 'rbt_(?!dec)[a-z_]*(mut|mut_leaf|nm|path_e)$'
DEDUCTIVE['rbt_mut'] = dict(src='rbt_mut.cpp', flags=[], quick_flags=R2, props={
    'C03': MUT, 'C10': MUT, 'C12': '(?<!throw)$', 'C13': 'throw$', 'C20': MUT},
    quick={'C10': 'rbt_(get_mut|get_mut_leaf|push_tail_mut|slice_(left|right)_(leaf_)?mut)$',
           'C12': 'rbt_(dec[a-z_]*|get_mut_meanwhile|push_tail_mut_meanwhile|slice_(left|right)_(leaf_)?mut)$',
           'C13': 'rbt_(get_mut|get_mut_leaf|push_tail_mut|slice_(left|right)_(leaf_)?(mut|nm))_throw$',
           'C20': 'rbt_(push_tail_mut|push_tail_nm|slice_(left|right)_(leaf_)?(mut|nm))$'})
for _n, _f in (('gc', '-DVP_GC'), ('sep', '-DVP_SEPARATE')):
    DEDUCTIVE['rbt_persist_' + _n] = dict(src='rbt_persist.cpp', flags=[_f], quick_flags=R2 + [_f], props={
        'C01': PERS + '(?<!throw)$', 'C02': PERS + '(?<!throw)$', 'C12': PERS + '(?<!throw)$', 'C13': 'throw$'},
        quick={'C01': '^$', 'C02': '^$', 'C12': '^$', 'C13': '^$'})
    DEDUCTIVE['rbt_mut_' + _n] = dict(src='rbt_mut.cpp', flags=[_f], quick_flags=R2 + [_f], props={
        'C03': MUT, 'C10': MUT, 'C12': '(?<!throw)$', 'C13': 'throw$'},
        quick={'C03': '^$', 'C10': '^$', 'C12': '^$', 'C13': '^$'})
DEDUCTIVE['rbt_mut_gc']['quick']['C10'] = 'rbt_(get_mut|get_mut_leaf|push_tail_mut|slice_(left|right)_leaf_mut)$'
DEDUCTIVE['rbt_mut_sep']['quick']['C13'] = 'rbt_push_tail_mut_throw$'
DEDUCTIVE['rbt_mut_sep']['quick']['C12'] = 'rbt_push_tail_mut_meanwhile$'

# whole trees: the operations of vector and flex_vector, what they do at the root by the contracts above
TREE = dict(C01='vec_(push_back|set|update|take|look_up|at)$', C02='flex_(push_back|set|update|take|drop|concat|look_up|at)$',
            C03='_mut(_l|_r|_lr_l|_lr_r)?$', C10='(?<!throw)$', C12='(?<!throw)$', C13='throw$', C11='region|look_up',
            C19='chunks', C20='(?<!throw)$', C21='flex_(push_back|set|update|take|drop)$|vec_(push_back|set|update|take)$')
DEDUCTIVE['rbt_tree'] = dict(src='rbt_tree.cpp', flags=[], quick_flags=R2, props=TREE, quick={
    'C03': 'vec_(push_back|set)_mut$|flex_(take|drop)_mut$', 'C10': 'vec_(copies|set_mut|take_mut)$',
    'C12': 'flex_(copies|drop_mut|concat)$', 'C13': 'flex_(push_back|take|drop)(_mut)?_throw$',
    'C20': 'flex_(push_back|take|drop)(_mut)?$', 'C21': 'flex_(push_back|set|take|drop)$|vec_(push_back|set|take)$'})
for _n, _f in (('gc', '-DVP_GC'), ('sep', '-DVP_SEPARATE')):
    DEDUCTIVE['rbt_tree_' + _n] = dict(src='rbt_tree.cpp', flags=[_f], quick_flags=R2 + [_f],
        props={k: TREE[k] for k in ('C01', 'C02', 'C03', 'C10', 'C12', 'C13')}, quick={k: '^$' for k in TREE})
DEDUCTIVE['rbt_tree_gc']['quick']['C10'] = 'vec_(push_back|set)_mut$'

# concatenation of two trees: the plan, the steps of the merge, one level of the descent, the entry points
CONCAT = 'concat_(?!.*throw)'
DEDUCTIVE['rbt_concat'] = dict(src='rbt_concat.cpp', flags=[], quick_flags=R2, props={
    'C02': CONCAT, 'C10': CONCAT + '(level|trees)', 'C12': CONCAT + '(merge|level|trees)', 'C13': 'concat_.*throw$',
    'C20': CONCAT + '(shuffle|merge|trees)'},
    quick={'C02': 'concat_(shuffle|level_leaf|level_one_leaf|trees_one)$', 'C10': '^$', 'C12': 'concat_level_(leaf|one_leaf)$',
           'C13': '^$', 'C20': 'concat_shuffle$'})

SECS = {}      # seconds of the bounded tier per process, quick tier (default 10)
LEVEL = {'C14': 'proof', 'C15': 'proof', 'C16': 'proof', 'C17': 'proof', 'C18': 'proof'}     # filled as the deductive part of a property becomes complete
EXPLAIN = {}
TRUSTED = ['clang 18 (C++ to LLVM IR) and opt -passes=sroa,early-cse,simplifycfg,globaldce', 'engine/*.py (VC generator)',
           'Z3', 'models of operator new/delete, memcpy/memmove/memset and the C++ exception runtime in engine/natives.py']
ASSUMPTIONS = [
    'the contracts are checked on instantiations of the templates (branching 2^B given in the contract file), not for every template argument',
    'hash and equality of the user are deterministic and agree with each other; element operations have no effect on containers',
    'sequential consistency of the atomic operations except where C16/C17 say otherwise']
TECHNIQUE = {'default': 'contract-based deductive verification of the LLVM IR of the real code (symbolic VCs, Z3), with a bounded native stand-in'}
NOTE = {'default': 'obligations discharged for all inputs on the functions under contract (evidence lists them); what is not under contract is '
                   'covered by the bounded native tier only',
        'C14': 'every function of array and array_transient, for every length and capacity; the loops over the elements of one buffer (util.hpp, std) '
               'are used by contract, their bodies run over at most four elements (bounded)',
        'C15': 'every function of box under three memory policies, for all values and counts',
        'C16': 'every function of atom; bounded: a spinlock acquired within 20 attempts, at most two spurious failures of a weak exchange',
        'C17': 'every operation of the reference counting policies under an environment that interferes between any two steps',
        'C18': 'every heap adaptor over an abstract parent; bounded: clear() of a list of at most four blocks'}
