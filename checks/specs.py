"""What each check runs: harness units, bounds, what lies outside them, and assumptions."""

FA, FL = '-DFLAV=FA', '-DFLAV=FL'


def both(src, **kw):
    return [dict(src=src, defs=[d], **kw) for d in (FA, FL)]


SEQ = ['allocation is modelled as never returning a live or released address again, with the base address aligned exactly as requested',
       'LLVM -O1 IR of clang 18 (mem2reg only) for x86-64 stands for the source; stubs: operator new/delete, C++ exception '
       'runtime, memcpy family, typeinfo-based dynamic_cast (each is the documented contract)',
       'sequential execution: atomic operations act as plain ones in these harnesses']
STEP_B = ('one operation from every configuration of two pointers, two owners and their counters, the counters 32-bit symbolic '
          '(any number of further owners up to 2^32-2-8); stored pointers symbolic where the operation allows any address')

SPECS = {}

SPECS['C01'] = dict(
    units=both('hist.cpp', thorough=['-DK=3']) + both('step.cpp', only=r'h_(strong|strongc|strongk|sself)_\d+') +
    both('adopt.cpp'),
    bounds='histories of K=2 operations (thorough: 3) over 27 operation forms from every start configuration of 3 shared and 2 weak '
           'pointers on 2 objects; and inductively ' + STEP_B + '; creation forms: in place, raw, raw+deleter, unique_ptr with value, '
           'reference and function deleters, arrays excluded',
    outside='histories longer than the bound are covered by the inductive step only as far as its state description goes; class '
            'hierarchies other than the harness ones',
    assumptions=SEQ)
SPECS['C02'] = dict(
    units=both('step.cpp'),
    bounds=STEP_B + '; all 10 shared and 10 weak operation groups, same-type and converting, and the self forms',
    outside='counters beyond 2^32-2 owners', assumptions=SEQ)
SPECS['C03'] = dict(
    units=both('cballoc.cpp', quick=['-DK=2'], thorough=['-DK=3']) +
    both('hist.cpp', thorough=['-DK=3']) + both('step.cpp', only=r'h_weak_[0-9]|h_strong_[0-9]') + both('weakx.cpp', only='h_(dtor|inside)') + both('esf.cpp', only='h_kept|h_life'),
    bounds='histories of K=2 operations (thorough: 3) over shared and weak pointers for in-place (small and over-aligned), adopted '
           'and adopted-with-deleter objects, with a stateful allocator (symbolic state) and the default one; every byte of every '
           'path accounted for; plus one operation from any symbolic weak count',
    outside='allocators whose rebind is not the standard template form', assumptions=SEQ)
SPECS['C04'] = dict(
    units=both('weakx.cpp', thorough=['-DK=3']) + both('step.cpp', only=r'h_(weak|weakc|wself)_\d+') +
    both('alias.cpp', only=r'h_w.*'),
    bounds=STEP_B + ' (weak operations incl. lock, use after the object is gone); conversions over a hierarchy with multiple and '
           'virtual bases from alive, expired and empty weak pointers; weak pointers used inside the destructor (11 uses), held '
           'inside objects (self, mutual, parent/child), and K=2 (thorough: 3) operations on expired pointers',
    assumptions=SEQ)
SPECS['C05'] = dict(
    units=both('reent.cpp', thorough=['-DDEEP']) + both('step.cpp', only=r'h_(strong|strongc|sself)_\d+'),
    bounds='assignment and reset: ' + STEP_B + '; all 8 assignment/reset forms times source = self, same owner, alias, inside the released object directly or through a '
           'chain of up to 3 (thorough: 5) owners; destructors that read, reset, assign, copy or swap the target',
    outside='longer ownership chains', assumptions=SEQ)
SPECS['C06'] = dict(
    units=both('fault.cpp'),
    bounds='every creating operation form with the k-th allocation failing (k symbolic 32-bit) and every constructor throwing or '
           'not, from owning, aliasing and empty target states',
    outside='exceptions from moving deleters or allocators (must not throw by contract)', assumptions=SEQ)
SPECS['C07'] = dict(
    units=[dict(src='track.cpp', thorough=['-DK=3'])],
    bounds='histories of K=2 operations (thorough: 3) on 3 shared and 2 weak pointers and an atomic storage with a recording control block over 2 owners, '
           'after every operation the recorded address sets are compared with the live pointers',
    assumptions=SEQ)
U_B = ('histories of K=2 operations (thorough: 3) on two unique_ptrs of each specialisation (default, value, reference, function '
       'deleter), start configurations free, deleter states symbolic 32-bit values')
SPECS['C08'] = dict(
    units=[dict(src='uptr.cpp', thorough=['-DK=3'])],
    bounds=U_B + '; arrays with default and stateful deleters', outside='deleters with fancy pointer types (not supported)', assumptions=SEQ)
SPECS['C09'] = dict(
    units=[dict(src='uptr.cpp', thorough=['-DK=3']), dict(src='uchain.cpp')] + both('adopt.cpp'),
    bounds=U_B + '; adoption into shared pointers of both flavours by every constructor, assignment and reset form; '
           'move assignment from a source inside the object disposed of, and destructors that reassign the pointer being assigned (5 follow-ups)',
    assumptions=SEQ)
SPECS['C10'] = dict(
    units=[dict(src='uself.cpp'), dict(src='uchain.cpp')],
    bounds='destruction, reset(p), reset(), = nullptr and move assignment for every specialisation and array form, with destructors '
           'and deleters that read the pointer, or reset, assign, release, swap it again; sources inside the object disposed of', assumptions=SEQ)
SPECS['C11'] = dict(
    units=both('alias.cpp') + both('step.cpp', only=r'h_(strong|strongc|weak|weakc)_[01]|h_weak_[5-8]'),
    bounds='conversions and assignments: ' + STEP_B + '; source owning / ownerless alias / empty / expired; alias addresses symbolic 64-bit; every cast form over single, '
           'multiple and virtual inheritance, cv-qualification and void', assumptions=SEQ)
SPECS['C12'] = dict(
    units=both('esf.cpp'),
    bounds='objects in constructor, owned by 1-3 owners, in destructor, on the stack, failed construction; copies, moves and '
           'assignments between owned and unowned objects; template and non-template form', assumptions=SEQ)
SPECS['C16'] = dict(
    units=[dict(src='stor.cpp', defs=['-DXS=0'], thorough=['-DK=3'])],
    bounds='every storage operation from every configuration of held, expected and new pointers (2 objects, aliases, null), with '
           'destructors that use the storage (load, store, exchange, compare_exchange); K=2 (thorough: 3) operation histories; a '
           'spin on a lock nobody else holds is reported as a hang', assumptions=SEQ)
SPECS['C18'] = dict(
    units=[dict(src='cmp.cpp')],
    bounds='all pairs (and triples) of symbolic 64-bit stored and control block addresses, every pointer kind and mixed flavours',
    outside='streaming of pointers to character types: get() streams as text there, as with std pointers', assumptions=SEQ)
SPECS['C19'] = dict(
    units=[dict(src='sizes.cpp')],
    bounds='symbolic 64-bit element count for 15 element types (sizes 1 to 8192, alignments 1 to 4096); placement of 12 object '
           'types created in place by both flavours; failing allocations', outside='other element types', assumptions=SEQ)
SPECS['C20'] = dict(
    units=[dict(src='make.cpp', thorough=['-DN=9'])],
    bounds='symbolic argument values; 0 to 4 arguments of every value category; arrays of 0 to 4 elements (thorough: 9) plus '
           'oversized symbolic lengths', outside='more than 4 arguments, longer arrays', assumptions=SEQ)
SPECS['C21'] = dict(
    units=[dict(src='rc.cpp', thorough=['-DK=6', '-DSPUR=300'], spur=True)],
    bounds='all 2^32 counter values, every operation, up to 40 (thorough: 300) spurious compare-exchange failures; histories of 4 (thorough: 6) '
           'operations from any value', assumptions=SEQ[1:])
SPECS['C22'] = dict(
    units=[dict(src='stor.cpp', defs=['-DXS=1'], thorough=['-DK=3']), dict(src='xstd.cpp')],
    bounds='helpers from every configuration of empty, ownerless alias, owning, aliasing (symbolic address) and expired std '
           'pointers; storage as in C16; K=2 (thorough: 3) operation histories on the storage',
    outside='the C++20 std::atomic<shared_ptr> holder (standard library code)', assumptions=SEQ)
SPECS['C23'] = dict(
    units=both('step.cpp', only=r'h_(strong|strongc|strongk|weak|weakc)_[0-9]|h_[sw]self_\d') +
    [dict(src='track.cpp', only='h_track_[01]')],
    bounds=STEP_B + '; every move and swap form, same-type, converting and self; the recording control block sees exactly the '
           'transfers (2-operation histories)', assumptions=SEQ)

CONC = ['C++20/RC11 memory model: coherence, modification order, atomic read-modify-write, release/acquire synchronisation with release '
        'sequences and fences, seq_cst order, acyclic program order and reads-from (no out-of-thin-air values)',
        'allocation and release of memory are not synchronisation; a released address is not handed out again',
        'waiting loops are cut after an iteration that changed nothing (sound: dropping it leaves the other events possible); other retry '
        'loops after the bound',
        'LLVM -O1 IR of clang 18 (mem2reg only) for x86-64 stands for the source; weak compare-exchange may fail spuriously any time']
CONCT = ('symbolic execution of every thread of the real code (LLVM IR) into events; all executions of the C++ memory model (reads-from, '
         'modification order, happens-before) as one SMT problem per program, decided by Z3')
RETRY = {'quick': 1, 'thorough': 2}
SPECS['C13'] = dict(
    units=[dict(src='conc.cpp', conc=True, quick=['-DQUICK'], retries=RETRY)],
    technique=CONCT,
    bounds='2 threads with one owner each, 16 operation sequences each (copy, move, swap, alias, weak, lock, casts, shared_from, reset, '
           'assignment), every pair (quick: 40 of 136 pairs); 3 threads with one of 4 sequences; two readers of one shared pointer; hand-over '
           'through a flag; objects made in place, raw, raw+deleter, from unique_ptr; at most 1 (thorough: 2) retries of a compare-exchange loop',
    outside='more threads and longer sequences per thread', assumptions=CONC)
SPECS['C14'] = dict(
    units=[dict(src='concw.cpp', conc=True, quick=['-DQUICK'], retries=RETRY)],
    technique=CONCT,
    bounds='one owner (5 ways to let go) against one weak pointer (12 operation sequences: lock, copy, move, convert, expired, '
           'shared_from_this, assignment); one owner against two weak pointers; two owners against one weak pointer; two weak pointers of a '
           'dead object; six conversions to a virtual base whose destructor uses the pointers involved; at most 1 (thorough: 2) retries of the lock loop',
    outside='more threads and longer sequences per thread', assumptions=CONC)
SPECS['C15'] = dict(
    units=[dict(src='storc.cpp', conc=True, defs=['-DXS=0'], quick=['-DQUICK'], retries=RETRY), dict(src='stor.cpp', defs=['-DXS=0'], thorough=['-DK=3'])],
    technique=CONCT + '; sequential histories by symbolic execution',
    bounds='2 threads with one operation each (quick: 7, thorough: 10 forms, every pair, storage full or empty), 2+1 operations (thorough: 36 '
           'combinations and 2+2 selected); 3 threads with one operation each (quick: 4 combinations with two readers or two writers, thorough: '
           'also every choice of load, store, exchange and compare_exchange); results, final content and releases compared with every '
           'interleaving of the operations; sequential histories of K=2 (thorough: 3) operations',
    outside='more threads and longer histories', assumptions=CONC)
SPECS['C17'] = dict(
    units=[dict(src='lock.cpp', conc=True, retries={'quick': 2, 'thorough': 3}), dict(src='lock.cpp', only='h_.*')],
    technique=CONCT,
    bounds='2 threads with 4 forms of critical section each (nested locks, re-acquisition), 2+1 (thorough: 2+2) sections, 3 threads with one '
           'section each, hand-over of a held lock; sequential re-acquisition in 6-step histories; acquiring a held lock does not return within 1.5 million instructions',
    outside='more threads and sections', assumptions=CONC)
SPECS['C21']['units'].append(dict(src='rcc.cpp', conc=True, quick=['-DQUICK'], retries=RETRY))
# one operation each, with a conditional increment that is kept from succeeding for longer
SPECS['C21']['units'].append(dict(src='rcc.cpp', conc=True, defs=['-DPAIR'], retries={'quick': 5, 'thorough': 8}))
SPECS['C21']['technique'] = 'symbolic execution of the real code, Z3 deciding; concurrent part: ' + CONCT
SPECS['C21']['bounds'] += ('; concurrently: 2 threads with 1+1 and 2+1 operations and 3 threads with one each, from any 32-bit value, all results '
                           'compared with every order of the operations; 1+1 also with 5 (thorough: 8) failed attempts of the conditional '
                           'increment; thorough also 2+2 and 2+1+1 from values near 0 and 2^32')
SPECS['C21']['assumptions'] = SEQ[1:2] + CONC
SPECS['C22']['units'].append(dict(src='storc.cpp', conc=True, defs=['-DXS=1', '-D_GLIBCXX_TSAN=1'], quick=['-DQUICK'], retries=RETRY))
SPECS['C22']['technique'] = SPECS['C21']['technique']
SPECS['C22']['bounds'] += '; the std storage concurrently as in C15'
SPECS['C22']['assumptions'] = SEQ[:2] + CONC
SPECS['C16']['units'].append(dict(src='storr.cpp', conc=True, defs=['-DXS=0'], quick=['-DQUICK'], retries=RETRY))
SPECS['C16']['technique'] = 'symbolic execution of the real code, Z3 deciding; concurrent part: ' + CONCT
SPECS['C16']['bounds'] += '; 2 threads with one operation each whose destructors load from the storage'
SPECS['C16']['assumptions'] = SEQ[:2] + CONC
