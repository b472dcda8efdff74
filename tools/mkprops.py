#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long statements stay reviewable)."""
import json, os
H='code/xmem/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],state=[dict(name=a,meaning=b,where=H+c) for a,b,c in state],
      mechanism=[dict(name=a,where=H+b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
SP='basic_shared_ptr.hpp'; WP='basic_weak_ptr.hpp'; CC='common_control_block.hpp'; UP='unique_ptr.hpp'
ONLY='Only the two ref-counter unit tests build and run here; '
p('C01','The managed object is destroyed exactly once, when its last owner lets go',
 'For every sequence of constructions, copies, conversions, moves, assignments, swaps, resets and destructions of shared pointers (atomic and single-threaded flavours, objects created in place or adopted from a raw or unique pointer), the managed object is destroyed exactly once, at the moment the last shared pointer that owns it stops owning it. It is never destroyed while some shared pointer owns it, and never left undestroyed when none does.',
 ['histories','inputs'],'every shared-pointer operation, from every owner/alias configuration of the pointers involved and any number of further owners',
 ONLY+'and the upstream tests sample a few operation orders; destruction has to be right after every history and with any number of other owners.',
 [SP,WP,CC,'cb_ptr_pair.hpp'],[('strong count reaching zero destroys the resource',CC+':dec_strong_ref'),('copy/move/assign keep one strong ref per owning pointer',SP)],
 [('strong count','number of owning shared pointers',CC+':m_strong')],['payload destructor','use_count()'])
p('C02','use_count always equals the number of owning shared pointers',
 'At any point of any history, use_count() seen through any shared or weak pointer equals the number of shared pointers currently owning the object (0 when there is no owner), for any number of owners that memory can hold (up to 2^32-2). Operations on weak pointers never change it, and operations between pointers of one owner leave the counts of all other owners unchanged.',
 ['histories','inputs'],'every single operation from an arbitrary valid state in which the counters have symbolic values',
 ONLY+'counts above a handful are never exercised, so truncation, off-by-one on rare paths and drift go unseen.',
 [SP,WP,CC,'local_ref_count.hpp','atomic_ref_count.hpp'],[('one count per pointer',CC),('counter arithmetic','atomic_ref_count.hpp')],[],['use_count()'])
p('C03','A control block is released once, to its allocator, after its last reference',
 'The memory in which the library keeps the shared state (and, for in-place creation, the object) is released exactly once, when the last shared and the last weak pointer referring to it are gone, and not earlier. It is released through an allocator equal to the one it was obtained from, with the same element count, and every byte obtained is given back in every complete history.',
 ['histories','inputs'],'every history of shared and weak operations, stateless and stateful allocators, in-place and adopted objects',
 ONLY+'a leak or premature release shows only for particular orders of the last strong and last weak release.',
 [CC,'allocator.hpp','allocator_rebind.hpp',WP],[('strong group holds one weak reference',CC+':dec_strong_ref'),('self-destruction through a rebound copy of the allocator',CC+':destroy_self')],
 [('weak count','weak pointers, plus one while any owner exists',CC+':m_weak')],['allocator calls'])
p('C04','A weak pointer yields an owner exactly while the object is alive',
 'lock() returns a shared pointer with the same owner and the stored pointer (one more owner) exactly when at least one owner exists, and an empty pointer otherwise; once expired a weak pointer never becomes unexpired. Copying, moving, converting, assigning, swapping, aliasing and resetting weak pointers, including self-assignment and use after the object is gone, keeps owner and pointer right, never extends the object\'s lifetime and never reads the managed object of an expired pointer.',
 ['histories','inputs'],'every weak-pointer operation from every configuration of alive, expired and empty weak pointers',
 ONLY+'the interesting states (expired, aliased, same owner, self) form a product that examples sample thinly.',
 [WP,CC],[('conditional increment',CC+':inc_strong_ref_nz'),('lock',WP+':lock')],[],['lock()','expired()','owner()','operator bool'])
p('C05','Assignment and reset are safe whatever the source is or the destructor does',
 'Assigning or resetting a shared pointer is correct when the source is the pointer itself, has the same owner, or lives (directly or through further owners) inside the object that the assignment releases. The old object is let go only after the target holds its new value, so a destructor that runs as a consequence sees the target in its new state and may use it freely.',
 ['histories','inputs'],'every assignment and reset form of shared pointers, with every aliasing relation of source and target and re-entrant destructors',
 ONLY+'upstream tests cover self-assignment of a live pointer but no source inside the released object and no re-entrant destructor.',
 [SP],[('copy/move and swap',SP+':operator='),('reset by swap',SP+':reset')],[],['payload destructor','operator='])
p('C06','A failure while creating an owner leaks nothing and damages no pointer',
 'When an allocation fails or the constructor of the managed object throws during any creation, adoption, assignment or reset of a shared pointer, the exception reaches the caller, every pointer that existed before keeps its object, owner and counts, an adopted unique pointer keeps its object, and a raw pointer handed over is disposed of by its deleter. No memory is leaked and nothing is released twice.',
 ['fault_sequences','inputs'],'every allocation and every constructor call of every creating operation failing or not',
 'No test injects an allocation failure or a throwing constructor.',
 [SP,CC,UP,'shared_ptr.hpp','local_shared_ptr.hpp'],[('control block guarded by a unique pointer until complete',CC+':make_resource_cb'),('temporary unique_ptr owns the raw pointer',SP)],[],['caught exception','allocator calls'])
p('C07','The control block is told about every reference, with the right addresses',
 'A user-supplied control block that records its notifications always knows exactly which shared pointers (and which weak pointers) currently refer to it: after every public operation the recorded sets of addresses equal the sets of live strong and weak pointers with that owner. No address is registered twice or removed without being registered, and the notification for an address is never missed on moves, swaps, conversions, locking or creation.',
 ['histories','inputs'],'every shared, weak and shared-from operation on a tracking control block, every aliasing relation',
 ONLY+'the upstream bookkeeping tests are not built here and sample few aliasing relations.',
 [SP,WP,'basic_shared_from.hpp',CC],[('transfer notifications',SP+':swap'),('init/inc/dec notifications',SP+':init_from_copy')],[],['control block notifications'])
p('C08','unique_ptr disposes of each object exactly once and owns exclusively',
 'For every sequence of unique_ptr operations (construction, move, converting move, assignment including self-move and from null, reset, release, swap, destruction; single objects and arrays; value, reference and function-pointer deleters) every object handed in is disposed of exactly once, or not at all if released. After each operation every pointer reports exactly the object it owns, moved-from and released pointers are null, and a null pointer never reaches a deleter.',
 ['histories','inputs'],'every operation sequence up to the bound on two pointers of each specialisation',
 'No unique_ptr test runs here; there are four hand-written specialisations whose copies of each operation can diverge.',
 [UP,'default_delete.hpp'],[('release before reset in moves',UP+':operator='),('reset stores first, then disposes',UP+':reset')],[],['deleter calls','get()'])
p('C09','An object is always disposed of by the deleter it was paired with',
 'Whenever a unique_ptr or an adopting shared pointer disposes of an object, it calls the deleter (the same state, referenced deleter or function) which that object was last paired with, after any sequence of moves, converting moves, assignments, swaps and adoption into a shared pointer. Deleters travel with their object, and the object replaced by an assignment goes to its own old deleter; after a move or swap get_deleter() reports the deleter paired with the current object.',
 ['histories','inputs'],'every operation sequence up to the bound with symbolic deleter states',
 'No test of a stateful deleter runs here; upstream tests never swap pointers with stateful deleters.',
 [UP,SP,CC],[('deleter moved along with the pointer',UP),('unique_ptr stored in the control block',CC+':make_uptr_cb')],[],['deleter calls','get_deleter()'])
p('C10','A unique_ptr stays usable while its object is being destroyed',
 'While a unique_ptr\'s own destructor disposes of the object, the unique_ptr still points to that object, so the object may reach itself through it. When reset or assignment disposes of the old object, the unique_ptr already holds its new value, so a destructor that inspects it or resets it again causes neither a double disposal nor a lost object.',
 ['inputs','histories'],'destruction, reset, null assignment and move assignment of every specialisation with destructors that read the pointer or (on reset and assignment) reset it again',
 'The guarantee is documented in the source, but no test observes the pointer from inside a destructor.',
 [UP],[('destructor does not null first',UP+':~unique_ptr'),('reset order',UP+':reset')],[],['get() from inside the deleter'])
p('C11','Aliasing pointers and casts share the owner and keep the right address',
 'An aliasing shared or weak pointer shares ownership with its source and stores exactly the given address; make_aliased and the pointer casts give an empty pointer when the source is null and has no owner, a failed dynamic cast gives an empty pointer and takes no ownership, and an aliasing weak pointer of an ownerless source is empty. Conversions and casts between class types (including multiple and virtual inheritance) yield the address the language prescribes and keep the object alive like any other owner.',
 ['inputs','histories'],'all source states (empty, owning, ownerless alias, expired), symbolic alias addresses and every cast over a diamond-free and a virtual hierarchy',
 ONLY+'casts and aliasing are sampled by upstream tests for single-owner sources only.',
 [SP,WP,'cb_ptr_pair.hpp'],[('make_aliased',SP+':make_aliased'),('casts',SP+':dynamic_pointer_cast'),('aliasing weak_ptr',WP)],[],['get()','owner()','use_count()'])
p('C12','An object can obtain shared and weak pointers to itself exactly while owned',
 'For an object that enables it, shared_from_this/shared_from give a new owner with the requested address exactly while the object is owned, and an empty pointer, without touching any count, when it is not owned yet, was never owned, or is being destroyed; weak_from_this/weak_from give a weak pointer of the same owner. Copying, moving or assigning such an object never transfers or disturbs the association of either object.',
 ['histories','inputs'],'every lifecycle stage (in constructor, owned with any count, in destructor, on the stack) times every from-operation, const and non-const',
 ONLY+'no test calls these functions from a constructor or destructor.',
 ['basic_shared_from.hpp',CC],[('association set on creation',CC+':prepare_pair'),('conditional increment','basic_shared_from.hpp:shared_from')],[],['shared_from*()','weak_from*()'])
p('C13','Concurrent owners: one destruction, after every use, without data races',
 'When several threads copy, use and drop their own atomic shared pointers to one object in any interleaving, the object is destroyed exactly once, its memory is released exactly once, and every access any thread made through its pointers happens before the destruction and the release under the C++ memory model. No interleaving or permitted reordering produces a data race, a use after release, a lost or an early destruction.',
 ['schedules','histories'],'all interleavings and weak-memory executions of two and three threads performing symbolic operations on their own pointers',
 'Sanitised stress tests sample schedules on strongly ordered hardware, where missing orderings do not show.',
 ['atomic_ref_count.hpp',CC,SP],[('acquire-release decrement','atomic_ref_count.hpp:dec'),('destroy only by the thread that reaches zero',CC+':dec_strong_ref')],[],['payload accesses','release of memory'])
p('C14','Locking a weak pointer concurrently with the last release is atomic',
 'When threads lock, copy, move and drop weak pointers while others drop the last owners, each lock either yields a pointer to a fully alive object that stays alive for as long as the result is held, or yields empty; an object is never revived after its destruction began. The shared state is released exactly once, after the last access by any thread, free of data races under the C++ memory model.',
 ['schedules','histories'],'all interleavings and weak-memory executions of two and three threads performing symbolic weak and strong operations',
 'The window between reading and incrementing the count is a few instructions wide; stress tests hit it by luck only.',
 ['atomic_ref_count.hpp',CC,WP],[('compare-exchange increment from non-zero','atomic_ref_count.hpp:inc_nz')],[],['lock()','payload accesses'])
p('C15','Atomic pointer storage is linearizable and free of races',
 'Concurrent load, store, exchange and compare_exchange on one atomic storage behave as if executed one at a time in some order consistent with each thread\'s order: values are never torn, lost or handed out twice, a compare_exchange stores exactly when the held pointer equals the expected one and otherwise reports the held pointer, and what was written before publishing a pointer is visible to whoever obtains it. Every owner is accounted for and every replaced object is released exactly once.',
 ['schedules','histories'],'all interleavings and weak-memory executions of two threads with up to two symbolic operations each; sequentially every operation from every configuration',
 'Upstream stress tests state themselves that they have no sensible checks.',
 ['basic_atomic_shared_ptr_storage.hpp','bits/spinlock.hpp',SP],[('spin lock around the held pointer','basic_atomic_shared_ptr_storage.hpp')],[],['load()','exchange()','compare_exchange()'])
p('C16','Atomic storage operations run no user code under their lock and always return',
 'No operation of an atomic pointer storage destroys a managed object while the storage is internally locked, so a destructor triggered by store, exchange or either outcome of compare_exchange may use the same storage. Every operation leaves the storage unlocked, so each operation, started in any state of a quiescent storage, terminates.',
 ['histories','inputs'],'every operation from every configuration, with object destructors that themselves use the storage',
 'No test uses the storage from a destructor; the failure is a hang.',
 ['basic_atomic_shared_ptr_storage.hpp','std_helpers.hpp','bits/spinlock.hpp'],[('released pointers leave the critical section first','basic_atomic_shared_ptr_storage.hpp:compare_exchange')],[],['termination'])
p('C17','The spin lock gives mutual exclusion and publishes what it protects',
 'At most one thread is between acquiring and releasing the lock at any time, and everything a thread wrote before releasing it is visible to, and ordered before, every later holder under the C++ memory model. A released lock can be acquired again.',
 ['schedules'],'all interleavings and weak-memory executions of two and three threads with two critical sections each',
 'Memory-order mistakes are invisible on the x86 machines that run the tests.',
 ['bits/spinlock.hpp'],[('test-and-set with acquire, clear with release','bits/spinlock.hpp')],[],['protected data'])
p('C18','Comparisons, ownership order and streaming reflect the stored pointers',
 'For all pointer values, ==, !=, <, <=, >, >= on shared and unique pointers agree with the comparison of get(); owner_before is a strict weak order on owners, whose equivalence is exactly same_owner, across shared and weak pointers and independent of the stored pointers. no_owner, operator bool and streaming report exactly the absence of an owner and the stored pointer.',
 ['inputs'],'all pairs and triples of 64-bit pointer and owner values',
 'Upstream tests compare two array elements; a relation must hold for all pairs and triples.',
 [SP,WP,UP,'ostream.hpp'],[('operators on get()',SP+':operator=='),('owner_before',SP+':owner_before')],[],['operators'])
p('C19','The allocator provides correctly sized and aligned memory or reports failure',
 'For every element type and every count, allocate obtains a block of at least count times the element size, aligned for the type, or throws; it never returns a smaller block, and deallocate returns the block with the matching alignment. Objects created in place by shared pointers, over-aligned ones included, are placed at addresses satisfying their alignment inside their block.',
 ['inputs'],'all 64-bit element counts, element types of several sizes and alignments up to 128',
 ONLY+'overflow needs counts near 2^64 divided by the element size.',
 ['allocator.hpp','allocator_rebind.hpp',CC],[('aligned operator new','allocator.hpp:allocate'),('rebinding',"allocator_rebind.hpp")],[],['operator new arguments'])
p('C20','Creation helpers build exactly the requested object from exactly the arguments',
 'make_shared, make_unique, make_shared_ptr, make_unique_ptr and the local and for_overwrite forms create exactly one object whose value is that of direct construction from the forwarded arguments: lvalues are copied, rvalues moved, references passed through, array forms create the requested number of value-initialised elements, for_overwrite forms default-initialise. The result is the only owner, and accessors (get, *, ->, []) all designate that object.',
 ['inputs'],'symbolic argument values and array lengths up to the bound; counted copies and moves',
 'The make tests are not built here; forwarding mistakes compile silently.',
 ['shared_ptr.hpp','local_shared_ptr.hpp',UP,CC],[('perfect forwarding',CC+':make_resource_cb'),('value initialisation of arrays',UP+':make_unique')],[],['object value','copy/move counts'])
p('C21','Reference counters count exactly and never leave zero by conditional increment',
 'For every counter value, inc and dec return the new value and change it by exactly one, count reports the current value, and the conditional increment returns zero and changes nothing at zero and otherwise acts like inc. For the atomic counter each of these is one indivisible step under any concurrent use: no update is lost, and all returned values are consistent with a single order.',
 ['inputs','schedules'],'all 2^32 counter values; all interleavings and weak-memory executions of two and three threads with symbolic operations',
 'The existing tests walk 1 -> 2 -> 1 -> 0 in a single thread.',
 ['atomic_ref_count.hpp','local_ref_count.hpp'],[('fetch_add/fetch_sub/compare-exchange loop','atomic_ref_count.hpp')],[('counter value','number of references','atomic_ref_count.hpp:m_refs')],['return values'])
p('C22','The helpers for std pointers behave like their xmem counterparts',
 'For std pointers, make_aliased gives an empty pointer for a source without owner and an owning alias otherwise, same_owner and no_owner tell exactly whether ownership is shared or absent, make_shared_ptr and make_unique_ptr copy lvalues and move rvalues, and the shared-from helpers return pointers sharing ownership with the requested address. The std atomic storage returns, swaps and compares exactly the held pointers, keeps every count right and never destroys an object under its lock.',
 ['histories','inputs','schedules'],'every helper from every configuration of empty, owning, aliasing and expired std pointers; two threads on the storage',
 'The sanity tests that cover these helpers are not built here.',
 ['std_helpers.hpp','bits/spinlock.hpp'],[('aliasing with a check','std_helpers.hpp:make_aliased'),('spin lock storage','std_helpers.hpp:asps_holder')],[],['use_count()','load()'])
p('C23','Moving and swapping transfer ownership and touch nothing else',
 'Move construction, move assignment and swap of shared and weak pointers (same type or converting) hand over owner and stored pointer exactly: the source of a move becomes empty (except a self-move, which keeps its value), swap exchanges both values also when owners are equal or absent, and the count of a transferred owner is unchanged. No managed object is created, copied, destroyed or accessed by them except one whose last owner was the overwritten target.',
 ['histories','inputs'],'every move and swap form from every owner/alias configuration with symbolic counts',
 ONLY+'swap has separate paths for equal and different owners, and moves a converting and a plain form, for shared and weak pointers each.',
 [SP,WP,'cb_ptr_pair.hpp'],[('move resets the source','cb_ptr_pair.hpp'),('swap',SP+':swap')],[],['get()','owner()','use_count()'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
