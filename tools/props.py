ASSUMED = [
    'memory allocation succeeds; executions that panic on purpose (assert!, todo!) are obligations, not assumptions',
    'BlobStore implementations meet the trait contract (read returns what was written under the id; checked for the shipped stores by C13)',
    'std (Vec, slice, Arc, ManuallyDrop, Option, Result) behaves as specified by vstd or by the assumed contracts listed in trusted_base',
]
REPR = r'TreeNode<S> :: (set_|take_|prefix_ref|value_ref|get_children|has_value|value_opt|is_leaf|is_empty|child_count|clone|single|leaf|empty_with|EMPTY|first_prefix)'
def API(*names): return [r'RadixTree(<S>)? :: (try_)?(%s)$' % '|'.join(names)]
BASE = ['empty', 'new', 'leaf', 'single', 'is_empty', 'is_leaf', 'value', 'prefix', 'store', 'clone']
ITER = [r'TreeNodeIter']
B = 'bounded: random trees and operations against an oracle on the real crate'
MERGE = ' The merge function is any FnMut/Fn that meets its own precondition; its results are fixed by its own contract.'
PROPS = {
    'C01': dict(level='proof', note='Proved for all inputs, histories and stores: every function from get, contains_key, insert, remove down to the representation, against the tree read as a finite map from keys to values.', suites=['map'],
                roots=API(*BASE, 'get', 'contains_key', 'insert', 'remove')),
    'C02': dict(level='proof', note='Proved: first/last entry and value, KeyValueIter and ValueIter (next), iter, try_iter, values and try_values, with the adapters of the detached ones.', suites=['ordered'],
                roots=API(*BASE, 'iter', 'values', 'first_value', 'last_value', 'first_entry', 'last_entry') + [r'KeyValueIter', r'ValueIter', r'IterKey']),
    'C03': dict(level='proof', note='Proved: has_prefix, scan_prefix, filter_prefix, remove_prefix.', suites=['prefix'],
                roots=API(*BASE, 'has_prefix', 'scan_prefix', 'filter_prefix', 'remove_prefix')),
    'C04': dict(level='proof', note='Proved: both variants, keywise, for all trees and stores.' + MERGE, suites=['outer'], roots=API('outer_combine', 'outer_combine_with')),
    'C05': dict(level='proof', note='Proved: all three variants, keywise, for all trees and stores.' + MERGE, suites=['inner'], roots=API('inner_combine', 'inner_combine_with', 'inner_combine_pred')),
    'C06': dict(level='proof', note='Proved: all three variants, keywise, for all trees and stores.' + MERGE, suites=['left'], roots=API('left_combine', 'left_combine_with', 'left_combine_pred')),
    'C07': dict(level='proof', note='Proved: both walks, keywise, for all trees and stores.' + MERGE, suites=['bulk'], roots=API('retain_prefix_with', 'remove_prefix_with')),
    'C08': dict(level='proof', note='Proved: GroupBy (new, next), try_group_by and group_by of the detached API split the content of the tree into exactly the maximal subtrees the predicate leaves alone, in key order (group_by: for predicates that are Copy; its .map(unwrap_safe) is dropped by the extraction).', suites=['group'],
                roots=[r'GroupBy'] + API('group_by', 'first_entry', 'is_empty')),
    'C09': dict(level='proof', note='Proved: every operation leaves the most compressed form, that form is unique for a map (lemma_unique), and == on trees decides equality of the maps.', suites=['equality'], roots=API(*BASE, '.*') + [r':: eq$']),
    'C10': dict(level='proof', note='Proved: encoding and decoding of every node, serialisation of whole trees into a store and reading them back, attached, detached, load and reattach.', suites=['persist'], roots=API('detached', 'attached', 'load', 'reattach') + [r'serialize', r'deserialize', r'read_one', r'attached']),
    'C11': dict(level='proof', note='Proved: every operation has one contract, stated over the content of the tree as read through its store, whatever part of it is loaded.', suites=['persist', 'outer', 'left', 'inner', 'bulk'], ms=8000, roots=[r'RadixTree<S> :: try_']),
    'C12': dict(level='proof', note='Proved: clones have equal content, every updating operation changes only its target (ownership plus the contract of each function); iterators and values own what they read.', suites=['snapshot'], roots=[REPR] + API('.*')),
    'C13': dict(level='proof', note='Proved: memory store, paged file store (append, pages, caches, header, reopening) and dynamic store meet the contract of BlobStore, for all blobs and histories; blobs keep their owner. Assumed: what File, Mmap, maps and locks do (listed in DESIGN.md), that nobody else writes to the file, one process. Bounded companion: real files.', suites=['blobs'], roots=[r'MemStore', r'PagedFileStore', r'\bInner\b', r'\bPage\b', r'DynBlobStore', r'\bBlob<', r'for OwnedBlob']),
    'C14': dict(level='proof', note='Proved for all inputs: union variant, length, use-after-release, double release and overwriting without release of every slot of the compact representation, all node accessors. Assumed: std contracts (Arc, ManuallyDrop, slices), that the compiler drops every owner once, and the lifetime casts (transmute) listed in DESIGN.md. Bounded companion: leak counting on random histories.', suites=['map', 'outer', 'left', 'bulk', 'persist', 'equality'], leak=True,
                roots=[r'CompactOwnedBlob', r'ChildrenRef', r'Header\b', r'OwnedBlobRef', r'ValueRef', r'\bValue\b', r'TreeNode<S> :: (set_|take_|prefix_ref|value_ref|get_children|has_value|value_opt|is_leaf|is_empty|child_count|drop|clone|single|leaf|empty_with|EMPTY|first_prefix)']),
    'C15': dict(level='proof', note='Proved for arbitrary bytes: the decoder read_one, all accessors of decoded nodes, and iteration and search in an encoded child list neither panic nor read out of bounds, and terminate; on top of that, in a second set of contracts that assume nothing about what nodes hold, every operation of the tree (lookups, iterators, prefix operations, combines, bulk updates, insert, remove, grouping, serialisation, loading) over a store of arbitrary blobs: no panic, no access out of bounds, results or errors; and, provided blobs do not refer to each other in a cycle, every recursion and every iterator comes to an end (decreases over the depth and the number of the nodes that can be decoded). Bounded companion: arbitrary and damaged stores.', suites=['malformed', 'damaged'],
                parts='ROBUST', roots=[r'BorrowedTreeNode', r'BorrowedTreeNodeIter', r'BorrowedBlobRef', r'RadixTree(<\w+>)? :: \w+$', r'TreeNode<\w+> :: (?!drop)\w+$', r'KeyValueIter', r'ValueIter', r'GroupBy', r'detached', r'downcast', r'attached', r'serialize', r'Converter', r'OuterJoin'],
                assumptions=['a store answers deterministically: what was read from an id once is read again', 'blobs do not refer to each other in a cycle (the condition in the property)']),
    'C16': dict(level='proof', note='Proved: the contracts of all operations hold whatever reads and writes of the store fail: a result that is not an error is the right one, nothing panics, operands that are not updated in place are unchanged (ownership). The detached API cannot fail. Bounded companion: a store that fails at every position.', suites=['faults'], roots=[r'RadixTree<S> :: try_', r'KeyValueIter', r'ValueIter', r'GroupBy', r'NodeConverter', r'attached', r'detached', r'reattach']),
    'C17': dict(level='proof', note='Proved: a successful sync of the file store reaches the file in one critical section, so that the header covers all that was written; no later operation writes to what the header covered at a sync, cuts it off or lets the header cover less; Inner::new on any file that still has those bytes finds every blob that was synced (lemma_crash) and can fail only if the system does. Assumed: what fsync, write and ftruncate do in a crash (the synced bytes stay, the 8-byte size field changes in one piece; DESIGN.md), no earlier I/O error. Bounded companion: real files, recorded system calls, crashes that keep any part of the writes since the last fsync.', suites=['crash', 'blobs'],
                roots=[r'MemStore', r'PagedFileStore', r'\bInner\b', r'\bPage\b', r'DynBlobStore'],
                assumptions=['fsync: what was written before it survives a crash unless it is written again', 'the size field (8 bytes within one sector) is written in one piece', 'sync is asked about histories without earlier I/O errors; nobody else writes to the file']),
    'C18': dict(level='proof', note='Proved: the lock invariant of the stores: each operation of the memory store and of the file store is one critical section, entered with any state another thread may have left, that answers from that state and leaves it with nothing lost or changed (rely/guarantee on the lock, an obligation at every unlock); blobs keep their owner; trees: an operation through & leaves the content as it is and updates touch only nodes nobody shares (copy on write; C12). Assumed: parking_lot excludes, Arc counts are atomic, rustc checks Send and Sync, owners of blobs are Send and Sync. Bounded companion: real threads.', suites=['threads', 'snapshot'],
                roots=[r'MemStore', r'PagedFileStore', r'\bInner\b', r'\bPage\b', r'DynBlobStore', r'\bBlob<', r'for OwnedBlob', REPR] + API('insert', 'remove', 'remove_prefix', 'get'),
                assumptions=['parking_lot::Mutex excludes; std::sync::Arc counts atomically', 'rustc derives Send and Sync; the two unsafe impls for Blob are taken as they are (see the known finding)', 'no operation takes a lock while it holds one (the companion would hang)']),
    'C19': dict(level='proof', note='Proved: whatever fails (a read, a write, the function passed in), for every key the target holds what it held before or what the completed operation would have given it (at the key of a failing merge: what the function left), and it meets the representation invariant, so that all other contracts apply to it. Bounded companion: a store that fails at every position.', suites=['faults'],
                roots=[r'RadixTree<S> :: try_(insert|remove|remove_prefix|outer_combine_with|inner_combine_with|left_combine_with|retain_prefix_with|remove_prefix_with|reattach)$']),
    'C20': dict(level='proof', note='Proved: equality, order, hash, slices (by range and by sub-slice), copies and conversions of blobs against the bytes they hold; whatever keeps a blob alive keeps its slices, clones and owned copies alive (obligation: the owner of an owned blob owns the bytes); access of keys and values to their bytes; that a range out of bounds is refused. Assumed: order and hash of [u8], addresses of slices lie in memory without wrap-around; tree functions that values are read through keep their contract here and are proved by C14.', suites=['bytes'], within=r'\bBlob<|CompactOwnedBlob|for OwnedBlob|IterKey|\bValue\b|Header|BlobRef|ValueRef',
                roots=[r'\bBlob<', r'for OwnedBlob', r'\bIterKey', r'\b(Value|OwnedValueRef|ValueRef)\b.* :: (as_ref|deref|to_owned|data|load)$']),
}

NA = {}
