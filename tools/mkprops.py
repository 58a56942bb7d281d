import json
N='src/node/mod.rs'; L='src/lib.rs'
def P(id,title,st,over,qt,why,mech,files=None,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files or [N],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    return d
TS=[('tree node','compressed key fragment, optional value, children sorted by first byte',N)]
ps=[
P('C01','A tree is a map from byte strings to byte strings',
 'After any sequence of insertions and removals, looking up a key (get, contains_key) gives exactly the value most recently inserted for that key and not removed since, and nothing for every other key; is_empty tells whether any entry is left. This holds for every byte string as key and value (the empty one, keys that are prefixes of other keys, keys and values of any length) and for trees with and without a store.',
 ['inputs','histories'],'all finite histories of insert/remove with arbitrary byte strings, all lookups',
 'The tests sample random small maps compared with BTreeMap; keys, lengths around 8, 127 and 128 bytes and histories are unbounded.',
 [('lookup','find, get, contains_key'),('insert as a combine with a single entry','outer_combine_with'),('remove as a left combine','left_combine_with')],[N,L],TS,['RadixTree::get','RadixTree::insert','RadixTree::remove']),
P('C02','Iteration yields every entry once, in key order',
 'Iterating over a tree yields exactly its entries, each once, with keys in strictly ascending lexicographic byte order and the right value for each key; iterating over values yields the same values in the same order. The first and last entry and the first and last value queries agree with the two ends of that sequence and yield nothing exactly when the tree is empty.',
 ['inputs'],'all trees, in memory or backed by a store',
 'Order and completeness must hold for every shape of tree; tests sample random small ones.',
 [('iterators with a stack of child iterators','KeyValueIter, ValueIter'),('end queries','first_value, last_value, first_entry, last_entry')],[N,L],TS,['RadixTree::iter','RadixTree::values']),
P('C03','Prefix queries select exactly the keys with the prefix',
 'For every tree and every byte string p: has_prefix(p) tells whether some key starts with p; scan_prefix(p) yields exactly the entries whose key starts with p, in order and with their full keys; filter_prefix(p) is the tree of exactly those entries; remove_prefix(p) leaves exactly the other entries.',
 ['inputs'],'all trees, all prefixes (empty, ending inside or at a node, missing)',
 'A prefix can end inside a node, at a node, or leave the tree at any depth; tests sample few of these combinations.',
 [('search','find'),('selection','scan_prefix, filter_prefix, has_prefix, remove_prefix')],[N,L],TS,['RadixTree::scan_prefix','RadixTree::filter_prefix','RadixTree::has_prefix']),
P('C04','Outer combine is the keywise union under the merge function',
 'In the outer combine of two trees, keys of one side only keep their value unchanged, keys of both get the value the function makes of the two, and are absent if it makes none. The variant that returns a new tree and the variant that updates the left tree in place give the same content, for any mix of stores, and the right operand is never changed.',
 ['inputs','programs'],'all pairs of trees and all deterministic merge functions',
 'Pairs of trees and merge functions are unbounded; the relation between node boundaries of the two sides has many cases that tests sample.',
 [('merge of sorted child lists','outer_combine, outer_combine_children'),('in-place merge','outer_combine_with, outer_combine_children_with')],[N,L],TS,['RadixTree::outer_combine','RadixTree::outer_combine_with']),
P('C05','Inner combine is the keywise intersection under the merge function',
 'Inner combine of two trees contains exactly the keys that both trees have and for which the merge function returns a value, with that value; the new-tree and in-place variants give the same content. The predicate variant is true exactly if some common key satisfies the predicate. No operand other than the in-place target changes.',
 ['inputs','programs'],'all pairs of trees and all deterministic merge functions and predicates',
 'As for C04: unbounded pairs of trees, sampled by the tests.',
 [('merge','inner_combine, inner_combine_children, inner_combine_with, inner_combine_children_with, inner_combine_pred, inner_combine_children_pred')],[N,L],TS,['RadixTree::inner_combine','RadixTree::inner_combine_with','RadixTree::inner_combine_pred']),
P('C06','Left combine keeps the left keys, merged where both have them',
 'Left combine of two trees contains every key of the left tree that the right tree lacks, with its value unchanged, and every key of both for which the merge function returns a value, with that value; it contains no other key. The new-tree and in-place variants give the same content, and the predicate variant is true exactly if some left key is missing on the right, or some common key satisfies the predicate.',
 ['inputs','programs'],'all pairs of trees and all deterministic merge functions and predicates',
 'As for C04.',
 [('merge','left_combine, left_combine_children, left_combine_with, left_combine_children_with, left_combine_pred, left_combine_children_pred')],[N,L],TS,['RadixTree::left_combine','RadixTree::left_combine_with','RadixTree::left_combine_pred']),
P('C07','Bulk prefix retain and remove select exactly the right keys',
 'Retaining by the prefixes given by another tree keeps exactly the entries whose key starts with some key of that other tree that the predicate accepts; removing by prefixes drops exactly those entries. All other entries are untouched, for any mix of stores.',
 ['inputs','programs'],'all trees, all prefix trees (nested prefixes, the empty prefix), all predicates',
 'Nesting of prefixes and the predicate at different depths interact; tests sample random small sets.',
 [('in-place walk of both trees','retain_prefix_with, retain_prefix_children_with, remove_prefix_with, remove_prefix_children_with')],[N,L],TS,['RadixTree::retain_prefix_with','RadixTree::remove_prefix_with']),
P('C08','group_by partitions the entries',
 'group_by yields trees that together contain every entry of the original tree exactly once, unchanged and in key order. Each part holds all entries below one common prefix at which the given function declined to descend, or the single entry at a prefix where it did descend.',
 ['inputs','programs'],'all trees and all deterministic descend functions',
 'Descend functions and shapes are unbounded.',
 [('iterator','GroupBy')],[N,L],TS,['RadixTree::group_by']),
P('C09','Every operation returns the one canonical tree for its content',
 'Two trees without a store are equal (==) exactly if they hold the same entries, however each of them was produced. Every operation that yields or updates a tree leaves it in the unique most compressed form: no empty subtree, no superfluous node, children in strictly ascending order of their first byte.',
 ['inputs','histories'],'all histories of operations; all pairs of trees',
 'The equality of results of different histories is sampled by a handful of tests only.',
 [('compression','canonicalize, unsplit, split'),('comparison','PartialEq of trees')],[N,L],TS,['RadixTree: PartialEq']),
P('C10','A tree survives being written to and read from a store',
 'Attaching a tree to a store, reattaching (which evicts it to the store), and detaching it again gives a tree with the same content, for every content and every store that returns what was written; the same holds when the serialised root is stored and the tree is reloaded from it. No value, however long, is altered, truncated or confused with another.',
 ['inputs','histories'],'all trees, all blob sizes (inline, below 128 bytes, above), any number of detach/attach cycles',
 'The encoding has length thresholds at 8, 127 and 128 bytes in four places per node; tests use few sizes.',
 [('encoding','serialize, deserialize, read_one'),('moving between stores','attached, detached, load_children')],[N,L,'src/store/blob_store.rs'],None,['RadixTree::try_attached','RadixTree::try_detached','RadixTree::try_reattach']),
P('C11','Operations on stored trees give the same results as in memory',
 'For every operation, running it on a tree whose nodes and values are partly or wholly still in the store gives the same result as running it on a fully loaded in-memory tree with the same entries. Loading happens on demand and never changes the content.',
 ['inputs','histories'],'all operations, all trees, all subsets of loaded nodes',
 'Each operation has separate code for loaded and stored nodes; tests cover few operations on stored trees.',
 [('on-demand loading','load_children, load_children_mut, load_prefix, load_value'),('conversion between stores','NodeConverter')],[N,L]),
P('C12','Copies are independent snapshots',
 'A clone of a tree, an iterator obtained from it, and any value read from it keep their content whatever is done to the original or to other copies afterwards. Updating one tree never changes another one, although they share memory.',
 ['histories','inputs'],'all interleavings of updates on copies of a tree in one thread',
 'Sharing patterns of nodes are unbounded; a wrong in-place update shows only when a node is shared.',
 [('copy on write','Arc::make_mut in load_children_mut and get_children_mut users'),('iterators own their nodes','TreeNodeIter::into_owned, new_owned')],[N,L]),
P('C13','Blob stores return exactly what was written',
 'For every store shipped with the library (memory, dynamic, paged file, and combinations), reading an id returned by a write yields exactly the written bytes, for blobs of every length including empty and for any sequence of writes; a later write never changes an earlier blob. For the file store this includes reopening the file after a sync, and a blob that is too large for a page is refused. Reading an id that no write returned never panics; it gives an error if the id has the wrong length or lies outside everything written so far.',
 ['inputs','histories'],'all sequences of writes, reads, syncs and reopenings, all blob lengths (across page boundaries)',
 'Tests write a few blobs; page boundaries, empty and large blobs and reopenings are sampled.',
 [('stores','MemStore, PagedFileStore, Arc/Box/dyn wrappers')],['src/store/blob_store.rs','src/store/mem_store.rs','src/store/paged_file_store.rs','src/store/blob.rs']),
P('C14','The compact representation is sound and releases its memory',
 'For every fragment, value and child list length the compact in-memory representation reads back exactly the bytes that were stored, whether inline or shared: no access ever reads memory as something it is not, out of bounds or after its release. Dropping every tree, iterator and value releases all memory, exactly once.',
 ['inputs','histories'],'all contents of every length (thresholds at 8, 127, 128 bytes), all histories of set, clone, take and drop',
 'The representation is an unsafe union whose interpretation depends on separate length bytes; tests cannot reach all lengths and histories, and a wrong variant may go unnoticed.',
 [('tagged unions','CompactOwnedBlob, ChildrenRef with Header'),('setters and take','TreeNode setters, Value')],[N],[('header','one byte: kind (data or id) and length up to 127',N)]),
P('C15','Arbitrary stored bytes are decoded safely',
 'Loading a node from arbitrary bytes - truncated, corrupted, hostile - yields either an error or a well-formed tree, and using that tree yields results or errors; nothing panics, reads out of bounds or loops forever, provided the blobs do not refer to each other in a cycle. Well-formed encodings decode to the node that was encoded.',
 ['inputs','fault_sequences'],'all byte strings as the content of a store',
 'The decoder uses unchecked pointer arithmetic guarded by length bytes; tests decode only what the encoder wrote.',
 [('decoder','BorrowedTreeNode::read_one'),('iteration over encoded children','TreeNodeIter over blobs')],[N]),
P('C16','A failing store operation is reported',
 'If the store fails a read or write in the middle of an operation, the operation returns the error: it never panics, never presents a wrong or incomplete result as success, and an iterator yields the error after correct entries only. Operands other than the target of an in-place update, and clones made earlier, keep their content.',
 ['fault_sequences','inputs'],'all operations, all positions of a failing store access',
 'No test injects store failures.',
 [('error propagation','? in all recursive functions; the Err items of the iterators')],[N]),
P('C17','The file store survives a crash after sync',
 'After a successful sync of the file-backed store (directly or through the dynamic store), every blob written before it can be read back after reopening the file, if the process or the machine crashes at any later point, also in the middle of later writes, page changes, syncs or reopenings, whatever part of those later writes reached the disk. Reopening does not fail on such a file. A sync that did not reach the disk reports an error.',
 ['crash_points','histories'],'all crash points after a sync, all subsets of later writes on disk (the disk keeps what fsync confirmed; the 8-byte size field is written in one piece)',
 'Tests never crash.',[('sync','PagedFileStore::sync'),('order of writes and the header','Inner::append, close_page, commit, write_size'),('reopening','Inner::new')],['src/store/paged_file_store.rs','src/store/mem_store.rs']),
P('C18','Stores and trees can be shared between threads',
 'A store may be used from several threads at once, with the same results as some sequential order of the calls: no id is handed out twice, no blob is lost or mixed up, a read that follows a write sees it. Copies of a tree may be read and updated in different threads; no thread sees the updates of another one.',
 ['schedules'],'all thread schedules','No test uses threads.',[('locks','parking_lot mutexes in the stores: one critical section per operation'),('copy on write','Arc counts, Arc::make_mut')],['src/store/mem_store.rs','src/store/paged_file_store.rs','src/store/blob_store.rs',N]),
P('C19','A failed in-place update loses no entries',
 'If an in-place operation (insert, remove, prefix removal, the in-place combines, bulk retain and remove, reattach) fails because a store access or the function passed in fails, the target tree stays usable, and for every key it either still has what it had before or has what the completed operation would have given it (for the one key at which the function failed: whatever the function left). In particular no entry is lost that the operation would have kept.',
 ['fault_sequences','inputs'],'all in-place operations, all positions of a failing store access',
 'No test injects store failures.',
 [('error paths','InPlaceVecBuilder in the *_children_with functions; order of loads and changes in the *_with functions')],[N]),
P('C20','Blobs, keys and values are byte strings',
 'A blob compares, orders, hashes and dereferences exactly like the bytes it holds, whatever owns them, and so do keys and values where they give access to their bytes. Slicing a blob, by a range or by a sub-slice of it, yields exactly those bytes and refuses everything that is not inside the blob. A clone, a slice or an owned copy stays valid and unchanged after everything it was made from is gone.',
 ['inputs','histories'],'all contents and lengths, all ranges (included, excluded and missing bounds), all owners (vectors, arrays, static data, pages of a file)',
 'Bounds of ranges and pointer arithmetic have many corner cases, and a blob that outlives its owner often still shows the old bytes in a test.',
 [('blobs','Blob: slice, slice_ref, to_owned, comparisons, hash'),('owners','From<Arc<..>>, from_arc_vec, owned_new, IterKey::to_owned_blob')],['src/store/blob_store.rs',N]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in ps))
