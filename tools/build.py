#!/usr/bin/env python3
"""Generate the Verus input from /repo's current source and the committed annotations."""
import sys, os, re, json, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import weave
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CX_REPO', '/repo')
FILES = ['src/node/mod.rs', 'src/store/blob_store.rs', 'src/lib.rs', 'src/store/mem_store.rs', 'src/store/paged_file_store.rs']
# documented, purely syntactic rewrites applied to the source text (see DESIGN.md)
REWRITES = [
    (r'\bpub(\([a-z]+\))? ', ''),
    (r'self\.(arc\w*)\.as_ref\(\)\.as_ref\(\)', r'arc_bytes(&self.\1)'),
    (r'self\.(arc\w*)\.clone\(\)', r'md_clone(&self.\1)'),
    (r'cfg!\(debug_assertions\)', 'false'),
    (r'ManuallyDrop::drop\(', 'manually_drop('),
    (r'ManuallyDrop::new\(', 'md_new('),
    (r'Arc::make_mut\(', 'arc_make_mut('),
    (r"&'a u8\b(?!\])", "BytePtr<'a>"),
    (r'std::slice::from_raw_parts\(', 'raw_parts('),
    (r'slice::Iter<', 'SIter<'),
    (r'\b(\w+)\.iter\(\)', r'siter(\1)'),
    (r'\(&(\w+)\[0\], ', r'(byte_ptr(\1), '),
    (r'\bPUB ', 'pub '),
    (r'(?m)(^\s*|[(,]\s*)_: ', r'\1_u: '),
    (r'impl AsRef<\[u8\]>', 'impl AsBytes'),
    (r'anyhow::ensure!\(', 'ensure!('),
    (r'Bound::(\w+)\(&(\w+)\)', r'Bound::\1(\2)'),
    # messages of assertions
    (r'\b(assert|refuse)!\(((?:[^()"]|\([^()]*\))*?),(\s*"[^"]*"(?:[^()]|\([^()]*\))*)\)', lambda m: m.group(1) + '!(' + m.group(2) + '\n' * m.group(3).count('\n') + ')'),
    (r'anyhow::bail!\([^;]*;', 'return Err(AnyErr);'),
    (r'anyhow::Result<', 'AnyResult<'),
    (r'anyhow::Error\b', 'AnyErr'),
    (r'(\w+)\[([^\]]*)\]\.try_into\(\)(?=\?|\.unwrap\(\))', r'to_array(&\1[\2])'),
    (r'\b(\w+)\.try_into\(\)(?=\?|\.unwrap\(\))', r'to_array(\1)'),
    (r'\bu(32|64)::from_be_bytes\(', r'u\1_from_be('),
    (r'\.to_be_bytes\(\)', '.be_bytes()'),
    (r'std::mem::transmute\(', 'extend('),
    (r'std::io::SeekFrom', 'SeekFrom'),
    (r': Default::default\(\)', ': MapOf::default()'),
    (r'\b(Self|Header|CompactOwnedBlob|ChildrenRef|Value|BorrowedTreeNode|TreeNode(?:::<\w+>)?)::(EMPTY|NONE|ARCDATA)\b', r'\1::\2()'),
    (r'OwnedBlobRef::EMPTY\b', 'OwnedBlobRef::empty_ref()'),
]
# (kind, file): 'r' raw verus text, 'w' woven source
PARTS = [tuple(x.split(':')) for x in 'r:prelude.rs r:h_open.rs w:h_header.rs r:h_lemmas.rs w:b_store.rs r:store_spec.rs w:b_blob.rs w:a_repr.rs w:a2_nodes.rs r:repr.rs r:tree.rs r:t_lemmas.rs r:x_open.rs r:c_spec.rs r:c_lemmas.rs w:c_borrowed.rs w:c_iter.rs w:d_load.rs r:e_spec.rs w:e_find.rs r:f_spec.rs w:f_node.rs r:f_dspec.rs w:f_detach.rs r:g_spec.rs r:g_shim.rs r:g_jspec.rs w:g_conv.rs w:g_join.rs r:h_mspec.rs w:h_outer_w.rs w:h_left_w.rs w:h_inner_w.rs r:i_pspec.rs w:i_prefix.rs r:j_shim.rs r:j_cspec.rs w:j_outer.rs w:j_inner.rs w:j_left.rs r:k_qspec.rs w:k_pred.rs r:n_shim.rs r:n_ispec.rs w:n_iter.rs r:l_fspec.rs w:l_tree.rs r:l_shim.rs r:l_tspec.rs r:o_ents.rs w:o_scan.rs r:p_gspec.rs w:p_group.rs r:q_sspec.rs w:q_ser.rs r:r_espec.rs w:r_eq.rs r:l_aspec.rs w:l_api.rs r:x_close.rs r:s_sspec.rs r:s_pspec.rs w:s_paged.rs w:s_mem.rs'.split()]
# the same functions under contracts that assume nothing about the content of nodes (C15)
ROBUST = PARTS[:[f for _, f in PARTS].index('d_load.rs') + 1] + [tuple(x.split(':')) for x in 'r:e_spec.rs r:g_shim.rs r:j_shim.rs r:n_shim.rs r:l_shim.rs r:y_spec.rs w:y_find.rs w:y_node.rs w:y_detach.rs w:y_iter.rs w:y_tree.rs w:y_scan.rs w:y_group.rs w:y_conv.rs w:y_join.rs w:y_outer_w.rs w:y_left_w.rs w:y_inner_w.rs w:y_prefix.rs w:y_outer.rs w:y_inner.rs w:y_left.rs w:y_pred.rs w:y_ser.rs r:x_close.rs'.split()]
ACTIVE = None     # the parts of the property being checked
def fingerprint(it): return hashlib.sha256(weave.norm(weave.strip_comments(' '.join(list(it.header) + list(it.body or [])))).encode()).hexdigest()[:16]
def uncovered(items):
    """the items of /repo that no contract mentions"""
    import cone
    m = cone.masters(PARTS)
    return {k: it for k, it in items.items() if k not in m}
try: UNCOVERED = json.load(open(os.path.join(VERIF, 'contracts', 'uncovered.json')))
except OSError: UNCOVERED = {}
def build(out, parts=None, cone=None, vacuity=False):
    items = weave.load_repo(REPO, FILES)
    w = weave.Woven()
    w.unknown = ['\n'.join(list(it.header) + list(it.body or [])) for k, it in uncovered(items).items() if UNCOVERED.get(k) != fingerprint(it)]
    w.vacuity = vacuity; w.vac = []
    for k, f in (parts or ACTIVE or PARTS):
        t = open(os.path.join(VERIF, 'contracts', f)).read()
        if k == 'r':
            for l in t.split('\n'): w.lines.append(l); w.origin.append(None)
        else:
            weave.weave(t, items, REWRITES, w, cone)
    w.lines += ['} // verus!', 'fn main() {}']; w.origin += [None, None]
    open(out, 'w').write('\n'.join(w.lines) + '\n')
    return w, items
if __name__ == '__main__':
    if sys.argv[1] == 'uncovered':
        items = weave.load_repo(REPO, FILES)
        json.dump({k: fingerprint(it) for k, it in sorted(uncovered(items).items())}, open(os.path.join(VERIF, 'contracts', 'uncovered.json'), 'w'), indent=0)
        sys.exit(0)
    parts = PARTS
    if len(sys.argv) > 2:
        parts = ROBUST if sys.argv[2] == 'robust' else [(x[0], x[2:]) for x in sys.argv[2:]]
    w, items = build(sys.argv[1], parts)
    for k, v in w.lost.items(): print('LOST', k, v)
    for k, v in w.changed.items():
        if v: print('CHANGED', k)
