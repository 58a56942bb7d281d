/// everything that executes above the node representation
mod ex {
use super::*;
broadcast use {group_header, group_tree, axiom_store_clone};
