/// The wire code of "this node" (None) or a child.
#[cfg(feature = "c05")]
pub fn encode(child: Option<u8>) -> u8 {
    use super::node_index::NodeIndex;
    match child {
        None => NodeIndex::ThisNode,
        Some(c) => NodeIndex::Child(c),
    }
    .into()
}

#[cfg(feature = "c05")]
pub fn decode(code: u8) -> Option<u8> {
    use super::node_index::NodeIndex;
    match NodeIndex::from(code) {
        NodeIndex::ThisNode => None,
        NodeIndex::Child(c) => Some(c),
    }
}

#[cfg(feature = "c05")]
pub const NUM_CHILDREN: usize = super::TWO_TO_NUM_DIMENSIONS;
