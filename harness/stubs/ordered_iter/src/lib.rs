//! Stand-in for the one crate that cannot be fetched offline: marker traits only, unused by rustfst.
pub trait OrderedMapIterator { type Key; type Val; }
pub trait OrderedSetIterator {}
