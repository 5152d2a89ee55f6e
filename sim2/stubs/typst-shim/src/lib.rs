//! Stub of typst-shim: the parts that are only re-exports of typst.
pub mod utils {
    pub use typst::utils::LazyHash;
}
pub mod syntax {
    use typst::syntax::LinkedNode;
    pub trait LinkedNodeExt: Sized {
        fn leaf_at_compat(&self, cursor: usize) -> Option<Self>;
    }
    impl LinkedNodeExt for LinkedNode {
        fn leaf_at_compat(&self, cursor: usize) -> Option<Self> {
            self.leaf_at(cursor)
        }
    }
}
