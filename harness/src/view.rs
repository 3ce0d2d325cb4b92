//! Observing mapped modules through the hooks in llvm-mapper. When the hooks can't be built,
//! everything here degrades to observing nothing.

#[cfg(mollusc_verif)]
pub use llvm_mapper::verif::View;

#[cfg(mollusc_verif)]
pub fn reset() {
    llvm_mapper::verif::set_observer(None);
}
#[cfg(not(mollusc_verif))]
pub fn reset() {}
