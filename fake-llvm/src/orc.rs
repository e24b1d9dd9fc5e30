//! The part of the ORC bindings the rest of revmc uses.
use crate::exec::Loaded;
use std::sync::Arc;

/// Owns the code of one committed module.
pub struct ResourceTracker {
    pub(crate) loaded: Arc<Loaded>,
    pub(crate) dylib: Arc<crate::Dylib>,
}

impl std::fmt::Debug for ResourceTracker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ResourceTracker")
    }
}

impl ResourceTracker {
    /// Frees the code.
    pub fn remove(&self) -> Result<(), String> {
        self.loaded.free();
        self.dylib.forget(&self.loaded);
        Ok(())
    }
}
