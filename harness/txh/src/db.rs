//! The accounts, with reads that can be made to fail.
use revm_database::{CacheDB, EmptyDB};
use revm_database_interface::{DBErrorMarker, Database, DatabaseCommit};
use revm_primitives::{Address, AddressMap, B256, U256};
use revm_state::{Account, AccountInfo, Bytecode};

#[derive(Clone, Debug)]
pub struct Broken(pub String);
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Broken {}
impl DBErrorMarker for Broken {}

#[derive(Clone, Debug, Default)]
pub struct Db {
    pub inner: CacheDB<EmptyDB>,
    /// Reads of this account, and if given only of this slot, fail.
    pub fail: Option<(Address, Option<U256>)>,
}

impl Database for Db {
    type Error = Broken;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, Broken> {
        if self.fail == Some((a, None)) {
            return Err(Broken(format!("account {a}")));
        }
        Ok(self.inner.basic(a).unwrap())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, Broken> {
        Ok(self.inner.code_by_hash(h).unwrap())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, Broken> {
        if self.fail == Some((a, Some(k))) {
            return Err(Broken(format!("slot {a} {k}")));
        }
        Ok(self.inner.storage(a, k).unwrap())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, Broken> {
        Ok(self.inner.block_hash(n).unwrap())
    }
}

impl DatabaseCommit for Db {
    fn commit(&mut self, c: AddressMap<Account>) {
        self.inner.commit(c)
    }
}
