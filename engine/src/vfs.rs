use crate::exec::*;
use crate::ir::*;

impl Exec {
    pub fn vfs_call(&mut self, _st: &mut State, name: &str, _a: &[Val]) -> Result<Val, Stop> {
        Err(Stop::Engine(format!("external function {}", name)))
    }
}
