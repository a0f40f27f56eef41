pub struct System;
impl System {
    pub fn new_all() -> Self { System }
    pub fn physical_core_count(&self) -> Option<usize> { None }
    pub fn long_os_version() -> Option<String> { None }
    pub fn name() -> Option<String> { None }
}
