pub enum Encryption { SHA256 }
pub enum HWIDComponent { SystemID, CPUCores }
pub struct IdBuilder;
impl IdBuilder {
    pub fn new(_: Encryption) -> Self { IdBuilder }
    pub fn add_component(&mut self, _: HWIDComponent) -> &mut Self { self }
    pub fn build(&mut self, _: &str) -> Result<String, ()> { Err(()) }
}
