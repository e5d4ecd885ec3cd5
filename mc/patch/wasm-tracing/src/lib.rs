//! Stand-in: accepts a configuration and installs nothing.
#[derive(Default, Debug, Clone)]
pub struct WasmLayerConfig;
impl WasmLayerConfig {
    pub fn new() -> Self {
        Self
    }
    pub fn set_max_level(&mut self, _l: tracing::Level) -> &mut Self {
        self
    }
}
pub fn set_as_global_default_with_config(_c: WasmLayerConfig) -> Result<(), std::convert::Infallible> {
    Ok(())
}
pub fn set_as_global_default() {}
