//! Nothing is logged.
#[derive(Default)] pub struct ErrorLayer;
