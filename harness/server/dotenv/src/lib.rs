//! There is no .env file.
pub struct Error;
pub fn dotenv() -> Result<std::path::PathBuf, Error> { Err(Error) }
