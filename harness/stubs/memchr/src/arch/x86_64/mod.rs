/*!
Vector algorithms for the `x86_64` target.
*/

pub mod avx2;
pub mod sse2;

pub(crate) mod memchr;
