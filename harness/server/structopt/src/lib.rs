//! structopt 0.3.26 with the process' arguments and exit replaced by the harness'.
#![allow(static_mut_refs)]
pub use structopt_derive::*;
use std::ffi::OsString;
pub use clap;
pub use lazy_static;
pub static mut ARGS: Vec<OsString> = Vec::new();
pub static mut EXIT: Option<fn(bool) -> !> = None;
fn exit(e: clap::Error) -> ! { let shown = matches!(e.kind, clap::ErrorKind::HelpDisplayed | clap::ErrorKind::VersionDisplayed); unsafe { EXIT.unwrap()(shown) } }
fn args() -> Vec<OsString> { unsafe { ARGS.clone() } }
pub trait StructOpt {
    fn clap<'a, 'b>() -> clap::App<'a, 'b>;
    fn from_clap(matches: &clap::ArgMatches<'_>) -> Self;
    fn from_args() -> Self where Self: Sized { match Self::from_args_safe() { Ok(x) => x, Err(e) => exit(e) } }
    fn from_args_safe() -> Result<Self, clap::Error> where Self: Sized { Ok(Self::from_clap(&Self::clap().get_matches_from_safe(args())?)) }
    fn from_iter<I>(iter: I) -> Self where Self: Sized, I: IntoIterator, I::Item: Into<OsString> + Clone { match Self::from_iter_safe(iter) { Ok(x) => x, Err(e) => exit(e) } }
    fn from_iter_safe<I>(iter: I) -> Result<Self, clap::Error> where Self: Sized, I: IntoIterator, I::Item: Into<OsString> + Clone { Ok(Self::from_clap(&Self::clap().get_matches_from_safe(iter)?)) }
}
#[doc(hidden)]
pub trait StructOptInternal: StructOpt {
    fn augment_clap<'a, 'b>(app: clap::App<'a, 'b>) -> clap::App<'a, 'b> { app }
    fn is_subcommand() -> bool { false }
    fn from_subcommand<'a, 'b>(_sub: (&'b str, Option<&'b clap::ArgMatches<'a>>)) -> Option<Self> where Self: std::marker::Sized { None }
}
