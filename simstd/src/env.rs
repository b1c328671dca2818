pub use std::env::*;
use std::sync::Mutex as Real;

static ARGS: Real<Vec<String>> = Real::new(Vec::new());

/// The simulated command line.
pub fn sim_set_args(a: Vec<String>) {
    *ARGS.lock().unwrap_or_else(|e| e.into_inner()) = a;
}

fn now() -> Vec<String> {
    ARGS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub struct Args(std::vec::IntoIter<String>);
pub struct ArgsOs(std::vec::IntoIter<String>);

pub fn args() -> Args {
    Args(now().into_iter())
}
pub fn args_os() -> ArgsOs {
    ArgsOs(now().into_iter())
}
impl Iterator for Args {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for Args {}
impl DoubleEndedIterator for Args {
    fn next_back(&mut self) -> Option<String> {
        self.0.next_back()
    }
}
impl Iterator for ArgsOs {
    type Item = std::ffi::OsString;
    fn next(&mut self) -> Option<std::ffi::OsString> {
        self.0.next().map(Into::into)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for ArgsOs {}
