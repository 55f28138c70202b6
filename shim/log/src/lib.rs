//! Stand-in for `log`: evaluates the arguments, prints nothing.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level { Error = 1, Warn, Info, Debug, Trace }
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LevelFilter { Off, Error, Warn, Info, Debug, Trace }
pub fn max_level() -> LevelFilter { LevelFilter::Off }
#[macro_export]
macro_rules! log {
    (target: $t:expr, $lvl:expr, $($arg:tt)+) => {{ let _ = ($t, $lvl, format_args!($($arg)+)); }};
    ($lvl:expr, $($arg:tt)+) => {{ let _ = ($lvl, format_args!($($arg)+)); }};
}
#[macro_export]
macro_rules! log_enabled { ($($x:tt)*) => { false }; }
#[macro_export]
macro_rules! error { (target: $t:expr, $($arg:tt)+) => {{ let _ = ($t, format_args!($($arg)+)); }}; ($($arg:tt)+) => {{ let _ = format_args!($($arg)+); }}; }
#[macro_export]
macro_rules! warn { (target: $t:expr, $($arg:tt)+) => {{ let _ = ($t, format_args!($($arg)+)); }}; ($($arg:tt)+) => {{ let _ = format_args!($($arg)+); }}; }
#[macro_export]
macro_rules! info { (target: $t:expr, $($arg:tt)+) => {{ let _ = ($t, format_args!($($arg)+)); }}; ($($arg:tt)+) => {{ let _ = format_args!($($arg)+); }}; }
#[macro_export]
macro_rules! debug { (target: $t:expr, $($arg:tt)+) => {{ let _ = ($t, format_args!($($arg)+)); }}; ($($arg:tt)+) => {{ let _ = format_args!($($arg)+); }}; }
#[macro_export]
macro_rules! trace { (target: $t:expr, $($arg:tt)+) => {{ let _ = ($t, format_args!($($arg)+)); }}; ($($arg:tt)+) => {{ let _ = format_args!($($arg)+); }}; }
