//! Stand-in for env_logger: main() is run thousands of times in one process, and the real
//! one panics when it is initialised twice. Nothing is logged (the maximum level stays Off).
pub use log;
pub use log::{Level, LevelFilter, Log, Metadata, Record, SetLoggerError};
use std::io;

#[derive(Default, Debug)]
pub struct Env;
impl Env {
    pub fn new() -> Self { Env }
    pub fn default_filter_or<T>(self, _: T) -> Self { self }
    pub fn default_write_style_or<T>(self, _: T) -> Self { self }
    pub fn filter<T>(self, _: T) -> Self { self }
    pub fn filter_or<T, U>(self, _: T, _: U) -> Self { self }
    pub fn write_style<T>(self, _: T) -> Self { self }
}
impl From<&str> for Env {
    fn from(_: &str) -> Self { Env }
}
#[derive(Debug, Clone, Copy)]
pub enum TimestampPrecision { Seconds, Millis, Micros, Nanos }
#[derive(Debug, Clone, Copy, Default)]
pub enum WriteStyle { #[default] Auto, Always, Never }
#[derive(Debug, Default)]
pub enum Target { Stdout, #[default] Stderr }

#[derive(Default, Debug)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_env<E: Into<Env>>(_: E) -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn parse_env<E: Into<Env>>(&mut self, _: E) -> &mut Self { self }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn parse_write_style(&mut self, _: &str) -> &mut Self { self }
    pub fn filter(&mut self, _: Option<&str>, _: LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _: LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: LevelFilter) -> &mut Self { self }
    pub fn format<F: 'static>(&mut self, _: F) -> &mut Self { self }
    pub fn format_timestamp(&mut self, _: Option<TimestampPrecision>) -> &mut Self { self }
    pub fn format_timestamp_secs(&mut self) -> &mut Self { self }
    pub fn format_timestamp_millis(&mut self) -> &mut Self { self }
    pub fn format_timestamp_micros(&mut self) -> &mut Self { self }
    pub fn format_timestamp_nanos(&mut self) -> &mut Self { self }
    pub fn format_level(&mut self, _: bool) -> &mut Self { self }
    pub fn format_module_path(&mut self, _: bool) -> &mut Self { self }
    pub fn format_target(&mut self, _: bool) -> &mut Self { self }
    pub fn format_indent(&mut self, _: Option<usize>) -> &mut Self { self }
    pub fn format_suffix(&mut self, _: &'static str) -> &mut Self { self }
    pub fn target(&mut self, _: Target) -> &mut Self { self }
    pub fn write_style(&mut self, _: WriteStyle) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn try_init(&mut self) -> Result<(), SetLoggerError> { Ok(()) }
    pub fn init(&mut self) {}
}
pub fn init() {}
pub fn try_init() -> Result<(), SetLoggerError> { Ok(()) }
pub fn init_from_env<E: Into<Env>>(_: E) {}
pub fn builder() -> Builder { Builder }
#[allow(unused)]
fn _io(_: io::Error) {}
