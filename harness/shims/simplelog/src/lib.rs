//! Stand-in for `simplelog`: the model's ranks share a process, which has one logger only; nothing
//! is logged, but log files are there.
pub use log::LevelFilter;

#[derive(Clone, Copy)]
pub enum LevelPadding {
    Left,
    Right,
    Off,
}
#[derive(Clone, Copy)]
pub enum TerminalMode {
    Stdout,
    Stderr,
    Mixed,
}
#[derive(Clone, Copy)]
pub enum ColorChoice {
    Auto,
    Always,
    AlwaysAnsi,
    Never,
}

#[derive(Clone, Default)]
pub struct Config;

#[derive(Default)]
pub struct ConfigBuilder;

impl ConfigBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn set_level_padding(&mut self, _: LevelPadding) -> &mut Self {
        self
    }
    pub fn set_time_offset(&mut self, _: time::UtcOffset) -> &mut Self {
        self
    }
    pub fn set_thread_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_time_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_target_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_location_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn set_max_level(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> Config {
        Config
    }
}

#[derive(Debug)]
pub struct SetLoggerError;

pub trait SharedLogger {}

pub struct TermLogger;
impl SharedLogger for TermLogger {}
impl TermLogger {
    #[allow(clippy::new_ret_no_self)]
    pub fn new(_: LevelFilter, _: Config, _: TerminalMode, _: ColorChoice) -> Box<Self> {
        Box::new(Self)
    }
    pub fn init(_: LevelFilter, _: Config, _: TerminalMode, _: ColorChoice) -> Result<(), SetLoggerError> {
        Ok(())
    }
}

pub struct WriteLogger<W>(#[allow(dead_code)] W);
impl<W: std::io::Write> SharedLogger for WriteLogger<W> {}
impl<W: std::io::Write> WriteLogger<W> {
    #[allow(clippy::new_ret_no_self)]
    pub fn new(_: LevelFilter, _: Config, w: W) -> Box<Self> {
        Box::new(Self(w))
    }
    pub fn init(_: LevelFilter, _: Config, _: W) -> Result<(), SetLoggerError> {
        Ok(())
    }
}

pub struct CombinedLogger;
impl CombinedLogger {
    pub fn init(_: Vec<Box<dyn SharedLogger>>) -> Result<(), SetLoggerError> {
        Ok(())
    }
}
