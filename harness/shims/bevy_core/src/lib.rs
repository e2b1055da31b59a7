//! Stand-in for `bevy_core`.
use bevy_app::{App, Plugin};

#[derive(Default, Clone)]
pub struct TaskPoolOptions;

impl TaskPoolOptions {
    pub fn with_num_threads(_: usize) -> Self {
        Self
    }
}

#[derive(Default)]
pub struct CorePlugin {
    pub task_pool_options: TaskPoolOptions,
}

impl Plugin for CorePlugin {
    fn build(&self, _: &mut App) {}
}

pub mod prelude {
    pub use crate::TaskPoolOptions;
}
