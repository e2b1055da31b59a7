//! Stand-in for `bevy_app`.
use bevy_ecs::event::{Event, Events, ManualEventReader};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::StateData;

pub struct App {
    pub world: World,
    pub schedule: Schedule,
    runner: Box<dyn Fn(App)>,
}

#[derive(StageLabel, Clone, Copy)]
pub enum CoreStage {
    First,
    PreUpdate,
    Update,
    PostUpdate,
    Last,
}

#[derive(StageLabel, Clone, Copy)]
pub struct StartupSchedule;

#[derive(Debug, Clone, Default)]
pub struct AppExit;

impl Default for App {
    fn default() -> Self {
        let mut app = Self {
            world: World::default(),
            schedule: Schedule::default(),
            runner: Box::new(|mut app| app.update()),
        };
        app.world.insert_resource(Events::<AppExit>::default());
        app
    }
}

impl App {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn update(&mut self) {
        self.schedule.run(&mut self.world);
    }

    pub fn run(&mut self) {
        let mut app = std::mem::replace(
            self,
            App {
                world: World::default(),
                schedule: Schedule::default(),
                runner: Box::new(|_| {}),
            },
        );
        let runner = std::mem::replace(&mut app.runner, Box::new(|_| {}));
        runner(app);
    }

    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.add_stage_after(target, label, stage);
        self
    }

    pub fn add_startup_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule
            .stage(StartupSchedule, |s: &mut Schedule| s.add_stage_after(target, label, stage));
        self
    }

    pub fn add_state(&mut self, _: impl StateData) -> &mut Self {
        self
    }

    pub fn insert_resource<R: Resource>(&mut self, resource: R) -> &mut Self {
        self.world.insert_resource(resource);
        self
    }

    pub fn insert_non_send_resource<R: 'static>(&mut self, resource: R) -> &mut Self {
        self.world.insert_non_send_resource(resource);
        self
    }

    pub fn add_plugin<T: Plugin>(&mut self, plugin: T) -> &mut Self {
        plugin.build(self);
        self
    }

    pub fn add_plugins<T: PluginGroup>(&mut self, _: T) -> &mut Self {
        self
    }

    pub fn add_system_to_stage<Params>(
        &mut self,
        stage_label: impl StageLabel,
        system: impl IntoSystemDescriptor<Params>,
    ) -> &mut Self {
        self.schedule.add_system_to_stage(stage_label, system);
        self
    }

    pub fn add_startup_system_to_stage<Params>(
        &mut self,
        stage_label: impl StageLabel,
        system: impl IntoSystemDescriptor<Params>,
    ) -> &mut Self {
        self.schedule.stage(StartupSchedule, |s: &mut Schedule| {
            s.add_system_to_stage(stage_label, system)
        });
        self
    }

    pub fn add_system_set_to_stage(
        &mut self,
        stage_label: impl StageLabel,
        system_set: SystemSet,
    ) -> &mut Self {
        self.schedule.add_system_set_to_stage(stage_label, system_set);
        self
    }

    pub fn add_event<T: Event>(&mut self) -> &mut Self {
        if !self.world.contains_resource::<Events<T>>() {
            self.world.insert_resource(Events::<T>::default());
            self.add_system_to_stage(CoreStage::First, Events::<T>::update_system);
        }
        self
    }

    pub fn set_runner(&mut self, f: impl Fn(App) + 'static) -> &mut Self {
        self.runner = Box::new(f);
        self
    }
}

pub trait Plugin: 'static {
    fn build(&self, app: &mut App);
}

pub trait PluginGroup {}

#[derive(Default)]
pub struct ScheduleRunnerPlugin;

impl Plugin for ScheduleRunnerPlugin {
    fn build(&self, app: &mut App) {
        app.set_runner(|mut app| {
            let mut reader = ManualEventReader::<AppExit>::default();
            loop {
                app.update();
                let events = app.world.get_resource_mut::<Events<AppExit>>().unwrap();
                if reader.iter(&events).last().is_some() {
                    break;
                }
            }
        });
    }
}

pub mod prelude {
    pub use crate::{App, CoreStage, Plugin, PluginGroup, StartupSchedule};
}
