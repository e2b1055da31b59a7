//! Stand-in for `bevy_ecs` 0.9: a single-threaded entity component system with the parts of its
//! interface that subsweep uses. Systems of a stage run one after the other, in the order in which
//! they were added as far as `before` and `after` leave it open; run criteria are evaluated at the
//! beginning of a stage; commands are applied at its end.
extern crate self as bevy_ecs;

use std::any::{Any, TypeId};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub mod entity {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Entity {
        pub(crate) generation: u32,
        pub(crate) id: u32,
    }

    impl Entity {
        pub const fn from_raw(id: u32) -> Self {
            Self { id, generation: 0 }
        }
        pub fn to_bits(self) -> u64 {
            u64::from(self.generation) << 32 | u64::from(self.id)
        }
        pub fn from_bits(bits: u64) -> Self {
            Self {
                generation: (bits >> 32) as u32,
                id: bits as u32,
            }
        }
        pub fn index(self) -> u32 {
            self.id
        }
        pub fn generation(self) -> u32 {
            self.generation
        }
    }
}
use entity::Entity;

pub mod component {
    pub use bevy_ecs_macros::Component;
    pub trait Component: Send + Sync + 'static {}

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ComponentId(pub usize);
    pub struct ComponentInfo;
    impl ComponentInfo {
        pub fn name(&self) -> &str {
            ""
        }
    }
    pub struct Components;
    impl Components {
        pub fn get_info(&self, _: ComponentId) -> Option<&ComponentInfo> {
            None
        }
    }
}
use component::Component;

pub mod archetype {
    use crate::component::ComponentId;
    pub struct Archetype;
    impl Archetype {
        pub fn is_empty(&self) -> bool {
            true
        }
        pub fn components(&self) -> impl Iterator<Item = ComponentId> + '_ {
            std::iter::empty()
        }
    }
    pub struct Archetypes;
    impl Archetypes {
        pub fn iter(&self) -> impl Iterator<Item = &Archetype> + '_ {
            std::iter::empty()
        }
        pub fn len(&self) -> usize {
            0
        }
    }
}

pub mod bundle {
    use crate::component::Component;
    use crate::entity::Entity;
    use crate::world::World;
    pub use bevy_ecs_macros::Bundle;

    pub trait Bundle: Send + Sync + 'static {
        fn insert_into(self, world: &mut World, entity: Entity);
    }

    impl<C: Component> Bundle for C {
        fn insert_into(self, world: &mut World, entity: Entity) {
            world.insert_component(entity, self);
        }
    }

    macro_rules! tuples {
        ($($t: ident)*) => {
            #[allow(non_snake_case, unused_variables)]
            impl<$($t: Bundle),*> Bundle for ($($t,)*) {
                fn insert_into(self, world: &mut World, entity: Entity) {
                    let ($($t,)*) = self;
                    $($t.insert_into(world, entity);)*
                }
            }
        };
    }
    tuples!();
    tuples!(A);
    tuples!(A B);
    tuples!(A B C);
    tuples!(A B C D);
    tuples!(A B C D E);
    tuples!(A B C D E F);
    tuples!(A B C D E F G);
    tuples!(A B C D E F G H);
    tuples!(A B C D E F G H I);
    tuples!(A B C D E F G H I J);
    tuples!(A B C D E F G H I J K);
    tuples!(A B C D E F G H I J K L);
}
use bundle::Bundle;

pub mod world {
    pub use crate::{EntityMut, EntityRef, Mut, World};
}

struct Row {
    generation: u32,
    alive: bool,
    components: HashMap<TypeId, UnsafeCell<Box<dyn Any>>>,
}

#[derive(Default)]
pub struct World {
    rows: UnsafeCell<Vec<Row>>,
    resources: HashMap<TypeId, UnsafeCell<Box<dyn Any>>>,
    /// Number of reserved entities, rows may be behind.
    reserved: Cell<u32>,
}

pub struct EntityMut<'w> {
    world: &'w mut World,
    entity: Entity,
}

impl<'w> EntityMut<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        b.insert_into(self.world, self.entity);
        self
    }
    pub fn remove<T: Component>(&mut self) {
        self.world.remove_component::<T>(self.entity);
    }
    pub fn get<T: Component>(&self) -> Option<&T> {
        self.world.get::<T>(self.entity)
    }
    pub fn despawn(self) {
        self.world.despawn(self.entity);
    }
}

pub struct EntityRef<'w> {
    world: &'w World,
    entity: Entity,
}

impl<'w> EntityRef<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn get<T: Component>(&self) -> Option<&'w T> {
        self.world.get::<T>(self.entity)
    }
    pub fn contains<T: Component>(&self) -> bool {
        self.get::<T>().is_some()
    }
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    fn rows(&self) -> &Vec<Row> {
        unsafe { &*self.rows.get() }
    }

    fn reserve(&self) -> Entity {
        let id = self.reserved.get();
        self.reserved.set(id + 1);
        Entity { id, generation: 0 }
    }

    fn row_mut(&mut self, e: Entity) -> Option<&mut Row> {
        let reserved = self.reserved.get() as usize;
        let rows = self.rows.get_mut();
        while rows.len() < reserved {
            rows.push(Row {
                generation: 0,
                alive: true,
                components: HashMap::new(),
            });
        }
        rows.get_mut(e.id as usize)
            .filter(|r| r.alive && r.generation == e.generation)
    }

    fn row(&self, e: Entity) -> Option<&Row> {
        self.rows()
            .get(e.id as usize)
            .filter(|r| r.alive && r.generation == e.generation)
    }

    pub(crate) fn insert_component<C: Component>(&mut self, e: Entity, c: C) {
        let row = self.row_mut(e).unwrap_or_else(|| {
            panic!("Could not insert a component, because the entity does not exist")
        });
        row.components
            .insert(TypeId::of::<C>(), UnsafeCell::new(Box::new(c)));
    }

    fn remove_component<C: Component>(&mut self, e: Entity) {
        if let Some(row) = self.row_mut(e) {
            row.components.remove(&TypeId::of::<C>());
        }
    }

    pub fn spawn<B: Bundle>(&mut self, b: B) -> EntityMut<'_> {
        let e = self.reserve();
        self.row_mut(e);
        b.insert_into(self, e);
        EntityMut {
            world: self,
            entity: e,
        }
    }

    pub fn spawn_empty(&mut self) -> EntityMut<'_> {
        self.spawn(())
    }

    pub fn despawn(&mut self, e: Entity) -> bool {
        match self.row_mut(e) {
            Some(r) => {
                r.alive = false;
                r.components.clear();
                true
            }
            None => false,
        }
    }

    pub fn entity(&self, entity: Entity) -> EntityRef<'_> {
        EntityRef {
            world: self,
            entity,
        }
    }

    pub fn entity_mut(&mut self, entity: Entity) -> EntityMut<'_> {
        EntityMut {
            world: self,
            entity,
        }
    }

    pub fn entities(&self) -> Vec<Entity> {
        self.rows()
            .iter()
            .enumerate()
            .filter(|(_, r)| r.alive)
            .map(|(i, r)| Entity {
                id: i as u32,
                generation: r.generation,
            })
            .collect()
    }

    pub fn get<T: Component>(&self, e: Entity) -> Option<&T> {
        let cell = self.row(e)?.components.get(&TypeId::of::<T>())?;
        unsafe { (*cell.get()).downcast_ref() }
    }

    pub fn get_mut<T: Component>(&mut self, e: Entity) -> Option<Mut<'_, T>> {
        unsafe { self.component_mut(e) }.map(Mut)
    }

    unsafe fn component_mut<T: Component>(&self, e: Entity) -> Option<&mut T> {
        let cell = self.row(e)?.components.get(&TypeId::of::<T>())?;
        (*cell.get()).downcast_mut()
    }

    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.insert_non_send_resource(r);
    }

    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) {
        self.resources
            .insert(TypeId::of::<R>(), UnsafeCell::new(Box::new(r)));
    }

    pub fn init_resource<R: Resource + Default>(&mut self) {
        if !self.contains_resource::<R>() {
            self.insert_resource(R::default());
        }
    }

    pub fn remove_resource<R: Resource>(&mut self) -> Option<R> {
        self.resources
            .remove(&TypeId::of::<R>())
            .map(|b| *b.into_inner().downcast().ok().unwrap())
    }

    pub fn contains_resource<R: 'static>(&self) -> bool {
        self.resources.contains_key(&TypeId::of::<R>())
    }

    unsafe fn resource_ptr<R: 'static>(&self) -> Option<&mut R> {
        let cell = self.resources.get(&TypeId::of::<R>())?;
        (*cell.get()).downcast_mut()
    }

    pub fn get_resource<R: Resource>(&self) -> Option<&R> {
        unsafe { self.resource_ptr::<R>() }.map(|r| &*r)
    }

    pub fn get_resource_mut<R: Resource>(&mut self) -> Option<Mut<'_, R>> {
        unsafe { self.resource_ptr::<R>() }.map(Mut)
    }

    pub fn get_non_send_resource<R: 'static>(&self) -> Option<&R> {
        unsafe { self.resource_ptr::<R>() }.map(|r| &*r)
    }

    pub fn get_non_send_resource_mut<R: 'static>(&mut self) -> Option<Mut<'_, R>> {
        unsafe { self.resource_ptr::<R>() }.map(Mut)
    }

    pub fn non_send_resource<R: 'static>(&self) -> &R {
        self.get_non_send_resource().unwrap_or_else(missing::<R, _>)
    }

    pub fn non_send_resource_mut<R: 'static>(&mut self) -> Mut<'_, R> {
        self.get_non_send_resource_mut()
            .unwrap_or_else(missing::<R, _>)
    }

    pub fn resource<R: Resource>(&self) -> &R {
        self.get_resource().unwrap_or_else(missing::<R, _>)
    }

    pub fn resource_mut<R: Resource>(&mut self) -> Mut<'_, R> {
        self.get_resource_mut().unwrap_or_else(missing::<R, _>)
    }

    pub fn get_resource_or_insert_with<R: Resource>(
        &mut self,
        func: impl FnOnce() -> R,
    ) -> Mut<'_, R> {
        if !self.contains_resource::<R>() {
            self.insert_resource(func());
        }
        self.resource_mut()
    }

    pub fn send_event<E: event::Event>(&mut self, e: E) {
        self.resource_mut::<event::Events<E>>().send(e);
    }

    pub fn query<Q: query::WorldQuery>(&mut self) -> QueryState<Q> {
        QueryState(PhantomData)
    }

    pub fn query_filtered<Q: query::WorldQuery, F: query::Filter>(&mut self) -> QueryState<Q, F> {
        QueryState(PhantomData)
    }
}

pub struct QueryState<Q, F = ()>(PhantomData<(Q, F)>);

impl<Q: query::WorldQuery, F: query::Filter> QueryState<Q, F> {
    pub fn iter<'w>(&mut self, world: &'w World) -> impl Iterator<Item = <Q::ReadOnly as query::WorldQuery>::Item<'w>> {
        unsafe { collect::<Q::ReadOnly, F>(world) }.into_iter()
    }
    pub fn iter_mut<'w>(&mut self, world: &'w mut World) -> impl Iterator<Item = Q::Item<'w>> {
        unsafe { collect::<Q, F>(world) }.into_iter()
    }
}

#[track_caller]
fn missing<R, O>() -> O {
    panic!(
        "Requested resource {} does not exist in the `World`.",
        std::any::type_name::<R>()
    )
}

pub struct Mut<'a, T: ?Sized>(pub(crate) &'a mut T);

impl<'a, T: ?Sized> Mut<'a, T> {
    pub fn into_inner(self) -> &'a mut T {
        self.0
    }
}
impl<'a, T: ?Sized> Deref for Mut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'a, T: ?Sized> DerefMut for Mut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'a, T: std::fmt::Debug> std::fmt::Debug for Mut<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub mod query {
    use super::*;

    /// # Safety
    /// Mutable items of one world must not overlap; this is checked when a system is run.
    pub unsafe trait WorldQuery {
        type Item<'w>;
        type ReadOnly: WorldQuery;
        unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<Self::Item<'w>>;
    }

    unsafe impl<'a, T: Component> WorldQuery for &'a T {
        type Item<'w> = &'w T;
        type ReadOnly = Self;
        unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<&'w T> {
            world.get(e)
        }
    }

    unsafe impl<'a, T: Component> WorldQuery for &'a mut T {
        type Item<'w> = Mut<'w, T>;
        type ReadOnly = &'a T;
        unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<Mut<'w, T>> {
            world.component_mut(e).map(Mut)
        }
    }

    unsafe impl<Q: WorldQuery> WorldQuery for Option<Q> {
        type Item<'w> = Option<Q::Item<'w>>;
        type ReadOnly = Option<Q::ReadOnly>;
        unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<Option<Q::Item<'w>>> {
            Some(Q::fetch(world, e))
        }
    }

    unsafe impl WorldQuery for Entity {
        type Item<'w> = Entity;
        type ReadOnly = Entity;
        unsafe fn fetch<'w>(_: &'w World, e: Entity) -> Option<Entity> {
            Some(e)
        }
    }

    pub struct With<T>(PhantomData<T>);
    pub struct Without<T>(PhantomData<T>);

    pub trait Filter {
        fn matches(world: &World, e: Entity) -> bool;
    }
    impl<T: Component> Filter for With<T> {
        fn matches(world: &World, e: Entity) -> bool {
            world.get::<T>(e).is_some()
        }
    }
    impl<T: Component> Filter for Without<T> {
        fn matches(world: &World, e: Entity) -> bool {
            world.get::<T>(e).is_none()
        }
    }

    macro_rules! tuples {
        ($($t: ident)*) => {
            #[allow(non_snake_case, unused_variables)]
            unsafe impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
                type Item<'w> = ($($t::Item<'w>,)*);
                type ReadOnly = ($($t::ReadOnly,)*);
                unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<Self::Item<'w>> {
                    Some(($($t::fetch(world, e)?,)*))
                }
            }
            #[allow(unused_variables)]
            impl<$($t: Filter),*> Filter for ($($t,)*) {
                fn matches(world: &World, e: Entity) -> bool {
                    true $(&& $t::matches(world, e))*
                }
            }
        };
    }
    tuples!();
    tuples!(A);
    tuples!(A B);
    tuples!(A B C);
    tuples!(A B C D);
    tuples!(A B C D E);
    tuples!(A B C D E F);
    tuples!(A B C D E F G);
    tuples!(A B C D E F G H);
    tuples!(A B C D E F G H I);
    tuples!(A B C D E F G H I J);

    #[derive(Debug)]
    pub struct QueryEntityError;
    #[derive(Debug)]
    pub struct QuerySingleError;
}
use query::{Filter, QueryEntityError, QuerySingleError, WorldQuery};

unsafe fn collect<'w, Q: WorldQuery, F: Filter>(world: &'w World) -> Vec<Q::Item<'w>> {
    let mut r = vec![];
    for (i, row) in world.rows().iter().enumerate() {
        if !row.alive {
            continue;
        }
        let e = Entity {
            id: i as u32,
            generation: row.generation,
        };
        if F::matches(world, e) {
            if let Some(x) = Q::fetch(world, e) {
                r.push(x);
            }
        }
    }
    r
}

pub struct Query<'w, 's, Q: WorldQuery, F: Filter = ()> {
    world: &'w World,
    _marker: PhantomData<(&'s (), Q, F)>,
}

impl<'w, 's, Q: WorldQuery, F: Filter> Query<'w, 's, Q, F> {
    pub fn iter(&self) -> std::vec::IntoIter<<Q::ReadOnly as WorldQuery>::Item<'_>> {
        unsafe { collect::<Q::ReadOnly, F>(self.world) }.into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<Q::Item<'_>> {
        unsafe { collect::<Q, F>(self.world) }.into_iter()
    }
    pub fn get(
        &self,
        e: Entity,
    ) -> Result<<Q::ReadOnly as WorldQuery>::Item<'_>, QueryEntityError> {
        if self.world.row(e).is_none() || !F::matches(self.world, e) {
            return Err(QueryEntityError);
        }
        unsafe { Q::ReadOnly::fetch(self.world, e) }.ok_or(QueryEntityError)
    }
    pub fn get_mut(&mut self, e: Entity) -> Result<Q::Item<'_>, QueryEntityError> {
        if self.world.row(e).is_none() || !F::matches(self.world, e) {
            return Err(QueryEntityError);
        }
        unsafe { Q::fetch(self.world, e) }.ok_or(QueryEntityError)
    }
    pub fn contains(&self, e: Entity) -> bool {
        self.get(e).is_ok()
    }
    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
    pub fn single(&self) -> <Q::ReadOnly as WorldQuery>::Item<'_> {
        self.get_single().unwrap()
    }
    pub fn get_single(&self) -> Result<<Q::ReadOnly as WorldQuery>::Item<'_>, QuerySingleError> {
        let mut v = self.iter();
        if v.len() != 1 {
            return Err(QuerySingleError);
        }
        Ok(v.next().unwrap())
    }
    pub fn for_each(&self, f: impl FnMut(<Q::ReadOnly as WorldQuery>::Item<'_>)) {
        self.iter().for_each(f)
    }
    pub fn for_each_mut(&mut self, f: impl FnMut(Q::Item<'_>)) {
        self.iter_mut().for_each(f)
    }
    pub fn single_mut(&mut self) -> Q::Item<'_> {
        self.get_single_mut().unwrap()
    }
    pub fn get_single_mut(&mut self) -> Result<Q::Item<'_>, QuerySingleError> {
        let mut v = self.iter_mut();
        if v.len() != 1 {
            return Err(QuerySingleError);
        }
        Ok(v.next().unwrap())
    }
    pub fn get_component<T: Component>(&self, e: Entity) -> Result<&T, QueryEntityError> {
        self.world.get::<T>(e).ok_or(QueryEntityError)
    }
}

impl<'a, 'w, 's, Q: WorldQuery, F: Filter> IntoIterator for &'a Query<'w, 's, Q, F> {
    type Item = <Q::ReadOnly as WorldQuery>::Item<'a>;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, 'w, 's, Q: WorldQuery, F: Filter> IntoIterator for &'a mut Query<'w, 's, Q, F> {
    type Item = Q::Item<'a>;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

pub trait Resource: Send + Sync + 'static {}

macro_rules! access {
    ($name: ident, $bound: path $(, $mutable: ident)?) => {
        pub struct $name<'w, T: 'static>(&'w mut T);
        impl<'w, T> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T { self.0 }
        }
        impl<'w, T> AsRef<T> for $name<'w, T> {
            fn as_ref(&self) -> &T { self.0 }
        }
        impl<'w, T: std::fmt::Debug> std::fmt::Debug for $name<'w, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
        }
        $(impl<'w, T> DerefMut for $name<'w, T> {
            fn deref_mut(&mut self) -> &mut T { let _ = stringify!($mutable); self.0 }
        })?
        impl<'w, T: $bound> SystemParam for $name<'w, T> {
            type State = ();
            type Item<'x, 's> = $name<'x, T>;
            fn init(_: &mut World) {}
            unsafe fn get<'x, 's>(_: &'s mut (), world: &'x World) -> $name<'x, T> {
                $name(world.resource_ptr::<T>().unwrap_or_else(missing::<T, _>))
            }
        }
        impl<'w, T: $bound> SystemParam for Option<$name<'w, T>> {
            type State = ();
            type Item<'x, 's> = Option<$name<'x, T>>;
            fn init(_: &mut World) {}
            unsafe fn get<'x, 's>(_: &'s mut (), world: &'x World) -> Option<$name<'x, T>> {
                world.resource_ptr::<T>().map($name)
            }
        }
    };
}
pub trait AnyStatic: 'static {}
impl<T: 'static> AnyStatic for T {}
access!(Res, Resource);
access!(ResMut, Resource, m);
access!(NonSend, AnyStatic);
access!(NonSendMut, AnyStatic, m);

pub struct Local<'s, T: 'static>(&'s mut T);
impl<'s, T> Deref for Local<'s, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'s, T> DerefMut for Local<'s, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}

type Command = Box<dyn FnOnce(&mut World)>;

#[derive(Default)]
pub struct CommandQueue(Vec<Command>);

pub struct Commands<'w, 's> {
    queue: &'s mut CommandQueue,
    world: &'w World,
}

impl<'w, 's> Commands<'w, 's> {
    pub fn spawn<'a, B: Bundle>(&'a mut self, b: B) -> EntityCommands<'w, 's, 'a> {
        let entity = self.world.reserve();
        self.queue.0.push(Box::new(move |w| b.insert_into(w, entity)));
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn spawn_empty<'a>(&'a mut self) -> EntityCommands<'w, 's, 'a> {
        self.spawn(())
    }
    pub fn spawn_batch<I>(&mut self, items: I)
    where
        I: IntoIterator + 'static,
        I::Item: Bundle,
    {
        for b in items {
            self.spawn(b);
        }
    }
    pub fn entity<'a>(&'a mut self, entity: Entity) -> EntityCommands<'w, 's, 'a> {
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.queue.0.push(Box::new(move |w| w.insert_resource(r)));
    }
    pub fn init_resource<R: Resource + Default>(&mut self) {
        self.queue.0.push(Box::new(move |w| w.init_resource::<R>()));
    }
    pub fn remove_resource<R: Resource>(&mut self) {
        self.queue.0.push(Box::new(move |w| {
            w.remove_resource::<R>();
        }));
    }
}

pub struct EntityCommands<'w, 's, 'a> {
    entity: Entity,
    commands: &'a mut Commands<'w, 's>,
}

impl<'w, 's, 'a> EntityCommands<'w, 's, 'a> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        let e = self.entity;
        self.commands
            .queue
            .0
            .push(Box::new(move |w| b.insert_into(w, e)));
        self
    }
    pub fn remove<T: Component>(&mut self) -> &mut Self {
        let e = self.entity;
        self.commands
            .queue
            .0
            .push(Box::new(move |w| w.remove_component::<T>(e)));
        self
    }
    pub fn despawn(&mut self) {
        let e = self.entity;
        self.commands.queue.0.push(Box::new(move |w| {
            w.despawn(e);
        }));
    }
    pub fn commands(&mut self) -> &mut Commands<'w, 's> {
        self.commands
    }
}

pub mod event {
    use super::*;

    pub trait Event: Send + Sync + 'static {}
    impl<T: Send + Sync + 'static> Event for T {}

    pub struct Events<E> {
        old: Vec<E>,
        new: Vec<E>,
        /// The number of the first event in `old`.
        first: usize,
    }

    impl<E: Event> Resource for Events<E> {}

    impl<E> Default for Events<E> {
        fn default() -> Self {
            Self {
                old: vec![],
                new: vec![],
                first: 0,
            }
        }
    }

    impl<E: Event> Events<E> {
        pub fn send(&mut self, e: E) {
            self.new.push(e);
        }
        pub fn update(&mut self) {
            self.first += self.old.len();
            self.old = std::mem::take(&mut self.new);
        }
        pub fn update_system(mut events: ResMut<Self>) {
            events.update();
        }
        fn end(&self) -> usize {
            self.first + self.old.len() + self.new.len()
        }
        fn since(&self, count: usize) -> impl DoubleEndedIterator<Item = &E> + ExactSizeIterator {
            let skip = count.saturating_sub(self.first);
            let v: Vec<&E> = self.old.iter().chain(self.new.iter()).skip(skip).collect();
            v.into_iter()
        }
    }

    pub struct ManualEventReader<E> {
        last: usize,
        _marker: PhantomData<E>,
    }

    impl<E> Default for ManualEventReader<E> {
        fn default() -> Self {
            Self {
                last: 0,
                _marker: PhantomData,
            }
        }
    }

    impl<E: Event> ManualEventReader<E> {
        pub fn iter<'a>(
            &mut self,
            events: &'a Events<E>,
        ) -> impl DoubleEndedIterator<Item = &'a E> + ExactSizeIterator {
            let r = events.since(self.last);
            self.last = events.end();
            r
        }
        pub fn len(&self, events: &Events<E>) -> usize {
            events.since(self.last).len()
        }
    }

    pub struct EventReader<'w, 's, E: Event> {
        pub(crate) reader: &'s mut ManualEventReader<E>,
        pub(crate) events: &'w Events<E>,
    }

    impl<'w, 's, E: Event> EventReader<'w, 's, E> {
        pub fn iter(&mut self) -> impl DoubleEndedIterator<Item = &E> + ExactSizeIterator {
            self.reader.iter(self.events)
        }
        pub fn len(&self) -> usize {
            self.reader.len(self.events)
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn clear(&mut self) {
            self.reader.last = self.events.end();
        }
    }

    pub struct EventWriter<'w, 's, E: Event> {
        pub(crate) events: &'w mut Events<E>,
        pub(crate) _marker: PhantomData<&'s ()>,
    }

    impl<'w, 's, E: Event> EventWriter<'w, 's, E> {
        pub fn send(&mut self, e: E) {
            self.events.send(e);
        }
        pub fn send_batch(&mut self, events: impl Iterator<Item = E>) {
            for e in events {
                self.send(e);
            }
        }
        pub fn send_default(&mut self)
        where
            E: Default,
        {
            self.send(E::default());
        }
    }
}
use event::{Event, EventReader, EventWriter, Events, ManualEventReader};

pub trait SystemParam: Sized {
    type State: 'static;
    type Item<'w, 's>: SystemParam<State = Self::State>;
    fn init(world: &mut World) -> Self::State;
    /// # Safety
    /// The items of one system are used together.
    unsafe fn get<'w, 's>(state: &'s mut Self::State, world: &'w World) -> Self::Item<'w, 's>;
    fn apply(_state: &mut Self::State, _world: &mut World) {}
}

impl<'a, 'b, Q: WorldQuery + 'static, F: Filter + 'static> SystemParam for Query<'a, 'b, Q, F> {
    type State = ();
    type Item<'w, 's> = Query<'w, 's, Q, F>;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), world: &'w World) -> Query<'w, 's, Q, F> {
        Query {
            world,
            _marker: PhantomData,
        }
    }
}
impl<'a, 'b> SystemParam for Commands<'a, 'b> {
    type State = CommandQueue;
    type Item<'w, 's> = Commands<'w, 's>;
    fn init(_: &mut World) -> CommandQueue {
        CommandQueue::default()
    }
    unsafe fn get<'w, 's>(queue: &'s mut CommandQueue, world: &'w World) -> Commands<'w, 's> {
        Commands { queue, world }
    }
    fn apply(queue: &mut CommandQueue, world: &mut World) {
        for c in std::mem::take(&mut queue.0) {
            c(world);
        }
    }
}
impl<'a, 'b, E: Event> SystemParam for EventReader<'a, 'b, E> {
    type State = ManualEventReader<E>;
    type Item<'w, 's> = EventReader<'w, 's, E>;
    fn init(_: &mut World) -> Self::State {
        Default::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut Self::State, world: &'w World) -> EventReader<'w, 's, E> {
        EventReader {
            reader: s,
            events: world.resource_ptr().unwrap_or_else(missing::<Events<E>, _>),
        }
    }
}
impl<'a, 'b, E: Event> SystemParam for EventWriter<'a, 'b, E> {
    type State = ();
    type Item<'w, 's> = EventWriter<'w, 's, E>;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), world: &'w World) -> EventWriter<'w, 's, E> {
        EventWriter {
            events: world.resource_ptr().unwrap_or_else(missing::<Events<E>, _>),
            _marker: PhantomData,
        }
    }
}
impl<'a, T: Default + 'static> SystemParam for Local<'a, T> {
    type State = T;
    type Item<'w, 's> = Local<'s, T>;
    fn init(_: &mut World) -> T {
        T::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut T, _: &'w World) -> Local<'s, T> {
        Local(s)
    }
}
impl<'a> SystemParam for &'a archetype::Archetypes {
    type State = ();
    type Item<'w, 's> = &'w archetype::Archetypes;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), _: &'w World) -> &'w archetype::Archetypes {
        &archetype::Archetypes
    }
}
impl<'a> SystemParam for &'a component::Components {
    type State = ();
    type Item<'w, 's> = &'w component::Components;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), _: &'w World) -> &'w component::Components {
        &component::Components
    }
}
impl<'a> SystemParam for &'a World {
    type State = ();
    type Item<'w, 's> = &'w World;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), w: &'w World) -> &'w World {
        w
    }
}

pub trait SystemParamFunction<Marker>: 'static {
    type Out;
    type State: 'static;
    fn init(world: &mut World) -> Self::State;
    unsafe fn run(&mut self, state: &mut Self::State, world: &World) -> Self::Out;
    fn apply(state: &mut Self::State, world: &mut World);
}

macro_rules! functions {
    ($($p: ident)*) => {
        #[allow(non_snake_case, unused_variables, clippy::too_many_arguments)]
        impl<Func: 'static, Out, $($p: SystemParam),*> SystemParamFunction<fn($($p,)*) -> Out> for Func
        where
            for<'a> &'a mut Func: FnMut($($p),*) -> Out + FnMut($($p::Item<'_, '_>),*) -> Out,
        {
            type Out = Out;
            type State = ($($p::State,)*);
            fn init(world: &mut World) -> Self::State { ($($p::init(world),)*) }
            unsafe fn run(&mut self, state: &mut Self::State, world: &World) -> Out {
                fn call<Out, $($p),*>(mut f: impl FnMut($($p),*) -> Out, $($p: $p),*) -> Out {
                    f($($p),*)
                }
                let ($($p,)*) = state;
                call(self, $($p::get($p, world)),*)
            }
            fn apply(state: &mut Self::State, world: &mut World) {
                let ($($p,)*) = state;
                $($p::apply($p, world);)*
            }
        }
    };
}
functions!();
functions!(P0);
functions!(P0 P1);
functions!(P0 P1 P2);
functions!(P0 P1 P2 P3);
functions!(P0 P1 P2 P3 P4);
functions!(P0 P1 P2 P3 P4 P5);
functions!(P0 P1 P2 P3 P4 P5 P6);
functions!(P0 P1 P2 P3 P4 P5 P6 P7);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 P12);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 P12 P13);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 P12 P13 P14);
functions!(P0 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 P12 P13 P14 P15);

pub trait System<Out> {
    fn run(&mut self, world: &mut World) -> Out;
    fn apply(&mut self, world: &mut World);
}

struct FunctionSystem<F, Marker, S> {
    f: F,
    state: Option<S>,
    _marker: PhantomData<Marker>,
}

impl<Marker, F: SystemParamFunction<Marker>> System<F::Out> for FunctionSystem<F, Marker, F::State> {
    fn run(&mut self, world: &mut World) -> F::Out {
        if self.state.is_none() {
            self.state = Some(F::init(world));
        }
        unsafe { self.f.run(self.state.as_mut().unwrap(), world) }
    }
    fn apply(&mut self, world: &mut World) {
        if let Some(s) = self.state.as_mut() {
            F::apply(s, world);
        }
    }
}

pub mod schedule {
    use super::*;
    pub use bevy_ecs_macros::{StageLabel, SystemLabel};

    macro_rules! label {
        ($tr: ident, $id: ident) => {
            #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
            pub struct $id(TypeId, &'static str);
            impl $id {
                pub fn new(t: TypeId, s: &'static str) -> Self {
                    Self(t, s)
                }
            }
            pub trait $tr: 'static {
                fn as_str(&self) -> &'static str;
                fn as_label(&self) -> $id;
            }
            impl $tr for $id {
                fn as_str(&self) -> &'static str {
                    self.1
                }
                fn as_label(&self) -> $id {
                    *self
                }
            }
        };
    }
    label!(StageLabel, StageLabelId);
    label!(SystemLabel, SystemLabelId);

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum ShouldRun {
        Yes,
        No,
        YesAndCheckAgain,
        NoAndCheckAgain,
    }

    impl ShouldRun {
        pub fn once(mut ran: Local<bool>) -> ShouldRun {
            if *ran {
                ShouldRun::No
            } else {
                *ran = true;
                ShouldRun::Yes
            }
        }
    }

    pub struct ReportExecutionOrderAmbiguities;
    impl Resource for ReportExecutionOrderAmbiguities {}

    pub trait StateData: 'static {}
    impl<T: 'static> StateData for T {}

    pub type RunCriteria = Box<dyn System<ShouldRun>>;

    pub struct SystemDescriptor {
        pub(crate) system: Box<dyn System<()>>,
        pub(crate) name: &'static str,
        pub(crate) labels: Vec<SystemLabelId>,
        pub(crate) before: Vec<SystemLabelId>,
        pub(crate) after: Vec<SystemLabelId>,
        pub(crate) criteria: Option<RunCriteria>,
    }

    impl SystemDescriptor {
        pub fn name(&self) -> &'static str {
            self.name
        }
    }

    pub struct FnMarker;

    pub trait IntoRunCriteria<Marker> {
        fn into_criteria(self) -> RunCriteria;
    }
    impl<Marker: 'static, F: SystemParamFunction<Marker, Out = ShouldRun>> IntoRunCriteria<Marker> for F {
        fn into_criteria(self) -> RunCriteria {
            Box::new(FunctionSystem {
                f: self,
                state: None,
                _marker: PhantomData::<Marker>,
            })
        }
    }

    pub trait IntoSystemDescriptor<Params>: Sized {
        fn into_descriptor(self) -> SystemDescriptor;
        fn after<M>(self, label: impl AsSystemLabel<M>) -> SystemDescriptor {
            let mut d = self.into_descriptor();
            d.after.push(label.as_system_label());
            d
        }
        fn before<M>(self, label: impl AsSystemLabel<M>) -> SystemDescriptor {
            let mut d = self.into_descriptor();
            d.before.push(label.as_system_label());
            d
        }
        fn label(self, label: impl SystemLabel) -> SystemDescriptor {
            let mut d = self.into_descriptor();
            d.labels.push(label.as_label());
            d
        }
        fn with_run_criteria<M>(self, c: impl IntoRunCriteria<M>) -> SystemDescriptor {
            let mut d = self.into_descriptor();
            d.criteria = Some(c.into_criteria());
            d
        }
        fn ambiguous_with<M>(self, _: impl AsSystemLabel<M>) -> SystemDescriptor {
            self.into_descriptor()
        }
        fn ignore_all_ambiguities(self) -> SystemDescriptor {
            self.into_descriptor()
        }
        fn at_start(self) -> SystemDescriptor {
            self.into_descriptor()
        }
        fn at_end(self) -> SystemDescriptor {
            self.into_descriptor()
        }
    }

    impl IntoSystemDescriptor<()> for SystemDescriptor {
        fn into_descriptor(self) -> SystemDescriptor {
            self
        }
    }
    impl<Marker: 'static, F: SystemParamFunction<Marker, Out = ()>> IntoSystemDescriptor<(FnMarker, Marker)>
        for F
    {
        fn into_descriptor(self) -> SystemDescriptor {
            SystemDescriptor {
                labels: vec![SystemLabelId::new(
                    TypeId::of::<F>(),
                    std::any::type_name::<F>(),
                )],
                name: std::any::type_name::<F>(),
                system: Box::new(FunctionSystem {
                    f: self,
                    state: None,
                    _marker: PhantomData::<Marker>,
                }),
                before: vec![],
                after: vec![],
                criteria: None,
            }
        }
    }

    pub trait AsSystemLabel<Marker> {
        fn as_system_label(&self) -> SystemLabelId;
    }
    impl<L: SystemLabel> AsSystemLabel<()> for L {
        fn as_system_label(&self) -> SystemLabelId {
            self.as_label()
        }
    }
    impl<Marker, F: SystemParamFunction<Marker>> AsSystemLabel<(FnMarker, Marker)> for F {
        fn as_system_label(&self) -> SystemLabelId {
            SystemLabelId::new(TypeId::of::<F>(), std::any::type_name::<F>())
        }
    }

    pub trait Stage: Any {
        fn run(&mut self, world: &mut World);
        fn as_any(&mut self) -> &mut dyn Any;
    }

    #[derive(Default)]
    pub struct SystemStage {
        systems: Vec<SystemDescriptor>,
        sorted: bool,
    }

    thread_local! {
        static ORDER: std::cell::RefCell<Option<Box<dyn FnMut(usize) -> usize>>> = Default::default();
    }

    /// Decides which of a number of systems, none of which has to wait for another, is next.
    pub fn set_order_chooser(f: Option<Box<dyn FnMut(usize) -> usize>>) {
        ORDER.with(|o| *o.borrow_mut() = f);
    }

    fn choose_order(n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ORDER.with(|o| o.borrow_mut().as_mut().map(|f| f(n)).unwrap_or(0))
    }

    impl SystemStage {
        pub fn single_threaded() -> Self {
            Self::default()
        }
        pub fn parallel() -> Self {
            Self::default()
        }
        pub fn single<P>(s: impl IntoSystemDescriptor<P>) -> Self {
            Self::default().with_system(s)
        }
        pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
            self.add_system(s);
            self
        }
        pub fn add_system<P>(&mut self, s: impl IntoSystemDescriptor<P>) -> &mut Self {
            self.systems.push(s.into_descriptor());
            self.sorted = false;
            self
        }
        pub fn add_system_set(&mut self, set: SystemSet) -> &mut Self {
            for s in set.systems {
                self.add_system(s);
            }
            self
        }

        fn sort(&mut self) {
            let n = self.systems.len();
            let mut deps = vec![vec![]; n];
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let (a, b) = (&self.systems[i], &self.systems[j]);
                    if a.after.iter().any(|l| b.labels.contains(l))
                        || b.before.iter().any(|l| a.labels.contains(l))
                    {
                        deps[i].push(j);
                    }
                }
            }
            fn visit(i: usize, deps: &[Vec<usize>], state: &mut [u8], order: &mut Vec<usize>) {
                if state[i] == 2 {
                    return;
                }
                assert!(state[i] == 0, "Found a dependency cycle in systems");
                state[i] = 1;
                for d in &deps[i] {
                    visit(*d, deps, state, order);
                }
                state[i] = 2;
                order.push(i);
            }
            let mut state = vec![0; n];
            let mut order = vec![];
            for i in 0..n {
                visit(i, &deps, &mut state, &mut order);
            }
            // The harness may ask for another of the orders that the constraints allow.
            let mut left = order;
            let mut order = vec![];
            while !left.is_empty() {
                let ready: Vec<usize> = (0..left.len())
                    .filter(|i| deps[left[*i]].iter().all(|d| order.contains(d)))
                    .collect();
                let pick = choose_order(ready.len());
                order.push(left.remove(ready[pick]));
            }
            let mut slots: Vec<Option<SystemDescriptor>> =
                self.systems.drain(..).map(Some).collect();
            self.systems = order.iter().map(|i| slots[*i].take().unwrap()).collect();
            self.sorted = true;
        }
    }

    impl Stage for SystemStage {
        fn run(&mut self, world: &mut World) {
            if !self.sorted {
                self.sort();
            }
            let should: Vec<bool> = self
                .systems
                .iter_mut()
                .map(|s| match s.criteria.as_mut() {
                    Some(c) => matches!(c.run(world), ShouldRun::Yes | ShouldRun::YesAndCheckAgain),
                    None => true,
                })
                .collect();
            for (s, should) in self.systems.iter_mut().zip(&should) {
                if *should {
                    s.system.run(world);
                }
            }
            for s in self.systems.iter_mut() {
                s.system.apply(world);
            }
        }
        fn as_any(&mut self) -> &mut dyn Any {
            self
        }
    }

    #[derive(Default)]
    pub struct SystemSet {
        pub(crate) systems: Vec<SystemDescriptor>,
    }
    impl SystemSet {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
            self.systems.push(s.into_descriptor());
            self
        }
        pub fn label(mut self, label: impl SystemLabel) -> Self {
            for s in self.systems.iter_mut() {
                s.labels.push(label.as_label());
            }
            self
        }
        pub fn after<M>(mut self, label: impl AsSystemLabel<M>) -> Self {
            for s in self.systems.iter_mut() {
                s.after.push(label.as_system_label());
            }
            self
        }
        pub fn before<M>(mut self, label: impl AsSystemLabel<M>) -> Self {
            for s in self.systems.iter_mut() {
                s.before.push(label.as_system_label());
            }
            self
        }
    }

    #[derive(Default)]
    pub struct Schedule {
        stages: Vec<(StageLabelId, Box<dyn Stage>)>,
        criteria: Option<RunCriteria>,
    }

    impl Schedule {
        pub fn with_run_criteria<M>(mut self, c: impl IntoRunCriteria<M>) -> Self {
            self.criteria = Some(c.into_criteria());
            self
        }
        pub fn with_stage<S: Stage>(mut self, label: impl StageLabel, stage: S) -> Self {
            self.add_stage(label, stage);
            self
        }
        pub fn add_stage<S: Stage>(&mut self, label: impl StageLabel, stage: S) -> &mut Self {
            let label = label.as_label();
            assert!(
                self.stages.iter().all(|s| s.0 != label),
                "Stage already exists: {}.",
                label.as_str()
            );
            self.stages.push((label, Box::new(stage)));
            self
        }
        pub fn add_stage_after<S: Stage>(
            &mut self,
            target: impl StageLabel,
            label: impl StageLabel,
            stage: S,
        ) -> &mut Self {
            let i = self.position(target.as_label());
            self.stages.insert(i + 1, (label.as_label(), Box::new(stage)));
            self
        }
        pub fn add_stage_before<S: Stage>(
            &mut self,
            target: impl StageLabel,
            label: impl StageLabel,
            stage: S,
        ) -> &mut Self {
            let i = self.position(target.as_label());
            self.stages.insert(i, (label.as_label(), Box::new(stage)));
            self
        }
        fn position(&self, label: StageLabelId) -> usize {
            self.stages
                .iter()
                .position(|s| s.0 == label)
                .unwrap_or_else(|| panic!("Stage '{}' does not exist", label.as_str()))
        }
        pub fn stage<T: Stage, F: FnOnce(&mut T) -> &mut T>(
            &mut self,
            label: impl StageLabel,
            f: F,
        ) -> &mut Self {
            let i = self.position(label.as_label());
            f(self.stages[i].1.as_any().downcast_mut::<T>().unwrap());
            self
        }
        pub fn add_system_to_stage<P>(
            &mut self,
            label: impl StageLabel,
            s: impl IntoSystemDescriptor<P>,
        ) -> &mut Self {
            self.stage(label, |stage: &mut SystemStage| stage.add_system(s))
        }
        pub fn add_system_set_to_stage(
            &mut self,
            label: impl StageLabel,
            s: SystemSet,
        ) -> &mut Self {
            self.stage(label, |stage: &mut SystemStage| stage.add_system_set(s))
        }
        pub fn run_once(&mut self, world: &mut World) {
            for (_, s) in self.stages.iter_mut() {
                s.run(world);
            }
        }
    }

    impl Stage for Schedule {
        fn run(&mut self, world: &mut World) {
            if let Some(c) = self.criteria.as_mut() {
                if !matches!(c.run(world), ShouldRun::Yes | ShouldRun::YesAndCheckAgain) {
                    return;
                }
            }
            self.run_once(world);
        }
        fn as_any(&mut self) -> &mut dyn Any {
            self
        }
    }
}

pub mod system {
    pub use crate::schedule::AsSystemLabel;
    pub use crate::{
        Commands, EntityCommands, Local, NonSend, NonSendMut, Query, Res, ResMut, Resource,
        SystemParam, SystemParamFunction,
    };
    pub use bevy_ecs_macros::Resource;
}

pub mod prelude {
    pub use crate::bundle::Bundle;
    pub use crate::component::Component;
    pub use crate::entity::Entity;
    pub use crate::event::{EventReader, EventWriter, Events};
    pub use crate::query::{With, Without};
    pub use crate::schedule::{
        IntoSystemDescriptor, Schedule, Stage, StageLabel, SystemLabel, SystemSet,
        SystemStage,
    };
    pub use crate::system::Resource;
    pub use crate::{
        Commands, Local, Mut, NonSend, NonSendMut, Query, Res, ResMut, World,
    };
}
