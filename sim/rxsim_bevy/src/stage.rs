//! An app, and the points of its frames where the world of a run may act.
pub use crate::common::*;
pub use bevy_app::prelude::*;
pub use bevy_app::MainScheduleOrder;
pub use bevy_ecs::prelude::{Commands, Component, Entity, IntoScheduleConfigs, On, Resource};
pub use bevy_ecs::schedule::ScheduleLabel;
pub use bevy_ecs::system::SystemState;
pub use bevy_ecs::world::World as Ecs;
pub use bevy_time::prelude::*;
pub use rx_bevy::prelude::*;

pub const REAL_BEVY: &str = "every rx_core and rx_bevy crate under /repo/crates that the app pulls in, compiled from unmodified sources, on the \
	real bevy_app, bevy_ecs, bevy_time and bevy_input";
pub const STUB_BEVY: &str = "std::sync::{Mutex, RwLock, atomic} of the crates under test replaced by simulated equivalents, HashMap hash seeds drawn \
	from the run seed, virtual time is advanced by the simulator, systems run on one thread, no window, no renderer; sources and observers are \
	harness code";

/// Where in a frame something happens
#[derive(ScheduleLabel, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Point(pub u32);

pub const POINTS: u32 = 6;
/// The one nothing of the frame comes after
pub const AFTER_LAST: u32 = 5;

pub type Acting = Arc<dyn Fn(&mut Ecs, u32) + Send + Sync>;

#[derive(Resource, Clone)]
struct Script(Acting);

fn act_at<const N: u32>(world: &mut Ecs) {
	let script = world.resource::<Script>().0.clone();
	ev!("-- point {N}");
	script(world, N);
}

/// An app without anything of the library yet
pub fn stage(script: Acting) -> App {
	let mut app = App::new();
	app.init_resource::<Time<Virtual>>();
	app.init_resource::<Time<Real>>();
	app.insert_resource(Script(script));
	let mut order = app.world_mut().resource_mut::<MainScheduleOrder>();
	order.insert_before(First, Point(0));
	order.insert_after(First, Point(1));
	order.insert_after(PreUpdate, Point(2));
	order.insert_after(Update, Point(3));
	order.insert_after(PostUpdate, Point(4));
	order.insert_after(Last, Point(5));
	app.add_systems(Point(0), act_at::<0>);
	app.add_systems(Point(1), act_at::<1>);
	app.add_systems(Point(2), act_at::<2>);
	app.add_systems(Point(3), act_at::<3>);
	app.add_systems(Point(4), act_at::<4>);
	app.add_systems(Point(5), act_at::<5>);
	app
}

pub type BevyHandle = SchedulerHandle<RxBevyScheduler>;

pub fn handle_of<S: ScheduleLabel, C: Clock>(world: &mut Ecs) -> BevyHandle {
	SystemState::<RxSchedule<S, C>>::new(world).get_mut(world).handle()
}

/// Which of the schedules an executor runs in
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum When {
	PreUpdate,
	Update,
	PostUpdate,
	Last,
}

impl When {
	pub fn draw() -> When {
		pick(&[When::Update, When::Update, When::PreUpdate, When::PostUpdate, When::Last])
	}
	pub fn handle(self, world: &mut Ecs) -> BevyHandle {
		match self {
			When::PreUpdate => handle_of::<PreUpdate, Virtual>(world),
			When::Update => handle_of::<Update, Virtual>(world),
			When::PostUpdate => handle_of::<PostUpdate, Virtual>(world),
			When::Last => handle_of::<Last, Virtual>(world),
		}
	}
	/// Nothing of the run was left behind in it
	pub fn is_empty(self, world: &Ecs) -> bool {
		match self {
			When::PreUpdate => world.resource::<RxBevyExecutor<PreUpdate, Virtual>>().is_empty(),
			When::Update => world.resource::<RxBevyExecutor<Update, Virtual>>().is_empty(),
			When::PostUpdate => world.resource::<RxBevyExecutor<PostUpdate, Virtual>>().is_empty(),
			When::Last => world.resource::<RxBevyExecutor<Last, Virtual>>().is_empty(),
		}
	}
	/// The last point of the frame before it
	pub fn after_point(self) -> u32 {
		match self {
			When::PreUpdate => 1,
			When::Update => 2,
			When::PostUpdate => 3,
			When::Last => 4,
		}
	}
}

pub const ALL_WHEN: [When; 4] = [When::PreUpdate, When::Update, When::PostUpdate, When::Last];

pub fn add_schedulers(app: &mut App) {
	app.add_plugins((
		RxSchedulerPlugin::<PreUpdate, Virtual>::default(),
		RxSchedulerPlugin::<Update, Virtual>::default(),
		RxSchedulerPlugin::<PostUpdate, Virtual>::default(),
	));
}
