//! Observables of any shape, out of everything the library has to offer.
use crate::adsr::Envelope;
use crate::combine;
use crate::common::*;
use crate::flatten::{self, Form};
use crate::pipes;
use rx_core_macro_subscriber_derive::RxSubscriber;

#[derive(Clone)]
pub enum Hot {
	Publish(PublishSubject<V, E>),
	Behavior(BehaviorSubject<V, E>),
	Replay(ReplaySubject<2, V, E>),
}

impl Hot {
	fn draw() -> Hot {
		match weighted(&[3, 1, 1]) {
			0 => Hot::Publish(PublishSubject::default()),
			1 => Hot::Behavior(BehaviorSubject::new(-5)),
			_ => Hot::Replay(ReplaySubject::default()),
		}
	}
	fn name(&self) -> &'static str {
		match self {
			Hot::Publish(_) => "publish",
			Hot::Behavior(_) => "behavior",
			Hot::Replay(_) => "replay",
		}
	}
	pub fn send(&self, sig: Sig) {
		macro_rules! send {
			($subject:expr) => {{
				let mut subject = $subject.clone();
				match sig {
					Sig::Next(v) => subject.next(v),
					Sig::Error(e) => subject.error(e),
					Sig::Complete => subject.complete(),
					Sig::Unsub => subject.unsubscribe(),
				}
			}};
		}
		match self {
			Hot::Publish(s) => send!(s),
			Hot::Behavior(s) => send!(s),
			Hot::Replay(s) => send!(s),
		}
	}
	fn observable(&self) -> Dyn {
		match self {
			Hot::Publish(s) => Dyn::new(s.clone()),
			Hot::Behavior(s) => Dyn::new(s.clone()),
			Hot::Replay(s) => Dyn::new(s.clone()),
		}
	}
}

/// Passes everything on, and remembers what of it must not have happened
#[derive(RxSubscriber)]
#[rx_in(V)]
#[rx_in_error(E)]
#[rx_delegate_teardown_collection]
struct Spy {
	#[destination]
	destination: ErasedSubscriber<V, E>,
	name: Arc<str>,
	ended: Option<Sig>,
	strict: bool,
	/// Set while the subscription isn't handed out yet
	subscribing: Arc<AtomicBool>,
	lost: Arc<AtomicBool>,
	outlived: Arc<AtomicBool>,
}

impl Spy {
	/// Whether something stays open downstream although what's here has ended
	fn outlived(&self) {
		if !self.destination.is_closed() {
			self.outlived.store(true, Ordering::Relaxed);
			if self.subscribing.load(Ordering::Relaxed) {
				self.lost.store(true, Ordering::Relaxed);
			}
		}
	}

	fn saw(&mut self, sig: Sig) {
		ev!("{} <- {sig:?}", self.name);
		if let Some(end) = &self.ended
			&& self.strict
		{
			violation(
				format!("{}-after-{} of {}", sig.kind_name(), end.kind_name(), self.name.split(['#', ' ', '(']).next().unwrap_or_default()),
				format!("{} sent {sig:?} although it had already sent {end:?}", self.name),
			);
		}
		if sig.is_terminal() && self.ended.is_none() {
			self.ended = Some(sig);
		}
	}
}

impl rx_core_common::RxObserver for Spy {
	fn next(&mut self, next: V) {
		self.saw(Sig::Next(next));
		self.destination.next(next);
	}
	fn error(&mut self, error: E) {
		self.saw(Sig::Error(error));
		self.destination.error(error);
		if !self.destination.is_closed() {
			self.lost.store(true, Ordering::Relaxed);
		}
	}
	fn complete(&mut self) {
		self.saw(Sig::Complete);
		self.destination.complete();
		self.outlived();
	}
}

impl SubscriptionLike for Spy {
	fn is_closed(&self) -> bool {
		self.destination.is_closed()
	}
	fn unsubscribe(&mut self) {
		ev!("{} <- unsubscribe", self.name);
		self.destination.unsubscribe();
	}
}

pub struct Forest {
	pub hot: Vec<Hot>,
	pub handle: Handle,
	pub tracks: Vec<(Arc<str>, Track)>,
	pub nodes: u32,
	/// Has stages that put off being unsubscribed
	pub postpones: bool,
	/// Has stages using the scheduler
	pub timed: bool,
	/// Where callbacks of users may panic
	pub fuse: Fuse,
	/// Something failed and was caught, or was over by the time it was subscribed
	/// to. The subscription to that can be of no use, whatever lives on downstream
	/// is out of reach.
	lost: Arc<AtomicBool>,
	/// Has stages that report to be closed while what's downstream isn't
	loose: bool,
	/// Something stayed open downstream although what's upstream has ended
	outlived: Arc<AtomicBool>,
	strict: bool,
}

/// Panics in the nth call of a callback
#[derive(Clone, Default)]
pub struct Fuse {
	left: Arc<AtomicUsize>,
	pub blown: Arc<AtomicUsize>,
}

impl Fuse {
	pub fn set(&self, nth: usize) {
		self.left.store(nth, Ordering::Relaxed);
	}
	/// Called from every callback of a user
	pub fn burn(&self) {
		let left = self.left.load(Ordering::Relaxed);
		if left == 0 {
			return;
		}
		self.left.store(left - 1, Ordering::Relaxed);
		if left == 1 {
			self.blown.fetch_add(1, Ordering::Relaxed);
			injected_panic();
		}
	}
}

/// What is listed is locked while it's being subscribed to, it can't be
/// subscribed to from within
fn listed(a: Dyn, b: Dyn, list: impl Fn(&[Dyn]) -> Dyn) -> Dyn {
	let busy = Arc::new(AtomicUsize::new(0));
	let inputs = [a, b].map(|input| {
		let busy = busy.clone();
		Dyn::custom(move |destination| {
			busy.fetch_add(1, Ordering::Relaxed);
			let subscription = ErasedSubscription::new(input.clone().subscribe(destination));
			busy.fetch_sub(1, Ordering::Relaxed);
			subscription
		})
	});
	let list = list(&inputs);
	let refuse = Dyn::make(|| closed().map_never_both());
	Dyn::custom(move |destination| {
		if busy.load(Ordering::Relaxed) > 0 {
			count("probe:refused_from_within");
			return ErasedSubscription::new(refuse.clone().subscribe(destination));
		}
		ErasedSubscription::new(list.clone().subscribe(destination))
	})
}

const DURATIONS: [u64; 5] = [10, 0, 5, 20, 30];

impl Forest {
	pub fn new(handle: &Handle, strict: bool) -> Forest {
		Forest {
			hot: (0..draw_range(1, 3)).map(|_| Hot::draw()).collect(),
			handle: handle.clone(),
			tracks: vec![],
			nodes: 0,
			postpones: false,
			timed: false,
			fuse: Fuse::default(),
			lost: Arc::default(),
			outlived: Arc::default(),
			loose: false,
			strict,
		}
	}

	/// Whether everything must be released once it's unsubscribed
	pub fn in_reach(&self) -> bool {
		!self.lost.load(Ordering::Relaxed) && !((self.timed || self.loose) && self.outlived.load(Ordering::Relaxed))
	}

	/// What can be seen where the given observable ends
	fn node(&mut self, name: String, source: Dyn) -> Dyn {
		let name: Arc<str> = format!("{}#{}", name, self.nodes).into();
		self.nodes += 1;
		ev!("made {name}");
		let track = Track::new(self.tracks.len() as u32);
		self.tracks.push((name.clone(), track.clone()));
		let strict = self.strict;
		let (lost, outlived) = (self.lost.clone(), self.outlived.clone());
		Dyn::custom(move |destination| {
			ev!("{name} subscribed");
			let mut source = source.clone();
			let subscribing = Arc::new(AtomicBool::new(true));
			let spy = Spy { destination, name: name.clone(), ended: None, strict, subscribing: subscribing.clone(), lost: lost.clone(), outlived: outlived.clone() };
			let subscription = ErasedSubscription::new(source.subscribe(spy));
			subscribing.store(false, Ordering::Relaxed);
			subscription
		})
		.tracked(&track)
	}

	pub fn leaf(&mut self) -> Dyn {
		let handle = self.handle.clone();
		let fuse = self.fuse.clone();
		let kind = weighted(&[12, 4, 2, 1, 1, 1, 1, 1, 2, 1, 2, 1]);
		self.timed |= (8..=10).contains(&kind);
		match kind {
			0 => {
				let at = draw(self.hot.len() as u32) as usize;
				let hot = self.hot[at].clone();
				self.node(format!("{}{at}", hot.name()), hot.observable())
			}
			1 => {
				let vs: Vec<V> = (0..draw(4)).map(|_| draw(90) as V).collect();
				let end = match weighted(&[4, 2, 1, 1]) {
					0 => Some(Sig::Complete),
					1 => Some(Sig::Error(draw(9) as E)),
					2 => Some(Sig::Unsub),
					_ => None,
				};
				let name = format!("cold {vs:?} {end:?}");
				let source = Dyn::make(move || {
					let (vs, end, fuse) = (vs.clone(), end.clone(), fuse.clone());
					create_observable(move |destination: &mut dyn Subscriber<In = V, InError = E>| {
						fuse.burn();
						for v in vs {
							if destination.is_closed() {
								return;
							}
							destination.next(v);
						}
						if destination.is_closed() {
							return;
						}
						match end {
							Some(Sig::Error(e)) => destination.error(e),
							Some(Sig::Complete) => destination.complete(),
							Some(_) => destination.unsubscribe(),
							None => {}
						}
					})
				});
				self.node(name, source)
			}
			2 => {
				let vs: Vec<V> = (0..draw(4)).map(|_| draw(90) as V).collect();
				self.node(format!("{vs:?}"), Dyn::make(move || vs.clone().into_observable().map_never()))
			}
			3 => self.node("just".into(), Dyn::make(|| just(41).map_never())),
			4 => self.node("empty".into(), Dyn::make(|| empty().map_never_both())),
			5 => self.node("throw".into(), Dyn::make(|| throw(8).map_never())),
			6 => self.node("never".into(), Dyn::make(|| never().map_never_both())),
			7 => self.node("closed".into(), Dyn::make(|| closed().map_never_both())),
			8 => {
				let (every, start, max) = (pick(&[10, 3, 25]), chance(1, 2), pick(&[10, 1, 2]));
				let source = Dyn::make(move || {
					interval(
						IntervalObservableOptions { duration: ms(every), start_on_subscribe: start, max_emissions_per_tick: max },
						handle.clone(),
					)
					.map(|n| n as V)
					.map_never()
				});
				self.node(format!("interval {every} {start} {max}"), source)
			}
			9 => {
				let d = pick(&DURATIONS);
				self.node(format!("timer {d}"), Dyn::make(move || timer(ms(d), handle.clone()).map(|_| 7).map_never()))
			}
			10 => {
				let items: Vec<V> = (0..draw(4)).map(|_| draw(90) as V).collect();
				let (nth, start) = (pick(&[1, 2, 3, 0]), chance(1, 2));
				let name = format!("every {nth} ticks {start} {items:?}");
				let source = Dyn::make(move || {
					items
						.clone()
						.into_observable_on_every_nth_tick(
							OnTickObservableOptions { start_on_subscribe: start, emit_at_every_nth_tick: nth },
							handle.clone(),
						)
						.map_never()
				});
				self.node(name, source)
			}
			_ => {
				let inner = self.leaf();
				let source = Dyn::make(move || {
					let (inner, fuse) = (inner.clone(), fuse.clone());
					deferred_observable(move || {
						fuse.burn();
						inner.clone()
					})
				});
				self.node("deferred".into(), source)
			}
		}
	}

	pub fn tree(&mut self, depth: u32) -> Dyn {
		if depth == 0 || self.nodes > 10 {
			return self.leaf();
		}
		match weighted(&[3, 6, 5, 3, 4, 3]) {
			0 => self.leaf(),
			1 => self.plain(depth),
			2 => self.timed(depth),
			3 => self.repeated(depth),
			4 => self.combined(depth),
			_ => self.flattened(depth),
		}
	}

	fn plain(&mut self, depth: u32) -> Dyn {
		let source = self.tree(depth - 1);
		let fuse = self.fuse.clone();
		if chance(1, 3) {
			let source = Dyn::make(move || {
				let fuse = fuse.clone();
				source.clone().map(move |v| {
					fuse.burn();
					v + 1
				})
			});
			return self.node("map".into(), source);
		}
		let stage = pipes::Stage::draw(self.nodes, 0);
		let built = stage.build(source, &pipes::Taps::default());
		self.node(format!("{:?}", stage.op), built)
	}

	fn timed(&mut self, depth: u32) -> Dyn {
		let source = self.tree(depth - 1);
		let handle = self.handle.clone();
		let fuse = self.fuse.clone();
		self.timed = true;
		let d = pick(&DURATIONS);
		let kind = draw(7);
		self.postpones |= !matches!(kind, 2 | 5 | 6);
		match kind {
			0 => self.node(format!("delay {d}"), Dyn::make(move || source.clone().delay(ms(d), handle.clone()))),
			1 => self.node("observe_on".into(), Dyn::make(move || source.clone().observe_on(handle.clone()))),
			2 => self.node(
				format!("subscribe_on {d}"),
				Dyn::make(move || source.clone().subscribe_on_with_delay(ms(d), handle.clone())),
			),
			3 => self.node(
				format!("debounce {d}"),
				Dyn::make(move || source.clone().debounce_time(ms(d), handle.clone())),
			),
			4 => {
				let output = pick(&[
					ThrottleOutputBehavior::LeadingAndTrailing,
					ThrottleOutputBehavior::LeadingOnly,
					ThrottleOutputBehavior::TrailingOnly,
				]);
				self.node(
					format!("throttle {d} {output:?}"),
					Dyn::make(move || {
						source.clone().throttle_time(ThrottleTimeOptions::new(ms(d)).with_output(output), handle.clone())
					}),
				)
			}
			5 => self.node(
				"fallback".into(),
				Dyn::make(move || {
					let fuse = fuse.clone();
					source.clone().fallback_when_silent(
						move |_, _, index| {
							fuse.burn();
							-(index as V) - 1
						},
						handle.clone(),
					)
				}),
			),
			_ => {
				let config = Envelope { attack: d, decay: 10, release: 5, sustain: 0.5, quadratic: false };
				let options = AdsrOperatorOptions {
					always_emit_none: chance(1, 3),
					reset_input_on_tick: chance(1, 3),
					envelope: config.real(),
				};
				self.node(
					"adsr".into(),
					Dyn::make(move || {
						source
							.clone()
							.map(|v| AdsrTrigger::from(v % 2 == 0))
							.adsr(options.clone(), handle.clone())
							.map(|signal| (signal.value * 100.0) as V)
					}),
				)
			}
		}
	}

	/// Subscribes to something else once its source failed, or to its source
	/// once for everyone
	fn repeated(&mut self, depth: u32) -> Dyn {
		let source = self.tree(depth - 1);
		let kind = draw(3);
		match kind {
			0 => {
				let n = draw(3) as usize;
				// Every subscriber retries on its own
				self.node(format!("retry {n}"), Dyn::make(move || source.clone().retry(n)))
			}
			1 => {
				let other = self.tree(depth - 1);
				let fuse = self.fuse.clone();
				self.node(
					"catch".into(),
					Dyn::make(move || {
						let (other, fuse) = (other.clone(), fuse.clone());
						source.clone().catch(move |_| {
							fuse.burn();
							other
						})
					}),
				)
			}
			_ => {
				let (on_disconnect, on_complete, on_error) = (chance(1, 3), chance(1, 3), chance(1, 3));
				macro_rules! shared {
					($subject:ty) => {
						Dyn::new(source.share(ConnectableOptions {
							connector_provider: ProvideWithDefault::<$subject>::default(),
							disconnect_when_ref_count_zero: true,
							reset_connector_on_disconnect: on_disconnect,
							reset_connector_on_complete: on_complete,
							reset_connector_on_error: on_error,
						}))
					};
				}
				let shared = match draw(2) {
					0 => shared!(PublishSubject<V, E>),
					_ => shared!(ReplaySubject<2, V, E>),
				};
				self.node("share".into(), shared)
			}
		}
	}

	fn combined(&mut self, depth: u32) -> Dyn {
		let a = self.tree(depth - 1);
		let b = self.tree(depth - 1);
		if chance(1, 3) {
			let kind = flatten::Kind::draw();
			let list = listed(a, b, |inputs| kind.list(inputs));
			return self.node(format!("{kind:?} of two"), list);
		}
		let kind = combine::Kind::draw();
		self.loose |= matches!(kind, combine::Kind::WithLatestFrom);
		self.node(format!("{kind:?}"), combine::combine(kind, a, b))
	}

	fn flattened(&mut self, depth: u32) -> Dyn {
		let outer = self.tree(depth - 1);
		let inners: Vec<Dyn> = (0..draw_range(1, 2)).map(|_| self.tree(depth - 1)).collect();
		let kind = flatten::Kind::draw();
		let form = pick(&[Form::Map, Form::All]);
		let fuse = self.fuse.clone();
		let built = kind.build(form, outer, move |v| {
			fuse.burn();
			inners[v.rem_euclid(inners.len() as V) as usize].clone()
		});
		self.node(format!("{kind:?} {form:?}"), built)
	}
}
