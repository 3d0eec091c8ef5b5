//! R14: the envelope of adsr, tick by tick.
use crate::common::*;

#[derive(Clone, Copy, Debug)]
pub struct Envelope {
	pub attack: u64,
	pub decay: u64,
	pub release: u64,
	pub sustain: f32,
	/// Instead of linear
	pub quadratic: bool,
}

impl Envelope {
	pub fn real(&self) -> AdsrEnvelope {
		let easing = self.quadratic.then_some(bevy_math::curve::EaseFunction::QuadraticIn);
		AdsrEnvelope {
			attack_time: ms(self.attack),
			attack_easing: easing,
			decay_time: ms(self.decay),
			decay_easing: easing,
			sustain_volume: self.sustain,
			release_time: ms(self.release),
			release_easing: easing,
		}
	}

	fn ease(&self, from: f32, to: f32, at: u64, length: u64) -> f32 {
		let x = if length == 0 { 1.0 } else { (at as f32 / length as f32).min(1.0) };
		let x = if self.quadratic { x * x } else { x };
		from + (to - from) * x
	}
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum Phase {
	None,
	Attack,
	Decay,
	Sustain,
	Release,
}

#[derive(Clone, Copy, Debug)]
struct Out {
	phase: Phase,
	t: u64,
	value: f32,
	started: bool,
	stopped: bool,
	restarted: bool,
	fired: bool,
	released: bool,
}

/// What the envelope does, from one tick to the next
struct Reference {
	envelope: Envelope,
	input: bool,
	previous_input: bool,
	now: u64,
	/// How long it's been active for, while it is
	active: Option<u64>,
	/// When was it released since it's active, and how loud was it
	released: Option<(u64, f32)>,
	last: Out,
}

impl Reference {
	fn tick(&mut self, now: u64) -> Out {
		let delta = now - self.now;
		self.now = now;
		let rising = self.input && !self.previous_input;
		let falling = !self.input && self.previous_input;
		self.previous_input = self.input;
		if rising {
			if self.last.phase == Phase::Release {
				count("probe:restarted");
			}
			self.active = Some(0);
			self.released = None;
		} else {
			if falling {
				self.released = Some((self.active.unwrap_or(0), self.last.value));
			}
			self.active = self.active.map(|t| t + delta);
		}
		let e = self.envelope;
		let (phase, value) = match (self.active, self.released) {
			(None, _) => (Phase::None, 0.0),
			(Some(t), Some((at, from))) if t < at + e.release => (Phase::Release, e.ease(from, 0.0, t - at, e.release)),
			(_, Some(_)) => (Phase::None, 0.0),
			(Some(t), None) if t < e.attack => (Phase::Attack, e.ease(0.0, 1.0, t, e.attack)),
			(Some(t), None) if t < e.attack + e.decay => {
				(Phase::Decay, e.ease(1.0, e.sustain, t - e.attack, e.decay))
			}
			_ => (Phase::Sustain, e.sustain),
		};
		if phase == Phase::None {
			self.active = None;
			self.released = None;
		}
		let (from, to) = (self.last.phase, phase);
		let out = Out {
			phase,
			t: self.active.unwrap_or(0),
			value,
			started: from == Phase::None && to != Phase::None,
			stopped: from != to && to < from,
			restarted: to < from && to != Phase::None,
			fired: to >= Phase::Decay && from < Phase::Decay,
			released: to == Phase::Release && from < Phase::Release,
		};
		self.last = out;
		out
	}
}

#[derive(Clone, Copy, Debug)]
enum Act {
	Trigger(bool),
	Complete,
	Error(E),
	Unsubscribe,
}

struct Model {
	reference: Reference,
	always_emit_none: bool,
	reset_input: bool,
	last_was_none: bool,
	subscribed: bool,
	finished: Option<Sig>,
	closed: bool,
	take: Option<usize>,
	hooks: BTreeMap<usize, Act>,
	values: Vec<Out>,
	end: Option<Sig>,
}

impl Model {
	fn act(&mut self, act: Act) {
		match act {
			Act::Trigger(on) => {
				if self.subscribed && !self.closed && self.finished.is_none() {
					self.reference.input = on;
				}
			}
			Act::Complete => self.finish(Sig::Complete),
			Act::Error(e) => self.finish(Sig::Error(e)),
			Act::Unsubscribe => {
				if self.subscribed {
					self.close(Sig::Unsub)
				}
			}
		}
	}

	fn finish(&mut self, sig: Sig) {
		if self.finished.is_none() {
			self.finished = Some(sig.clone());
			if self.subscribed {
				self.close(sig);
			}
		}
	}

	fn close(&mut self, sig: Sig) {
		if !self.closed {
			self.closed = true;
			if sig != Sig::Unsub {
				self.end = Some(sig);
			}
		}
	}

	fn subscribe(&mut self) {
		self.subscribed = true;
		if self.take == Some(0) {
			self.close(Sig::Complete);
		}
		if let Some(sig) = self.finished.clone() {
			self.close(sig);
		}
	}

	fn tick(&mut self, now: u64) {
		if !self.subscribed || self.closed {
			return;
		}
		let out = self.reference.tick(now);
		if self.reset_input {
			self.reference.input = false;
		}
		let none = out.phase == Phase::None;
		let emits = self.always_emit_none || !none || !self.last_was_none;
		self.last_was_none = none;
		if !emits {
			return;
		}
		self.values.push(out);
		let hook = self.hooks.get(&self.values.len()).copied();
		if let Some(Act::Trigger(on)) = hook {
			self.act(Act::Trigger(on));
		}
		// What finishes it from within is put off until the value was delivered
		match hook {
			Some(Act::Complete) if self.finished.is_none() => self.finished = Some(Sig::Complete),
			Some(Act::Error(e)) if self.finished.is_none() => self.finished = Some(Sig::Error(e)),
			_ => {}
		}
		if self.take == Some(self.values.len()) {
			self.close(Sig::Complete);
		}
		match hook {
			Some(Act::Complete | Act::Error(_)) => {
				let sig = self.finished.clone().unwrap();
				self.close(sig)
			}
			Some(Act::Unsubscribe) => self.close(Sig::Unsub),
			_ => {}
		}
	}
}

fn act(act: Act, subject: &PublishSubject<AdsrTrigger, E>, slots: &Slots) {
	let mut subject = subject.clone();
	match act {
		Act::Trigger(on) => subject.next(on.into()),
		Act::Complete => subject.complete(),
		Act::Error(e) => subject.error(e),
		Act::Unsubscribe => {
			if let Some(mut subscription) = slots.take(0) {
				subscription.unsubscribe();
				slots.put(0, subscription);
			}
		}
	}
}

fn draw_act() -> Act {
	match weighted(&[8, 1, 1, 2]) {
		0 => Act::Trigger(chance(1, 2)),
		1 => Act::Complete,
		2 => Act::Error(draw(9) as E),
		_ => Act::Unsubscribe,
	}
}

fn same(real: &AdsrSignal, model: &Out) -> Result<(), &'static str> {
	let phase = match real.adsr_envelope_phase {
		AdsrEnvelopePhase::None => Phase::None,
		AdsrEnvelopePhase::Attack => Phase::Attack,
		AdsrEnvelopePhase::Decay => Phase::Decay,
		AdsrEnvelopePhase::Sustain => Phase::Sustain,
		AdsrEnvelopePhase::Release => Phase::Release,
	};
	if phase != model.phase {
		return Err("envelope-phase");
	}
	if real.t != ms(model.t) {
		return Err("envelope-time");
	}
	if (real.value - model.value).abs() > 1e-4 {
		return Err("envelope-value");
	}
	let transition = real.phase_transition;
	let has = |flag| transition.contains(flag);
	if has(AdsrEnvelopePhaseTransition::Stop) != model.stopped
		|| has(AdsrEnvelopePhaseTransition::Restart) != model.restarted
		|| has(AdsrEnvelopePhaseTransition::Start) != model.started
		|| (!model.restarted && has(AdsrEnvelopePhaseTransition::Fire) != model.fired)
		|| (!model.restarted && has(AdsrEnvelopePhaseTransition::Release) != model.released)
	{
		return Err("envelope-transition");
	}
	Ok(())
}

fn envelope() {
	let times = [10, 0, 5, 20, 30];
	let config = Envelope {
		attack: pick(&times),
		decay: pick(&times),
		release: pick(&times),
		sustain: pick(&[0.5, 0.0, 0.25, 1.0]),
		quadratic: chance(1, 4),
	};
	let take = chance(1, 4).then(|| draw(4) as usize);
	let mut hooks = BTreeMap::new();
	if chance(1, 3) {
		for _ in 0..draw_range(1, 2) {
			hooks.insert(draw_range(1, 6) as usize, draw_act());
		}
	}
	let (always_emit_none, reset_input) = (chance(1, 3), chance(1, 3));
	ev!("{config:?} take {take:?} hooks {hooks:?} always emits none {always_emit_none} resets {reset_input}");

	let mut executor = MockExecutor::default();
	let handle = executor.get_scheduler_handle();
	let subject = PublishSubject::<AdsrTrigger, E>::default();
	let slots = Slots::default();
	let (up, down) = (Tally::default(), Tally::default());
	let signals: Arc<Mutex<Vec<AdsrSignal>>> = Arc::default();

	let mut pipeline = {
		let (subject, handle, up, signals) = (subject.clone(), handle.clone(), up.clone(), signals.clone());
		let options = AdsrOperatorOptions { always_emit_none, reset_input_on_tick: reset_input, envelope: config.real() };
		Dyn::make(move || {
			let signals = signals.clone();
			subject.clone().finalize(up.on()).adsr(options.clone(), handle.clone()).map(move |signal| {
				let mut signals = signals.lock().unwrap();
				signals.push(signal);
				signals.len() as V
			})
		})
	};
	if let Some(n) = take {
		let source = pipeline;
		pipeline = Dyn::make(move || source.clone().take(n));
	}
	{
		let (source, down) = (pipeline, down.clone());
		pipeline = Dyn::make(move || source.clone().finalize(down.on()));
	}
	let hook: Option<Hook> = (!hooks.is_empty()).then(|| {
		let (hooks, subject, slots) = (hooks.clone(), subject.clone(), slots.clone());
		Arc::new(move |sig: &Sig, _: usize| {
			if let Sig::Next(nth) = sig
				&& let Some(action) = hooks.get(&(*nth as usize))
			{
				count("fault:reentrant");
				ev!("hook {action:?}");
				act(*action, &subject, &slots);
			}
		}) as Hook
	});
	let (observer, seen) = Plain::new(0, hook);
	let mut observer = Some(observer);
	let none = Out {
		phase: Phase::None,
		t: 0,
		value: 0.0,
		started: false,
		stopped: false,
		restarted: false,
		fired: false,
		released: false,
	};
	let mut model = Model {
		reference: Reference {
			envelope: config,
			input: false,
			previous_input: false,
			now: 0,
			active: None,
			released: None,
			last: none,
		},
		always_emit_none,
		reset_input,
		last_was_none: false,
		subscribed: false,
		finished: None,
		closed: false,
		take,
		hooks,
		values: vec![],
		end: None,
	};
	let mut now = 0;
	let mut passes_since_closed = 0;
	let steps = draw_range(5, 40);
	for n in 0..=steps {
		if observer.is_some() && (n > 2 || chance(3, 4)) {
			let observer = observer.take().unwrap();
			ev!("subscribe");
			let Some(subscription) = step("subscribe", || ErasedSubscription::new(pipeline.subscribe(observer))) else {
				return;
			};
			slots.put(0, subscription);
			model.subscribe();
			model.reference.now = 0;
		} else if n == steps {
			ev!("the end");
			model.act(Act::Unsubscribe);
			step("unsubscribe", || act(Act::Unsubscribe, &subject, &slots));
			for _ in 0..2 {
				now += 10;
				passes_since_closed += 1;
				model.tick(now);
				step("pass", || executor.tick_to(Tick::new(ms(now))));
			}
		} else {
			match weighted(&[8, 20, 2, 1]) {
				0 => {
					let on = chance(1, 2);
					let change = chance(1, 8).then(|| {
						count("probe:envelope_changed");
						let mut change = AdsrEnvelopeChange::default();
						let to = pick(&times);
						let applies = model.subscribed && !model.closed && model.finished.is_none();
						let mut ignored = config;
						let envelope = if applies { &mut model.reference.envelope } else { &mut ignored };
						match draw(4) {
							0 => {
								change.attack_time = Some(ms(to));
								envelope.attack = to;
							}
							1 => {
								change.decay_time = Some(ms(to));
								envelope.decay = to;
							}
							2 => {
								change.release_time = Some(ms(to));
								envelope.release = to;
							}
							_ => {
								change.sustain_volume = Some(0.75);
								envelope.sustain = 0.75;
							}
						}
						change
					});
					ev!("trigger {on} {change:?}");
					model.act(Act::Trigger(on));
					step("push", || subject.clone().next(AdsrTrigger { activated: on, envelope_changes: change }));
				}
				1 => {
					let delta = pick(&[10, 0, 5, 15, 3, 25, 100]);
					match delta {
						0 => count("fault:zero_tick"),
						100 => count("fault:lag_spike"),
						_ => {}
					}
					now += delta;
					ev!("pass at {now}ms");
					sim_time(delta);
					if model.closed {
						passes_since_closed += 1;
					}
					model.tick(now);
					step("pass", || executor.tick_to(Tick::new(ms(now))));
				}
				2 => {
					let action = draw_act();
					ev!("{action:?}");
					model.act(action);
					step("act", || act(action, &subject, &slots));
				}
				_ => {
					if chance(1, 4) {
						count("fault:unsubscribe");
						ev!("drop the subscription");
						model.act(Act::Unsubscribe);
						if let Some(subscription) = slots.take(0) {
							step("drop", || drop(subscription));
						}
					}
				}
			}
		}
		if violated() {
			return;
		}
		seen.check_grammar("adsr");
		let signals = signals.lock().unwrap();
		let delivered = seen.values().len();
		if delivered != model.values.len() || delivered != signals.len() {
			violation(
				if delivered < model.values.len() { "signals-missing" } else { "signals-unexpected" },
				format!("at {now}ms {delivered} signals were observed, not {}", model.values.len()),
			);
			return;
		}
		if let (Some(real), Some(out)) = (signals.last(), model.values.last())
			&& let Err(kind) = same(real, out)
		{
			violation(kind, format!("at {now}ms {real:?} was observed instead of {out:?}"));
			return;
		}
		let terminal = seen.terminal().filter(|sig| *sig != Sig::Unsub);
		check!(terminal == model.end, "terminal", "finished with {terminal:?} instead of {:?}", model.end);
		let closed = model.closed && model.subscribed;
		check!(down.get() == closed as u64, "teardown", "closed: {closed}, but it was released {} times", down.get());
		check!(up.get() == closed as u64, "upstream-teardown", "closed: {closed}, but the source was released {} times", up.get());
		if let Some(subscription) = slots.take(0) {
			let says = subscription.is_closed();
			slots.put(0, subscription);
			check!(says == closed, "is-closed", "the subscription says closed: {says} instead of {closed}");
		}
		if passes_since_closed > 1 {
			check!(executor.is_empty(), "work-left-behind", "it's closed for {passes_since_closed} passes but there is still work scheduled");
			count("probe:executor_drained");
		}
	}
	if model.values.len() > 3 {
		count("probe:signals");
	}
}

pub fn world() -> World {
	World { name: "envelope", run: envelope, quick: 60_000, thorough: 3_000_000 }
}
