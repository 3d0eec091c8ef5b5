//! Runs many seeds of many worlds in worker processes, attributes everything
//! that goes wrong to the seed it happened in, minimises it, and writes the
//! replay file and the evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::draw::*;
use crate::run::*;
use serde_json::{Value, json};
use simstd::simulator as sim;

#[derive(Clone, Copy)]
pub struct World {
	pub name: &'static str,
	pub run: fn(),
	pub quick: u64,
	pub thorough: u64,
}

pub struct Check {
	pub property: &'static str,
	pub worlds: Vec<World>,
	/// What a trajectory has to do to count as non trivial
	pub rule: &'static str,
	pub real: &'static str,
	pub stubs: &'static str,
	/// Probes that have to be hit at least once, for the exploration to be
	/// considered meaningful
	pub probes: &'static [&'static str],
}

const WORKERS: usize = 8;
const MAX_VIOLATIONS_PER_WORKER: usize = 12;

fn arg(args: &[String], name: &str) -> Option<String> {
	args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn fnv(text: &str) -> u64 {
	text.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3))
}

fn seed_of(base: u64, world: &str, index: u64) -> u64 {
	mix(mix(base, fnv(world)), index)
}

fn limit_memory() {
	#[repr(C)]
	struct RLimit {
		cur: u64,
		max: u64,
	}
	unsafe extern "C" {
		fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
	}
	let limit = RLimit { cur: 6 << 30, max: 6 << 30 };
	unsafe { setrlimit(9, &limit) };
	let no_core = RLimit { cur: 0, max: 0 };
	unsafe { setrlimit(4, &no_core) };
}

fn choices_to_json(c: &Choices) -> Value {
	json!({ "ops": c.ops, "sched": c.sched })
}

fn choices_from_json(v: &Value) -> Choices {
	let list = |k: &str| -> Vec<u32> {
		v[k].as_array()
			.map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
			.unwrap_or_default()
	};
	Choices { ops: list("ops"), sched: list("sched") }
}

pub fn main(checks: Vec<Check>) -> ! {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let code = match args.first().map(String::as_str) {
		Some("check") => check_main(&checks, &args),
		Some("worker") => worker_main(&checks, &args),
		Some("exec") => exec_main(&checks, &args),
		Some("replay") => replay_main(&checks, &args),
		Some("determinism") => determinism_main(&checks, &args),
		Some("list") => {
			for c in &checks {
				for w in &c.worlds {
					println!("{} {} quick={} thorough={}", c.property, w.name, w.quick, w.thorough);
				}
			}
			0
		}
		_ => {
			eprintln!("usage: check <property> | replay <file> | list | exec … | determinism <property>");
			0
		}
	};
	let _ = std::io::stdout().flush();
	std::process::exit(code)
}

fn find<'a>(checks: &'a [Check], property: &str, world: &str) -> Option<&'a World> {
	checks.iter().find(|c| c.property == property)?.worlds.iter().find(|w| w.name == world)
}

// ───────────────────────── worker

fn worker_main(checks: &[Check], args: &[String]) -> i32 {
	limit_memory();
	install();
	let property = args[1].as_str();
	let world = find(checks, property, &args[2]).expect("world");
	let base: u64 = args[3].parse().unwrap();
	let from: u64 = args[4].parse().unwrap();
	let stride: u64 = args[5].parse().unwrap();
	let to: u64 = args[6].parse().unwrap();
	let deadline = Instant::now() + Duration::from_secs(args[7].parse().unwrap());

	let stdout = std::io::stdout();
	let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut counters_runs: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let mut interleavings: HashSet<u64> = HashSet::new();
	let (mut runs, mut events, mut steps, mut switches, mut contended, mut blocked, mut time) =
		(0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
	let mut rechecked = 0u64;
	let mut diverged = 0u64;
	let mut trivial = 0u64;
	let mut violations = 0;
	let mut index = from;
	let mut timed_out = false;
	let mut since_flush = 0u64;
	let mut report = |index: u64, runs: u64,
	                  counters: &mut BTreeMap<&'static str, u64>,
	                  counters_runs: &mut BTreeMap<&'static str, u64>,
	                  hashes: &mut HashSet<u64>,
	                  interleavings: &mut HashSet<u64>,
	                  numbers: [u64; 9], done: bool| {
		let mut out = stdout.lock();
		let value = json!({
			"runs": runs, "counters": counters, "counters_runs": counters_runs,
			"hashes": hashes.iter().collect::<Vec<_>>(),
			"interleavings": interleavings.iter().collect::<Vec<_>>(),
			"events": numbers[0], "steps": numbers[1], "switches": numbers[2],
			"contended": numbers[3], "blocked": numbers[4], "sim_time_ms": numbers[5],
			"rechecked": numbers[6], "diverged": numbers[7], "trivial": numbers[8], "done": done, "index": index,
		});
		let _ = writeln!(out, "P {value}");
		let _ = out.flush();
		counters.clear();
		counters_runs.clear();
		hashes.clear();
		interleavings.clear();
	};
	while index < to {
		if Instant::now() > deadline {
			timed_out = true;
			break;
		}
		{
			let mut out = stdout.lock();
			let _ = writeln!(out, "S {index}");
			let _ = out.flush();
		}
		let seed = seed_of(base, world.name, index);
		let result = execute(world.run, property, Source::Seed(seed), false);
		runs += 1;
		events += result.events;
		steps += result.stats.steps;
		switches += result.stats.switches;
		contended += result.stats.contended;
		blocked += result.stats.blocked;
		time += result.sim_time_ms;
		for (k, v) in &result.counters {
			*counters.entry(k).or_insert(0) += v;
			*counters_runs.entry(k).or_insert(0) += 1;
		}
		// An execution in which nothing was observed is not counted
		if result.events > 3 {
			hashes.insert(result.hash);
		} else {
			trivial += 1;
		}
		if result.stats.switches > 0 {
			interleavings.insert(result.stats.interleaving_hash);
		}
		if index % 401 == 0 {
			rechecked += 1;
			let again = execute(world.run, property, Source::Seed(seed), false);
			if again.hash != result.hash || again.violation != result.violation {
				diverged += 1;
			}
			// Replaying the recording has to give the same execution as well
			let replayed = execute(
				world.run,
				property,
				Source::Replay(result.choices.clone(), hash_seed_of(seed)),
				false,
			);
			if replayed.hash != result.hash {
				diverged += 1;
			}
		}
		if let Some(v) = result.violation {
			violations += 1;
			let mut out = stdout.lock();
			let _ = writeln!(
				out,
				"V {}",
				json!({"index": index, "kind": v.kind, "message": v.message, "choices": choices_to_json(&result.choices)})
			);
			let _ = out.flush();
		}
		index += stride;
		since_flush += 1;
		if since_flush >= 2000 {
			since_flush = 0;
			report(index, runs, &mut counters, &mut counters_runs, &mut hashes, &mut interleavings,
				[events, steps, switches, contended, blocked, time, rechecked, diverged, trivial], false);
			(runs, events, steps, switches, contended, blocked, time, rechecked, diverged, trivial) =
				(0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
		}
		if violations >= MAX_VIOLATIONS_PER_WORKER {
			break;
		}
	}
	report(index, runs, &mut counters, &mut counters_runs, &mut hashes, &mut interleavings,
		[events, steps, switches, contended, blocked, time, rechecked, diverged, trivial], true);
	if timed_out {
		let mut out = stdout.lock();
		let _ = writeln!(out, "T {index}");
	}
	0
}

// ───────────────────────── one run in a process of its own

/// `exec <property> <world> (seed <n> | file <choices json>) [--log]`
fn exec_main(checks: &[Check], args: &[String]) -> i32 {
	limit_memory();
	install();
	let property = args[1].as_str();
	let world = find(checks, property, &args[2]).expect("world");
	let log = args.iter().any(|a| a == "--log");
	let source = if args[3] == "seed" {
		let seed: u64 = args[4].parse().unwrap();
		Source::Seed(seed)
	} else if args[3] == "index" {
		let index: u64 = args[4].parse().unwrap();
		let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
		Source::Seed(seed_of(base, world.name, index))
	} else {
		let mut text = String::new();
		if args[4] == "-" {
			use std::io::Read;
			std::io::stdin().read_to_string(&mut text).unwrap();
		} else {
			text = std::fs::read_to_string(&args[4]).unwrap();
		}
		let value: Value = serde_json::from_str(&text).unwrap();
		Source::Replay(choices_from_json(&value), value["hash_seed"].as_u64().unwrap_or(0))
	};
	set_record_path(arg(args, "--record"));
	let result = execute(world.run, property, source, log);
	let mut out = std::io::stdout().lock();
	for entry in &result.log {
		let _ = writeln!(out, "LOG {}", entry.replace('\n', " "));
	}
	let value = json!({
		"hash": result.hash,
		"events": result.events,
		"violation": result.violation.as_ref().map(|v| json!({"kind": v.kind, "message": v.message})),
		"choices": choices_to_json(&result.choices),
		"counters": result.counters,
		"sim_time_ms": result.sim_time_ms,
		"steps": result.stats.steps,
		"switches": result.stats.switches,
	});
	let _ = writeln!(out, "R {value}");
	0
}

struct Executed {
	/// kind, message
	violation: Option<(String, String)>,
	hash: Option<u64>,
	log: Vec<String>,
}

enum Input<'a> {
	Seed(u64),
	Choices(&'a Choices, u64),
}

fn fatal_kind(status: std::process::ExitStatus, fatal: Option<&str>) -> Option<(String, String)> {
	if let Some(code) = status.code() {
		return match code {
			0 => None,
			sim::EXIT_DEADLOCK => {
				let message = fatal.unwrap_or("deadlock").to_string();
				Some((format!("deadlock:{}", message.trim_start_matches("deadlock: ")), message))
			}
			sim::EXIT_LIVELOCK => Some(("livelock".into(), fatal.unwrap_or("livelock").to_string())),
			other => Some((format!("exit:{other}"), format!("the process ended with code {other}"))),
		};
	}
	status.signal().map(|s| {
		let name = match s {
			6 => "abort",
			9 => "hang",
			11 => "crash",
			7 => "crash",
			_ => "signal",
		};
		let message = match s {
			6 => "the process aborted (panic while unwinding, or stack overflow)".to_string(),
			9 => "the run did not end within its wall clock budget".to_string(),
			_ => format!("the process was ended by signal {s}"),
		};
		(name.to_string(), message)
	})
}

fn exec_once(property: &str, world: &str, input: &Input, log: bool, record: Option<&Path>) -> Executed {
	let exe = std::env::current_exe().unwrap();
	let mut command = Command::new(exe);
	command.arg("exec").arg(property).arg(world);
	let mut stdin_text = None;
	match input {
		Input::Seed(seed) => {
			command.arg("seed").arg(seed.to_string());
		}
		Input::Choices(choices, hash_seed) => {
			command.arg("file").arg("-");
			let mut value = choices_to_json(choices);
			value["hash_seed"] = json!(hash_seed);
			stdin_text = Some(value.to_string());
		}
	}
	if log {
		command.arg("--log");
	}
	if let Some(path) = record {
		command.arg("--record").arg(path);
	}
	command.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
	let mut child = command.spawn().expect("spawn exec");
	{
		let mut stdin = child.stdin.take().unwrap();
		if let Some(text) = stdin_text {
			let _ = stdin.write_all(text.as_bytes());
		}
	}
	let stdout = child.stdout.take().unwrap();
	let pid = child.id() as i32;
	let finished = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
	let finished_2 = finished.clone();
	let watchdog = std::thread::spawn(move || {
		let (lock, cv) = &*finished_2;
		let guard = lock.lock().unwrap();
		let (guard, _) = cv.wait_timeout_while(guard, Duration::from_secs(40), |f| !*f).unwrap();
		if !*guard {
			unsafe extern "C" {
				fn kill(pid: i32, sig: i32) -> i32;
			}
			unsafe { kill(pid, 9) };
		}
	});
	let mut fatal = None;
	let mut executed = Executed { violation: None, hash: None, log: Vec::new() };
	for line in BufReader::new(stdout).lines().map_while(Result::ok) {
		if let Some(entry) = line.strip_prefix("LOG ") {
			executed.log.push(entry.to_string());
		} else if let Some(message) = line.strip_prefix("FATAL ") {
			fatal = Some(message.to_string());
		} else if let Some(result) = line.strip_prefix("R ")
			&& let Ok(value) = serde_json::from_str::<Value>(result)
		{
			executed.hash = value["hash"].as_u64();
			if let Some(kind) = value["violation"]["kind"].as_str() {
				executed.violation = Some((
					kind.to_string(),
					value["violation"]["message"].as_str().unwrap_or("").to_string(),
				));
			}
		}
	}
	let status = child.wait().unwrap();
	*finished.0.lock().unwrap() = true;
	finished.1.notify_all();
	let _ = watchdog.join();
	if let Some(v) = fatal_kind(status, fatal.as_deref()) {
		executed.violation = Some(v);
	}
	executed
}

// ───────────────────────── minimisation

fn minimise(
	property: &str,
	world: &str,
	kind: &str,
	start: Choices,
	hash_seed: u64,
	budget: Duration,
) -> (Choices, u64) {
	let begin = Instant::now();
	let mut attempts = 0u64;
	let mut best = start;
	let mut seen: HashSet<(Vec<u32>, Vec<u32>)> = HashSet::new();
	let mut test = |candidate: &Choices, attempts: &mut u64| -> bool {
		if begin.elapsed() > budget {
			return false;
		}
		if !seen.insert((candidate.ops.clone(), candidate.sched.clone())) {
			return false;
		}
		*attempts += 1;
		exec_once(property, world, &Input::Choices(candidate, hash_seed), false, None)
			.violation
			.is_some_and(|(k, _)| k == kind)
	};
	// no interleaving at all?
	let candidate = Choices { ops: best.ops.clone(), sched: Vec::new() };
	if test(&candidate, &mut attempts) {
		best = candidate;
	}
	loop {
		let size_before = (best.ops.len() + best.sched.len(), best.ops.iter().chain(&best.sched).map(|x| *x as u64).sum::<u64>());
		for which in 0..2 {
			let get = |c: &Choices| if which == 0 { c.ops.clone() } else { c.sched.clone() };
			let set = |c: &Choices, list: Vec<u32>| {
				let mut c = c.clone();
				if which == 0 {
					c.ops = list;
				} else {
					c.sched = list;
				}
				c
			};
			// drop trailing zeros, they are implied
			let mut list = get(&best);
			while list.last() == Some(&0) {
				list.pop();
			}
			best = set(&best, list);
			// truncation, deleting and zeroing chunks
			let mut chunk = get(&best).len().max(1);
			while chunk >= 1 {
				let mut at = 0;
				while at < get(&best).len() {
					if begin.elapsed() > budget {
						return (best, attempts);
					}
					let list = get(&best);
					let end = (at + chunk).min(list.len());
					let mut deleted = list.clone();
					deleted.drain(at..end);
					if test(&set(&best, deleted.clone()), &mut attempts) {
						best = set(&best, deleted);
						continue;
					}
					if list[at..end].iter().any(|x| *x != 0) {
						let mut zeroed = list.clone();
						zeroed[at..end].fill(0);
						if test(&set(&best, zeroed.clone()), &mut attempts) {
							best = set(&best, zeroed);
						}
					}
					at += chunk;
				}
				chunk /= 2;
			}
			// lower values
			for at in 0..get(&best).len() {
				let mut list = get(&best);
				if at >= list.len() {
					break;
				}
				let value = list[at];
				for lower in [1, value / 2, value.saturating_sub(1)] {
					if lower < list[at] {
						let mut candidate = list.clone();
						candidate[at] = lower;
						if test(&set(&best, candidate.clone()), &mut attempts) {
							list = candidate;
							best = set(&best, list.clone());
							break;
						}
					}
				}
			}
		}
		let size_after = (best.ops.len() + best.sched.len(), best.ops.iter().chain(&best.sched).map(|x| *x as u64).sum::<u64>());
		if size_after == size_before || begin.elapsed() > budget {
			return (best, attempts);
		}
	}
}

// ───────────────────────── the check

#[derive(Default)]
struct Totals {
	runs: u64,
	counters: BTreeMap<String, u64>,
	counters_runs: BTreeMap<String, u64>,
	hashes: HashSet<u64>,
	interleavings: HashSet<u64>,
	events: u64,
	steps: u64,
	switches: u64,
	contended: u64,
	blocked: u64,
	sim_time_ms: u64,
	rechecked: u64,
	diverged: u64,
	trivial: u64,
	timed_out: bool,
}

impl Totals {
	fn absorb(&mut self, v: &Value) {
		let n = |k: &str| v[k].as_u64().unwrap_or(0);
		self.runs += n("runs");
		self.events += n("events");
		self.steps += n("steps");
		self.switches += n("switches");
		self.contended += n("contended");
		self.blocked += n("blocked");
		self.sim_time_ms += n("sim_time_ms");
		self.rechecked += n("rechecked");
		self.diverged += n("diverged");
		self.trivial += n("trivial");
		for (key, target) in [("counters", &mut self.counters), ("counters_runs", &mut self.counters_runs)] {
			if let Some(map) = v[key].as_object() {
				for (k, x) in map {
					*target.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
				}
			}
		}
		for (key, target) in [("hashes", &mut self.hashes), ("interleavings", &mut self.interleavings)] {
			if let Some(list) = v[key].as_array() {
				target.extend(list.iter().filter_map(Value::as_u64));
			}
		}
	}
}

struct Found {
	world: &'static str,
	index: u64,
	kind: String,
	message: String,
	choices: Option<Choices>,
}

#[allow(clippy::too_many_arguments)]
fn run_worker(
	property: &str,
	world: &'static World,
	base: u64,
	from: u64,
	stride: u64,
	to: u64,
	deadline: Instant,
	totals: &Mutex<Totals>,
	found: &Mutex<Vec<Found>>,
) {
	let mut from = from;
	let mut fatals = 0;
	loop {
		let remaining = deadline.saturating_duration_since(Instant::now()).as_secs();
		if remaining == 0 {
			totals.lock().unwrap().timed_out = true;
			return;
		}
		let mut command = Command::new(std::env::current_exe().unwrap());
		command
			.args(["worker", property, world.name])
			.args([base, from, stride, to, remaining].map(|n| n.to_string()))
			.stdin(Stdio::null())
			.stdout(Stdio::piped())
			.stderr(Stdio::null());
		command.process_group(0);
		let mut child = command.spawn().expect("spawn worker");
		let stdout = child.stdout.take().unwrap();
		let pid = child.id() as i32;
		// The watchdog ends a worker that makes no progress
		let progress = Arc::new(Mutex::new((Instant::now(), false)));
		let progress_2 = progress.clone();
		let watchdog = std::thread::spawn(move || {
			loop {
				std::thread::sleep(Duration::from_millis(50));
				let p = progress_2.lock().unwrap();
				if p.1 {
					return;
				}
				if p.0.elapsed() > Duration::from_secs(40) {
					unsafe extern "C" {
						fn kill(pid: i32, sig: i32) -> i32;
					}
					unsafe { kill(pid, 9) };
					return;
				}
			}
		});
		let mut current = None;
		let mut done = false;
		let mut fatal = None;
		for line in BufReader::new(stdout).lines().map_while(Result::ok) {
			if let Some(index) = line.strip_prefix("S ") {
				current = index.parse::<u64>().ok();
				progress.lock().unwrap().0 = Instant::now();
			} else if let Some(value) = line.strip_prefix("P ") {
				if let Ok(value) = serde_json::from_str::<Value>(value) {
					done = value["done"].as_bool().unwrap_or(false);
					totals.lock().unwrap().absorb(&value);
				}
			} else if let Some(value) = line.strip_prefix("V ") {
				if let Ok(value) = serde_json::from_str::<Value>(value) {
					found.lock().unwrap().push(Found {
						world: world.name,
						index: value["index"].as_u64().unwrap(),
						kind: value["kind"].as_str().unwrap_or("").to_string(),
						message: value["message"].as_str().unwrap_or("").to_string(),
						choices: Some(choices_from_json(&value["choices"])),
					});
				}
			} else if line.starts_with("T ") {
				totals.lock().unwrap().timed_out = true;
			} else if let Some(message) = line.strip_prefix("FATAL ") {
				fatal = Some(message.to_string());
			}
		}
		let status = child.wait().unwrap();
		progress.lock().unwrap().1 = true;
		let _ = watchdog.join();
		if done {
			return;
		}
		let Some(index) = current else {
			eprintln!("harness: a worker ended before its first run: {status:?}");
			return;
		};
		let (kind, message) = fatal_kind(status, fatal.as_deref())
			.unwrap_or_else(|| ("exit".into(), "the worker ended early".into()));
		found.lock().unwrap().push(Found { world: world.name, index, kind, message, choices: None });
		fatals += 1;
		from = index + stride;
		if fatals >= 3 || from >= to {
			return;
		}
	}
}

struct KnownFinding {
	world: Option<String>,
	kind: String,
	what: String,
}

fn known_findings(path: Option<&str>, property: &str) -> Vec<KnownFinding> {
	let Some(text) = path.and_then(|p| std::fs::read_to_string(p).ok()) else {
		return Vec::new();
	};
	let value: Value = serde_json::from_str(&text).expect("known findings to be valid json");
	value["findings"]
		.as_array()
		.map(|list| {
			list.iter()
				.filter(|f| f["property"] == property)
				.map(|f| KnownFinding {
					world: f["world"].as_str().map(String::from),
					kind: f["kind"].as_str().unwrap_or("").to_string(),
					what: f["what"].as_str().unwrap_or("").to_string(),
				})
				.collect()
		})
		.unwrap_or_default()
}

fn check_main(checks: &[Check], args: &[String]) -> i32 {
	let start = Instant::now();
	let property = args[1].as_str();
	let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
	let base: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
	let evidence_path = arg(args, "--evidence");
	let replay_dir = PathBuf::from(arg(args, "--replays").unwrap_or_else(|| "replays".into()));
	let known = known_findings(arg(args, "--known").as_deref(), property);
	let scale: f64 = std::env::var("RXSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let Some(check) = checks.iter().find(|c| c.property == property) else {
		eprintln!("unknown property {property}");
		return 2;
	};
	let cap = if tier == "thorough" { 3000 } else { 420 };
	let deadline = start + Duration::from_secs(cap);
	let totals = Mutex::new(Totals::default());
	let found = Mutex::new(Vec::<Found>::new());
	let mut per_world = BTreeMap::new();
	for world in &check.worlds {
		// Leaks are fine, the driver is short lived
		let world: &'static World = Box::leak(Box::new(*world));
		let count = if tier == "thorough" { world.thorough } else { world.quick * 5 };
		let count = ((count as f64 * scale) as u64).max(8);
		let runs_before = totals.lock().unwrap().runs;
		std::thread::scope(|scope| {
			for w in 0..WORKERS as u64 {
				let (totals, found) = (&totals, &found);
				scope.spawn(move || {
					run_worker(property, world, base, w, WORKERS as u64, count, deadline, totals, found)
				});
			}
		});
		let runs = totals.lock().unwrap().runs - runs_before;
		per_world.insert(world.name.to_string(), runs);
	}
	let totals = totals.into_inner().unwrap();
	let mut found = found.into_inner().unwrap();
	let explored = start.elapsed();
	found.sort_by_key(|f| (f.index, f.world));

	let mut code = 0;
	let mut reported: Vec<Value> = Vec::new();
	let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
	let mut kinds_done: HashSet<(String, String)> = HashSet::new();
	let mut unlisted = 0;
	let _ = std::fs::create_dir_all(&replay_dir);
	if std::env::var_os("RXSIM_ALL").is_some() {
		for f in &found {
			println!("found: {} {} {} {}", f.world, f.index, f.kind, f.message);
		}
	}
	for f in &found {
		if let Some(i) = known
			.iter()
			.position(|k| k.kind == f.kind && k.world.as_deref().is_none_or(|w| w == f.world))
		{
			*known_hits.entry(i).or_insert(0) += 1;
			continue;
		}
		unlisted += 1;
		if !kinds_done.insert((f.world.to_string(), f.kind.clone())) || kinds_done.len() > 4 {
			continue;
		}
		let seed = seed_of(base, f.world, f.index);
		let choices = match &f.choices {
			Some(c) => Some(c.clone()),
			None => recover_choices(property, f.world, seed),
		};
		let hash_seed = hash_seed_of(seed);
		let (choices, attempts) = match choices {
			Some(c) => minimise(property, f.world, &f.kind, c, hash_seed, Duration::from_secs(if kinds_done.len() == 1 { 60 } else { 15 })),
			None => (Choices { ops: vec![], sched: vec![] }, 0),
		};
		let shown = exec_once(property, f.world, &Input::Choices(&choices, hash_seed), true, None);
		let message = shown.violation.as_ref().map(|v| v.1.clone()).unwrap_or(f.message.clone());
		let reproduces = shown.violation.as_ref().is_some_and(|v| v.0 == f.kind);
		let path = replay_dir.join(format!("{property}-{}-{:016x}.json", f.world, fnv(&f.kind)));
		let replay = json!({
			"property": property,
			"world": f.world,
			"kind": f.kind,
			"message": message,
			"seed": seed,
			"base_seed": base,
			"index": f.index,
			"hash_seed": hash_seed,
			"ops": choices.ops,
			"sched": choices.sched,
			"hash": shown.hash,
			"minimised_in": attempts,
			"reproduces": reproduces,
			"trace": shown.log,
		});
		let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
		println!("violated: {} in world {} (run {}): {}", f.kind, f.world, f.index, message);
		for line in shown.log.iter().take(60) {
			println!("    {line}");
		}
		println!("VIOLATION property={property} replay={}", path.display());
		reported.push(json!({"kind": f.kind, "world": f.world, "message": message, "replay": path.display().to_string(), "index": f.index}));
		code = 1;
	}
	for (i, k) in known.iter().enumerate() {
		println!(
			"KNOWN-FINDING: property={property} {} (seen in {} runs)",
			k.what,
			known_hits.get(&i).copied().unwrap_or(0)
		);
	}

	// a few sample runs
	let mut samples = Vec::new();
	for world in check.worlds.iter().take(3) {
		for index in [3u64, 11] {
			let seed = seed_of(base, world.name, index);
			let run = exec_once(property, world.name, &Input::Seed(seed), true, None);
			samples.push(json!({"world": world.name, "seed": seed, "trace": run.log.iter().take(25).collect::<Vec<_>>()}));
		}
	}
	let missing: Vec<&&str> = check.probes.iter().filter(|p| !totals.counters.contains_key(**p)).collect();
	for p in &missing {
		eprintln!("note: the probe {p} was never hit");
	}
	let wall = start.elapsed().as_secs_f64();
	let filter = |prefix: &str| -> BTreeMap<String, Value> {
		totals
			.counters
			.iter()
			.filter(|(k, _)| k.starts_with(prefix))
			.map(|(k, v)| {
				(k.trim_start_matches(prefix).to_string(), json!({"times": v, "runs": totals.counters_runs.get(k)}))
			})
			.collect()
	};
	let evidence = json!({
		"property": property,
		"tier": tier,
		"seed": base,
		"level": "exploration",
		"coverage": {
			"evaluations": totals.runs,
			"distinct_nontrivial": totals.hashes.len(),
			"rule": check.rule,
			"samples": samples,
			"simulated_runs": totals.runs,
			"trivial_runs": totals.trivial,
			"runs_per_world": per_world,
			"runs_per_hour": (totals.runs as f64 / explored.as_secs_f64().max(0.001) * 3600.0) as u64,
			"simulated_time_s": totals.sim_time_ms as f64 / 1000.0,
			"observed_events": totals.events,
			"sync_points": totals.steps,
			"thread_switches": totals.switches,
			"contended_acquisitions": totals.contended,
			"times_blocked": totals.blocked,
			"distinct_interleavings": totals.interleavings.len(),
			"faults_injected": filter("fault:"),
			"probes": filter("probe:"),
			"scheduling": filter("sched:"),
			"probes_never_hit": missing,
			"determinism": {"runs_executed_again": totals.rechecked, "diverged": totals.diverged},
			"real_components": check.real,
			"stubbed_components": check.stubs,
			"hit_wall_clock_cap": totals.timed_out,
			"known_findings_seen": known.iter().enumerate().map(|(i, k)| json!({"kind": k.kind, "runs": known_hits.get(&i).copied().unwrap_or(0)})).collect::<Vec<_>>(),
		},
		"assumptions": [
			"sequentially consistent memory: simulated threads are switched at lock and atomic operations only",
			"a clean batch is evidence, not proof: schedules and fault sequences are sampled",
		],
		"wall_s": wall,
		"violations": reported,
	});
	if let Some(path) = evidence_path {
		if let Some(parent) = Path::new(&path).parent() {
			let _ = std::fs::create_dir_all(parent);
		}
		let _ = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap());
	}
	println!(
		"{property}: {} runs, {} distinct, {} interleavings, {:.0} simulated s, {} violating runs, {:.1} s wall, determinism {}/{}",
		totals.runs,
		totals.hashes.len(),
		totals.interleavings.len(),
		totals.sim_time_ms as f64 / 1000.0,
		unlisted,
		wall,
		totals.rechecked - totals.diverged.min(totals.rechecked),
		totals.rechecked,
	);
	code
}

/// A run that ended the process can not hand over its choices, it is executed
/// again while every choice is written out as it's made.
fn recover_choices(property: &str, world: &str, seed: u64) -> Option<Choices> {
	let path = std::env::temp_dir().join(format!("rxsim-{}-{seed:x}.choices", std::process::id()));
	exec_once(property, world, &Input::Seed(seed), false, Some(&path));
	let text = std::fs::read_to_string(&path).ok()?;
	let _ = std::fs::remove_file(&path);
	let mut choices = Choices { ops: vec![], sched: vec![] };
	for line in text.lines() {
		let (kind, value) = line.split_once(' ')?;
		let Ok(value) = value.parse() else { continue };
		if kind == "o" {
			choices.ops.push(value)
		} else {
			choices.sched.push(value)
		}
	}
	Some(choices)
}

fn replay_main(checks: &[Check], args: &[String]) -> i32 {
	let text = std::fs::read_to_string(&args[1]).expect("replay file");
	let value: Value = serde_json::from_str(&text).expect("json");
	let property = value["property"].as_str().unwrap();
	let world = value["world"].as_str().unwrap();
	if find(checks, property, world).is_none() {
		return 3;
	}
	let choices = choices_from_json(&value);
	let hash_seed = value["hash_seed"].as_u64().unwrap();
	let run = exec_once(property, world, &Input::Choices(&choices, hash_seed), true, None);
	for line in &run.log {
		println!("    {line}");
	}
	match run.violation {
		Some((kind, message)) => {
			let exact = Some(kind.as_str()) == value["kind"].as_str()
				&& Some(message.as_str()) == value["message"].as_str()
				&& run.hash == value["hash"].as_u64()
				&& value["trace"].as_array().is_some_and(|t| {
					t.iter().map(|l| l.as_str().unwrap_or("")).eq(run.log.iter().map(String::as_str))
				});
			println!("replay: {kind}: {message}");
			println!("replay: {}", if exact { "reproduced exactly" } else { "differs from the recording" });
			println!("VIOLATION property={property} replay={}", args[1]);
			1
		}
		None => {
			println!("replay: no violation");
			0
		}
	}
}

/// `determinism <property> <runs>`: every run twice, in different processes,
/// their hashes compared.
fn determinism_main(checks: &[Check], args: &[String]) -> i32 {
	let property = args[1].as_str();
	let runs: u64 = args.get(2).and_then(|n| n.parse().ok()).unwrap_or(50);
	let Some(check) = checks.iter().find(|c| c.property == property) else { return 2 };
	let mut diverged = 0;
	for world in &check.worlds {
		for index in 0..runs {
			let seed = seed_of(7, world.name, index);
			let a = exec_once(property, world.name, &Input::Seed(seed), true, None);
			let b = exec_once(property, world.name, &Input::Seed(seed), true, None);
			if a.hash != b.hash || a.log != b.log || a.violation != b.violation {
				diverged += 1;
				println!("{property} {} seed {seed} diverged", world.name);
			}
		}
	}
	println!("{property}: {diverged} diverged of {} runs executed twice", runs * check.worlds.len() as u64);
	(diverged > 0) as i32
}
