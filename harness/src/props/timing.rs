//! C32 (shutdown reaches everyone and waits for everyone), C33 (growing intervals).
use crate::core::*;
use crate::ensure;
use nargun::verif::capped_growing_interval::CappedGrowingInterval;
use nargun::verif::shutdown;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::{sleep, timeout, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Clone(u8),
    Drop(u8),
    /// listen for so many ms and give up
    Listen(u8, u8),
    /// hand over to a task that listens and then needs so many ms to finish
    Task(u8, u16),
    Wait(u16),
    Send,
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => any::<u8>().prop_map(Op::Clone),
        2 => any::<u8>().prop_map(Op::Drop),
        4 => (any::<u8>(), 0u8..50).prop_map(|(i, t)| Op::Listen(i, t)),
        3 => (any::<u8>(), 0u16..2000).prop_map(|(i, t)| Op::Task(i, t)),
        1 => (0u16..500).prop_map(Op::Wait),
    ]
}

struct Held {
    rx: shutdown::Receiver,
    heard: bool,
}

/// The history before the shutdown, and the one after it.
async fn play(before: &[Op], after: &[Op]) -> TestResult {
    let (tx, rx) = shutdown::channel();
    let mut held = vec![Held { rx, heard: false }];
    let mut tx = Some(tx);
    let mut waiter: Option<tokio::task::JoinHandle<()>> = None;
    let tasks = Arc::new(AtomicUsize::new(0));
    let early = Arc::new(AtomicBool::new(false));
    let sent = Arc::new(AtomicBool::new(false));
    let (mut n_tasks, mut listened) = (0, 0);
    let all: Vec<Op> = before.iter().cloned().chain([Op::Send]).chain(after.iter().cloned()).collect();
    for (n, op) in all.iter().enumerate() {
        let at = format!("step {n} ({op:?})");
        let is_sent = sent.load(Ordering::SeqCst);
        match op {
            Op::Clone(i) if !held.is_empty() && !is_sent => {
                let rx = held[*i as usize % held.len()].rx.clone();
                held.push(Held { rx, heard: false });
            }
            Op::Drop(i) if !held.is_empty() => {
                held.swap_remove(*i as usize % held.len());
            }
            Op::Listen(i, t) if !held.is_empty() => {
                let i = *i as usize % held.len();
                let h = &mut held[i];
                if h.heard {
                    continue;
                }
                listened += 1;
                let heard = timeout(Duration::from_millis(*t as u64), h.rx.recv()).await.is_ok();
                ensure!(heard == is_sent, "{at}: heard {heard}, shutdown was sent: {is_sent}");
                h.heard = heard;
            }
            Op::Task(i, t) if !held.is_empty() => {
                let mut h = held.swap_remove(*i as usize % held.len());
                let (tasks, early, sent, t) = (tasks.clone(), early.clone(), sent.clone(), *t as u64);
                tasks.fetch_add(1, Ordering::SeqCst);
                n_tasks += 1;
                tokio::spawn(async move {
                    if !h.heard {
                        h.rx.recv().await;
                        if !sent.load(Ordering::SeqCst) {
                            early.store(true, Ordering::SeqCst);
                        }
                    }
                    sleep(Duration::from_millis(t)).await;
                    tasks.fetch_sub(1, Ordering::SeqCst);
                    drop(h);
                });
            }
            Op::Wait(t) => sleep(Duration::from_millis(*t as u64)).await,
            Op::Send => {
                sent.store(true, Ordering::SeqCst);
                let w = tx.take().unwrap().send();
                waiter = Some(tokio::spawn(w.wait()));
            }
            _ => {}
        }
        if let Some(w) = &waiter {
            // let what is due happen
            sleep(Duration::from_millis(1)).await;
            let alive = held.len() + tasks.load(Ordering::SeqCst);
            ensure!(w.is_finished() == (alive == 0), "{at}: waiting is over: {}, {alive} are alive", w.is_finished());
        }
    }
    // those left hear it too, and then all is over
    for (n, h) in held.iter_mut().enumerate() {
        if !h.heard {
            ensure!(timeout(Duration::from_millis(10), h.rx.recv()).await.is_ok(), "holder {n} of {} never heard of the shutdown", n + 1);
        }
    }
    drop(held);
    sleep(Duration::from_secs(3)).await;
    let alive = tasks.load(Ordering::SeqCst);
    ensure!(alive == 0, "{alive} tasks never heard of the shutdown");
    ensure!(waiter.unwrap().is_finished(), "waiting goes on though everyone is gone");
    ensure!(!early.load(Ordering::SeqCst), "a task was told before the shutdown");
    Ok(Obs::new(n_tasks >= 1 && listened >= 1).label_if(n_tasks >= 3, "three tasks"))
}

pub fn shutdowns(ctx: &mut Ctx) {
    ctx.assume("all holders are there before the shutdown is sent, as in the program");
    ctx.check(
        "history",
        "holders cloned, dropped, listened to in vain, and handed to tasks, before and after the shutdown is sent; non-trivial: a task and a listener that gave up",
        Plan::new(4_000, 200_000),
        (vec(op(), 0..25), vec(op(), 0..12)),
        |(b, a)| paused(play(b, a)),
    );
    ctx.check(
        "threads",
        "tasks on four threads that listen at random times while the shutdown is sent; every one hears it and waiting ends after the last; non-trivial: at least four tasks",
        Plan::new(120, 3_000).shrink(60),
        (vec((0u16..3000, 0u16..3000), 1..12), 0u16..3000),
        |(tasks, send)| {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            let out = rt.block_on(async {
                let (tx, rx) = shutdown::channel();
                let alive = Arc::new(AtomicUsize::new(tasks.len()));
                for (poll, finish) in tasks.iter().copied() {
                    let (mut rx, alive) = (rx.clone(), alive.clone());
                    tokio::spawn(async move {
                        // gives up now and then, as a select does
                        while timeout(Duration::from_micros(poll as u64), rx.recv()).await.is_err() {}
                        sleep(Duration::from_micros(finish as u64)).await;
                        alive.fetch_sub(1, Ordering::SeqCst);
                        drop(rx);
                    });
                }
                drop(rx);
                sleep(Duration::from_micros(*send as u64)).await;
                let w = tx.send();
                timeout(Duration::from_secs(20), w.wait()).await.map_err(|_| "waiting for the tasks did not end")?;
                let left = alive.load(Ordering::SeqCst);
                ensure!(left == 0, "waiting ended while {left} tasks were alive");
                Ok(Obs::new(tasks.len() >= 4))
            });
            rt.shutdown_timeout(Duration::from_secs(1));
            out
        },
    );
}

const GROWTH: [fn(f64) -> f64; 5] =
    [|x| 3.0 + 0.04 * x.powf(3.0), |x| 7.0 + 0.01 * x.powf(3.7), |x| 1.0 + x, |_| 2.0, |x| 0.25 * (1.0 + x * x)];

async fn intervals(f: usize, max: f64, waits: &[u16]) -> TestResult {
    let growth = GROWTH[f];
    let mut iv = CappedGrowingInterval::new(max, growth);
    let mut n = 0;
    let mut since = Instant::now();
    let (mut cancelled, mut capped) = (0, false);
    let ms = |x: u128| x as f64 / 1000.0;
    for w in waits {
        let want = growth(n as f64).min(max);
        // beside other events, which come before it or after it
        let ticked = timeout(Duration::from_millis(*w as u64 * 10), iv.tick()).await.is_ok();
        let passed = ms(since.elapsed().as_millis());
        if ticked {
            ensure!((passed - want).abs() < 0.01, "tick {n} came after {passed} s instead of {want} s");
            capped |= want == max;
            n += 1;
            since = Instant::now();
        } else {
            cancelled += 1;
            ensure!(passed < want + 0.01, "tick {n} did not come within {passed} s, {want} s are due");
        }
    }
    Ok(Obs::new(n >= 3 && cancelled >= 3).label_if(capped, "capped"))
}

pub fn growing(ctx: &mut Ctx) {
    ctx.assume("virtual clock; a tick is started again as soon as it ended or was given up, as in the program's loops");
    ctx.check(
        "interval",
        "growth formulas (the program's and others), caps, and events that interrupt the wait for a tick at generated times; non-trivial: at least three ticks and three interruptions",
        Plan::new(6_000, 300_000),
        (0usize..GROWTH.len(), 1u16..300, vec(prop_oneof![3 => 0u16..400, 1 => 0u16..40_000], 1..60)),
        |(f, max, waits)| paused(intervals(*f, *max as f64, waits)),
    );
}
