//! Virtual time with real sockets: the clock of the runtime stands still except when `pass` moves it, and after every
//! move the runtime gets a number of I/O rounds, so how far the code gets doesn't depend on the speed of the machine.

use std::time::Duration;

pub struct Virtual {
    stop: Option<std::sync::mpsc::Sender<()>>,
    rounds: usize,
    start: tokio::time::Instant,
}



impl Virtual {
    /// inside of a current_thread runtime that was started paused
    pub fn new(rounds: usize) -> Self {
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        // while a blocking task runs, tokio doesn't move the clock on its own
        tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        Self { stop: Some(tx), rounds, start: tokio::time::Instant::now() }
    }
    pub fn now(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub async fn settle(&self, rounds: usize) {
        for _ in 0..rounds {
            let _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(60))).await;
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        }
    }
    pub async fn pass(&self, secs: f64, step: f64) {
        let mut left = secs;
        while left > 1e-9 {
            let d = left.min(step);
            tokio::time::advance(Duration::from_secs_f64(d)).await;
            self.settle(self.rounds).await;
            left -= d;
        }
    }
    /// what takes real time (the disk) may need more of it than virtual time leaves on a busy machine
    pub async fn wait_for<T>(&self, task: &tokio::task::JoinHandle<T>, secs: u64) -> bool {
        let begin = std::time::Instant::now();
        while !task.is_finished() && begin.elapsed().as_secs() < secs {
            self.settle(2).await;
        }
        task.is_finished()
    }
    pub fn end(mut self) {
        self.stop.take();
    }
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
