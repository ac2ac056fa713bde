//! A recording stand-in for the parts of kiss3d 0.25 that the visualiser uses: no window, every frame is logged.
//!
//! Environment: VIZMON_LOG (file), VIZMON_TARGET (end after this many changes of what is drawn, 0 = by time only),
//! VIZMON_WALL_MS (end after this time if there is no target), VIZMON_STALL_MS (give up when nothing happens for so
//! long), VIZMON_PACE ("min,max" microseconds between frames), VIZMON_DELAY ("mode,seed,slow_us,rare_limit").
pub mod light {
    #[derive(Clone)]
    pub enum Light {
        Absolute(nalgebra::Point3<f32>),
        StickToCamera,
    }
}

pub mod window {
    use crate::light::Light;
    use nalgebra::Point3;
    use std::fmt::Write as _;
    use std::io::Write as _;
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::time::{Duration, Instant};

    pub trait State: 'static {
        fn step(&mut self, window: &mut Window);
    }
    impl State for () {
        fn step(&mut self, _: &mut Window) {}
    }

    extern "C" {
        fn vizdelay_arm(seed: u64, mode: i32, slow_us: u32, rare_limit: u32);
        fn vizdelay_step(inside: i32);
        fn vizdelay_ignore();
        fn vizdelay_count() -> u64;
        fn _exit(code: i32) -> !;
    }

    fn env_num(name: &str, default: u64) -> u64 {
        std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
    }
    fn env_list(name: &str) -> Vec<u64> {
        std::env::var(name).unwrap_or_default().split(',').filter_map(|v| v.parse().ok()).collect()
    }

    static FRAMES: AtomicU64 = AtomicU64::new(0);

    fn open_log() -> std::fs::File {
        std::fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(std::env::var_os("VIZMON_LOG").expect("VIZMON_LOG"))
            .expect("open log")
    }

    pub struct Window {
        log: std::fs::File,
        start: Instant,
        lines: Vec<[u32; 9]>,
        points: Vec<[u32; 3]>,
        last: Option<(Vec<[u32; 9]>, Vec<[u32; 3]>)>,
        repeats: u64,
        last_change: Instant,
        changes: u64,
        frames: u64,
        target: u64,
        wall: Duration,
        stall: Duration,
        pace: (u64, u64),
        rng: u64,
        closed: bool,
    }

    impl Window {
        pub fn new(_title: &str) -> Window {
            Self::create()
        }
        pub fn new_hidden(_title: &str) -> Window {
            Self::create()
        }
        pub fn new_with_size(_title: &str, _width: u32, _height: u32) -> Window {
            Self::create()
        }
        fn create() -> Window {
            let delay = env_list("VIZMON_DELAY");
            let d = |i: usize| delay.get(i).copied().unwrap_or(0);
            let pace = env_list("VIZMON_PACE");
            let stall = Duration::from_millis(env_num("VIZMON_STALL_MS", 60_000));
            let default_hook = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |info| {
                let text = info.to_string().replace('\n', " ");
                let _ = open_log().write_all(format!("PANIC {}\n", text).as_bytes());
                default_hook(info);
            }));
            // Gives up on a render loop that does not come back.
            std::thread::spawn(move || {
                unsafe { vizdelay_ignore() };
                let mut last = (0, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = FRAMES.load(Ordering::Relaxed);
                    if now != last.0 {
                        last = (now, Instant::now());
                    } else if last.1.elapsed() > stall {
                        let _ = open_log().write_all(b"STUCK\n");
                        unsafe { _exit(3) };
                    }
                }
            });
            let w = Window {
                log: open_log(),
                start: Instant::now(),
                lines: vec![],
                points: vec![],
                last: None,
                repeats: 0,
                last_change: Instant::now(),
                changes: 0,
                frames: 0,
                target: env_num("VIZMON_TARGET", 0),
                wall: Duration::from_millis(env_num("VIZMON_WALL_MS", 300)),
                stall,
                pace: (pace.get(0).copied().unwrap_or(0), pace.get(1).copied().unwrap_or(0)),
                rng: d(1) | 1,
                closed: false,
            };
            unsafe { vizdelay_arm(d(1), d(0) as i32, d(2) as u32, d(3) as u32) };
            w
        }

        pub fn draw_line(&mut self, a: &Point3<f32>, b: &Point3<f32>, color: &Point3<f32>) {
            let v: Vec<u32> = a.iter().chain(b.iter()).chain(color.iter()).map(|x| x.to_bits()).collect();
            let mut l = [0; 9];
            l.copy_from_slice(&v);
            self.lines.push(l);
        }
        pub fn draw_point(&mut self, pt: &Point3<f32>, _color: &Point3<f32>) {
            self.points.push([pt.x.to_bits(), pt.y.to_bits(), pt.z.to_bits()]);
        }
        pub fn set_light(&mut self, _light: Light) {}
        pub fn set_point_size(&mut self, _size: f32) {}
        pub fn set_line_width(&mut self, _width: f32) {}
        pub fn set_background_color(&mut self, _r: f32, _g: f32, _b: f32) {}
        pub fn set_framerate_limit(&mut self, _fps: Option<u64>) {}
        pub fn set_title(&mut self, _title: &str) {}
        pub fn hide(&mut self) {}
        pub fn show(&mut self) {}
        pub fn close(&mut self) {
            self.closed = true;
        }
        pub fn should_close(&self) -> bool {
            self.closed
        }

        /// The end of a frame: log what was drawn if it differs from the frame before. False when the run is over.
        fn end_frame(&mut self) -> bool {
            self.frames += 1;
            FRAMES.store(self.frames, Ordering::Relaxed);
            self.lines.sort();
            self.points.sort();
            let now = (std::mem::replace(&mut self.lines, vec![]), std::mem::replace(&mut self.points, vec![]));
            if self.last.as_ref() == Some(&now) {
                self.repeats += 1;
            } else {
                let mut text = String::new();
                if self.last.is_some() {
                    let _ = writeln!(text, "N {}", self.repeats);
                }
                let _ = writeln!(text, "C {} {}", self.frames, self.start.elapsed().as_micros());
                for l in &now.0 {
                    text.push('L');
                    for x in l {
                        let _ = write!(text, " {:x}", x);
                    }
                    text.push('\n');
                }
                for p in &now.1 {
                    let _ = writeln!(text, "Q {:x} {:x} {:x}", p[0], p[1], p[2]);
                }
                self.log.write_all(text.as_bytes()).expect("write log");
                self.changes += 1;
                self.last_change = Instant::now();
                self.repeats = 1;
                self.last = Some(now);
            }
            let end = if self.closed {
                Some("closed")
            } else if self.target > 0 && self.changes > self.target {
                Some("target")
            } else if self.target > 0 && self.last_change.elapsed() > self.stall {
                Some("stall")
            } else if self.target == 0 && self.start.elapsed() > self.wall {
                Some("time")
            } else {
                None
            };
            if let Some(reason) = end {
                let text = format!("N {}\nEND {} {} {}\n", self.repeats, reason, self.frames, unsafe { vizdelay_count() });
                self.log.write_all(text.as_bytes()).expect("write log");
                self.closed = true;
                return false;
            }
            true
        }

        fn pause(&mut self) {
            let (lo, hi) = self.pace;
            if hi == 0 {
                std::thread::yield_now();
                return;
            }
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            std::thread::sleep(Duration::from_micros(lo + self.rng % (hi - lo + 1)));
        }

        pub fn render_with_state<S: State>(&mut self, state: &mut S) -> bool {
            if self.closed {
                return false;
            }
            self.pause();
            unsafe { vizdelay_step(1) };
            state.step(self);
            unsafe { vizdelay_step(0) };
            self.end_frame()
        }
        pub fn render_loop<S: State>(mut self, mut state: S) {
            while self.render_with_state(&mut state) {}
        }
        /// For programs that draw between calls of `render` instead of implementing `State`.
        pub fn render(&mut self) -> bool {
            if self.closed {
                return false;
            }
            unsafe { vizdelay_step(0) };
            let more = self.frames == 0 && self.lines.is_empty() && self.points.is_empty() || self.end_frame();
            self.pause();
            unsafe { vizdelay_step(1) };
            more
        }
    }
}
