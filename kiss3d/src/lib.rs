//! Stand-in for kiss3d: a window that records what is drawn and lets the simulator pace frames.
extern crate nalgebra as na;

pub mod sim {
    use std::sync::Mutex;

    #[derive(Default, Clone)]
    pub struct Frame {
        pub points: Vec<[f32; 3]>,
        pub lines: Vec<([f32; 3], [f32; 3])>,
    }
    /// Called after every frame; false closes the window.
    pub type OnFrame = Box<dyn FnMut(usize, Frame) -> bool + Send>;

    pub(crate) struct Screen {
        pub cur: Frame,
        pub frames: usize,
        pub windows: usize,
        pub on_frame: Option<OnFrame>,
        pub closed: bool,
    }
    pub(crate) static SCREEN: Mutex<Screen> = Mutex::new(Screen {
        cur: Frame {
            points: vec![],
            lines: vec![],
        },
        frames: 0,
        windows: 0,
        on_frame: None,
        closed: false,
    });

    pub(crate) fn with<R>(f: impl FnOnce(&mut Screen) -> R) -> R {
        let _u = simcore::alloc::uncounted();
        f(&mut SCREEN.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn begin(f: OnFrame) {
        with(|s| {
            s.cur = Frame::default();
            s.frames = 0;
            s.windows = 0;
            s.closed = false;
            s.on_frame = Some(f);
        })
    }
    /// Windows opened, frames completed, whether something was drawn that no frame showed.
    pub fn end() -> (usize, usize, bool) {
        with(|s| {
            s.on_frame = None;
            let c = std::mem::take(&mut s.cur);
            (s.windows, s.frames, !c.points.is_empty() || !c.lines.is_empty())
        })
    }
    /// The frame is complete. Returns false once the window is to close.
    pub(crate) fn present() -> bool {
        let _u = simcore::alloc::uncounted();
        let (f, frame, n) = with(|s| {
            s.frames += 1;
            (s.on_frame.take(), std::mem::take(&mut s.cur), s.frames)
        });
        let mut f = match f {
            Some(f) => f,
            None => return false,
        };
        let more = f(n, frame);
        with(|s| {
            s.on_frame = Some(f);
            s.closed |= !more;
        });
        more
    }
}

pub mod light {
    #[derive(Clone, Debug, PartialEq)]
    pub enum Light {
        Absolute(na::Point3<f32>),
        StickToCamera,
    }
}

pub mod window {
    use crate::light::Light;
    use crate::sim;
    use na::Point3;

    pub trait State: 'static {
        fn step(&mut self, window: &mut Window);
    }
    impl State for () {
        fn step(&mut self, _: &mut Window) {}
    }

    pub struct Window {
        _p: (),
    }
    impl Window {
        pub fn new(_title: &str) -> Window {
            simcore::sched::point();
            sim::with(|s| s.windows += 1);
            Window { _p: () }
        }
        pub fn new_hidden(t: &str) -> Window {
            Window::new(t)
        }
        pub fn new_with_size(t: &str, _w: u32, _h: u32) -> Window {
            Window::new(t)
        }
        pub fn set_light(&mut self, _l: Light) {}
        pub fn set_point_size(&mut self, _s: f32) {}
        pub fn set_line_width(&mut self, _s: f32) {}
        pub fn set_background_color(&mut self, _r: f32, _g: f32, _b: f32) {}
        pub fn set_title(&mut self, _t: &str) {}
        pub fn set_framerate_limit(&mut self, _f: Option<u64>) {}
        pub fn show(&mut self) {}
        pub fn hide(&mut self) {}
        pub fn close(&mut self) {
            sim::with(|s| s.closed = true)
        }
        pub fn should_close(&self) -> bool {
            sim::with(|s| s.closed)
        }
        pub fn draw_line(&mut self, a: &Point3<f32>, b: &Point3<f32>, _color: &Point3<f32>) {
            simcore::sched::point();
            sim::with(|s| s.cur.lines.push(([a.x, a.y, a.z], [b.x, b.y, b.z])));
        }
        pub fn draw_point(&mut self, p: &Point3<f32>, _color: &Point3<f32>) {
            let n = sim::with(|s| {
                s.cur.points.push([p.x, p.y, p.z]);
                s.cur.points.len()
            });
            if n % 16 == 1 {
                simcore::sched::point();
            }
        }
        /// Presents the frame drawn so far; false when the window was closed.
        pub fn render(&mut self) -> bool {
            simcore::sched::point();
            sim::present() && !self.should_close()
        }
        pub fn render_loop<S: State>(mut self, mut state: S) {
            while !self.should_close() {
                simcore::sched::point();
                state.step(&mut self);
                if !self.render() {
                    break;
                }
            }
        }
    }
}
