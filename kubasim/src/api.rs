//! One face over the 2-D and 3-D maps (coordinates are always written as three numbers).
use kuba::prelude::*;

pub type C3 = [i64; 3];
pub type P3 = [f32; 3];

/// Operations every map offers, whatever its element, dimension and wrapper.
pub trait MapApi<E>: Sized {
    const N: usize;
    const NAME: &'static str;
    fn make(res: f32, min: P3, max: P3, tile: usize, default: E) -> Self;
    fn make_default() -> Self;
    fn tile(&self) -> usize;
    fn at(&self, c: C3) -> E;
    fn put(&mut self, c: C3, v: E);
    fn res(&self) -> f32;
    fn ext(&self) -> (P3, P3);
    fn center(&self, c: C3) -> P3;
    fn locate(&self, p: P3) -> C3;
    fn tracking(&self) -> bool;
    fn set_tracking(&mut self, v: bool);
    fn changed(&self) -> Vec<C3>;
    fn clear_changed(&mut self);
    fn add_changed(&mut self, cells: &[C3]);
    fn grow(&mut self, min: P3, max: P3, default: E);
    fn copy(&self) -> Self;
    /// A new process's map made from what this one stored: values, extent, resolution, tile size.
    /// `column_major` stores the values in the other memory order.
    fn restore(&self, column_major: bool) -> Self;
}

fn relaid<E: nalgebra::Scalar, D: ndarray::Dimension>(a: &ndarray::Array<E, D>, column_major: bool) -> ndarray::Array<E, D> {
    if !column_major {
        return a.clone();
    }
    // Reversed axes twice: the same values by index, the other order in memory.
    let mut t = ndarray::Array::<E, D>::from_shape_vec(
        a.clone().reversed_axes().raw_dim(),
        a.t().iter().cloned().collect::<Vec<E>>(),
    )
    .unwrap();
    t = t.reversed_axes();
    t
}

/// Maps of log-odds that integrate scans.
pub trait ScanMap: MapApi<f32> {
    fn make_noise(nm: NoiseCfg, res: f32, tile: usize) -> Self;
    /// As `make_noise`, with a region that exists already.
    fn make_noise_at(nm: NoiseCfg, res: f32, tile: usize, min: P3, max: P3, value: f32) -> Self;
    fn integrate(&mut self, nm: &kuba::LidarNoiseModel, origin: P3, pts: &[P3]);
    /// As `integrate`, through a wrapper that records every access and may cut it short.
    fn integrate_watched(&mut self, nm: &kuba::LidarNoiseModel, origin: P3, pts: &[P3], w: &mut Watch);
    fn occupied_at(&self, nm: &kuba::LidarNoiseModel, c: C3) -> bool;
    fn cast(o: P3, e: P3, min: P3, max: P3, res: f32, max_len: f32) -> (Vec<C3>, Option<C3>);
}

#[derive(Clone, Copy, Debug)]
pub struct NoiseCfg {
    pub hit: f32,
    pub miss: f32,
    pub min: f32,
    pub max: f32,
    pub thr: f32,
    pub range: f32,
}
impl NoiseCfg {
    pub fn build(&self) -> kuba::LidarNoiseModel {
        kuba::LidarNoiseModel::new(self.hit, self.miss, self.min, self.max, self.thr, self.range)
    }
}

/// What a watched integration did, and when it is to be cut short.
#[derive(Default)]
pub struct Watch {
    pub calls: u64,
    pub gets: u64,
    pub sets: u64,
    pub grows: u64,
    pub cut_at: Option<u64>,
    pub cut: bool,
}
impl Watch {
    fn tick(&mut self) {
        if self.cut_at == Some(self.calls) {
            self.cut = true;
            panic!("simulated interruption of the integration");
        }
        self.calls += 1;
    }
}

pub struct Watched<'a, M> {
    inner: &'a mut M,
    w: std::cell::RefCell<&'a mut Watch>,
}

macro_rules! dim {
    ($n:expr, $nad:ty, $ndd:ty, $pt:ident, $cl:ident, $bd:ident, $mk:ident, [$($i:expr),*]) => {
        fn $mk() -> (fn(P3) -> kuba::$pt, fn(C3) -> kuba::$cl) {
            (|p| kuba::$pt::new($(p[$i]),*), |c| kuba::$cl::new($(c[$i] as isize),*))
        }

        impl<E: nalgebra::Scalar + DefaultElem> MapApi<E> for kuba::GridMapN<E, $nad, $ndd> {
            const N: usize = $n;
            const NAME: &'static str = concat!("GridMap", $n);
            fn make(res: f32, min: P3, max: P3, tile: usize, default: E) -> Self {
                let p = $mk().0;
                kuba::GridMapN::<E, $nad, $ndd>::new(res, kuba::$bd { min: p(min), max: p(max) }, tile, default)
            }
            fn make_default() -> Self {
                kuba::GridMapN::<E, $nad, $ndd>::default()
            }
            fn tile(&self) -> usize { self.tile_size }
            fn at(&self, c: C3) -> E { self.get(&$mk().1(c)) }
            fn put(&mut self, c: C3, v: E) { self.set(&$mk().1(c), v) }
            fn res(&self) -> f32 { self.resolution() }
            fn ext(&self) -> (P3, P3) {
                let b = self.bounds();
                let mut a = ([0.0; 3], [0.0; 3]);
                for i in 0..$n { a.0[i] = b.min[i]; a.1[i] = b.max[i]; }
                a
            }
            fn center(&self, c: C3) -> P3 {
                let p = self.point_from_cell(&$mk().1(c));
                let mut a = [0.0; 3];
                for i in 0..$n { a[i] = p[i]; }
                a
            }
            fn locate(&self, p: P3) -> C3 {
                let c = self.cell_from_point(&$mk().0(p));
                let mut a = [0; 3];
                for i in 0..$n { a[i] = c[i] as i64; }
                a
            }
            fn tracking(&self) -> bool { self.track_changes() }
            fn set_tracking(&mut self, v: bool) { self.set_track_changes(v) }
            fn changed(&self) -> Vec<C3> {
                self.changed_cells().iter().map(|c| {
                    let mut a = [0; 3];
                    for i in 0..$n { a[i] = c[i] as i64; }
                    a
                }).collect()
            }
            fn clear_changed(&mut self) { self.clear_changed_cells() }
            fn add_changed(&mut self, cells: &[C3]) {
                self.add_changed_cells(cells.iter().map(|c| $mk().1(*c)).collect())
            }
            fn grow(&mut self, min: P3, max: P3, default: E) {
                let p = $mk().0;
                self.expand_bounds(&kuba::$bd { min: p(min), max: p(max) }, default)
            }
            fn copy(&self) -> Self { self.clone() }
            fn restore(&self, column_major: bool) -> Self {
                kuba::GridMapN::<E, $nad, $ndd>::from_ndarray(
                    relaid(&self.data, column_major),
                    self.resolution(),
                    self.bounds(),
                    self.tile_size,
                )
            }
        }

        impl<'a> GridMap<f32, $nad, $ndd> for Watched<'a, kuba::GridMapN<f32, $nad, $ndd>> {
            fn get(&self, cell: &kuba::Cell<$nad>) -> f32 {
                let mut w = self.w.borrow_mut();
                w.tick();
                w.gets += 1;
                self.inner.get(cell)
            }
            fn set(&mut self, cell: &kuba::Cell<$nad>, value: f32) {
                let w = self.w.get_mut();
                w.tick();
                w.sets += 1;
                self.inner.set(cell, value)
            }
            fn resolution(&self) -> f32 { self.inner.resolution() }
            fn bounds(&self) -> kuba::Bounds<$nad> { self.inner.bounds() }
            fn point_from_cell(&self, cell: &kuba::Cell<$nad>) -> kuba::Point<$nad> { self.inner.point_from_cell(cell) }
            fn cell_from_point(&self, p: &kuba::Point<$nad>) -> kuba::Cell<$nad> { self.inner.cell_from_point(p) }
            fn track_changes(&self) -> bool { self.inner.track_changes() }
            fn set_track_changes(&mut self, v: bool) { self.inner.set_track_changes(v) }
            fn changed_cells(&self) -> Vec<kuba::Cell<$nad>> { self.inner.changed_cells() }
            fn clear_changed_cells(&mut self) { self.inner.clear_changed_cells() }
            fn add_changed_cells(&mut self, cells: Vec<kuba::Cell<$nad>>) {
                self.w.get_mut().tick();
                self.inner.add_changed_cells(cells)
            }
        }
        impl<'a> ExpandableGridMap<f32, $nad, $ndd> for Watched<'a, kuba::GridMapN<f32, $nad, $ndd>> {
            fn expand_bounds(&mut self, bounds: &kuba::Bounds<$nad>, default_value: f32) {
                let w = self.w.get_mut();
                w.tick();
                w.grows += 1;
                self.inner.expand_bounds(bounds, default_value)
            }
        }

        impl ScanMap for kuba::GridMapN<f32, $nad, $ndd> {
            fn make_noise(_: NoiseCfg, res: f32, tile: usize) -> Self {
                kuba::GridMapN::<f32, $nad, $ndd>::new(res, kuba::$bd::empty(), tile, 0.0)
            }
            fn make_noise_at(_: NoiseCfg, res: f32, tile: usize, min: P3, max: P3, value: f32) -> Self {
                <Self as MapApi<f32>>::make(res, min, max, tile, value)
            }
            fn integrate(&mut self, nm: &kuba::LidarNoiseModel, origin: P3, pts: &[P3]) {
                let p = $mk().0;
                let v: Vec<kuba::$pt> = pts.iter().map(|q| p(*q)).collect();
                nm.integrate_point_cloud(self, &p(origin), &kuba::PointCloud::<$nad>::from_points(&v));
            }
            fn integrate_watched(&mut self, nm: &kuba::LidarNoiseModel, origin: P3, pts: &[P3], w: &mut Watch) {
                let p = $mk().0;
                let v: Vec<kuba::$pt> = pts.iter().map(|q| p(*q)).collect();
                let cloud = kuba::PointCloud::<$nad>::from_points(&v);
                let mut wd = Watched { inner: self, w: std::cell::RefCell::new(w) };
                nm.integrate_point_cloud(&mut wd, &p(origin), &cloud);
            }
            fn occupied_at(&self, nm: &kuba::LidarNoiseModel, c: C3) -> bool {
                nm.occupied(self, &$mk().1(c))
            }
            fn cast(o: P3, e: P3, min: P3, max: P3, res: f32, max_len: f32) -> (Vec<C3>, Option<C3>) {
                let p = $mk().0;
                let (v, end) = kuba::ray_caster::cast_ray(&p(o), &p(e), &kuba::$bd { min: p(min), max: p(max) }, res, max_len);
                let f = |c: &kuba::$cl| {
                    let mut a = [0; 3];
                    for i in 0..$n { a[i] = c[i] as i64; }
                    a
                };
                (v.iter().map(f).collect(), end.as_ref().map(f))
            }
        }

        impl MapApi<f32> for kuba::LidarOccupancyGridMap<$nad, $ndd> {
            const N: usize = $n;
            const NAME: &'static str = concat!("OccupancyGridMap", $n);
            fn make(res: f32, min: P3, max: P3, tile: usize, default: f32) -> Self {
                let mut m = Self::new(kuba::LidarNoiseModel::default(), res, tile);
                m.grid_map = <kuba::GridMapN<f32, $nad, $ndd> as MapApi<f32>>::make(res, min, max, tile, default);
                m
            }
            fn make_default() -> Self { Self::default() }
            fn tile(&self) -> usize { self.grid_map.tile_size }
            fn at(&self, c: C3) -> f32 { self.get(&$mk().1(c)) }
            fn put(&mut self, c: C3, v: f32) { self.set(&$mk().1(c), v) }
            fn res(&self) -> f32 { self.resolution() }
            fn ext(&self) -> (P3, P3) {
                let b = self.bounds();
                let mut a = ([0.0; 3], [0.0; 3]);
                for i in 0..$n { a.0[i] = b.min[i]; a.1[i] = b.max[i]; }
                a
            }
            fn center(&self, c: C3) -> P3 {
                let p = self.point_from_cell(&$mk().1(c));
                let mut a = [0.0; 3];
                for i in 0..$n { a[i] = p[i]; }
                a
            }
            fn locate(&self, p: P3) -> C3 {
                let c = self.cell_from_point(&$mk().0(p));
                let mut a = [0; 3];
                for i in 0..$n { a[i] = c[i] as i64; }
                a
            }
            fn tracking(&self) -> bool { self.track_changes() }
            fn set_tracking(&mut self, v: bool) { self.set_track_changes(v) }
            fn changed(&self) -> Vec<C3> {
                self.changed_cells().iter().map(|c| {
                    let mut a = [0; 3];
                    for i in 0..$n { a[i] = c[i] as i64; }
                    a
                }).collect()
            }
            fn clear_changed(&mut self) { self.clear_changed_cells() }
            fn add_changed(&mut self, cells: &[C3]) {
                self.add_changed_cells(cells.iter().map(|c| $mk().1(*c)).collect())
            }
            fn grow(&mut self, min: P3, max: P3, default: f32) {
                MapApi::grow(&mut self.grid_map, min, max, default)
            }
            fn copy(&self) -> Self {
                let n = &self.noise_model;
                let mut nm = kuba::LidarNoiseModel::default();
                nm.hit_probability_logodds = n.hit_probability_logodds;
                nm.miss_probability_logodds = n.miss_probability_logodds;
                nm.min_probability_logodds = n.min_probability_logodds;
                nm.max_probability_logodds = n.max_probability_logodds;
                nm.occupied_threshold_logodds = n.occupied_threshold_logodds;
                nm.max_range = n.max_range;
                let mut m = Self::new(nm, self.grid_map.resolution, self.grid_map.tile_size);
                m.grid_map = self.grid_map.clone();
                m
            }
            fn restore(&self, column_major: bool) -> Self {
                let mut m = self.copy();
                m.grid_map = MapApi::restore(&self.grid_map, column_major);
                m
            }
        }
        impl ScanMap for kuba::LidarOccupancyGridMap<$nad, $ndd> {
            fn make_noise(nm: NoiseCfg, res: f32, tile: usize) -> Self {
                Self::new(nm.build(), res, tile)
            }
            fn make_noise_at(nm: NoiseCfg, res: f32, tile: usize, min: P3, max: P3, value: f32) -> Self {
                let mut m = Self::new(nm.build(), res, tile);
                m.grid_map = <kuba::GridMapN<f32, $nad, $ndd> as MapApi<f32>>::make(res, min, max, tile, value);
                m
            }
            fn integrate(&mut self, _: &kuba::LidarNoiseModel, origin: P3, pts: &[P3]) {
                let p = $mk().0;
                let v: Vec<kuba::$pt> = pts.iter().map(|q| p(*q)).collect();
                self.integrate_point_cloud(&p(origin), &kuba::PointCloud::<$nad>::from_points(&v));
            }
            fn integrate_watched(&mut self, nm: &kuba::LidarNoiseModel, origin: P3, pts: &[P3], w: &mut Watch) {
                self.grid_map.integrate_watched(nm, origin, pts, w)
            }
            fn occupied_at(&self, _: &kuba::LidarNoiseModel, c: C3) -> bool {
                self.occupied(&$mk().1(c))
            }
            fn cast(o: P3, e: P3, min: P3, max: P3, res: f32, max_len: f32) -> (Vec<C3>, Option<C3>) {
                <kuba::GridMapN<f32, $nad, $ndd> as ScanMap>::cast(o, e, min, max, res, max_len)
            }
        }
    };
}

/// Bound of `GridMapN::default()`.
pub trait DefaultElem {}
impl DefaultElem for f32 {}
impl DefaultElem for i32 {}
impl DefaultElem for crate::faulty::Tok {}

dim!(2, nalgebra::U2, ndarray::Ix2, Point2, Cell2, Bounds2, mk2, [0, 1]);
dim!(3, nalgebra::U3, ndarray::Ix3, Point3, Cell3, Bounds3, mk3, [0, 1, 2]);
