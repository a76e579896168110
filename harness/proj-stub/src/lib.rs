//! Stand-in for the `proj` crate (the PROJ library is not installed): records
//! what the caller asks for and applies a transparent, invertible map so that
//! the caller's use of the projector is visible in the results.
//!
//! forward: (lon, lat) in radians -> (x, y) = (lon * KX, lat * KY) metres
//! inverse: (x, y) -> (lon, lat)
use std::cell::RefCell;

pub const KX: f64 = 1_000_000.0;
pub const KY: f64 = 3_000_000.0;

#[derive(Clone, Debug, Default)]
pub struct Calls {
    pub defs: Vec<String>,
    pub projected: Vec<((f64, f64), bool)>,
    pub arrays: Vec<(Vec<(f64, f64)>, bool)>,
    pub fail_new: bool,
    pub fail_project: bool,
    pub fail_array: bool,
}

thread_local! {
    pub static CALLS: RefCell<Calls> = RefCell::new(Calls::default());
}

pub fn reset() {
    CALLS.with(|c| *c.borrow_mut() = Calls::default());
}

pub fn take() -> Calls {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

#[derive(Debug)]
pub struct ProjError(pub String);
impl std::fmt::Display for ProjError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ProjError {}

pub struct Proj;

impl Proj {
    pub fn new(definition: &str) -> Result<Self, ProjError> {
        CALLS.with(|c| {
            let mut c = c.borrow_mut();
            c.defs.push(definition.to_owned());
            if c.fail_new {
                Err(ProjError("new".into()))
            } else {
                Ok(Proj)
            }
        })
    }

    pub fn project(&self, p: (f64, f64), inverse: bool) -> Result<(f64, f64), ProjError> {
        CALLS.with(|c| {
            let mut c = c.borrow_mut();
            c.projected.push((p, inverse));
            if c.fail_project {
                return Err(ProjError("project".into()));
            }
            Ok(map(p, inverse))
        })
    }

    pub fn project_array<'a>(
        &self,
        a: &'a mut [(f64, f64)],
        inverse: bool,
    ) -> Result<&'a mut [(f64, f64)], ProjError> {
        let r = CALLS.with(|c| {
            let mut c = c.borrow_mut();
            c.arrays.push((a.to_vec(), inverse));
            if c.fail_array {
                return Err(ProjError("array".into()));
            }
            Ok(())
        });
        r?;
        for p in a.iter_mut() {
            *p = map(*p, inverse);
        }
        Ok(a)
    }
}

fn map(p: (f64, f64), inverse: bool) -> (f64, f64) {
    if inverse {
        (p.0 / KX, p.1 / KY)
    } else {
        (p.0 * KX, p.1 * KY)
    }
}
