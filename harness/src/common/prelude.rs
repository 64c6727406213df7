pub use crate::key::{Eqv, Key};
pub use crate::obj::{Gen, MapObj, SetObj, Via};
pub use crate::run::{Built, Fam, MB, SB, Src, parses, read_map, read_set};
pub use crate::track::{Bh, Tk, Tv};
pub use crate::{inh_map, inh_set, map_routes, set_routes};
pub use frozen_collections_core::traits::*;
pub use serde_json::Value;
