pub mod bin2str;
pub mod channels;
pub mod filters;
pub mod formats;
pub mod memory;
pub mod objects;
pub mod osc;
pub mod resampler;
pub mod rests;
pub mod sounds;
pub mod wav;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(osc::properties());
    v.extend(formats::properties());
    v.extend(resampler::properties());
    v.extend(wav::properties());
    v.extend(filters::properties());
    v.extend(objects::properties());
    v.extend(memory::properties());
    v.extend(channels::properties());
    v.extend(sounds::properties());
    v.extend(bin2str::properties());
    v
}
