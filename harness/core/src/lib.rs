pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
pub mod rx;
pub mod tabletext;
pub mod strokes;
