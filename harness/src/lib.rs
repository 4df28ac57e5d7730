pub mod engine;
pub mod model;
pub mod osm_tables;
pub mod pbf;
pub mod text;
pub mod props;
