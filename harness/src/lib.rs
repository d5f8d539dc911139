//! Runtime monitors for mirror-mirror: shadow models, oracles and workloads.
pub mod cli;
pub mod ctx;
pub mod gen;
pub mod model;
pub mod mon_access;
pub mod mon_conc;
pub mod mon_conv;
pub mod mon_feat;
pub mod mon_misc;
pub mod mon_text;
pub mod mon_type;
pub mod mon_value;
pub mod observe;
pub mod oracle;
pub mod rng;
pub mod zoo;
