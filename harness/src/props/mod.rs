pub mod p_bytes;
pub mod p_comp;
pub mod p_pure;
pub mod p_tree;
pub mod p_weights;
pub mod p_hostile;
pub mod p_san;
pub mod p_cli;
pub mod p_fault;
pub mod p_cold;
pub mod p_many;
pub mod p_parts;
