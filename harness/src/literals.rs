// Generated by tools/gen_literals.py; do not edit.
use super::{lit, Data};

pub fn h_lit_n_r_bare() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0) } }
pub fn h_lit_t_r_bare() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0) } }
pub fn h_lit_n_r_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [] } }
pub fn h_lit_t_r_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [] } }
pub fn h_lit_n_r_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [], } }
pub fn h_lit_t_r_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [], } }
pub fn h_lit_n_r0_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1)] } }
pub fn h_lit_t_r0_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1)] } }
pub fn h_lit_n_r0_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1),], } }
pub fn h_lit_t_r0_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1),], } }
pub fn h_lit_n_r0_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [])] } }
pub fn h_lit_t_r0_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [])] } }
pub fn h_lit_n_r0_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []),], } }
pub fn h_lit_t_r0_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []),], } }
pub fn h_lit_n_r00_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2)] } }
pub fn h_lit_t_r00_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2)] } }
pub fn h_lit_n_r00_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2),], } }
pub fn h_lit_t_r00_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2),], } }
pub fn h_lit_n_r00_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [])] } }
pub fn h_lit_t_r00_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [])] } }
pub fn h_lit_n_r00_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []),], } }
pub fn h_lit_t_r00_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []),], } }
pub fn h_lit_n_r00_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2)] } }
pub fn h_lit_t_r00_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2)] } }
pub fn h_lit_n_r00_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2),], } }
pub fn h_lit_t_r00_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2),], } }
pub fn h_lit_n_r00_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [])] } }
pub fn h_lit_t_r00_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [])] } }
pub fn h_lit_n_r00_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []),], } }
pub fn h_lit_t_r00_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []),], } }
pub fn h_lit_n_r01_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)])] } }
pub fn h_lit_t_r01_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)])] } }
pub fn h_lit_n_r01_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]),], } }
pub fn h_lit_t_r01_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]),], } }
pub fn h_lit_n_r01_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])])] } }
pub fn h_lit_t_r01_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])])] } }
pub fn h_lit_n_r01_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]),], } }
pub fn h_lit_t_r01_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]),], } }
pub fn h_lit_n_r000_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3)] } }
pub fn h_lit_t_r000_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3)] } }
pub fn h_lit_n_r000_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3),], } }
pub fn h_lit_t_r000_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3),], } }
pub fn h_lit_n_r000_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [])] } }
pub fn h_lit_t_r000_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [])] } }
pub fn h_lit_n_r000_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []),], } }
pub fn h_lit_t_r000_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []),], } }
pub fn h_lit_n_r000_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3)] } }
pub fn h_lit_t_r000_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3)] } }
pub fn h_lit_n_r000_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3),], } }
pub fn h_lit_t_r000_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3),], } }
pub fn h_lit_n_r000_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [])] } }
pub fn h_lit_t_r000_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [])] } }
pub fn h_lit_n_r000_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []),], } }
pub fn h_lit_t_r000_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []),], } }
pub fn h_lit_n_r000_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3)] } }
pub fn h_lit_t_r000_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3)] } }
pub fn h_lit_n_r000_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3),], } }
pub fn h_lit_t_r000_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3),], } }
pub fn h_lit_n_r000_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [])] } }
pub fn h_lit_t_r000_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [])] } }
pub fn h_lit_n_r000_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []),], } }
pub fn h_lit_t_r000_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []),], } }
pub fn h_lit_n_r000_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3)] } }
pub fn h_lit_t_r000_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3)] } }
pub fn h_lit_n_r000_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3),], } }
pub fn h_lit_t_r000_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3),], } }
pub fn h_lit_n_r000_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [])] } }
pub fn h_lit_t_r000_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [])] } }
pub fn h_lit_n_r000_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []),], } }
pub fn h_lit_t_r000_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []),], } }
pub fn h_lit_n_r001_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)])] } }
pub fn h_lit_t_r001_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)])] } }
pub fn h_lit_n_r001_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3),]),], } }
pub fn h_lit_t_r001_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3),]),], } }
pub fn h_lit_n_r001_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])])] } }
pub fn h_lit_t_r001_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])])] } }
pub fn h_lit_n_r001_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]),], } }
pub fn h_lit_t_r001_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]),], } }
pub fn h_lit_n_r001_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)])] } }
pub fn h_lit_t_r001_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)])] } }
pub fn h_lit_n_r001_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]),], } }
pub fn h_lit_t_r001_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]),], } }
pub fn h_lit_n_r001_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])])] } }
pub fn h_lit_t_r001_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])])] } }
pub fn h_lit_n_r001_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]),], } }
pub fn h_lit_t_r001_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]),], } }
pub fn h_lit_n_r010_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3)] } }
pub fn h_lit_t_r010_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3)] } }
pub fn h_lit_n_r010_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), lit(3),], } }
pub fn h_lit_t_r010_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), lit(3),], } }
pub fn h_lit_n_r010_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [])] } }
pub fn h_lit_t_r010_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [])] } }
pub fn h_lit_n_r010_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []),], } }
pub fn h_lit_t_r010_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []),], } }
pub fn h_lit_n_r010_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3)] } }
pub fn h_lit_t_r010_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3)] } }
pub fn h_lit_n_r010_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3),], } }
pub fn h_lit_t_r010_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3),], } }
pub fn h_lit_n_r010_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [])] } }
pub fn h_lit_t_r010_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [])] } }
pub fn h_lit_n_r010_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []),], } }
pub fn h_lit_t_r010_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []),], } }
pub fn h_lit_n_r011_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)])] } }
pub fn h_lit_t_r011_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)])] } }
pub fn h_lit_n_r011_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3),]),], } }
pub fn h_lit_t_r011_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3),]),], } }
pub fn h_lit_n_r011_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])])] } }
pub fn h_lit_t_r011_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])])] } }
pub fn h_lit_n_r011_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]),], } }
pub fn h_lit_t_r011_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]),], } }
pub fn h_lit_n_r011_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)])] } }
pub fn h_lit_t_r011_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)])] } }
pub fn h_lit_n_r011_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]),], } }
pub fn h_lit_t_r011_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]),], } }
pub fn h_lit_n_r011_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])])] } }
pub fn h_lit_t_r011_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])])] } }
pub fn h_lit_n_r011_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]),], } }
pub fn h_lit_t_r011_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]),], } }
pub fn h_lit_n_r012_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])])] } }
pub fn h_lit_t_r012_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])])] } }
pub fn h_lit_n_r012_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]),], } }
pub fn h_lit_t_r012_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]),], } }
pub fn h_lit_n_r012_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])])] } }
pub fn h_lit_t_r012_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])])] } }
pub fn h_lit_n_r012_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]),], } }
pub fn h_lit_t_r012_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]),], } }
pub fn h_lit_n_r0000_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), lit(4)] } }
pub fn h_lit_t_r0000_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), lit(4)] } }
pub fn h_lit_n_r0000_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), lit(4),], } }
pub fn h_lit_t_r0000_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), lit(4),], } }
pub fn h_lit_n_r0000_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0000_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0000_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0000_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0000_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0000_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0000_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0000_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0000_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0000_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0000_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0000_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0000_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3), lit(4)] } }
pub fn h_lit_t_r0000_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3), lit(4)] } }
pub fn h_lit_n_r0000_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3), lit(4),], } }
pub fn h_lit_t_r0000_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3), lit(4),], } }
pub fn h_lit_n_r0000_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0000_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0000_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0000_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0000_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0000_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0000_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0000_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0000_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0000_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0000_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0000_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0000_8p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3), lit(4)] } }
pub fn h_lit_t_r0000_8p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3), lit(4)] } }
pub fn h_lit_n_r0000_8c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3), lit(4),], } }
pub fn h_lit_t_r0000_8c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3), lit(4),], } }
pub fn h_lit_n_r0000_9p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0000_9p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0000_9c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0000_9c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0000_10p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0000_10p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0000_10c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0000_10c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0000_11p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0000_11p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0000_11c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0000_11c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0000_12p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), lit(4)] } }
pub fn h_lit_t_r0000_12p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), lit(4)] } }
pub fn h_lit_n_r0000_12c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), lit(4),], } }
pub fn h_lit_t_r0000_12c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), lit(4),], } }
pub fn h_lit_n_r0000_13p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0000_13p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0000_13c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0000_13c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0000_14p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0000_14p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0000_14c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0000_14c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0000_15p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0000_15p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0000_15c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0000_15c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0001_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0001_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0001_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0001_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0001_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0001_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0001_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0001_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0001_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0001_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0001_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0001_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0001_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0001_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0001_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0001_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), []), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0001_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0001_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0001_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0001_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0001_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0001_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0001_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0001_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0001_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0001_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0001_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0001_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0001_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0001_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0001_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0001_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), []), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0010_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), lit(4)] } }
pub fn h_lit_t_r0010_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), lit(4)] } }
pub fn h_lit_n_r0010_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3),]), lit(4),], } }
pub fn h_lit_t_r0010_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3),]), lit(4),], } }
pub fn h_lit_n_r0010_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [])] } }
pub fn h_lit_t_r0010_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [])] } }
pub fn h_lit_n_r0010_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3),]), /(lit(4), []),], } }
pub fn h_lit_t_r0010_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3),]), /(lit(4), []),], } }
pub fn h_lit_n_r0010_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])]), lit(4)] } }
pub fn h_lit_t_r0010_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])]), lit(4)] } }
pub fn h_lit_n_r0010_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]), lit(4),], } }
pub fn h_lit_t_r0010_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]), lit(4),], } }
pub fn h_lit_n_r0010_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_t_r0010_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_n_r0010_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_t_r0010_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_n_r0010_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)]), lit(4)] } }
pub fn h_lit_t_r0010_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)]), lit(4)] } }
pub fn h_lit_n_r0010_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), lit(4),], } }
pub fn h_lit_t_r0010_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), lit(4),], } }
pub fn h_lit_n_r0010_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)]), /(lit(4), [])] } }
pub fn h_lit_t_r0010_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3)]), /(lit(4), [])] } }
pub fn h_lit_n_r0010_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), []),], } }
pub fn h_lit_t_r0010_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), []),], } }
pub fn h_lit_n_r0010_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])]), lit(4)] } }
pub fn h_lit_t_r0010_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])]), lit(4)] } }
pub fn h_lit_n_r0010_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]), lit(4),], } }
pub fn h_lit_t_r0010_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]), lit(4),], } }
pub fn h_lit_n_r0010_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_t_r0010_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_n_r0010_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_t_r0010_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_n_r0011_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4)])] } }
pub fn h_lit_t_r0011_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4)])] } }
pub fn h_lit_n_r0011_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4),]),], } }
pub fn h_lit_t_r0011_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4),]),], } }
pub fn h_lit_n_r0011_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [])])] } }
pub fn h_lit_t_r0011_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [])])] } }
pub fn h_lit_n_r0011_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []),]),], } }
pub fn h_lit_t_r0011_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []),]),], } }
pub fn h_lit_n_r0011_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), lit(4)])] } }
pub fn h_lit_t_r0011_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), lit(4)])] } }
pub fn h_lit_n_r0011_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), lit(4),]),], } }
pub fn h_lit_t_r0011_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), lit(4),]),], } }
pub fn h_lit_n_r0011_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_t_r0011_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_n_r0011_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_t_r0011_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_n_r0011_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), lit(4)])] } }
pub fn h_lit_t_r0011_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), lit(4)])] } }
pub fn h_lit_n_r0011_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), lit(4),]),], } }
pub fn h_lit_t_r0011_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), lit(4),]),], } }
pub fn h_lit_n_r0011_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), [])])] } }
pub fn h_lit_t_r0011_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), [])])] } }
pub fn h_lit_n_r0011_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []),]),], } }
pub fn h_lit_t_r0011_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []),]),], } }
pub fn h_lit_n_r0011_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), lit(4)])] } }
pub fn h_lit_t_r0011_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), lit(4)])] } }
pub fn h_lit_n_r0011_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), lit(4),]),], } }
pub fn h_lit_t_r0011_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), lit(4),]),], } }
pub fn h_lit_n_r0011_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_t_r0011_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_n_r0011_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_t_r0011_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_n_r0012_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)])])] } }
pub fn h_lit_t_r0012_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)])])] } }
pub fn h_lit_n_r0012_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4),]),]),], } }
pub fn h_lit_t_r0012_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4),]),]),], } }
pub fn h_lit_n_r0012_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_t_r0012_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_n_r0012_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_t_r0012_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_n_r0012_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4)])])] } }
pub fn h_lit_t_r0012_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4)])])] } }
pub fn h_lit_n_r0012_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]),]),], } }
pub fn h_lit_t_r0012_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]),]),], } }
pub fn h_lit_n_r0012_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_t_r0012_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_n_r0012_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_t_r0012_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_n_r0100_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), lit(4)] } }
pub fn h_lit_t_r0100_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), lit(4)] } }
pub fn h_lit_n_r0100_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), lit(3), lit(4),], } }
pub fn h_lit_t_r0100_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), lit(3), lit(4),], } }
pub fn h_lit_n_r0100_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0100_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0100_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0100_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0100_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0100_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0100_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0100_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0100_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0100_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0100_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0100_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0100_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3), lit(4)] } }
pub fn h_lit_t_r0100_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3), lit(4)] } }
pub fn h_lit_n_r0100_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), lit(4),], } }
pub fn h_lit_t_r0100_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), lit(4),], } }
pub fn h_lit_n_r0100_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3), /(lit(4), [])] } }
pub fn h_lit_t_r0100_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), lit(3), /(lit(4), [])] } }
pub fn h_lit_n_r0100_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), []),], } }
pub fn h_lit_t_r0100_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), []),], } }
pub fn h_lit_n_r0100_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), []), lit(4)] } }
pub fn h_lit_t_r0100_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), []), lit(4)] } }
pub fn h_lit_n_r0100_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []), lit(4),], } }
pub fn h_lit_t_r0100_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []), lit(4),], } }
pub fn h_lit_n_r0100_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_t_r0100_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), []), /(lit(4), [])] } }
pub fn h_lit_n_r0100_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_t_r0100_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), []), /(lit(4), []),], } }
pub fn h_lit_n_r0101_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0101_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0101_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0101_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0101_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0101_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0101_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0101_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0101_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [lit(4)])] } }
pub fn h_lit_t_r0101_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [lit(4)])] } }
pub fn h_lit_n_r0101_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4),]),], } }
pub fn h_lit_t_r0101_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4),]),], } }
pub fn h_lit_n_r0101_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_t_r0101_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [])]), /(lit(3), [/(lit(4), [])])] } }
pub fn h_lit_n_r0101_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_t_r0101_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [/(lit(4), []),]),], } }
pub fn h_lit_n_r0110_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), lit(4)] } }
pub fn h_lit_t_r0110_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), lit(4)] } }
pub fn h_lit_n_r0110_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3),]), lit(4),], } }
pub fn h_lit_t_r0110_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3),]), lit(4),], } }
pub fn h_lit_n_r0110_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [])] } }
pub fn h_lit_t_r0110_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [])] } }
pub fn h_lit_n_r0110_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3),]), /(lit(4), []),], } }
pub fn h_lit_t_r0110_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3),]), /(lit(4), []),], } }
pub fn h_lit_n_r0110_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])]), lit(4)] } }
pub fn h_lit_t_r0110_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])]), lit(4)] } }
pub fn h_lit_n_r0110_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]), lit(4),], } }
pub fn h_lit_t_r0110_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]), lit(4),], } }
pub fn h_lit_n_r0110_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_t_r0110_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_n_r0110_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_t_r0110_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_n_r0110_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)]), lit(4)] } }
pub fn h_lit_t_r0110_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)]), lit(4)] } }
pub fn h_lit_n_r0110_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), lit(4),], } }
pub fn h_lit_t_r0110_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), lit(4),], } }
pub fn h_lit_n_r0110_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)]), /(lit(4), [])] } }
pub fn h_lit_t_r0110_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3)]), /(lit(4), [])] } }
pub fn h_lit_n_r0110_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), []),], } }
pub fn h_lit_t_r0110_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), []),], } }
pub fn h_lit_n_r0110_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])]), lit(4)] } }
pub fn h_lit_t_r0110_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])]), lit(4)] } }
pub fn h_lit_n_r0110_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]), lit(4),], } }
pub fn h_lit_t_r0110_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]), lit(4),], } }
pub fn h_lit_n_r0110_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_t_r0110_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [])]), /(lit(4), [])] } }
pub fn h_lit_n_r0110_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_t_r0110_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []),]), /(lit(4), []),], } }
pub fn h_lit_n_r0120_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), lit(4)] } }
pub fn h_lit_t_r0120_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), lit(4)] } }
pub fn h_lit_n_r0120_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), lit(4),], } }
pub fn h_lit_t_r0120_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), lit(4),], } }
pub fn h_lit_n_r0120_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), /(lit(4), [])] } }
pub fn h_lit_t_r0120_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), /(lit(4), [])] } }
pub fn h_lit_n_r0120_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), /(lit(4), []),], } }
pub fn h_lit_t_r0120_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), /(lit(4), []),], } }
pub fn h_lit_n_r0120_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])]), lit(4)] } }
pub fn h_lit_t_r0120_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])]), lit(4)] } }
pub fn h_lit_n_r0120_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), lit(4),], } }
pub fn h_lit_t_r0120_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), lit(4),], } }
pub fn h_lit_n_r0120_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])]), /(lit(4), [])] } }
pub fn h_lit_t_r0120_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])])]), /(lit(4), [])] } }
pub fn h_lit_n_r0120_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), /(lit(4), []),], } }
pub fn h_lit_t_r0120_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), /(lit(4), []),], } }
pub fn h_lit_n_r0111_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4)])] } }
pub fn h_lit_t_r0111_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4)])] } }
pub fn h_lit_n_r0111_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4),]),], } }
pub fn h_lit_t_r0111_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4),]),], } }
pub fn h_lit_n_r0111_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [])])] } }
pub fn h_lit_t_r0111_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [])])] } }
pub fn h_lit_n_r0111_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []),]),], } }
pub fn h_lit_t_r0111_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []),]),], } }
pub fn h_lit_n_r0111_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), lit(4)])] } }
pub fn h_lit_t_r0111_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), lit(4)])] } }
pub fn h_lit_n_r0111_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), lit(4),]),], } }
pub fn h_lit_t_r0111_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), lit(4),]),], } }
pub fn h_lit_n_r0111_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_t_r0111_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_n_r0111_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_t_r0111_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_n_r0111_4p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), lit(4)])] } }
pub fn h_lit_t_r0111_4p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), lit(4)])] } }
pub fn h_lit_n_r0111_4c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), lit(4),]),], } }
pub fn h_lit_t_r0111_4c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), lit(4),]),], } }
pub fn h_lit_n_r0111_5p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), [])])] } }
pub fn h_lit_t_r0111_5p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), [])])] } }
pub fn h_lit_n_r0111_5c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []),]),], } }
pub fn h_lit_t_r0111_5c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []),]),], } }
pub fn h_lit_n_r0111_6p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), lit(4)])] } }
pub fn h_lit_t_r0111_6p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), lit(4)])] } }
pub fn h_lit_n_r0111_6c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), lit(4),]),], } }
pub fn h_lit_t_r0111_6c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), lit(4),]),], } }
pub fn h_lit_n_r0111_7p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_t_r0111_7p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), /(lit(4), [])])] } }
pub fn h_lit_n_r0111_7c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_t_r0111_7c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), []), /(lit(4), []),]),], } }
pub fn h_lit_n_r0112_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)])])] } }
pub fn h_lit_t_r0112_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)])])] } }
pub fn h_lit_n_r0112_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4),]),]),], } }
pub fn h_lit_t_r0112_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4),]),]),], } }
pub fn h_lit_n_r0112_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_t_r0112_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_n_r0112_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_t_r0112_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_n_r0112_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4)])])] } }
pub fn h_lit_t_r0112_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4)])])] } }
pub fn h_lit_n_r0112_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]),]),], } }
pub fn h_lit_t_r0112_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]),]),], } }
pub fn h_lit_n_r0112_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_t_r0112_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), [])])])] } }
pub fn h_lit_n_r0112_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_t_r0112_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), []),]),]),], } }
pub fn h_lit_n_r0121_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4)])] } }
pub fn h_lit_t_r0121_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4)])] } }
pub fn h_lit_n_r0121_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), lit(4),]),], } }
pub fn h_lit_t_r0121_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), lit(4),]),], } }
pub fn h_lit_n_r0121_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [])])] } }
pub fn h_lit_t_r0121_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [])])] } }
pub fn h_lit_n_r0121_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), []),]),], } }
pub fn h_lit_t_r0121_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), []),]),], } }
pub fn h_lit_n_r0121_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])]), lit(4)])] } }
pub fn h_lit_t_r0121_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])]), lit(4)])] } }
pub fn h_lit_n_r0121_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4),]),], } }
pub fn h_lit_t_r0121_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4),]),], } }
pub fn h_lit_n_r0121_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])]), /(lit(4), [])])] } }
pub fn h_lit_t_r0121_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [])]), /(lit(4), [])])] } }
pub fn h_lit_n_r0121_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), /(lit(4), []),]),], } }
pub fn h_lit_t_r0121_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), /(lit(4), []),]),], } }
pub fn h_lit_n_r0122_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)])])] } }
pub fn h_lit_t_r0122_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)])])] } }
pub fn h_lit_n_r0122_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4),]),]),], } }
pub fn h_lit_t_r0122_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4),]),]),], } }
pub fn h_lit_n_r0122_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [])])])] } }
pub fn h_lit_t_r0122_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [])])])] } }
pub fn h_lit_n_r0122_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), []),]),]),], } }
pub fn h_lit_t_r0122_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), []),]),]),], } }
pub fn h_lit_n_r0122_2p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4)])])] } }
pub fn h_lit_t_r0122_2p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4)])])] } }
pub fn h_lit_n_r0122_2c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]),]),], } }
pub fn h_lit_t_r0122_2c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]),]),], } }
pub fn h_lit_n_r0122_3p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), [])])])] } }
pub fn h_lit_t_r0122_3p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), [])])])] } }
pub fn h_lit_n_r0122_3c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), []),]),]),], } }
pub fn h_lit_t_r0122_3c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), []),]),]),], } }
pub fn h_lit_n_r0123_0p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])])] } }
pub fn h_lit_t_r0123_0p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])])] } }
pub fn h_lit_n_r0123_0c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]),]),]),], } }
pub fn h_lit_t_r0123_0c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]),]),]),], } }
pub fn h_lit_n_r0123_1p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [])])])])] } }
pub fn h_lit_t_r0123_1p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [])])])])] } }
pub fn h_lit_n_r0123_1c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]),]),], } }
pub fn h_lit_t_r0123_1c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]),]),], } }
pub fn h_lit_n_r00000_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), lit(4), lit(5)] } }
pub fn h_lit_t_r00000_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), lit(4), lit(5)] } }
pub fn h_lit_n_r00000_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4), /(lit(5), []),] } }
pub fn h_lit_t_r00000_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), lit(4), /(lit(5), []),] } }
pub fn h_lit_n_r00001_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), [lit(5)])] } }
pub fn h_lit_t_r00001_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), /(lit(4), [lit(5)])] } }
pub fn h_lit_n_r00001_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), [lit(5),]),] } }
pub fn h_lit_t_r00001_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), []), /(lit(4), [lit(5),]),] } }
pub fn h_lit_n_r00010_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4)]), lit(5)] } }
pub fn h_lit_t_r00010_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4)]), lit(5)] } }
pub fn h_lit_n_r00010_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []),]), lit(5),] } }
pub fn h_lit_t_r00010_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []),]), lit(5),] } }
pub fn h_lit_n_r00011_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4), lit(5)])] } }
pub fn h_lit_t_r00011_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [lit(4), lit(5)])] } }
pub fn h_lit_n_r00011_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []), lit(5),]),] } }
pub fn h_lit_t_r00011_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), []), lit(5),]),] } }
pub fn h_lit_n_r00012_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [lit(5)])])] } }
pub fn h_lit_t_r00012_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [lit(5)])])] } }
pub fn h_lit_n_r00012_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_t_r00012_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), lit(2), /(lit(3), [/(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_n_r00100_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), lit(4), lit(5)] } }
pub fn h_lit_t_r00100_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), lit(4), lit(5)] } }
pub fn h_lit_n_r00100_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), []), lit(5),] } }
pub fn h_lit_t_r00100_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), []), lit(5),] } }
pub fn h_lit_n_r00101_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [lit(5)])] } }
pub fn h_lit_t_r00101_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [lit(5)])] } }
pub fn h_lit_n_r00101_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_t_r00101_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3),]), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_n_r00110_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4)]), lit(5)] } }
pub fn h_lit_t_r00110_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4)]), lit(5)] } }
pub fn h_lit_n_r00110_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []),]), lit(5),] } }
pub fn h_lit_t_r00110_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []),]), lit(5),] } }
pub fn h_lit_n_r00120_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)])]), lit(5)] } }
pub fn h_lit_t_r00120_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)])]), lit(5)] } }
pub fn h_lit_n_r00120_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_t_r00120_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_n_r00111_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4), lit(5)])] } }
pub fn h_lit_t_r00111_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), lit(4), lit(5)])] } }
pub fn h_lit_n_r00111_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []), lit(5),]),] } }
pub fn h_lit_t_r00111_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), []), lit(5),]),] } }
pub fn h_lit_n_r00112_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [lit(5)])])] } }
pub fn h_lit_t_r00112_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [lit(5)])])] } }
pub fn h_lit_n_r00112_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_t_r00112_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [lit(3), /(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_n_r00121_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), lit(5)])] } }
pub fn h_lit_t_r00121_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), lit(5)])] } }
pub fn h_lit_n_r00121_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_t_r00121_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_n_r00122_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), lit(5)])])] } }
pub fn h_lit_t_r00122_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), lit(5)])])] } }
pub fn h_lit_n_r00122_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_t_r00122_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_n_r00123_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5)])])])] } }
pub fn h_lit_t_r00123_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5)])])])] } }
pub fn h_lit_n_r00123_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_t_r00123_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), []), /(lit(2), [/(lit(3), [/(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_n_r01000_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), lit(4), lit(5)] } }
pub fn h_lit_t_r01000_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), lit(4), lit(5)] } }
pub fn h_lit_n_r01000_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), []), lit(5),] } }
pub fn h_lit_t_r01000_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), []), lit(5),] } }
pub fn h_lit_n_r01001_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [lit(5)])] } }
pub fn h_lit_t_r01001_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [lit(5)])] } }
pub fn h_lit_n_r01001_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_t_r01001_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), lit(3), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_n_r01010_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4)]), lit(5)] } }
pub fn h_lit_t_r01010_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4)]), lit(5)] } }
pub fn h_lit_n_r01010_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4),]), /(lit(5), []),] } }
pub fn h_lit_t_r01010_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4),]), /(lit(5), []),] } }
pub fn h_lit_n_r01011_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), lit(5)])] } }
pub fn h_lit_t_r01011_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), lit(5)])] } }
pub fn h_lit_n_r01011_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4), /(lit(5), []),]),] } }
pub fn h_lit_t_r01011_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [lit(4), /(lit(5), []),]),] } }
pub fn h_lit_n_r01012_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [lit(5)])])] } }
pub fn h_lit_t_r01012_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [lit(5)])])] } }
pub fn h_lit_n_r01012_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [/(lit(4), [lit(5),]),]),] } }
pub fn h_lit_t_r01012_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []),]), /(lit(3), [/(lit(4), [lit(5),]),]),] } }
pub fn h_lit_n_r01100_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), lit(4), lit(5)] } }
pub fn h_lit_t_r01100_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), lit(4), lit(5)] } }
pub fn h_lit_n_r01100_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), []), lit(5),] } }
pub fn h_lit_t_r01100_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), []), lit(5),] } }
pub fn h_lit_n_r01101_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [lit(5)])] } }
pub fn h_lit_t_r01101_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [lit(5)])] } }
pub fn h_lit_n_r01101_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_t_r01101_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3),]), /(lit(4), [/(lit(5), []),]),] } }
pub fn h_lit_n_r01200_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), lit(4), lit(5)] } }
pub fn h_lit_t_r01200_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), lit(4), lit(5)] } }
pub fn h_lit_n_r01200_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), lit(4), /(lit(5), []),] } }
pub fn h_lit_t_r01200_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), lit(4), /(lit(5), []),] } }
pub fn h_lit_n_r01201_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), /(lit(4), [lit(5)])] } }
pub fn h_lit_t_r01201_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)])]), /(lit(4), [lit(5)])] } }
pub fn h_lit_n_r01201_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), /(lit(4), [lit(5),]),] } }
pub fn h_lit_t_r01201_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]),]), /(lit(4), [lit(5),]),] } }
pub fn h_lit_n_r01110_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4)]), lit(5)] } }
pub fn h_lit_t_r01110_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4)]), lit(5)] } }
pub fn h_lit_n_r01110_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []),]), lit(5),] } }
pub fn h_lit_t_r01110_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []),]), lit(5),] } }
pub fn h_lit_n_r01120_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)])]), lit(5)] } }
pub fn h_lit_t_r01120_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)])]), lit(5)] } }
pub fn h_lit_n_r01120_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_t_r01120_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_n_r01210_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4)]), lit(5)] } }
pub fn h_lit_t_r01210_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4)]), lit(5)] } }
pub fn h_lit_n_r01210_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4),]), /(lit(5), []),] } }
pub fn h_lit_t_r01210_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4),]), /(lit(5), []),] } }
pub fn h_lit_n_r01220_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)])]), lit(5)] } }
pub fn h_lit_t_r01220_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)])]), lit(5)] } }
pub fn h_lit_n_r01220_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_t_r01220_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]),]), /(lit(5), []),] } }
pub fn h_lit_n_r01230_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])]), lit(5)] } }
pub fn h_lit_t_r01230_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])]), lit(5)] } }
pub fn h_lit_n_r01230_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]),]), lit(5),] } }
pub fn h_lit_t_r01230_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]),]), lit(5),] } }
pub fn h_lit_n_r01111_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4), lit(5)])] } }
pub fn h_lit_t_r01111_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), lit(4), lit(5)])] } }
pub fn h_lit_n_r01111_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []), lit(5),]),] } }
pub fn h_lit_t_r01111_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), []), lit(5),]),] } }
pub fn h_lit_n_r01112_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [lit(5)])])] } }
pub fn h_lit_t_r01112_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [lit(5)])])] } }
pub fn h_lit_n_r01112_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_t_r01112_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), lit(3), /(lit(4), [/(lit(5), []),]),]),] } }
pub fn h_lit_n_r01121_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), lit(5)])] } }
pub fn h_lit_t_r01121_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), lit(5)])] } }
pub fn h_lit_n_r01121_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_t_r01121_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_n_r01122_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), lit(5)])])] } }
pub fn h_lit_t_r01122_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), lit(5)])])] } }
pub fn h_lit_n_r01122_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_t_r01122_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_n_r01123_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5)])])])] } }
pub fn h_lit_t_r01123_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5)])])])] } }
pub fn h_lit_n_r01123_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_t_r01123_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), []), /(lit(3), [/(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_n_r01211_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), lit(5)])] } }
pub fn h_lit_t_r01211_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), lit(5)])] } }
pub fn h_lit_n_r01211_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4), /(lit(5), []),]),] } }
pub fn h_lit_t_r01211_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), lit(4), /(lit(5), []),]),] } }
pub fn h_lit_n_r01212_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [lit(5)])])] } }
pub fn h_lit_t_r01212_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [lit(5)])])] } }
pub fn h_lit_n_r01212_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), /(lit(4), [lit(5),]),]),] } }
pub fn h_lit_t_r01212_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []),]), /(lit(4), [lit(5),]),]),] } }
pub fn h_lit_n_r01221_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), lit(5)])] } }
pub fn h_lit_t_r01221_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), lit(5)])] } }
pub fn h_lit_n_r01221_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_t_r01221_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4),]), /(lit(5), []),]),] } }
pub fn h_lit_n_r01231_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])]), lit(5)])] } }
pub fn h_lit_t_r01231_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])]), lit(5)])] } }
pub fn h_lit_n_r01231_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]), lit(5),]),] } }
pub fn h_lit_t_r01231_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]),]), lit(5),]),] } }
pub fn h_lit_n_r01222_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), lit(5)])])] } }
pub fn h_lit_t_r01222_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), lit(5)])])] } }
pub fn h_lit_n_r01222_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_t_r01222_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), lit(4), /(lit(5), []),]),]),] } }
pub fn h_lit_n_r01223_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5)])])])] } }
pub fn h_lit_t_r01223_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5)])])])] } }
pub fn h_lit_n_r01223_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_t_r01223_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), []), /(lit(4), [lit(5),]),]),]),] } }
pub fn h_lit_n_r01232_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), lit(5)])])] } }
pub fn h_lit_t_r01232_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), lit(5)])])] } }
pub fn h_lit_n_r01232_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]), lit(5),]),]),] } }
pub fn h_lit_t_r01232_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []),]), lit(5),]),]),] } }
pub fn h_lit_n_r01233_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5)])])])] } }
pub fn h_lit_t_r01233_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5)])])])] } }
pub fn h_lit_n_r01233_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []), lit(5),]),]),]),] } }
pub fn h_lit_t_r01233_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), []), lit(5),]),]),]),] } }
pub fn h_lit_n_r01234_p() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)])])])])] } }
pub fn h_lit_t_r01234_p() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)])])])])] } }
pub fn h_lit_n_r01234_c() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), []),]),]),]),]),] } }
pub fn h_lit_t_r01234_c() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), []),]),]),]),]),] } }
pub fn h_lit_n_r000000_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4), lit(5), /(lit(6), [])], } }
pub fn h_lit_t_r000000_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4), lit(5), /(lit(6), []),], } }
pub fn h_lit_n_r000001_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4), /(lit(5), [lit(6)]),], } }
pub fn h_lit_t_r000001_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), lit(4), /(lit(5), [lit(6),])], } }
pub fn h_lit_n_r000010_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [lit(5)]), lit(6),], } }
pub fn h_lit_t_r000010_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [lit(5),]), lit(6)], } }
pub fn h_lit_n_r000011_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [lit(5), lit(6)]),], } }
pub fn h_lit_t_r000011_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [lit(5), lit(6),])], } }
pub fn h_lit_n_r000012_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [/(lit(5), [lit(6)]),]),], } }
pub fn h_lit_t_r000012_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), []), /(lit(4), [/(lit(5), [lit(6)]),]),], } }
pub fn h_lit_n_r000100_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [])]), lit(5), lit(6),], } }
pub fn h_lit_t_r000100_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []),]), lit(5), lit(6)], } }
pub fn h_lit_n_r000101_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r000101_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r000110_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), lit(5)]), lit(6),], } }
pub fn h_lit_t_r000110_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), lit(5),]), lit(6)], } }
pub fn h_lit_n_r000120_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r000120_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r000111_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), lit(5), lit(6)]),], } }
pub fn h_lit_t_r000111_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), lit(5), lit(6),])], } }
pub fn h_lit_n_r000112_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_t_r000112_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_n_r000121_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r000121_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r000122_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r000122_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r000123_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r000123_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), /(lit(3), [/(lit(4), [/(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r001000_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), []), lit(5), lit(6),], } }
pub fn h_lit_t_r001000_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3),]), /(lit(4), []), lit(5), lit(6)], } }
pub fn h_lit_n_r001001_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r001001_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r001010_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r001010_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r001011_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r001011_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r001012_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3)]), /(lit(4), [/(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r001012_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3),]), /(lit(4), [/(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r001100_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [])]), lit(5), lit(6),], } }
pub fn h_lit_t_r001100_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []),]), lit(5), lit(6)], } }
pub fn h_lit_n_r001101_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r001101_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r001200_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r001200_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r001201_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]),]), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r001201_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4),]),]), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r001110_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), lit(5)]), lit(6),], } }
pub fn h_lit_t_r001110_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), lit(5),]), lit(6)], } }
pub fn h_lit_n_r001120_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r001120_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r001210_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r001210_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r001220_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r001220_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r001230_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5)]),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r001230_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5),]),])]), /(lit(6), []),], } }
pub fn h_lit_n_r001111_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), lit(5), lit(6)]),], } }
pub fn h_lit_t_r001111_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), lit(5), lit(6),])], } }
pub fn h_lit_n_r001112_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_t_r001112_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_n_r001121_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r001121_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r001122_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r001122_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r001123_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r001123_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [/(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r001211_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r001211_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r001212_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4)]), /(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r001212_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4),]), /(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r001221_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r001221_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r001231_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5)]),]), /(lit(6), []),])], } }
pub fn h_lit_t_r001231_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5),]),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r001222_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r001222_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r001223_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r001223_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [lit(4), /(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r001232_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5)]), /(lit(6), []),]),])], } }
pub fn h_lit_t_r001232_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5),]), /(lit(6), []),])]),], } }
pub fn h_lit_n_r001233_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5), /(lit(6), [])]),]),])], } }
pub fn h_lit_t_r001233_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [lit(5), /(lit(6), []),]),])]),], } }
pub fn h_lit_n_r001234_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [lit(6)]),]),])]),], } }
pub fn h_lit_t_r001234_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [lit(6),])]),]),])], } }
pub fn h_lit_n_r010000_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), []), lit(5), lit(6),], } }
pub fn h_lit_t_r010000_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), lit(3), /(lit(4), []), lit(5), lit(6)], } }
pub fn h_lit_n_r010001_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r010001_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r010010_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r010010_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r010011_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r010011_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r010012_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), lit(3), /(lit(4), [/(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r010012_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), lit(3), /(lit(4), [/(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r010100_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r010100_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r010101_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4),]), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r010101_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [lit(4),]), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r010110_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r010110_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r010120_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [lit(5),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r010120_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), [lit(5),])]), /(lit(6), []),], } }
pub fn h_lit_n_r010111_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r010111_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r010112_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [lit(4), /(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r010112_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [lit(4), /(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r010121_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [lit(5),]), /(lit(6), []),])], } }
pub fn h_lit_t_r010121_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), [lit(5),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r010122_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [lit(5), /(lit(6), []),]),])], } }
pub fn h_lit_t_r010122_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), [lit(5), /(lit(6), []),])]),], } }
pub fn h_lit_n_r010123_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2)]), /(lit(3), [/(lit(4), [/(lit(5), [lit(6),]),])]),], } }
pub fn h_lit_t_r010123_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2),]), /(lit(3), [/(lit(4), [/(lit(5), [lit(6)]),]),])], } }
pub fn h_lit_n_r011000_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), []), lit(5), lit(6),], } }
pub fn h_lit_t_r011000_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3),]), /(lit(4), []), lit(5), lit(6)], } }
pub fn h_lit_n_r011001_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r011001_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), []), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r011010_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r011010_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [/(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r011011_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r011011_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [/(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r011012_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3)]), /(lit(4), [/(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r011012_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3),]), /(lit(4), [/(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r012000_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), lit(4), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r012000_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), lit(4), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r012001_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), lit(4), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r012001_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), lit(4), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r012010_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), /(lit(4), [lit(5),]), /(lit(6), [])], } }
pub fn h_lit_t_r012010_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), /(lit(4), [lit(5)]), /(lit(6), []),], } }
pub fn h_lit_n_r012011_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), /(lit(4), [lit(5), /(lit(6), []),])], } }
pub fn h_lit_t_r012011_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]),]), /(lit(4), [lit(5), /(lit(6), [])]),], } }
pub fn h_lit_n_r012012_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]),]), /(lit(4), [/(lit(5), [lit(6),])]),], } }
pub fn h_lit_t_r012012_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),])]), /(lit(4), [/(lit(5), [lit(6),]),])], } }
pub fn h_lit_n_r011100_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [])]), lit(5), lit(6),], } }
pub fn h_lit_t_r011100_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []),]), lit(5), lit(6)], } }
pub fn h_lit_n_r011101_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_t_r011101_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [])]), /(lit(5), [lit(6),]),], } }
pub fn h_lit_n_r011200_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r011200_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r011201_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]),]), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r011201_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4),]),]), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r012100_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r012100_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r012101_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4),]), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r012101_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), lit(4),]), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r012200_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_t_r012200_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]),]), /(lit(5), []), lit(6),], } }
pub fn h_lit_n_r012201_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]),]), /(lit(5), [/(lit(6), []),])], } }
pub fn h_lit_t_r012201_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4),]),]), /(lit(5), [/(lit(6), [])]),], } }
pub fn h_lit_n_r012300_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]),]),]), lit(5), /(lit(6), [])], } }
pub fn h_lit_t_r012300_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]),])]), lit(5), /(lit(6), []),], } }
pub fn h_lit_n_r012301_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]),]),]), /(lit(5), [lit(6)]),], } }
pub fn h_lit_t_r012301_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),])]),]), /(lit(5), [lit(6),])], } }
pub fn h_lit_n_r011110_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), lit(5)]), lit(6),], } }
pub fn h_lit_t_r011110_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), lit(5),]), lit(6)], } }
pub fn h_lit_n_r011120_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r011120_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r011210_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r011210_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r011220_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r011220_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r011230_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5)]),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r011230_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5),]),])]), /(lit(6), []),], } }
pub fn h_lit_n_r012110_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r012110_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r012120_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [lit(5),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r012120_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), [lit(5),])]), /(lit(6), []),], } }
pub fn h_lit_n_r012210_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_t_r012210_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), /(lit(5), []),]), lit(6),], } }
pub fn h_lit_n_r012310_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]),]), lit(5),]), /(lit(6), [])], } }
pub fn h_lit_t_r012310_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]),]), lit(5)]), /(lit(6), []),], } }
pub fn h_lit_n_r012220_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_t_r012220_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [])]),]), lit(6),], } }
pub fn h_lit_n_r012230_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5)]),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r012230_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5),]),])]), /(lit(6), []),], } }
pub fn h_lit_n_r012320_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), lit(5),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r012320_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]), lit(5),])]), /(lit(6), []),], } }
pub fn h_lit_n_r012330_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5)]),]),]), /(lit(6), [])], } }
pub fn h_lit_t_r012330_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5),]),])]), /(lit(6), []),], } }
pub fn h_lit_n_r012340_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)]),]),])]), lit(6),], } }
pub fn h_lit_t_r012340_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5),])]),]),]), lit(6)], } }
pub fn h_lit_n_r011111_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), lit(5), lit(6)]),], } }
pub fn h_lit_t_r011111_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), lit(5), lit(6),])], } }
pub fn h_lit_n_r011112_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_t_r011112_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), []), /(lit(5), [lit(6)]),]),], } }
pub fn h_lit_n_r011121_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r011121_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r011122_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r011122_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r011123_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r011123_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), lit(3), /(lit(4), [/(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r011211_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r011211_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r011212_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4)]), /(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r011212_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4),]), /(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r011221_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r011221_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r011231_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5)]),]), /(lit(6), []),])], } }
pub fn h_lit_t_r011231_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5),]),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r011222_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r011222_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r011223_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r011223_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [lit(4), /(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r011232_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5)]), /(lit(6), []),]),])], } }
pub fn h_lit_t_r011232_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5),]), /(lit(6), []),])]),], } }
pub fn h_lit_n_r011233_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5), /(lit(6), [])]),]),])], } }
pub fn h_lit_t_r011233_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [lit(5), /(lit(6), []),]),])]),], } }
pub fn h_lit_n_r011234_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [/(lit(5), [lit(6)]),]),])]),], } }
pub fn h_lit_t_r011234_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [lit(2), /(lit(3), [/(lit(4), [/(lit(5), [lit(6),])]),]),])], } }
pub fn h_lit_n_r012111_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r012111_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r012112_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), lit(4), /(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r012112_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), lit(4), /(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r012121_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [lit(5),]), /(lit(6), []),])], } }
pub fn h_lit_t_r012121_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), [lit(5),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r012122_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [lit(5), /(lit(6), []),]),])], } }
pub fn h_lit_t_r012122_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), [lit(5), /(lit(6), []),])]),], } }
pub fn h_lit_n_r012123_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3)]), /(lit(4), [/(lit(5), [lit(6),]),])]),], } }
pub fn h_lit_t_r012123_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3),]), /(lit(4), [/(lit(5), [lit(6)]),]),])], } }
pub fn h_lit_n_r012211_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_t_r012211_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), /(lit(5), []), lit(6),]),], } }
pub fn h_lit_n_r012212_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4)]), /(lit(5), [/(lit(6), []),]),])], } }
pub fn h_lit_t_r012212_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4),]), /(lit(5), [/(lit(6), []),])]),], } }
pub fn h_lit_n_r012311_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]),]), lit(5), /(lit(6), []),])], } }
pub fn h_lit_t_r012311_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]),]), lit(5), /(lit(6), [])]),], } }
pub fn h_lit_n_r012312_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]),]), /(lit(5), [lit(6),])]),], } }
pub fn h_lit_t_r012312_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),])]), /(lit(5), [lit(6),]),])], } }
pub fn h_lit_n_r012221_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_t_r012221_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [])]), lit(6),]),], } }
pub fn h_lit_n_r012231_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5)]),]), /(lit(6), []),])], } }
pub fn h_lit_t_r012231_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5),]),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r012321_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), lit(5),]), /(lit(6), []),])], } }
pub fn h_lit_t_r012321_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]), lit(5),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r012331_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5)]),]), /(lit(6), []),])], } }
pub fn h_lit_t_r012331_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5),]),]), /(lit(6), [])]),], } }
pub fn h_lit_n_r012341_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)]),]),]), lit(6)]),], } }
pub fn h_lit_t_r012341_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5),])]),]), lit(6),])], } }
pub fn h_lit_n_r012222_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_t_r012222_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), []), lit(6)]),]),], } }
pub fn h_lit_n_r012223_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [/(lit(6), [])]),]),])], } }
pub fn h_lit_t_r012223_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), lit(4), /(lit(5), [/(lit(6), []),]),])]),], } }
pub fn h_lit_n_r012232_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5)]), /(lit(6), []),]),])], } }
pub fn h_lit_t_r012232_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5),]), /(lit(6), []),])]),], } }
pub fn h_lit_n_r012233_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5), /(lit(6), [])]),]),])], } }
pub fn h_lit_t_r012233_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [lit(5), /(lit(6), []),]),])]),], } }
pub fn h_lit_n_r012234_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [/(lit(5), [lit(6)]),]),])]),], } }
pub fn h_lit_t_r012234_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [lit(3), /(lit(4), [/(lit(5), [lit(6),])]),]),])], } }
pub fn h_lit_n_r012322_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), lit(5), /(lit(6), []),]),])], } }
pub fn h_lit_t_r012322_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]), lit(5), /(lit(6), []),])]),], } }
pub fn h_lit_n_r012323_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)]), /(lit(5), [lit(6),]),])]),], } }
pub fn h_lit_t_r012323_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4),]), /(lit(5), [lit(6)]),]),])], } }
pub fn h_lit_n_r012332_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5)]), /(lit(6), []),]),])], } }
pub fn h_lit_t_r012332_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5),]), /(lit(6), []),])]),], } }
pub fn h_lit_n_r012342_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)]),]), lit(6),])]),], } }
pub fn h_lit_t_r012342_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5),])]), lit(6),]),])], } }
pub fn h_lit_n_r012333_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5), /(lit(6), [])]),]),])], } }
pub fn h_lit_t_r012333_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), lit(5), /(lit(6), []),]),])]),], } }
pub fn h_lit_n_r012334_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), /(lit(5), [lit(6)]),]),])]),], } }
pub fn h_lit_t_r012334_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4), /(lit(5), [lit(6),])]),]),])], } }
pub fn h_lit_n_r012343_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5)]), lit(6),]),])]),], } }
pub fn h_lit_t_r012343_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5),]), lit(6)]),]),])], } }
pub fn h_lit_n_r012344_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5), lit(6)]),]),])]),], } }
pub fn h_lit_t_r012344_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [lit(5), lit(6),])]),]),])], } }
pub fn h_lit_n_r012345_m() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [lit(6)]),]),])]),]),], } }
pub fn h_lit_t_r012345_m() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [lit(6)]),]),])]),]),], } }
pub fn h_lit_n_r0123456789abcde_deep() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [/(lit(6), [/(lit(7), [/(lit(8), [/(lit(9), [/(lit(10), [/(lit(11), [/(lit(12), [/(lit(13), [/(lit(14), [lit(15)])])])])])])])])])])])])])])] } }
pub fn h_lit_t_r0123456789abcde_deep() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [/(lit(4), [/(lit(5), [/(lit(6), [/(lit(7), [/(lit(8), [/(lit(9), [/(lit(10), [/(lit(11), [/(lit(12), [/(lit(13), [/(lit(14), [lit(15)])])])])])])])])])])])])])])] } }
pub fn h_lit_n_r00000000000000000000_wide() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), lit(2), lit(3), lit(4), lit(5), lit(6), lit(7), lit(8), lit(9), lit(10), lit(11), lit(12), lit(13), lit(14), lit(15), lit(16), lit(17), lit(18), lit(19), lit(20)] } }
pub fn h_lit_t_r00000000000000000000_wide() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), lit(2), lit(3), lit(4), lit(5), lit(6), lit(7), lit(8), lit(9), lit(10), lit(11), lit(12), lit(13), lit(14), lit(15), lit(16), lit(17), lit(18), lit(19), lit(20)] } }
pub fn h_lit_n_r001122334455543210_comb() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [lit(5), /(lit(6), [lit(7), /(lit(8), [lit(9), /(lit(10), [lit(11), lit(12), lit(13)]), lit(14)]), lit(15)]), lit(16)]), lit(17)]), lit(18)] } }
pub fn h_lit_t_r001122334455543210_comb() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [lit(1), /(lit(2), [lit(3), /(lit(4), [lit(5), /(lit(6), [lit(7), /(lit(8), [lit(9), /(lit(10), [lit(11), lit(12), lit(13)]), lit(14)]), lit(15)]), lit(16)]), lit(17)]), lit(18)] } }
pub fn h_lit_n_r0123010123012_uneven() -> ::dendron::Node<Data> { ::dendron::tree_node! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])]), /(lit(5), [lit(6)]), /(lit(7), [/(lit(8), [/(lit(9), [lit(10)])])]), /(lit(11), [/(lit(12), [lit(13)])])] } }
pub fn h_lit_t_r0123010123012_uneven() -> ::dendron::Tree<Data> { ::dendron::tree! { lit(0), [/(lit(1), [/(lit(2), [/(lit(3), [lit(4)])])]), /(lit(5), [lit(6)]), /(lit(7), [/(lit(8), [/(lit(9), [lit(10)])])]), /(lit(11), [/(lit(12), [lit(13)])])] } }
pub fn h_lit_n_r0_x0() -> ::dendron::Node<Data> { ::dendron::tree_node! { { lit(0) }, [{ lit(1) }] } }
pub fn h_lit_t_r010_x0() -> ::dendron::Tree<Data> { ::dendron::tree! { { lit(0) }, [/({ lit(1) }, [{ lit(2) }]), { lit(3) }] } }
pub fn h_lit_n_r0_x1() -> ::dendron::Node<Data> { ::dendron::tree_node! { (lit(0)), [(lit(1))] } }
pub fn h_lit_t_r010_x1() -> ::dendron::Tree<Data> { ::dendron::tree! { (lit(0)), [/((lit(1)), [(lit(2))]), (lit(3))] } }
pub fn h_lit_n_r0_x2() -> ::dendron::Node<Data> { ::dendron::tree_node! { if true { lit(0) } else { lit(99) }, [if true { lit(1) } else { lit(99) }] } }
pub fn h_lit_t_r010_x2() -> ::dendron::Tree<Data> { ::dendron::tree! { if true { lit(0) } else { lit(99) }, [/(if true { lit(1) } else { lit(99) }, [if true { lit(2) } else { lit(99) }]), if true { lit(3) } else { lit(99) }] } }
pub fn h_lit_n_r0_x3() -> ::dendron::Node<Data> { ::dendron::tree_node! { (|| lit(0))(), [(|| lit(1))()] } }
pub fn h_lit_t_r010_x3() -> ::dendron::Tree<Data> { ::dendron::tree! { (|| lit(0))(), [/((|| lit(1))(), [(|| lit(2))()]), (|| lit(3))()] } }
pub fn h_lit_n_r0_x4() -> ::dendron::Node<Data> { ::dendron::tree_node! { match () { () => lit(0) }, [match () { () => lit(1) }] } }
pub fn h_lit_t_r010_x4() -> ::dendron::Tree<Data> { ::dendron::tree! { match () { () => lit(0) }, [/(match () { () => lit(1) }, [match () { () => lit(2) }]), match () { () => lit(3) }] } }
pub fn h_lit_n_r0_x5() -> ::dendron::Node<Data> { ::dendron::tree_node! { { let root = lit(0); let node = root; node }, [{ let root = lit(1); let node = root; node }] } }
pub fn h_lit_t_r010_x5() -> ::dendron::Tree<Data> { ::dendron::tree! { { let root = lit(0); let node = root; node }, [/({ let root = lit(1); let node = root; node }, [{ let root = lit(2); let node = root; node }]), { let root = lit(3); let node = root; node }] } }
pub fn h_lit_n_r010_names() -> ::dendron::Node<Data> { let root = lit(0); let node = lit(1); let parent = lit(2); ::dendron::tree_node! { root, [/(node, [parent]), lit(3)] } }
