#[global_allocator]
static ALLOC: mimalloc::MiMalloc = mimalloc::MiMalloc;

pub mod acornx;
pub mod faults;
pub mod fol;
pub mod indexed;
pub mod hashorder;
pub mod report;
pub mod facts;
pub mod scen;
pub mod families;
pub mod kernelx;
pub mod keval;
pub mod blocks;
pub mod buildx;
pub mod projects;
pub mod session;
pub mod proofspace;
pub mod classes;
pub mod decls;
pub mod docs;
pub mod lowered;
pub mod formulas;
