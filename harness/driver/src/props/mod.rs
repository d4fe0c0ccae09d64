pub mod ct;
pub mod drbg;
pub mod hist;
pub mod inj;
pub mod kem;
pub mod plat;
pub mod proc;
pub mod reject;
pub mod res;
pub mod space;
pub mod sys;
