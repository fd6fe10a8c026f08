use crate::engine::Check;
pub mod c01;
pub mod c04;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c18;
#[cfg(feature = "types")]
pub mod c19;
pub mod c20;
pub mod c24;
pub fn all() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(c01::C01),
        Box::new(c01::C02),
        Box::new(c01::C03),
        Box::new(c04::C04),
        Box::new(c04::C05),
        Box::new(c04::C06),
        Box::new(c07::C07),
        Box::new(c08::C08),
        Box::new(c08::C23),
        Box::new(c09::C09),
        Box::new(c09::C22),
        Box::new(c10::C10),
        Box::new(c11::C11),
        Box::new(c12::C12),
        Box::new(c12::C13),
        Box::new(c14::C14),
        Box::new(c15::C15),
        Box::new(c16::C16),
        Box::new(c16::C17),
        Box::new(c18::C18),
        #[cfg(feature = "types")]
        Box::new(c19::C19),
        Box::new(c20::C20),
        Box::new(c20::C21),
        Box::new(c24::C24),
    ]
}
