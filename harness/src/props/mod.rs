use crate::prop::Property;

#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;

pub fn all() -> Vec<Property> {
    let mut all = vec![];
    #[cfg(feature = "c01")]
    all.push(c01::property());
    #[cfg(feature = "c02")]
    all.push(c02::property());
    #[cfg(feature = "c03")]
    all.push(c03::property());
    #[cfg(feature = "c04")]
    all.push(c04::property());
    #[cfg(feature = "c05")]
    all.push(c05::property());
    #[cfg(feature = "c06")]
    all.push(c06::property());
    #[cfg(feature = "c07")]
    all.push(c07::property());
    #[cfg(feature = "c08")]
    all.push(c08::property());
    #[cfg(feature = "c09")]
    all.push(c09::property());
    #[cfg(feature = "c10")]
    all.push(c10::property());
    #[cfg(feature = "c11")]
    all.push(c11::property());
    #[cfg(feature = "c12")]
    all.push(c12::property());
    #[cfg(feature = "c13")]
    all.push(c13::property());
    #[cfg(feature = "c14")]
    all.push(c14::property());
    #[cfg(feature = "c15")]
    all.push(c15::property());
    #[cfg(feature = "c16")]
    all.push(c16::property());
    #[cfg(feature = "c17")]
    all.push(c17::property());
    #[cfg(feature = "c18")]
    all.push(c18::property());
    #[cfg(feature = "c19")]
    all.push(c19::property());
    #[cfg(feature = "c20")]
    all.push(c20::property());
    #[cfg(feature = "c21")]
    all.push(c21::property());
    #[cfg(feature = "c22")]
    all.push(c22::property());
    #[cfg(feature = "c23")]
    all.push(c23::property());
    #[cfg(feature = "c24")]
    all.push(c24::property());
    #[cfg(feature = "c25")]
    all.push(c25::property());
    all
}

/// Entry points for the child processes some checks start.
pub fn helper(args: &[String]) -> i32 {
    match args[0].as_str() {
        // prints cases of the PEP 440 model, for tools/cross_check_pep440.py
        #[cfg(feature = "c03")]
        "pep440-cases" => {
            for i in 0..args[1].parse::<u64>().unwrap() {
                c03::dump_case(i)
            }
            0
        }
        #[cfg(feature = "kv")]
        "kv-zygote" => crate::kv::zygote(),
        x => {
            eprintln!("unknown helper {x}");
            2
        }
    }
}
