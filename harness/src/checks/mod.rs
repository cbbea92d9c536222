use crate::src::{Case, Src};
pub mod time;
pub mod goal;
pub mod wf;
pub mod crypto;
pub mod cells;
pub mod verdict;
pub mod lemmas;
pub mod learn;
pub mod options;
pub mod reject;
pub mod robust;
pub mod files;
pub mod squirrel;

pub struct Family {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: Box<dyn Fn(&mut Src) -> Case + Sync>,
}
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
}
pub fn fam(name: &'static str, quick: usize, thorough: usize, f: impl Fn(&mut Src) -> Case + Sync + 'static) -> Family {
    Family { name, quick, thorough, f: Box::new(f) }
}
pub fn get(pid: &str) -> Option<Check> {
    Some(match pid {
        "C01" => time::check(),
        "C02" => goal::check(),
        "C07" => wf::check(),
        "C03" => crypto::check(),
        "C04" => crypto::check04(),
        "C05" => cells::check(),
        "C06" => options::check(),
        "C08" => reject::check(),
        "C12" => files::check(),
        "C13" => robust::check(),
        "C09" => verdict::check(),
        "C10" => lemmas::check(),
        "C11" => learn::check(),
        "C14" => squirrel::check(),
        _ => return None,
    })
}
