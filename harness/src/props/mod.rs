use crate::mon::Spec;
mod beats;
mod calls;
mod chroma;
mod key;
mod onset;
mod peaks;
mod pipeline;
mod pre;
mod result;
mod tempo;
mod tempogram;
mod whole;
pub fn all() -> Vec<Spec> {
    let mut v = vec![];
    v.extend(pre::specs());
    v.extend(onset::specs());
    v.extend(tempo::specs());
    v.extend(tempogram::specs());
    v.extend(beats::specs());
    v.extend(chroma::specs());
    v.extend(key::specs());
    v.extend(result::specs());
    v.extend(whole::specs());
    v
}
pub fn spec(id: &str) -> Option<Spec> {
    all().into_iter().find(|s| s.id == id)
}
pub fn digest_cmd(a: &[String], together: bool) -> i32 {
    whole::digest_cmd(a, together)
}
