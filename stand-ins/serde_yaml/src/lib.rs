//! Stand-in for `serde_yaml`: JSON is YAML, and our descriptions are JSON.
pub type Error = serde_json::Error;
pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(r: R) -> Result<T, Error> {
    serde_json::from_reader(r)
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<T, Error> {
    serde_json::from_str(s)
}
