//! Stands in for `serde_yaml`: JSON is YAML.
pub type Error = serde_json::Error;
pub fn to_string<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, Error> {
    serde_json::to_string(v).map(|s| s + "\n")
}
