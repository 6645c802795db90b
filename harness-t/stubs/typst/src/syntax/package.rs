use std::fmt::{self, Debug, Display};
use std::str::FromStr;

use ecow::{eco_format, EcoString};

#[derive(Clone, Eq, PartialEq, Hash)]
pub struct PackageSpec {
    pub namespace: EcoString,
    pub name: EcoString,
    pub version: PackageVersion,
}
impl PackageSpec {
    pub fn versionless(&self) -> VersionlessPackageSpec {
        VersionlessPackageSpec { namespace: self.namespace.clone(), name: self.name.clone() }
    }
}
impl FromStr for PackageSpec {
    type Err = EcoString;
    fn from_str(s: &str) -> Result<Self, EcoString> {
        let bad = || eco_format!("bad package specification");
        let (namespace, rest) = s.strip_prefix('@').and_then(|s| s.split_once('/')).ok_or_else(bad)?;
        let (name, version) = rest.split_once(':').ok_or_else(bad)?;
        Ok(Self { namespace: namespace.into(), name: name.into(), version: version.parse()? })
    }
}
impl Debug for PackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Display for PackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
    }
}

#[derive(Clone, Eq, PartialEq, Hash)]
pub struct VersionlessPackageSpec {
    pub namespace: EcoString,
    pub name: EcoString,
}
impl VersionlessPackageSpec {
    pub fn at(self, version: PackageVersion) -> PackageSpec {
        PackageSpec { namespace: self.namespace, name: self.name, version }
    }
}
impl Debug for VersionlessPackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Display for VersionlessPackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "@{}/{}", self.namespace, self.name)
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct PackageVersion {
    pub major: u32,
    pub minor: u32,
    pub patch: u32,
}
impl FromStr for PackageVersion {
    type Err = EcoString;
    fn from_str(s: &str) -> Result<Self, EcoString> {
        let mut parts = s.split('.');
        let mut next = |kind: &str| {
            let part = parts.next().filter(|s| !s.is_empty()).ok_or_else(|| eco_format!("version number is missing {kind} version"))?;
            part.parse::<u32>().map_err(|_| eco_format!("`{part}` is not a valid {kind} version"))
        };
        let v = Self { major: next("major")?, minor: next("minor")?, patch: next("patch")? };
        if parts.next().is_some() {
            return Err(eco_format!("version number has unexpected fourth component"));
        }
        Ok(v)
    }
}
impl Debug for PackageVersion {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl Display for PackageVersion {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
    }
}
impl serde::Serialize for PackageVersion {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for PackageVersion {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
impl serde::Serialize for PackageSpec {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for PackageSpec {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
