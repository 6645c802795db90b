//! Stands in for `strum`: nothing of it is needed here.
