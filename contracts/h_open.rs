mod hd {
use super::*;
