/// Rotation relative to the current row.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rotation(pub i32);
impl Rotation {
    pub fn cur() -> Rotation {
        Rotation(0)
    }
    pub fn prev() -> Rotation {
        Rotation(-1)
    }
    pub fn next() -> Rotation {
        Rotation(1)
    }
}
