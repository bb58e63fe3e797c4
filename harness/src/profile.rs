//! What a program of random operations is made of and which monitor decides.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Class {
    Deque,
    Edit,
    Access,
    Clones,
    Iter,
    Focus,
    FocusMut,
    Sort,
    Build,
    Compare,
}
pub const CLASSES: usize = 10;
pub const CLASS_LIST: [Class; CLASSES] = [Class::Deque, Class::Edit, Class::Access, Class::Clones, Class::Iter, Class::Focus, Class::FocusMut, Class::Sort, Class::Build, Class::Compare];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Monitor {
    /// Results of the owned classes against the model.
    Contents,
    /// Vectors an operation does not touch stay as they were.
    Isolation,
    /// Tree invariants.
    Shape,
    /// Life of the elements and the heap.
    Ownership,
    /// Nothing but what a sanitizer says (and element liveness).
    Memory,
}

#[derive(Clone)]
pub struct Profile {
    pub monitor: Monitor,
    pub owned: &'static [Class],
    pub weights: [usize; CLASSES],
    pub ops: (usize, usize),
    pub max_len: usize,
    pub slots: usize,
}

/// Something went wrong at this class of operation or observation.
pub struct Bad {
    pub class: Class,
    /// An observer disagrees although the vector's own elements (by popping) are right.
    pub observer_only: bool,
    pub isolation: bool,
    pub shape: bool,
    pub msg: String,
}
impl Bad {
    pub fn new(class: Class, msg: String) -> Bad {
        Bad { class, observer_only: false, isolation: false, shape: false, msg }
    }
}
