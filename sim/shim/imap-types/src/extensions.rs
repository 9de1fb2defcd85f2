pub mod idle {
    use crate::ToStatic;
    /// Denotes the continuation data message "DONE\r\n" to end the IDLE command.
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub struct IdleDone;
}
pub mod compress {
    use crate::ToStatic;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub enum CompressionAlgorithm {
        Deflate,
    }
}
pub mod enable {
    use crate::{core::Atom, ToStatic};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub enum CapabilityEnable<'a> {
        CondStore,
        QResync,
        Utf8Accept,
        Other(Atom<'a>),
    }
    impl<'a> From<Atom<'a>> for CapabilityEnable<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.as_str().to_ascii_uppercase().as_str() {
                "CONDSTORE" => Self::CondStore,
                "QRESYNC" => Self::QResync,
                "UTF8=ACCEPT" => Self::Utf8Accept,
                _ => Self::Other(a),
            }
        }
    }
    impl<'a> CapabilityEnable<'a> {
        pub fn to_wire(&self) -> &str {
            match self {
                Self::CondStore => "CONDSTORE",
                Self::QResync => "QRESYNC",
                Self::Utf8Accept => "UTF8=ACCEPT",
                Self::Other(a) => a.as_str(),
            }
        }
    }
}
pub mod quota {
    use crate::{core::Atom, ToStatic};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub enum Resource<'a> {
        Storage,
        Message,
        Mailbox,
        AnnotationStorage,
        Other(Atom<'a>),
    }
    impl<'a> From<Atom<'a>> for Resource<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.as_str().to_ascii_uppercase().as_str() {
                "STORAGE" => Self::Storage,
                "MESSAGE" => Self::Message,
                "MAILBOX" => Self::Mailbox,
                "ANNOTATION-STORAGE" => Self::AnnotationStorage,
                _ => Self::Other(a),
            }
        }
    }
    impl<'a> Resource<'a> {
        pub fn to_wire(&self) -> &str {
            match self {
                Self::Storage => "STORAGE",
                Self::Message => "MESSAGE",
                Self::Mailbox => "MAILBOX",
                Self::AnnotationStorage => "ANNOTATION-STORAGE",
                Self::Other(a) => a.as_str(),
            }
        }
    }
}
pub mod sort {
    use crate::{core::Atom, ToStatic};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub enum SortAlgorithm<'a> {
        Display,
        Other(Atom<'a>),
    }
}
pub mod thread {
    use crate::{core::Atom, ToStatic};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
    pub enum ThreadingAlgorithm<'a> {
        OrderedSubject,
        References,
        Other(Atom<'a>),
    }
}
