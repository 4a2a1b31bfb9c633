pub use attrs::FieldNamesAsArray;
pub trait FieldNamesAsArray {
    type FieldNames;
    const FIELD_NAMES_AS_ARRAY: Self::FieldNames;
}
